// server monitors the map server as a whole: its public interface, its updates and their
// interruption (M05-M08, R01).
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f // the code under test reports its progress there
	}
	lib.Main(map[string]func(*lib.R){"M05": runM05, "M06": runM06, "M07": runM07, "M08": runM08, "R01": runR01})
}

// withDBs runs f(0..n-1) with several databases, each used by one case at a time.
func withDBs(r *lib.R, workers, n int, f func(i int, name string)) {
	names := make(chan string, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("verifsrv%d", w)
			dbx.Create(name)
			names <- name
		}()
	}
	wg.Wait()
	r.ParW(workers, n, func(i int) {
		name := <-names
		defer func() { names <- name }()
		c := dbx.Connect(name)
		dbx.Reset(c.DB())
		c.Close()
		f(i, name)
	})
}
