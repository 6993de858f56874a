// Monitors for the map server's database and update cycle (M01-M06, R01).
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f // the code under test reports its progress there
	}
	lib.Main(map[string]func(*lib.R){"M01": runM01, "M02": runM02, "M03": runM03, "M04": runM04, "M09": runM09})
}

// withDBs runs f(0..n-1) with several databases, each used by one case at a time.
func withDBs(r *lib.R, workers, n int, f func(i int, conn db.Conn)) {
	conns := make(chan db.Conn, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("verif%d", w)
			dbx.Create(name)
			conns <- dbx.Connect(name)
		}()
	}
	wg.Wait()
	r.ParW(workers, n, func(i int) {
		c := <-conns
		defer func() { conns <- c }()
		dbx.Reset(c.DB())
		f(i, c)
	})
	close(conns)
	for c := range conns {
		c.Close()
	}
}
