// plog monitors the policy log as a whole: the compiled log server and log signer on a real
// database, the admin client and the log client (G03).
package main

import (
	"os"

	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f // the code under test reports its progress there
	}
	lib.Main(map[string]func(*lib.R){"G03": runG03})
}

func must(err error) {
	if err != nil {
		panic("environment: " + err.Error())
	}
}
