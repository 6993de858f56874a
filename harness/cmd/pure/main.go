// pure monitors the utility layers: collections, times, caches, certificate files, domain names,
// policy attributes and the CSV row parser.
package main

import (
	"math/rand/v2"
	"os"
	"testing"

	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// mainT lets monitors use the simulated clock of package synctest.
var mainT *testing.T

func main() {
	args := os.Args
	os.Args = args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "monitor", F: func(t *testing.T) {
			mainT, os.Args = t, args
			lib.Main(map[string]func(*lib.R){
				"U01": u01, "U02": u02, "K01": k01, "N01": n01, "D01": d01, "I04": i04, "C05": c05,
			})
		}}}, nil, nil)
}

// fillRand fills b with pseudo-random bytes.
func fillRand(rnd *rand.Rand, b []byte) {
	for i := range b {
		b[i] = byte(rnd.Uint32())
	}
}

type rng = *rand.Rand
