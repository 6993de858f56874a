// Monitors for the sparse Merkle tree (S01 map semantics and root, S02 persistence, S03 proofs).
package main

import "github.com/netsec-ethz/fpki/zzverif/lib"

func main() {
	lib.Main(map[string]func(*lib.R){"S01": runS01, "S02": runS02, "S03": runS03})
}
