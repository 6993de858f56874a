// Package ref holds reference definitions, independent of the code under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"sort"
)

type K = [32]byte

func Sha(parts ...[]byte) K {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return K(h.Sum(nil))
}

func bit(k []byte, i int) bool { return k[i/8]>>(7-uint(i%8))&1 == 1 }

func refRoot(keys []K, m map[K]K, height int) []byte {
	switch len(keys) {
	case 0:
		return nil
	case 1:
		v := m[keys[0]]
		h := Sha(keys[0][:], v[:], []byte{byte(height)})
		return h[:]
	}
	b := 256 - height
	i := sort.Search(len(keys), func(i int) bool { return bit(keys[i][:], b) })
	l, r := refRoot(keys[:i], m, height-1), refRoot(keys[i:], m, height-1)
	if l == nil {
		l = []byte{0}
	}
	if r == nil {
		r = []byte{0}
	}
	h := Sha(l, r)
	return h[:]
}

func SortedKeys[V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	SortKs(ks)
	return ks
}

func SortKs(ks []K) {
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i][:], ks[j][:]) < 0 })
}

// Root of a sparse Merkle tree with the contents (nil for the empty one).
func Root(m map[K]K) []byte { return refRoot(SortedKeys(m), m, 256) }

// Glue concatenates identifiers sorted, each once.
func Glue(ids map[K]bool) []byte {
	var b []byte
	for _, k := range SortedKeys(ids) {
		b = append(b, k[:]...)
	}
	return b
}
