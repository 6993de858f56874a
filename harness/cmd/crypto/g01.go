package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/bits"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// The log's tree, written down from RFC 6962.
func mth(leaves [][]byte) []byte {
	switch len(leaves) {
	case 0:
		h := sha256.Sum256(nil)
		return h[:]
	case 1:
		return leaves[0]
	}
	k := split(len(leaves))
	return node(mth(leaves[:k]), mth(leaves[k:]))
}

func leafHash(b []byte) []byte {
	h := sha256.Sum256(append([]byte{0}, b...))
	return h[:]
}

func node(a, b []byte) []byte {
	h := sha256.Sum256(append(append([]byte{1}, a...), b...))
	return h[:]
}

func split(n int) int { return 1 << (bits.Len(uint(n-1)) - 1) }

func path(m int, leaves [][]byte) [][]byte {
	if len(leaves) <= 1 {
		return nil
	}
	k := split(len(leaves))
	if m < k {
		return append(path(m, leaves[:k]), mth(leaves[k:]))
	}
	return append(path(m-k, leaves[k:]), mth(leaves[:k]))
}

func consistency(m int, leaves [][]byte, whole bool) [][]byte {
	n := len(leaves)
	if m == n {
		if whole {
			return nil
		}
		return [][]byte{mth(leaves)}
	}
	k := split(n)
	if m <= k {
		return append(consistency(m, leaves[:k], whole), mth(leaves[k:]))
	}
	return append(consistency(m-k, leaves[k:], false), mth(leaves[:k]))
}

func samePath(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func g01(r *lib.R) {
	r.Rule("logs of every size up to a bound, forked logs and logs with repeated entries; every entry's proof against every other index, size, entry and head; paths with a node changed, dropped, added, swapped; several proofs at once with malformed and missing ones; every pair of sizes for consistency, forks, wrong proofs, reversed order")
	r.Assume("tree heads are those of a log (hash and size belong together); SHA-256 has no collisions")
	v := logverifier.NewLogVerifier(nil)
	maxN := r.N(20, 70)
	rnd0 := r.Rand("entries")
	entries := make([][]byte, maxN)
	var hashes [][]byte
	for i := range entries {
		entries[i] = rbytes(rnd0, rnd0.IntN(50))
		if i%7 == 6 { // repeated entry
			entries[i] = entries[i/2]
		}
		if h := v.HashLeaf(entries[i]); !bytes.Equal(h, leafHash(entries[i])) {
			r.Violatedf("leaf-hash", "hash of entry %d", i)
		}
		hashes = append(hashes, leafHash(entries[i]))
	}
	head := func(hs [][]byte) *trilliantypes.LogRootV1 {
		return &trilliantypes.LogRootV1{TreeSize: uint64(len(hs)), RootHash: mth(hs), TimestampNanos: 5}
	}
	heads := make([]*trilliantypes.LogRootV1, maxN+1)
	for n := range heads {
		heads[n] = head(hashes[:n])
	}
	// truth: is path an inclusion proof for the entry at that index of the log with n entries?
	truth := func(n int, index int64, leaf []byte, p [][]byte) bool {
		return index >= 0 && index < int64(n) && bytes.Equal(hashes[index], leaf) && samePath(p, path(int(index), hashes[:n]))
	}
	check := func(n int, leaf []byte, proofs []*trillian.Proof, kind string) {
		want := false
		for _, p := range proofs {
			if p != nil && truth(n, p.LeafIndex, leaf, p.Hashes) {
				want = true
			}
		}
		r.NoPanic("inclusion-panic", kind, func() {
			err := v.VerifyInclusionByHash(heads[n], leaf, proofs)
			r.Case(true, kind, n, leaf, fmt.Sprint(proofs))
			r.Count(fmt.Sprintf("inclusion %s: valid %v", kind, want), 1)
			if (err == nil) != want {
				r.Violation("inclusion", fmt.Sprintf("%s in a log of %d entries: valid %v, answer %v", kind, n, want, err), fmt.Sprint(proofs))
			}
		})
	}
	for n := 0; n <= maxN; n++ {
		for i := 0; i < n; i++ {
			rnd := r.Rand("incl", n, i)
			p := path(i, hashes[:n])
			mk := func(idx int64, h [][]byte) *trillian.Proof { return &trillian.Proof{LeafIndex: idx, Hashes: h} }
			honest := mk(int64(i), p)
			check(n, hashes[i], []*trillian.Proof{honest}, "honest")
			var bad []*trillian.Proof
			for j := -1; j <= n+1; j++ { // other indexes
				if j != i {
					bad = append(bad, mk(int64(j), p))
				}
			}
			bad = append(bad, mk(1<<62, p), mk(-1<<63, p), nil, mk(int64(i), nil), &trillian.Proof{})
			bad = append(bad, mk(int64(i), append(clone(p), rbytes(rnd, 32))), mk(int64(i), append([][]byte{rbytes(rnd, 32)}, p...)), mk(int64(i), append(clone(p), nil)))
			for k := range p {
				q := clone(p)
				q[k][rnd.IntN(32)] ^= 1 << rnd.IntN(8)
				bad = append(bad, mk(int64(i), q))
				q = clone(p)
				q[k] = q[k][:31]
				bad = append(bad, mk(int64(i), q))
				bad = append(bad, mk(int64(i), append(clone(p[:k]), clone(p[k+1:])...)))
				if k > 0 {
					q = clone(p)
					q[k], q[k-1] = q[k-1], q[k]
					bad = append(bad, mk(int64(i), q))
				}
			}
			for _, b := range bad {
				check(n, hashes[i], []*trillian.Proof{b}, "altered proof")
			}
			for m := 0; m <= maxN; m++ { // other heads
				if m != n {
					check(m, hashes[i], []*trillian.Proof{honest}, "other size")
				}
			}
			for j := 0; j < n; j++ { // other entries
				if j != i {
					check(n, hashes[j], []*trillian.Proof{honest}, "other entry")
				}
			}
			check(n, rbytes(rnd, 32), []*trillian.Proof{honest}, "absent entry")
			check(n, entries[i], []*trillian.Proof{honest}, "entry instead of its hash")
			check(n, nil, []*trillian.Proof{honest}, "no entry")
			// Several proofs, one valid anywhere.
			for k := 0; k < 6; k++ {
				var list []*trillian.Proof
				for j := rnd.IntN(5); j > 0; j-- {
					list = append(list, bad[rnd.IntN(len(bad))])
				}
				if k%2 == 0 {
					at := rnd.IntN(len(list) + 1)
					list = append(list[:at:at], append([]*trillian.Proof{honest}, list[at:]...)...)
				}
				check(n, hashes[i], list, "several proofs")
			}
			check(n, hashes[i], nil, "no proofs")
		}
	}
	r.NoPanic("inclusion-panic", "no head", func() {
		if v.VerifyInclusionByHash(nil, hashes[0], []*trillian.Proof{{}}) == nil {
			r.Violatedf("inclusion", "inclusion in no tree head is accepted")
		}
	})
	// Consistency.
	advance := func(a, b *trilliantypes.LogRootV1, p [][]byte, want bool, kind string) {
		r.NoPanic("consistency-panic", kind, func() {
			got, err := v.VerifyRoot(a, b, p)
			r.Case(true, kind, a, b, fmt.Sprint(p))
			r.Count(fmt.Sprintf("consistency %s: valid %v", kind, want), 1)
			if (err == nil) != want {
				r.Violation("consistency", fmt.Sprintf("%s from %d to %d: valid %v, answer %v", kind, a.TreeSize, b.TreeSize, want, err), fmt.Sprint(p))
			}
			if err == nil && got != b && (got == nil || !bytes.Equal(got.RootHash, b.RootHash) || got.TreeSize != b.TreeSize) || err != nil && got != nil {
				r.Violation("consistency", "the accepted tree head is not the new one", fmt.Sprint(got))
			}
		})
	}
	for n := 0; n <= maxN; n++ {
		for m := 0; m <= n; m++ {
			rnd := r.Rand("cons", n, m)
			var p [][]byte
			if m > 0 {
				p = consistency(m, hashes[:n], true)
			}
			advance(heads[m], heads[n], p, true, "honest")
			if m == 0 {
				continue // everything extends the empty log
			}
			advance(heads[n], heads[m], p, m == n, "backwards")
			// A fork: another log that shares fewer entries.
			f := clone(hashes[:n])
			f[rnd.IntN(m)] = rbytes(rnd, 32)
			advance(heads[m], head(f), consistency(m, f, true), false, "fork")
			advance(head(f[:m]), heads[n], p, bytes.Equal(mth(f[:m]), heads[m].RootHash), "fork")
			var bad [][][]byte
			bad = append(bad, append(clone(p), rbytes(rnd, 32)), [][]byte{rbytes(rnd, 32)})
			if len(p) > 0 {
				k := rnd.IntN(len(p))
				q := clone(p)
				q[k][rnd.IntN(32)] ^= 1 << rnd.IntN(8)
				bad = append(bad, q, p[:len(p)-1], p[1:], nil)
			}
			for _, q := range bad {
				advance(heads[m], heads[n], q, false, "altered proof")
			}
			if m2 := 1 + rnd.IntN(maxN); m2 != m {
				lo, hi := min(m2, n), max(m2, n)
				q := consistency(lo, hashes[:hi], true)
				advance(heads[m], heads[n], q, samePath(p, q), "proof of other sizes")
			}
			// Both together.
			i := rnd.IntN(m)
			both := func(a, b *trilliantypes.LogRootV1, cp [][]byte, leaf []byte, ps []*trillian.Proof, want bool, kind string) {
				r.NoPanic("both-panic", kind, func() {
					err := v.VerifyInclusionWithPrevLogRoot(a, b, cp, leaf, ps)
					r.Count(fmt.Sprintf("inclusion in an older head %s: valid %v", kind, want), 1)
					if (err == nil) != want {
						r.Violation("older-head", fmt.Sprintf("%s: valid %v, answer %v", kind, want, err), nil)
					}
				})
			}
			ip := []*trillian.Proof{{LeafIndex: int64(i), Hashes: path(i, hashes[:m])}}
			both(heads[m], heads[n], p, hashes[i], ip, true, "honest")
			both(heads[m], heads[n], bad[0], hashes[i], ip, false, "wrong consistency")
			both(heads[m], heads[n], p, rbytes(rnd, 32), ip, false, "wrong entry")
			both(heads[m], head(f), consistency(m, f, true), hashes[i], ip, false, "fork")
			both(nil, heads[n], p, hashes[i], ip, false, "no head")
			both(heads[m], nil, p, hashes[i], ip, false, "no head")
		}
	}
	for _, h := range [][2]*trilliantypes.LogRootV1{{nil, heads[1]}, {heads[1], nil}, {nil, nil}} {
		r.NoPanic("consistency-panic", "no head", func() {
			if _, err := v.VerifyRoot(h[0], h[1], nil); err == nil {
				r.Violatedf("consistency", "a missing tree head is accepted")
			}
		})
	}
}
