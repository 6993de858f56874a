package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"

	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

var ctx = context.Background()

// checkAll compares the tree with the model at a quiescent point.
func checkAll(r *lib.R, t *trie.Trie, root []byte, m map[K]K, pool []K, key, where string, hist []string) bool {
	want := modelRoot(m)
	if !bytes.Equal(root, want) {
		r.Violation(key+"/root", fmt.Sprintf("root differs from the root of the same contents %s (got %x want %x, %d keys)", where, root, want, len(m)), hist)
		return false
	}
	if !bytes.Equal(t.Root, want) {
		r.Violation(key+"/root-field", fmt.Sprintf("published root differs %s", where), hist)
		return false
	}
	for _, k := range pool {
		got, err := t.Get(ctx, k[:])
		if err != nil {
			r.Violation(key+"/get-error", fmt.Sprintf("lookup fails %s: %v", where, trunc(err)), hist)
			return false
		}
		v, ok := m[k]
		if ok != (got != nil) || (ok && !bytes.Equal(got, v[:])) {
			r.Violation(key+"/get", fmt.Sprintf("lookup of %x returned %x want %x (present=%v) %s", k, got, v, ok, where), hist)
			return false
		}
	}
	return true
}

func trunc(err error) string {
	s := fmt.Sprint(err)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// history runs one random history and checks it after each step. commits controls whether the
// state is committed and reopened in between.
func history(r *lib.R, id int, rng *rand.Rand, key string, commits bool) {
	n := 2 + rng.IntN(14)
	if rng.IntN(8) == 0 {
		n = 20 + rng.IntN(60)
	}
	pool := keyPool(rng, n)
	vals := values(rng, 4)
	st := newStore()
	limits := []int{-1, -1, 0, 252, 248, 233, 256, 5}
	limit := limits[rng.IntN(len(limits))]
	atomicMode := rng.IntN(5) == 0
	t := open(nil, st, limit)
	cur := map[K]K{}
	prevs := []map[K]K{{}}
	hist := []string{fmt.Sprintf("case %d keys=%d cacheHeightLimit=%d atomic=%v", id, n, limit, atomicMode)}
	steps := 3 + rng.IntN(10)
	sig := []byte{}
	committedSince := true
	for s := 0; s < steps; s++ {
		prev := prevs[len(prevs)-1-rng.IntN(min(3, len(prevs)))]
		b := nextBatch(rng, pool, vals, cur, prev)
		mode := rng.IntN(2)
		hist = append(hist, fmt.Sprintf("update%v mode=%d", b, mode))
		ks, vs := b.slices(mode)
		var root []byte
		var err error
		at := atomicMode && rng.IntN(2) == 0
		ok := r.NoPanic(key+"/panic", fmt.Sprintf("update of history %v", hist), func() {
			if at {
				root, err = t.AtomicUpdate(ctx, ks, vs)
			} else {
				root, err = t.Update(ctx, ks, vs)
			}
		})
		if !ok {
			return
		}
		if err != nil {
			r.Violation(key+"/update-error", "an update with a healthy store failed: "+trunc(err), hist)
			return
		}
		b.apply(cur)
		prevs = append(prevs, clone(cur))
		committedSince = false
		r.Count("updates", 1)
		r.Count("operations", len(b.ops))
		r.Seen("contents", modelRoot(cur))
		r.Seen("batch kinds", b.kinds)
		sig = append(sig, root...)
		// where to look: at each step, or only later (so that unread state is not refreshed)
		if rng.IntN(3) != 0 && !checkAll(r, t, root, cur, pool, key, fmt.Sprintf("after step %d", s), hist) {
			return
		} else if !bytes.Equal(root, modelRoot(cur)) {
			checkAll(r, t, root, cur, pool, key, fmt.Sprintf("after step %d", s), hist)
			return
		}
		if commits && rng.IntN(2) == 0 {
			if err := t.Commit(ctx); err != nil {
				r.Violation(key+"/commit-error", "commit with a healthy store failed: "+trunc(err), hist)
				return
			}
			committedSince = true
			hist = append(hist, "commit")
			r.Count("commits", 1)
			// what is stored now must be enough, read by a tree that shares nothing
			fresh := open(t.Root, st.clone(), -1)
			if !checkAll(r, fresh, t.Root, cur, pool, key+"/reloaded", fmt.Sprintf("reloaded after step %d", s), hist) {
				return
			}
			if rng.IntN(2) == 0 {
				root := t.Root
				t = open(root, st, limit)
				hist = append(hist, "reopen")
				r.Count("reopens", 1)
				if rng.IntN(3) == 0 && len(root) > 0 {
					if err := t.LoadCache(ctx, root); err != nil {
						r.Violation(key+"/loadcache", "loading the cache of a committed root failed: "+trunc(err), hist)
						return
					}
					hist = append(hist, "loadcache")
				}
			}
		}
	}
	if commits && !committedSince {
		if err := t.Commit(ctx); err != nil {
			r.Violation(key+"/commit-error", "commit failed: "+trunc(err), hist)
			return
		}
		fresh := open(t.Root, st.clone(), -1)
		if !checkAll(r, fresh, t.Root, cur, pool, key+"/reloaded", "reloaded at the end", hist) {
			return
		}
	}
	if !checkAll(r, t, t.Root, cur, pool, key, "at the end", hist) {
		return
	}
	r.Count("store reads", st.reads)
	r.Case(len(sig) > 0, sig)
	if id < 3 {
		r.Sample("%v", hist)
	}
}

func runS01(r *lib.R) {
	r.Rule("a case is one random history of update batches (insert, overwrite, same value, revert, delete, delete absent, delete all; clustered and unrelated keys; commit/reopen at random) compared step by step with an independently computed root and map; non-trivial and distinct by the sequence of roots produced")
	r.Assume("keys in a batch are sorted and distinct and values are 32 bytes, as the update routine's contract demands", "keys are digests: no two differ in their last bit only")
	n := r.N(2500, 60000)
	r.Par(n, func(i int) { history(r, i, r.Rand("hist", i), "map", i%3 != 0) })
	// same contents through different routes: permuted batch splits reach one root
	r.Par(r.N(150, 3000), func(i int) { routes(r, i, r.Rand("route", i)) })
	// the parallel path: batches above the spawn threshold, under the race detector
	for i := 0; i < r.N(2, 12) && r.NViol() < 5; i++ {
		parallel(r, i, r.Rand("par", i))
	}
	for i := 0; i < r.N(6, 40) && r.NViol() < 5; i++ {
		bulk(r, i, r.Rand("bulk", i))
	}
	edge(r)
}

// bulk drives large one-sided batches: a crowded region is emptied (or nearly) in one batch while
// the sparse region beside it is touched by the same batch.
func bulk(r *lib.R, id int, rng *rand.Rand) {
	st := newStore()
	t := open(nil, st, []int{-1, 233}[rng.IntN(2)])
	cur := map[K]K{}
	vals := values(rng, 9)
	depth := rng.IntN(7) // number of leading bits common to both regions
	var prefix K
	for j := range prefix {
		prefix[j] = byte(rng.Uint32())
	}
	mk := func(side int) (k K) {
		for j := range k {
			k[j] = byte(rng.Uint32())
		}
		m := byte(0xff) << (8 - depth)
		k[0] = k[0]&^m | prefix[0]&m
		bit := byte(0x80) >> depth
		k[0] &^= bit
		if side == 1 {
			k[0] |= bit
		}
		return
	}
	crowdSide := id % 2
	var crowd, sparse []K
	for i, n := 0, 4200+rng.IntN(1500); i < n; i++ {
		crowd = append(crowd, mk(crowdSide))
	}
	for i, n := 0, 1+rng.IntN(3)*min(id%3, 1); i < n; i++ {
		sparse = append(sparse, mk(1-crowdSide))
	}
	if id%3 == 2 { // both crowded
		for i := 0; i < 4300; i++ {
			sparse = append(sparse, mk(1-crowdSide))
		}
	}
	for step := 0; step < 5; step++ {
		m := map[K]op{}
		left := rng.IntN(3)
		if step == 1 {
			left = 0
		}
		for i, k := range crowd {
			if step%2 == 0 || i < left {
				m[k] = op{key: k, val: vals[rng.IntN(len(vals))]}
			} else {
				m[k] = op{key: k, del: true}
			}
		}
		keep := 1 + rng.IntN(2)
		if step == 1 {
			keep = 1
		} else if step == 3 { // nothing but at most a few of the crowded side stay
			keep = 0
		}
		for i, k := range sparse {
			switch {
			case step%2 == 0 || i < keep:
				m[k] = op{key: k, val: vals[rng.IntN(len(vals))]}
			case id%3 == 2 || keep == 0 || rng.IntN(2) == 0:
				m[k] = op{key: k, del: true}
			}
		}
		var b batch
		all := make([]K, 0, len(m))
		for k := range m {
			all = append(all, k)
		}
		for _, k := range sortedKeysOf(all) {
			b.ops = append(b.ops, m[k])
		}
		ks, vs := b.slices(step % 2)
		root, err := t.Update(ctx, ks, vs)
		if err != nil {
			r.Violation("bulk/error", trunc(err), nil)
			return
		}
		b.apply(cur)
		if !bytes.Equal(root, modelRoot(cur)) {
			r.Violation("bulk/root", fmt.Sprintf("case %d step %d: a one-sided batch of %d operations leaving %d keys leads to a wrong root", id, step, len(b.ops), len(cur)), nil)
			return
		}
		if rng.IntN(2) == 0 {
			if err := t.Commit(ctx); err != nil {
				r.Violation("bulk/error", trunc(err), nil)
				return
			}
			if rng.IntN(2) == 0 {
				t = open(root, st, -1)
			}
		}
		for _, k := range append(sparse[:min(len(sparse), 20):min(len(sparse), 20)], crowd[:20]...) {
			got, err := t.Get(ctx, k[:])
			v, ok := cur[k]
			if err != nil || ok != (got != nil) || (ok && !bytes.Equal(got, v[:])) {
				r.Violation("bulk/get", fmt.Sprintf("case %d step %d: lookup returned %x, %v; want %x %v", id, step, got, err, v, ok), nil)
				return
			}
		}
		r.Count("bulk batch operations", len(b.ops))
		r.Case(true, root)
	}
}

// routes reaches one set of contents by several different histories and compares the roots.
func routes(r *lib.R, id int, rng *rand.Rand) {
	pool := keyPool(rng, 3+rng.IntN(40))
	vals := values(rng, 5)
	target := map[K]K{}
	for _, k := range pool {
		if rng.IntN(4) != 0 {
			target[k] = vals[rng.IntN(len(vals))]
		}
	}
	want := modelRoot(target)
	for route := 0; route < 4; route++ {
		st := newStore()
		t := open(nil, st, -1)
		// noise first: put a random subset with wrong values, later removed or overwritten
		cur := map[K]K{}
		if route > 0 {
			var b batch
			for _, k := range sortedKeysOf(pool) {
				if rng.IntN(2) == 0 {
					b.ops = append(b.ops, op{key: k, val: vals[rng.IntN(len(vals))]})
				}
			}
			if len(b.ops) > 0 {
				ks, vs := b.slices(0)
				if _, err := t.Update(ctx, ks, vs); err != nil {
					r.Violation("routes/error", trunc(err), nil)
					return
				}
				b.apply(cur)
			}
			if route == 2 {
				if err := t.Commit(ctx); err != nil {
					r.Violation("routes/error", trunc(err), nil)
					return
				}
			}
		}
		perm := rng.Perm(len(pool))
		for len(perm) > 0 {
			n := 1 + rng.IntN(len(perm))
			if route == 0 {
				n = len(perm)
			}
			part := make([]K, 0, n)
			for _, p := range perm[:n] {
				part = append(part, pool[p])
			}
			perm = perm[n:]
			var b batch
			for _, k := range sortedKeysOf(part) {
				v, ok := target[k]
				if ok {
					b.ops = append(b.ops, op{key: k, val: v})
				} else if _, there := cur[k]; there || rng.IntN(2) == 0 {
					b.ops = append(b.ops, op{key: k, del: true})
				}
			}
			if len(b.ops) == 0 {
				continue
			}
			ks, vs := b.slices(0)
			if _, err := t.Update(ctx, ks, vs); err != nil {
				r.Violation("routes/error", trunc(err), nil)
				return
			}
			b.apply(cur)
		}
		if !bytes.Equal(t.Root, want) {
			r.Violation("routes/root", fmt.Sprintf("case %d route %d: the same contents reached by another history have another root (%x, want %x)", id, route, t.Root, want), nil)
			return
		}
		r.Count("routes compared", 1)
	}
	r.Case(len(target) > 1, want)
}

func sortedKeysOf(ks []K) []K {
	m := map[K]K{}
	for _, k := range ks {
		m[k] = K{}
	}
	return sortedKeys(m)
}

// parallel drives batches large enough for concurrent sub-updates.
func parallel(r *lib.R, id int, rng *rand.Rand) {
	st := newStore()
	t := open(nil, st, []int{-1, 233}[id%2])
	cur := map[K]K{}
	vals := values(rng, 50)
	n := 12000 + rng.IntN(6000)
	keys := make([]K, n)
	for i := range keys {
		for j := 0; j < 32; j++ {
			keys[i][j] = byte(rng.Uint32())
		}
		if rng.IntN(5) == 0 && i > 0 { // near neighbours
			keys[i] = keys[i-1]
			keys[i][31-rng.IntN(20)] ^= byte(2 * (1 + rng.IntN(127)))
		}
	}
	for step := 0; step < 3; step++ {
		var b batch
		for _, k := range sortedKeysOf(keys) {
			switch {
			case step == 0 || rng.IntN(3) == 0:
				b.ops = append(b.ops, op{key: k, val: vals[rng.IntN(len(vals))]})
			case rng.IntN(3) == 0:
				b.ops = append(b.ops, op{key: k, del: true})
			case rng.IntN(2) == 0:
				if v, ok := cur[k]; ok {
					b.ops = append(b.ops, op{key: k, val: v})
				}
			}
		}
		ks, vs := b.slices(step % 2)
		root, err := t.Update(ctx, ks, vs)
		if err != nil {
			r.Violation("parallel/error", trunc(err), nil)
			return
		}
		b.apply(cur)
		if !bytes.Equal(root, modelRoot(cur)) {
			r.Violation("parallel/root", fmt.Sprintf("case %d step %d: a large batch of %d operations leads to a wrong root", id, step, len(b.ops)), nil)
			return
		}
		if err := t.Commit(ctx); err != nil {
			r.Violation("parallel/error", trunc(err), nil)
			return
		}
		r.Count("parallel batch operations", len(b.ops))
		if step > 0 {
			t = open(root, st, -1)
		}
		for i := 0; i < 2000; i++ {
			k := keys[rng.IntN(n)]
			got, err := t.Get(ctx, k[:])
			v, ok := cur[k]
			if err != nil || ok != (got != nil) || (ok && !bytes.Equal(got, v[:])) {
				r.Violation("parallel/get", fmt.Sprintf("case %d step %d: lookup returned %x, %v; want %x %v", id, step, got, err, v, ok), nil)
				return
			}
		}
		r.Case(true, root)
	}
}

// edge drives argument corner cases: empty batches, mismatching lengths.
func edge(r *lib.R) {
	t := open(nil, newStore(), -1)
	k, v := K{1}, K{2}
	if _, err := t.Update(ctx, [][]byte{k[:]}, [][]byte{v[:]}); err != nil {
		r.Violation("edge/error", trunc(err), nil)
	}
	before := append([]byte(nil), t.Root...)
	t.Update(ctx, nil, nil)
	if !bytes.Equal(before, t.Root) {
		r.Violation("edge/empty-batch", "an empty batch changes the root", nil)
	}
	if _, err := t.Update(ctx, [][]byte{k[:]}, nil); err == nil {
		r.Violation("edge/mismatch", "keys without values are accepted", nil)
	}
	if !bytes.Equal(before, t.Root) {
		r.Violation("edge/mismatch-root", "a refused batch changes the root", nil)
	}
	r.Case(true, "edge")
}
