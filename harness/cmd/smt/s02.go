package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func runS02(r *lib.R) {
	r.Rule("a case is one history of update/commit/reopen steps (a) on a recording in-memory store, (b) on the real database tables, or (c) with one failing store call, each store call of the history being failed in turn; after each commit a tree sharing nothing reads back the whole contents and a proof per key; distinct by roots and failing call")
	r.Assume("keys are digests: no two differ in their last bit only", "a failing store call has no effect (statement atomicity of the database)")
	r.Par(r.N(1500, 40000), func(i int) { history(r, i, r.Rand("hist", i), "persist", true) })
	r.Par(r.N(80, 2000), func(i int) { faults(r, i, r.Rand("fault", i)) })
	realStore(r)
}

// plan is a fixed list of steps that can be replayed.
type step struct {
	b      batch
	commit bool
	reopen bool
}

func makePlan(rng *rand.Rand) ([]step, []K) {
	pool := keyPool(rng, 3+rng.IntN(9))
	vals := values(rng, 4)
	cur := map[K]K{}
	prevs := []map[K]K{{}}
	var plan []step
	n := 3 + rng.IntN(4)
	for i := 0; i < n; i++ {
		b := nextBatch(rng, pool, vals, cur, prevs[len(prevs)-1-rng.IntN(min(2, len(prevs)))])
		b.apply(cur)
		prevs = append(prevs, clone(cur))
		plan = append(plan, step{b: b, commit: rng.IntN(3) != 0 || i == n-1, reopen: rng.IntN(2) == 0})
	}
	return plan, pool
}

// playback is the outcome of replaying a plan up to the first reported failure.
type playback struct {
	st        *memStore
	committed []byte   // root returned by the last successful commit
	contents  map[K]K  // contents at that commit
	at        int      // step at which a failure was reported
	op        string   // failing operation
	err       error    // its error
	attempted map[K]K  // contents the failing commit was about to make durable
	newRoot   []byte
	t         *trie.Trie
}

func play(plan []step, st *memStore, limit int) (p playback) {
	p.st = st
	p.contents = map[K]K{}
	cur := map[K]K{}
	t := open(nil, st, limit)
	p.at = -1
	for i, s := range plan {
		ks, vs := s.b.slices(0)
		if _, err := t.Update(ctx, ks, vs); err != nil {
			p.at, p.op, p.err, p.t = i, "update", err, t
			return
		}
		s.b.apply(cur)
		if s.commit {
			if err := t.Commit(ctx); err != nil {
				p.at, p.op, p.err, p.t = i, "commit", err, t
				p.attempted, p.newRoot = clone(cur), t.Root
				return
			}
			p.committed, p.contents = t.Root, clone(cur)
			if s.reopen {
				t = open(p.committed, st, limit)
			}
		}
	}
	p.t = t
	return
}

// faults fails each store call of a plan in turn.
func faults(r *lib.R, id int, rng *rand.Rand) {
	plan, pool := makePlan(rng)
	limit := []int{-1, 233, 0}[rng.IntN(3)]
	dry := play(plan, newStore(), limit)
	if dry.err != nil {
		r.Violation("fault/dry", "a history with a healthy store failed: "+trunc(dry.err), planString(plan))
		return
	}
	total := dry.st.calls
	for at := 1; at <= total; at++ {
		st := newStore()
		st.failAt = at
		p := play(plan, st, limit)
		desc := append(planString(plan), fmt.Sprintf("case %d: store call %d of %d (%s) fails", id, at, total, st.failed))
		r.Count("injected "+st.failed+" failures", 1)
		if p.err == nil {
			r.Violation("fault/unreported-"+st.failed, "a failing store "+st.failed+" was not reported", desc)
			return
		}
		if !errors.Is(p.err, errInjected) {
			r.Violation("fault/other-error-"+st.failed, "a failing store "+st.failed+" is reported as something else: "+trunc(p.err), desc)
			return
		}
		st.failAt = 0
		// restart: the last committed root must be complete and correct
		fresh := open(p.committed, st.clone(), -1)
		if !checkAll(r, fresh, p.committed, p.contents, pool, "fault/last-committed-after-"+p.op+"-"+st.failed, "reloading the last committed root after a failed "+p.op, desc) {
			return
		}
		// repeating the work from there reaches the same end
		redo := st.clone()
		t := open(p.committed, redo, limit)
		m := clone(p.contents)
		last := 0
		for i := 0; i < p.at; i++ {
			if plan[i].commit {
				last = i + 1
			}
		}
		for _, s := range plan[last:] {
			ks, vs := s.b.slices(0)
			if _, err := t.Update(ctx, ks, vs); err != nil {
				r.Violation("fault/redo-error", "repeating the update after a restart fails: "+trunc(err), desc)
				return
			}
			s.b.apply(m)
			if s.commit {
				if err := t.Commit(ctx); err != nil {
					r.Violation("fault/redo-error", "repeating the commit after a restart fails: "+trunc(err), desc)
					return
				}
			}
		}
		if !checkAll(r, open(t.Root, redo, -1), t.Root, m, pool, "fault/redo", "after repeating the work", desc) {
			return
		}
		// or: the caller just commits again
		if p.op == "commit" {
			if err := p.t.Commit(ctx); err == nil {
				if !checkAll(r, open(p.newRoot, st.clone(), -1), p.newRoot, p.attempted, pool, "fault/recommit", "after a second, successful commit", desc) {
					return
				}
			}
		}
		r.Case(true, "fault", uint64(id), uint64(at))
	}
	if id < 2 {
		r.Sample("%v; each of %d store calls failed in turn", planString(plan), total)
	}
}

func planString(plan []step) []string {
	var s []string
	for _, p := range plan {
		s = append(s, fmt.Sprintf("update%v commit=%v reopen=%v", p.b, p.commit, p.reopen))
	}
	return s
}

// realStore runs histories on the real tables, including the published root record.
func realStore(r *lib.R) {
	dbx.Create("verifsmt")
	conn := dbx.Connect("verifsmt")
	defer conn.Close()
	if root, err := conn.LoadRoot(ctx); err != nil || root != nil {
		r.Violation("db/root-empty", fmt.Sprintf("an empty database publishes a root: %v %v", root, err), nil)
	}
	for h := 0; h < r.N(14, 120) && r.NViol() < 5; h++ {
		rng := r.Rand("db", h)
		dbx.Reset(conn.DB())
		pool := keyPool(rng, []int{6, 12, 60, 400}[h%4])
		vals := values(rng, 5)
		cur := map[K]K{}
		prevs := []map[K]K{{}}
		var hist []string
		t := open(nil, conn, []int{-1, 233}[h%2])
		for s := 0; s < 6; s++ {
			b := nextBatch(rng, pool, vals, cur, prevs[len(prevs)-1-rng.IntN(min(3, len(prevs)))])
			hist = append(hist, fmt.Sprintf("update%v", b))
			ks, vs := b.slices(0)
			if _, err := t.Update(ctx, ks, vs); err != nil {
				r.Violation("db/update", "update on the real database fails: "+trunc(err), hist)
				return
			}
			b.apply(cur)
			prevs = append(prevs, clone(cur))
			if rng.IntN(3) == 0 && s < 5 {
				continue
			}
			if err := t.Commit(ctx); err != nil {
				r.Violation("db/commit", "commit on the real database fails: "+trunc(err), hist)
				return
			}
			hist = append(hist, "commit, save root, reopen")
			if len(t.Root) == 32 {
				id := *(*common.SHA256Output)(t.Root)
				if err := conn.SaveRoot(ctx, &id); err != nil {
					r.Violation("db/save-root", "recording the root fails: "+trunc(err), hist)
					return
				}
				got, err := conn.LoadRoot(ctx)
				if err != nil || got == nil || *got != id {
					r.Violation("db/load-root", fmt.Sprintf("the recorded root is not read back: %v %v", got, err), hist)
					return
				}
				t = open(got[:], conn, []int{-1, 233}[rng.IntN(2)])
			} else {
				t = open(nil, conn, -1)
			}
			if !checkAll(r, t, t.Root, cur, pool, "db/reloaded", fmt.Sprintf("reloaded from the real database, history %d step %d", h, s), hist) {
				return
			}
			for _, k := range pool {
				if !checkProof(r, t, cur, k, "db/proof", hist) {
					return
				}
			}
			r.Count("database reloads checked", 1)
			r.Case(true, "db", bytes.Clone(t.Root))
		}
	}
}
