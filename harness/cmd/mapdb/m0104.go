package main

import (
	"fmt"
	"math/rand/v2"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

type profile struct {
	certs, names, pols int
	steps              int
	wDeliver, wPrune, wCoalesce, wPublish, wQuery int
}

func (h *hist) pick(rng *rand.Rand, max int) (cs []*cert, ps []*policy) {
	for n := rng.IntN(max + 1); n > 0; n-- {
		cs = append(cs, h.u.certs[rng.IntN(len(h.u.certs))])
	}
	if len(h.u.pols) > 0 {
		for n := rng.IntN(5); n > 0; n-- {
			ps = append(ps, h.u.pols[rng.IntN(len(h.u.pols))])
		}
	}
	return
}

func (h *hist) pruneTime(rng *rand.Rand) time.Time {
	t := h.u.certs[rng.IntN(len(h.u.certs))].exp
	if t.Year() > 2100 {
		t = h.u.base
	}
	t = t.Add(time.Duration(rng.IntN(3)-1) * time.Second)
	if rng.IntN(2) == 0 {
		t = h.u.base.Add(time.Duration(rng.IntN(20000)) * time.Second) // removes some only
	}
	if rng.IntN(2) == 0 {
		t = t.In(time.FixedZone("z", 3600*(rng.IntN(20)-10)))
	}
	return t
}

func history(r *lib.R, conn db.Conn, name string, rng *rand.Rand, p profile) *hist {
	h := &hist{r: r, conn: conn, m: newModel(), id: name, u: newUniverse(rng, p.certs, p.names, p.pols)}
	total := p.wDeliver + p.wPrune + p.wCoalesce + p.wPublish + p.wQuery
	for s := 0; s < p.steps && !h.bad; s++ {
		w := rng.IntN(total)
		switch {
		case w < p.wDeliver || s == 0:
			mx := []int{1, 3, 10, p.certs}[rng.IntN(4)]
			cs, ps := h.pick(rng, mx)
			h.deliver(rng, cs, ps)
		case w < p.wDeliver+p.wPrune:
			h.prune(h.pruneTime(rng))
		case w < p.wDeliver+p.wPrune+p.wCoalesce:
			h.coalesce()
		case w < p.wDeliver+p.wPrune+p.wCoalesce+p.wPublish:
			if h.coalesce() {
				h.publish(rng.IntN(4) != 0)
			}
		default:
			h.queries(rng)
		}
		r.Count("operations", 1)
	}
	if !h.bad && h.coalesce() {
		h.publish(true)
		h.full()
	}
	r.Case(true, name, ref.Root(h.m.pub), len(h.log))
	r.Sample("%s: %v", name, h.log)
	return h
}

// full: after everything pending was published, the map is the one built from scratch.
func (h *hist) full() {
	want := map[K]K{}
	for d := range h.m.names {
		cs, ps := h.m.material(d)
		if len(cs)+len(ps) > 0 {
			want[d] = value(cs, ps)
		}
	}
	a, b := ref.Root(want), ref.Root(h.m.pub)
	if string(a) != string(b) {
		h.fail("M01/rebuild", "the incrementally updated map differs from one built from scratch: a domain was not pending when it should have been")
	}
}

func runM01(r *lib.R) {
	r.Rule("case: one history of deliveries (batches, repetitions, shuffles, known chains), prunings and update cycles on the real tables; distinct by final root and length")
	r.Assume("a certificate always comes with its same chain", "SHA-256 has no collisions")
	withDBs(r, 6, r.N(60, 900), func(i int, conn db.Conn) {
		rng := r.Rand("hist", i)
		p := profile{certs: []int{5, 12, 30, 80}[i%4], names: []int{1, 3, 12, 60}[rng.IntN(4)], pols: []int{0, 4, 12}[rng.IntN(3)],
			steps: 7, wDeliver: 6, wPrune: 1, wCoalesce: 1, wPublish: 4, wQuery: 0}
		if i == 0 { // one domain with very many certificates, long identifier lists
			p.certs, p.names = 700, 2
		}
		history(r, conn, fmt.Sprintf("history %d", i), rng, p)
	})
	if r.NViol() > 0 {
		return
	}
	orders(r)
}

// orders: the same material by different routes.
func orders(r *lib.R) {
	routes := 6
	for c := 0; c < r.N(3, 30) && r.NViol() == 0; c++ {
		roots := make([]string, routes)
		withDBs(r, 6, routes, func(i int, conn db.Conn) {
			u := newUniverse(r.Rand("orders", c), 40, []int{3, 15, 40}[c%3], 8)
			rng := r.Rand("orders", c, i)
			h := &hist{r: r, conn: conn, m: newModel(), id: fmt.Sprintf("route %d of material %d", i, c), u: u}
			cs := append([]*cert{}, u.certs...)
			ps := append([]*policy{}, u.pols...)
			if i > 0 {
				rng.Shuffle(len(cs), func(a, b int) { cs[a], cs[b] = cs[b], cs[a] })
				rng.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
			}
			for (len(cs) > 0 || len(ps) > 0) && !h.bad {
				n, k := min(len(cs), 1+rng.IntN(20)), min(len(ps), rng.IntN(4))
				if i == 0 || rng.IntN(12) == 0 {
					n, k = len(cs), len(ps)
				}
				h.deliver(rng, cs[:n], ps[:k])
				if rng.IntN(3) == 0 { // repeat some
					h.deliver(rng, cs[:n/2], ps[:k/2])
				}
				cs, ps = cs[n:], ps[k:]
				if rng.IntN(3) == 0 && h.coalesce() {
					h.publish(rng.IntN(2) == 0)
				}
			}
			if !h.bad && h.coalesce() {
				h.publish(true)
			}
			roots[i] = string(ref.Root(h.m.pub))
			r.Case(true, "route", c, i, len(h.log))
			r.Count("routes", 1)
		})
		for i := range roots {
			if r.NViol() == 0 && roots[i] != roots[0] {
				r.Violatedf("M01/route", "material %d: route %d ends in another root", c, i)
			}
		}
	}
}

func runM02(r *lib.R) {
	r.Rule("case: one history with the pending set compared after every step and all read interfaces of pending and stored domains exercised")
	withDBs(r, 6, r.N(48, 700), func(i int, conn db.Conn) {
		rng := r.Rand("hist", i)
		if i < 2 {
			crowdedPartition(r, conn, rng, i)
			return
		}
		p := profile{certs: []int{6, 20, 60}[i%3], names: []int{3, 40, 150}[rng.IntN(3)], pols: []int{0, 6}[rng.IntN(2)],
			steps: 8, wDeliver: 5, wPrune: 2, wCoalesce: 2, wPublish: 2, wQuery: 4}
		history(r, conn, fmt.Sprintf("history %d", i), rng, p)
	})
}

// crowdedPartition: more pending domains in one partition than one refresh chunk holds.
func crowdedPartition(r *lib.R, conn db.Conn, rng *rand.Rand, i int) {
	n := []int{1500, 2300}[i]
	u := newUniverse(rng, 10, 3, 0)
	part := byte(rng.IntN(32))
	var names []string
	for j := 0; len(names) < n; j++ {
		s := fmt.Sprintf("crowd%d-%d.com", i, j)
		if d := nameID(s); d[0]>>3 == part || j%40 == 0 {
			names = append(names, s)
		}
	}
	for j, s := range names {
		c := u.certs[j%len(u.certs)]
		c.names = append(c.names, s)
		c.x.DNSNames = append(c.x.DNSNames, s)
	}
	h := &hist{r: r, conn: conn, m: newModel(), u: u, id: fmt.Sprintf("crowded partition %d", i)}
	for h.deliver(rng, u.certs, nil) && h.queries(rng) && h.coalesce() && h.queries(rng) && h.publish(true) {
		if !h.prune(u.base.Add(6*time.Hour)) || !h.coalesce() || !h.publish(true) {
			break
		}
		h.full()
		break
	}
	r.Max("pending domains in one partition", n)
	r.Case(true, "crowd", i, len(names))
}

func runM03(r *lib.R) {
	r.Rule("case: one history with complete table snapshots compared after every step; plus reads with every critical number of identifiers")
	withDBs(r, 6, r.N(48, 600), func(i int, conn db.Conn) {
		rng := r.Rand("hist", i)
		p := profile{certs: []int{4, 15, 50}[i%3], names: []int{2, 10, 60}[rng.IntN(3)], pols: []int{3, 10, 30}[rng.IntN(3)],
			steps: 9, wDeliver: 8, wPrune: 1, wCoalesce: 1, wPublish: 1, wQuery: 1}
		h := history(r, conn, fmt.Sprintf("history %d", i), rng, p)
		if i%6 == 5 && !h.bad {
			h.truncate()
		}
	})
	if r.NViol() > 0 {
		return
	}
	withDBs(r, 2, 2, func(i int, conn db.Conn) {
		if i == 0 {
			manyIDs(r, conn, r.Rand("many"))
		} else {
			logState(r, conn, r.Rand("logs"))
		}
	})
}

func (h *hist) truncate() {
	h.note("truncate all tables")
	h.conn.UpdateLastCTlogServerState(ctx, "https://some.log", 17, []byte("x"))
	if !h.ok("M03/truncate", h.conn.TruncateAllTables(ctx)) {
		return
	}
	for _, t := range []string{"tree", "root", "domains", "certs", "domain_certs", "policies", "domain_policies", "domain_payloads", "dirty", "ctlog_server_last_status"} {
		if n := dbx.Count(h.conn.DB(), t); n != 0 {
			h.fail("M03/truncate", "after resetting the store %d rows remain in %s", n, t)
		}
	}
	h.r.Count("store resets", 1)
}

// manyIDs asks for all critical numbers of identifiers, all present, none, alternating.
func manyIDs(r *lib.R, conn db.Conn, rng *rand.Rand) {
	u := newUniverse(rng, 3, 2, 0)
	h := &hist{r: r, conn: conn, m: newModel(), u: u, id: "many identifiers"}
	// 3100 small certificates, 3100 small policies.
	const n = 3100
	var cs []*cert
	var ps []*policy
	for i := 0; i < n; i++ {
		c := &cert{num: i, exp: u.base}
		c.x.Raw, c.x.NotAfter = []byte(fmt.Sprintf("small %d", i)), u.base
		c.id = ref.Sha(c.x.Raw)
		cs = append(cs, c)
		pc := &common.PolicyCertificate{}
		pc.SerialNumberField, pc.DomainField = i, "pol.com"
		raw, _ := common.ToJSON(pc)
		ps = append(ps, &policy{id: ref.Sha(raw), doc: pc, raw: raw, name: "pol.com", num: i})
	}
	if !h.deliver(rng, cs, ps) {
		return
	}
	sizes := []int{1, 2, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1026, 1500, 1999, 2000, 2001, 2047, 2048, 2049, 2999, 3000, 3001}
	if r.Thorough() {
		for i := 0; i < 120; i++ {
			sizes = append(sizes, 1+rng.IntN(n))
		}
	}
	for _, s := range sizes {
		for mode := 0; mode < 4; mode++ {
			ids := make([]common.SHA256Output, s)
			for i := range ids {
				j := rng.IntN(n)
				switch {
				case mode == 0:
					ids[i] = cs[i].id
				case mode == 1:
					ids[i] = ps[i].id
				case mode == 2 && i%2 == 0 || mode == 3 && rng.IntN(3) == 0:
					ids[i] = cs[j].id
				case mode == 3 && rng.IntN(2) == 0:
					ids[i] = ps[j].id
				default:
					ids[i] = K{byte(i), byte(i >> 8), byte(mode), 77}
				}
			}
			checkReads(h, ids)
			if h.bad {
				return
			}
			r.Case(true, "reads", s, mode)
		}
	}
	checkReads(h, nil)
}

// logState: the last state of each certificate log is kept per log.
func logState(r *lib.R, conn db.Conn, rng *rand.Rand) {
	type st struct {
		n   int64
		sth string
	}
	m := map[string]st{}
	urls := []string{"", "https://a", "https://a/", "https://b", "https://B"}
	for i := 0; i < 60; i++ {
		u := urls[rng.IntN(len(urls))]
		if rng.IntN(3) > 0 {
			s := st{rng.Int64N(1 << 40), string(payload(rng)[:1+rng.IntN(1)])}
			if rng.IntN(4) == 0 {
				s = st{}
			}
			if err := conn.UpdateLastCTlogServerState(ctx, u, s.n, []byte(s.sth)); err != nil {
				r.Violatedf("M03/log-state", "recording the state of a log fails: %v", err)
				return
			}
			m[u] = s
		}
		for _, u := range urls {
			n, sth, err := conn.LastCTlogServerState(ctx, u)
			if err != nil || n != m[u].n || string(sth) != m[u].sth {
				r.Violatedf("M03/log-state", "state of log %q is %d %x (%v) instead of %d %x", u, n, sth, err, m[u].n, m[u].sth)
				return
			}
		}
		r.Case(true, "log state", i)
	}
}

func runM04(r *lib.R) {
	r.Rule("case: one history with many prunings at and around expirations (other time zones too), each followed by comparing all tables, and update cycles")
	withDBs(r, 6, r.N(60, 800), func(i int, conn db.Conn) {
		rng := r.Rand("hist", i)
		p := profile{certs: []int{5, 15, 40, 90}[i%4], names: []int{2, 8, 40}[rng.IntN(3)], pols: []int{0, 3}[rng.IntN(2)],
			steps: 9, wDeliver: 4, wPrune: 5, wCoalesce: 1, wPublish: 4, wQuery: 0}
		h := history(r, conn, fmt.Sprintf("history %d", i), rng, p)
		if !h.bad && h.prune(time.Date(2500, 1, 1, 0, 0, 0, 0, time.UTC)) && h.coalesce() {
			h.publish(true)
			h.full()
		}
	})
}
