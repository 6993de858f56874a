package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

// ---- part A: a store that keeps the nodes of all versions and delays its answers

type keepStore struct {
	db.Conn  // never used
	mu       sync.RWMutex
	nodes    map[K][]byte
	root     *K
	docs     map[K]K // domain: identifier of its only document
	n        atomic.Uint64
	salt     uint64
	slow     bool
	failLoad atomic.Int64 // number of LoadRoot calls to fail
	failNode atomic.Int64
}

var errStore = errors.New("injected store failure")

func (s *keepStore) delay() {
	if !s.slow {
		return
	}
	x := s.n.Add(1)*0x9e3779b97f4a7c15 + s.salt
	x ^= x >> 29
	switch x % 16 {
	case 0:
		time.Sleep(time.Duration(x>>8%300) * time.Microsecond)
	case 1, 2, 3, 4:
		runtime.Gosched()
	}
}

func (s *keepStore) LoadRoot(context.Context) (*common.SHA256Output, error) {
	s.delay()
	if s.failLoad.Add(-1) >= 0 {
		return nil, errStore
	}
	s.mu.RLock()
	defer s.mu.RUnlock()
	if s.root == nil {
		return nil, nil
	}
	k := common.SHA256Output(*s.root)
	return &k, nil
}

func (s *keepStore) SaveRoot(_ context.Context, r *common.SHA256Output) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.root = nil
	if r != nil {
		k := K(*r)
		s.root = &k
	}
	return nil
}

func (s *keepStore) RetrieveTreeNode(_ context.Context, id common.SHA256Output) ([]byte, error) {
	s.delay()
	if s.failNode.Add(-1) >= 0 {
		return nil, errStore
	}
	s.mu.RLock()
	defer s.mu.RUnlock()
	return append([]byte(nil), s.nodes[id]...), nil
}

func (s *keepStore) UpdateTreeNodes(_ context.Context, rs []*db.TreeNodeRecord) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range rs {
		s.nodes[r.Key] = append([]byte(nil), r.Value...)
	}
	return len(rs), nil
}

func (s *keepStore) DeleteTreeNodes(_ context.Context, ks []common.SHA256Output) (int, error) {
	return len(ks), nil
}

func (s *keepStore) RetrieveDomainCertificatesIDs(_ context.Context, id common.SHA256Output) (common.SHA256Output, []byte, error) {
	s.delay()
	d, ok := s.docs[id]
	if !ok {
		return common.SHA256Output{}, nil, nil
	}
	return common.SHA256Output(ref.Sha(d[:])), append([]byte(nil), d[:]...), nil
}

func (s *keepStore) RetrieveDomainPoliciesIDs(_ context.Context, id common.SHA256Output) (common.SHA256Output, []byte, error) {
	s.delay()
	return common.SHA256Output{}, nil, nil
}

func (s *keepStore) Close() error { return nil }

type version struct {
	root []byte
	m    *model
}

func r01a(r *lib.R, id *identity, i int) {
	rng := r.Rand("a", i)
	s := &keepStore{nodes: map[K][]byte{}, docs: map[K]K{}, salt: rng.Uint64(), slow: true}
	var names []string
	for d := 0; d < 4+rng.IntN(8); d++ {
		n := fmt.Sprintf("d%d.%s", d, tlds[rng.IntN(len(tlds))])
		names = append(names, n)
		for j := rng.IntN(4); j > 0; j-- {
			n = []string{"a", "b", "c"}[rng.IntN(3)] + "." + n
			names = append(names, n)
		}
	}
	for _, n := range names {
		s.docs[ref.Sha([]byte(n))] = K{byte(rng.Uint32()), byte(rng.Uint32()), 1}
	}
	others := 50 + rng.IntN(400)
	nv := r.N(25, 60)
	var vmu sync.RWMutex
	var versions []*version
	tree := map[K]K{}
	m := newModel()
	prepare := func() {
		// some other domains change, some queried ones come and go
		var keys, vals [][]byte
		upd := map[K][]byte{}
		put := func(k, v K) { tree[k] = v; upd[k] = append([]byte(nil), v[:]...) }
		for j := 0; j < 1+rng.IntN(40); j++ {
			k := ref.Sha([]byte(fmt.Sprint("other", rng.IntN(others))))
			if rng.IntN(4) == 0 {
				if _, ok := tree[k]; ok {
					delete(tree, k)
					upd[k] = trie.DefaultLeaf
				}
			} else {
				put(k, K{byte(rng.Uint32()), byte(rng.Uint32()), byte(rng.Uint32()), 9})
			}
		}
		put(ref.Sha([]byte("version")), ref.Sha([]byte(fmt.Sprint(len(versions)))))
		m = m.clone()
		for _, n := range names {
			if len(versions) > 0 && rng.IntN(4) != 0 {
				continue
			}
			k := ref.Sha([]byte(n))
			d := s.docs[k]
			if len(m.domCerts[n]) > 0 && rng.IntN(2) == 0 {
				delete(m.domCerts, n)
				delete(tree, k)
				upd[k] = trie.DefaultLeaf
			} else if len(m.domCerts[n]) == 0 && rng.IntN(3) != 0 {
				m.domCerts[n] = map[K]bool{d: true}
				put(k, ref.Sha(d[:]))
			}
		}
		for _, k := range ref.SortedKeys(upd) {
			keys = append(keys, append([]byte(nil), k[:]...))
			vals = append(vals, upd[k])
		}
		var old []byte
		s.mu.RLock()
		if s.root != nil {
			old = append(old, s.root[:]...)
		}
		s.mu.RUnlock()
		t, err := trie.NewTrie(old, common.SHA256Hash, s)
		if err == nil {
			_, err = t.Update(bg, keys, vals)
		}
		if err == nil {
			err = t.StoreUpdates(bg)
		}
		if err != nil {
			r.Violatedf("A/tree", "preparing a tree: %v", err)
			return
		}
		want := ref.Root(tree)
		if !bytes.Equal(t.Root, want) {
			r.Violatedf("A/tree", "the root of the prepared tree is %x, not %x", t.Root, want)
			return
		}
		vmu.Lock()
		versions = append(versions, &version{root: want, m: m})
		vmu.Unlock()
	}
	var started, done atomic.Int64
	publish := func(v int) {
		k := common.SHA256Output(versions[v].root)
		started.Store(int64(v))
		s.SaveRoot(bg, &k)
	}
	s.slow = false
	prepare()
	if r.NViol() > 0 {
		return
	}
	publish(0)
	resp, err := responder.NewMapResponder(bg, s, id.key)
	if err != nil {
		r.Violatedf("A/new", "NewMapResponder: %v", err)
		return
	}
	s.slow = true
	var stop atomic.Bool
	var bad atomic.Bool
	fail := func(key, f string, a ...any) { bad.Store(true); r.Violatedf("A/"+key, f, a...) }
	find := func(root []byte, lo, hi int64) int64 {
		vmu.RLock()
		defer vmu.RUnlock()
		for v := lo; v <= hi; v++ {
			if bytes.Equal(versions[v].root, root) {
				return v
			}
		}
		return -1
	}
	var wg sync.WaitGroup
	clients := 3 + rng.IntN(6)
	seeds := make([]uint64, clients)
	for c := range seeds {
		seeds[c] = rng.Uint64()
	}
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rc := mrand.New(mrand.NewPCG(seeds[c], 1))
			last := int64(-1)
			verified := map[string]bool{}
			for !stop.Load() && !bad.Load() {
				n := names[rc.IntN(len(names))]
				if rc.IntN(4) == 0 {
					n = "zz." + n
				}
				lo := done.Load()
				if rc.IntN(6) == 0 {
					sig := resp.SignedTreeHead()
					hi := started.Load()
					ok := false
					for v := lo; v <= hi && !ok; v++ {
						vmu.RLock()
						root := versions[v].root
						vmu.RUnlock()
						ok = id.signs(root, sig)
					}
					if !ok {
						fail("head", "the signed tree head does not belong to a root current during the request (versions %d to %d)", lo, hi)
					}
					r.Count("signed tree heads checked", 1)
					continue
				}
				rs, err := resp.GetProof(bg, n)
				hi := started.Load()
				if err != nil {
					fail("error", "query for %q: %v", n, err)
					return
				}
				if len(rs) == 0 {
					fail("empty", "query for %q: no answer", n)
					return
				}
				v := find(rs[0].PoI.Root, lo, hi)
				if v < 0 {
					fail("root", "query for %q: the root %x was not current during the request (versions %d to %d)", n, rs[0].PoI.Root, lo, hi)
					return
				}
				if v < last {
					fail("back", "query for %q: version %d after version %d", n, v, last)
					return
				}
				last = v
				vmu.RLock()
				ver := versions[v]
				vmu.RUnlock()
				key := string(rs[0].PoI.Root) + "|" + string(rs[0].TreeHeadSig)
				if !verified[key] && !id.signs(rs[0].PoI.Root, rs[0].TreeHeadSig) {
					fail("signature", "query for %q: the tree head signature does not verify over the root", n)
					return
				}
				verified[key] = true
				for _, p := range rs {
					if !bytes.Equal(p.TreeHeadSig, rs[0].TreeHeadSig) || !bytes.Equal(p.PoI.Root, rs[0].PoI.Root) {
						fail("mixed", "query for %q: the parts of one answer have different tree heads", n)
						return
					}
				}
				if rc.IntN(4) == 0 { // the caller may do with its answer what it likes
					if key, what := checkAnswer(id, ver.m, ver.root, n, rs, lenient{}); key != "" {
						fail(key, "query for %q: %s", n, what)
						return
					}
					for _, p := range rs {
						for i := range p.TreeHeadSig {
							p.TreeHeadSig[i] = 0xaa
						}
					}
				} else if key, what := checkAnswer(id, ver.m, ver.root, n, rs, lenient{}); key != "" {
					fail(key, "query for %q: %s", n, what)
					return
				}
				r.Count("answers verified", 1)
				if hi > lo {
					r.Count("answers overlapping a reload", 1)
					r.Seen("reload overlaps", i, c, lo, hi, v)
				}
				r.Case(hi > lo, "a", i, c, n, v, hi-lo)
			}
		}()
	}
	ch := lib.Go(func() {
		for v := 1; v < nv && !bad.Load(); v++ {
			prepare()
			if bad.Load() || r.NViol() > 0 {
				break
			}
			if rng.IntN(5) == 0 {
				s.failLoad.Store(int64(rng.IntN(2)))
			}
			publish(v)
			for try := 0; ; try++ {
				err := resp.ReloadRootAndSignTreeHead(bg, id.key)
				if err == nil {
					break
				}
				if try > 20 {
					fail("reload", "reloading fails: %v", err)
					break
				}
				r.Count("failed reloads", 1)
			}
			s.failLoad.Store(0)
			done.Store(int64(v))
			r.Count("reloads", 1)
			time.Sleep(time.Duration(rng.IntN(4000)) * time.Microsecond)
		}
		stop.Store(true)
		wg.Wait()
	})
	if !r.WaitDone("A/hang", "queries and reloads", ch) {
		r.Stop()
	}
}

// ---- part B: the map server during its real update cycle, observed between any two database calls

// phases of an update cycle, from the calls it makes
const (
	idle int32 = iota
	running
	coalesced // the material of the pending domains is being or has been replaced
	saved     // the new root has been saved
	removed   // the nodes of the old tree are being or have been removed
)

var phaseName = []string{"idle", "running", "coalesced", "root-saved", "removed"}

type hookConn struct {
	db.Conn
	phase atomic.Int32
	mu    sync.Mutex
	at    func(call string)
}

func (h *hookConn) raise(p int32) {
	for {
		o := h.phase.Load()
		if o >= p || h.phase.CompareAndSwap(o, p) {
			return
		}
	}
}

func (h *hookConn) point(call string) {
	if h.at == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.at(call)
}

func (h *hookConn) LoadRoot(c context.Context) (*common.SHA256Output, error) {
	h.point("before LoadRoot")
	return h.Conn.LoadRoot(c)
}

func (h *hookConn) SaveRoot(c context.Context, r *common.SHA256Output) error {
	h.point("before SaveRoot")
	err := h.Conn.SaveRoot(c, r)
	h.raise(saved)
	h.point("after SaveRoot")
	return err
}

func (h *hookConn) UpdateTreeNodes(c context.Context, x []*db.TreeNodeRecord) (int, error) {
	h.point("before UpdateTreeNodes")
	n, err := h.Conn.UpdateTreeNodes(c, x)
	h.point("after UpdateTreeNodes")
	return n, err
}

func (h *hookConn) DeleteTreeNodes(c context.Context, x []common.SHA256Output) (int, error) {
	h.point("before DeleteTreeNodes")
	if len(x) > 0 {
		// Removing before the new root is saved stays in the phase before, which allows nothing.
		if h.phase.Load() >= saved {
			h.raise(removed)
		}
	}
	n, err := h.Conn.DeleteTreeNodes(c, x)
	h.point("after DeleteTreeNodes")
	return n, err
}

func (h *hookConn) RecomputeDirtyDomainsCertAndPolicyIDs(c context.Context) error {
	h.point("before RecomputeDirtyDomainsCertAndPolicyIDs")
	h.raise(coalesced)
	err := h.Conn.RecomputeDirtyDomainsCertAndPolicyIDs(c)
	h.point("after RecomputeDirtyDomainsCertAndPolicyIDs")
	return err
}

func (h *hookConn) CleanupDirty(c context.Context) error {
	h.point("before CleanupDirty")
	err := h.Conn.CleanupDirty(c)
	h.point("after CleanupDirty")
	return err
}

func (h *hookConn) PruneCerts(c context.Context, t time.Time) error {
	h.point("before PruneCerts")
	err := h.Conn.PruneCerts(c, t)
	h.point("after PruneCerts")
	return err
}

func (h *hookConn) UpdateDomainCerts(c context.Context, a, b []common.SHA256Output) error {
	err := h.Conn.UpdateDomainCerts(c, a, b)
	h.point("after UpdateDomainCerts")
	return err
}

func (h *hookConn) UpdateCerts(c context.Context, a []common.SHA256Output, p []*common.SHA256Output, e []time.Time, b [][]byte) error {
	err := h.Conn.UpdateCerts(c, a, p, e, b)
	h.point("after UpdateCerts")
	return err
}

func (h *hookConn) UpdateLastCTlogServerState(c context.Context, u string, n int64, s []byte) error {
	err := h.Conn.UpdateLastCTlogServerState(c, u, n, s)
	h.point("after UpdateLastCTlogServerState")
	return err
}

func r01b(r *lib.R, id *identity, i int, dbName string) {
	rng := r.Rand("b", i)
	w := &world{r: r, rng: rng, num: i, id: id, db: dbName, m: newModel(), next: newModel()}
	w.mat = newMaterial(rng, 25, 5, 8, 8+rng.IntN(12))
	w.logs = []*logState{newLog()}
	defer w.logs[0].log.Close()
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	s, err := newServer(ctx, id, dbx.Config(dbName), freePort(), w.logs...)
	if err != nil {
		w.fail("B/start", "%v", err)
		return
	}
	defer closeServer(s)
	w.s = s
	h := &hookConn{Conn: s.Updater.Conn}
	s.Updater.Conn = h
	names := w.mat.names
	query := func(n string) ([]*mapCommon.MapServerResponse, error) {
		for try := 0; ; try++ {
			rs, err := s.Responder.GetProof(bg, n)
			if err != nil && try < 20 && strings.Contains(err.Error(), "deadline exceeded") {
				continue
			}
			return rs, err
		}
	}
	// judge verifies an answer against the version having its root; lo and hi are the versions possible.
	judge := func(n string, rs []*mapCommon.MapServerResponse, err error, vs, mats []*model, phase int32, call string) int {
		if err != nil {
			if phase == removed {
				// the nodes of the old tree go before its root is replaced in the responder
				w.fail2("window/proof-unavailable", "%s: query for %q fails: %v", call, n, err)
			} else {
				w.fail("B/error/"+phaseName[phase], "%s: query for %q fails: %v", call, n, err)
			}
			return -1
		}
		if len(rs) == 0 {
			w.fail("B/empty", "%s: query for %q: no answer", call, n)
			return -1
		}
		for vi, m := range vs {
			root := m.root()
			if !bytes.Equal(rs[0].PoI.Root, root) {
				continue
			}
			if key, what := checkAnswer(id, m, root, n, rs, lenient{material: true}); key != "" {
				w.fail("B/"+key, "%s: query for %q: %s", call, n, what)
				return vi
			}
			if key, what := checkAnswer(id, m, root, n, rs, lenient{}); key != "" {
				if phase <= running {
					w.fail("B/"+key, "%s: query for %q: %s", call, n, what)
					return vi
				}
				// Is it the material of the version being published?
				if materialOf(mats, rs) {
					w.fail2("window/material-ahead", "%s: query for %q: %s", call, n, what)
				} else {
					w.fail("B/"+key, "%s: query for %q, of no version: %s", call, n, what)
				}
			}
			r.Count("answers verified during updates", 1)
			return vi
		}
		w.fail("B/root", "%s: query for %q: the root %x was not current during the request", call, n, rs[0].PoI.Root)
		return -1
	}
	all := func(call string, vs, mats []*model) {
		for _, n := range names {
			if w.bad.Load() {
				return
			}
			rs, err := query(n)
			judge(n, rs, err, vs, mats, h.phase.Load(), call)
			r.Case(true, "b", i, call, n, len(vs))
		}
	}
	// A query may be in any phase; the queries at the points are complete between two calls.
	for cycle := 0; cycle < r.N(3, 6) && !w.bad.Load(); cycle++ {
		if !w.deliver(cycle > 0) {
			return
		}
		if cycle > 0 {
			// a published domain gets more and another loses nothing: its material changes
			for n := range w.m.domCerts {
				p := w.mat.pols[cycle%len(w.mat.pols)]
				_ = n
				w.next.addPol(p)
				if err := deliverPolicies(s.Updater.Conn, []*pol{p}); err != nil {
					w.fail("deliver", "%v", err)
					return
				}
				break
			}
		}
		h.phase.Store(running)
		h.at = func(call string) {
			r.Seen("points in the update cycle", call)
			r.Count("points observed", 1)
			all(call, []*model{w.m}, []*model{w.m, w.next}) // until it is reloaded, the old root is the only one
		}
		if err := s.PruneAndUpdate(bg); err != nil {
			w.fail("B/update", "%v", err)
			return
		}
		h.at = nil
		h.phase.Store(idle)
		w.m = w.next.clone()
		all("after the update", []*model{w.m}, nil)
	}
	if w.bad.Load() {
		return
	}
	// Free running clients during updates.
	var started, done atomic.Int64 // cycles
	var vmu sync.RWMutex
	vers := []*model{w.m}
	var stop atomic.Bool
	var wg sync.WaitGroup
	for c := 0; c < 4; c++ {
		wg.Add(1)
		seed := rng.Uint64()
		go func() {
			defer wg.Done()
			rc := mrand.New(mrand.NewPCG(seed, 2))
			last := 0
			for !stop.Load() && !w.bad.Load() {
				n := names[rc.IntN(len(names))]
				lo := done.Load()
				rs, err := query(n)
				hi := started.Load()
				vmu.RLock()
				vs := vers[lo : hi+1]
				vmu.RUnlock()
				phase := idle
				if hi > lo { // overlaps an update; it may have got to its end since
					phase = h.phase.Load()
					if hi > lo+1 || done.Load() >= hi || started.Load() != hi {
						phase = removed
					}
				}
				v := judge(n, rs, err, vs, vs, phase, "free running")
				if v >= 0 {
					v += int(lo)
					if v < last {
						w.fail("B/back", "query for %q: version %d after version %d", n, v, last)
					}
					last = v
				}
				if hi > lo {
					r.Count("free answers overlapping an update", 1)
				}
				r.Case(hi > lo, "free", i, n, lo, hi)
			}
		}()
	}
	ch := lib.Go(func() {
		defer func() { stop.Store(true); wg.Wait() }()
		for cycle := 0; cycle < r.N(2, 5) && !w.bad.Load(); cycle++ {
			if !w.deliver(false) {
				return
			}
			vmu.Lock()
			nx := w.next.clone()
			vers = append(vers, nx)
			vmu.Unlock()
			h.phase.Store(running)
			started.Add(1)
			if err := s.PruneAndUpdate(bg); err != nil {
				w.fail("B/update", "%v", err)
				return
			}
			done.Add(1)
			r.Count("free running update cycles", 1)
			for k := 0; k < 20 && !w.bad.Load(); k++ {
				time.Sleep(time.Millisecond)
			}
		}
	})
	if !r.WaitDone("B/hang", "queries and updates", ch) {
		r.Stop()
	}
}

// materialOf: each part of the answer has the material of one of the versions. Certificates and
// policies are read one after the other: the refreshing may have come between these.
func materialOf(ms []*model, rs []*mapCommon.MapServerResponse) bool {
	for _, p := range rs {
		e := p.DomainEntry
		okc := p.PoI.ProofType != mapCommon.PoP
		okp := okc
		for _, m := range ms {
			okc = okc || bytes.Equal(e.CertIDs, ref.Glue(m.domCerts[e.DomainName]))
			okp = okp || bytes.Equal(e.PolicyIDs, ref.Glue(m.domPols[e.DomainName]))
		}
		if !okc || !okp {
			return false
		}
	}
	return true
}

// fail2 records a deviation without ending the history.
func (w *world) fail2(key, f string, a ...any) {
	w.r.Violation(key, fmt.Sprintf("world %d: ", w.num)+fmt.Sprintf(f, a...), w.notes())
}

func runR01(r *lib.R) {
	r.Rule("one case: one answer verified against the versions that were current during its request (part A), or at a point between two database calls of the real update cycle (part B); non-trivial: overlapping a reload or an update")
	r.Assume("part A: material of the queried domains is constant while other domains change", "root reloads are not concurrent with each other, as in the map server")
	tmp, err := os.MkdirTemp("", "r01")
	must(err)
	defer os.RemoveAll(tmp)
	id := newIdentity(tmp, "a")
	n := r.N(10, 80)
	for i := 0; i < n && r.NViol() == 0; i++ {
		r01a(r, id, i)
	}
	withDBs(r, 3, r.N(6, 48), func(i int, name string) { r01b(r, id, i, name) })
}
