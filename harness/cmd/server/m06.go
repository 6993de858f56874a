package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/signal"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

var faultKinds = []string{"error", "cut-after", "cut-before", "kill-after", "kill-before", "partial"}

func runM06(r *lib.R) {
	r.Rule("one case: one update cycle of a map server with one database command failing in one way, then restart or repetition; distinct by command, kind of failure and history")
	r.Assume("the database server survives and applies each statement completely or not at all; the process dies or loses connections",
		"a failed cycle is repeated with the same logs")
	tmp, err := os.MkdirTemp("", "m06")
	must(err)
	defer os.RemoveAll(tmp)
	id := newIdentity(tmp, "a")
	n := r.N(270, 3000)
	withDBs(r, 6, n, func(i int, name string) { m06case(r, id, i, name) })
	// One after the other: the limit is that of the process.
	signal.Ignore(syscall.SIGXFSZ)
	withDBs(r, 1, r.N(20, 300), func(i int, name string) { m06case(r, id, n+i, name) })
	if c := r.Counter("failures injected"); c < int64(n/4) && r.NViol() == 0 {
		r.Inconclusive(fmt.Sprintf("only %d failures could be injected", c))
	}
}

// limitFiles limits the size of the files this process writes (-1: not anymore), as a full disk does.
func limitFiles(n int64) {
	var l syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
	if n < 0 && l.Cur == l.Max {
		return
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
}

func viaProxy(name string, p *proxy) *db.Configuration {
	return db.NewConfig(mysql.WithDefaults(), mysql.WithEnvironment(), func(c *db.Configuration) *db.Configuration {
		c.Values["MYSQL_HOST"], c.Values["MYSQL_PORT"] = "127.0.0.1", p.port()
		return c
	}, db.WithDB(name))
}

func (w *world) waitIdle(direct db.Conn) bool {
	for i := 0; i < 4000; i++ {
		var n int
		err := direct.DB().QueryRow("SELECT COUNT(*) FROM information_schema.processlist WHERE db=? AND id<>connection_id() AND command<>'Sleep'", w.db).Scan(&n)
		if err == nil && n == 0 {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	w.r.Inconclusive("the database does not get idle")
	return false
}

// answers asks for all names; the root has to be that of one of the models, the same for all.
func (w *world) answers(when string, ms []*model, len_ lenient) (which int) {
	which = -1
	for _, n := range w.mat.names {
		rs, err := w.s.Responder.GetProof(bg, n)
		if err != nil {
			w.fail("broken-root/query", "%s: query for %q: %v", when, n, err)
			return -1
		}
		if which < 0 {
			for i, m := range ms {
				if len(rs) > 0 && bytes.Equal(rs[0].PoI.Root, m.root()) {
					which = i
					break
				}
			}
			if which < 0 {
				w.fail("root", "%s: the root is neither the last published nor the new one", when)
				return -1
			}
		}
		m := ms[which]
		if key, what := checkAnswer(w.id, m, m.root(), n, rs, len_); key != "" {
			w.fail("broken-root/"+key, "%s: query for %q: %s", when, n, what)
			return -1
		}
		w.r.Count("answers verified", 1)
	}
	return which
}

// loadable reads the whole published tree of the database.
func (w *world) loadable(when string, direct db.Conn, m *model) {
	root, err := direct.LoadRoot(bg)
	if err != nil {
		w.fail("root-unreadable", "%s: %v", when, err)
		return
	}
	want := m.root()
	if (root == nil) != (want == nil) || root != nil && !bytes.Equal(root[:], want) {
		w.fail("root", "%s: the stored root differs from the one served", when)
		return
	}
	var rb []byte
	if root != nil {
		rb = root[:]
	}
	t, err := trie.NewTrie(rb, common.SHA256Hash, direct)
	if err != nil {
		w.fail("root-unreadable", "%s: %v", when, err)
		return
	}
	for k, v := range m.tree() {
		got, err := t.Get(bg, k[:])
		if err != nil || !bytes.Equal(got, v[:]) {
			w.fail("broken-root/value", "%s: the stored tree has %x instead of %x for a domain (%v)", when, got, v, err)
			return
		}
	}
	w.r.Count("trees loaded completely", 1)
}

func m06case(r *lib.R, id *identity, i int, name string) {
	rng := r.Rand("m06", i)
	p := newProxy()
	defer p.stop()
	w := &world{r: r, rng: rng, num: i, id: id, db: name, m: newModel(), next: newModel()}
	w.mat = newMaterial(rng, 14, 4, 6, 6+rng.IntN(10))
	w.logs = []*logState{newLog(), newLog()}
	defer func() {
		for _, l := range w.logs {
			l.log.Close()
		}
	}()
	direct := dbx.Connect(name)
	defer direct.Close()
	ctx, cancel := context.WithCancel(bg)
	defer func() { cancel() }()
	start := func(conf *db.Configuration) bool {
		s, err := newServer(ctx, id, conf, freePort(), w.logs...)
		if err != nil {
			w.fail("start", "the server does not start: %v", err)
			return false
		}
		w.s = s
		return true
	}
	if !start(viaProxy(name, p)) {
		return
	}
	update := func(when string) (err error) {
		if !r.WaitDone("update-hangs", "an update does not end "+when+" ("+p.what()+")", lib.Go(func() { err = w.s.PruneAndUpdate(bg) })) {
			r.Stop()
		}
		return
	}
	profile := map[string]int{}
	sizes := map[string][]int{}
	base0 := 2
	if rng.IntN(3) == 0 {
		base0 = rng.IntN(2)
	}
	for base := base0; base >= 0; base-- {
		if !w.deliver(rng.IntN(2) == 0) {
			return
		}
		if base == 0 && rng.IntN(3) > 0 {
			// a certificate whose chain elements are all known, one with new names
			w.logs[0].add(w.mat.leaves[0], w.mat.leaves[1])
			w.next.addLeaf(w.mat.leaves[0])
			w.next.addLeaf(w.mat.leaves[1])
		}
		if base > 0 {
			p.arm(0, "", "", 0)
			if err := update("without failure"); err != nil {
				w.fail("update", "without failure: %v", err)
				return
			}
			profile, sizes = p.profile(), p.answerSizes()
			w.m = w.next.clone()
		}
	}
	kind := faultKinds[i%len(faultKinds)]
	if i >= r.N(270, 3000) {
		kind = "full"
	}
	classes := sortedNames(profile)
	class, k := "", 1+rng.IntN(110)
	if len(classes) > 0 && rng.IntN(6) > 0 {
		class = classes[rng.IntN(len(classes))]
		k = 1 + rng.IntN(profile[class])
	}
	if kind == "error" && len(classes) > 0 {
		// every kind of command in turn
		class = classes[i/len(faultKinds)%len(classes)]
		k = 1 + rng.IntN(profile[class])
	}
	cut := []int{1, 3, 5, 20, 60, 100, 200, 400, 1000}[rng.IntN(9)]
	if kind == "partial" {
		// An answer with data is torn somewhere.
		var torn []string
		for _, c := range classes {
			if strings.Contains(c, "SELECT") && slices.Max(sizes[c]) > 80 {
				torn = append(torn, c)
			}
		}
		if len(torn) > 0 && rng.IntN(5) > 0 {
			class = torn[i/len(faultKinds)%len(torn)]
			k = 1 + rng.IntN(profile[class])
			for try := 0; try < 20 && sizes[class][k-1] <= 80; try++ {
				k = 1 + rng.IntN(profile[class])
			}
			cut = tear(rng, sizes[class][k-1])
			r.Seen("answers torn", class)
		}
		w.note("at most %d bytes of the answer", cut)
	}
	var limit int64 = -1
	if kind == "full" {
		limit = rng.Int64N(1 << (3 + rng.IntN(14)))
		w.note("files up to %d bytes", limit)
		p.arm(0, "", "", 0)
	} else {
		w.note("failure %s at command %d %s", kind, k, class)
		p.arm(k, class, kind, cut)
	}
	old, next := w.m, w.next.clone()
	limitFiles(limit)
	err := update("after a failure")
	limitFiles(-1)
	p.disarm()
	fired := p.what()
	if kind == "full" {
		r.Count("updates with files limited", 1)
		if err != nil {
			fired = "full: disk full"
			r.Count("updates with files limited, failed", 1)
		}
	}
	w.note("%s; update returned: %v", fired, err)
	if fired != "" {
		r.Count("failures injected", 1)
		r.Seen("commands failed", strings.SplitN(fired, ": ", 2)[1])
		r.Seen("commands failed in one way", fired)
	}
	r.Case(fired != "", i, fired, fmt.Sprint(err != nil))
	if err == nil {
		// Nothing lost, e.g. the command was repeated on another connection.
		r.Count("cycles that got over the failure", 1)
		w.m = next
		if fired != "" && kind == "error" {
			// Nothing repeats a command answered with an error.
			w.fail("unreported", "the update reports success although the database answered %s with an error", fired)
			return
		}
		if fired == "" || !strings.HasPrefix(kind, "kill") {
			w.answers("after a successful update", []*model{next}, lenient{})
		}
	} else {
		r.Count("failures reported", 1)
		if fired == "" {
			w.fail("update", "without failure: %v", err)
			return
		}
	}
	if w.bad.Load() {
		closeServer(w.s)
		return
	}
	// Restart, or go on with the same server.
	p.mu.Lock()
	wasKill := strings.HasPrefix(kind, "kill")
	p.mu.Unlock()
	restart := wasKill || rng.IntN(2) == 0
	if restart {
		cancel()
		closeServer(w.s)
		p.killAll()
		if !w.waitIdle(direct) {
			return
		}
		ctx, cancel = context.WithCancel(bg)
		if !start(dbx.Config(name)) {
			return
		}
		w.note("restarted")
		r.Count("restarts", 1)
	} else {
		p.arm(0, "", "", 0)
		if !w.waitIdle(direct) {
			return
		}
		r.Count("continued without restart", 1)
	}
	when := "after the failure"
	if restart {
		when = "after the restart"
	}
	ms := []*model{old, next}
	if err == nil {
		ms = []*model{next}
	}
	if restart {
		which := w.answers(when, ms, lenient{material: true})
		if which < 0 {
			return
		}
		w.loadable(when, direct, ms[which])
		if err != nil && which == 1 && !bytes.Equal(old.root(), next.root()) {
			r.Count("new root found after a reported failure", 1)
		}
	} else {
		// the stored root, whatever the responder serves
		root, lerr := direct.LoadRoot(bg)
		if lerr != nil {
			w.fail("root-unreadable", "%v", lerr)
			return
		}
		var rb []byte
		if root != nil {
			rb = root[:]
		}
		found := false
		for _, m := range ms {
			if bytes.Equal(m.root(), rb) {
				w.loadable(when, direct, m)
				found = true
				break
			}
		}
		if !found {
			w.fail("root", "%s: the stored root is neither the last published nor the new one", when)
		}
		// (Where the failure was in reading the new root, the server cannot use it.)
		if !w.bad.Load() && !strings.Contains(fired, "FROM root") {
			w.answers(when, ms, lenient{material: true})
			r.Count("servers asked after the failure without restart", 1)
		}
	}
	if w.bad.Load() {
		return
	}
	if err := update("repeated"); err != nil {
		w.fail("repeat", "the repeated update fails: %v", err)
		return
	}
	w.m = next
	w.answers("after the repeated update", []*model{next}, lenient{})
	w.loadable("after the repeated update", direct, next)
	if n := dbx.Count(direct.DB(), "dirty"); n != 0 && !w.bad.Load() {
		w.fail("dirty-left", "%d domains pending after the repeated update", n)
	}
	// Every document is there.
	var ids []K
	for _, s := range next.domCerts {
		for k := range s {
			ids = append(ids, k)
		}
	}
	ref.SortKs(ids)
	var cids []common.SHA256Output
	for _, k := range ids {
		cids = append(cids, common.SHA256Output(k))
	}
	if len(cids) > 0 {
		pl, err := direct.RetrieveCertificatePayloads(bg, cids)
		if err != nil {
			w.fail("documents", "%v", err)
		}
		for j := range pl {
			if !bytes.Equal(pl[j], next.payload[ids[j]]) {
				w.fail("documents", "the document %s is missing after the repeated update", hex.EncodeToString(ids[j][:4]))
				break
			}
		}
	}
	for _, l := range w.logs {
		size, _, err := direct.LastCTlogServerState(bg, l.log.URL())
		if len(l.leaves) > 0 && (err != nil || size != int64(len(l.leaves))) {
			w.fail("log-position", "the position recorded for the log is %d of %d (%v)", size, len(l.leaves), err)
		}
	}
	if i < 6 {
		r.Sample("case %d: %s", i, strings.Join(w.notes(), "; "))
	}
	closeServer(w.s)
}
