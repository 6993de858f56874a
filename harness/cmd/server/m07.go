package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/ctlog"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// ulog is one log as the update sees it: remote, or a folder of files.
type ulog struct {
	url     string
	entries []*certs.Leaf // nil: an expired entry
	rec     int64         // the position recorded

	// remote
	log    *ctlog.Log
	mu     sync.Mutex
	failAt int64 // entries from here on fail, -1 none
	how    string
	grow   int64 // entries that appear while the log is being read
	grew   bool
	asked  int // requests before this cycle
	hook   func()

	// folder
	dir    string
	files  []*ufile
	hidden []*ufile // files still to come: a gap before the next ones
	broken *ufile
}

type ufile struct {
	start, end int64
	gz         bool
	path       string
}

func (l *ulog) local() bool { return l.log == nil }

func (l *ulog) String() string {
	if l.local() {
		return "the folder " + l.url
	}
	return "the log " + l.url
}

func newULog() *ulog {
	l := &ulog{failAt: -1}
	l.log = ctlog.New(0, func(i int64) ctlog.Entry {
		l.mu.Lock()
		defer l.mu.Unlock()
		e := ctlog.EntryOf(l.entries[i], uint64(i))
		if l.failAt >= 0 && i >= l.failAt && l.how == "entry" {
			e.LeafInput = base64.StdEncoding.EncodeToString([]byte("no entry"))
		}
		return e
	}, func(n int, start, end, size int64) ctlog.Reply {
		l.mu.Lock()
		defer l.mu.Unlock()
		if l.hook != nil {
			l.hook()
		}
		if l.failAt >= 0 && end >= l.failAt {
			switch l.how {
			case "refuse":
				return ctlog.Reply{Status: 400, Body: []byte("no")}
			case "empty":
				if start >= l.failAt {
					return ctlog.Reply{From: 0, To: -1}
				}
				return ctlog.Reply{From: start, To: l.failAt - 1}
			}
		}
		if l.grow > 0 {
			return ctlog.Reply{From: start, To: min(end, size-1), Before: func() {
				l.mu.Lock()
				defer l.mu.Unlock()
				l.log.Grow(int64(len(l.entries)))
				l.grow, l.grew = 0, true
			}}
		}
		return ctlog.Full(n, start, end, size)
	})
	l.url = l.log.URL()
	return l
}

func urow(l *certs.Leaf, rng *mrand.Rand) []string {
	if l == nil {
		return []string{"7", "gone.example.com", "1", "-", "-", "1400000000.0"}
	}
	var ch []string
	for _, c := range l.Chain() {
		ch = append(ch, base64.StdEncoding.EncodeToString(c))
	}
	return []string{"7", "www.example.com", fmt.Sprint(rng.IntN(1000)), base64.StdEncoding.EncodeToString(l.DER), strings.Join(ch, ";"), fmt.Sprintf("%d.0", l.NotAfter.Unix())}
}

func (l *ulog) write(f *ufile, rng *mrand.Rand, fault bool) {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	bad := -1
	if fault {
		bad = rng.IntN(int(f.end - f.start + 1))
	}
	for i := f.start; i <= f.end; i++ {
		row := urow(l.entries[i], rng)
		if int(i-f.start) == bad {
			row = []string{"7", "x", "1", "no base64 !", "", "3800000000.0"}
		}
		w.Write(row)
	}
	w.Flush()
	data := b.Bytes()
	if f.gz {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(data)
		zw.Close()
		data = z.Bytes()
	}
	must(os.MkdirAll(filepath.Dir(f.path), 0o755))
	must(os.WriteFile(f.path, data, 0o644))
}

// addFile appends entries as one more file.
func (l *ulog) addFile(es []*certs.Leaf, rng *mrand.Rand) {
	f := &ufile{start: int64(len(l.entries)), gz: rng.IntN(2) == 0}
	l.entries = append(l.entries, es...)
	f.end = int64(len(l.entries)) - 1
	ext := ".csv"
	if f.gz {
		ext = ".gz"
	}
	f.path = filepath.Join(l.dir, []string{"", "bundled", "x/y"}[rng.IntN(3)], fmt.Sprintf("%d-%d%s", f.start, f.end, ext))
	l.files = append(l.files, f)
	if len(l.hidden) > 0 && rng.IntN(2) == 0 || len(l.files) > 1 && rng.IntN(6) == 0 {
		l.hidden = append(l.hidden, f) // will be there later
		return
	}
	l.write(f, rng, false)
}

// target is where the next cycle ends.
func (l *ulog) target(limit int64) int64 {
	if !l.local() {
		l.mu.Lock()
		defer l.mu.Unlock()
		return int64(len(l.entries)) - l.grow
	}
	t := l.rec
	for _, f := range l.files {
		if f.start < t {
			continue
		}
		for _, h := range l.hidden {
			if h == f {
				return t
			}
		}
		if t > l.rec && f.end-l.rec+1 > limit {
			return t
		}
		t = f.end + 1
	}
	return t
}

func runM07(r *lib.R) {
	r.Rule("one case: a series of update cycles of one map server over some remote logs and folders that grow and fail; distinct by the sequence of positions")
	r.Assume("a remote log's entries are unexpired (the server prunes at the beginning of a cycle)", "the rows of a file are as many as its name says")
	tmp, err := os.MkdirTemp("", "m07")
	must(err)
	defer os.RemoveAll(tmp)
	id := newIdentity(tmp, "a")
	n := r.N(90, 1500)
	withDBs(r, 6, n, func(i int, name string) { m07case(r, id, i, name, filepath.Join(tmp, fmt.Sprint("c", i))) })
	if c := r.Counter("cycles that failed"); c < int64(n/6) && r.NViol() == 0 {
		r.Inconclusive(fmt.Sprintf("only %d cycles failed", c))
	}
}

func m07case(r *lib.R, id *identity, i int, name, dir string) {
	defer os.RemoveAll(dir)
	rng := r.Rand("m07", i)
	w := &world{r: r, rng: rng, num: i, id: id, db: name}
	w.mat = newMaterial(rng, 40, 0, 0, 8+rng.IntN(10))
	direct := dbx.Connect(name)
	defer direct.Close()
	limit := int64(1 + rng.IntN(60))
	big := i%40 == 11
	if big {
		limit = 1_000_000
	}
	var logs []*ulog
	var urls []string
	folders := map[string]string{}
	for n := 1 + rng.IntN(4); n > 0; n-- {
		var l *ulog
		if rng.IntN(2) == 0 || big && n == 1 {
			l = &ulog{url: fmt.Sprintf("https://log%d.example/f", n), dir: filepath.Join(dir, fmt.Sprint("f", n)), failAt: -1}
			must(os.MkdirAll(l.dir, 0o755))
			folders[l.url] = l.dir
		} else {
			l = newULog()
			defer l.log.Close()
		}
		logs = append(logs, l)
		urls = append(urls, l.url)
	}
	ctx, cancel := context.WithCancel(bg)
	defer func() { cancel() }()
	start := func() bool {
		s, err := newServerOf(ctx, id, dbx.Config(name), freePort(), urls, folders, uint64(limit))
		if err != nil {
			w.fail("start", "the server does not start: %v", err)
			return false
		}
		w.s = s
		return true
	}
	if !start() {
		return
	}
	defer func() { closeServer(w.s) }()
	w.note("ingestion limit %d; logs %v", limit, urls)
	leaf := func() *certs.Leaf { return w.mat.leaves[rng.IntN(len(w.mat.leaves))] }
	add := func() {
		for _, l := range logs {
			if rng.IntN(3) == 0 {
				continue
			}
			if l.local() {
				for n := 1 + rng.IntN(3); n > 0; n-- {
					var es []*certs.Leaf
					for k := 1 + rng.IntN(30); k > 0; k-- {
						if rng.IntN(4) == 0 {
							es = append(es, nil)
						} else {
							es = append(es, leaf())
						}
					}
					l.addFile(es, rng)
				}
				if len(l.hidden) > 0 && rng.IntN(2) == 0 {
					l.write(l.hidden[0], rng, false)
					l.hidden = l.hidden[1:]
				}
				w.note("%v: %d entries, %d files to come", l, len(l.entries), len(l.hidden))
			} else {
				l.mu.Lock()
				n := 1 + rng.IntN(30)
				for k := 0; k < n; k++ {
					l.entries = append(l.entries, leaf())
				}
				if rng.IntN(4) == 0 {
					l.grow = int64(rng.IntN(n))
				}
				l.log.Grow(int64(len(l.entries)) - l.grow)
				w.note("%v: %d entries, %d of these not yet", l, len(l.entries), l.grow)
				l.mu.Unlock()
			}
		}
	}
	if big {
		l := logs[len(logs)-1]
		for f := 0; f < 3; f++ {
			var es []*certs.Leaf
			for k := 0; k < 6000+rng.IntN(4000); k++ {
				if rng.IntN(500) == 0 {
					es = append(es, leaf())
				} else {
					es = append(es, nil)
				}
			}
			l.addFile(es, rng)
		}
		w.note("%v: %d entries", l, len(l.entries))
		r.Count("folders of several batches", 1)
	}
	failedBefore := false
	positions := []string{}
	cycle := func(fault bool) bool {
		old := make([]int64, len(logs))
		want := make([]int64, len(logs))
		entries := 0
		for j, l := range logs {
			old[j], want[j] = l.rec, l.target(limit)
			for _, e := range l.entries[old[j]:max(old[j], want[j])] {
				if e != nil {
					entries++
				}
			}
			if !l.local() {
				l.asked = len(l.log.Requests())
			}
		}
		bad := -1
		cctx, ccancel := context.WithCancel(bg)
		defer ccancel()
		if fault {
			j := rng.IntN(len(logs))
			l := logs[j]
			if want[j] > old[j] {
				if l.local() {
					var fs []*ufile
					for _, f := range l.files {
						if f.start >= old[j] && f.end < want[j] {
							fs = append(fs, f)
						}
					}
					l.broken = fs[rng.IntN(len(fs))]
					l.write(l.broken, rng, true)
					w.note("%v: a bad row in %s", l, filepath.Base(l.broken.path))
					bad = j
				} else {
					l.mu.Lock()
					l.failAt = old[j] + rng.Int64N(want[j]-old[j])
					l.how = []string{"refuse", "empty", "entry", "sth", "cancel"}[rng.IntN(5)]
					switch l.how {
					case "sth":
						l.log.STHFail = true
					case "cancel":
						l.failAt = -1
						l.hook = ccancel
					}
					w.note("%v: fails from entry %d on: %s", l, l.failAt, l.how)
					l.mu.Unlock()
					bad = j
				}
			}
		}
		var err error
		step := rng.IntN(3) == 0
		counted := 0
		ch := lib.Go(func() {
			if !step {
				err = w.s.PruneAndUpdate(cctx)
				return
			}
			counted, err = stepUpdate(cctx, w.s.Updater)
		})
		if !r.WaitDone("update-hangs", "an update cycle does not end", ch) {
			r.Stop()
		}
		cancelled := cctx.Err() != nil
		r.Count("update cycles", 1)
		if bad >= 0 {
			l := logs[bad]
			if l.local() {
				l.write(l.broken, rng, false)
			} else {
				l.mu.Lock()
				l.failAt, l.hook = -1, nil
				l.log.STHFail = false
				l.mu.Unlock()
			}
			if err == nil {
				w.fail("unreported", "the update reports success although %v failed", l)
				return false
			}
			r.Count("cycles that failed", 1)
			r.Seen("kinds of failure", l.how+fmt.Sprint(l.local()))
			failedBefore = true
		} else if err != nil {
			w.fail("update", "the update fails without cause: %v", err)
			return false
		}
		if step && err == nil {
			if counted != entries {
				w.fail("count", "%d certificates reported to be updated instead of %d", counted, entries)
				return false
			}
		}
		// The positions.
		pos := []string{}
		for j, l := range logs {
			size, sth, e := direct.LastCTlogServerState(bg, l.url)
			if e != nil {
				w.fail("position-unreadable", "%v", e)
				return false
			}
			pos = append(pos, fmt.Sprint(size))
			grown := want[j]
			if !l.local() {
				l.mu.Lock()
				if l.grew {
					grown, l.grew = int64(len(l.entries)), false
					r.Count("logs that grew while read", 1)
				}
				l.mu.Unlock()
			}
			ok := size == want[j] || size == grown
			if err != nil {
				ok = ok && j != bad || size == old[j]
			}
			if !ok {
				w.fail("position", "the position recorded for %v is %d; before the cycle %d, the cycle was to end at %d (failed: %v)", l, size, old[j], want[j], j == bad)
				return false
			}
			if size != old[j] {
				r.Count("positions advanced", 1)
				if !l.local() && string(sth) != fmt.Sprintf("sth of %d", size) {
					w.fail("tree-head", "the tree head recorded for %v at %d is %q", l, size, sth)
					return false
				}
			}
			l.rec = size
			if !l.local() {
				seen := map[int64]bool{}
				for _, q := range l.log.Requests()[l.asked:] {
					if q[0] < old[j] {
						w.fail("again", "%v is asked for the entries %v again; %d were recorded", l, q, old[j])
						return false
					}
					for k := q[0]; k <= q[1]; k++ {
						seen[k] = true
					}
				}
				for k := old[j]; k < size; k++ {
					if !seen[k] {
						w.fail("never-asked", "%v was never asked for entry %d", l, k)
						return false
					}
				}
			}
		}
		positions = append(positions, strings.Join(pos, " "))
		w.note("cycle (step by step: %v, cancelled: %v): %v; positions %s", step, cancelled, err, strings.Join(pos, " "))
		return w.stored(direct, logs, failedBefore, err == nil)
	}
	for c := 2 + rng.IntN(3); c > 0; c-- {
		add()
		if !cycle(rng.IntN(3) == 0) {
			return
		}
		if rng.IntN(4) == 0 {
			cancel()
			closeServer(w.s)
			ctx, cancel = context.WithCancel(bg)
			if !start() {
				return
			}
			w.note("restarted")
			r.Count("restarts", 1)
		}
	}
	// To the end of every log.
	for _, l := range logs {
		for _, f := range l.hidden {
			l.write(f, rng, false)
		}
		l.hidden = nil
		if !l.local() {
			l.mu.Lock()
			l.grow = 0
			l.log.Grow(int64(len(l.entries)))
			l.mu.Unlock()
		}
	}
	for n := 0; ; n++ {
		done := true
		for _, l := range logs {
			if l.rec < int64(len(l.entries)) {
				done = false
			}
		}
		if done {
			break
		}
		if n > 200 {
			w.fail("endless", "the end of the logs is not reached")
			return
		}
		if !cycle(false) {
			return
		}
	}
	if !cycle(false) { // nothing to do
		return
	}
	r.Count("logs read to their end", len(logs))
	r.Case(len(positions) > 2, i, strings.Join(positions, ";"))
	if i < 5 {
		r.Sample("case %d: %s", i, strings.Join(w.notes(), "; "))
	}
}

// stepUpdate is an update cycle made of its single steps.
func stepUpdate(ctx context.Context, u *updater.MapUpdater) (n int, err error) {
	if err = u.StartFetchingRemaining(); err != nil {
		return
	}
	for {
		has, err := u.NextBatch(ctx)
		if err != nil {
			return n, err
		}
		if !has {
			break
		}
		k, err := u.UpdateNextBatch(ctx)
		if err != nil {
			return n, err
		}
		n += k
	}
	if err = u.CoalescePayloadsForDirtyDomains(ctx); err != nil {
		return
	}
	if err = u.UpdateSMT(ctx); err != nil {
		return
	}
	return n, u.Conn.CleanupDirty(ctx)
}

// stored compares the database with what the recorded positions promise.
func (w *world) stored(direct db.Conn, logs []*ulog, failed, ok bool) bool {
	have := map[K]bool{}
	for _, row := range dbx.Rows(direct.DB(), "SELECT cert_id FROM certs") {
		have[K([]byte(row[0]))] = true
	}
	m := newModel()
	all := newModel()
	end := true
	for _, l := range logs {
		for j, e := range l.entries {
			if e == nil {
				continue
			}
			all.addLeaf(e)
			if int64(j) < l.rec {
				m.addLeaf(e)
			}
		}
		end = end && l.rec == int64(len(l.entries))
	}
	for id := range m.payload {
		if !have[id] {
			w.fail("missing", "the certificate %s of an entry below the recorded position is not stored", hex.EncodeToString(id[:4]))
			return false
		}
		w.r.Count("certificates found stored", 1)
	}
	for id := range have {
		if all.payload[id] == nil {
			w.fail("invented", "the certificate %s was in no log", hex.EncodeToString(id[:4]))
			return false
		}
		if !failed && m.payload[id] == nil {
			w.fail("ahead", "the certificate %s is stored although its entry lies beyond the recorded position", hex.EncodeToString(id[:4]))
			return false
		}
	}
	if ok && (end || !failed) {
		root, err := direct.LoadRoot(bg)
		if err != nil {
			w.fail("root-unreadable", "%v", err)
			return false
		}
		want := m.root()
		if (root == nil) != (want == nil) || root != nil && !bytes.Equal(root[:], want) {
			w.fail("root", "the published root is not that of the entries up to the recorded positions")
			return false
		}
		w.r.Count("published roots verified", 1)
	}
	return true
}
