package main

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/tests/noopdb"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

// I01: what the insertion pipeline was given is what the tables get.
//
// The deliveries are certificates with parents, names, expirations and payloads of any form. The
// reference is the set of rows that follows from the deliveries; it knows nothing about workers,
// bundles or order. Observed: the writes that reach the database connection (a stand-in that
// reads the file of each write at the time of the call, delays and fails writes), and for a part
// of the cases the real tables.

type K = ref.K

const (
	tCerts = iota
	tDirty
	tDomains
	tDomainCerts
)

var tableNames = [...]string{"certs", "dirty", "domains", "domain_certs"}

var errInjected = errors.New("the database refuses this write")

// tap stands between the pipeline and the database.
type tap struct {
	noopdb.Conn
	real db.Conn // nil: a stand-in

	mu      sync.Mutex
	rng     *rand.Rand
	delay   int // maximal delay of a write in microseconds
	failAt  int // the n-th write from now fails, 0: none
	failOn  int // only count writes of this table, -1: all
	later   int // that many further writes fail too
	partial bool
	n       int
	failed  int
	files   []string
	tables  content
	badForm string

	writes  atomic.Int64
	rows    atomic.Int64
	active  atomic.Int64
	maxPar  atomic.Int64
	perCall func(table int)
}

// content is a reading of the four tables.
type content struct {
	certs   map[K][]certRow // the rows given for a certificate
	domains map[K][]string
	pairs   map[[2]K]bool
	dirty   map[K]bool
}

type certRow struct {
	parent  string // raw bytes or empty
	exp     string
	payload string
}

func newContent() content {
	return content{certs: map[K][]certRow{}, domains: map[K][]string{}, pairs: map[[2]K]bool{}, dirty: map[K]bool{}}
}

func (t *tap) InsertCsvIntoCerts(ctx context.Context, f string) error {
	return t.insert(ctx, tCerts, f, func() error { return t.real.InsertCsvIntoCerts(ctx, f) })
}
func (t *tap) InsertCsvIntoDirty(ctx context.Context, f string) error {
	return t.insert(ctx, tDirty, f, func() error { return t.real.InsertCsvIntoDirty(ctx, f) })
}
func (t *tap) InsertCsvIntoDomains(ctx context.Context, f string) error {
	return t.insert(ctx, tDomains, f, func() error { return t.real.InsertCsvIntoDomains(ctx, f) })
}
func (t *tap) InsertCsvIntoDomainCerts(ctx context.Context, f string) error {
	return t.insert(ctx, tDomainCerts, f, func() error { return t.real.InsertCsvIntoDomainCerts(ctx, f) })
}

func (t *tap) insert(ctx context.Context, table int, file string, do func() error) error {
	file = strings.Clone(file) // the storage of the name is reused by its owner
	t.writes.Add(1)
	a := t.active.Add(1)
	defer t.active.Add(-1)
	for m := t.maxPar.Load(); a > m && !t.maxPar.CompareAndSwap(m, a); m = t.maxPar.Load() {
	}
	t.mu.Lock()
	d, where := 0, 0
	if t.delay > 0 {
		where = t.rng.IntN(4)
		d = t.rng.IntN(t.delay + 1)
	}
	fail := false
	if t.failAt > 0 && (t.failOn < 0 || t.failOn == table) {
		t.n++
		fail = t.n >= t.failAt && t.n <= t.failAt+t.later
	}
	t.files = append(t.files, file)
	t.mu.Unlock()
	if where == 0 {
		pause(d)
	}
	var err error
	if !fail || t.partial {
		if t.real != nil {
			err = do()
		} else {
			err = t.load(table, file)
		}
	}
	if where > 0 {
		pause(d)
	}
	if fail {
		t.mu.Lock()
		t.failed++
		t.mu.Unlock()
		return fmt.Errorf("write %s: %w", file, errInjected)
	}
	return err
}

func pause(us int) {
	if us < 20 {
		for i := 0; i < us; i++ {
			runtime.Gosched()
		}
		return
	}
	time.Sleep(time.Duration(us) * time.Microsecond)
}

// load reads a file as the database would.
func (t *tap) load(table int, file string) error {
	raw, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(raw) == 0 {
		return nil
	}
	if raw[len(raw)-1] != '\n' {
		t.badForm = fmt.Sprintf("%s ends without a line end", tableNames[table])
		return nil
	}
	for _, ln := range strings.Split(string(raw[:len(raw)-1]), "\n") {
		t.rows.Add(1)
		f := strings.Split(ln, ",")
		b := make([]string, len(f))
		want := []int{4, 1, 2, 2}[table]
		ok := len(f) == want
		for i := range f {
			if table == tCerts && i == 2 {
				b[i] = f[i]
				continue
			}
			x, err := base64.StdEncoding.DecodeString(f[i])
			b[i] = string(x)
			ok = ok && err == nil
		}
		ok = ok && len(b[0]) == 32
		if !ok {
			t.badForm = fmt.Sprintf("%s: row %.80q", tableNames[table], ln)
			return nil
		}
		id := K([]byte(b[0]))
		switch table {
		case tCerts:
			t.tables.certs[id] = append(t.tables.certs[id], certRow{b[1], b[2], b[3]})
		case tDirty:
			t.tables.dirty[id] = true
		case tDomains:
			t.tables.domains[id] = append(t.tables.domains[id], b[1])
		case tDomainCerts:
			if len(b[1]) != 32 {
				t.badForm = fmt.Sprintf("domain_certs: row %.80q", ln)
				return nil
			}
			t.tables.pairs[[2]K{id, K([]byte(b[1]))}] = true
		}
	}
	return nil
}

// readTables reads the real tables.
func readTables(c db.Conn) content {
	t := newContent()
	for _, r := range dbx.Rows(c.DB(), "SELECT cert_id,parent_id,DATE_FORMAT(expiration,'%Y-%m-%d %H:%i:%s'),payload FROM certs") {
		p := r[1]
		if p == "\x00NULL" {
			p = ""
		}
		t.certs[toK(r[0])] = append(t.certs[toK(r[0])], certRow{p, r[2], r[3]})
	}
	for _, r := range dbx.Rows(c.DB(), "SELECT domain_id,domain_name FROM domains") {
		t.domains[toK(r[0])] = append(t.domains[toK(r[0])], r[1])
	}
	for _, r := range dbx.Rows(c.DB(), "SELECT domain_id,cert_id FROM domain_certs") {
		t.pairs[[2]K{toK(r[0]), toK(r[1])}] = true
	}
	for _, r := range dbx.Rows(c.DB(), "SELECT domain_id FROM dirty") {
		t.dirty[toK(r[0])] = true
	}
	return t
}

func toK(s string) (k K) {
	if len(s) != 32 {
		return K{0xff, 0xff, 0xff}
	}
	copy(k[:], s)
	return
}

// expect is the reference: everything ever delivered, and what has to be there.
type expect struct {
	may       map[K]map[certRow]bool
	mayName   map[K]string
	mayPair   map[[2]K]bool
	mayDirty  map[K]bool
	must      map[K]bool
	mustPair  map[[2]K]bool
	mustDirty map[K]bool
	stored    map[[2]K]bool // relations of earlier finished runs

	// The recorded finding: of a name that comes with several certificates in one run, the
	// relation with one of them is stored, and others may be missing.
	group map[K]map[K]bool // certificates by name, since begin
	sure  map[[2]K]bool    // relations that have been there
	known string
	lost  int
}

// begin starts a new run.
func (e *expect) begin() { e.group = map[K]map[K]bool{} }

// excused tells whether the missing relation is of the recorded finding.
func (e *expect) excused(p [2]K, stored map[[2]K]bool) bool {
	g := e.group[p[0]]
	if len(g) < 2 || !g[p[1]] || e.sure[p] {
		return false
	}
	for c := range g {
		if stored[[2]K{p[0], c}] {
			return true
		}
	}
	return false
}

func newExpect() *expect {
	return &expect{may: map[K]map[certRow]bool{}, mayName: map[K]string{}, mayPair: map[[2]K]bool{},
		mayDirty: map[K]bool{}, must: map[K]bool{}, mustPair: map[[2]K]bool{}, mustDirty: map[K]bool{},
		stored: map[[2]K]bool{}, group: map[K]map[K]bool{}, sure: map[[2]K]bool{}}
}

func rowOf(c updater.Certificate) certRow {
	r := certRow{exp: c.NotAfter.UTC().Format("2006-01-02 15:04:05"), payload: string(c.Raw)}
	if c.ParentID != nil {
		r.parent = string(c.ParentID[:])
	}
	return r
}

func (e *expect) deliver(c updater.Certificate) {
	if e.may[c.CertID] == nil {
		e.may[c.CertID] = map[certRow]bool{}
	}
	e.may[c.CertID][rowOf(c)] = true
	e.must[c.CertID] = true
	for _, n := range c.Names {
		d := ref.Sha([]byte(n))
		e.mayName[d] = n
		p := [2]K{d, c.CertID}
		e.mayPair[p], e.mayDirty[d], e.mustPair[p] = true, true, true
		if e.group[d] == nil {
			e.group[d] = map[K]bool{}
		}
		e.group[d][c.CertID] = true
		if !e.stored[p] {
			e.mustDirty[d] = true
		}
	}
}

// diff compares a reading with the reference; complete also asks for everything to be there, and
// once for a single row per key (real tables).
func (e *expect) diff(t content, complete, once bool) (key, what string) {
	for id, rows := range t.certs {
		if e.may[id] == nil {
			return "extra-cert", fmt.Sprintf("certificate %x was never delivered", id[:6])
		}
		if once && len(rows) != 1 {
			return "cert-twice", fmt.Sprintf("certificate %x is stored %d times", id[:6], len(rows))
		}
		for _, r := range rows {
			if !e.may[id][r] {
				return "wrong-cert", fmt.Sprintf("certificate %x is stored as parent %.6x expiration %s payload of %d bytes", id[:6], r.parent, r.exp, len(r.payload))
			}
		}
	}
	for id, names := range t.domains {
		n, ok := e.mayName[id]
		if !ok {
			return "extra-name", fmt.Sprintf("name %.60q was never delivered", names[0])
		}
		for _, x := range names {
			if x != n {
				return "wrong-name", fmt.Sprintf("name %.60q is stored as %.60q", n, x)
			}
		}
	}
	for p := range t.pairs {
		if !e.mayPair[p] {
			return "extra-relation", fmt.Sprintf("relation (%q, %x) was never delivered", e.mayName[p[0]], p[1][:6])
		}
	}
	for d := range t.dirty {
		if !e.mayDirty[d] {
			return "extra-mark", fmt.Sprintf("pending mark of %q (%x), not delivered since the last cleaning", e.mayName[d], d[:6])
		}
	}
	if !complete {
		return
	}
	for id := range e.must {
		if len(t.certs[id]) == 0 {
			return "lost-cert", fmt.Sprintf("certificate %x is not stored (%d of %d are)", id[:6], len(t.certs), len(e.must))
		}
	}
	for p := range e.mustPair {
		if len(t.domains[p[0]]) == 0 {
			return "lost-name", fmt.Sprintf("name %.60q is not stored", e.mayName[p[0]])
		}
		if !t.pairs[p] && !e.excused(p, t.pairs) {
			n := 0
			for q := range e.mustPair {
				if !t.pairs[q] {
					n++
				}
			}
			return "lost-relation", fmt.Sprintf("relation (%.60q, %x) is not stored (%d of %d are missing)", e.mayName[p[0]], p[1][:6], n, len(e.mustPair))
		}
	}
	for d := range e.mustDirty {
		if !t.dirty[d] {
			return "lost-mark", fmt.Sprintf("name %.60q has no pending mark", e.mayName[d])
		}
	}
	for p := range e.mustPair {
		if t.pairs[p] {
			e.sure[p] = true
			continue
		}
		e.lost++
		e.known = fmt.Sprintf("relation (%.60q, %x) is not stored, one with another of %d certificates with this name is",
			e.mayName[p[0]], p[1][:6], len(e.group[p[0]]))
		delete(e.mustPair, p)
	}
	return
}

// report records an occurrence of the recorded finding.
func (e *expect) report(r *lib.R, d string) {
	if e.known != "" {
		r.Violatedf("lost-relation/name with several certificates", "%s: %s", d, e.known)
		r.Count("relations missing by the recorded finding", e.lost)
	}
}

// ---- deliveries

func anyName(rng *rand.Rand) string {
	switch rng.IntN(8) {
	case 0:
		odd := []string{`back\slash`, `quo"te`, `"quoted"`, "com,ma", "new\nline", "NULL", `\N`, " lead", "trail ",
			"'single'", "UPPER.com", "upper.com", "semi;colon", "cr\r\nlf", `\"`, "-", strings.Repeat("long", 64), "\ttab",
			strings.Repeat("x", 255), strings.Repeat("y", 256), strings.Repeat("z", 257), strings.Repeat("w", 300)}
		return odd[rng.IntN(len(odd))]
	case 1:
		return "*." + fmt.Sprintf("w%d.example.com", rng.IntN(50))
	}
	return fmt.Sprintf("%s%d.example.%s", []string{"a", "b.c", "www", "deep.deep.er"}[rng.IntN(4)], rng.IntN(200), []string{"com", "org", "net"}[rng.IntN(3)])
}

func i01Certs(rng *rand.Rand, n, nNames int) []updater.Certificate {
	var names []string
	for len(names) < nNames {
		names = append(names, anyName(rng))
	}
	base := time.Date(2024, 3, 31, 0, 30, 0, 0, time.UTC)
	tz := time.FixedZone("x", 5400)
	out := make([]updater.Certificate, n)
	own := rng.IntN(5) < 3     // no name is shared
	narrow := rng.IntN(4) == 0 // all identifiers share their first bits: one shard gets everything
	for i := range out {
		c := &out[i]
		for j := range c.CertID {
			c.CertID[j] = byte(rng.Uint32())
		}
		if narrow {
			c.CertID[0] = 0xf8 | c.CertID[0]&7
		}
		if i > 0 && rng.IntN(6) > 0 {
			p := out[rng.IntN(i)].CertID
			c.ParentID = &p
		}
		c.NotAfter = base.Add(time.Duration(rng.IntN(1_000_000)) * time.Second)
		if rng.IntN(5) == 0 {
			c.NotAfter = c.NotAfter.In(tz)
		}
		c.Raw = make([]byte, 1+rng.IntN(200))
		if rng.IntN(20) == 0 {
			c.Raw = make([]byte, 50_000+rng.IntN(100_000))
		}
		for j := range c.Raw {
			c.Raw[j] = byte(rng.Uint32())
		}
		k := rng.IntN(4)
		if rng.IntN(15) == 0 {
			k = 10 + rng.IntN(30)
		}
		for ; k > 0; k-- {
			n := names[rng.IntN(len(names))]
			if own {
				n = fmt.Sprintf("%d-%d.%s", i, k, n[:min(len(n), 280)])
			}
			c.Names = append(c.Names, n)
		}
		if rng.IntN(8) == 0 && len(c.Names) > 0 {
			c.Names = append(c.Names, c.Names[0])
		}
	}
	return out
}

type i01plan struct {
	id              int
	workers, bundle int
	nCerts          int
	runs            int
	real            bool
	full            bool // the disk gets full at some point
	w               *worldI01
}

type worldI01 struct {
	conn db.Conn
}

func i01(r *lib.R) {
	r.Rule("a case is one life of an insertion pipeline: 1-3 runs with repeats, some with failing writes and retried")
	r.Assume("the database stores a loaded file as MySQL does; the part on real tables checks that on the server installed here")
	one := []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 24, 31, 32, 33, 48, 64, 100}
	bundles := []int{1, 1, 2, 3, 5, 10, 17, 64, 1000}
	n := r.N(170, 6000)
	r.ParW(4, n, func(i int) {
		rng := r.Rand("mem", i)
		p := i01plan{id: i, workers: one[i%len(one)], bundle: bundles[rng.IntN(len(bundles))],
			nCerts: 1 + rng.IntN(120), runs: 1 + rng.IntN(3)}
		if i == 40 {
			p.workers = 260
		}
		if p.workers > 40 {
			p.runs = 1 + rng.IntN(2)
		}
		i01case(r, p, rng)
	})
	signal.Ignore(syscall.SIGXFSZ)
	// One after the other: the limit is that of the process.
	for i, n := 0, r.N(60, 1500); i < n && r.NViol() < 12; i++ {
		rng := r.Rand("full", i)
		i01case(r, i01plan{id: i, workers: 1 + rng.IntN(8), bundle: bundles[rng.IntN(len(bundles))],
			nCerts: 1 + rng.IntN(120), runs: 1 + rng.IntN(3), full: true}, rng)
	}
	dbx.Create("i01")
	conn := dbx.Connect("i01")
	defer conn.Close()
	w := &worldI01{conn: conn}
	n = r.N(16, 400)
	for i := 0; i < n && r.NViol() < 12; i++ {
		rng := r.Rand("real", i)
		p := i01plan{id: i, workers: 1 + rng.IntN(32), bundle: []int{1, 2, 7, 50, 1000}[rng.IntN(5)],
			nCerts: 1 + rng.IntN(80), runs: 1 + rng.IntN(3), real: true, w: w, full: i%4 == 3}
		i01case(r, p, rng)
	}
	if ok, st := lib.SettleGoroutines("fpki/pkg/pipeline"); !ok {
		r.Violation("left-running", "parts of insertion pipelines keep running after they ended", st)
	}
}

// limitFiles limits the size of the files this process writes (-1: not anymore), as a full disk does.
func limitFiles(n int64) {
	var l syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
}

func i01case(r *lib.R, p i01plan, rng *rand.Rand) {
	where := "stand-in"
	t := &tap{rng: r.Rand("tap", p.real, p.id), tables: newContent(), failOn: -1}
	t.delay = []int{0, 15, 200, 2000}[rng.IntN(4)]
	if p.real {
		where = "tables"
		dbx.Reset(p.w.conn.DB())
		t.real = p.w.conn
		t.delay = []int{0, 200}[rng.IntN(2)]
	}
	if p.full {
		where += ", disk full,"
	}
	desc := fmt.Sprintf("%s case %d: %d workers, bundles of %d", where, p.id, p.workers, p.bundle)
	stats := statistics.NewStatistics(time.Hour, nil)
	var m *updater.Manager
	if !r.NoPanic("panic-new", desc, func() {
		var err error
		m, err = updater.NewManager(p.workers, t, p.bundle, stats)
		if err != nil {
			r.Violatedf("new", "%s: no pipeline: %v", desc, err)
			m = nil
		}
	}) || m == nil {
		return
	}
	certs := i01Certs(rng, p.nCerts, 1+rng.IntN(60))
	e := newExpect()
	var sig []string
	failRun := -1
	if rng.IntN(3) == 0 {
		failRun = rng.IntN(p.runs)
	}
	for run := 0; run < p.runs; run++ {
		// What this run delivers: repeats within the run and of earlier runs.
		var del []updater.Certificate
		for i, c := range certs {
			if i*p.runs/len(certs) == run || rng.IntN(3) == 0 {
				del = append(del, c)
				for rng.IntN(4) == 0 {
					del = append(del, c)
				}
			}
			if rng.IntN(12) == 0 { // as somebody's ancestor: without names
				c.Names = nil
				del = append(del, c)
			}
		}
		switch rng.IntN(3) {
		case 0:
			rng.Shuffle(len(del), func(i, j int) { del[i], del[j] = del[j], del[i] })
		case 1: // repeats together
			sort.SliceStable(del, func(i, j int) bool { return string(del[i].CertID[:]) < string(del[j].CertID[:]) })
		}
		e.begin()
		for attempt := 0; ; attempt++ {
			for _, c := range del {
				e.deliver(c)
			}
			t.mu.Lock()
			t.failAt, t.n, t.failed, t.files = 0, 0, 0, nil
			if run == failRun && attempt < 2 && (attempt == 0 || rng.IntN(2) == 0) {
				// The number of writes of a run is not known in advance: the failing one may never come.
				t.failOn = rng.IntN(5) - 1
				t.failAt = 1 + rng.IntN([]int{1, 3, 12, 40}[rng.IntN(4)])
				t.later = []int{0, 0, 2, 1000}[rng.IntN(4)]
				t.partial = rng.IntN(3) == 0
			}
			t.mu.Unlock()
			d := fmt.Sprintf("%s, run %d attempt %d of %d deliveries", desc, run+1, attempt+1, len(del))
			limited := p.full && attempt == 0
			if limited {
				limit := rng.Int64N(1 << (3 + rng.IntN(17)))
				d = fmt.Sprintf("%s, files up to %d bytes", d, limit)
				limitFiles(limit)
			}
			err, ok := i01run(r, m, del, 1+rng.IntN(3), d)
			limitFiles(-1)
			if !ok {
				r.Stop()
			}
			if limited {
				r.Count("runs with files limited", 1)
				if err != nil {
					r.Count("runs with files limited, failed", 1)
				}
			}
			t.mu.Lock()
			failed, bad, files := t.failed, t.badForm, t.files
			t.mu.Unlock()
			if bad != "" {
				// Another file form than the stand-in reads: the tables decide.
				r.Count("cases with another file form", 1)
				return
			}
			var got content
			if p.real {
				got = readTables(p.w.conn)
			} else {
				got = t.tables
			}
			switch {
			case failed > 0 && err == nil:
				r.Violatedf("unreported", "%s: %d writes failed and the pipeline reports success", d, failed)
				return
			case failed == 0 && err != nil && !limited:
				r.Violatedf("spurious", "%s: nothing failed and the pipeline reports %v", d, err)
				return
			}
			if key, what := e.diff(got, err == nil, p.real); key != "" {
				r.Violatedf(key, "%s: %s", d, what)
				return
			}
			if err == nil {
				for _, f := range files {
					if _, err := os.Stat(f); err == nil {
						r.Violatedf("left-file", "%s: temporary file %s is left behind", d, f)
						os.Remove(f)
						return
					}
				}
			}
			for _, f := range files {
				os.Remove(f)
			}
			r.Count("deliveries", len(del))
			r.Count("writes failed", failed)
			sig = append(sig, fmt.Sprint(len(del), failed, attempt))
			if err == nil {
				break
			}
		}
		// The marks are worked off between runs.
		if rng.IntN(2) == 0 {
			t.mu.Lock()
			t.tables.dirty = map[K]bool{}
			t.mu.Unlock()
			if p.real {
				p.w.conn.DB().Exec("DELETE FROM dirty")
			}
			for q := range e.mustPair {
				e.stored[q] = true
			}
			e.mayDirty, e.mustDirty = map[K]bool{}, map[K]bool{}
		}
	}
	e.report(r, desc)
	r.Count("writes observed", int(t.writes.Load()))
	r.Count("rows observed", int(t.rows.Load()))
	r.Max("writes at the same time", int(t.maxPar.Load()))
	r.Seen("worker counts", p.workers)
	r.Seen("bundle sizes", p.bundle)
	r.Case(true, p.workers, p.bundle, where, strings.Join(sig, ","))
	r.Sample("%s, %d runs %v", desc, p.runs, sig)
}

// i01run is one run of the pipeline; false if it does not come to an end.
func i01run(r *lib.R, m *updater.Manager, del []updater.Certificate, producers int, d string) (error, bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m.Resume(ctx)
	var err error
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		err = m.Wait(ctx)
	}()
	in := m.IncomingCertChan
	sent := lib.Go(func() {
		var wg sync.WaitGroup
		for w := 0; w < producers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := w; i < len(del); i += producers {
					select {
					case in <- del[i]:
					case <-ended: // nobody takes deliveries after a failure
						return
					}
				}
			}()
		}
		wg.Wait()
		m.Stop()
	})
	ok := r.WaitDoneFor("hang-deliver", d+": deliveries are not taken", sent, 60*time.Second) &&
		r.WaitDoneFor("hang", d+": the pipeline does not end", ended, 60*time.Second)
	return err, ok
}
