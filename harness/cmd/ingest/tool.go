package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

// ---- material: authorities, leaves, rows, files

type xcert struct {
	id       K
	der      []byte
	names    []string
	notAfter time.Time
}

func xof(der []byte) *xcert {
	c, err := ctx509.ParseCertificate(der)
	if err != nil && ctx509.IsFatal(err) {
		panic(err)
	}
	x := &xcert{id: ref.Sha(der), der: der, notAfter: c.NotAfter}
	seen := map[string]bool{"": true}
	for _, n := range append([]string{c.Subject.CommonName}, c.DNSNames...) {
		if !seen[n] {
			seen[n] = true
			x.names = append(x.names, n)
		}
	}
	return x
}

type row struct {
	leaf    *xcert
	chain   []*xcert
	expired bool // by its column or by its certificate
	exp     time.Time
	cols    int
	quoted  bool
	pad     int
}

type world struct {
	rng    *rand.Rand
	cas    []*certs.CA
	xs     []*xcert
	up     []int // canonical issuer of each authority, -1: none
	leaves []*row
	n      int
	// Every certificate always has the same parent: the chains are not crossed.
	straight bool
	own      bool // no name is shared
	names    int
}

var future = time.Date(2090, 5, 6, 7, 8, 9, 0, time.UTC)

func newWorld(rng *rand.Rand, tag string, nCAs int, straight bool) *world {
	w := &world{rng: rng, straight: straight, own: rng.IntN(5) < 3}
	for i := 0; i < nCAs; i++ {
		p := -1
		if i > 0 && rng.IntN(4) > 0 {
			p = rng.IntN(i)
		}
		var pc *certs.CA
		if p >= 0 {
			pc = w.cas[p]
		}
		na := future
		if rng.IntN(8) == 0 {
			na = time.Date(2015, 1, 2, 3, 4, 5, 0, time.UTC) // an expired authority
		}
		ca := certs.NewCA(pc, fmt.Sprintf("Authority %s %d", tag, i), na)
		w.cas, w.xs, w.up = append(w.cas, ca), append(w.xs, xof(ca.DER)), append(w.up, p)
	}
	return w
}

// soon is some hours from now.
func soon(hours int) time.Time {
	return time.Now().UTC().Truncate(time.Second).Add(time.Duration(hours) * time.Hour)
}

// chainOf gives the authorities from i upwards; in a crossed world the way up differs at times.
func (w *world) chainOf(i int) (res []*xcert) {
	for i >= 0 {
		res = append(res, w.xs[i])
		n := w.up[i]
		if !w.straight {
			switch w.rng.IntN(8) {
			case 0:
				if i > 0 {
					n = w.rng.IntN(i)
				}
			case 1:
				n = -1
			}
		}
		i = n
	}
	return
}

func (w *world) name() string {
	if w.own {
		w.names++
		return fmt.Sprintf("%sn%d.example.%s", []string{"a", "b.c", "*.w", "www."}[w.rng.IntN(4)], w.names, []string{"com", "org"}[w.rng.IntN(2)])
	}
	return fmt.Sprintf("%s%d.example.%s", []string{"a", "b.c", "*.w", "www."}[w.rng.IntN(4)], w.rng.IntN(60), []string{"com", "org"}[w.rng.IntN(2)])
}

// nextRow makes one row of an input file.
func (w *world) nextRow() *row {
	rng := w.rng
	r := &row{exp: future, cols: 6 + rng.IntN(4), quoted: rng.IntN(6) == 0}
	if rng.IntN(40) == 0 {
		r.pad = rng.IntN(100_000)
	}
	k := rng.IntN(20)
	switch {
	case k < 3 && len(w.leaves) > 0: // a leaf again, with the same or another chain
		old := w.leaves[rng.IntN(len(w.leaves))]
		r.leaf, r.chain, r.expired, r.exp = old.leaf, old.chain, old.expired, old.exp
		if !w.straight && !r.expired && rng.IntN(2) == 0 {
			r.chain = w.chainOf(rng.IntN(len(w.cas)))
		}
	case k == 3: // an authority as a row of its own
		i := rng.IntN(len(w.cas))
		c := w.chainOf(i)
		r.leaf, r.chain = c[0], c[1:]
		r.expired = r.leaf.notAfter.Before(future)
		if r.expired {
			r.exp = r.leaf.notAfter
		}
		if w.straight && w.up[i] >= 0 && len(r.chain) == 0 {
			panic("chain")
		}
	default:
		i := rng.IntN(len(w.cas))
		na, nb := future, time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
		switch rng.IntN(24) {
		case 0, 1:
			na = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
			if rng.IntN(3) == 0 { // since some hours or days
				na = soon(-2 - rng.IntN(700))
			}
			r.expired, r.exp = true, na
			if rng.IntN(3) == 0 {
				r.exp = future // only the certificate itself tells
			}
		case 2, 3: // still valid for some hours or days
			na = soon(3 + rng.IntN(5+rng.IntN(700)))
			r.exp = na
		case 4: // valid later
			nb = soon(24 + rng.IntN(10000))
		}
		var sans []string
		for rng.IntN(3) > 0 && len(sans) < 6 {
			sans = append(sans, w.name())
		}
		cn := w.name()
		if rng.IntN(6) == 0 {
			cn = ""
		}
		w.n++
		r.leaf = xof(certs.NewLeafFrom(w.cas[i], cn, sans, nb, na, rng.IntN(4) == 0).DER)
		r.chain = w.chainOf(i)
		if !w.straight && rng.IntN(15) == 0 {
			r.chain = nil
		}
		w.leaves = append(w.leaves, r)
	}
	return r
}

// deliver says what a row has to lead to.
func (e *expect) row(r *row) {
	if r.expired {
		return
	}
	all := append([]*xcert{r.leaf}, r.chain...)
	for i, x := range all {
		c := updater.Certificate{CertID: x.id, Raw: x.der, NotAfter: x.notAfter}
		if i == 0 {
			c.Names = x.names
		}
		if i+1 < len(all) {
			p := all[i+1].id
			c.ParentID = (*common.SHA256Output)(&p)
		}
		e.deliver(c)
	}
}

// text is the row as it stands in a file.
func (r *row) text(damage int) string {
	f := make([]string, r.cols)
	for i := range f {
		f[i] = fmt.Sprint(i * 7)
	}
	f[1] += strings.Repeat("x", r.pad)
	der := r.leaf.der
	if damage == 3 {
		der = der[:len(der)/2]
	}
	f[3] = base64.StdEncoding.EncodeToString(der)
	var ch []string
	for _, c := range r.chain {
		ch = append(ch, base64.StdEncoding.EncodeToString(c.der))
	}
	switch damage {
	case 1:
		at := len(f[3])
		if r.leaf.id[2]%2 == 0 {
			at = 40 + int(r.leaf.id[3])
		}
		f[3] = f[3][:at] + "!" + f[3][min(at+1, len(f[3])):]
	case 2:
		ch = append(ch, "?Zm9v")
	case 4:
		ch = append(ch, base64.StdEncoding.EncodeToString([]byte("no certificate")))
	case damEmptyLink: // at the start, in between or at the end
		if len(ch) == 0 {
			ch = []string{""}
		}
		ch = slices.Insert(ch, int(r.leaf.id[0])%(len(ch)+1), "")
	}
	f[4] = strings.Join(ch, ";")
	f[r.cols-1] = fmt.Sprintf("%d.%d", r.exp.Unix(), r.exp.Unix()%7)
	switch damage {
	case 5:
		f = f[:4]
	case 6:
		f[r.cols-1] = []string{"tomorrow", "x.5", "12a.0", "."}[int(r.leaf.id[1])%4]
	case 7:
		f[3] = ""
	case 8:
		return ""
	}
	if r.quoted {
		var b bytes.Buffer
		f[2] = "a, \"b\""
		c := csv.NewWriter(&b)
		c.Write(f)
		c.Flush()
		return strings.TrimRight(b.String(), "\n")
	}
	return strings.Join(f, ",")
}

// 1..8 are damages of a row, these are of a file.
const (
	damTruncated = 9
	damChecksum  = 10
	damNoGzip    = 11
	damName      = 12
	damEmptyLink = 13 // of a row
	damLoop      = 14
)

// file is one input file.
type file struct {
	path       string
	from, to   int
	rows       []*row
	crlf       bool
	openEnd    bool
	members    int
	damage     int
	damagedRow int
}

func (f *file) content() []byte {
	var b bytes.Buffer
	nl := "\n"
	if f.crlf {
		nl = "\r\n"
	}
	var parts [][]byte
	for i, r := range f.rows {
		d := 0
		if i == f.damagedRow {
			d = f.damage
		}
		b.WriteString(r.text(d))
		if i < len(f.rows)-1 || !f.openEnd || d == 8 {
			b.WriteString(nl)
		}
		if f.members > 1 && i == len(f.rows)/2 {
			parts = append(parts, append([]byte{}, b.Bytes()...))
			b.Reset()
		}
	}
	parts = append(parts, b.Bytes())
	if !strings.HasSuffix(f.path, ".gz") {
		return bytes.Join(parts, nil)
	}
	var z bytes.Buffer
	for _, p := range parts {
		g := gzip.NewWriter(&z)
		g.Write(p)
		g.Close()
	}
	out := z.Bytes()
	switch f.damage {
	case damTruncated:
		out = out[:len(out)-1-len(out)/3]
	case damChecksum:
		out[len(out)-6] ^= 0x55
	case damNoGzip:
		out = bytes.Join(parts, nil)
		if len(out) == 0 {
			out = []byte("x")
		}
	}
	return out
}

func (f *file) write() {
	must(os.MkdirAll(filepath.Dir(f.path), 0o755))
	must(os.WriteFile(f.path, f.content(), 0o644))
}

func must(err error) {
	if err != nil {
		panic("environment: " + err.Error())
	}
}

// makeFiles lays rows out in files below dir.
func (w *world) makeFiles(dir string, dirs []string, n, from int, csvToo bool) (res []*file) {
	rng := w.rng
	at := from
	for i := 0; i < n; i++ {
		k := rng.IntN(9)
		switch rng.IntN(8) {
		case 0:
			k = 0
		case 1:
			k = 20 + rng.IntN(20)
		}
		f := &file{from: at, to: at + max(k, 1) - 1, crlf: rng.IntN(5) == 0, openEnd: rng.IntN(5) == 0, members: 1, damagedRow: -1}
		if rng.IntN(6) == 0 && k > 1 {
			f.members = 2
		}
		at = f.to + 1
		for j := 0; j < k; j++ {
			f.rows = append(f.rows, w.nextRow())
		}
		d := filepath.Join(dir, dirs[rng.IntN(len(dirs))])
		f.path = filepath.Join(d, "bundled", fmt.Sprintf("%d-%d.gz", f.from, f.to))
		if csvToo && rng.IntN(2) == 0 {
			// Beside the bundles, or among them.
			f.path = filepath.Join(d, []string{"", "bundled"}[rng.IntN(2)], fmt.Sprintf("%d-%d.csv", f.from, f.to))
			must(os.MkdirAll(filepath.Join(d, "bundled"), 0o755))
		}
		res = append(res, f)
	}
	return
}

// ---- running the tool

type run struct {
	code     int
	signaled bool
	hung     bool
	out      string
}

func (r run) ok() bool { return !r.hung && !r.signaled && r.code == 0 }

func (r run) String() string {
	o := r.out
	if len(o) > 1500 {
		o = o[:500] + " ... " + o[len(o)-1000:]
	}
	return fmt.Sprintf("exit %d signaled %v hung %v: %s", r.code, r.signaled, r.hung, o)
}

const toolSocket = "/var/run/mysqld/mysqld.sock" // fixed in the tool

// linkSocket makes the server of this run reachable where the tool looks for it.
func linkSocket() func() {
	s := os.Getenv("VERIF_MYSQL_SOCK")
	if s == toolSocket {
		return func() {}
	}
	dir := filepath.Dir(toolSocket)
	made := false
	if _, err := os.Stat(dir); err != nil {
		must(os.MkdirAll(dir, 0o755))
		made = true
	}
	old, oldErr := os.Readlink(toolSocket)
	if _, err := os.Lstat(toolSocket); err == nil && oldErr != nil {
		must(os.Rename(toolSocket, toolSocket+".verif"))
	} else if oldErr == nil {
		must(os.Remove(toolSocket))
	}
	must(os.Symlink(s, toolSocket))
	return func() {
		os.Remove(toolSocket)
		if oldErr == nil {
			os.Symlink(old, toolSocket)
		}
		if _, err := os.Lstat(toolSocket + ".verif"); err == nil {
			os.Rename(toolSocket+".verif", toolSocket)
		}
		if made {
			os.Remove(dir)
		}
	}
}

// tool is the compiled program with one database and directory.
type tool struct {
	dbName string
	conn   db.Conn
	work   string // scratch directory of the case
}

// start runs the program; during (optional) acts on the running process.
func (t *tool) start(args []string, during func(p *os.Process, ended <-chan struct{})) run {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "ingest"), args...)
	cmd.Dir = t.work
	cmd.Env = append(os.Environ(), "TMPDIR="+t.work)
	var out bytes.Buffer
	var mu sync.Mutex
	cmd.Stdout = lockedWriter{&mu, &out}
	cmd.Stderr = lockedWriter{&mu, &out}
	must(cmd.Start())
	ended := make(chan struct{})
	var err error
	go func() { err = cmd.Wait(); close(ended) }()
	if during != nil {
		go during(cmd.Process, ended)
	}
	var r run
	select {
	case <-ended:
	case <-time.After(150 * time.Second):
		r.hung = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-ended:
		case <-time.After(10 * time.Second):
			cmd.Process.Kill()
			<-ended
		}
	}
	mu.Lock()
	r.out = out.String()
	mu.Unlock()
	r.code = cmd.ProcessState.ExitCode()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signaled = true
		}
	}
	return r
}

type lockedWriter struct {
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (w lockedWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() < 4<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}

// crashed tells a crash of the program from an orderly failure.
func (r run) crashed() string {
	for _, s := range []string{"panic: ", "fatal error: ", "unexpected fault address"} {
		if i := strings.Index(r.out, s); i >= 0 {
			return r.out[i:min(len(r.out), i+2500)]
		}
	}
	return ""
}

func (t *tool) exec(q string, args ...any) {
	if _, err := t.conn.DB().ExecContext(context.Background(), q, args...); err != nil {
		panic("environment: " + q + ": " + err.Error())
	}
}

// published compares the refreshed material and the root with the certificates in the tables.
func (t *tool) published() (key, what string) {
	tab := readTables(t.conn)
	if len(tab.dirty) > 0 {
		return "left-marks", fmt.Sprintf("%d names are still marked as pending", len(tab.dirty))
	}
	want := map[K]map[K]bool{}
	for p := range tab.pairs {
		if want[p[0]] == nil {
			want[p[0]] = map[K]bool{}
		}
		c := p[1]
		for rows := tab.certs[c]; len(rows) == 1 && !want[p[0]][c]; rows = tab.certs[c] {
			want[p[0]][c] = true
			if len(rows[0].parent) != 32 {
				break
			}
			c = toK(rows[0].parent)
		}
	}
	leaves := map[K]K{}
	for d, cs := range want {
		leaves[d] = ref.Sha(ref.Glue(cs))
	}
	got := map[K]string{}
	for _, r := range dbx.Rows(t.conn.DB(), "SELECT domain_id,cert_ids FROM domain_payloads") {
		got[toK(r[0])] = r[1]
	}
	for d, cs := range want {
		if got[d] != string(ref.Glue(cs)) {
			return "stale-material", fmt.Sprintf("the material of name %v is %d bytes, not its %d certificates", tab.domains[d], len(got[d]), len(cs))
		}
	}
	for d := range got {
		if want[d] == nil {
			return "extra-material", fmt.Sprintf("material of %x, which has no certificate", d[:6])
		}
	}
	root := dbx.Rows(t.conn.DB(), "SELECT key32 FROM root")
	w := ref.Root(leaves)
	if len(leaves) == 0 {
		return
	}
	if len(root) != 1 || root[0][0] != string(w) {
		return "wrong-root", fmt.Sprintf("published root %x, the tables have %x", root, w)
	}
	return
}

type lane struct {
	t    *tool
	base string
}

// lanes gives each worker a database of its own and runs the cases.
func lanes(r *lib.R, prefix string, n, cases int, f func(t *tool, i int)) {
	free := make(chan *tool, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("%s_%d", prefix, i)
			dbx.Create(name)
			free <- &tool{dbName: name, conn: dbx.Connect(name)}
		}()
	}
	wg.Wait()
	r.ParW(n, cases, func(i int) {
		t := <-free
		defer func() { free <- t }()
		dir, err := os.MkdirTemp("", "case-")
		must(err)
		defer os.RemoveAll(dir)
		t.work = dir
		dbx.Reset(t.conn.DB())
		f(t, i)
	})
}

func sortedKeys(m map[K]bool) (res []K) {
	for k := range m {
		res = append(res, k)
	}
	sort.Slice(res, func(i, j int) bool { return bytes.Compare(res[i][:], res[j][:]) < 0 })
	return
}
