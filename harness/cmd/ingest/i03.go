package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// I03: the journal. The reference is the set of entry indices committed per folder: a file is
// pending exactly if it has an index that no commit of its folder covered. The journal on disk is
// judged by opening a copy of it, at random times, after kills and after failed writes.

func i03(r *lib.R) {
	r.Rule("a case is one history of a journal: jobs, commits, readings, crashes and failed writes; or one history of the compiled tool with kills")
	r.Assume("a crash is the end of the process; what the operating system has accepted survives it")
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the journal prints
	}
	r.Par(r.N(160, 5000), func(i int) { i03history(r, i) })
	r.Par(r.N(80, 2500), func(i int) { i03parallel(r, i) })
	r.Par(r.N(120, 3000), func(i int) { i03crash(r, i) })
	r.Par(r.N(60, 600), func(i int) { i03garbage(r, i) })
	defer linkSocket()()
	lanes(r, "i03", 6, r.N(72, 500), func(t *tool, i int) {
		rng := r.Rand("tool", i)
		c := newToolCase(r, t, i, rng)
		if i%3 == 2 {
			c.logSize()
		} else {
			c.killed()
		}
		c.end()
	})
}

// ---- a folder with files and the reference

type jfile struct {
	path     string
	from, to uint
	key      string // folder the interval belongs to
}

// jdir makes a directory of (empty) input files.
func jdir(rng *rand.Rand, root string, n int) (fs []jfile) {
	base := filepath.Base(root)
	subs := []string{""}
	if rng.IntN(3) == 0 {
		subs = []string{"", "a", "b/c"}
	}
	seen := map[string]bool{}
	for len(fs) < n {
		sub := subs[rng.IntN(len(subs))]
		from := uint(rng.IntN(12) * 10)
		if rng.IntN(6) == 0 {
			from += uint(rng.IntN(10))
		}
		to := from + uint([]int{9, 9, 9, 19, 0, rng.IntN(60)}[rng.IntN(6)])
		p := filepath.Join(root, sub, "bundled", fmt.Sprintf("%d-%d.gz", from, to))
		if seen[p] {
			continue
		}
		seen[p] = true
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, nil, 0o644))
		fs = append(fs, jfile{p, from, to, base + "|" + sub})
	}
	return
}

// covered are the indices committed per folder.
type covered map[string]map[uint]bool

func (c covered) add(f jfile) {
	if c[f.key] == nil {
		c[f.key] = map[uint]bool{}
	}
	for x := f.from; x <= f.to; x++ {
		c[f.key][x] = true
	}
}

func (c covered) has(f jfile) bool {
	for x := f.from; x <= f.to; x++ {
		if !c[f.key][x] {
			return false
		}
	}
	return true
}

func (c covered) clone() covered {
	d := covered{}
	for k, m := range c {
		d[k] = map[uint]bool{}
		for x := range m {
			d[k][x] = true
		}
	}
	return d
}

// openJournal opens one journal at a time: opening is not meant to be done in parallel.
func openJournal(file string, cfg journal.JobConfiguration, dir string) (*journal.Journal, error) {
	opening.Lock()
	defer opening.Unlock()
	return journal.NewJournal(file, cfg, dir)
}

var opening sync.Mutex

var i03cfg = journal.JobConfiguration{IngestFiles: true}

// judge compares a list of pending files: nothing done is in it (done), all not tried is (tried).
func judge(fs []jfile, pending []string, done, tried covered) (key, what string) {
	in := map[string]bool{}
	for _, p := range pending {
		if in[p] {
			return "listed-twice", fmt.Sprintf("%s is pending twice", p)
		}
		in[p] = true
	}
	for _, f := range fs {
		if in[f.path] && done.has(f) {
			return "forgotten", fmt.Sprintf("%s was completed and is pending", f.path)
		}
		if !in[f.path] && !tried.has(f) {
			return "over-reported", fmt.Sprintf("%s is not pending and was never completed", f.path)
		}
		delete(in, f.path)
	}
	for p := range in {
		return "invented", fmt.Sprintf("%s is pending and does not exist", p)
	}
	return
}

// readJournal opens a copy of the journal at its present state.
func readJournal(file, scratch, dir string, plain ...bool) (pending []string, err error) {
	raw, err := os.ReadFile(file)
	if err != nil {
		return nil, fmt.Errorf("environment: %w", err)
	}
	if !json.Valid(raw) {
		return nil, fmt.Errorf("%d bytes are not a complete record: %.60q ...", len(raw), raw)
	}
	must(os.WriteFile(scratch, raw, 0o644))
	defer os.Remove(scratch)
	cfg := i03cfg
	cfg.IncludePlainCSVs = len(plain) > 0 && plain[0]
	j, err := openJournal(scratch, cfg, dir)
	if err != nil {
		return nil, err
	}
	return j.PendingFiles()
}

func paths(fs []jfile) (res []string) {
	for _, f := range fs {
		res = append(res, f.path)
	}
	return
}

func someOf(rng *rand.Rand, fs []jfile, n int) (res []jfile) {
	for _, k := range rng.Perm(len(fs))[:min(n, len(fs))] {
		res = append(res, fs[k])
	}
	return
}

// startOf is the first entry of a file.
func startOf(path string) int {
	a, _, _ := strings.Cut(filepath.Base(path), "-")
	n, err := strconv.Atoi(a)
	must(err)
	return n
}

// i03history: jobs one after another on the same journal, for two directories.
func i03history(r *lib.R, i int) {
	rng := r.Rand("history", i)
	tmp, err := os.MkdirTemp("", "j-")
	must(err)
	defer os.RemoveAll(tmp)
	jf := filepath.Join(tmp, "journal.json")
	roots := []string{filepath.Join(tmp, "x", "log-a"), filepath.Join(tmp, "x", "log-b"), filepath.Join(tmp, "y", "log-a.1")}
	all := map[string][]jfile{}
	for _, root := range roots {
		all[root] = jdir(rng, root, 2+rng.IntN(10))
	}
	done := covered{}
	var log []string
	bad := func(key, what string) { r.Violation(key, fmt.Sprintf("history %d: %s", i, what), log) }
	jobs := 1 + rng.IntN(6)
	for k := 0; k < jobs; k++ {
		root := roots[rng.IntN(len(roots))]
		dir := root
		switch rng.IntN(4) {
		case 0:
			dir += "/"
		case 1:
			dir = filepath.Dir(root) + "/./" + filepath.Base(root)
		}
		cfg := i03cfg
		cfg.FileBatch, cfg.Coalesce = rng.IntN(3), rng.IntN(2) == 0
		var j *journal.Journal
		if !r.NoPanic("panic", fmt.Sprintf("history %d: opening", i), func() { j, err = openJournal(jf, cfg, dir) }) {
			return
		}
		if err != nil {
			bad("open", fmt.Sprintf("the journal cannot be opened: %v", err))
			return
		}
		log = append(log, "open "+dir)
		fs := all[root]
		clean := func(f []string) []string {
			for i := range f {
				f[i] = filepath.Clean(f[i])
			}
			return f
		}
		for n := rng.IntN(6); n >= 0; n-- {
			p, err := j.PendingFiles()
			if err != nil {
				bad("pending", fmt.Sprintf("no pending files: %v", err))
				return
			}
			if key, what := judge(fs, clean(p), done, done); key != "" {
				bad(key, what)
				return
			}
			if !slices.IsSortedFunc(p, func(a, b string) int { return startOf(a) - startOf(b) }) {
				bad("order", fmt.Sprintf("the pending files are not in the order of their entries: %v", p))
				return
			}
			c := someOf(rng, fs, rng.IntN(4))
			if rng.IntN(3) > 0 && len(p) > 0 { // as the tool does: the first of the pending files
				c = nil
				for _, x := range p[:1+rng.IntN(min(len(p), 3))] {
					c = append(c, fs[slices.IndexFunc(fs, func(f jfile) bool { return f.path == x })])
				}
			}
			if err := j.CommitProgress(paths(c), rng.IntN(2) == 0, rng.IntN(2) == 0); err != nil {
				bad("commit", fmt.Sprintf("commit of %v fails: %v", paths(c), err))
				return
			}
			for _, f := range c {
				done.add(f)
			}
			log = append(log, fmt.Sprintf("commit %v", paths(c)))
			p, err = readJournal(jf, filepath.Join(tmp, "copy.json"), root)
			if err != nil {
				bad("unreadable", fmt.Sprintf("after a commit: %v", err))
				return
			}
			if key, what := judge(fs, p, done, done); key != "" {
				bad(key+"-on-disk", what)
				return
			}
			r.Count("journals read", 1)
		}
		if rng.IntN(2) == 0 {
			if err := j.Close(); err != nil {
				bad("close", err.Error())
				return
			}
			log = append(log, "close")
		}
		if rng.IntN(4) == 0 { // files appear
			f := jdir(rng, root, 1)[0]
			if !slices.ContainsFunc(fs, func(g jfile) bool { return g.path == f.path }) {
				all[root] = append(fs, f)
			}
		}
	}
	r.Case(len(log) > 2, "history", i, strings.Join(log, ";"))
}

// i03parallel: commits of several goroutines, while the file is read all the time.
func i03parallel(r *lib.R, i int) {
	rng := r.Rand("parallel", i)
	tmp, err := os.MkdirTemp("", "j-")
	must(err)
	defer os.RemoveAll(tmp)
	jf := filepath.Join(tmp, "journal.json")
	root := filepath.Join(tmp, "log")
	fs := jdir(rng, root, 6+rng.IntN(14))
	j, err := openJournal(jf, i03cfg, root)
	must(err)
	var mu sync.Mutex
	done, tried := covered{}, covered{}
	var wg, rg sync.WaitGroup
	stop := make(chan struct{})
	reads := 0
	rg.Add(1)
	go func() {
		defer rg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			mu.Lock()
			d := done.clone()
			mu.Unlock()
			p, err := readJournal(jf, filepath.Join(tmp, "copy.json"), root)
			mu.Lock()
			t := tried.clone()
			mu.Unlock()
			reads++
			if err != nil {
				r.Violatedf("torn", "parallel %d: the journal is not complete at some time: %v", i, err)
				return
			}
			if key, what := judge(fs, p, d, t); key != "" {
				r.Violatedf(key+"-in-between", "parallel %d: %s", i, what)
				return
			}
		}
	}()
	w := 1 + rng.IntN(4)
	for k := 0; k < w; k++ {
		mine := fs[k*len(fs)/w : (k+1)*len(fs)/w]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, f := range mine {
				mu.Lock()
				tried.add(f)
				mu.Unlock()
				if err := j.CommitProgress([]string{f.path}, false, false); err != nil {
					r.Violatedf("commit", "parallel %d: %v", i, err)
				}
				mu.Lock()
				done.add(f)
				mu.Unlock()
				if _, err := j.PendingFiles(); err != nil {
					r.Violatedf("pending", "parallel %d: %v", i, err)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	p, err := readJournal(jf, filepath.Join(tmp, "copy.json"), root)
	if err != nil || len(p) > 0 {
		r.Violatedf("forgotten", "parallel %d: %v pending after all were completed, %v", i, p, err)
	}
	r.Count("journals read while written", reads)
	r.Case(true, "parallel", i, w, len(fs))
}

// ---- crashes

// i03child commits the files it is told, one by one, and says what it does.
// Arguments: journal, directory; then lines on stdin: "commit file file ..." or "limit N".
func i03child() {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	signal.Ignore(syscall.SIGXFSZ)
	say := func(s string) { fmt.Fprintln(out, s) }
	arg := strings.Split(os.Getenv("VERIF_CHILD_ARGS"), "\x1f")
	say("opening")
	j, err := openJournal(arg[0], i03cfg, arg[1])
	if err != nil {
		say("open-error " + err.Error())
		return
	}
	say("opened")
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		f := strings.Split(sc.Text(), "\x1f")
		switch f[0] {
		case "limit":
			n, _ := strconv.ParseInt(f[1], 10, 64)
			var l syscall.Rlimit
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
			l.Cur = uint64(n)
			if n < 0 {
				l.Cur = l.Max
			}
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
			say("ok")
		case "commit":
			if err := j.CommitProgress(f[1:], false, false); err != nil {
				say("error " + strings.ReplaceAll(err.Error(), "\n", " "))
			} else {
				say("ok")
			}
		}
	}
}

func i03crash(r *lib.R, i int) {
	rng := r.Rand("crash", i)
	tmp, err := os.MkdirTemp("", "j-")
	must(err)
	defer os.RemoveAll(tmp)
	jdirName := filepath.Join(tmp, "journals")
	must(os.Mkdir(jdirName, 0o755))
	jf := filepath.Join(jdirName, "journal.json")
	root := filepath.Join(tmp, "log")
	fs := jdir(rng, root, 6+rng.IntN(30))
	done, tried := covered{}, covered{}
	var log []string
	lives := 1 + rng.IntN(4)
	opened := false
	for life := 0; life < lives; life++ {
		self, err := os.Executable()
		must(err)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=journal", "VERIF_CHILD_ARGS="+jf+"\x1f"+root)
		in, err := cmd.StdinPipe()
		must(err)
		po, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		rd := bufio.NewReader(po)
		recv := func() string {
			s, _ := rd.ReadString('\n')
			return strings.TrimSpace(s)
		}
		recv()
		limited := false
		alive := true
		if rng.IntN(8) == 0 { // killed while it opens the journal
			time.Sleep(time.Duration(rng.IntN(3000)) * time.Microsecond)
			cmd.Process.Kill()
			alive = false
			log = append(log, "killed while opening")
		} else if s := recv(); s != "opened" {
			if opened {
				r.Violation("open", fmt.Sprintf("crash %d: the journal cannot be opened after a crash: %q", i, s), log)
			} else {
				r.Violation("open", fmt.Sprintf("crash %d: no new journal: %q", i, s), log)
			}
			cmd.Process.Kill()
			cmd.Wait()
			return
		} else {
			opened = true
		}
		for n := 1 + rng.IntN(8); n > 0 && alive; n-- {
			c := someOf(rng, fs, 1+rng.IntN(3))
			if rng.IntN(4) == 0 {
				l := int64(rng.IntN(600))
				if limited {
					l = -1
				}
				limited = !limited
				fmt.Fprintf(in, "limit\x1f%d\n", l)
				recv()
				log = append(log, fmt.Sprintf("limit %d", l))
			}
			for _, f := range c {
				tried.add(f)
			}
			fmt.Fprintf(in, "commit\x1f%s\n", strings.Join(paths(c), "\x1f"))
			log = append(log, fmt.Sprintf("commit %v", paths(c)))
			if rng.IntN(4) == 0 {
				time.Sleep(time.Duration(rng.IntN(4000)) * time.Microsecond)
				cmd.Process.Kill()
				log = append(log, "killed")
				alive = false
			}
			s := recv()
			if s == "ok" {
				for _, f := range c {
					done.add(f)
				}
				log = append(log, "acknowledged")
			} else if strings.HasPrefix(s, "error") {
				if !limited {
					r.Violation("commit", fmt.Sprintf("crash %d: commit fails: %s", i, s), log)
				}
				log = append(log, s)
				r.Count("writes refused by the file system", 1)
			} else if alive {
				r.Violation("child", fmt.Sprintf("crash %d: the process with the journal ended: %q", i, s), log)
				alive = false
			}
		}
		if alive {
			cmd.Process.Kill()
		}
		in.Close()
		cmd.Wait()
		if left, _ := filepath.Glob(jf + ".tmp-*"); len(left) > 0 {
			r.Count("kills within the rewriting of the file", 1)
			for _, l := range left {
				os.Remove(l)
			}
		}
		if _, err := os.Stat(jf); errors.Is(err, os.ErrNotExist) && !opened {
			continue
		}
		p, err := readJournal(jf, filepath.Join(tmp, "copy.json"), root)
		if err != nil {
			r.Violation("torn-by-crash", fmt.Sprintf("crash %d: %v", i, err), log)
			return
		}
		if key, what := judge(fs, p, done, tried); key != "" {
			r.Violation(key+"-by-crash", fmt.Sprintf("crash %d: %s", i, what), log)
			return
		}
		r.Count("journals read after a crash", 1)
	}
	r.Case(len(log) > 2, "crash", i, strings.Join(log, ";"))
}

var aRange = regexp.MustCompile(`"\d+-\d+"`)

// i03garbage: a damaged journal is refused, or everything counts as pending.
func i03garbage(r *lib.R, i int) {
	rng := r.Rand("garbage", i)
	tmp, err := os.MkdirTemp("", "j-")
	must(err)
	defer os.RemoveAll(tmp)
	jf := filepath.Join(tmp, "journal.json")
	root := filepath.Join(tmp, "log")
	fs := jdir(rng, root, 4+rng.IntN(10))
	j, err := openJournal(jf, i03cfg, root)
	must(err)
	done := covered{}
	for _, f := range someOf(rng, fs, len(fs)/2) {
		must(j.CommitProgress([]string{f.path}, false, false))
		done.add(f)
	}
	raw, err := os.ReadFile(jf)
	must(err)
	n := rng.IntN(len(raw))
	what := fmt.Sprintf("garbage %d: cut at %d of %d", i, n, len(raw))
	bad := append([]byte{}, raw[:n]...)
	if ivs := aRange.FindAllIndex(raw, -1); i%2 == 0 && len(ivs) > 0 {
		// One range is not one.
		iv := ivs[rng.IntN(len(ivs))]
		s := []string{"1-0-999999", "0-999999x", "x0-999999", "0-999999-1", "999999-0", "999999", "-0-999999", "0--999999", "", " 0-999999",
			"0-999999 ", "0-9999999999999999999999", "+0-999999", "0-0x9999", "0\\n-999999", "0-999999\\n"}[(i/2)%16]
		what = fmt.Sprintf("garbage %d: range %s is %q", i, raw[iv[0]:iv[1]], s)
		bad = slices.Concat(raw[:iv[0]], []byte(`"`+s+`"`), raw[iv[1]:])
		r.Count("malformed ranges in the journal", 1)
	}
	must(os.WriteFile(jf, bad, 0o644))
	r.NoPanic("panic", what, func() {
		j, err := openJournal(jf, i03cfg, root)
		if err != nil {
			r.Count("damaged journals refused", 1)
			return
		}
		p, err := j.PendingFiles()
		if err != nil {
			return
		}
		if key, w := judge(fs, p, covered{}, done); key != "" {
			r.Violatedf(key+"-damaged", "%s: %s", what, w)
		}
	})
	r.Case(true, "garbage", i, n)
}

// ---- the tool

// killed: the tool is killed at a random time, several times; what the journal says has been done
// is in the tables, and a last run completes the work.
func (c *toolCase) killed() {
	c.kind = "killed"
	fs := c.add(c.dirs(), 4+c.rng.IntN(8), 0)
	c.deliver(fs)
	jf := filepath.Join(c.t.work, "journal.json")
	strategy := []string{"", "", "onlyingest"}[c.rng.IntN(3)]
	for n := 1 + c.rng.IntN(3); n > 0 && !c.bad; n-- {
		// The kill comes some time after a batch has been recorded, or after the start.
		batches := c.rng.IntN(4)
		wait := time.Duration(c.rng.IntN(700)) * time.Millisecond
		res := c.tool(strategy, func(p *os.Process, ended <-chan struct{}) {
			var last time.Time
			for seen := -1; seen < batches; {
				select {
				case <-ended:
					return
				case <-time.After(2 * time.Millisecond):
				}
				if st, err := os.Stat(jf); err == nil && st.ModTime() != last {
					last = st.ModTime()
					seen++
				}
			}
			select {
			case <-ended:
			case <-time.After(wait):
				p.Kill()
			}
		}, "-filebatch", pick(c.rng, 1, 1, 2))
		if c.bad {
			return
		}
		if res.ok() {
			c.r.Count("tools that ended before the kill", 1)
		} else if res.signaled {
			c.r.Count("tools killed", 1)
		} else {
			c.fail("spurious-failure", "a run on proper input fails: %v", res)
			return
		}
		c.recorded(jf, fs)
	}
	if c.bad {
		return
	}
	if c.succeed("") {
		c.complete(true)
	}
}

// recorded checks that the files that are not pending are in the tables.
func (c *toolCase) recorded(jf string, fs []*file) {
	if _, err := os.Stat(jf); err != nil {
		return
	}
	p, err := readJournal(jf, filepath.Join(c.t.work, "copy.json"), c.dir, c.csv)
	if err != nil {
		c.fail("torn-by-crash", "%v", err)
		return
	}
	pending := map[string]bool{}
	for _, x := range p {
		pending[x] = true
	}
	e := newExpect()
	n := 0
	for _, f := range fs {
		if !pending[f.path] {
			n++
			for _, row := range f.rows {
				e.row(row)
			}
		}
	}
	// Only the presence: the other files may be there in part.
	tab := readTables(c.t.conn)
	for id := range e.must {
		if len(tab.certs[id]) == 0 {
			c.fail("over-reported", "certificate %x of a file recorded as completed is not stored", id[:6])
			return
		}
	}
	for q := range e.mustPair {
		if len(tab.domains[q[0]]) == 0 || !tab.pairs[q] && !c.e.excused(q, tab.pairs) {
			c.fail("over-reported", "relation (%s, %x) of a file recorded as completed is not stored", e.mayName[q[0]], q[1][:6])
			return
		}
	}
	c.nothingElse()
	c.r.Count("files recorded as completed, verified", n)
	if n > 0 && n < len(fs) {
		c.r.Count("kills between two recorded batches", 1)
	}
}

// logSize: the recorded size of a log does not exceed the gapless part that was ingested.
func (c *toolCase) logSize() {
	c.kind = "log size"
	c.csv = false
	base := fmt.Sprintf("https:__ct%d.example.com_", c.i) + []string{"log", "log_", "log_", "logs_2025_h1_", "a_b_c_d_e_f"}[c.rng.IntN(5)]
	c.dir = filepath.Join(c.t.work, base)
	hash := sha256.Sum256([]byte(strings.ReplaceAll(base, "_", "/")))
	url := strings.ToUpper(hex.EncodeToString(hash[:]))[:8]
	must(os.MkdirAll(c.dir, 0o755))
	sub := []string{""}
	if c.rng.IntN(3) == 0 {
		sub = []string{"", "part"}
	}
	at := 0
	if c.rng.IntN(6) == 0 {
		at = 1 + c.rng.IntN(5)
	}
	n := 2 + c.rng.IntN(6)
	have := map[int]bool{}
	var later []*file
	skip := c.rng.IntN(2) == 0
	for i := 0; i < n; i++ {
		w := 1 + c.rng.IntN(6)
		if i > 0 && c.rng.IntN(4) == 0 {
			at += 1 + c.rng.IntN(4) // a gap
		}
		f := &file{from: at, to: at + w - 1, members: 1, damagedRow: -1}
		f.path = filepath.Join(c.dir, sub[c.rng.IntN(len(sub))], "bundled", fmt.Sprintf("%d-%d.gz", f.from, f.to))
		if c.rng.IntN(3) == 0 {
			f.rows = append(f.rows, c.w.nextRow())
		}
		at += w
		switch k := c.rng.IntN(8); {
		case k == 0:
			later = append(later, f)
			continue
		case (k == 1 || k == 2) && skip:
			must(os.MkdirAll(filepath.Dir(f.path), 0o755))
			must(os.Symlink(filepath.Join(c.t.work, "nowhere"), f.path))
			later = append(later, f)
			continue
		}
		f.write()
		c.fs = append(c.fs, f)
		for x := f.from; x <= f.to; x++ {
			have[x] = true
		}
	}
	c.deliver(c.fs)
	var extra []string
	if skip {
		extra = append(extra, "-skipmissingfiles")
	}
	for round := 0; round < 2 && !c.bad; round++ {
		if len(c.fs) > 0 && !c.succeed("onlyingest", extra...) {
			return
		}
		c.complete(false)
		prefix := 0
		for have[prefix] {
			prefix++
		}
		before := c.sizes()
		res := c.tool("recordctsize", nil)
		after := c.sizes()
		for url, size := range after {
			if size > prefix {
				c.fail("size", "size %d is recorded for %s, the gapless part has %d entries", size, url, prefix)
				return
			}
		}
		if !res.ok() {
			if len(after) != len(before) {
				c.fail("size", "recording the size fails and leaves %v, before %v", after, before)
			}
			c.r.Count("sizes refused", 1)
		} else {
			if _, ok := after[url]; !ok {
				c.fail("size", "recording the size succeeds, and there is no size for folder %s (%s): %v", base, url, after)
			}
			c.r.Count("sizes recorded", 1)
			for at, size := range after {
				if at != url && before[at] != size {
					c.fail("size-elsewhere", "size %d is recorded for another log (%s) than that of folder %s (%s)", size, at, base, url)
					return
				}
				if len(sub) == 1 && at == url && size != prefix {
					c.fail("size", "size %d is recorded for %s, the gapless part has %d entries", size, url, prefix)
					return
				}
			}
		}
		if len(sub) == 1 && prefix > 0 && !res.ok() && !c.bad {
			c.fail("spurious-failure", "the size of a gapless part of %d entries is not recorded: %v", prefix, res)
		}
		for _, f := range later {
			os.Remove(f.path)
			f.write()
			for x := f.from; x <= f.to; x++ {
				have[x] = true
			}
		}
		c.fs = append(c.fs, later...)
		c.deliver(later)
		later = nil
	}
}

func (c *toolCase) sizes() map[string]int {
	res := map[string]int{}
	for _, row := range dbx.Rows(c.t.conn.DB(), "SELECT HEX(url_hash),size FROM ctlog_server_last_status") {
		n, err := strconv.Atoi(row[1])
		must(err)
		res[row[0][:8]] = n
	}
	return res
}
