package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// I02: the compiled tool is run as a user does, on directories of generated files. What its exit
// status promises is compared with the tables: success means that every row of every file is
// there, and nothing else, and that the published material and root match; a malformed file or a
// refused write has to end in a failure, after which a repaired run has to complete the work.

func i02(r *lib.R) {
	r.Rule("a case is one directory of input files with one or more runs of the compiled tool on it")
	r.Assume("the tool's server socket path is redirected to the private server of this run")
	defer linkSocket()()
	kinds := []func(c *toolCase){
		(*toolCase).full, (*toolCase).damaged, (*toolCase).siblings, (*toolCase).full, (*toolCase).refused, (*toolCase).twoSteps,
		(*toolCase).incremental, (*toolCase).damaged, (*toolCase).missing, (*toolCase).stopped, (*toolCase).refused, (*toolCase).cutOff, (*toolCase).twoSteps, (*toolCase).incremental,
	}
	lanes(r, "i02", 6, r.N(280, 2800), func(t *tool, i int) {
		rng := r.Rand("case", i)
		c := newToolCase(r, t, i, rng)
		kinds[i%len(kinds)](c)
		c.end()
	})
}

// toolCase is one directory, journal and database.
type toolCase struct {
	r    *lib.R
	t    *tool
	i    int
	rng  *rand.Rand
	w    *world
	dir  string
	kind string
	fs   []*file
	e    *expect
	runs []string
	bad  bool
	csv  bool
	flg  []string
}

func newToolCase(r *lib.R, t *tool, i int, rng *rand.Rand) *toolCase {
	base := []string{"ct", "https:__ct.example.com_log", "a b", "log[1]", "x*y"}[rng.IntN(5)]
	c := &toolCase{r: r, t: t, i: i, rng: rng, dir: filepath.Join(t.work, base), e: newExpect()}
	c.w = newWorld(rng, fmt.Sprint(i), 2+rng.IntN(8), rng.IntN(2) == 0)
	c.csv = rng.IntN(4) == 0
	must(os.MkdirAll(c.dir, 0o755))
	return c
}

func (c *toolCase) end() {
	if c.r.Prop == "I02" {
		c.e.report(c.r, fmt.Sprintf("case %d, %s", c.i, c.kind))
	}
	n := 0
	for _, f := range c.fs {
		n += len(f.rows)
	}
	c.r.Count("input files", len(c.fs))
	c.r.Count("input rows", n)
	c.r.Count("certificates expected", len(c.e.must))
	c.r.Count("runs of the tool", len(c.runs))
	c.r.Seen("kinds", c.kind)
	c.r.Seen("outcomes", c.kind, strings.Join(c.runs, " "))
	c.r.Case(n > 0, c.i, c.kind, n, len(c.fs), strings.Join(c.runs, " "))
	c.r.Sample("case %d %s: %d files, %d rows, %d certificates, runs: %s", c.i, c.kind, len(c.fs), n, len(c.e.must), strings.Join(c.runs, " "))
}

func (c *toolCase) fail(key, format string, a ...any) {
	c.bad = true
	c.r.Violation(key, fmt.Sprintf("case %d, %s: ", c.i, c.kind)+fmt.Sprintf(format, a...), c.describe())
}

func (c *toolCase) describe() (res []string) {
	for _, f := range c.fs {
		rel, _ := filepath.Rel(c.dir, f.path)
		res = append(res, fmt.Sprintf("%s: %d rows, damage %d at %d, members %d", rel, len(f.rows), f.damage, f.damagedRow, f.members))
	}
	return append(res, c.runs...)
}

func (c *toolCase) add(dirs []string, n, from int) []*file {
	fs := c.w.makeFiles(c.dir, dirs, n, from, c.csv)
	for _, f := range fs {
		f.write()
	}
	c.fs = append(c.fs, fs...)
	return fs
}

func (c *toolCase) deliver(fs []*file) {
	for _, f := range fs {
		for _, row := range f.rows {
			c.e.row(row)
		}
	}
}

func pick(rng *rand.Rand, xs ...int) string { return strconv.Itoa(xs[rng.IntN(len(xs))]) }

// tool runs the program on the directory.
func (c *toolCase) tool(strategy string, during func(p *os.Process, ended <-chan struct{}), extra ...string) run {
	rng := c.rng
	a := []string{"-dbname", c.t.dbName, "-journal", filepath.Join(c.t.work, "journal.json"), "-strategy", strategy,
		"-numfiles", pick(rng, 1, 2, 3, 4, 6), "-numparsers", pick(rng, 1, 2, 3, 8), "-numdechainers", pick(rng, 1, 2, 3, 5),
		"-numdbworkers", pick(rng, 1, 2, 3, 4, 5, 7, 8, 16, 32), "-multiinsert", pick(rng, 1, 2, 3, 50, 1000), "-filebatch", pick(rng, 0, 0, 1, 2, 3, 4, 5, 7, 9)}
	if c.csv {
		a = append(a, "-includeplaincsvs")
	}
	a = append(a, extra...)
	a = append(a, c.dir)
	res := c.t.start(a, during)
	what := fmt.Sprintf("%q:exit=%d", strategy, res.code)
	c.flg = a
	c.runs = append(c.runs, what)
	if res.hung {
		c.fail("hang", "the tool does not end: %v; %v", a, res)
	} else if s := res.crashed(); s != "" {
		c.fail("crash", "the tool crashes: %v: %s", a, s)
	}
	return res
}

// complete checks the tables after a successful run.
func (c *toolCase) complete(published bool) {
	if c.bad {
		return
	}
	e := *c.e
	if published {
		e.mustDirty = nil
	}
	if key, what := e.diff(readTables(c.t.conn), true, true); key != "" {
		c.fail(key, "%s, flags %v", what, c.flg)
		return
	}
	c.e.known, c.e.lost = e.known, e.lost
	if !published {
		return
	}
	if key, what := c.t.published(); key != "" {
		c.fail(key, "%s, flags %v", what, c.flg)
		return
	}
	c.cleaned()
	c.r.Count("complete states verified", 1)
}

// cleaned is called when the marks have been worked off.
func (c *toolCase) cleaned() {
	for p := range c.e.mustPair {
		c.e.stored[p] = true
	}
	c.e.mustDirty = map[K]bool{}
	c.e.begin()
}

// nothingElse checks the tables at any time.
func (c *toolCase) nothingElse() {
	if c.bad {
		return
	}
	if key, what := c.e.diff(readTables(c.t.conn), false, true); key != "" {
		c.fail(key, "%s, flags %v", what, c.flg)
	}
}

// succeed runs the tool, which has to succeed.
func (c *toolCase) succeed(strategy string, extra ...string) bool {
	res := c.tool(strategy, nil, extra...)
	if !c.bad && !res.ok() {
		c.fail("spurious-failure", "a run on proper input fails: flags %v: %v", c.flg, res)
	}
	return !c.bad
}

func (c *toolCase) failing(why string, res run) {
	if !c.bad && res.ok() {
		c.fail("unreported", "%s, and the run reports success, flags %v", why, c.flg)
	}
	if !c.bad && res.signaled {
		c.fail("crash", "%s, and the run is killed by a signal: %v", why, res)
	}
}

func (c *toolCase) dirs() []string {
	return [][]string{{""}, {""}, {"", "a"}, {"a", "b", "zz"}, {"deep/er", "x[2]"}}[c.rng.IntN(5)]
}

// ---- the kinds of cases

func (c *toolCase) full() {
	c.kind = "full"
	n := 1 + c.rng.IntN(8)
	if c.rng.IntN(4) == 0 {
		n += 10 // several batches, the last of them smaller
	}
	fs := c.add(c.dirs(), n, 0)
	c.deliver(fs)
	if c.succeed("") {
		c.complete(true)
	}
}

// siblings: folders beside and below each other, listed before and after "bundled".
func (c *toolCase) siblings() {
	c.kind = "siblings"
	dirs := []string{"", "a", "zz", "a/sub", "bundles", "b"}
	c.rng.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	fs := c.add(dirs[:2+c.rng.IntN(4)], 3+c.rng.IntN(8), 0)
	c.deliver(fs)
	if c.succeed("") {
		c.complete(true)
	}
}

func (c *toolCase) twoSteps() {
	c.kind = "two steps"
	fs := c.add(c.dirs(), 1+c.rng.IntN(6), 0)
	c.deliver(fs)
	if !c.succeed("onlyingest") {
		return
	}
	c.complete(false)
	seconds := []string{"skipingest", ""}
	if c.rng.IntN(3) > 0 && len(c.e.mustPair) > 0 {
		// The second step fails in one of its phases; then it is done again, or only what it left.
		table := []string{"tree", "root", "domain_payloads"}[c.rng.IntN(3)]
		c.kind += ", refused " + table
		c.t.exec("CREATE TRIGGER refuse BEFORE INSERT ON " + table + " FOR EACH ROW SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = 'refused by verif'")
		res := c.tool(seconds[max(0, c.rng.IntN(4)-2)], nil)
		c.t.exec("DROP TRIGGER refuse")
		c.failing("the database refuses a row of "+table, res)
		c.nothingElse()
		if table != "domain_payloads" {
			seconds = append(seconds, "", "onlysmtupdate")
		}
		if c.bad {
			return
		}
		c.r.Count("second steps refused", 1)
	}
	second := seconds[c.rng.IntN(len(seconds))]
	c.kind += " " + second
	if !c.bad && c.succeed(second) {
		c.complete(true)
	}
}

// incremental: files are added between runs; also with the same ranges in another folder.
func (c *toolCase) incremental() {
	c.kind = "incremental"
	n := 2 + c.rng.IntN(3)
	from := 0
	open := false
	same := c.rng.IntN(2) == 0
	if same {
		c.kind = "incremental, same ranges"
	}
	for k := 0; k < n && !c.bad; k++ {
		dirs := c.dirs()
		if same {
			from, dirs = 0, []string{fmt.Sprintf("part%d", k)}
			if k == 0 && c.rng.IntN(2) == 0 {
				dirs = []string{""}
			}
		}
		fs := c.add(dirs, 1+c.rng.IntN(3), from)
		from = fs[len(fs)-1].to + 1
		c.deliver(fs)
		if c.rng.IntN(3) == 0 { // the publication is left to a later run
			c.kind += ", ingested"
			if !c.succeed("onlyingest") {
				return
			}
			c.complete(false)
			c.e.begin()
			open = true
			continue
		}
		if !c.succeed("") {
			return
		}
		c.complete(true)
		open = false
	}
	if open && !c.bad && c.succeed([]string{"", "", "skipingest"}[c.rng.IntN(3)]) {
		c.complete(true)
		c.r.Count("publications by a later run", 1)
	}
}

func (c *toolCase) damaged() {
	c.csv = false
	damage := []int{1, 2, 3, 4, 5, 6, 7, damTruncated, damChecksum, damNoGzip, damName, damEmptyLink, damLoop}[(c.i/6)%13]
	c.kind = fmt.Sprintf("damaged %d", damage)
	fs := c.w.makeFiles(c.dir, c.dirs(), 1+c.rng.IntN(6), 0, false)
	var at []*file
	for _, f := range fs {
		for _, row := range f.rows {
			if !row.expired {
				at = append(at, f)
				break
			}
		}
	}
	if len(at) == 0 {
		f := fs[0]
		row := c.w.nextRow()
		for row.expired {
			row = c.w.nextRow()
		}
		f.rows = append(f.rows, row)
		at = append(at, f)
	}
	f := at[c.rng.IntN(len(at))]
	for {
		f.damagedRow = c.rng.IntN(len(f.rows))
		if !f.rows[f.damagedRow].expired {
			break
		}
	}
	f.damage = damage
	if damage > 8 && damage != damEmptyLink {
		f.members = 1
		f.damagedRow = -1
	}
	good := f.path
	if damage == damName {
		f.path = filepath.Join(filepath.Dir(f.path), []string{"notes.gz", "5-1.gz", "1_2.gz", "12.gz"}[c.rng.IntN(4)])
	}
	c.fs = fs
	for _, f := range fs {
		f.write()
	}
	if damage == damLoop { // it is listed and cannot be opened
		must(os.Remove(f.path))
		must(os.Symlink(filepath.Base(f.path), f.path))
	}
	c.deliver(fs)
	var extra []string
	if c.rng.IntN(3) == 0 || (damage == damNoGzip || damage == damLoop) && c.rng.IntN(4) > 0 {
		// A file that is there but damaged is not a missing one.
		extra = append(extra, "-skipmissingfiles")
		c.kind += ", missing ones skipped"
	}
	res := c.tool("", nil, extra...)
	c.failing(fmt.Sprintf("damage %d in file %s", damage, f.path), res)
	c.nothingElse()
	if c.bad {
		return
	}
	if damage == damName || damage == damLoop {
		os.Remove(f.path)
		f.path = good
	}
	f.damage, f.damagedRow = 0, -1
	f.write()
	if c.succeed("") {
		c.complete(true)
	}
}

// refused: the database refuses one row of one table.
func (c *toolCase) refused() {
	fs := c.add(c.dirs(), 1+c.rng.IntN(6), 0)
	c.deliver(fs)
	tables := []string{"certs", "dirty", "domains", "domain_certs", "domain_payloads", "tree", "root"}
	table := tables[(c.i/6)%len(tables)]
	c.kind = "refused " + table
	cond := ""
	switch table {
	case "certs":
		for _, k := range sortedKeys(c.e.must) {
			cond = fmt.Sprintf("NEW.cert_id = X'%x'", k[:])
			break
		}
	case "tree", "root":
		if len(c.e.mustPair) > 0 {
			cond = "TRUE"
		}
	default:
		for _, k := range sortedKeys(c.e.mustDirty) {
			cond = fmt.Sprintf("NEW.domain_id = X'%x'", k[:])
			if c.rng.IntN(3) == 0 {
				break
			}
		}
	}
	if cond == "" {
		c.kind = "full"
	} else {
		c.t.exec("CREATE TRIGGER refuse BEFORE INSERT ON " + table + " FOR EACH ROW BEGIN IF " + cond +
			" THEN SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = 'refused by verif'; END IF; END")
		res := c.tool("", nil)
		c.t.exec("DROP TRIGGER refuse")
		c.failing("the database refuses a row of "+table, res)
		c.nothingElse()
	}
	if !c.bad && c.succeed("") {
		c.complete(true)
	}
}

// missing: a listed file cannot be opened.
func (c *toolCase) missing() {
	c.kind = "missing"
	fs := c.add(c.dirs(), 2+c.rng.IntN(6), 0)
	var gone, there []*file
	n := 1
	if c.rng.IntN(2) == 0 {
		n = 2 + c.rng.IntN(len(fs)-1)
	}
	for k, i := range c.rng.Perm(len(fs)) {
		if k >= n {
			there = append(there, fs[i])
			continue
		}
		gone = append(gone, fs[i])
		must(os.Remove(fs[i].path))
		must(os.Symlink(filepath.Join(c.t.work, "nowhere"), fs[i].path))
	}
	if c.rng.IntN(3) == 0 {
		res := c.tool("", nil)
		c.deliver(fs) // whatever has been read so far
		c.failing("a file cannot be opened", res)
		c.nothingElse()
	} else {
		c.kind = "missing, skipped"
		if n > 1 {
			c.kind = "several missing, skipped"
		}
		c.deliver(there)
		if !c.succeed("", "-skipmissingfiles") {
			return
		}
		c.complete(true)
		c.deliver(fs)
	}
	if c.bad {
		return
	}
	for _, f := range gone {
		os.Remove(f.path)
		f.write()
	}
	if c.succeed("") {
		c.complete(true)
	}
}

// stopped: the tool is asked to end while it works.
func (c *toolCase) stopped() {
	c.kind = "stopped"
	fs := c.add(c.dirs(), 4+c.rng.IntN(8), 0)
	c.deliver(fs)
	for n := 1 + c.rng.IntN(2); n > 0 && !c.bad; n-- {
		wait := time.Duration(100+c.rng.IntN(1500)) * time.Millisecond
		res := c.tool("", func(p *os.Process, ended <-chan struct{}) {
			select {
			case <-ended:
			case <-time.After(wait):
				p.Signal(os.Interrupt)
			}
		})
		if res.ok() {
			c.complete(true)
			c.r.Count("stopped runs that had finished", 1)
		} else {
			c.nothingElse()
		}
	}
	if !c.bad && c.succeed("") {
		c.complete(true)
	}
}

// cutOff: the connections of the tool are closed by the server.
func (c *toolCase) cutOff() {
	c.kind = "cut off"
	fs := c.add(c.dirs(), 4+c.rng.IntN(8), 0)
	c.deliver(fs)
	wait := time.Duration(c.rng.IntN(800)) * time.Millisecond
	every := time.Duration(1+c.rng.IntN(30)) * time.Millisecond
	left := 1 + c.rng.IntN(60)
	stopped := make(chan struct{})
	res := c.tool("", func(p *os.Process, ended <-chan struct{}) {
		defer close(stopped)
		k := dbx.Connect(c.t.dbName)
		defer k.Close()
		k.DB().SetMaxOpenConns(1)
		next := time.After(wait)
		for ; left > 0; left-- {
			select {
			case <-ended:
				return
			case <-next:
			}
			next = time.After(every)
			for _, row := range dbx.Rows(k.DB(), "SELECT id FROM information_schema.processlist WHERE db=? AND (command<>'Sleep' OR RAND()<0.1) AND id<>CONNECTION_ID()", c.t.dbName) {
				if _, err := k.DB().Exec("KILL " + row[0]); err == nil {
					c.r.Count("connections cut", 1)
				}
			}
		}
	})
	<-stopped
	if res.ok() {
		c.complete(true)
	} else {
		c.nothingElse()
	}
	if !c.bad && c.succeed("") {
		c.complete(true)
	}
}
