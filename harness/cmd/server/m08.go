package main

import (
	"bytes"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// M08 monitors the compiled map server program: as a process with files, signals and a clock.

func runM08(r *lib.R) {
	r.Rule("one case: a random history of runs of the compiled program on one database: updating at start, serving only, inserting a policy, updating on schedule, with failing logs, ended by signals while serving and at random moments, or given a broken configuration; distinct by history")
	r.Assume("the clock of the machine is not set back during a run",
		"a log that answers is answering within a minute", "a remote log's entries are unexpired (the server prunes at the beginning of a cycle)")
	tmp, err := os.MkdirTemp("", "m08")
	must(err)
	defer os.RemoveAll(tmp)
	ids := []*identity{newIdentity(tmp, "a"), newIdentity(tmp, "b")}
	m08configs(r, tmp)
	n := r.N(36, 400)
	withDBs(r, 6, n, func(i int, name string) {
		dir := filepath.Join(tmp, fmt.Sprint("case", i))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		m08case(r, ids, i, name, dir)
	})
}

// ---- configuration files

func randConfig(rng *mrand.Rand, tmp string) *config.Config {
	c := &config.Config{
		HttpAPIPort:         rng.IntN(65536),
		CsvIngestionMaxRows: rng.Uint64() >> uint(rng.IntN(64)),
		CertificatePemFile:  fmt.Sprintf("%s/ü %d\"<&>.pem", tmp, rng.IntN(9)),
		PrivateKeyPemFile:   "relative/key.pem",
		UpdateAt:            util.NewTimeOfDay(uint(rng.IntN(24)), uint(rng.IntN(60)), uint(rng.IntN(60)), uint([]int{0, 1, 999_999_999, 120_000_000, 7000}[rng.IntN(5)])),
		UpdateTimer:         util.DurationWrap{Duration: time.Duration(1+rng.IntN(1_000_000)) * []time.Duration{time.Second, time.Minute, time.Millisecond, time.Nanosecond}[rng.IntN(4)]},
	}
	for n := rng.IntN(4); n > 0; n-- {
		u := fmt.Sprintf("https://log%d.example/a?b=%d&c", rng.IntN(100), n)
		c.CTLogServerURLs = append(c.CTLogServerURLs, u)
		if rng.IntN(2) == 0 {
			if c.CertificateFolders == nil {
				c.CertificateFolders = map[string]string{}
			}
			c.CertificateFolders[u] = "/folder " + fmt.Sprint(n)
		}
	}
	if rng.IntN(5) > 0 {
		c.DBConfig = &db.Configuration{Values: map[string]string{}, CheckSchema: rng.IntN(2) == 0}
		for n := rng.IntN(5); n > 0; n-- {
			c.DBConfig.Values[fmt.Sprint("KEY", rng.IntN(9))] = fmt.Sprintf("v <%d> é", rng.IntN(9))
		}
		if rng.IntN(3) == 0 {
			c.DBConfig.DBName, c.DBConfig.Dsn = "name", "user:pw@tcp(1.2.3.4:5)/x"
		}
	}
	return c
}

func m08configs(r *lib.R, tmp string) {
	n := r.N(300, 5000)
	for i := 0; i < n; i++ {
		rng := r.Rand("config", i)
		c := randConfig(rng, tmp)
		f := filepath.Join(tmp, "config.json")
		r.NoPanic("config/crash", "writing and reading a configuration", func() {
			if err := config.WriteConfigurationToFile(f, c); err != nil {
				r.Violatedf("config/write", "a configuration cannot be written: %v", err)
				return
			}
			got, err := config.ReadConfigFromFile(f)
			if err != nil {
				r.Violatedf("config/read", "a configuration written cannot be read: %v", err)
				return
			}
			if !reflect.DeepEqual(got, c) {
				r.Violation("config/differs", "a configuration read differs from the one written", []string{fmt.Sprintf("%+v", c), fmt.Sprintf("%+v", got)})
			}
		})
		r.Case(true, "config", fmt.Sprintf("%+v", *c))
	}
	r.Count("configurations written and read", n)
}

// ---- the program

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 4<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type proc struct {
	w        *progWorld
	cmd      *exec.Cmd
	out      lockedBuf
	ended    chan struct{}
	code     int
	signaled bool
	hung     bool
}

type progWorld struct {
	*world
	dir   string
	other *identity
	conf  *config.Config
}

func (w *progWorld) launch(args ...string) *proc {
	p := &proc{w: w, ended: make(chan struct{})}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "mapserver"), args...)
	p.cmd.Dir = w.dir
	p.cmd.Env = append(os.Environ(), "TMPDIR="+w.dir, "GOTRACEBACK=all")
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	must(p.cmd.Start())
	go func() {
		err := p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				p.signaled = true
			}
		}
		close(p.ended)
	}()
	return p
}

func (p *proc) running() bool {
	select {
	case <-p.ended:
		return false
	default:
		return true
	}
}

// wait for the end of the program.
func (p *proc) wait() *proc {
	select {
	case <-p.ended:
	case <-time.After(150 * time.Second):
		p.hung = true
		p.kill()
	}
	return p
}

func (p *proc) kill() {
	if p.hung {
		p.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-p.ended:
		case <-time.After(10 * time.Second):
		}
	}
	p.cmd.Process.Kill()
	<-p.ended
}

func (p *proc) text() string {
	o := p.out.String()
	if len(o) > 3000 {
		o = o[:1200] + "\n...\n" + o[len(o)-1800:]
	}
	return fmt.Sprintf("exit %d signaled %v hung %v\n%s", p.code, p.signaled, p.hung, o)
}

const stuckText = "main routine still running after"

// crash is the trace of a crash or race in the output.
func (p *proc) crash() string {
	o := p.out.String()
	for _, s := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE", "unexpected fault address"} {
		if i := strings.Index(o, s); i >= 0 {
			return o[i:min(len(o), i+2500)]
		}
	}
	return ""
}

func (w *progWorld) failp(p *proc, key, f string, a ...any) {
	w.bad.Store(true)
	w.r.Violation(key, fmt.Sprintf("case %d: ", w.num)+fmt.Sprintf(f, a...), append(w.notes(), strings.Split(p.text(), "\n")...))
}

// transient problems are the monitor's own doing (several programs on one database server).
func (p *proc) transient() bool {
	o := p.out.String()
	return strings.Contains(o, "Error 1213") || strings.Contains(o, "address already in use")
}

// orderly says whether the program ended by itself without a crash.
func (w *progWorld) orderly(p *proc, key string) bool {
	if p.hung {
		w.failp(p, key+"/hang", "the program does not end")
		return false
	}
	if c := p.crash(); c != "" {
		w.failp(p, key+"/crash", "the program crashed")
		return false
	}
	if p.signaled {
		w.failp(p, key+"/killed", "the program died of a signal nobody sent")
		return false
	}
	return true
}

func (w *progWorld) writeConf(c *config.Config) string {
	f := filepath.Join(w.dir, "conf.json")
	must(config.WriteConfigurationToFile(f, c))
	return f
}

// at is the time of day some time from now.
func at(d time.Duration) util.TimeOfDayWrap {
	t := time.Now().UTC().Add(d)
	return util.NewTimeOfDay(uint(t.Hour()), uint(t.Minute()), uint(t.Second()), uint(t.Nanosecond()))
}

var runningText = regexp.MustCompile(`Running (empty )?map server \([^)]*\) with (root: ([0-9a-f]*) and )?public key: (\S+)`)

// announced checks what the program says about itself.
func (w *progWorld) announced(p *proc, m *model) {
	x := runningText.FindStringSubmatch(p.out.String())
	if x == nil {
		return
	}
	root := m.root()
	if (x[1] != "") != (root == nil) || x[3] != fmt.Sprintf("%x", root) {
		w.failp(p, "announced/root", "the program announces %q, published was %x", x[0][:min(len(x[0]), 120)], root)
		return
	}
	der, err := x509.MarshalPKIXPublicKey(&w.id.key.PublicKey)
	must(err)
	if x[4] != base64.StdEncoding.EncodeToString(der) {
		w.failp(p, "announced/key", "the program announces another public key")
		return
	}
	w.r.Count("announcements checked", 1)
}

var lastPort atomic.Int32

// ownPort is a port that no other case of this monitor gets.
func ownPort() int {
	for {
		p := 10500 + int(lastPort.Add(1))%20000
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

func (w *progWorld) listening() bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.conf.HttpAPIPort), time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// serve starts the program and waits until it listens; nil if it did not.
func (w *progWorld) serve(before *model, args ...string) *proc {
	for try := 0; ; try++ {
		w.conf.HttpAPIPort = ownPort()
		w.writeConf(w.conf)
		w.url = fmt.Sprintf("http://127.0.0.1:%d", w.conf.HttpAPIPort)
		p := w.launch(append(args, "conf.json")...)
		for i := 0; p.running() && i < 15000; i++ {
			if w.listening() {
				w.note("serving, arguments %q", args)
				w.announced(p, before)
				return p
			}
			time.Sleep(10 * time.Millisecond)
		}
		if p.running() {
			p.hung = true
			p.kill()
			w.failp(p, "serve/hang", "the program does not listen")
			return nil
		}
		if p.transient() && try < 20 {
			w.r.Count("starts repeated", 1)
			continue
		}
		w.failp(p, "serve/ends", "the program ends instead of listening")
		return nil
	}
}

// end ends the serving program with a signal.
func (w *progWorld) end(p *proc) bool {
	for try := 0; ; try++ {
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[w.rng.IntN(2)]
		w.note("signal %v", sig)
		if !p.running() {
			w.failp(p, "serve/ended", "the program ended by itself")
			return false
		}
		p.cmd.Process.Signal(sig)
		p.wait()
		// The program limits itself to ten seconds for ending: a busy machine may be slower, once.
		if strings.Contains(p.out.String(), stuckText) && try < 2 && !w.bad.Load() {
			if p = w.serve(w.m); p == nil {
				return false
			}
			continue
		}
		break
	}
	if !w.orderly(p, "end") {
		return false
	}
	if p.code != 0 {
		w.failp(p, "end/status", "the program ended by a signal while serving returns %d", p.code)
		return false
	}
	w.r.Count("programs ended by a signal while serving", 1)
	return true
}

// published compares the stored root, and the tree below it.
func (w *progWorld) published(p *proc, when string, m *model) bool {
	c := dbx.Connect(w.db)
	defer c.Close()
	w.loadable(when, c, m)
	if w.bad.Load() {
		w.note("output: %s", p.text())
	}
	return !w.bad.Load()
}

func (w *progWorld) commit() { w.m = w.next.clone() }

func (w *progWorld) grow() {
	n := 0
	for _, l := range w.logs {
		var ls []*certs.Leaf
		for k := w.rng.IntN(8); k > 0; k-- {
			x := w.mat.leaves[w.rng.IntN(len(w.mat.leaves))]
			ls = append(ls, x)
			w.next.addLeaf(x)
		}
		n += len(ls)
		l.add(ls...)
	}
	w.note("logs grow by %d", n)
}

func (w *progWorld) requests() (n int) {
	for _, l := range w.logs {
		n += len(l.log.Requests())
	}
	return
}

func (w *progWorld) setBroken(i int, b bool) {
	l := w.logs[i]
	l.mu.Lock()
	l.broken = b
	l.mu.Unlock()
	w.note("log %d broken %v", i, b)
}

// rootNow asks the served root; ok is false if there was no answer.
func (w *progWorld) rootNow() ([]byte, bool) {
	resp, err := w.cl.Get(w.url + "/getproof?" + url.Values{"domain": {w.mat.names[0]}}.Encode())
	if err != nil {
		return nil, false
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	var rs []*mapCommon.MapServerResponse
	if err != nil || resp.StatusCode != 200 || json.Unmarshal(b, &rs) != nil || len(rs) == 0 {
		return nil, false
	}
	return rs[0].PoI.Root, true
}

// until waits for the condition while the program runs; the bound is only against hanging.
func (w *progWorld) until(p *proc, what string, f func() bool) bool {
	for end := time.Now().Add(120 * time.Second); ; {
		if f() {
			return true
		}
		if !p.running() {
			if w.orderly(p, "serve") {
				w.failp(p, "serve/ended", "the program ended by itself while waiting for %s", what)
			}
			return false
		}
		if time.Now().After(end) {
			p.hung = true
			p.kill()
			w.failp(p, "schedule", "%s does not happen", what)
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// ---- operations of a history

// opUpdate: the program updates at start, and then serves the new map.
func (w *progWorld) opUpdate() {
	w.grow()
	w.conf.UpdateAt = at(3 * time.Hour)
	p := w.serve(w.m, "-updateNow")
	if p == nil {
		return
	}
	w.commit()
	w.queries()
	if !w.bad.Load() && w.end(p) {
		w.published(p, "after updating", w.m)
		w.r.Count("updates at start", 1)
	}
	if p.running() {
		p.kill()
	}
}

// opServe: without an update the map stays as it is, and the logs are left alone.
func (w *progWorld) opServe() {
	w.grow()
	w.conf.UpdateAt = at([]time.Duration{3 * time.Hour, -3 * time.Hour, -time.Minute}[w.rng.IntN(3)])
	n := w.requests()
	p := w.serve(w.m)
	if p == nil {
		return
	}
	w.queries()
	if !w.bad.Load() && w.end(p) {
		if w.requests() != n {
			w.failp(p, "unscheduled", "the program asked the logs, although no update was due")
			return
		}
		w.published(p, "after serving", w.m)
		w.r.Count("runs only serving", 1)
	}
	if p.running() {
		p.kill()
	}
}

// simple runs the program to its end.
func (w *progWorld) simple(args ...string) *proc {
	for try := 0; ; try++ {
		p := w.launch(args...).wait()
		if p.transient() && try < 20 {
			w.r.Count("starts repeated", 1)
			continue
		}
		w.note("ran with %q: exit %d", args, p.code)
		return p
	}
}

func (w *progWorld) policyFile(x *pol) string {
	f := fmt.Sprintf("policy%d.json", w.rng.IntN(1000))
	must(os.WriteFile(filepath.Join(w.dir, f), x.raw, 0o644))
	return f
}

// opPolicy: inserting a policy publishes exactly it; repeating changes nothing.
func (w *progWorld) opPolicy() {
	w.writeConf(w.conf)
	for k := 1 + w.rng.IntN(3); k > 0 && !w.bad.Load(); k-- {
		x := w.mat.pols[w.rng.IntN(len(w.mat.pols))]
		f := w.policyFile(x)
		n := w.requests()
		before := w.m.root()
		p := w.simple("-policyFile", f, "conf.json")
		if !w.orderly(p, "policy") {
			return
		}
		if p.code != 0 {
			w.failp(p, "policy/refused", "a policy certificate is not inserted")
			return
		}
		w.m.addPol(x)
		w.next.addPol(x)
		if !w.published(p, "after inserting a policy", w.m) {
			return
		}
		same := bytes.Equal(before, w.m.root())
		if o := p.out.String(); same && strings.Contains(o, "updated from") || !same && strings.Contains(o, "not updated") {
			w.failp(p, "policy/report", "the root changed: %v, the program says otherwise", !same)
			return
		}
		if w.requests() != n {
			w.failp(p, "policy/logs", "inserting a policy asks the logs")
			return
		}
		w.r.Count("policies inserted", 1)
	}
	if w.rng.IntN(2) == 0 {
		if p := w.serve(w.m); p != nil {
			w.queries()
			if !w.bad.Load() {
				w.end(p)
			} else {
				p.kill()
			}
		}
	}
}

// opBroken: with a failing log the initial update is an error, and the published map stays.
func (w *progWorld) opBroken() {
	w.grow()
	i := w.rng.IntN(len(w.logs))
	w.logs[i].add(w.mat.leaves[0])
	w.next.addLeaf(w.mat.leaves[0])
	w.setBroken(i, true)
	w.conf.HttpAPIPort = ownPort()
	w.writeConf(w.conf)
	p := w.simple("-updateNow", "conf.json")
	w.setBroken(i, false)
	if !w.orderly(p, "broken-log") {
		return
	}
	if p.code == 0 {
		w.failp(p, "broken-log/success", "the program reports success, although a log failed")
		return
	}
	if w.published(p, "after a failed update", w.m) {
		w.r.Count("failed updates", 1)
		w.opUpdate()
	}
}

// oneOf checks that the published map is one of the two, and completely loadable.
func (w *progWorld) oneOf(p *proc, target *model, when string) bool {
	c := dbx.Connect(w.db)
	defer c.Close()
	root, err := c.LoadRoot(bg)
	if err != nil {
		w.failp(p, "kill/root", "%s: %v", when, err)
		return false
	}
	var rb []byte
	if root != nil {
		rb = root[:]
	}
	for _, m := range []*model{w.m, target} {
		if bytes.Equal(rb, m.root()) {
			w.loadable(when, c, m)
			if m == target && !bytes.Equal(w.m.root(), target.root()) {
				w.r.Count("interrupted runs that had published", 1)
			}
			return !w.bad.Load()
		}
	}
	w.failp(p, "kill/root", "%s: the root is neither the old nor the new one", when)
	return false
}

// opInterrupt: a run is ended at a random moment; the map published is the old or the new one, and
// repeating the run completes it.
func (w *progWorld) opInterrupt() {
	dur := time.Duration(w.rng.IntN(1500)) * time.Millisecond
	if w.rng.IntN(3) == 0 {
		dur = time.Duration(w.rng.IntN(400)) * time.Millisecond
	}
	sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[w.rng.IntN(4)]
	var args []string
	target := w.next
	policy := w.rng.IntN(3) == 0
	if policy {
		x := w.mat.pols[w.rng.IntN(len(w.mat.pols))]
		args = []string{"-policyFile", w.policyFile(x)}
		target = w.m.clone() // what the logs have grown by since the last update stays for later
		target.addPol(x)
		w.next.addPol(x)
		if sig != syscall.SIGKILL {
			sig = syscall.SIGKILL // inserting does not handle signals
		}
	} else {
		w.grow()
		args = []string{"-updateNow"}
	}
	// The end comes after some output or after some time.
	marks := []string{"Running", "prune started", "update started", "coalescing", "updating SMT", "cleaning up", "update finished", "Listening"}
	mark := ""
	if !policy && w.rng.IntN(2) == 0 {
		mark = marks[w.rng.IntN(len(marks))]
		dur = time.Duration(w.rng.IntN(60)) * time.Millisecond
	}
	for try := 0; ; try++ {
		w.conf.HttpAPIPort = ownPort()
		w.writeConf(w.conf)
		p := w.launch(append(args, "conf.json")...)
		for i := 0; mark != "" && p.running() && !strings.Contains(p.out.String(), mark) && i < 30000; i++ {
			time.Sleep(5 * time.Millisecond)
			if i%20 == 0 && w.listening() {
				break
			}
		}
		time.Sleep(dur)
		was := p.running()
		if was {
			p.cmd.Process.Signal(sig)
		}
		p.wait()
		w.note("ran with %q, signal %v after %q and %v (running then: %v): exit %d", args, sig, mark, dur, was, p.code)
		if p.transient() && try < 20 {
			continue
		}
		if strings.Contains(p.out.String(), stuckText) && try < 3 && sig != syscall.SIGKILL {
			w.r.Count("ends repeated", 1)
			continue
		}
		if sig == syscall.SIGKILL && was {
			if c := p.crash(); c != "" {
				w.failp(p, "kill/crash", "the program crashed before it was killed")
				return
			}
		} else {
			// Before the program handles signals one ends it.
			if p.signaled && !strings.Contains(p.out.String(), "Running") {
				p.signaled = false
			}
			if !w.orderly(p, "interrupt") {
				return
			}
		}
		if !w.waitIdle(w.idleConn()) || !w.oneOf(p, target, fmt.Sprintf("after signal %v", sig)) {
			return
		}
		break
	}
	w.r.Count("interrupted runs", 1)
	// Repeat, completely.
	if policy {
		w.writeConf(w.conf)
		p := w.simple(append(args, "conf.json")...)
		if !w.orderly(p, "policy") {
			return
		}
		if p.code != 0 {
			w.failp(p, "policy/refused", "a policy certificate is not inserted after an interruption")
			return
		}
		w.m = target
		w.published(p, "after repeating", w.m)
		return
	}
	p := w.serve(w.served(), "-updateNow")
	if p == nil {
		return
	}
	w.commit()
	w.queries()
	if !w.bad.Load() {
		w.end(p)
		w.published(p, "after repeating", w.m)
	} else {
		p.kill()
	}
}

// opFaulty: the database fails while a policy is inserted. The failure is reported, the map published
// is the old or the new one, and repeating completes it.
func (w *progWorld) opFaulty() {
	px := newProxy()
	defer px.stop()
	conf := *w.conf
	conf.DBConfig = viaProxy(w.db, px)
	var profile map[string]int
	var sizes map[string][]int
	for k := 0; k < 4 && !w.bad.Load(); k++ {
		var x *pol
		for _, i := range w.rng.Perm(len(w.mat.pols)) {
			if x = w.mat.pols[i]; w.next.payload[x.id] == nil {
				break
			}
		}
		w.writeConf(&conf)
		f := w.policyFile(x)
		target := w.m.clone()
		target.addPol(x)
		w.next.addPol(x)
		kind, class := "", ""
		if profile != nil {
			// every kind of failure, and of command
			classes := sortedNames(profile)
			kind, class = faultKinds[w.rng.IntN(len(faultKinds))], classes[w.rng.IntN(len(classes))]
			at := 1 + w.rng.IntN(profile[class])
			px.arm(at, class, kind, tear(w.rng, sizes[class][at-1]))
		}
		p := w.simple("-policyFile", f, "conf.json")
		fired := px.what()
		if profile == nil {
			profile, sizes = px.profile(), px.answerSizes()
		}
		px.arm(0, "", "", 0)
		w.note("database failure: %s", fired)
		if !w.orderly(p, "faulty-db") {
			return
		}
		if p.code == 0 && fired != "" && kind == "error" {
			w.failp(p, "faulty-db/success", "the program reports success although the database answered %s with an error", fired)
			return
		}
		if p.code != 0 && fired == "" {
			w.failp(p, "policy/refused", "a policy certificate is not inserted")
			return
		}
		if !w.waitIdle(w.idleConn()) || !w.oneOf(p, target, "after a failure of the database") {
			return
		}
		if fired != "" {
			w.r.Count("policy insertions with a failing database", 1)
			w.r.Seen("commands failed under a policy insertion", fired)
		}
		if p.code != 0 {
			w.writeConf(w.conf)
			p = w.simple("-policyFile", f, "conf.json")
			if !w.orderly(p, "policy") {
				return
			}
			if p.code != 0 {
				w.failp(p, "policy/refused", "a policy certificate is not inserted after a failure of the database")
				return
			}
		}
		w.m = target
		if !w.published(p, "after repeating", w.m) {
			return
		}
	}
}

func (w *progWorld) idleConn() db.Conn {
	c := dbx.Connect(w.db)
	go func() { time.Sleep(60 * time.Second); c.Close() }()
	return c
}

// served is the model whose root is stored.
func (w *progWorld) served() *model {
	c := dbx.Connect(w.db)
	defer c.Close()
	if root, err := c.LoadRoot(bg); err == nil && root != nil && bytes.Equal(root[:], w.next.root()) {
		return w.next
	}
	return w.m
}

var complaint = regexp.MustCompile(`(?i)error|fail`)

func (p *proc) complaints() int { return len(complaint.FindAllString(p.out.String(), -1)) }

// opSchedule: updates happen at the configured time and again after each period.
func (w *progWorld) opSchedule() {
	for k := 0; k < 20 && bytes.Equal(w.m.root(), w.next.root()); k++ {
		w.grow()
	}
	if bytes.Equal(w.m.root(), w.next.root()) {
		return // everything is published already
	}
	period := time.Duration(1+w.rng.IntN(2)) * time.Second
	rare := w.rng.IntN(3) == 0
	if rare {
		period = time.Duration(1+w.rng.IntN(24)) * time.Hour
	}
	var p *proc
	var due time.Time
	for delay := 4 * time.Second; ; delay *= 2 {
		due = time.Now().Add(delay)
		w.conf.UpdateAt = at(delay)
		w.conf.UpdateTimer = util.DurationWrap{Duration: period}
		n := w.requests()
		if p = w.serve(w.m); p == nil {
			return
		}
		if time.Now().After(due.Add(-500 * time.Millisecond)) {
			// Too late, the update is due tomorrow.
			p.kill()
			if delay > time.Minute {
				w.r.Inconclusive("the machine is too slow for scheduled updates")
				return
			}
			continue
		}
		// Nothing happens before.
		root, ok := w.rootNow()
		seen := w.requests()
		if time.Now().Before(due.Add(-100 * time.Millisecond)) {
			if ok && !bytes.Equal(root, w.m.root()) || seen != n {
				w.failp(p, "schedule/early", "the program updates before the configured time: %d and then %d requests, root %x", n, seen, root)
				p.kill()
				return
			}
			w.r.Count("checked before the configured time", 1)
		}
		break
	}
	defer func() {
		if p.running() {
			p.kill()
		}
	}()
	arrives := func(what string) bool {
		want, old := w.next.root(), w.m.root()
		other := false
		if !w.until(p, what, func() bool {
			root, ok := w.rootNow()
			if ok && !bytes.Equal(root, want) && !bytes.Equal(root, old) {
				other = true
				return true
			}
			return ok && bytes.Equal(root, want)
		}) {
			return false
		}
		if other {
			w.failp(p, "schedule/root", "while waiting for %s a root is served that is neither the old nor the new one", what)
			return false
		}
		w.commit()
		w.r.Count("scheduled updates seen", 1)
		return true
	}
	if !arrives("the update at the configured time") {
		return
	}
	if time.Now().Before(due.Add(-100 * time.Millisecond)) {
		w.failp(p, "schedule/early", "the program updates before the configured time")
		return
	}
	w.queries()
	if rare && !w.bad.Load() {
		// The next one is due in hours.
		n := w.requests()
		w.grow()
		time.Sleep(2500 * time.Millisecond)
		if root, ok := w.rootNow(); ok && !bytes.Equal(root, w.m.root()) || w.requests() != n {
			w.failp(p, "schedule/period", "the program updates again, although the period is %v", period)
			return
		}
		w.r.Count("no update within the period", 1)
	}
	for k := 1 + w.rng.IntN(3); !rare && k > 0 && !w.bad.Load(); k-- {
		if w.rng.IntN(2) == 0 {
			// A failing cycle is reported, and neither ends the service nor changes the map.
			i := w.rng.IntN(len(w.logs))
			w.setBroken(i, true)
			w.logs[i].add(w.mat.leaves[1])
			w.next.addLeaf(w.mat.leaves[1])
			x := p.complaints()
			if !w.until(p, "the report of a failed update", func() bool {
				return p.complaints() > x
			}) {
				return
			}
			if root, ok := w.rootNow(); ok && !bytes.Equal(root, w.m.root()) {
				w.failp(p, "schedule/failed-changed", "a failed update changed the served root")
				return
			}
			w.setBroken(i, false)
			w.r.Count("failed scheduled updates", 1)
			if !arrives("the update after a failed one") {
				return
			}
		} else {
			// More than one period may have to pass: the logs may grow while an update runs.
			w.grow()
			if !bytes.Equal(w.m.root(), w.next.root()) && !arrives("a later update") {
				return
			}
		}
		w.queries()
	}
	if !w.bad.Load() && w.end(p) {
		if !w.waitIdle(w.idleConn()) {
			return
		}
		w.published(p, "after scheduled updates", w.m)
	}
	w.conf.UpdateTimer = util.DurationWrap{Duration: 24 * time.Hour}
}

// opMisuse: what cannot work is refused at start with an error, and changes nothing.
func (w *progWorld) opMisuse() {
	x := w.mat.pols[w.rng.IntN(len(w.mat.pols))]
	good := w.policyFile(x)
	w.conf.HttpAPIPort = ownPort()
	data, err := json.Marshal(w.conf)
	must(err)
	set := func(k string, v any) []byte {
		var m map[string]any
		must(json.Unmarshal(data, &m))
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
		b, err := json.Marshal(m)
		must(err)
		return b
	}
	dbSet := func(k, v string) []byte {
		c := *w.conf
		d := *c.DBConfig
		d.Values = map[string]string{}
		for a, b := range c.DBConfig.Values {
			d.Values[a] = b
		}
		d.Values[k] = v
		c.DBConfig = &d
		b, err := json.Marshal(&c)
		must(err)
		return b
	}
	write := func(name string, b []byte) string {
		must(os.WriteFile(filepath.Join(w.dir, name), b, 0o644))
		return name
	}
	busy, err := net.Listen("tcp", ":0")
	must(err)
	defer busy.Close()
	// Kinds: for serving and inserting alike, for serving only, for inserting only, arguments.
	type mis struct {
		what string
		conf []byte
		args []string
		only string
	}
	ms := []mis{
		{what: "empty file", conf: []byte{}},
		{what: "truncated file", conf: data[:len(data)/2]},
		{what: "no object", conf: []byte(`["a"]`)},
		{what: "wrong type", conf: set("HttpAPIPort", "8080")},
		{what: "bad time of day", conf: set("UpdateAt", "25:00:00")},
		{what: "bad duration", conf: set("UpdateTimer", "often")},
		{what: "no certificate file", conf: set("CertificatePemFile", "missing.pem")},
		{what: "no certificate", conf: set("CertificatePemFile", nil)},
		{what: "no key file", conf: set("PrivateKeyPemFile", "missing.pem")},
		{what: "key as certificate", conf: set("CertificatePemFile", w.id.keyPem)},
		{what: "certificate as key", conf: set("PrivateKeyPemFile", w.id.certPem)},
		{what: "key of another", conf: set("PrivateKeyPemFile", w.other.keyPem)},
		{what: "certificate of another", conf: set("CertificatePemFile", w.other.certPem)},
		{what: "garbage as certificate", conf: set("CertificatePemFile", write("garbage.pem", []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")))},
		{what: "no such database", conf: dbSet("DBNAME", "nosuchdb")},
		{what: "no such user", conf: dbSet("MYSQL_USER", "nobodyhere")},
		{what: "zero period", conf: set("UpdateTimer", "0s"), only: "serve"},
		{what: "no period", conf: set("UpdateTimer", nil), only: "serve"},
		{what: "negative period", conf: set("UpdateTimer", "-5m"), only: "serve"},
		{what: "port in use", conf: set("HttpAPIPort", busy.Addr().(*net.TCPAddr).Port), only: "serve"},
		{what: "port out of range", conf: set("HttpAPIPort", 70000), only: "serve"},
		{what: "negative port", conf: set("HttpAPIPort", -1), only: "serve"},
		{what: "log unreachable", conf: set("CTLogServerURLs", []string{fmt.Sprintf("http://127.0.0.1:%d", ownPort())}), only: "update"},
		{what: "missing policy", args: []string{"-policyFile", "missing.json"}},
		{what: "empty policy", args: []string{"-policyFile", write("p.json", nil)}},
		{what: "truncated policy", args: []string{"-policyFile", write("p.json", x.raw[:len(x.raw)-1])}},
		{what: "garbage policy", args: []string{"-policyFile", write("p.json", []byte("\x00\x01"))}},
		{what: "null policy", args: []string{"-policyFile", write("p.json", []byte("null"))}},
		{what: "directory as policy", args: []string{"-policyFile", "."}},
		{what: "other document", args: []string{"-policyFile", write("other.json", otherDocument())}},
		{what: "no configuration", args: []string{"-updateNow", "", "-"}},
		{what: "missing configuration", args: []string{"missing.conf", "-"}},
		{what: "directory as configuration", args: []string{".", "-"}},
		{what: "two configurations", args: []string{"conf.json", "conf.json", "-"}},
		{what: "unknown option", args: []string{"-nosuchoption", "conf.json", "-"}},
		{what: "sample in a missing directory", args: []string{"-createSampleConfig", "missing/sample.json", "-"}},
	}
	for k := 6; k > 0 && !w.bad.Load(); k-- {
		m := ms[w.rng.IntN(len(ms))]
		conf := m.conf
		if conf == nil {
			conf = data
		}
		write("conf.json", conf)
		// Files of several variants have one name.
		switch m.what {
		case "empty policy":
			write("p.json", nil)
		case "truncated policy":
			write("p.json", x.raw[:w.rng.IntN(len(x.raw))])
		case "garbage policy":
			write("p.json", []byte("\x00\x01"))
		case "null policy":
			write("p.json", []byte("null"))
		}
		args := append([]string{}, m.args...)
		switch {
		case len(args) > 0 && args[len(args)-1] == "-":
			args = args[:len(args)-1]
			if m.what == "no configuration" {
				args = args[:1]
			}
		case len(args) > 0:
			args = append(args, "conf.json")
		default:
			mode := m.only
			if mode == "" {
				mode = []string{"serve", "update", "policy"}[w.rng.IntN(3)]
			}
			switch mode {
			case "serve":
				args = []string{"conf.json"}
			case "update":
				args = []string{"-updateNow", "conf.json"}
			case "policy":
				args = []string{"-policyFile", good, "conf.json"}
			}
		}
		w.note("misuse: %s", m.what)
		p := w.launch(args...)
		// Listening would be wrong here, and does not end.
		w.waitOrListening(p)
		for try := 0; m.what != "port in use" && p.transient() && try < 10; try++ {
			p = w.launch(args...)
			w.waitOrListening(p)
		}
		if p.running() {
			p.kill()
			w.failp(p, "misuse/accepted", "the program serves with: %s", m.what)
			return
		}
		if !w.orderly(p, "misuse") {
			return
		}
		if p.code == 0 {
			w.failp(p, "misuse/success", "the program reports success with: %s", m.what)
			return
		}
		w.r.Count("misuses refused", 1)
		w.r.Seen("misuses", m.what, args[0])
		if !w.published(p, "after "+m.what, w.m) {
			return
		}
	}
	if w.rng.IntN(2) == 0 {
		w.sample()
	}
}

func (w *progWorld) waitOrListening(p *proc) {
	for i := 0; i < 9000 && p.running(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
}

func otherDocument() []byte {
	d := &common.PolicyCertificateRevocation{}
	b, err := common.ToJSON(d)
	must(err)
	return b
}

// sample checks the options that need nothing else.
func (w *progWorld) sample() {
	p := w.simple("-createSampleConfig", "sample.json")
	if !w.orderly(p, "sample") {
		return
	}
	if p.code != 0 {
		w.failp(p, "sample/refused", "no sample configuration")
		return
	}
	c, err := config.ReadConfigFromFile(filepath.Join(w.dir, "sample.json"))
	if err != nil || c.DBConfig == nil || c.CertificatePemFile == "" || c.PrivateKeyPemFile == "" || c.HttpAPIPort <= 0 ||
		c.UpdateTimer.Duration <= 0 || len(c.CTLogServerURLs) == 0 || c.CsvIngestionMaxRows == 0 {
		w.failp(p, "sample/content", "the sample configuration is incomplete: %v %+v", err, c)
		return
	}
	for _, a := range []string{"-v", "-version"} {
		if p := w.simple(a); w.orderly(p, "version") && (p.code != 0 || !strings.HasPrefix(p.out.String(), "FP-PKI Map Server")) {
			w.failp(p, "version", "the version is not printed")
		}
	}
	w.r.Count("sample configurations read", 1)
}

func m08case(r *lib.R, ids []*identity, i int, name, dir string) {
	rng := r.Rand("m08", i)
	a := rng.IntN(2)
	w := &progWorld{world: &world{r: r, rng: rng, num: i, id: ids[a], db: name, m: newModel(), next: newModel(), patient: true},
		dir: dir, other: ids[1-a]}
	w.mat = newMaterial(rng, 14, 4, 8, 6+rng.IntN(10))
	for k := 1 + rng.IntN(2); k > 0; k-- {
		w.logs = append(w.logs, newLog())
	}
	defer func() {
		for _, l := range w.logs {
			l.log.Close()
		}
	}()
	w.cl = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	w.conf = &config.Config{
		DBConfig:            dbx.Config(name),
		CertificatePemFile:  w.id.certPem,
		PrivateKeyPemFile:   w.id.keyPem,
		CsvIngestionMaxRows: 100000,
		UpdateAt:            at(3 * time.Hour),
		UpdateTimer:         util.DurationWrap{Duration: 24 * time.Hour},
	}
	for _, l := range w.logs {
		w.conf.CTLogServerURLs = append(w.conf.CTLogServerURLs, l.log.URL())
	}
	ops := []func(){w.opUpdate, w.opServe, w.opPolicy, w.opBroken, w.opInterrupt, w.opSchedule, w.opMisuse, w.opInterrupt, w.opFaulty}
	names := []string{"update", "serve", "policy", "broken", "interrupt", "schedule", "misuse", "interrupt", "faulty"}
	// Every kind is the start of some history.
	k := i % len(ops)
	n := 3 + rng.IntN(3)
	var hist []string
	for j := 0; j < n && !w.bad.Load(); j++ {
		w.note("== %s", names[k])
		hist = append(hist, names[k])
		ops[k]()
		k = rng.IntN(len(ops))
	}
	r.Case(len(hist) == n, append([]any{i}, anys(hist)...)...)
	r.Sample("case %d: %s", i, strings.Join(hist, ", "))
}

func anys(s []string) (res []any) {
	for _, x := range s {
		res = append(res, x)
	}
	return
}
