package main

import (
	"bytes"
	"context"
	"database/sql"
	"encoding/base64"
	"encoding/json"
	"fmt"
	mrand "math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	_ "github.com/go-sql-driver/mysql"
	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"github.com/transparency-dev/merkle/proof"
	"github.com/transparency-dev/merkle/rfc6962"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	"github.com/netsec-ethz/fpki/pkg/policylog/server/logserver"
	"github.com/netsec-ethz/fpki/pkg/policylog/server/logsigner"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

var hasher = rfc6962.DefaultHasher

func runG03(r *lib.R) {
	r.Rule("one case: a random history on one database of the compiled log server and log signer: creating logs, submitting from several clients at once, proving, queueing documents, ending by signals, killing and restarting either program, deleting logs, broken configurations; distinct by history")
	r.Assume("the Trillian library and the database keep what they acknowledge", "the signer runs again within the case")
	tmp, err := os.MkdirTemp("", "g03")
	must(err)
	defer os.RemoveAll(tmp)
	g03configs(r, tmp)
	n := r.N(40, 500)
	schema, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "harness/cmd/plog/storage.sql"))
	must(err)
	adm := openDB("")
	defer adm.Close()
	r.ParW(10, n, func(i int) {
		name := fmt.Sprintf("verifplog%d", i)
		_, err := adm.Exec("CREATE DATABASE " + name)
		must(err)
		defer adm.Exec("DROP DATABASE " + name)
		d := openDB(name)
		defer d.Close()
		_, err = d.Exec(string(schema))
		must(err)
		dir := filepath.Join(tmp, fmt.Sprint("case", i))
		must(os.MkdirAll(dir+"/config", 0o755))
		defer os.RemoveAll(dir)
		g03case(r, i, name, d, dir)
	})
}

func openDB(name string) *sql.DB {
	d, err := sql.Open("mysql", "root@unix("+os.Getenv("VERIF_MYSQL_SOCK")+")/"+name+"?multiStatements=true")
	must(err)
	return d
}

// ---- configuration files

func fill(rng *mrand.Rand, x any) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if rng.IntN(4) == 0 {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(fmt.Sprintf("v <%d> é\"", rng.IntN(1000)))
		case reflect.Int, reflect.Int64:
			f.SetInt(rng.Int64N(1 << 40))
		case reflect.Bool:
			f.SetBool(rng.IntN(2) == 0)
		case reflect.Float64:
			f.SetFloat(rng.NormFloat64())
		}
	}
}

func roundTrip[T any](r *lib.R, rng *mrand.Rand, f string, save func(*T, string) error, read func(*T, string) error) {
	var x, y T
	fill(rng, &x)
	what := fmt.Sprintf("%T", x)
	r.NoPanic("config/crash", "writing and reading a "+what, func() {
		if err := save(&x, f); err != nil {
			r.Violatedf("config/write", "a %s cannot be written: %v", what, err)
			return
		}
		if err := read(&y, f); err != nil {
			r.Violatedf("config/read", "a %s written cannot be read: %v", what, err)
			return
		}
		if !reflect.DeepEqual(x, y) {
			r.Violation("config/differs", "a "+what+" read differs from the one written", []string{fmt.Sprintf("%+v", x), fmt.Sprintf("%+v", y)})
		}
		if err := read(&y, f+".no"); err == nil {
			r.Violatedf("config/missing", "a missing %s is read", what)
		}
		must(os.WriteFile(f, []byte([]string{"", "{", "[1]", `{"RpcEndpoint":7,"LogAddress":7,"RPCAddress":7}`}[rng.IntN(4)]), 0o644))
		if err := read(&y, f); err == nil {
			r.Violatedf("config/malformed", "a malformed %s is read", what)
		}
	})
	r.Case(true, "config", fmt.Sprintf("%+v", x))
}

func g03configs(r *lib.R, tmp string) {
	n := r.N(100, 2000)
	for i := 0; i < n; i++ {
		f := filepath.Join(tmp, "c.json")
		roundTrip(r, r.Rand("cs", i), f, logserver.SaveLogConfigToFile, logserver.ReadLogConfigFromFile)
		roundTrip(r, r.Rand("cg", i), f, logsigner.SaveLogSignerConfigToFile, logsigner.ReadLogSignerConfigFromFile)
		roundTrip(r, r.Rand("ca", i), f, client.SaveAdminClientConfigToFile, client.ReadAdminClientConfigFromFile)
		roundTrip(r, r.Rand("cl", i), f, client.SaveLogClientConfigToFile, client.ReadLogClientConfigFromFile)
	}
	r.Count("configurations written and read", 4*n)
}

// ---- histories

// plog is one log and what the monitor knows of it.
type plog struct {
	id       int64
	period   time.Duration
	accepted map[string]bool
	maybe    map[string]bool // submitted with an unknown outcome
	deleted  bool
	gone     bool

	mu    sync.Mutex
	heads map[uint64][]byte
	last  *types.LogRootV1
	news  int // heads without new entries
}

type world struct {
	r      *lib.R
	num    int
	rng    *mrand.Rand
	dir    string
	name   string
	d      *sql.DB
	scfg   *logserver.LogServerConfig
	gcfg   *logsigner.LogSignerConfig
	port   int
	server *proc
	signer *proc
	conn   *grpc.ClientConn
	logs   []*plog
	lmu    sync.Mutex // guards logs for the watcher
	bad    atomic.Bool
	nmu    sync.Mutex
	hist   []string
	seq    int
}

func (w *world) note(f string, a ...any) {
	w.nmu.Lock()
	defer w.nmu.Unlock()
	w.hist = append(w.hist, fmt.Sprintf(f, a...))
}

func (w *world) fail(key, f string, a ...any) {
	w.bad.Store(true)
	w.nmu.Lock()
	det := append([]string{}, w.hist...)
	w.nmu.Unlock()
	for _, p := range []*proc{w.server, w.signer} {
		if p != nil {
			det = append(det, strings.Split(p.text(), "\n")...)
		}
	}
	w.r.Violation(key, fmt.Sprintf("case %d: ", w.num)+fmt.Sprintf(f, a...), det)
}

func (w *world) failp(p *proc, key, f string, a ...any) {
	w.note("%s", p.text())
	w.fail(key, f, a...)
}

func (w *world) args() []string {
	return []string{"-mysql_uri", "root@unix(" + os.Getenv("VERIF_MYSQL_SOCK") + ")/" + w.name}
}

func (w *world) writeConf() {
	must(logserver.SaveLogConfigToFile(w.scfg, w.dir+"/config/logserver_config.json"))
	must(logsigner.SaveLogSignerConfigToFile(w.gcfg, w.dir+"/config/logsigner_config.json"))
}

// startServer starts the log server and waits until it listens.
func (w *world) startServer() bool {
	w.writeConf()
	w.note("start server")
	w.server = launch("logserver", w.dir, w.args()...)
	return w.awaitListening(w.server, w.port)
}

func (w *world) startSigner() bool {
	w.gcfg.RpcEndpoint = fmt.Sprintf("127.0.0.1:%d", ownPort())
	w.writeConf()
	w.note("start signer")
	w.signer = launch("logsigner", w.dir, w.args()...)
	var port int
	fmt.Sscanf(w.gcfg.RpcEndpoint, "127.0.0.1:%d", &port)
	return w.awaitListening(w.signer, port)
}

func (w *world) awaitListening(p *proc, port int) bool {
	for i := 0; p.running() && i < 12000; i++ {
		if listening(port) {
			if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.2:%d", port), time.Second); err == nil {
				c.Close()
				w.failp(p, "start/elsewhere", "the %s configured for 127.0.0.1:%d listens at other addresses, too", p.name, port)
			}
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	if p.running() {
		p.hung = true
		w.failp(p, "start/hang", "the %s does not listen", p.name)
		p.kill()
		return false
	}
	w.failp(p, "start/ends", "the %s ends instead of listening", p.name)
	return false
}

// end ends a program with a signal, and checks how it ended.
func (w *world) end(p *proc) bool {
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[w.rng.IntN(2)]
	w.note("signal %v to the %s", sig, p.name)
	return w.endWith(p, sig)
}

func (w *world) endWith(p *proc, sig syscall.Signal) bool {
	if !p.running() {
		w.failp(p, "ended", "the %s ended by itself", p.name)
		return false
	}
	p.cmd.Process.Signal(sig)
	return w.ended(p, sig)
}

// ended waits for a program that got the signal, and checks how it ends.
func (w *world) ended(p *proc, sig syscall.Signal) bool {
	p.wait()
	if p.hung {
		w.failp(p, "end/hang", "the %s does not end", p.name)
		return false
	}
	if p.crash() {
		w.failp(p, "end/crash", "the %s crashed", p.name)
		return false
	}
	if sig != syscall.SIGKILL {
		if p.signaled || p.code != 0 {
			w.failp(p, "end/status", "the %s, asked to end, returns %d (killed %v)", p.name, p.code, p.signaled)
			return false
		}
		w.r.Count("programs ended by a signal", 1)
	} else {
		w.r.Count("programs killed", 1)
	}
	return true
}

func (w *world) raw() trillian.TrillianLogClient { return trillian.NewTrillianLogClient(w.conn) }

func tctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 60*time.Second)
}

// head records a tree head and compares it with all others known.
func (w *world) head(l *plog, root *types.LogRootV1, how string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if x, ok := l.heads[root.TreeSize]; ok && !bytes.Equal(x, root.RootHash) {
		w.fail("head/fork", "log %d: two tree heads of size %d: %x and %x (%s)", l.id, root.TreeSize, x, root.RootHash, how)
		return
	}
	l.heads[root.TreeSize] = root.RootHash
}

// watch observes the heads the server hands out.
func (w *world) watch(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(15 * time.Millisecond):
		}
		w.lmu.Lock()
		logs := append([]*plog{}, w.logs...)
		w.lmu.Unlock()
		for _, l := range logs {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			resp, err := w.raw().GetLatestSignedLogRoot(ctx, &trillian.GetLatestSignedLogRootRequest{LogId: l.id})
			cancel()
			if err != nil {
				continue
			}
			var root types.LogRootV1
			if err := root.UnmarshalBinary(resp.GetSignedLogRoot().GetLogRoot()); err != nil {
				w.fail("head/garbled", "log %d: %v", l.id, err)
				continue
			}
			w.r.Count("tree heads observed", 1)
			w.head(l, &root, "watched")
			l.mu.Lock()
			if o := l.last; o != nil {
				if root.TreeSize < o.TreeSize || root.TimestampNanos < o.TimestampNanos {
					w.fail("head/back", "log %d: the tree head goes back from size %d, time %d to size %d, time %d", l.id, o.TreeSize, o.TimestampNanos, root.TreeSize, root.TimestampNanos)
				} else if root.TreeSize == o.TreeSize && root.TimestampNanos != o.TimestampNanos {
					l.news++
					d := time.Duration(root.TimestampNanos - o.TimestampNanos)
					if l.period == 0 {
						w.fail("head/period", "log %d: a new tree head without new entries, although the log is configured for none", l.id)
					} else if d < l.period {
						w.fail("head/period", "log %d: a new tree head without new entries after %v, although the log is configured for %v", l.id, d, l.period)
					}
					w.r.Count("tree heads without new entries", 1)
				}
			}
			l.last = &root
			l.mu.Unlock()
		}
	}
}

// opCreate creates a log with the admin client.
func (w *world) opCreate() {
	w.seq++
	out := fmt.Sprintf("%s/out%d", w.dir, w.seq)
	must(os.MkdirAll(out+"/trees_config", 0o755))
	c := &client.AdminClientConfig{
		RpcMaxWaitingTimeInSec: 60,
		HashStrategy:           "RFC6962_SHA256",
		DisplayName:            fmt.Sprintf("log %d", w.seq),
		Description:            fmt.Sprintf("the log number %d of case %d", w.seq, w.num),
		MaxRootDuration:        []int{0, 0, 1, 2, 7200}[w.rng.IntN(5)],
		MaxReceiveMessageSize:  1 << 24,
		LogAddress:             fmt.Sprintf("127.0.0.1:%d", w.port),
		OutPutPath:             out,
	}
	f := out + "/admin.json"
	must(client.SaveAdminClientConfigToFile(c, f))
	a, err := client.GetAdminClient(f)
	if err != nil {
		w.fail("create/client", "the admin client cannot be made: %v", err)
		return
	}
	if w.rng.IntN(3) == 0 {
		// A log whose file cannot be written, or without a server, is not reported as created.
		broken := *c
		what := []string{"without a folder for its file", "without a server"}[w.rng.IntN(2)]
		if what == "without a server" {
			broken.LogAddress, broken.RpcMaxWaitingTimeInSec = fmt.Sprintf("127.0.0.1:%d", ownPort()), 1
		} else {
			broken.OutPutPath = out + "/none"
		}
		must(client.SaveAdminClientConfigToFile(&broken, f+"2"))
		if b, err := client.GetAdminClient(f + "2"); err == nil {
			if t, err := b.CreateNewTree(); err == nil {
				w.fail("create/success", "a log is reported as created %s: %v", what, t)
				return
			}
		}
		w.r.Count("logs which cannot be created", 1)
	}
	tree, err := a.CreateNewTree()
	w.note("create log, period %d s: %v", c.MaxRootDuration, err)
	if err != nil {
		w.fail("create/refused", "a log cannot be created: %v", err)
		return
	}
	l := &plog{id: tree.TreeId, period: time.Duration(c.MaxRootDuration) * time.Second,
		accepted: map[string]bool{}, maybe: map[string]bool{}, heads: map[uint64][]byte{}}
	for _, o := range w.logs {
		if o.id == l.id {
			w.fail("create/same", "two logs have the identifier %d", l.id)
			return
		}
	}
	ctx, cancel := tctx()
	defer cancel()
	got, err := trillian.NewTrillianAdminClient(w.conn).GetTree(ctx, &trillian.GetTreeRequest{TreeId: l.id})
	if err != nil {
		w.fail("create/absent", "the log created does not exist: %v", err)
		return
	}
	for how, t := range map[string]*trillian.Tree{"returned": tree, "stored": got} {
		if t.TreeId != l.id || t.TreeType != trillian.TreeType_LOG || t.TreeState != trillian.TreeState_ACTIVE ||
			t.DisplayName != c.DisplayName || t.Description != c.Description || t.MaxRootDuration.AsDuration() != l.period || t.Deleted {
			w.fail("create/fields", "the log %s differs from the configuration %+v: %v", how, *c, t)
			return
		}
	}
	b, err := os.ReadFile(fmt.Sprintf("%s/trees_config/%d", out, l.id))
	var ft trillian.Tree
	if err == nil {
		err = json.Unmarshal(b, &ft)
	}
	if err != nil || ft.TreeId != l.id || ft.DisplayName != c.DisplayName || ft.Description != c.Description || ft.MaxRootDuration.AsDuration() != l.period {
		w.fail("create/file", "the file of the log created is wrong: %v, %q", err, b)
		return
	}
	w.lmu.Lock()
	w.logs = append(w.logs, l)
	w.lmu.Unlock()
	w.r.Count("logs created", 1)
}

func (w *world) live() *plog {
	var ls []*plog
	for _, l := range w.logs {
		if !l.deleted {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		w.opCreate()
		if w.bad.Load() {
			return nil
		}
		return w.logs[len(w.logs)-1]
	}
	return ls[w.rng.IntN(len(ls))]
}

func (w *world) newClient(l *plog) *client.LogClient {
	w.seq++
	x := fmt.Sprintf("%s/x%d", w.dir, w.seq)
	must(os.MkdirAll(x+"/rpc", 0o755))
	f := x + "/client.json"
	must(client.SaveLogClientConfigToFile(&client.LogClientConfig{
		RPCAddress: fmt.Sprintf("127.0.0.1:%d", w.port), NumOfWorker: 1 + w.rng.IntN(6),
		MaxReceiveMessageSize: 1 << 24, PolicyLogExchangePath: x}, f))
	c, err := client.NewLogClient(f, l.id)
	if err != nil {
		panic("environment: " + err.Error())
	}
	return c
}

func (w *world) leaf() []byte {
	b := make([]byte, 1+w.rng.IntN([]int{20, 100, 5000}[w.rng.IntN(3)]))
	for i := range b {
		b[i] = byte(w.rng.IntN(256))
	}
	return append([]byte(fmt.Sprintf("%d-", w.rng.IntN(1<<30))), b...)
}

func keys(m map[string]bool) (k []string) {
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return
}

// batches are the entries several clients submit to one log; some twice, some submitted before.
func (w *world) batches(l *plog) [][][]byte {
	var res [][][]byte
	var all [][]byte
	old := keys(l.accepted)
	for k := 1 + w.rng.IntN(3); k > 0; k-- {
		var b [][]byte
		in := map[string]bool{}
		for n := 1 + w.rng.IntN([]int{4, 30}[w.rng.IntN(2)]); n > 0; n-- {
			x := w.leaf()
			switch w.rng.IntN(10) {
			case 0:
				if len(all) > 0 {
					x = all[w.rng.IntN(len(all))]
				}
			case 1:
				if len(old) > 0 {
					x = []byte(old[w.rng.IntN(len(old))])
				}
			}
			if in[string(x)] {
				continue
			}
			in[string(x)] = true
			b = append(b, x)
			all = append(all, x)
		}
		res = append(res, b)
	}
	return res
}

// submit lets several clients submit at once; calm if nothing disturbs the programs.
func (w *world) submit(l *plog, calm bool, meanwhile func()) {
	bs := w.batches(l)
	var wg sync.WaitGroup
	var mu sync.Mutex
	total := 0
	times := map[string]int{} // the library may refuse an entry that others submit at the same time
	for _, b := range bs {
		for _, x := range b {
			times[string(x)]++
		}
	}
	for _, b := range bs {
		c := w.newClient(l)
		total += len(b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := tctx()
			defer cancel()
			res := c.AddLeaves(ctx, b)
			mu.Lock()
			defer mu.Unlock()
			failed := map[string]bool{}
			for _, x := range res.FailedLeaves {
				failed[string(x)] = true
			}
			for i, x := range res.FailedLeaves {
				if calm && times[string(x)] == 1 {
					w.fail("submit/refused", "an entry is refused by an undisturbed log: %v", res.Errs[i])
					return
				}
			}
			for _, x := range b {
				if failed[string(x)] {
					l.maybe[string(x)] = true
					w.r.Count("entries with an unknown outcome", 1)
				} else {
					l.accepted[string(x)] = true
					w.r.Count("entries accepted", 1)
				}
			}
		}()
	}
	if meanwhile != nil {
		meanwhile()
	}
	wg.Wait()
	w.note("submitted %d entries to log %d from %d clients, disturbed %v", total, l.id, len(bs), !calm)
}

// opDisturbed: a program ends, orderly or not, while clients submit.
func (w *world) opDisturbed() {
	l := w.live()
	if l == nil {
		return
	}
	delay := time.Duration(w.rng.IntN(40)) * time.Millisecond
	sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[w.rng.IntN(4)]
	which := w.rng.IntN(3)
	w.note("signal %v to program %d after %v, meanwhile:", sig, which, delay)
	w.submit(l, false, func() {
		time.Sleep(delay)
		var wg sync.WaitGroup
		for i, p := range []*proc{w.server, w.signer} {
			if (which == i || which == 2) && p != nil && p.running() {
				wg.Add(1)
				go func() { defer wg.Done(); w.endWith(p, sig) }()
			}
		}
		wg.Wait()
	})
	if w.bad.Load() {
		return
	}
	w.up()
}

// up starts what does not run.
func (w *world) up() bool {
	if !w.server.running() && !w.startServer() {
		return false
	}
	if (w.signer == nil || !w.signer.running()) && !w.startSigner() {
		return false
	}
	return true
}

// integrated waits until everything accepted is part of the log.
func (w *world) integrated(l *plog) bool {
	ctx := context.Background()
	for x := range l.accepted {
		h := hasher.HashLeaf([]byte(x))
		ok := false
		for i := 0; i < 3000; i++ {
			root, err := w.root(l)
			if err == nil && root.TreeSize > 0 {
				_, err = w.raw().GetInclusionProofByHash(ctx, &trillian.GetInclusionProofByHashRequest{LogId: l.id, LeafHash: h, TreeSize: int64(root.TreeSize)})
				if err == nil {
					ok = true
					break
				}
			}
			time.Sleep(20 * time.Millisecond)
		}
		if !ok {
			w.fail("integrate", "log %d: an accepted entry is not part of the log after a minute", l.id)
			return false
		}
	}
	return true
}

func (w *world) root(l *plog) (*types.LogRootV1, error) {
	ctx, cancel := tctx()
	defer cancel()
	resp, err := w.raw().GetLatestSignedLogRoot(ctx, &trillian.GetLatestSignedLogRootRequest{LogId: l.id})
	if err != nil {
		return nil, err
	}
	var root types.LogRootV1
	err = root.UnmarshalBinary(resp.GetSignedLogRoot().GetLogRoot())
	return &root, err
}

// opProve: a client proves what was accepted, possibly while the log grows.
func (w *world) opProve() {
	l := w.live()
	if l == nil || !w.up() || !w.integrated(l) || len(l.accepted) == 0 {
		return
	}
	c := w.newClient(l)
	l.mu.Lock()
	old := l.last
	l.mu.Unlock()
	growing := w.rng.IntN(2) == 0
	var leaves [][]byte
	for _, x := range keys(l.accepted) {
		leaves = append(leaves, []byte(x))
	}
	w.rng.Shuffle(len(leaves), func(i, j int) { leaves[i], leaves[j] = leaves[j], leaves[i] })
	if n := 1 + w.rng.IntN(40); len(leaves) > n {
		leaves = leaves[:n]
	}
	strange := w.leaf()
	ctx, cancel := tctx()
	defer cancel()
	prove := func() {
		if err := c.UpdateTreeSize(ctx); err != nil {
			w.fail("prove/size", "log %d: UpdateTreeSize: %v", l.id, err)
			return
		}
		if growing {
			time.Sleep(time.Duration(w.rng.IntN(150)) * time.Millisecond)
		}
		res := c.FetchInclusions(ctx, append(append([][]byte{}, leaves...), strange))
		if len(res.Errs) != 1 || len(res.FailedLeaves) != 1 || !bytes.Equal(res.FailedLeaves[0], strange) {
			w.fail("prove/report", "log %d: %d entries are reported as not proven, one is unknown: %v", l.id, len(res.FailedLeaves), res.Errs)
			return
		}
		if status.Code(res.Errs[0]) != codes.NotFound {
			w.fail("prove/report", "log %d: the proof of an unknown entry fails with %v", l.id, res.Errs[0])
			return
		}
		now, err := c.GetCurrentLogRoot(ctx)
		if err != nil {
			w.fail("prove/root", "log %d: GetCurrentLogRoot: %v", l.id, err)
			return
		}
		w.head(l, now, "GetCurrentLogRoot")
		v := logverifier.NewLogVerifier(nil)
		for _, x := range leaves {
			h := hasher.HashLeaf(x)
			p := res.PoIs[base64.URLEncoding.EncodeToString(h)]
			if p == nil {
				w.fail("prove/missing", "log %d: no proof for an accepted entry, and no failure", l.id)
				return
			}
			w.head(l, &p.STH, "FetchInclusions")
			if len(p.PoIs) != 1 {
				w.fail("prove/twice", "log %d: an entry is %d times in the log", l.id, len(p.PoIs))
				return
			}
			if err := proof.VerifyInclusion(hasher, uint64(p.PoIs[0].LeafIndex), p.STH.TreeSize, h, p.PoIs[0].Hashes, p.STH.RootHash); err != nil {
				w.fail("prove/invalid", "log %d (growing %v): the proof of an entry does not hold for the tree head returned with it (size %d, now %d): %v", l.id, growing, p.STH.TreeSize, now.TreeSize, err)
				return
			}
			cons, err := c.GetConsistencyProof(ctx, &p.STH, now)
			if err != nil {
				w.fail("prove/consistency", "log %d: no consistency proof from %d to %d: %v", l.id, p.STH.TreeSize, now.TreeSize, err)
				return
			}
			if err := v.VerifyInclusionWithPrevLogRoot(&p.STH, now, cons, h, p.PoIs); err != nil {
				w.fail("prove/verifier", "log %d (growing %v): the verifier refuses the entry: %v", l.id, growing, err)
				return
			}
			w.r.Count("inclusion proofs verified", 1)
		}
		if old != nil && old.TreeSize > 0 {
			cons, err := c.GetConsistencyProof(ctx, old, now)
			if err != nil {
				w.fail("prove/consistency", "log %d: no consistency proof from %d to %d: %v", l.id, old.TreeSize, now.TreeSize, err)
			} else if err := proof.VerifyConsistency(hasher, old.TreeSize, now.TreeSize, cons, old.RootHash, now.RootHash); err != nil {
				w.fail("prove/append", "log %d: the tree head of size %d does not extend the one of size %d: %v", l.id, now.TreeSize, old.TreeSize, err)
			}
			w.r.Count("consistency proofs verified", 1)
		}
	}
	w.note("prove %d entries of log %d, growing %v", len(leaves), l.id, growing)
	if !growing {
		prove()
		return
	}
	// (the entries of submit are drawn before it starts to prove)
	w.submit(l, true, prove)
}

// opQueue: documents in the exchange folder are submitted and proven.
func (w *world) opQueue() {
	l := w.live()
	if l == nil || !w.up() {
		return
	}
	c := w.newClient(l)
	dir := fmt.Sprintf("%s/x%d/rpc", w.dir, w.seq)
	num := 1 + w.rng.IntN(8)
	var docs [][]byte
	put := func(k int, p *common.PolicyCertificate) {
		b, err := common.ToJSON(p)
		must(err)
		must(common.ToJSONFile(p, fmt.Sprintf("%s/doc%d", dir, k)))
		docs = append(docs, b)
	}
	var ps []*common.PolicyCertificate
	for k := 0; k < num; k++ {
		p := common.NewPolicyCertificate(1, w.rng.IntN(1<<30), fmt.Sprintf("d%d.example", w.rng.IntN(1<<30)),
			time.Unix(1700000000, 0).UTC(), time.Unix(1900000000, 0).UTC(), false, false, w.leaf(), common.RSA, common.SHA256,
			time.Unix(1700000000, 0).UTC(), common.PolicyAttributes{}, nil, nil, nil, nil, nil)
		ps = append(ps, p)
		put(k, p)
	}
	foreign := w.rng.IntN(2) == 0
	w.note("queue %d documents to log %d, others submit too: %v", num, l.id, foreign)
	queue := func(num int, again bool) {
		ctx, cancel := tctx()
		defer cancel()
		res, err := c.QueueRPCs(ctx)
		key := "queue"
		if again {
			key = "requeue"
		}
		if err != nil {
			w.fail(key+"/error", "log %d: queueing %d documents (again: %v): %v", l.id, num, again, err)
			return
		}
		if res.NumOfSucceedAddedLeaves != num || len(res.AddLeavesErrs) != 0 {
			w.fail(key+"/add", "log %d: %d documents (again: %v), %d added, %v", l.id, num, again, res.NumOfSucceedAddedLeaves, res.AddLeavesErrs)
			return
		}
		if res.NumOfRetrievedLeaves != num || len(res.RetrieveLeavesErrs) != 0 {
			w.fail(key+"/prove", "log %d: %d documents added (again: %v), %d proven, %v", l.id, num, again, res.NumOfRetrievedLeaves, res.RetrieveLeavesErrs)
			return
		}
		left, _ := filepath.Glob(dir + "/*")
		if len(left) != 0 {
			w.fail(key+"/left", "log %d: %d documents remain", l.id, len(left))
			return
		}
		w.r.Count("documents queued", num)
	}
	if foreign {
		w.submit(l, true, func() { queue(num, false) })
	} else {
		queue(num, false)
	}
	if w.bad.Load() {
		return
	}
	for _, b := range docs {
		l.accepted[string(b)] = true
	}
	if w.rng.IntN(3) == 0 {
		// The same documents once more, perhaps with others: they are in the log already.
		k := 1 + w.rng.IntN(num)
		for i := 0; i < k; i++ {
			put(i, ps[i])
		}
		w.note("queue %d of them again", k)
		queue(k, true)
	}
}

// opDelete: a deleted log is kept for the configured time, then removed; others are not affected.
func (w *world) opDelete() {
	l := w.live()
	if l == nil {
		return
	}
	ctx, cancel := tctx()
	defer cancel()
	if _, err := trillian.NewTrillianAdminClient(w.conn).DeleteTree(ctx, &trillian.DeleteTreeRequest{TreeId: l.id}); err != nil {
		w.fail("delete/refused", "a log cannot be deleted: %v", err)
		return
	}
	l.deleted = true
	w.scfg.TreeGCEnabled = w.rng.IntN(3) > 0
	w.scfg.TreeDeleteThresholdInHour = 1 + w.rng.IntN(200)
	w.scfg.TreeDeleteMinRunIntervalInHour = 1 + max(0, w.rng.IntN(12)-8)
	over := w.rng.IntN(2) == 0
	age := time.Duration(w.scfg.TreeDeleteThresholdInHour) * time.Hour
	if over {
		age += time.Duration(1+w.rng.IntN(50)) * time.Minute
	} else {
		age -= time.Duration(1+w.rng.IntN(50)) * time.Minute
	}
	_, err := w.d.Exec("UPDATE Trees SET DeleteTimeMillis = ? WHERE TreeId = ?", time.Now().Add(-age).UnixMilli(), l.id)
	must(err)
	w.note("log %d deleted %v ago, removal %v after %d h", l.id, age, w.scfg.TreeGCEnabled, w.scfg.TreeDeleteThresholdInHour)
	if !w.end(w.server) || !w.startServer() {
		return
	}
	exists := func() bool {
		var n int
		must(w.d.QueryRow("SELECT COUNT(*) FROM Trees WHERE TreeId = ?", l.id).Scan(&n))
		return n == 1
	}
	if w.scfg.TreeGCEnabled && over {
		for i := 0; exists(); i++ {
			if i > 3000 {
				w.fail("delete/kept", "a log deleted %v ago is not removed after %d h", age, w.scfg.TreeDeleteThresholdInHour)
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		l.gone = true
		w.r.Count("deleted logs removed", 1)
		if w.scfg.TreeDeleteMinRunIntervalInHour == 1 {
			w.gcInterval()
		}
		return
	}
	time.Sleep(300 * time.Millisecond)
	if !exists() {
		w.fail("delete/early", "a log deleted %v ago is removed (removal %v after %d h)", age, w.scfg.TreeGCEnabled, w.scfg.TreeDeleteThresholdInHour)
		return
	}
	ctx2, cancel2 := tctx()
	defer cancel2()
	if _, err := trillian.NewTrillianAdminClient(w.conn).UndeleteTree(ctx2, &trillian.UndeleteTreeRequest{TreeId: l.id}); err != nil {
		w.fail("delete/undelete", "a deleted log cannot be restored: %v", err)
		return
	}
	l.deleted = false
	w.r.Count("deleted logs restored", 1)
}

// gcInterval: after a removal the next one is not before the configured interval of one hour.
func (w *world) gcInterval() {
	n := len(w.logs)
	w.opCreate()
	if len(w.logs) != n+1 || w.bad.Load() {
		return
	}
	l := w.logs[n]
	ctx, cancel := tctx()
	defer cancel()
	adm := trillian.NewTrillianAdminClient(w.conn)
	if _, err := adm.DeleteTree(ctx, &trillian.DeleteTreeRequest{TreeId: l.id}); err != nil {
		w.fail("delete/refused", "a log cannot be deleted: %v", err)
		return
	}
	_, err := w.d.Exec("UPDATE Trees SET DeleteTimeMillis = ? WHERE TreeId = ?", time.Now().Add(-999*time.Hour).UnixMilli(), l.id)
	must(err)
	time.Sleep(2500 * time.Millisecond)
	if _, err := adm.UndeleteTree(ctx, &trillian.UndeleteTreeRequest{TreeId: l.id}); err != nil {
		w.fail("delete/interval", "a log is removed seconds after the last removal, the interval is one hour: %v", err)
		return
	}
	w.r.Count("second removals within the interval awaited", 1)
}

// opGraceful: a request the server works on when it is asked to end is answered.
func (w *world) opGraceful() {
	l := w.live()
	if l == nil || !w.up() {
		return
	}
	ctx, cancel := tctx()
	defer cancel()
	lock, err := w.d.Conn(ctx)
	must(err)
	defer lock.Close()
	_, err = lock.ExecContext(ctx, "LOCK TABLES LeafData WRITE")
	must(err)
	unlock := sync.OnceFunc(func() {
		_, err := lock.ExecContext(context.Background(), "UNLOCK TABLES")
		must(err)
	})
	defer unlock()
	x := w.leaf()
	var aerr error
	done := lib.Go(func() {
		_, aerr = w.raw().QueueLeaf(ctx, &trillian.QueueLeafRequest{LogId: l.id, Leaf: &trillian.LogLeaf{LeafValue: x}})
	})
	waits := func() bool {
		var n int
		must(w.d.QueryRow("SELECT COUNT(*) FROM information_schema.processlist WHERE DB = ? AND STATE LIKE 'Waiting for%' AND INFO LIKE 'INSERT INTO LeafData%'", w.name).Scan(&n))
		return n > 0
	}
	for i := 0; !waits(); i++ {
		if i > 2000 {
			w.note("the request does not reach the database")
			w.r.Count("requests that did not wait for the lock", 1)
			unlock()
			<-done
			l.maybe[string(x)] = true
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[w.rng.IntN(2)]
	w.note("signal %v to the server, which works on a request", sig)
	w.server.cmd.Process.Signal(sig)
	for i := 0; i < 2000 && w.server.running() && listening(w.port); i++ {
		time.Sleep(5 * time.Millisecond)
	}
	unlock()
	<-done
	l.maybe[string(x)] = true
	if aerr != nil {
		w.fail("end/request", "log %d: the request the server worked on when it was asked to end is not answered: %v", l.id, aerr)
		return
	}
	l.accepted[string(x)] = true
	w.r.Count("requests answered by an ending server", 1)
	if w.ended(w.server, sig) {
		w.up()
	}
}

// misuses: program and what is wrong.
var misuses = func() (all [][2]string) {
	for _, prog := range []string{"logserver", "logsigner"} {
		for _, what := range []string{"missing file", "malformed file", "wrong type", "storage", "quota", "endpoint", "port"} {
			all = append(all, [2]string{prog, what})
		}
	}
	return append(all, [2]string{"logserver", "database"}, [2]string{"logsigner", "master"})
}()

// opMisuse: a program that cannot work ends with an error.
func (w *world) opMisuse(n int) {
	prog, what := misuses[n][0], misuses[n][1]
	dir := w.dir + "/misuse"
	must(os.MkdirAll(dir+"/config", 0o755))
	defer os.RemoveAll(dir)
	s, g := *w.scfg, *w.gcfg
	port := ownPort()
	s.RpcEndpoint, g.RpcEndpoint = fmt.Sprintf("127.0.0.1:%d", port), fmt.Sprintf("127.0.0.1:%d", port)
	args := w.args()
	switch what {
	case "storage":
		s.StorageSystem, g.StorageSystem = "none", "none"
	case "quota":
		s.QuotaSystem, g.QuotaSystem = "none", "none"
	case "endpoint":
		s.RpcEndpoint, g.RpcEndpoint = "127.0.0.1:nonsense", "127.0.0.1:nonsense"
	case "port":
		s.RpcEndpoint, g.RpcEndpoint = w.scfg.RpcEndpoint, w.scfg.RpcEndpoint
	case "database":
		args[1] = "root@unix(" + os.Getenv("VERIF_MYSQL_SOCK") + ")/nosuchdatabase"
	case "master":
		g.ForceMaster = false
	}
	must(logserver.SaveLogConfigToFile(&s, dir+"/config/logserver_config.json"))
	must(logsigner.SaveLogSignerConfigToFile(&g, dir+"/config/logsigner_config.json"))
	f := dir + "/config/" + prog + "_config.json"
	switch what {
	case "missing file":
		must(os.Remove(f))
	case "malformed file":
		must(os.WriteFile(f, []byte("{"), 0o644))
	case "wrong type":
		must(os.WriteFile(f, []byte(`{"RpcEndpoint": 7}`), 0o644))
	}
	w.note("%s with %s", prog, what)
	p := launch(prog, dir, args...)
	for i := 0; p.running() && i < 6000; i++ {
		if what != "port" && listening(port) {
			w.failp(p, "misuse/accepted", "the %s serves with: %s", prog, what)
			p.kill()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	p.wait()
	if p.hung {
		w.failp(p, "misuse/hang", "the %s does not end with: %s", prog, what)
	} else if p.crash() || p.signaled {
		w.failp(p, "misuse/crash", "the %s crashes with: %s", prog, what)
	} else if p.code == 0 {
		w.failp(p, "misuse/success", "the %s reports success with: %s", prog, what)
	}
	w.r.Count("broken configurations", 1)
}

// final compares every log with what was submitted, and every tree head with the entries.
func (w *world) final() {
	if !w.up() {
		return
	}
	for _, l := range w.logs {
		if l.gone {
			continue
		}
		if l.deleted || !w.integrated(l) {
			continue
		}
		root, err := w.root(l)
		if err != nil {
			w.fail("final/root", "log %d: %v", l.id, err)
			return
		}
		w.head(l, root, "at the end")
		var hashes [][]byte
		count := map[string]int{}
		ctx, cancel := tctx()
		for int64(len(hashes)) < int64(root.TreeSize) {
			resp, err := w.raw().GetLeavesByRange(ctx, &trillian.GetLeavesByRangeRequest{LogId: l.id, StartIndex: int64(len(hashes)), Count: int64(root.TreeSize) - int64(len(hashes))})
			if err != nil || len(resp.GetLeaves()) == 0 {
				w.fail("final/entries", "log %d: the entries cannot be read: %v", l.id, err)
				break
			}
			for _, x := range resp.GetLeaves() {
				if x.LeafIndex != int64(len(hashes)) {
					w.fail("final/order", "log %d: entry %d comes at %d", l.id, x.LeafIndex, len(hashes))
				}
				hashes = append(hashes, hasher.HashLeaf(x.LeafValue))
				count[string(x.LeafValue)]++
				guard := time.Duration(w.gcfg.SequencerGuardWindowFlagInSec) * time.Second
				if age := x.IntegrateTimestamp.AsTime().Sub(x.QueueTimestamp.AsTime()); guard > 0 {
					if age < guard {
						w.fail("final/guard", "log %d: entry %d was taken into the log %v after it was queued, the guard window is %v", l.id, x.LeafIndex, age, guard)
					}
					w.r.Count("entries integrated after a guard window", 1)
				}
			}
		}
		cancel()
		if w.bad.Load() {
			return
		}
		for x, n := range count {
			if n != 1 {
				w.fail("final/twice", "log %d: an entry is %d times in the log", l.id, n)
				return
			}
			if !l.accepted[x] && !l.maybe[x] {
				w.fail("final/invented", "log %d: an entry that was never submitted to it", l.id)
				return
			}
		}
		for x := range l.accepted {
			if count[x] == 0 {
				w.fail("final/lost", "log %d: an accepted entry is not in the log", l.id)
				return
			}
		}
		l.mu.Lock()
		roots := prefixRoots(hashes)
		for n, h := range l.heads {
			if n >= uint64(len(roots)) || !bytes.Equal(h, roots[n]) {
				w.fail("final/head", "log %d: the tree head of size %d does not commit to the first %d of the %d entries", l.id, n, n, len(hashes))
				break
			}
			w.r.Count("tree heads recomputed", 1)
		}
		w.r.Max("entries in a log", len(hashes))
		l.mu.Unlock()
	}
}

// prefixRoots are the roots of RFC 6962 of all prefixes.
func prefixRoots(h [][]byte) [][]byte {
	res := [][]byte{hasher.EmptyRoot()}
	var stack [][]byte // full subtrees, with their sizes
	var sizes []int
	for _, x := range h {
		stack, sizes = append(stack, x), append(sizes, 1)
		for n := len(stack); n > 1 && sizes[n-1] == sizes[n-2]; n = len(stack) {
			stack[n-2] = hasher.HashChildren(stack[n-2], stack[n-1])
			sizes[n-2] *= 2
			stack, sizes = stack[:n-1], sizes[:n-1]
		}
		root := stack[len(stack)-1]
		for i := len(stack) - 2; i >= 0; i-- {
			root = hasher.HashChildren(stack[i], root)
		}
		res = append(res, root)
	}
	return res
}

func g03case(r *lib.R, num int, name string, d *sql.DB, dir string) {
	rng := r.Rand("case", num)
	w := &world{r: r, num: num, rng: rng, dir: dir, name: name, d: d, port: ownPort()}
	w.scfg = &logserver.LogServerConfig{
		RpcEndpoint: fmt.Sprintf("127.0.0.1:%d", w.port), HealthzTimeout: 5, QuotaSystem: "mysql", StorageSystem: "mysql",
		TreeGCEnabled: rng.IntN(2) == 0, TreeDeleteThresholdInHour: 168, TreeDeleteMinRunIntervalInHour: 4}
	w.gcfg = &logsigner.LogSignerConfig{
		HealthzTimeoutInSec: 5, QuotaSystem: "mysql", StorageSystem: "mysql",
		SequencerIntervalFlagInMillSec: []int{10, 50, 100, 200}[rng.IntN(4)],
		BatchSizeFlag:                  []int{1, 3, 10, 1000}[rng.IntN(4)],
		NumSeqFlag:                     []int{1, 2, 10}[rng.IntN(3)],
		SequencerGuardWindowFlagInSec:  []int{0, 0, 0, 1}[rng.IntN(4)],
		ForceMaster:                    true,
		PreElectionPauseInSec:          1, MasterHoldIntervalInSec: 60, MasterHoldJitterInSec: 120,
	}
	if w.gcfg.BatchSizeFlag < 10 {
		w.gcfg.SequencerIntervalFlagInMillSec = 10
	}
	var err error
	w.conn, err = grpc.NewClient(fmt.Sprintf("127.0.0.1:%d", w.port), grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithDefaultCallOptions(grpc.WaitForReady(true), grpc.MaxCallRecvMsgSize(1<<28)))
	must(err)
	defer w.conn.Close()
	defer func() {
		for _, p := range []*proc{w.server, w.signer} {
			if p != nil && p.running() {
				p.kill()
			}
		}
	}()
	if !w.startServer() {
		return
	}
	if rng.IntN(4) > 0 && !w.startSigner() {
		return
	}
	stop := make(chan struct{})
	watching := lib.Go(func() { w.watch(stop) })
	defer func() { <-watching }()
	defer close(stop)
	if w.signer == nil {
		// Creating a log waits for its first tree head.
		if !w.startSigner() {
			return
		}
	}
	w.opCreate()
	if w.num < len(misuses) && !w.bad.Load() {
		w.opMisuse(w.num)
	}
	sig := []any{}
	for k := 4 + rng.IntN(5); k > 0 && !w.bad.Load(); k-- {
		op := rng.IntN(18)
		sig = append(sig, op)
		w.note("== op %d", op)
		switch op {
		case 0:
			w.opCreate()
		case 1, 2, 3:
			if l := w.live(); l != nil {
				w.submit(l, true, nil)
			}
		case 4, 5, 6:
			w.opDisturbed()
		case 7, 8, 9:
			w.opProve()
		case 10, 11, 12:
			w.opQueue()
		case 13:
			w.opDelete()
		case 14:
			w.opMisuse(rng.IntN(len(misuses)))
		case 16, 17:
			w.opGraceful()
		case 15:
			// Without a signer entries are accepted, and integrated later.
			if w.end(w.signer) {
				if l := w.live(); l != nil {
					w.submit(l, true, nil)
				}
				w.up()
			}
		}
	}
	if !w.bad.Load() {
		w.final()
	}
	if !w.bad.Load() {
		var wg sync.WaitGroup
		for _, p := range []*proc{w.server, w.signer} {
			wg.Add(1)
			go func() { defer wg.Done(); w.endWith(p, syscall.SIGTERM) }()
		}
		wg.Wait()
	}
	r.Case(true, append(sig, num, fmt.Sprintf("%+v%+v", *w.scfg, *w.gcfg))...)
	if num < 4 {
		w.nmu.Lock()
		r.Sample("%s", strings.Join(w.hist[:min(len(w.hist), 30)], "; "))
		w.nmu.Unlock()
	}
}
