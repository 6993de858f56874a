package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/netsec-ethz/fpki/pkg/grpc/grpcclient"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcserver"
	"github.com/netsec-ethz/fpki/pkg/grpc/query"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

// world is one map server with its history.
type world struct {
	r    *lib.R
	rng  *mrand.Rand
	num  int
	id   *identity
	db   string
	mat  *material
	m    *model // what the map should publish now
	next *model // what it should publish after the next update
	logs []*logState
	s    *mapserver.MapServer
	stop context.CancelFunc
	url  string
	tls  bool
	cl   *http.Client
	end  <-chan struct{} // Listen returned
	lerr error
	bad  atomic.Bool

	proxy *proxy // between the server and its database

	patient bool // with the time limits of the real program: a busy machine may exceed them

	lmu sync.Mutex
	log []string
}

func (w *world) note(f string, a ...any) {
	w.lmu.Lock()
	defer w.lmu.Unlock()
	w.log = append(w.log, fmt.Sprintf(f, a...))
}

func (w *world) notes() []string {
	w.lmu.Lock()
	defer w.lmu.Unlock()
	return append([]string{}, w.log...)
}

func (w *world) fail(key, f string, a ...any) {
	w.bad.Store(true)
	w.r.Violation(key, fmt.Sprintf("world %d: ", w.num)+fmt.Sprintf(f, a...), w.notes())
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func (w *world) start() bool {
	ctx, cancel := context.WithCancel(bg)
	port := freePort()
	conf := dbx.Config(w.db)
	if w.proxy != nil {
		conf = viaProxy(w.db, w.proxy)
	}
	s, err := newServer(ctx, w.id, conf, port, w.logs...)
	if err != nil {
		cancel()
		w.fail("start", "the server does not start: %v", err)
		return false
	}
	w.s, w.stop = s, cancel
	w.tls = w.rng.IntN(2) == 0
	scheme := "http"
	if w.tls {
		scheme = "https"
	}
	w.note("server started, %s", scheme)
	w.url = fmt.Sprintf("%s://127.0.0.1:%d", scheme, port)
	w.cl = &http.Client{Timeout: 90 * time.Second, Transport: &http.Transport{
		TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, MaxIdleConnsPerHost: 16}}
	w.end = lib.Go(func() {
		if w.tls {
			w.lerr = s.Listen(ctx)
		} else {
			w.lerr = s.ListenWithoutTLS(ctx)
		}
	})
	for i := 0; ; i++ {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
		if err == nil {
			c.Close()
			return true
		}
		select {
		case <-w.end:
			w.fail("listen", "the server does not listen: %v", w.lerr)
			return false
		default:
		}
		if i > 3000 {
			w.fail("listen", "the server does not listen")
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (w *world) shutdown() bool {
	w.note("shutdown")
	w.cl.CloseIdleConnections()
	if !w.r.WaitDone("shutdown", "Shutdown", lib.Go(func() { w.s.Shutdown(bg) })) {
		w.r.Stop()
	}
	if !w.r.WaitDone("shutdown", "serving does not end after Shutdown", w.end) {
		w.r.Stop()
	}
	if w.lerr != nil {
		w.fail("shutdown-error", "serving ended with the error: %v", w.lerr)
	}
	w.stop()
	// After the end of the server an update has to be refused, not to block.
	done := make(chan error, 1)
	ch := lib.Go(func() { done <- w.s.PruneAndUpdate(bg) })
	if !w.r.WaitDone("update-after-end", "requesting an update after the server ended", ch) {
		w.r.Stop()
	}
	if err := <-done; err == nil {
		// The cancellation and the request may race: an update that was really done is fine.
		w.r.Count("updates done while ending", 1)
	} else {
		w.r.Count("updates refused after the end", 1)
	}
	closeServer(w.s)
	return !w.bad.Load()
}

// get returns the status and the body. The handlers have limits on the time the database may take:
// a busy machine is not a wrong answer.
func (w *world) get(path string, q url.Values) (int, []byte, bool) {
	for i := 0; i < 30; i++ {
		resp, err := w.cl.Get(w.url + path + "?" + q.Encode())
		if err != nil && w.patient && i < 29 {
			w.r.Count("requests repeated", 1)
			time.Sleep(time.Duration(i*20) * time.Millisecond)
			continue
		}
		if err != nil {
			w.fail("http", "%s %v: %v", path, clip(q.Encode()), err)
			return 0, nil, false
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil && w.patient && i < 29 {
			w.r.Count("requests repeated", 1)
			continue
		}
		if err != nil {
			w.fail("http", "%s %v: reading the answer: %v", path, clip(q.Encode()), err)
			return 0, nil, false
		}
		if w.tls && (resp.TLS == nil || !bytes.Equal(resp.TLS.PeerCertificates[0].Raw, w.id.der)) {
			w.fail("tls", "the server shows another certificate")
			return 0, nil, false
		}
		if resp.StatusCode != 200 && (bytes.Contains(b, []byte("deadline exceeded")) || bytes.Contains(b, []byte("context canceled"))) {
			w.r.Count("answers repeated because of the database's time limit", 1)
			continue
		}
		return resp.StatusCode, b, true
	}
	w.r.Inconclusive("the database is too slow")
	return 0, nil, false
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func (w *world) ask(query, stripped string) []K {
	st, b, ok := w.get("/getproof", url.Values{"domain": {query}})
	if !ok {
		return nil
	}
	if st != 200 {
		w.fail("getproof/refused", "query for %q: %d %s", query, st, clip(string(b)))
		return nil
	}
	var rs []*mapCommon.MapServerResponse
	if err := json.Unmarshal(b, &rs); err != nil {
		w.fail("getproof/json", "query for %q: %v", query, err)
		return nil
	}
	if key, what := checkAnswer(w.id, w.m, w.m.root(), stripped, rs, lenient{}); key != "" {
		w.fail(key, "query for %q: %s", query, what)
		return nil
	}
	var ids []K
	for _, p := range rs {
		all := append(append([]byte{}, p.DomainEntry.CertIDs...), p.DomainEntry.PolicyIDs...)
		for i := 0; i+32 <= len(all); i += 32 {
			ids = append(ids, K(all[i:i+32]))
		}
		if p.PoI.ProofType == mapCommon.PoP {
			w.r.Count("proofs of presence verified", 1)
		} else {
			w.r.Count("proofs of absence verified", 1)
		}
		w.r.Max("proof length", len(p.PoI.Proof))
	}
	return ids
}

func hexIDs(ids []K, upper bool) string {
	var b strings.Builder
	for _, id := range ids {
		b.WriteString(hex.EncodeToString(id[:]))
	}
	if upper {
		return strings.ToUpper(b.String())
	}
	return b.String()
}

func (w *world) payloads(path string, ids []K, upper bool, want func(K) []byte) {
	st, b, ok := w.get(path, url.Values{"ids": {hexIDs(ids, upper)}})
	if !ok {
		return
	}
	if st != 200 {
		w.fail("payloads/refused", "%s with %d identifiers: %d %s", path, len(ids), st, clip(string(b)))
		return
	}
	var got [][]byte
	if err := json.Unmarshal(b, &got); err != nil {
		w.fail("payloads/json", "%s: %v", path, err)
		return
	}
	if len(got) != len(ids) {
		w.fail("payloads/count", "%s with %d identifiers: %d documents", path, len(ids), len(got))
		return
	}
	for i, id := range ids {
		if x := want(id); !bytes.Equal(got[i], x) {
			w.fail("payloads/content", "%s: document %d of %d has %d bytes instead of %d", path, i, len(ids), len(got[i]), len(x))
			return
		}
		if len(got[i]) > 0 && ref.Sha(got[i]) != id {
			w.fail("payloads/hash", "%s: document %d does not hash to its identifier", path, i)
		}
	}
	w.r.Count("documents compared", len(ids))
}

func (w *world) isPol(id K) bool {
	for _, s := range w.m.domPols {
		if s[id] {
			return true
		}
	}
	return false
}

// queries asks for everything, from several clients.
func (w *world) queries() {
	type q struct{ query, stripped string }
	var qs []q
	seen := map[string]bool{}
	for _, n := range w.mat.names {
		for _, c := range chainOf(n, registeredLabels(n)) {
			if !seen[c] {
				seen[c] = true
				qs = append(qs, q{c, c})
			}
		}
	}
	for _, n := range w.mat.names {
		switch w.rng.IntN(5) {
		case 0:
			qs = append(qs, q{"www." + n, n})
		case 1:
			qs = append(qs, q{"*." + n, n})
		case 2:
			x := fmt.Sprintf("q%d.%s", w.rng.IntN(1000), n)
			qs = append(qs, q{x, x})
		case 3:
			x := fmt.Sprintf("absent%d.%s", w.rng.IntN(1000), tlds[w.rng.IntN(len(tlds))])
			qs = append(qs, q{x, x})
		}
	}
	w.rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	var mu sync.Mutex
	known := map[K]bool{}
	var wg sync.WaitGroup
	var next atomic.Int64
	for c := 0; c < 6; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !w.bad.Load() {
				i := int(next.Add(1)) - 1
				if i >= len(qs) {
					return
				}
				ids := w.ask(qs[i].query, qs[i].stripped)
				mu.Lock()
				for _, id := range ids {
					known[id] = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if w.bad.Load() {
		return
	}
	w.r.Count("names queried", len(qs))
	// The documents of the identifiers returned, all of them and in random selections.
	all := ref.SortedKeys(known)
	cert := func(id K) []byte {
		if w.isPol(id) {
			return nil
		}
		return w.m.payload[id]
	}
	pl := func(id K) []byte {
		if w.isPol(id) {
			return w.m.payload[id]
		}
		return nil
	}
	both := func(id K) []byte { return w.m.payload[id] }
	sel := func(n int) (res []K) {
		for ; n > 0; n-- {
			if len(all) == 0 || w.rng.IntN(8) == 0 {
				res = append(res, K{byte(w.rng.IntN(256)), byte(w.rng.IntN(256)), 7})
			} else {
				res = append(res, all[w.rng.IntN(len(all))])
			}
		}
		return
	}
	w.payloads("/getpayloads", all, false, both)
	w.payloads("/getcertpayloads", sel(1+w.rng.IntN(50)), w.rng.IntN(2) == 0, cert)
	w.payloads("/getpolicypayloads", sel(1+w.rng.IntN(50)), w.rng.IntN(2) == 0, pl)
	w.payloads("/getpayloads", sel(1+w.rng.IntN(120)), false, both)
	for i := 0; i < 3; i++ {
		x := sel(1)
		w.payloads([]string{"/getcertpayloads", "/getpolicypayloads", "/getpayloads"}[i], x, false, []func(K) []byte{cert, pl, both}[i])
	}
}

var badNames = []string{"", " ", "com", "co.uk", "*.com", "*.co.uk", ".", "..", ".com", "a..com", "-a.com", "a-.com",
	"*.*.d1.com", "a.*.d1.com", "d1.com.", ".d1.com", "d1 .com", "d1.com\x00", "d1.com\n", "d\u00e9.com", "\xff\xfe.com",
	"a/b.com", "a'b.com", "a\"b.com", "%.com", "a_b.com", strings.Repeat("a", 64) + ".com", strings.Repeat("a.", 130) + "com",
	strings.Repeat("x", 20000), "<x>.com", "d1.com;drop", "d1.com,d2.com", "//d1.com", "127.0.0.1/x"}

// malformed sends requests that have to be refused.
func (w *world) malformed() {
	for _, n := range badNames {
		if w.bad.Load() {
			return
		}
		st, b, ok := w.get("/getproof", url.Values{"domain": {n}})
		if !ok {
			return
		}
		if st == 200 || st >= 600 || st < 400 {
			w.fail("malformed/name", "the malformed name %q is answered with %d %s", clip(n), st, clip(string(b)))
		}
		w.r.Count("malformed requests refused", 1)
	}
	id := hexIDs([]K{{1}}, false)
	for _, path := range []string{"/getpayloads", "/getcertpayloads", "/getpolicypayloads"} {
		for _, ids := range []string{"0", "00", id[:63], id + "0", id[:62] + "zz", id + id[:60], id[:32], id + id[:32], id + id + id[:16], " " + id[1:], id[:30] + "-" + id[31:],
			strings.Repeat("g", 64), id + id[:62] + "0x", "\x00" + id[1:], strings.Repeat("é", 32)} {
			st, b, ok := w.get(path, url.Values{"ids": {ids}})
			if !ok {
				return
			}
			if st == 200 || st >= 600 || st < 400 {
				w.fail("malformed/ids", "%s: malformed identifiers %q are answered with %d %s", path, clip(ids), st, clip(string(b)))
				return
			}
			w.r.Count("malformed requests refused", 1)
		}
		// no identifiers: nothing or an error
		st, b, ok := w.get(path, url.Values{})
		if ok && st == 200 {
			var got [][]byte
			if json.Unmarshal(b, &got) != nil || len(got) != 0 {
				w.fail("malformed/no-ids", "%s without identifiers is answered with %s", path, clip(string(b)))
			}
		}
	}
	// Other things a client may send: no crash, and the connection is served.
	n := w.mat.names[0]
	for _, raw := range []string{"POST /getproof?domain=" + n, "HEAD /getproof?domain=" + n, "PUT /getpayloads?ids=" + id,
		"GET /getproof?domain=%zz", "GET /getproof?domain=" + n + "&domain=com", "GET /getproof?DOMAIN=" + n, "GET /getpayloads?ids=%",
		"GET /getproof?domain=" + n + ";ids=1", "DELETE /getpayloads?ids=" + id + "&ids=0", "GET /nothing", "GET /"} {
		p := strings.SplitN(raw, " ", 2)
		req, err := http.NewRequest(p[0], w.url, strings.NewReader(""))
		must(err)
		req.URL.Opaque = p[1]
		resp, err := w.cl.Do(req)
		if err != nil {
			w.fail("malformed/request", "%s: %v", raw, err)
			return
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if resp.StatusCode == 200 && p[0] == "GET" && strings.Contains(raw, "%zz") && bytes.Contains(b, []byte("DomainEntry")) {
			w.fail("malformed/request", "%s is answered with content", raw)
		}
		w.r.Count("odd requests", 1)
	}
}

// grpcQueries asks the other public interface: a gRPC server over the same database, with its client.
func (w *world) grpcQueries() {
	srv, err := grpcserver.NewGRPCServer(bg, w.s.Conn, w.id.key)
	if err != nil {
		w.fail("grpc/start", "the gRPC server does not start: %v", err)
		return
	}
	l, err := net.Listen("tcp", "localhost:0")
	must(err)
	gs := grpc.NewServer()
	query.RegisterMapResponderServer(gs, srv)
	end := lib.Go(func() { gs.Serve(l) })
	defer func() {
		gs.Stop()
		<-end
	}()
	port := l.Addr().(*net.TCPAddr).Port
	var names [][2]string
	for i := 0; i < 8; i++ {
		n := w.mat.names[w.rng.IntN(len(w.mat.names))]
		switch w.rng.IntN(5) {
		case 0:
			names = append(names, [2]string{"www." + n, n})
		case 1:
			n = fmt.Sprintf("absent%d.%s", w.rng.IntN(1000), tlds[w.rng.IntN(len(tlds))])
			fallthrough
		default:
			names = append(names, [2]string{n, n})
		}
	}
	bad := badNames[w.rng.IntN(len(badNames))]
	if utf8.ValidString(bad) { // others cannot be sent
		names = append(names, [2]string{bad, ""})
	}
	ch := lib.Go(func() {
		for _, n := range names {
			n := n
			w.r.NoPanic("grpc/crash", "querying over gRPC", func() {
				var rs []*mapCommon.MapServerResponse
				var err error
				for i := 0; i < 10; i++ { // the client has a time limit
					rs, err = grpcclient.GetProofs(n[0], port)
					if c := status.Code(err); c != codes.DeadlineExceeded && c != codes.Unavailable {
						break
					}
					w.r.Count("gRPC requests repeated", 1)
				}
				switch {
				case n[1] == "":
					if err == nil {
						w.fail("grpc/malformed", "the malformed name %q is answered", clip(n[0]))
					}
					w.r.Count("gRPC malformed requests refused", 1)
				case err != nil:
					w.fail("grpc/refused", "query for %q: %v", n[0], err)
				default:
					if key, what := checkAnswer(w.id, w.m, w.m.root(), n[1], rs, lenient{}); key != "" {
						w.fail("grpc/"+key, "query for %q: %s", n[0], what)
					}
					w.r.Count("gRPC answers verified", 1)
				}
			})
		}
	})
	if !w.r.WaitDone("grpc/hang", "querying over gRPC", ch) {
		w.r.Stop()
	}
}

// deliver adds new material for the next update.
func (w *world) deliver(withDead bool) bool {
	nl, np, nd, loc := 0, 0, 0, 0
	for _, l := range w.logs {
		var ls []*certs.Leaf
		for n := w.rng.IntN(10); n > 0; n-- {
			x := w.mat.leaves[w.rng.IntN(len(w.mat.leaves))]
			ls = append(ls, x)
			w.next.addLeaf(x)
		}
		nl += len(ls)
		l.add(ls...)
	}
	if w.rng.IntN(2) == 0 {
		var ps []*pol
		for n := 1 + w.rng.IntN(6); n > 0; n-- {
			p := w.mat.pols[w.rng.IntN(len(w.mat.pols))]
			ps = append(ps, p)
			w.next.addPol(p)
		}
		np = len(ps)
		if err := deliverPolicies(w.s.Updater.Conn, ps); err != nil {
			w.fail("deliver", "inserting policies: %v", err)
			return false
		}
	}
	var ls []*certs.Leaf
	if w.rng.IntN(3) == 0 {
		for n := 1 + w.rng.IntN(5); n > 0; n-- {
			x := w.mat.leaves[w.rng.IntN(len(w.mat.leaves))]
			ls = append(ls, x)
			w.next.addLeaf(x)
			loc++
		}
	}
	if withDead {
		for n := 1 + w.rng.IntN(5); n > 0; n-- {
			ls = append(ls, w.mat.dead[w.rng.IntN(len(w.mat.dead))])
			nd++
		}
	}
	w.rng.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	if w.rng.IntN(4) == 0 && !w.damaged() {
		return false
	}
	if len(ls) > 0 {
		if err := deliverLocal(w.s.Updater, ls); err != nil {
			w.fail("deliver", "inserting certificates locally: %v", err)
			return false
		}
	}
	w.note("delivered: %d in the logs, %d policies, %d directly, of these %d expired", nl, np, len(ls), nd)
	return true
}

// damaged delivers certificates with one among them that cannot be read. All of that has to be
// refused: the material compared later must not have any of it.
func (w *world) damaged() bool {
	var ders [][]byte
	var chains [][][]byte
	for n := 1 + w.rng.IntN(5); n > 0; n-- {
		x := w.mat.leaves[w.rng.IntN(len(w.mat.leaves))]
		ders = append(ders, x.DER)
		chains = append(chains, append([][]byte(nil), x.Chain()...))
	}
	cut := func(b []byte) []byte { return append([]byte(nil), b[:1+w.rng.IntN(len(b)-1)]...) }
	i, where := w.rng.IntN(len(ders)), "leaf"
	if n := len(chains[i]); n > 0 && w.rng.IntN(3) > 0 {
		where = "parent"
		j := w.rng.IntN(n)
		chains[i][j] = cut(chains[i][j])
	} else {
		ders[i] = cut(ders[i])
	}
	w.note("%d delivered directly with a damaged %s", len(ders), where)
	w.r.Count("damaged deliveries refused", 1)
	if w.s.Updater.UpdateCertsLocally(bg, ders, chains) == nil {
		w.fail("deliver-damaged", "a delivery with a damaged %s certificate is reported as stored", where)
		return false
	}
	return true
}

// update requests it in one of several ways; each request has to be answered.
func (w *world) update() (err error) {
	how := w.rng.IntN(3)
	w.note("update requested in way %d", how)
	var answers, trues atomic.Int64
	ch := lib.Go(func() {
		switch how {
		case 0:
			err = w.s.PruneAndUpdate(bg)
		case 1:
			for {
				var done bool
				done, err = w.s.PruneAndUpdateIfPossible(bg)
				if done {
					return
				}
				if err != nil {
					return
				}
				time.Sleep(time.Millisecond)
			}
		default: // several at once
			var wg sync.WaitGroup
			errs := make([]error, 4)
			for i := range errs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if i < 2 {
						errs[i] = w.s.PruneAndUpdate(bg)
					} else {
						var done bool
						done, errs[i] = w.s.PruneAndUpdateIfPossible(bg)
						if done {
							trues.Add(1)
						}
					}
					answers.Add(1)
				}()
			}
			wg.Wait()
			for _, e := range errs[:2] {
				if e != nil {
					err = e
				}
			}
			w.r.Count("concurrent update requests answered", int(answers.Load()))
		}
	})
	if !w.r.WaitDone("update-hangs", "an update request is not answered", ch) {
		w.r.Stop()
	}
	return err
}

func runM05(r *lib.R) {
	r.Rule("one case: one verified round of queries against one map server (history of deliveries, prunings, updates, failures, restarts); distinct by published root")
	r.Assume("names in the certificates are the registered domain or below it, without www. and wildcards (the responder removes these from queries)")
	tmp, err := os.MkdirTemp("", "m05")
	must(err)
	defer os.RemoveAll(tmp)
	id := newIdentity(tmp, "a")
	other := newIdentity(tmp, "b")
	dbx.Create("verifm05")
	identities(r, id, other, tmp)
	for i := 0; i < r.N(7, 120) && r.NViol() == 0; i++ {
		c := dbx.Connect("verifm05")
		dbx.Reset(c.DB())
		c.Close()
		w := &world{r: r, rng: r.Rand("world", i), num: i, id: id, db: "verifm05", m: newModel(), next: newModel()}
		w.run()
	}
}

// identities: a server whose certificate and key do not belong together must not start.
func identities(r *lib.R, a, b *identity, tmp string) {
	l := newLog()
	defer l.log.Close()
	junk := filepath.Join(tmp, "junk.pem")
	must(os.WriteFile(junk, []byte("junk"), 0o600))
	none := filepath.Join(tmp, "none.pem")
	for _, x := range []identity{{certPem: a.certPem, keyPem: b.keyPem}, {certPem: b.certPem, keyPem: a.keyPem}, {certPem: junk, keyPem: a.keyPem},
		{certPem: a.certPem, keyPem: junk}, {certPem: none, keyPem: a.keyPem}, {certPem: a.certPem, keyPem: none}, {certPem: a.keyPem, keyPem: a.certPem}} {
		x := x
		r.NoPanic("identity-crash", "starting with a bad identity", func() {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			s, err := newServer(ctx, &x, dbx.Config("verifm05"), freePort(), l)
			if err == nil {
				closeServer(s)
				r.Violatedf("identity", "a server starts with certificate %s and key %s", filepath.Base(x.certPem), filepath.Base(x.keyPem))
			}
			r.Count("bad identities refused", 1)
		})
	}
}

func (w *world) run() {
	rng := w.rng
	w.mat = newMaterial(rng, 25, 6, 10, 6+rng.IntN(20))
	w.logs = []*logState{newLog(), newLog()}
	defer func() {
		for _, l := range w.logs {
			l.log.Close()
		}
	}()
	if !w.start() {
		return
	}
	defer func() { w.stop() }()
	check := func(when string) bool {
		w.note("queries %s", when)
		w.queries()
		if !w.bad.Load() {
			w.grpcQueries()
		}
		w.r.Case(true, w.m.root(), when, w.tls)
		return !w.bad.Load()
	}
	if !check("before any update") {
		return
	}
	w.malformed()
	for round := 0; round < 4 && !w.bad.Load(); round++ {
		failing := rng.IntN(3) == 0
		if !w.deliver(!failing && rng.IntN(2) == 0) {
			return
		}
		// Delivered, but not published.
		if rng.IntN(3) == 0 && round > 0 && !check("with material pending") {
			return
		}
		if failing {
			l := w.logs[rng.IntN(2)]
			l.add(w.mat.leaves[0])
			w.next.addLeaf(w.mat.leaves[0])
			l.mu.Lock()
			l.broken = true
			l.mu.Unlock()
			if err := w.update(); err == nil {
				w.fail("update-error-lost", "a log refuses its entries, the update is reported as done")
				return
			}
			w.r.Count("failing updates reported", 1)
			if !check("after a failed update") {
				return
			}
			l.mu.Lock()
			l.broken = false
			l.mu.Unlock()
		}
		if err := w.update(); err != nil {
			w.fail("update", "the update fails: %v", err)
			return
		}
		w.m = w.next.clone()
		if !check(fmt.Sprint("after update ", round)) {
			return
		}
		if rng.IntN(3) == 0 {
			if !w.shutdown() || !w.start() || !check("after a restart") {
				return
			}
			w.r.Count("restarts", 1)
		}
	}
	w.malformed()
	check("at the end")
	w.r.Sample("world %d: %s", w.num, strings.Join(w.log, "; "))
	if !w.shutdown() {
		return
	}
	w.proxy = newProxy()
	defer w.proxy.stop()
	if w.start() {
		w.failingQueries()
		if !w.bad.Load() {
			check("after failures of the database")
		}
		w.shutdown()
	}
}

// failingQueries: the database fails under a query. The answer is an error, or it is right.
func (w *world) failingQueries() {
	p := w.proxy
	w.note("queries with a failing database")
	try := func(what string, q func() (ok bool, what string, alive bool)) bool {
		p.arm(0, "", "", 0)
		if ok, why, alive := q(); !alive {
			return false
		} else if !ok || why != "" {
			w.fail("failing-database/before", "%s, without failure: %s", what, why)
			return false
		}
		prof, sizes := p.profile(), p.answerSizes()
		for _, class := range sortedNames(prof) {
			for _, kind := range []string{"error", "cut-before", "cut-after", "partial"} {
				k, cut := 1+w.rng.IntN(prof[class]), 0
				if z := sizes[class]; k <= len(z) {
					cut = tear(w.rng, z[k-1])
				}
				p.arm(k, class, kind, cut)
				ok, why, alive := q()
				p.disarm()
				if !alive {
					return false
				}
				fired := p.what()
				if ok && why != "" {
					w.fail("failing-database/"+strings.SplitN(why, ":", 2)[0], "%s, %s (partial: at most %d bytes): %s", what, fired, cut, why)
					return false
				}
				switch {
				case fired == "":
					w.r.Count("failures that the query did not meet", 1)
				case ok:
					w.r.Count("right answers in spite of a failing database", 1)
				default:
					w.r.Count("error answers with a failing database", 1)
				}
				w.r.Seen("commands failed under a query", class+" "+kind)
			}
		}
		return true
	}
	for j := 0; j < 5; j++ {
		n := w.mat.names[w.rng.IntN(len(w.mat.names))]
		if !try("query for "+n, func() (bool, string, bool) {
			st, b, alive := w.get("/getproof", url.Values{"domain": {n}})
			if !alive || st != 200 {
				return false, string(b), alive
			}
			var rs []*mapCommon.MapServerResponse
			if err := json.Unmarshal(b, &rs); err != nil {
				return true, "json: " + err.Error(), true
			}
			key, what := checkAnswer(w.id, w.m, w.m.root(), n, rs, lenient{})
			if key == "" {
				return true, "", true
			}
			return true, key + ": " + what, true
		}) {
			return
		}
	}
	var ids []K
	for id := range w.m.payload {
		ids = append(ids, id)
	}
	ref.SortKs(ids)
	for _, path := range []string{"/getpayloads", "/getcertpayloads", "/getpolicypayloads"} {
		w.rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		sel := ids[:min(len(ids), 1+w.rng.IntN(60))]
		if !try(fmt.Sprintf("%s for %d identifiers", path, len(sel)), func() (bool, string, bool) {
			st, b, alive := w.get(path, url.Values{"ids": {hexIDs(sel, false)}})
			if !alive || st != 200 {
				return false, string(b), alive
			}
			var got [][]byte
			if err := json.Unmarshal(b, &got); err != nil || len(got) != len(sel) {
				return true, fmt.Sprintf("documents: %d (%v)", len(got), err), true
			}
			for i, id := range sel {
				want := w.m.payload[id]
				if path == "/getcertpayloads" && w.isPol(id) || path == "/getpolicypayloads" && !w.isPol(id) {
					want = nil
				}
				if !bytes.Equal(got[i], want) {
					return true, fmt.Sprintf("documents: number %d of %d has %d bytes instead of %d", i, len(sel), len(got[i]), len(want)), true
				}
			}
			return true, "", true
		}) {
			return
		}
	}
}
