package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"
	"github.com/transparency-dev/merkle/rfc6962"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// logServer is a scripted log on the loopback network.
type logServer struct {
	trillian.UnimplementedTrillianLogServer
	srv  *grpc.Server
	addr string

	mu      sync.Mutex
	treeID  int64
	queued  map[string]int                    // leaf value -> times queued
	badLeaf []string                          // submissions with wrong fields
	failAdd func(leaf string, times int) error // nil: accept
	fetch   func(hash string, nth int, req *trillian.GetInclusionProofByHashRequest) (*trillian.GetInclusionProofByHashResponse, error)
	fetched map[string]int
	badReq  []string
	root    func(nth int) (*trillian.GetLatestSignedLogRootResponse, error)
	roots   int
	cons    func(req *trillian.GetConsistencyProofRequest) (*trillian.GetConsistencyProofResponse, error)
	delay   func(string)
}

func newLogServer() *logServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &logServer{srv: grpc.NewServer(), addr: l.Addr().String()}
	s.reset()
	trillian.RegisterTrillianLogServer(s.srv, s)
	go s.srv.Serve(l)
	return s
}

func (s *logServer) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.queued, s.fetched = map[string]int{}, map[string]int{}
	s.badLeaf, s.badReq, s.roots = nil, nil, 0
	s.failAdd, s.fetch, s.root, s.cons, s.delay = nil, nil, nil, nil, nil
}

func (s *logServer) QueueLeaf(ctx context.Context, req *trillian.QueueLeafRequest) (*trillian.QueueLeafResponse, error) {
	v := string(req.GetLeaf().GetLeafValue())
	s.mu.Lock()
	s.queued[v]++
	n := s.queued[v]
	if req.LogId != s.treeID || !bytes.Equal(req.GetLeaf().GetMerkleLeafHash(), rfc6962.DefaultHasher.HashLeaf([]byte(v))) {
		s.badLeaf = append(s.badLeaf, fmt.Sprintf("log %d leaf %.40q hash %x", req.LogId, v, req.GetLeaf().GetMerkleLeafHash()))
	}
	f, d := s.failAdd, s.delay
	s.mu.Unlock()
	if d != nil {
		d(v)
	}
	if f != nil {
		if err := f(v, n); err != nil {
			return nil, err
		}
	}
	return &trillian.QueueLeafResponse{}, nil
}

func (s *logServer) GetInclusionProofByHash(ctx context.Context, req *trillian.GetInclusionProofByHashRequest) (*trillian.GetInclusionProofByHashResponse, error) {
	h := string(req.LeafHash)
	s.mu.Lock()
	s.fetched[h]++
	n := s.fetched[h]
	if req.LogId != s.treeID {
		s.badReq = append(s.badReq, fmt.Sprintf("log %d", req.LogId))
	}
	f, d := s.fetch, s.delay
	s.mu.Unlock()
	if d != nil {
		d(h)
	}
	return f(h, n, req)
}

func (s *logServer) GetLatestSignedLogRoot(ctx context.Context, req *trillian.GetLatestSignedLogRootRequest) (*trillian.GetLatestSignedLogRootResponse, error) {
	s.mu.Lock()
	s.roots++
	n := s.roots
	if req.LogId != s.treeID {
		s.badReq = append(s.badReq, fmt.Sprintf("log %d", req.LogId))
	}
	f := s.root
	s.mu.Unlock()
	return f(n)
}

func (s *logServer) GetConsistencyProof(ctx context.Context, req *trillian.GetConsistencyProofRequest) (*trillian.GetConsistencyProofResponse, error) {
	return s.cons(req)
}

func rootBytes(size uint64, hash []byte) []byte {
	b, err := (&trilliantypes.LogRootV1{TreeSize: size, RootHash: hash, TimestampNanos: size*7 + 1}).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func leafName(data []byte) string {
	return base64.URLEncoding.EncodeToString(rfc6962.DefaultHasher.HashLeaf(data))
}

// outcome of one scripted entry.
type script struct {
	kind  string // ok, later, never, error, noproof, badroot, nilroot
	proof []*trillian.Proof
	root  uint64
	m     int
}

func g02(r *lib.R) {
	r.Rule("one call of the log client (AddLeaves, FetchInclusions, QueueRPCs, GetConsistencyProof) against a scripted log server on loopback; distinct by entries, workers, and script of failures")
	r.Assume("the log server speaks the gRPC protocol; its answers are arbitrary")
	dir, err := os.MkdirTemp("", "g02")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	srv := newLogServer()
	clients := map[int]*client.LogClient{}
	xdir := filepath.Join(dir, "x")
	os.MkdirAll(filepath.Join(xdir, "rpc"), 0o755)
	mk := func(w int) *client.LogClient {
		p := filepath.Join(dir, fmt.Sprintf("c%d.json", w))
		if err := client.SaveLogClientConfigToFile(&client.LogClientConfig{RPCAddress: srv.addr, NumOfWorker: w,
			MaxReceiveMessageSize: 1 << 24, PolicyLogExchangePath: xdir}, p); err != nil {
			panic(err)
		}
		c, err := client.NewLogClient(p, 0)
		if err != nil {
			panic(err)
		}
		return c
	}
	for _, w := range []int{1, 2, 3, 8, 17} {
		clients[w] = mk(w)
	}
	workers := []int{1, 2, 3, 8, 17}
	sizes := []int{0, 1, 2, 3, 7, 8, 9, 16, 17, 18, 40, 100}
	ctx := context.Background()
	errs := []error{
		status.Error(codes.Internal, "internal"), status.Error(codes.AlreadyExists, "dup"), status.Error(codes.NotFound, "nf"),
		status.Error(codes.ResourceExhausted, "full"), status.Error(codes.PermissionDenied, "no"), status.Error(codes.Canceled, "c"),
	}

	n := r.N(160, 2500)
	for i := 0; i < n && r.NViol() < 6; i++ {
		g := r.Rand("add", i)
		w := workers[i%len(workers)]
		size := sizes[(i/len(workers))%len(sizes)]
		c := clients[w]
		id := g.Int64N(1 << 40)
		c.SetTreeId(id)
		srv.reset()
		srv.treeID = id
		entries, want := [][]byte{}, map[string]int{}
		failing := map[string]error{}
		mode := g.IntN(4)
		for j := 0; j < size; j++ {
			e := rbytes(g, g.IntN(60))
			switch g.IntN(12) {
			case 0:
				if len(entries) > 0 {
					e = bytes.Clone(entries[g.IntN(len(entries))])
				}
			case 1:
				e = nil
			}
			entries = append(entries, e)
			want[string(e)]++
			if (mode == 1 && g.IntN(3) == 0) || mode == 2 {
				failing[string(e)] = errs[g.IntN(len(errs))]
			}
		}
		if mode == 3 && size > 0 { // only the last / first one
			failing[string(entries[[]int{0, size - 1}[g.IntN(2)]])] = errs[0]
		}
		srv.failAdd = func(l string, _ int) error { return failing[l] }
		jitter := g.IntN(3) == 0
		if jitter {
			srv.delay = func(l string) { time.Sleep(time.Duration(len(l)%5) * 200 * time.Microsecond) }
		}
		var fl [][]byte
		var es []error
		done := lib.Go(func() {
			r.NoPanic("add-crash", "AddLeaves", func() {
				res := c.AddLeaves(ctx, entries)
				fl, es = res.FailedLeaves, res.Errs
			})
		})
		if !r.WaitDone("add-hang", fmt.Sprintf("AddLeaves of %d entries on %d workers", size, w), done) {
			r.Stop()
		}
		r.Case(true, "add", w, size, mode, jitter)
		r.Count("entries submitted", size)
		srv.mu.Lock()
		got, bad := srv.queued, srv.badLeaf
		srv.mu.Unlock()
		desc := fmt.Sprintf("case %d: %d entries, %d workers, failure mode %d", i, size, w, mode)
		if d := countDiff(got, want); d != "" {
			r.Violatedf("add-once", "%s: entries reached the log another number of times than given: %s", desc, d)
		}
		if len(bad) > 0 {
			r.Violatedf("add-fields", "%s: submitted wrongly: %s", desc, bad[0])
		}
		wantFail, gotFail := map[string]int{}, map[string]int{}
		for e := range failing {
			wantFail[e] = want[e]
		}
		for _, e := range fl {
			gotFail[string(e)]++
		}
		if d := countDiff(gotFail, wantFail); d != "" {
			r.Violatedf("add-failed", "%s: reported as failed differ from those which failed: %s", desc, d)
		}
		if len(es) != len(fl) {
			r.Violatedf("add-errs", "%s: %d errors for %d failed entries", desc, len(es), len(fl))
		}
		for k, e := range es {
			if k < len(fl) && (e == nil || failing[string(fl[k])] != nil && status.Code(e) != status.Code(failing[string(fl[k])])) {
				r.Violatedf("add-errs", "%s: error %v reported for an entry that failed with %v", desc, e, failing[string(fl[k])])
			}
		}
		r.Count("failed submissions observed", len(fl))
	}

	// canceled
	for _, w := range workers {
		srv.reset()
		cctx, cancel := context.WithCancel(ctx)
		cancel()
		entries := [][]byte{{1}, {2}, {3}, {4}, {5}}
		done := lib.Go(func() {
			res := clients[w].AddLeaves(cctx, entries)
			if len(res.FailedLeaves) != 5 || len(res.Errs) != 5 {
				r.Violatedf("add-canceled", "canceled submission of 5 entries with %d workers: %d reported as failed", w, len(res.FailedLeaves))
			}
		})
		if !r.WaitDone("add-hang", "canceled AddLeaves", done) {
			r.Stop()
		}
		r.Case(true, "cancel", w)
	}

	n = r.N(120, 2000)
	for i := 0; i < n && r.NViol() < 6; i++ {
		g := r.Rand("fetch", i)
		w := workers[i%len(workers)]
		size := sizes[(i/len(workers))%len(sizes)]
		c := clients[w]
		id := g.Int64N(1 << 40)
		c.SetTreeId(id)
		srv.reset()
		srv.treeID = id
		treeSize := uint64(1 + g.IntN(1000))
		srv.root = func(int) (*trillian.GetLatestSignedLogRootResponse, error) {
			return &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: &trillian.SignedLogRoot{LogRoot: rootBytes(treeSize, []byte("r"))}}, nil
		}
		if err := c.UpdateTreeSize(ctx); err != nil {
			r.Violatedf("update-size", "UpdateTreeSize fails on a well-formed tree head: %v", err)
			break
		}
		scripts := map[string]*script{}
		entries := [][]byte{}
		multi := map[string]int{}
		kinds := []string{"ok", "ok", "ok", "ok", "later", "error", "noproof", "badroot", "nilroot", "never"}
		if i%3 == 0 {
			kinds = []string{"ok", "later"}
		}
		for j := 0; j < size; j++ {
			e := []byte(fmt.Sprintf("entry %d %d", i, j))
			if g.IntN(15) == 0 && len(entries) > 0 {
				e = bytes.Clone(entries[g.IntN(len(entries))])
			}
			entries = append(entries, e)
			h := string(rfc6962.DefaultHasher.HashLeaf(e))
			multi[string(e)]++
			if scripts[h] != nil {
				continue
			}
			s := &script{kind: kinds[g.IntN(len(kinds))], root: uint64(g.IntN(1 << 30)), m: 1 + g.IntN(4)}
			if g.IntN(3) > 0 {
				s.root = treeSize
			}
			if s.kind == "never" && g.IntN(3) > 0 {
				s.kind = "ok"
			}
			for k := 1 + g.IntN(3); k > 0; k-- {
				p := &trillian.Proof{LeafIndex: g.Int64N(1 << 30)}
				for m := g.IntN(5); m > 0; m-- {
					p.Hashes = append(p.Hashes, rbytes(g, 32))
				}
				s.proof = append(s.proof, p)
			}
			scripts[h] = s
		}
		var badSize string
		var bmu sync.Mutex
		srv.fetch = func(h string, nth int, req *trillian.GetInclusionProofByHashRequest) (*trillian.GetInclusionProofByHashResponse, error) {
			s := scripts[h]
			if s == nil {
				bmu.Lock()
				badSize = fmt.Sprintf("proof of an entry nobody asked for: %x", h)
				bmu.Unlock()
				return nil, errs[0]
			}
			if req.TreeSize != int64(treeSize) {
				bmu.Lock()
				badSize = fmt.Sprintf("tree size %d of known size %d", req.TreeSize, treeSize)
				bmu.Unlock()
			}
			res := &trillian.GetInclusionProofByHashResponse{Proof: s.proof, SignedLogRoot: &trillian.SignedLogRoot{LogRoot: rootBytes(s.root, []byte(h))}}
			switch s.kind {
			case "later":
				if nth <= s.m {
					return nil, errs[2]
				}
			case "never":
				return nil, errs[2]
			case "error":
				return nil, errs[[]int{0, 1, 3, 4}[s.m%4]]
			case "noproof":
				res.Proof = nil
			case "badroot":
				res.SignedLogRoot.LogRoot = []byte("garbage")[:s.m]
			case "nilroot":
				res.SignedLogRoot = nil
			}
			return res, nil
		}
		pois := map[string]*client.PoIAndSTH{}
		var fl [][]byte
		var fn []string
		var es []error
		done := lib.Go(func() {
			r.NoPanic("fetch-crash", "FetchInclusions", func() {
				res := c.FetchInclusions(ctx, entries)
				pois, fl, fn, es = res.PoIs, res.FailedLeaves, res.FailedLeavesName, res.Errs
			})
		})
		if !r.WaitDone("fetch-hang", fmt.Sprintf("FetchInclusions of %d entries on %d workers", size, w), done) {
			r.Stop()
		}
		r.Case(true, "fetch", w, size, i)
		r.Count("proofs asked for", size)
		desc := fmt.Sprintf("case %d: %d entries, %d workers", i, size, w)
		if badSize != "" {
			r.Violatedf("fetch-request", "%s: client asked with %s", desc, badSize)
		}
		srv.mu.Lock()
		if len(srv.badReq) > 0 {
			r.Violatedf("fetch-request", "%s: asked the wrong log: %s", desc, srv.badReq[0])
		}
		for h, k := range srv.fetched {
			if k > 64*len(entries) {
				r.Violatedf("fetch-bounded", "%s: asked %d times for %x", desc, k, h)
			}
		}
		srv.mu.Unlock()
		gotFail, wantFail := map[string]int{}, map[string]int{}
		for k, e := range fl {
			gotFail[string(e)]++
			if k >= len(fn) || fn[k] != leafName(e) {
				r.Violatedf("fetch-names", "%s: name of failed entry %d is not that of the entry", desc, k)
			}
			if k >= len(es) || es[k] == nil {
				r.Violatedf("fetch-errs", "%s: no error for failed entry %d", desc, k)
			}
		}
		if len(fn) != len(fl) || len(es) != len(fl) {
			r.Violatedf("fetch-names", "%s: %d failed entries, %d names, %d errors", desc, len(fl), len(fn), len(es))
		}
		okNames := map[string]bool{}
		for e, k := range multi {
			s := scripts[string(rfc6962.DefaultHasher.HashLeaf([]byte(e)))]
			r.Seen("kinds of answer", s.kind)
			if s.kind == "ok" || s.kind == "later" {
				name := leafName([]byte(e))
				okNames[name] = true
				p := pois[name]
				if p == nil {
					r.Violatedf("fetch-missing", "%s: no proof returned for an entry the server proved (%s, after %d times not found)", desc, s.kind, s.m)
					continue
				}
				same := len(p.PoIs) == len(s.proof)
				for q := 0; same && q < len(p.PoIs); q++ {
					same = p.PoIs[q].LeafIndex == s.proof[q].LeafIndex && len(p.PoIs[q].Hashes) == len(s.proof[q].Hashes)
					for z := 0; same && z < len(s.proof[q].Hashes); z++ {
						same = bytes.Equal(p.PoIs[q].Hashes[z], s.proof[q].Hashes[z])
					}
				}
				if !same {
					r.Violatedf("fetch-proof", "%s: the proofs returned for an entry are not those of the server", desc)
				}
				// The proofs are those for the size the client knows: so is the tree head.
				wantHash := "r"
				if s.root == treeSize {
					wantHash = string(rfc6962.DefaultHasher.HashLeaf([]byte(e)))
				}
				if p.STH.TreeSize != treeSize || string(p.STH.RootHash) != wantHash {
					r.Violatedf("fetch-root", "%s: the tree head returned for an entry (size %d) is not the one of the size asked for (%d)", desc, p.STH.TreeSize, treeSize)
				}
				r.Count("proofs checked", 1)
			} else {
				wantFail[e] = k
			}
		}
		if d := countDiff(gotFail, wantFail); d != "" {
			r.Violatedf("fetch-failed", "%s: entries reported as failed differ from those without valid answer: %s", desc, d)
		}
		for name := range pois {
			if !okNames[name] {
				r.Violatedf("fetch-invented", "%s: proof returned for an entry the server gave none for", desc)
			}
		}
	}

	// root and consistency proofs with incomplete answers
	c := clients[1]
	for i, resp := range []*trillian.GetLatestSignedLogRootResponse{{}, {SignedLogRoot: &trillian.SignedLogRoot{}},
		{SignedLogRoot: &trillian.SignedLogRoot{LogRoot: []byte{0, 1}}}, {SignedLogRoot: &trillian.SignedLogRoot{LogRoot: []byte("xxxxxxxxxxxxxxxxxxxxxxxxxxxx")}}} {
		srv.reset()
		srv.root = func(int) (*trillian.GetLatestSignedLogRootResponse, error) { return resp, nil }
		srv.treeID = 5
		c.SetTreeId(5)
		r.NoPanic("root-crash", "GetCurrentLogRoot on an incomplete answer", func() {
			if root, err := c.GetCurrentLogRoot(ctx); err == nil {
				r.Violatedf("root-invented", "GetCurrentLogRoot returns %+v for an answer without valid tree head", root)
			}
		})
		r.Case(true, "root", i)
	}
	hashes := [][]byte{{1}, {2}, {3}}
	for i, resp := range []*trillian.GetConsistencyProofResponse{{}, {Proof: &trillian.Proof{Hashes: hashes}}, {Proof: &trillian.Proof{}}} {
		srv.reset()
		var seen *trillian.GetConsistencyProofRequest
		srv.cons = func(q *trillian.GetConsistencyProofRequest) (*trillian.GetConsistencyProofResponse, error) {
			seen = q
			return resp, nil
		}
		c.SetTreeId(77)
		r.NoPanic("consistency-crash", "GetConsistencyProof on an incomplete answer", func() {
			p, err := c.GetConsistencyProof(ctx, &trilliantypes.LogRootV1{TreeSize: 3}, &trilliantypes.LogRootV1{TreeSize: 9})
			switch i {
			case 0:
				if err == nil {
					r.Violatedf("consistency-invented", "GetConsistencyProof succeeds without proof")
				}
			case 1:
				if err != nil || len(p) != 3 || !bytes.Equal(p[2], hashes[2]) {
					r.Violatedf("consistency-proof", "GetConsistencyProof returns %v, %v", p, err)
				}
			}
		})
		if seen == nil || seen.LogId != 77 || seen.FirstTreeSize != 3 || seen.SecondTreeSize != 9 {
			r.Violatedf("consistency-request", "consistency proof asked for %+v", seen)
		}
		r.Case(true, "cons", i)
	}

	// queueing from the exchange folder
	n = r.N(40, 500)
	for i := 0; i < n && r.NViol() < 6; i++ {
		g := r.Rand("queue", i)
		w := workers[i%len(workers)]
		c := mk(w)
		id := g.Int64N(1 << 40)
		c.SetTreeId(id)
		srv.reset()
		srv.treeID = id
		rdir := filepath.Join(xdir, "rpc")
		old, _ := filepath.Glob(rdir + "/*")
		for _, f := range old {
			os.Remove(f)
		}
		num := []int{0, 1, 2, 5, 9, 20}[g.IntN(6)]
		want := map[string]int{}
		for j := 0; j < num; j++ {
			p := rpc(g)
			b, err := common.ToJSON(p)
			if err != nil {
				panic(err)
			}
			f := filepath.Join(rdir, fmt.Sprintf("%03d", g.IntN(1000)*10+j))
			if _, err := os.Stat(f); err == nil {
				continue
			}
			if err := common.ToJSONFile(p, f); err != nil {
				panic(err)
			}
			want[string(b)]++
		}
		num = 0
		for _, k := range want {
			num += k
		}
		files, _ := filepath.Glob(rdir + "/*")
		bad := ""
		if g.IntN(4) == 0 {
			bad = filepath.Join(rdir, []string{"000a", "500a", "zzz"}[g.IntN(3)])
			os.WriteFile(bad, []byte([]string{"", "{", `{"T":"*nosuch","O":{}}`, "null"}[g.IntN(4)]), 0o644)
		}
		failing := map[string]bool{}
		if g.IntN(2) == 0 {
			for e := range want {
				if g.IntN(3) == 0 {
					failing[e] = true
				}
			}
		}
		base := uint64(g.IntN(50))
		foreign := []int{0, 0, 1, 7}[g.IntN(4)]
		lag := g.IntN(3)
		// the entries may be part of the log already, and the client may know nothing of it yet
		known, fresh, late := g.IntN(4) == 0, g.IntN(3) == 0, g.IntN(2) == 0
		if known && base == 0 {
			base = 1
		}
		srv.failAdd = func(l string, _ int) error {
			if failing[l] {
				return errs[0]
			}
			return nil
		}
		current := func() uint64 { // size of the log now
			s := base
			for e, k := range srv.queued {
				if !failing[e] && !known {
					s += uint64(k)
				}
			}
			if len(srv.queued) > 0 {
				s += uint64(foreign)
			}
			return s
		}
		srv.root = func(nth int) (*trillian.GetLatestSignedLogRootResponse, error) {
			srv.mu.Lock()
			defer srv.mu.Unlock()
			s := current()
			if nth-1 <= lag { // leaves are integrated later
				s = base
			}
			return &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: &trillian.SignedLogRoot{LogRoot: rootBytes(s, []byte("root"))}}, nil
		}
		nofetch := map[string]bool{}
		rounds := map[string]int{} // how long an entry is not part of the log yet
		for e := range want {
			h := string(rfc6962.DefaultHasher.HashLeaf([]byte(e)))
			if failing[e] || g.IntN(8) == 0 {
				nofetch[h] = true
			} else if late && g.IntN(3) == 0 {
				rounds[h] = 1 + g.IntN(40)
			}
		}
		srv.fetch = func(h string, nth int, req *trillian.GetInclusionProofByHashRequest) (*trillian.GetInclusionProofByHashResponse, error) {
			if nofetch[h] {
				return nil, errs[0]
			}
			if nth <= rounds[h] || req.TreeSize == 0 {
				return nil, errs[2]
			}
			return &trillian.GetInclusionProofByHashResponse{Proof: []*trillian.Proof{{LeafIndex: 1}}, SignedLogRoot: &trillian.SignedLogRoot{LogRoot: rootBytes(uint64(req.TreeSize), nil)}}, nil
		}
		if !fresh {
			if err := c.UpdateTreeSize(ctx); err != nil {
				panic(err)
			}
		}
		var res *client.QueueRPCResult
		var qerr error
		done := lib.Go(func() {
			r.NoPanic("queue-crash", "QueueRPCs", func() { res, qerr = c.QueueRPCs(ctx) })
		})
		desc := fmt.Sprintf("case %d: %d documents (malformed one: %q), %d fail, %d foreign entries, %d workers, in the log already %v, fresh client %v, integrated late %v", i, num, filepath.Base(bad), len(failing), foreign, w, known, fresh, late)
		if !r.WaitDone("queue-hang", "QueueRPCs, "+desc, done) {
			r.Stop()
		}
		r.Case(true, "queue", num, bad != "", len(failing), foreign, lag, w, known, fresh, late)
		left, _ := filepath.Glob(rdir + "/*")
		srv.mu.Lock()
		got := srv.queued
		srv.mu.Unlock()
		if bad != "" {
			if qerr == nil {
				r.Violatedf("queue-malformed", "%s: malformed document not reported", desc)
			} else if len(got) == 0 && len(left) != len(files)+1 {
				r.Violatedf("queue-lost", "%s: %d of %d documents disappeared from the folder although none was submitted", desc, len(files)+1-len(left), len(files)+1)
			} else if len(got) != 0 {
				// whatever was submitted must be exactly what is no longer there
				k := 0
				for _, x := range got {
					k += x
				}
				if k != len(files)+1-len(left) {
					r.Violatedf("queue-lost", "%s: %d submitted, %d files gone", desc, k, len(files)+1-len(left))
				}
			}
			r.Count("folders with a malformed document", 1)
			continue
		}
		if qerr != nil {
			r.Violatedf("queue-fails", "%s: %v", desc, qerr)
			continue
		}
		if d := countDiff(got, want); d != "" {
			r.Violatedf("queue-once", "%s: documents reached the log another number of times: %s", desc, d)
		}
		if len(left) != 0 {
			r.Violatedf("queue-left", "%s: %d documents remain after a successful call", desc, len(left))
		}
		nf := 0
		wf, gf := map[string]int{}, map[string]int{}
		for e := range failing {
			nf += want[e]
			wf[e] = want[e]
		}
		for _, e := range res.FailToAddLeaves {
			gf[string(e)]++
		}
		if d := countDiff(gf, wf); d != "" || res.NumOfSucceedAddedLeaves != num-nf || len(res.AddLeavesErrs) != nf {
			r.Violatedf("queue-add-report", "%s: %d failed; reported %d succeeded, %d failed, %d errors %s", desc, nf, res.NumOfSucceedAddedLeaves, len(res.FailToAddLeaves), len(res.AddLeavesErrs), d)
		}
		wp, gp := map[string]int{}, map[string]int{}
		names := []string{}
		for e := range want {
			if nofetch[string(rfc6962.DefaultHasher.HashLeaf([]byte(e)))] {
				wp[e] = want[e]
				for q := 0; q < want[e]; q++ {
					names = append(names, leafName([]byte(e)))
				}
			}
		}
		for _, e := range res.FailToRetrievedLeaves {
			gp[string(e)]++
		}
		gn := append([]string{}, res.FailToRetrieveLeavesName...)
		sort.Strings(gn)
		sort.Strings(names)
		if d := countDiff(gp, wp); d != "" || fmt.Sprint(gn) != fmt.Sprint(names) || res.NumOfRetrievedLeaves != len(want)-len(wp) || len(res.RetrieveLeavesErrs) != len(names) {
			r.Violatedf("queue-fetch-report", "%s: %d without proof; reported %d retrieved, %d failed, %d errors %s", desc, len(names), res.NumOfRetrievedLeaves, len(gn), len(res.RetrieveLeavesErrs), d)
		}
		r.Count("documents queued", num)
		r.Sample("%s -> %d submitted, %d proofs", desc, res.NumOfSucceedAddedLeaves, res.NumOfRetrievedLeaves)
	}
	if ok, st := lib.SettleGoroutines("policylog/client.worker_"); !ok {
		r.Violation("leak", "workers of the log client remain after all calls returned", st)
	}
}

func countDiff(got, want map[string]int) string {
	for k, v := range want {
		if got[k] != v {
			return fmt.Sprintf("%.60q: %d, should be %d", k, got[k], v)
		}
	}
	for k, v := range got {
		if want[k] != v {
			return fmt.Sprintf("%.60q: %d, should be %d", k, v, want[k])
		}
	}
	return ""
}
