package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"maps"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/ctlog"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

type K = ref.K

var (
	bg     = context.Background()
	future = time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	past   = time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC)
)

// ---- key material of the server

type identity struct {
	key             *rsa.PrivateKey
	certPem, keyPem string // files
	der             []byte
}

func newIdentity(dir, name string) *identity {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "map server"},
		NotBefore: past, NotAfter: future, DNSNames: []string{"localhost"},
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	id := &identity{key: k, der: der, certPem: filepath.Join(dir, name+"cert.pem"), keyPem: filepath.Join(dir, name+"key.pem")}
	must(os.WriteFile(id.certPem, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	must(os.WriteFile(id.keyPem, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0o600))
	return id
}

func must(err error) {
	if err != nil {
		panic("environment: " + err.Error())
	}
}

func (id *identity) signs(root, sig []byte) bool {
	h := ref.Sha(root)
	return rsa.VerifyPKCS1v15(&id.key.PublicKey, crypto.SHA256, h[:], sig) == nil
}

// ---- the material

type material struct {
	cas    []*certs.CA
	leaves []*certs.Leaf // unexpired
	dead   []*certs.Leaf // expired, or below an expired authority
	pols   []*pol
	names  []string
}

type pol struct {
	id   K
	raw  []byte
	doc  common.PolicyDocument
	name string
}

var tlds = []string{"com", "co.uk", "ch", "org"}

func newMaterial(rng *mrand.Rand, nLeaves, nDead, nPols, nNames int) *material {
	m := &material{}
	root := certs.NewCA(nil, "root", future)
	root2 := certs.NewCA(nil, "root two", future)
	mid := certs.NewCA(root, "mid", future)
	low := certs.NewCA(mid, "low", future)
	deadCA := certs.NewCA(mid, "expired authority", past)
	m.cas = []*certs.CA{root, root2, mid, low}
	seen := map[string]bool{}
	for len(m.names) < nNames {
		n := fmt.Sprintf("d%d.%s", rng.IntN(nNames), tlds[rng.IntN(len(tlds))])
		for rng.IntN(2) == 0 && strings.Count(n, ".") < 6 {
			n = []string{"a", "b", "mail", "x1", "deep"}[rng.IntN(5)] + "." + n
		}
		if !seen[n] {
			seen[n] = true
			m.names = append(m.names, n)
		}
	}
	pick := func() (res []string) {
		for i := 1 + rng.IntN(3); i > 0; i-- {
			res = append(res, m.names[rng.IntN(len(m.names))])
		}
		return
	}
	for i := 0; i < nLeaves; i++ {
		ns := pick()
		cn := ns[0]
		if rng.IntN(4) == 0 {
			cn = ""
		}
		m.leaves = append(m.leaves, certs.NewLeaf(m.cas[rng.IntN(len(m.cas))], cn, ns, future, rng.IntN(3) == 0))
	}
	for i := 0; i < nDead; i++ {
		ns := pick()
		if rng.IntN(2) == 0 {
			m.dead = append(m.dead, certs.NewLeaf(m.cas[rng.IntN(len(m.cas))], ns[0], ns, past, false))
		} else {
			m.dead = append(m.dead, certs.NewLeaf(deadCA, ns[0], ns, future, false))
		}
	}
	for i := 0; i < nPols; i++ {
		pc := &common.PolicyCertificate{}
		pc.DomainField = m.names[rng.IntN(len(m.names))]
		pc.SerialNumberField = i + 1
		pc.PublicKey = []byte(fmt.Sprint("key", rng.Uint64()))
		pc.NotAfter = future
		raw, err := common.ToJSON(pc)
		must(err)
		m.pols = append(m.pols, &pol{id: ref.Sha(raw), raw: raw, doc: pc, name: pc.DomainField})
	}
	return m
}

// ---- model

type model struct {
	mu       sync.Mutex
	payload  map[K][]byte // unexpired certificates and policies delivered
	domCerts map[string]map[K]bool
	domPols  map[string]map[K]bool
	docs     map[K][]byte // every document ever seen, expired ones too
}

func newModel() *model {
	return &model{payload: map[K][]byte{}, domCerts: map[string]map[K]bool{}, domPols: map[string]map[K]bool{}, docs: map[K][]byte{}}
}

func (m *model) addLeaf(l *certs.Leaf) {
	ids := map[K]bool{}
	for _, d := range append([][]byte{l.DER}, l.Chain()...) {
		id := ref.Sha(d)
		ids[id] = true
		m.payload[id] = d
	}
	for _, n := range l.Names() {
		if m.domCerts[n] == nil {
			m.domCerts[n] = map[K]bool{}
		}
		for id := range ids {
			m.domCerts[n][id] = true
		}
	}
}

func (m *model) addPol(p *pol) {
	m.payload[p.id] = p.raw
	if m.domPols[p.name] == nil {
		m.domPols[p.name] = map[K]bool{}
	}
	m.domPols[p.name][p.id] = true
}

func (m *model) value(n string) K {
	all := map[K]bool{}
	for k := range m.domCerts[n] {
		all[k] = true
	}
	for k := range m.domPols[n] {
		all[k] = true
	}
	return ref.Sha(ref.Glue(all))
}

func (m *model) tree() map[K]K {
	t := map[K]K{}
	for n, s := range m.domCerts {
		if len(s) > 0 {
			t[ref.Sha([]byte(n))] = m.value(n)
		}
	}
	for n, s := range m.domPols {
		if len(s) > 0 {
			t[ref.Sha([]byte(n))] = m.value(n)
		}
	}
	return t
}

func (m *model) root() []byte { return ref.Root(m.tree()) }

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.payload {
		n.payload[k] = v
	}
	cp := func(dst, src map[string]map[K]bool) {
		for k, s := range src {
			dst[k] = map[K]bool{}
			for i := range s {
				dst[k][i] = true
			}
		}
	}
	cp(n.domCerts, m.domCerts)
	cp(n.domPols, m.domPols)
	return n
}

// ---- independent verification of the answers

// chainOf is the list of names a query is answered for.
func chainOf(name string, registered int) (res []string) {
	ls := strings.Split(name, ".")
	for i := len(ls) - registered; i >= 0; i-- {
		res = append(res, strings.Join(ls[i:], "."))
	}
	return
}

// registeredLabels of the names of the monitors.
func registeredLabels(name string) int {
	if strings.HasSuffix(name, ".co.uk") {
		return 3
	}
	return 2
}

// climb recomputes the root of a proof.
func climb(key []byte, leaf []byte, ap [][]byte) []byte {
	h := leaf
	for i, s := range ap {
		d := len(ap) - 1 - i
		if key[d/8]>>(7-uint(d%8))&1 == 1 {
			x := ref.Sha(s, h)
			h = x[:]
		} else {
			x := ref.Sha(h, s)
			h = x[:]
		}
	}
	return h
}

func leafHash(key, value []byte, depth int) []byte {
	x := ref.Sha(key, value, []byte{byte(256 - depth)})
	return x[:]
}

// proofOK verifies one proof without the code under test; want is the value proven (nil: absence).
func proofOK(p *mapCommon.PoI, key K, want []byte) string {
	if len(p.Proof) > 256 {
		return "proof too long"
	}
	if want != nil {
		if p.ProofType != mapCommon.PoP {
			return "not a proof of presence"
		}
		if !bytes.Equal(p.ProofValue, want) {
			return fmt.Sprintf("proves the value %x, not %x", p.ProofValue, want)
		}
		if !bytes.Equal(climb(key[:], leafHash(key[:], want, len(p.Proof)), p.Proof), p.Root) {
			return "audit path does not lead to the root"
		}
		return ""
	}
	if p.ProofType != mapCommon.PoA {
		return "not a proof of absence"
	}
	if len(p.ProofKey) == 0 {
		if len(p.Proof) == 0 {
			if len(p.Root) != 0 {
				return "absence in an empty tree, which is not empty"
			}
			return ""
		}
		if !bytes.Equal(climb(key[:], []byte{0}, p.Proof), p.Root) {
			return "audit path does not lead to the root"
		}
		return ""
	}
	if bytes.Equal(p.ProofKey, key[:]) || len(p.ProofKey) != 32 {
		return "absence shown by the key itself"
	}
	for d := 0; d < len(p.Proof); d++ {
		if (p.ProofKey[d/8]^key[d/8])>>(7-uint(d%8))&1 == 1 {
			return "the other leaf is not on the path"
		}
	}
	if !bytes.Equal(climb(key[:], leafHash(p.ProofKey, p.ProofValue, len(p.Proof)), p.Proof), p.Root) {
		return "audit path does not lead to the root"
	}
	return ""
}

// lenient: which parts of an answer are not checked.
type lenient struct {
	material bool // identifiers (and so the domain value) may be of another version
}

// checkAnswer verifies a complete answer for a query against the model; key "" means all is well.
func checkAnswer(id *identity, m *model, root []byte, stripped string, rs []*mapCommon.MapServerResponse, len_ lenient) (key, what string) {
	chain := chainOf(stripped, registeredLabels(stripped))
	if len(rs) != len(chain) {
		return "answer/chain", fmt.Sprintf("%d answers instead of %d", len(rs), len(chain))
	}
	for i, p := range rs {
		if p == nil || p.DomainEntry == nil {
			return "answer/entry", "no domain entry"
		}
		if p.DomainEntry.DomainName != chain[i] || p.DomainEntry.DomainID != ref.Sha([]byte(chain[i])) {
			return "answer/name", fmt.Sprintf("answer %d is for %q, not %q", i, p.DomainEntry.DomainName, chain[i])
		}
		if !bytes.Equal(p.PoI.Root, root) {
			return "answer/root", fmt.Sprintf("root %x, not %x, for %q", p.PoI.Root, root, chain[i])
		}
		if !id.signs(p.PoI.Root, p.TreeHeadSig) {
			return "answer/signature", fmt.Sprintf("the tree head signature does not verify over the root (%q)", chain[i])
		}
		dom := ref.Sha([]byte(chain[i]))
		cs, ps := m.domCerts[chain[i]], m.domPols[chain[i]]
		var want []byte
		if len(cs)+len(ps) > 0 {
			v := m.value(chain[i])
			want = v[:]
		}
		if w := proofOK(&p.PoI, dom, want); w != "" {
			return "answer/proof", fmt.Sprintf("%s (%q, %d levels)", w, chain[i], len(p.PoI.Proof))
		}
		if len_.material {
			continue
		}
		e := p.DomainEntry
		if want == nil {
			if len(e.CertIDs)+len(e.PolicyIDs) != 0 {
				return "answer/material", fmt.Sprintf("material for the absent %q", chain[i])
			}
		} else {
			if !bytes.Equal(e.CertIDs, ref.Glue(cs)) {
				return "answer/material", fmt.Sprintf("certificate identifiers of %q: %d, not %d", chain[i], len(e.CertIDs)/32, len(cs))
			}
			if !bytes.Equal(e.PolicyIDs, ref.Glue(ps)) {
				return "answer/material", fmt.Sprintf("policy identifiers of %q: %d, not %d", chain[i], len(e.PolicyIDs)/32, len(ps))
			}
			if h := ref.Sha(e.CertIDs); len(e.CertIDs) > 0 && e.CertIDsID != h {
				return "answer/material", fmt.Sprintf("digest of the certificate identifiers of %q", chain[i])
			}
			if h := ref.Sha(e.PolicyIDs); len(e.PolicyIDs) > 0 && e.PolicyIDsID != h {
				return "answer/material", fmt.Sprintf("digest of the policy identifiers of %q", chain[i])
			}
			if !bytes.Equal(e.DomainValue[:], want) {
				return "answer/material", fmt.Sprintf("domain value of %q", chain[i])
			}
		}
		typ, ok, err := prover.VerifyProofByDomain(p)
		if err != nil || !ok || (typ == mapCommon.PoP) != (want != nil) {
			return "answer/verifier", fmt.Sprintf("the package's verifier says %v %v %v (%q)", typ, ok, err, chain[i])
		}
	}
	return "", ""
}

// ---- a map server and its logs

type logState struct {
	log    *ctlog.Log
	leaves []*certs.Leaf
	mu     sync.Mutex
	broken bool // entries fail
}

func newLog() *logState {
	l := &logState{}
	l.log = ctlog.New(0, func(i int64) ctlog.Entry {
		l.mu.Lock()
		defer l.mu.Unlock()
		return ctlog.EntryOf(l.leaves[i], uint64(i))
	}, func(n int, start, end, size int64) ctlog.Reply {
		l.mu.Lock()
		defer l.mu.Unlock()
		if l.broken {
			return ctlog.Reply{Status: 400, Body: []byte("no")}
		}
		return ctlog.Full(n, start, end, size)
	})
	return l
}

func (l *logState) add(ls ...*certs.Leaf) {
	l.mu.Lock()
	l.leaves = append(l.leaves, ls...)
	n := len(l.leaves)
	l.mu.Unlock()
	l.log.Grow(int64(n))
}

var startMu sync.Mutex

func newServer(ctx context.Context, id *identity, conf *db.Configuration, port int, logs ...*logState) (*mapserver.MapServer, error) {
	var urls []string
	for _, l := range logs {
		urls = append(urls, l.log.URL())
	}
	return newServerOf(ctx, id, conf, port, urls, map[string]string{}, 100000)
}

// newServerOf makes a server for any logs; those in folders are read from there.
func newServerOf(ctx context.Context, id *identity, conf *db.Configuration, port int, urls []string, folders map[string]string, maxRows uint64) (*mapserver.MapServer, error) {
	startMu.Lock()
	defer startMu.Unlock()
	var s *mapserver.MapServer
	var err error
	for try := 0; try < 20; try++ {
		s, err = mapserver.NewMapServer(ctx, &config.Config{
			CTLogServerURLs:     urls,
			DBConfig:            &db.Configuration{Values: maps.Clone(conf.Values)},
			CertificatePemFile:  id.certPem,
			PrivateKeyPemFile:   id.keyPem,
			HttpAPIPort:         port,
			CertificateFolders:  folders,
			CsvIngestionMaxRows: maxRows,
		})
		// Starting several servers on one database server is the monitor's doing.
		if err == nil || !strings.Contains(err.Error(), "Error 1213") {
			break
		}
	}
	if err == nil {
		s.ReadTimeout, s.WriteTimeout = 0, 0 // a busy machine is no failure
	}
	return s, err
}

func closeServer(s *mapserver.MapServer) {
	s.Conn.Close()
	s.Updater.Conn.Close()
}

// deliverPolicies inserts policies (there is no fetching of these yet).
func deliverPolicies(conn db.Conn, ps []*pol) error {
	var docs []common.PolicyDocument
	for _, p := range ps {
		docs = append(docs, p.doc)
	}
	return updater.UpdateWithKeepExisting(bg, conn, nil, nil, nil, []ctx509.Certificate{}, nil, docs)
}

func deliverLocal(u *updater.MapUpdater, ls []*certs.Leaf) error {
	var ders [][]byte
	var chains [][][]byte
	for _, l := range ls {
		ders = append(ders, l.DER)
		chains = append(chains, l.Chain())
	}
	return u.UpdateCertsLocally(bg, ders, chains)
}

func sortedNames[V any](m map[string]V) (res []string) {
	for n := range m {
		res = append(res, n)
	}
	sort.Strings(res)
	return
}

var _ = lib.Go
