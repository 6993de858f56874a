package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
	"github.com/netsec-ethz/fpki/zzverif/ref"
)

type K = ref.K

var ctx = context.Background()

// ---- the material: a forest of certificates and a set of policies

type cert struct {
	id     K
	x      ctx509.Certificate
	parent *cert
	names  []string // when delivered as leaf
	exp    time.Time
	num    int
}

type policy struct {
	id    K
	doc   common.PolicyDocument
	raw   []byte
	name  string
	num   int
}

type universe struct {
	certs []*cert
	pols  []*policy
	names []string
	base  time.Time
}

func (c *cert) chain() (res []*ctx509.Certificate) {
	for p := c.parent; p != nil; p = p.parent {
		x := p.x
		res = append(res, &x)
	}
	return
}

var labels = []string{"a", "b", "www", "mail", "x1", "deep", "zz-top"}
var tlds = []string{"com", "org", "co.uk", "ch", "net"}

func validName(rng *rand.Rand) string {
	n := fmt.Sprintf("d%d.%s", rng.IntN(30), tlds[rng.IntN(len(tlds))])
	for rng.IntN(2) == 0 && strings.Count(n, ".") < 5 {
		n = labels[rng.IntN(len(labels))] + "." + n
	}
	if rng.IntN(10) == 0 {
		n = "*." + n
	}
	return n
}

// oddName: anything a certificate may carry in its subject or alternative names.
func oddName(rng *rand.Rand) string {
	base := []string{`back\slash`, `tab\t`, `end\`, `quo"te`, `"quoted"`, "com,ma", "new\nline", "NULL", `\N`,
		" lead", "trail ", "'single'", "UPPER.com", "upper.com", "semi;colon", "a.b..c", "cr\r\nlf", `\"`, "-", "0",
		strings.Repeat("long", 64), "\ttab", `a\,b`}
	return base[rng.IntN(len(base))]
}

func payload(rng *rand.Rand) []byte {
	n := 1 + rng.IntN(300)
	switch rng.IntN(12) {
	case 0:
		n = 1 + rng.IntN(4)
	case 1:
		n = 60000 + rng.IntN(20000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rng.Uint32())
	}
	if rng.IntN(4) == 0 {
		for i := range b {
			b[i] = "\n\\\",'\x00\r\tNa"[int(b[i])%10]
		}
	}
	return append(b, fmt.Sprint(rng.Uint64())...)
}

func newUniverse(rng *rand.Rand, nCerts, nNames, nPols int) *universe {
	u := &universe{base: time.Date(2024, 3, 31, 0, 30, 0, 0, time.UTC)}
	seen := map[string]bool{}
	for len(u.names) < nNames {
		n := validName(rng)
		if rng.IntN(5) == 0 {
			n = oddName(rng)
		}
		if len(u.names) > nNames*3/4 && rng.IntN(2) == 0 {
			n = fmt.Sprintf("n%d.%s", rng.Uint32(), n)
		}
		if !seen[n] && len(n) <= 300 {
			seen[n] = true
			u.names = append(u.names, n)
		}
	}
	depth := map[*cert]int{}
	hot := u.names[rng.IntN(len(u.names))] // one domain gets many certificates
	for i := 0; i < nCerts; i++ {
		c := &cert{num: i}
		if i > 0 && rng.IntN(8) != 0 {
			p := u.certs[rng.IntN(i)]
			if rng.IntN(3) > 0 {
				p = u.certs[rng.IntN(min(i, 6))]
			}
			if depth[p] < 6 {
				c.parent, depth[c] = p, depth[p]+1
			}
		}
		c.exp = u.base.Add(time.Duration(rng.IntN(12)) * time.Hour)
		if rng.IntN(3) == 0 {
			c.exp = u.base.Add(time.Duration(rng.IntN(100_000)) * time.Second)
		}
		if rng.IntN(20) == 0 {
			c.exp = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
		}
		for n := rng.IntN(4); n > 0; n-- {
			c.names = append(c.names, u.names[rng.IntN(len(u.names))])
		}
		if rng.IntN(3) == 0 {
			c.names = append(c.names, hot)
		}
		c.x = ctx509.Certificate{Raw: payload(rng), NotAfter: c.exp, DNSNames: c.names}
		if rng.IntN(3) == 0 && len(c.names) > 0 {
			c.x.DNSNames = c.names[1:]
			c.x.Subject = pkix.Name{CommonName: c.names[0]}
		}
		if rng.IntN(4) == 0 { // same instant, other zone
			c.x.NotAfter = c.exp.In(time.FixedZone("x", 3600*(rng.IntN(20)-10)))
		}
		c.id = ref.Sha(c.x.Raw)
		u.certs = append(u.certs, c)
	}
	// Only issuing certificates may have descendants.
	for _, c := range u.certs {
		if c.parent != nil {
			c.parent.x.BasicConstraintsValid = rng.IntN(2) == 0
			c.parent.x.IsCA = true
		}
	}
	isParent := map[*cert]bool{}
	for _, c := range u.certs {
		isParent[c.parent] = true
	}
	for _, c := range u.certs {
		if !isParent[c] && rng.IntN(2) == 0 {
			c.x.BasicConstraintsValid, c.x.IsCA = true, false
		}
	}
	for i := 0; i < nPols; i++ {
		name := u.names[rng.IntN(len(u.names))]
		pc := &common.PolicyCertificate{}
		pc.DomainField = name
		pc.SerialNumberField = i + 1
		pc.PublicKey = payload(rng)
		pc.NotAfter = u.base
		raw, err := common.ToJSON(pc)
		if err != nil {
			panic(err)
		}
		p := &policy{doc: pc, raw: raw, name: name, num: i}
		switch rng.IntN(4) {
		case 0: // as received, formatted differently
			raw = bytes.Replace(raw, []byte(`"O":`), []byte(` "O" : `), 1)
			fallthrough
		case 1:
			o, err := common.FromJSON(raw)
			if err != nil {
				panic(err)
			}
			p.doc, p.raw = o.(common.PolicyDocument), raw
		}
		p.id = ref.Sha(p.raw)
		u.pols = append(u.pols, p)
	}
	return u
}

// ---- reference model of the database

type model struct {
	certs    map[K]*cert
	domCerts map[K]map[K]bool
	pols     map[K]*policy
	domPols  map[K]map[K]bool
	names    map[K]string
	dirty    map[K]bool
	payload  map[K][2]string // last refreshed material of each domain
	pub      map[K]K
}

func newModel() *model {
	return &model{map[K]*cert{}, map[K]map[K]bool{}, map[K]*policy{}, map[K]map[K]bool{}, map[K]string{},
		map[K]bool{}, map[K][2]string{}, map[K]K{}}
}

func nameID(n string) K { return ref.Sha([]byte(n)) }

func (m *model) material(d K) (cs, ps map[K]bool) {
	cs, ps = map[K]bool{}, map[K]bool{}
	for id := range m.domCerts[d] {
		for c := m.certs[id]; c != nil; c = c.parent {
			if m.certs[c.id] == nil {
				break
			}
			cs[c.id] = true
		}
	}
	for id := range m.domPols[d] {
		if m.pols[id] != nil {
			ps[id] = true
		}
	}
	return
}

func value(cs, ps map[K]bool) K {
	all := map[K]bool{}
	for k := range cs {
		all[k] = true
	}
	for k := range ps {
		all[k] = true
	}
	return ref.Sha(ref.Glue(all))
}

// refresh recomputes the material of all pending domains.
func (m *model) refresh() {
	for d := range m.dirty {
		cs, ps := m.material(d)
		if len(cs)+len(ps) == 0 {
			delete(m.payload, d)
		} else {
			m.payload[d] = [2]string{string(ref.Glue(cs)), string(ref.Glue(ps))}
		}
	}
}

func split(s string, m map[K]bool) {
	for i := 0; i+32 <= len(s); i += 32 {
		m[K([]byte(s[i:i+32]))] = true
	}
}

func (m *model) publish() {
	for d := range m.dirty {
		p, ok := m.payload[d]
		if !ok {
			delete(m.pub, d)
			continue
		}
		all := map[K]bool{}
		split(p[0], all)
		split(p[1], all)
		m.pub[d] = ref.Sha(ref.Glue(all))
	}
}

// ---- one monitored history

type hist struct {
	r    *lib.R
	u    *universe
	m    *model
	conn db.Conn
	log  []string
	bad  bool
	id   string
}

func (h *hist) fail(key, f string, a ...any) {
	h.bad = true
	h.r.Violation(key, h.id+": "+fmt.Sprintf(f, a...), h.log)
}

func (h *hist) note(f string, a ...any) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func (h *hist) ok(key string, err error) bool {
	if err != nil {
		h.fail(key, "fails: %v", err)
	}
	return err == nil
}

func (h *hist) readDirty() map[K]bool {
	res := map[K]bool{}
	for _, row := range dbx.Rows(h.conn.DB(), "SELECT domain_id FROM dirty") {
		k := K([]byte(row[0]))
		if res[k] {
			h.fail("M02/dirty-twice", "domain %x pending twice", k[:4])
		}
		res[k] = true
	}
	return res
}

func (h *hist) nm(k K) string {
	if n, ok := h.m.names[k]; ok {
		return fmt.Sprintf("%q", n)
	}
	return fmt.Sprintf("%x", k[:6])
}

// pending checks must ⊆ pending ⊆ may, and goes on with the pending ones.
func (h *hist) pending(must, may map[K]bool, where string) {
	got := h.readDirty()
	for k := range must {
		if !got[k] {
			h.fail("M02/not-pending", "after %s the affected domain %s is not pending", where, h.nm(k))
		}
	}
	for k := range got {
		if !must[k] && !may[k] {
			h.fail("M02/pending-unaffected", "after %s the domain %s is pending, though it was not concerned", where, h.nm(k))
		}
	}
	h.m.dirty = got
	h.r.Count("pending sets compared", 1)
}

func cloneSet(m map[K]bool) map[K]bool {
	n := map[K]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

// deliver sends certificates as leaves and policies through an update function.
func (h *hist) deliver(rng *rand.Rand, leaves []*cert, pols []*policy) bool {
	xs := make([]ctx509.Certificate, len(leaves))
	chains := make([][]*ctx509.Certificate, len(leaves))
	must, may := cloneSet(h.m.dirty), map[K]bool{}
	var nums, pnums []int
	for i, c := range leaves {
		xs[i], chains[i] = c.x, c.chain()
		nums = append(nums, c.num)
	}
	certs, ids, parents, names := util.UnfoldCerts(xs, chains)
	exps := util.ExtractExpirations(certs)
	if len(certs) > 1 && rng.IntN(3) == 0 { // any order
		rng.Shuffle(len(certs), func(i, j int) {
			certs[i], certs[j] = certs[j], certs[i]
			ids[i], ids[j] = ids[j], ids[i]
			parents[i], parents[j] = parents[j], parents[i]
			names[i], names[j] = names[j], names[i]
			exps[i], exps[j] = exps[j], exps[i]
		})
	}
	var docs []common.PolicyDocument
	for _, p := range pols {
		docs = append(docs, p.doc)
		pnums = append(pnums, p.num)
		d := nameID(p.name)
		h.m.names[d] = p.name
		may[d] = true
		if !h.m.domPols[d][p.id] || h.m.pols[p.id] == nil {
			must[d] = true
		}
	}
	over := rng.IntN(3) == 0
	h.note("deliver certs %v policies %v overwrite=%v", nums, pnums, over)
	f := updater.UpdateWithKeepExisting
	if over {
		f = updater.UpdateWithOverwrite
	}
	if !h.ok("M03/update", f(ctx, h.conn, names, ids, parents, certs, exps, docs)) {
		return false
	}
	// The model.
	for _, c := range leaves {
		for _, n := range c.names {
			d := nameID(n)
			h.m.names[d] = n
			may[d] = true
			if h.m.domCerts[d] == nil {
				h.m.domCerts[d] = map[K]bool{}
			}
			if !h.m.domCerts[d][c.id] || h.m.certs[c.id] == nil {
				must[d] = true
			}
			h.m.domCerts[d][c.id] = true
		}
	}
	for _, c := range leaves {
		for x := c; x != nil; x = x.parent {
			h.m.certs[x.id] = x
		}
	}
	for _, p := range pols {
		d := nameID(p.name)
		if h.m.domPols[d] == nil {
			h.m.domPols[d] = map[K]bool{}
		}
		h.m.domPols[d][p.id] = true
		h.m.pols[p.id] = p
	}
	h.pending(must, may, "a delivery")
	return h.tables()
}

func (h *hist) prune(at time.Time) bool {
	h.note("prune at %s", at.UTC().Format(time.DateTime))
	if !h.ok("M04/prune", h.conn.PruneCerts(ctx, at)) {
		return false
	}
	must := cloneSet(h.m.dirty)
	gone := map[K]bool{}
	for id, c := range h.m.certs {
		for p := c; p != nil; p = p.parent {
			if p.exp.Before(at) {
				gone[id] = true
			}
		}
	}
	for id := range gone {
		delete(h.m.certs, id)
	}
	for d, s := range h.m.domCerts {
		for id := range s {
			if gone[id] {
				must[d] = true
				delete(s, id)
			}
		}
	}
	h.r.Count("certificates pruned", len(gone))
	h.r.Count("prunings", 1)
	h.pending(must, nil, "pruning")
	return h.tables()
}

func b64s(s string) string {
	if len(s) > 24 {
		s = s[:24]
	}
	return base64.StdEncoding.EncodeToString([]byte(s))
}

// tables compares the stored material with the model.
func (h *hist) tables() bool {
	c := h.conn.DB()
	// Certificates.
	rows := dbx.Rows(c, "SELECT cert_id,parent_id,DATE_FORMAT(expiration,'%Y-%m-%d %H:%i:%s'),payload FROM certs")
	seen := map[K]bool{}
	for _, row := range rows {
		id := K([]byte(row[0]))
		x := h.m.certs[id]
		if x == nil {
			h.fail("M03/cert-unexpected", "certificate %x is stored, but should not be", id[:4])
			continue
		}
		if seen[id] {
			h.fail("M03/cert-twice", "certificate %d is stored twice", x.num)
		}
		seen[id] = true
		par := strings.TrimPrefix(row[1], "\x00NULL")
		want := ""
		if x.parent != nil {
			want = string(x.parent.id[:])
		}
		if par != want {
			h.fail("M03/cert-parent", "certificate %d is stored with parent %x instead of %x", x.num, par, want)
		}
		if e := x.exp.Format(time.DateTime); row[2] != e {
			h.fail("M03/cert-expiration", "certificate %d is stored with expiration %s instead of %s", x.num, row[2], e)
		}
		if row[3] != string(x.x.Raw) {
			h.fail("M03/cert-payload", "certificate %d is stored with other bytes", x.num)
		}
	}
	for id, x := range h.m.certs {
		if !seen[id] {
			h.fail("M03/cert-missing", "certificate %d is not stored", x.num)
		}
	}
	// Policies.
	seen = map[K]bool{}
	for _, row := range dbx.Rows(c, "SELECT policy_id,parent_id,payload FROM policies") {
		id := K([]byte(row[0]))
		p := h.m.pols[id]
		if p == nil {
			h.fail("M03/policy-unexpected", "policy %x (%q) is stored, but should not be", id[:4], row[2])
			continue
		}
		if seen[id] {
			h.fail("M03/policy-twice", "policy %d is stored twice", p.num)
		}
		seen[id] = true
		if row[2] != string(p.raw) {
			h.fail("M03/policy-payload", "policy %d is stored with other bytes", p.num)
		}
	}
	for id, p := range h.m.pols {
		if !seen[id] {
			h.fail("M03/policy-missing", "policy %d is not stored", p.num)
		}
	}
	// Relations.
	h.relation("domain_certs", "cert_id", h.m.domCerts)
	h.relation("domain_policies", "policy_id", h.m.domPols)
	// Names.
	got := map[K]string{}
	for _, row := range dbx.Rows(c, "SELECT domain_id,domain_name FROM domains") {
		got[K([]byte(row[0]))] = row[1]
	}
	for d, n := range got {
		if w, ok := h.m.names[d]; !ok || w != n {
			h.fail("M03/domain-name", "domain %x is stored with the name %q instead of %q", d[:4], n, w)
		}
	}
	for d := range h.m.names {
		cs, ps := h.m.material(d)
		if _, ok := got[d]; !ok && len(cs)+len(ps) > 0 {
			h.fail("M03/domain-missing", "domain %q having material is not stored", h.m.names[d])
		}
	}
	h.r.Count("table snapshots compared", 1)
	return !h.bad
}

func (h *hist) relation(table, col string, want map[K]map[K]bool) {
	seen := map[[2]K]bool{}
	for _, row := range dbx.Rows(h.conn.DB(), "SELECT domain_id,"+col+" FROM "+table) {
		p := [2]K{K([]byte(row[0])), K([]byte(row[1]))}
		if seen[p] {
			h.fail("M03/relation-twice", "%s row twice", table)
		}
		seen[p] = true
		// A relation to something that is not stored anymore has no effect.
		stored := h.m.certs[p[1]] != nil || h.m.pols[p[1]] != nil
		if !want[p[0]][p[1]] && stored {
			h.fail("M03/relation-unexpected", "%s relates %s to %x, which does not belong to it", table, h.nm(p[0]), p[1][:4])
		}
	}
	for d, s := range want {
		for id := range s {
			if !seen[[2]K{d, id}] {
				h.fail("M03/relation-missing", "%s does not relate %s to %x", table, h.nm(d), id[:4])
			}
		}
	}
}

// coalesce refreshes the material of the pending domains.
func (h *hist) coalesce() bool {
	h.note("coalesce")
	if !h.ok("M01/coalesce", updater.CoalescePayloadsForDirtyDomains(ctx, h.conn)) {
		return false
	}
	h.m.refresh()
	h.payloads()
	h.pending(h.m.dirty, nil, "refreshing the material")
	return !h.bad
}

func (h *hist) payloads() {
	got := map[K][2]string{}
	for _, row := range dbx.Rows(h.conn.DB(), "SELECT domain_id,cert_ids,cert_ids_id,policy_ids,policy_ids_id FROM domain_payloads") {
		for i := range row {
			row[i] = strings.TrimPrefix(row[i], "\x00NULL")
		}
		k := K([]byte(row[0]))
		got[k] = [2]string{row[1], row[3]}
		for i := 1; i < 5; i += 2 {
			if w := ref.Sha([]byte(row[i])); (row[i] == "") != (row[i+1] == "") || row[i] != "" && row[i+1] != string(w[:]) {
				h.fail("M01/ids-digest", "domain %s: the digest of its identifiers is wrong", h.nm(k))
			}
		}
	}
	for d, w := range h.m.payload {
		if g, ok := got[d]; !ok || g != w {
			h.fail("M01/material", "domain %s (pending %v) has the material certs %x policies %x instead of certs %x policies %x", h.nm(d), h.m.dirty[d], short(g[0]), short(g[1]), short(w[0]), short(w[1]))
		}
	}
	for d, g := range got {
		if _, ok := h.m.payload[d]; !ok {
			h.fail("M01/material-unexpected", "domain %s has the material %x %x, but should have none", h.nm(d), short(g[0]), short(g[1]))
		}
	}
	h.r.Count("domain materials compared", len(got))
}

func short(ids string) (res []string) {
	for i := 0; i+32 <= len(ids); i += 32 {
		res = append(res, ids[i:i+3])
		if len(res) == 12 {
			res = append(res, "...")
			break
		}
	}
	return
}

// bundled limits the number of pending domains taken into the tree at once.
type bundled struct {
	db.Conn
	max uint64
}

func (b *bundled) RetrieveDomainEntriesDirtyBundle(ctx context.Context, c *db.DirtyDomainEntriesCursor, n uint64) (
	[]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {

	return b.Conn.RetrieveDomainEntriesDirtyBundle(ctx, c, min(n, b.max))
}

// publish is the rest of an update cycle.
func (h *hist) publish(cleanup bool) bool {
	conn := h.conn
	size := 0
	if n := len(h.log); n%3 != 0 { // the pending domains in several bundles
		size = 1 + n%5 + len(h.m.dirty)/6
		conn = &bundled{h.conn, uint64(size)}
	}
	h.note("update SMT (bundles of %d), cleanup=%v", size, cleanup)
	if !h.ok("M01/update-smt", updater.UpdateSMT(ctx, conn)) {
		return false
	}
	h.m.publish()
	h.pending(h.m.dirty, nil, "updating the map")
	root, err := h.conn.LoadRoot(ctx)
	if !h.ok("M01/load-root", err) {
		return false
	}
	want := ref.Root(h.m.pub)
	if (root == nil) != (want == nil) || root != nil && !bytes.Equal(root[:], want) {
		h.fail("M01/root", "the published root is %x instead of %x (%d domains)", root, want, len(h.m.pub))
		return false
	}
	h.r.Seen("published roots", want)
	if cleanup {
		if !h.ok("M02/cleanup", h.conn.CleanupDirty(ctx)) {
			return false
		}
		h.m.dirty = map[K]bool{}
		h.pending(h.m.dirty, nil, "completing the cycle")
	}
	return !h.bad
}

// queries checks the read interface of pending and stored domains.
func (h *hist) queries(rng *rand.Rand) bool {
	n, err := h.conn.DirtyCount(ctx)
	if !h.ok("M02/count", err) {
		return false
	}
	if int(n) != len(h.m.dirty) {
		h.fail("M02/count", "%d pending domains reported instead of %d", n, len(h.m.dirty))
	}
	l, err := h.conn.RetrieveDirtyDomains(ctx)
	if !h.ok("M02/list", err) {
		return false
	}
	h.sameSet("M02/list", l, h.m.dirty)
	entry := func(d K) []byte {
		all := map[K]bool{}
		p := h.m.payload[d]
		split(p[0], all)
		split(p[1], all)
		return ref.Glue(all)
	}
	// Bundles of any size.
	for _, size := range []uint64{1, 2, uint64(1 + rng.IntN(40)), 31, 32, 33, uint64(max(1, len(h.m.dirty))), uint64(len(h.m.dirty) + 1), 100000} {
		if size < 8 && len(h.m.dirty) > 120 {
			continue
		}
		var cur *db.DirtyDomainEntriesCursor
		var ids []common.SHA256Output
		for {
			es, next, done, err := h.conn.RetrieveDomainEntriesDirtyBundle(ctx, cur, size)
			if !h.ok("M02/bundle", err) {
				return false
			}
			if uint64(len(es)) > size {
				h.fail("M02/bundle-size", "a bundle has %d entries, at most %d requested", len(es), size)
			}
			for _, e := range es {
				ids = append(ids, e.DomainID)
				if !bytes.Equal(e.Payload, entry(e.DomainID)) {
					h.fail("M02/bundle-entry", "bundle size %d: entry of %s is %x instead of %x", size, h.nm(e.DomainID), short(string(e.Payload)), short(string(entry(e.DomainID))))
				}
			}
			if done || len(es) == 0 {
				if !done && len(ids) < len(h.m.dirty) {
					h.fail("M02/bundle-empty", "an empty bundle (size %d) before the end", size)
				}
				break
			}
			if len(ids) > 4*len(h.m.dirty)+10 {
				h.fail("M02/bundle-endless", "iterating in bundles of %d does not end", size)
				return false
			}
			cur = next
		}
		h.sameSet("M02/bundle-set", ids, h.m.dirty)
		h.r.Count("bundle iterations", 1)
	}
	// Windows.
	step := 1 + rng.IntN(50)
	var ids []common.SHA256Output
	for s := 0; s <= len(h.m.dirty); s += step {
		es, err := h.conn.RetrieveDomainEntriesDirtyOnes(ctx, uint64(s), uint64(s+step))
		if !h.ok("M02/window", err) {
			return false
		}
		for _, e := range es {
			ids = append(ids, e.DomainID)
			if !bytes.Equal(e.Payload, entry(e.DomainID)) {
				h.fail("M02/window-entry", "entry of %s differs", h.nm(e.DomainID))
			}
		}
	}
	h.sameSet("M02/window-set", ids, h.m.dirty)
	// Chosen domains.
	var ask []common.SHA256Output
	want := map[K]bool{}
	for d := range h.m.names {
		if rng.IntN(2) == 0 {
			ask = append(ask, d)
			if _, ok := h.m.payload[d]; ok {
				want[d] = true
			}
		}
	}
	sort.Slice(ask, func(i, j int) bool { return bytes.Compare(ask[i][:], ask[j][:]) < 0 })
	rng.Shuffle(len(ask), func(i, j int) { ask[i], ask[j] = ask[j], ask[i] })
	ask = append(ask, K{1, 2, 3})
	es, err := h.conn.RetrieveDomainEntries(ctx, ask)
	if !h.ok("M02/entries", err) {
		return false
	}
	ids = nil
	for _, e := range es {
		if len(e.Payload) == 0 {
			continue // no material
		}
		ids = append(ids, e.DomainID)
		if !bytes.Equal(e.Payload, entry(e.DomainID)) {
			h.fail("M02/entries-entry", "entry of %s differs", h.nm(e.DomainID))
		}
	}
	h.sameSet("M02/entries-set", ids, want)
	for _, d := range ask {
		p := h.m.payload[d]
		id, c, err := h.conn.RetrieveDomainCertificatesIDs(ctx, d)
		if !h.ok("M01/cert-ids", err) {
			return false
		}
		pid, pc, err := h.conn.RetrieveDomainPoliciesIDs(ctx, d)
		if !h.ok("M01/policy-ids", err) {
			return false
		}
		dig := func(s string) (k K) {
			if s != "" {
				k = ref.Sha([]byte(s))
			}
			return
		}
		if string(c) != p[0] || string(pc) != p[1] || id != dig(p[0]) || pid != dig(p[1]) {
			h.fail("M01/ids-query", "the identifiers returned for %s differ from its material", h.nm(d))
		}
	}
	h.existence(rng)
	return !h.bad
}

func (h *hist) sameSet(key string, got []common.SHA256Output, want map[K]bool) {
	seen := map[K]bool{}
	for _, k := range got {
		if seen[k] {
			h.fail(key, "domain %s returned more than once", h.nm(k))
		}
		seen[k] = true
		if !want[k] {
			h.fail(key, "domain %s returned, but does not belong", h.nm(k))
		}
	}
	for k := range want {
		if !seen[k] {
			h.fail(key, "domain %s not returned (%d of %d)", h.nm(k), len(got), len(want))
		}
	}
}

// existence asks for identifiers, known and unknown, repeated, in any order.
func (h *hist) existence(rng *rand.Rand) {
	var ids []common.SHA256Output
	n := 1 + rng.IntN(60)
	for i := 0; i < n; i++ {
		switch rng.IntN(4) {
		case 0, 1:
			ids = append(ids, h.u.certs[rng.IntN(len(h.u.certs))].id)
		case 2:
			if len(h.u.pols) > 0 {
				ids = append(ids, h.u.pols[rng.IntN(len(h.u.pols))].id)
			}
		default:
			ids = append(ids, K{byte(rng.Uint32()), byte(rng.Uint32())})
		}
	}
	checkReads(h, ids)
}

func checkReads(h *hist, ids []common.SHA256Output) {
	ce, err := h.conn.CheckCertsExist(ctx, ids)
	if !h.ok("M03/certs-exist", err) {
		return
	}
	pe, err := h.conn.CheckPoliciesExist(ctx, ids)
	if !h.ok("M03/policies-exist", err) {
		return
	}
	if len(ce) != len(ids) || len(pe) != len(ids) {
		h.fail("M03/exist-length", "%d answers and %d answers for %d identifiers", len(ce), len(pe), len(ids))
		return
	}
	for i, id := range ids {
		if ce[i] != (h.m.certs[id] != nil) {
			h.fail("M03/certs-exist", "identifier %d of %d: certificate reported as existing=%v", i, len(ids), ce[i])
			break
		}
		if pe[i] != (h.m.pols[id] != nil) {
			h.fail("M03/policies-exist", "identifier %d of %d: policy reported as existing=%v", i, len(ids), pe[i])
			break
		}
	}
	h.r.Max("identifiers in one existence query", len(ids))
	type q struct {
		n string
		f func(context.Context, []common.SHA256Output) ([][]byte, error)
		c, p bool
	}
	for _, x := range []q{{"certificates", h.conn.RetrieveCertificatePayloads, true, false},
		{"policies", h.conn.RetrievePolicyPayloads, false, true},
		{"certificates-or-policies", h.conn.RetrieveCertificateOrPolicyPayloads, true, true}} {
		got, err := x.f(ctx, ids)
		if !h.ok("M03/payloads-"+x.n, err) {
			return
		}
		if len(got) != len(ids) {
			h.fail("M03/payloads-"+x.n, "%d payloads for %d identifiers", len(got), len(ids))
			continue
		}
		for i, id := range ids {
			var want []byte
			if c := h.m.certs[id]; c != nil && x.c {
				want = c.x.Raw
			}
			if p := h.m.pols[id]; p != nil && x.p {
				want = p.raw
			}
			if !bytes.Equal(got[i], want) {
				h.fail("M03/payloads-"+x.n, "identifier %d of %d: payload of %d bytes instead of %d", i, len(ids), len(got[i]), len(want))
				break
			}
		}
		h.r.Count("payloads compared", len(ids))
	}
}
