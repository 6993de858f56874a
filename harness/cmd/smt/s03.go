package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sort"

	"github.com/netsec-ethz/fpki/pkg/common"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// proof is what the tree hands out for one key.
type proof struct {
	key      K
	ap       [][]byte
	included bool
	pk, pv   []byte
	// compressed form
	bitmap []byte
	cap    [][]byte
	length int
}

func getProof(t *trie.Trie, k K) (p proof, err error) {
	p.key = k
	p.ap, p.included, p.pk, p.pv, err = t.MerkleProof(ctx, k[:])
	if err != nil {
		return
	}
	var inc bool
	var pk, pv []byte
	p.bitmap, p.cap, p.length, inc, pk, pv, err = t.MerkleProofCompressed(ctx, k[:])
	if err == nil && (inc != p.included || !bytes.Equal(pk, p.pk) || !bytes.Equal(pv, p.pv) || p.length != len(p.ap)) {
		err = fmt.Errorf("compressed and plain proofs disagree")
	}
	return
}

// domainVerify asks the client side verification routine.
func domainVerify(root []byte, ap [][]byte, key K, presence bool, value []byte, pk, pv []byte) bool {
	resp := &mapcommon.MapServerResponse{
		DomainEntry: &mapcommon.DomainEntry{DomainID: common.SHA256Output(key)},
		PoI:         mapcommon.PoI{Root: root, Proof: ap, ProofKey: pk, ProofValue: pv},
	}
	if presence {
		resp.PoI.ProofType = mapcommon.PoP
		copy(resp.DomainEntry.DomainValue[:], value)
	}
	typ, ok, err := prover.VerifyProofByDomain(resp)
	if ok && err == nil && (typ == mapcommon.PoP) != presence {
		return false
	}
	return ok && err == nil
}

// checkProof: the honest proof of a key is what the contents demand, and verifies.
func checkProof(r *lib.R, t *trie.Trie, m map[K]K, k K, key string, hist any) bool {
	var p proof
	var err error
	if !r.NoPanic(key+"/panic", fmt.Sprintf("proof for %x", k), func() { p, err = getProof(t, k) }) {
		return false
	}
	if err != nil {
		r.Violation(key+"/error", fmt.Sprintf("no proof for %x: %v", k, trunc(err)), hist)
		return false
	}
	v, present := m[k]
	if p.included != present || (present && !bytes.Equal(p.pv, v[:])) {
		r.Violation(key+"/wrong", fmt.Sprintf("proof for %x claims present=%v value=%x, truth %v %x", k, p.included, p.pv, present, v), hist)
		return false
	}
	ok := true
	if present {
		ok = trie.VerifyInclusion(t.Root, p.ap, k[:], p.pv) &&
			t.VerifyInclusionC(p.bitmap, k[:], p.pv, p.cap, p.length) &&
			domainVerify(t.Root, p.ap, k, true, v[:], p.pk, p.pv)
	} else if len(t.Root) > 0 {
		ok = trie.VerifyNonInclusion(t.Root, p.ap, k[:], p.pv, p.pk) &&
			t.VerifyNonInclusionC(p.cap, p.length, p.bitmap, k[:], p.pv, p.pk) &&
			domainVerify(t.Root, p.ap, k, false, nil, p.pk, p.pv)
	} else {
		ok = trie.VerifyNonInclusion(t.Root, p.ap, k[:], p.pv, p.pk) &&
			t.VerifyNonInclusionC(p.cap, p.length, p.bitmap, k[:], p.pv, p.pk)
	}
	if !ok {
		r.Violation(key+"/rejected", fmt.Sprintf("the honest proof for %x (present=%v, %d levels) does not verify", k, present, len(p.ap)), hist)
		return false
	}
	return true
}

func runS03(r *lib.R) {
	r.Rule("a case is one proof offered to the verification routines (plain, compressed, client side): honest ones must be accepted; a forged or damaged one may be accepted only if the claim it makes (key present with value / key absent under that root) is true of the reference map; forgeries: field flips, swaps of siblings, keys, values and roots between proofs, length changes, presence offered as absence, interior nodes offered as leaves, spliced preimages; distinct by claim, proof and kind of damage")
	r.Assume("SHA-256 is collision free", "keys are digests: no two differ in their last bit only")
	exchangedHalves(r, r.Rand("exchanged"))
	r.Par(r.N(120, 4000), func(i int) { proofs(r, i, r.Rand("proofs", i)) })
	r.Par(r.N(120, 2000), func(i int) { splice(r, i, r.Rand("splice", i)) })
	r.Par(r.N(150, 4000), func(i int) { pastRoots(r, i, r.Rand("past", i)) })
}

// pastRoots: while the states of several updates are pending together, a proof given for any of them
// is that of its own contents, in both forms. (Nodes of a state that only shortcuts moved up or down
// are not kept for it: then there is an error and no proof.)
func pastRoots(r *lib.R, id int, rng *rand.Rand) {
	pool := keyPool(rng, 3+rng.IntN(12))
	vals := values(rng, 4)
	st := newStore()
	limit := []int{-1, 233, 0}[rng.IntN(3)]
	t := open(nil, st, limit)
	cur := map[K]K{}
	type state struct {
		root []byte
		m    map[K]K
	}
	states := []state{{nil, map[K]K{}}}
	hist := []string{fmt.Sprintf("case %d limit %d", id, limit)}
	base := rng.IntN(2) == 0
	for s := 0; s < 2+rng.IntN(5); s++ {
		b := nextBatch(rng, pool, vals, cur, states[rng.IntN(len(states))].m)
		ks, vs := b.slices(0)
		root, err := t.AtomicUpdate(ctx, ks, vs)
		if err != nil {
			r.Violation("past/update", "an update with a healthy store failed: "+trunc(err), hist)
			return
		}
		b.apply(cur)
		hist = append(hist, fmt.Sprintf("atomic update%v", b))
		if s == 0 && base {
			if err := t.Commit(ctx); err != nil {
				r.Violation("past/commit", "commit with a healthy store failed: "+trunc(err), hist)
				return
			}
			hist = append(hist, "commit")
			if rng.IntN(2) == 0 {
				t = open(root, st, limit)
				hist = append(hist, "reopen")
			}
		}
		states = append(states, state{bytes.Clone(root), clone(cur)})
		for at, x := range states {
			for _, k := range pool {
				if !bytes.Equal(x.root, modelRoot(x.m)) {
					r.Violation("past/root", "the root of an update is not that of its contents", hist)
					return
				}
				v, present := x.m[k]
				what := fmt.Sprintf("of root %d of %d for key %x", at, len(states)-1, k[:4])
				ap, inc, pk, pv, err := t.MerkleProofR(ctx, k[:], x.root)
				if err != nil {
					if at == len(states)-1 {
						r.Violation("past/error", "no proof "+what+": "+trunc(err), hist)
						return
					}
					r.Count("pending states without a proof", 1)
					continue
				}
				bm, cap, length, cinc, cpk, cpv, err := t.MerkleProofCompressedR(ctx, k[:], x.root)
				if err != nil || cinc != inc || !bytes.Equal(cpk, pk) || !bytes.Equal(cpv, pv) || length != len(ap) {
					r.Violation("past/compressed", fmt.Sprintf("the compressed proof %s is another one (%v)", what, err), hist)
					return
				}
				if inc != present || present && !bytes.Equal(pv, v[:]) {
					r.Violation("past/wrong", fmt.Sprintf("the proof %s claims present=%v value %x, truth %v %x", what, inc, pv, present, v), hist)
					return
				}
				if present {
					ok := trie.VerifyInclusion(x.root, ap, k[:], pv)
					// The compressed form is verified against the current root only.
					if bytes.Equal(x.root, t.Root) {
						ok = ok && t.VerifyInclusionC(bm, k[:], pv, cap, length)
					}
					if !ok {
						r.Violation("past/rejected", "the proof "+what+" does not verify", hist)
						return
					}
				} else if len(x.root) > 0 && !trie.VerifyNonInclusion(x.root, ap, k[:], pv, pk) {
					r.Violation("past/rejected", "the proof "+what+" does not verify", hist)
					return
				}
				r.Count("proofs for pending states", 1)
				r.Case(true, "past", x.root, k, present)
			}
		}
	}
}

func proofs(r *lib.R, id int, rng *rand.Rand) {
	n := []int{0, 1, 2, 3, 5, 12, 40, 150}[id%8]
	pool := keyPool(rng, n+8)
	vals := values(rng, 5)
	m := map[K]K{}
	for _, k := range pool[:n] {
		m[k] = vals[rng.IntN(len(vals))]
	}
	st := newStore()
	t := open(nil, st, -1)
	if n > 0 {
		var b batch
		for _, k := range sortedKeys(m) {
			b.ops = append(b.ops, op{key: k, val: m[k]})
		}
		ks, vs := b.slices(0)
		if _, err := t.Update(ctx, ks, vs); err != nil {
			r.Violation("proof/update", trunc(err), nil)
			return
		}
		if rng.IntN(2) == 0 {
			t.Commit(ctx)
			t = open(t.Root, st, -1)
		}
	}
	root := t.Root
	// another tree: a different state with mostly the same keys
	m2 := clone(m)
	for i, k := range pool {
		if i%3 == 0 {
			if _, ok := m2[k]; ok && rng.IntN(2) == 0 {
				delete(m2, k)
			} else {
				m2[k] = vals[rng.IntN(len(vals))]
			}
		}
	}
	root2 := modelRoot(m2)

	var ps []proof
	for _, k := range pool {
		if !checkProof(r, t, m, k, "honest", nil) {
			return
		}
		p, _ := getProof(t, k)
		ps = append(ps, p)
		r.Case(true, "honest", root, k[:])
		r.Count("honest proofs", 1)
	}
	if n == 0 {
		return
	}
	for i := 0; i < 80; i++ {
		forge(r, rng, t, m, m2, root, root2, ps, pool, vals)
	}
	for j, p := range ps {
		if j >= 10 {
			break
		}
		crossClaims(r, t, m, root, p, ps, vals)
	}
}

// truth decides a claim from the reference map.
func truth(m map[K]K, key []byte, presence bool, value []byte) bool {
	if len(key) != 32 {
		return false
	}
	v, ok := m[*(*K)(key)]
	if presence {
		return ok && bytes.Equal(v[:], value)
	}
	return !ok
}

// offer presents a proof to the plain routines.
func offer(r *lib.R, kind string, m map[K]K, root []byte, ap [][]byte, key []byte, presence bool, value, pk []byte, mustReject bool) {
	var got bool
	desc := fmt.Sprintf("%s: presence=%v key=%x value=%x proofKey=%x levels=%d", kind, presence, key, value, pk, len(ap))
	r.NoPanic("forged/panic", "verifying a damaged proof ("+desc+")", func() {
		if presence {
			got = trie.VerifyInclusion(root, ap, key, value)
		} else {
			got = trie.VerifyNonInclusion(root, ap, key, value, pk)
		}
	})
	r.Case(true, kind, desc, bytes.Join(ap, nil))
	r.Count("forged proofs offered", 1)
	if got && (mustReject || !truth(m, key, presence, value)) {
		r.Violation("forged/accepted/"+kind, "a proof that does not establish its claim is accepted: "+desc, nil)
	}
	if got {
		r.Count("damaged proofs still establishing a true claim", 1)
	}
	if len(key) == 32 {
		r.NoPanic("forged/panic-client", "client side verification of a damaged proof ("+desc+")", func() {
			got = domainVerify(root, ap, K(key), presence, value, pk, value)
		})
		var v32 [32]byte
		copy(v32[:], value)
		if got && (mustReject || !truth(m, key, presence, v32[:])) {
			r.Violation("forged/accepted-client/"+kind, "client side verification accepts a proof that does not establish its claim: "+desc, nil)
		}
	}
}

// offerC presents a proof to the compressed form routines of a tree with that root.
func offerC(r *lib.R, kind string, m map[K]K, root []byte, bitmap []byte, ap [][]byte, length int, key []byte, presence bool, value, pk []byte, mustReject bool) {
	t := open(root, newStore(), -1)
	var got bool
	desc := fmt.Sprintf("%s (compressed): presence=%v key=%x value=%x proofKey=%x length=%d siblings=%d bitmap=%x", kind, presence, key, value, pk, length, len(ap), bitmap)
	r.NoPanic("forged/panic-compressed", "verifying a damaged proof ("+desc+")", func() {
		if presence {
			got = t.VerifyInclusionC(bitmap, key, value, ap, length)
		} else {
			got = t.VerifyNonInclusionC(ap, length, bitmap, key, value, pk)
		}
	})
	r.Case(true, kind, desc, bytes.Join(ap, nil))
	r.Count("forged proofs offered", 1)
	if got && (mustReject || !truth(m, key, presence, value)) {
		r.Violation("forged/accepted-compressed/"+kind, "a proof that does not establish its claim is accepted: "+desc, nil)
	}
}

func cp(ap [][]byte) [][]byte {
	n := make([][]byte, len(ap))
	for i := range ap {
		n[i] = bytes.Clone(ap[i])
	}
	return n
}

func flip(rng *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	if len(b) == 0 {
		return []byte{1}
	}
	b[rng.IntN(len(b))] ^= 1 << rng.IntN(8)
	return b
}

func forge(r *lib.R, rng *rand.Rand, t *trie.Trie, m, m2 map[K]K, root, root2 []byte, ps []proof, pool, vals []K) {
	p := ps[rng.IntN(len(ps))]
	q := ps[rng.IntN(len(ps))]
	value := p.pv
	// which claim is made
	presence := p.included
	claim := p.key[:]
	ap, bitmap, cap_, length := cp(p.ap), bytes.Clone(p.bitmap), cp(p.cap), p.length
	pk := bytes.Clone(p.pk)
	mm, rt := m, bytes.Clone(root)
	must := false
	var kind string
	switch rng.IntN(17) {
	case 0:
		kind = "other root"
		rt, mm = root2, m2
		if rt == nil {
			return
		}
		// unless both states agree on everything this proof can see, it must fail; the claim's truth decides
	case 1:
		kind = "root bit"
		rt, must = flip(rng, rt), true
	case 2:
		kind = "sibling bit"
		if len(ap) == 0 {
			return
		}
		i := rng.IntN(len(ap))
		ap[i] = flip(rng, ap[i])
		must = true
		if len(cap_) > 0 {
			j := rng.IntN(len(cap_))
			cap_[j] = flip(rng, cap_[j])
		} else {
			cap_ = append(cap_, []byte{1})
		}
	case 3:
		kind = "value bit"
		if !presence && len(p.pk) == 0 {
			return
		}
		value, must = flip(rng, value), true
	case 4:
		kind = "key bit"
		claim = flip(rng, claim)
	case 5:
		kind = "key of another proof"
		claim = q.key[:]
	case 6:
		kind = "presence as absence"
		if !presence {
			return
		}
		presence = false
		pk, must = bytes.Clone(claim), true
		if rng.IntN(3) == 0 {
			pk = nil
		}
	case 7:
		kind = "absence as presence"
		if presence {
			return
		}
		presence, must = true, true
		if rng.IntN(2) == 0 {
			value = vals[rng.IntN(len(vals))][:]
		}
		if rng.IntN(3) == 0 {
			value = []byte{0}
		}
	case 8:
		kind = "level added"
		x := make([]byte, 32)
		if rng.IntN(2) == 0 {
			x = []byte{0}
		}
		i := rng.IntN(len(ap) + 1)
		ap = append(ap[:i:i], append([][]byte{x}, ap[i:]...)...)
		length++
		bitmap = append(bitmap, 0)
		must = true
	case 9:
		kind = "level removed"
		if len(ap) == 0 {
			return
		}
		i := rng.IntN(len(ap))
		ap = append(ap[:i:i], ap[i+1:]...)
		length--
		must = true
	case 10:
		kind = "levels swapped"
		if len(ap) < 2 {
			return
		}
		i, j := rng.IntN(len(ap)), rng.IntN(len(ap))
		if bytes.Equal(ap[i], ap[j]) {
			return
		}
		ap[i], ap[j] = ap[j], ap[i]
		must = true
		if len(cap_) >= 2 {
			cap_[0], cap_[1] = cap_[1], cap_[0]
		} else {
			cap_ = nil
		}
	case 11:
		kind = "path of another proof"
		ap, bitmap, cap_, length = cp(q.ap), bytes.Clone(q.bitmap), cp(q.cap), q.length
	case 12:
		kind = "proof key replaced"
		if presence {
			return
		}
		pk = bytes.Clone(q.key[:])
		if q.included {
			value = q.pv
		}
		if rng.IntN(2) == 0 {
			ap, bitmap, cap_, length = cp(q.ap), bytes.Clone(q.bitmap), cp(q.cap), q.length
		}
	case 13:
		kind = "boundary moved between key and value"
		if presence && len(value) == 32 {
			n := 1 + rng.IntN(3)
			if rng.IntN(2) == 0 {
				value = append(bytes.Clone(claim[32-n:]), value...)
				claim = claim[:32-n]
			} else {
				claim = append(bytes.Clone(claim), value[:n]...)
				value = value[n:]
			}
		} else if !presence && len(pk) == 32 {
			n := 1 + rng.IntN(3)
			value = append(bytes.Clone(pk[32-n:]), value...)
			pk = pk[:32-n]
		} else {
			return
		}
		must = true
	case 14:
		kind = "odd lengths"
		switch rng.IntN(6) {
		case 0:
			claim = claim[:rng.IntN(32)]
		case 1:
			pk = bytes.Clone(claim[:rng.IntN(32)])
			presence = false
		case 2:
			value = value[:rng.IntN(len(value)+1)]
			must = len(value) != 32 && presence
		case 3:
			for len(ap) < 300 {
				ap = append(ap, make([]byte, 32))
			}
			length = 300
			must = true
		case 4:
			if len(ap) > 0 {
				ap[rng.IntN(len(ap))] = nil
			}
			bitmap = nil
		case 5:
			claim = nil
		}
	case 15:
		kind = "bitmap and sibling count"
		bitmap = flip(rng, bitmap)
		switch rng.IntN(4) {
		case 0:
			cap_ = nil
		case 1:
			bitmap = bitmap[:rng.IntN(len(bitmap))]
		case 2:
			length += rng.IntN(300)
		case 3:
			length = -1 - rng.IntN(3)
		}
	case 16:
		kind = "empty root"
		rt = nil
		mm = map[K]K{}
		if rng.IntN(2) == 0 {
			rt = []byte{}
		}
	}
	offer(r, kind, mm, rt, ap, claim, presence, value, pk, must && kind != "bitmap and sibling count")
	// the compressed routines see the same damage where it applies
	switch kind {
	case "level removed", "levels swapped", "sibling bit":
		must = false // the compressed proof may be damaged differently: the truth of the claim decides
	}
	offerC(r, kind, mm, rt, bitmap, cap_, length, claim, presence, value, pk, must && kind != "level added")
}

// crossClaims makes every kind of claim with an honest path, for all keys and values at hand.
func crossClaims(r *lib.R, t *trie.Trie, m map[K]K, root []byte, p proof, ps []proof, vals []K) {
	for i, q := range ps {
		if i >= 8 {
			break
		}
		for _, v := range vals[:2] {
			offer(r, "cross", m, root, p.ap, q.key[:], true, v[:], nil, false)
			offer(r, "cross", m, root, p.ap, q.key[:], false, v[:], p.key[:], false)
		}
		offer(r, "cross", m, root, p.ap, q.key[:], true, p.pv, nil, false)
		offer(r, "cross", m, root, p.ap, q.key[:], false, p.pv, p.pk, false)
		offer(r, "cross", m, root, p.ap, q.key[:], false, p.pv, p.key[:], false)
		offer(r, "cross", m, root, p.ap, q.key[:], false, nil, nil, false)
	}
}

// interior nodes of the reference tree with the siblings above them
type inode struct {
	depth  int
	prefix K
	l, r   []byte
	ap     [][]byte // deepest first
}

func interiors(keys []K, m map[K]K, depth int, above [][]byte, prefix K, out *[]inode) {
	if len(keys) < 2 {
		return
	}
	i := sort.Search(len(keys), func(i int) bool { return bit(keys[i][:], depth) })
	l, rr := refRoot(keys[:i], m, 255-depth), refRoot(keys[i:], m, 255-depth)
	if l == nil {
		l = []byte{0}
	}
	if rr == nil {
		rr = []byte{0}
	}
	*out = append(*out, inode{depth: depth, prefix: prefix, l: l, r: rr, ap: cp(above)})
	right := prefix
	right[depth/8] |= 1 << (7 - uint(depth%8))
	interiors(keys[:i], m, depth+1, append([][]byte{rr}, above...), prefix, out)
	interiors(keys[i:], m, depth+1, append([][]byte{l}, above...), right, out)
}

// splice offers interior nodes as leaves, and shifts the boundary between the parts of hash
// inputs. The contents are chosen so that the needed byte coincidences do occur.
func splice(r *lib.R, id int, rng *rand.Rand) {
	for try := 0; try < 12; try++ {
		pool := keyPool(rng, 2+rng.IntN(5))
		m := map[K]K{}
		for _, k := range pool {
			m[k] = values(rng, 1)[0]
		}
		ks := sortedKeys(m)
		var ns []inode
		interiors(ks, m, 0, nil, K{}, &ns)
		root := modelRoot(m)
		for _, n := range ns {
			pre := append(bytes.Clone(n.l), n.r...)
			absentish := append([]K{}, pool...)
			// interior node as a leaf: preimage = pk | value | height byte
			for _, cut := range []int{32, 31, 33, 1, 16} {
				if cut+1 >= len(pre) {
					continue
				}
				if pre[len(pre)-1] == byte(256-n.depth) {
					r.Count("leaf look-alike nodes", 1)
					for _, k := range absentish {
						offer(r, "interior node as leaf", m, root, n.ap, k[:], false, pre[cut:len(pre)-1], pre[:cut], false)
						offer(r, "interior node as leaf", m, root, n.ap, k[:], true, pre[cut:len(pre)-1], nil, false)
					}
					if cut == 32 {
						offer(r, "interior node as leaf", m, root, n.ap, pre[:32], true, pre[32:len(pre)-1], nil, false)
					}
				}
			}
			// empty subtree claimed below: preimage = {0} | rest, or rest | {0}
			splicedKind := "spliced empty subtree"
			if len(pre) == 33 && pre[0] == 0 && pre[32] == 0 {
				// Recorded as known: {0}|hash ending in 0 reads as hash|{0} too.
				splicedKind = "empty half exchanged"
			}
			if len(pre) == 33 && splicedKind != "empty half exchanged" && rng.IntN(16) > 0 {
				continue // long chains have hundreds of these
			}
			if pre[0] == 0 {
				r.Count("empty look-alike nodes", 1)
				ap := append([][]byte{pre[1:]}, n.ap...)
				for _, k := range absentish {
					offer(r, splicedKind, m, root, ap, k[:], false, nil, nil, false)
				}
			}
			if pre[len(pre)-1] == 0 {
				ap := append([][]byte{pre[:len(pre)-1]}, n.ap...)
				for _, k := range absentish {
					offer(r, splicedKind, m, root, ap, k[:], false, nil, nil, false)
				}
			}
			// compressed forms of the same
			if n.depth == 0 && pre[len(pre)-1] == 0 {
				for _, k := range absentish {
					offerC(r, "interior node as leaf", m, root, []byte{0}, nil, 0, k[:], false, pre[32:len(pre)-1], pre[:32], false)
				}
			}
			if n.depth == 0 && pre[0] == 0 {
				for _, k := range absentish {
					offerC(r, splicedKind, m, root, []byte{0x80}, [][]byte{pre[1:]}, 1, k[:], false, nil, nil, false)
				}
			}
		}
		// leaves as interior nodes
		for _, k := range ks {
			v := m[k]
			d := 0
			for ; d < 256 && len(refSub(ks, k, d)) > 1; d++ {
			}
			leaf := append(append(bytes.Clone(k[:]), v[:]...), byte(256-d))
			ap := pathTo(ks, m, k, d)
			if leaf[0] == 0 || leaf[len(leaf)-1] == 0 {
				side := leaf[1:]
				if leaf[0] != 0 {
					side = leaf[:len(leaf)-1]
				}
				r.Count("leaf offered as interior", 1)
				for _, q := range pool {
					offer(r, "leaf as interior node", m, root, append([][]byte{side}, ap...), q[:], false, nil, nil, false)
				}
				offer(r, "leaf as interior node", m, root, append([][]byte{side}, ap...), k[:], false, nil, nil, false)
			}
		}
	}
}

// exchangedHalves looks for contents in which a node with one empty half has the preimage
// {0}|h with h ending in a zero byte (or h|{0} with h starting with one), and then claims that the
// other half is the empty one.
func exchangedHalves(r *lib.R, rng *rand.Rand) {
	for try := 0; try < 4000; try++ {
		var a K
		for i := range a {
			a[i] = byte(rng.Uint32())
		}
		b := a
		b[1] ^= 0x80 // the keys part at bit 8: the nodes above have one empty half
		m := map[K]K{a: {1: byte(try)}, b: {2: byte(try >> 8)}}
		var ns []inode
		interiors(sortedKeys(m), m, 0, nil, K{}, &ns)
		root := modelRoot(m)
		for _, n := range ns {
			pre := append(bytes.Clone(n.l), n.r...)
			if len(pre) != 33 || pre[0] != 0 || pre[32] != 0 {
				continue
			}
			r.Count("nodes with exchangeable halves", 1)
			for _, side := range [][]byte{pre[1:], pre[:32]} {
				offer(r, "empty half exchanged", m, root, append([][]byte{side}, n.ap...), a[:], false, nil, nil, false)
			}
			if n.depth == 0 {
				for _, side := range [][]byte{pre[1:], pre[:32]} {
					offerC(r, "empty half exchanged", m, root, []byte{0x80}, [][]byte{side}, 1, a[:], false, nil, nil, false)
				}
			}
		}
		if r.Counter("nodes with exchangeable halves") > 40 {
			return
		}
	}
}

func refSub(ks []K, k K, d int) []K {
	var out []K
	for _, x := range ks {
		same := true
		for i := 0; i < d; i++ {
			if bit(x[:], i) != bit(k[:], i) {
				same = false
				break
			}
		}
		if same {
			out = append(out, x)
		}
	}
	return out
}

func pathTo(ks []K, m map[K]K, k K, d int) [][]byte {
	var ap [][]byte
	for i := 0; i < d; i++ {
		sub := refSub(ks, k, i)
		var other []K
		for _, x := range sub {
			if bit(x[:], i) != bit(k[:], i) {
				other = append(other, x)
			}
		}
		h := refRoot(other, m, 255-i)
		if h == nil {
			h = []byte{0}
		}
		ap = append([][]byte{h}, ap...)
	}
	return ap
}
