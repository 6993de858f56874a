package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"sync"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

type K = [32]byte

// ---- reference definition of the root, independent of the implementation

func sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func bit(k []byte, i int) bool { return k[i/8]>>(7-uint(i%8))&1 == 1 }

// refRoot: nothing for the empty set, a leaf at the highest subtree having one key only, and
// otherwise the hash of both halves, {0} standing for an empty half.
func refRoot(keys []K, m map[K]K, height int) []byte {
	switch len(keys) {
	case 0:
		return nil
	case 1:
		v := m[keys[0]]
		return sha(keys[0][:], v[:], []byte{byte(height)})
	}
	b := 256 - height
	i := sort.Search(len(keys), func(i int) bool { return bit(keys[i][:], b) })
	l, r := refRoot(keys[:i], m, height-1), refRoot(keys[i:], m, height-1)
	if l == nil {
		l = []byte{0}
	}
	if r == nil {
		r = []byte{0}
	}
	return sha(l, r)
}

func sortedKeys(m map[K]K) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i][:], ks[j][:]) < 0 })
	return ks
}

func modelRoot(m map[K]K) []byte { return refRoot(sortedKeys(m), m, 256) }

// ---- node store with fault injection

var errInjected = errors.New("injected store failure")

type memStore struct {
	mu     sync.Mutex
	nodes  map[K][]byte
	calls  int
	failAt int // 1-based index of the failing call, 0 none
	after  bool
	reads, writes, deletes int
	failed string
}

func newStore() *memStore { return &memStore{nodes: map[K][]byte{}} }

func (s *memStore) clone() *memStore {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := newStore()
	for k, v := range s.nodes {
		n.nodes[k] = v
	}
	return n
}

func (s *memStore) step(kind string) error {
	s.calls++
	if s.failAt != 0 && s.calls == s.failAt {
		s.failed = kind
		return errInjected
	}
	return nil
}

func (s *memStore) Close() error { return nil }

func (s *memStore) RetrieveTreeNode(_ context.Context, key common.SHA256Output) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reads++
	if err := s.step("read"); err != nil {
		return nil, err
	}
	v, ok := s.nodes[key]
	if !ok {
		return nil, nil
	}
	return append([]byte(nil), v...), nil
}

func (s *memStore) UpdateTreeNodes(_ context.Context, recs []*db.TreeNodeRecord) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes++
	if err := s.step("write"); err != nil {
		return 0, err
	}
	for _, r := range recs {
		s.nodes[r.Key] = append([]byte(nil), r.Value...)
	}
	return len(recs), nil
}

func (s *memStore) DeleteTreeNodes(_ context.Context, keys []common.SHA256Output) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.deletes++
	if err := s.step("delete"); err != nil {
		return 0, err
	}
	n := 0
	for _, k := range keys {
		if _, ok := s.nodes[k]; ok {
			n++
			delete(s.nodes, k)
		}
	}
	return n, nil
}

// ---- history generation

// keyPool makes keys of different nearness: unrelated ones, clusters sharing a long prefix
// (so that they part at any bit, in particular around node batch boundaries), extreme keys.
func keyPool(r *rand.Rand, n int) []K {
	var ks []K
	seen := map[K]bool{}
	// Keys are digests of names. Two keys differing in their last bit only are out of reach for
	// digests, and excluded: a leaf at depth 256 and a leaf at depth 0 have the same encoding.
	add := func(k K) {
		twin := k
		twin[31] ^= 1
		if !seen[k] && !seen[twin] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	for len(ks) < n {
		switch c := r.IntN(10); {
		case c < 4 || len(ks) == 0:
			var k K
			for i := range k {
				k[i] = byte(r.Uint32())
			}
			add(k)
		case c < 8: // flip bits of an existing key at a chosen depth
			k := ks[r.IntN(len(ks))]
			d := r.IntN(256)
			if r.IntN(3) == 0 {
				d = 4*r.IntN(64) + r.IntN(2)*3
			}
			if r.IntN(4) == 0 {
				d = 255 - r.IntN(6)
			}
			k[d/8] ^= 1 << (7 - uint(d%8))
			if r.IntN(2) == 0 { // also randomise everything below
				for i := d + 1; i < 256; i++ {
					if r.IntN(2) == 0 {
						k[i/8] ^= 1 << (7 - uint(i%8))
					}
				}
			}
			add(k)
		case c == 8:
			add(K{})
		default:
			var k K
			for i := range k {
				k[i] = 0xff
			}
			k[31] -= byte(r.IntN(3))
			add(k)
		}
	}
	return ks
}

func values(r *rand.Rand, n int) []K {
	vs := make([]K, n)
	for i := range vs {
		for j := range vs[i] {
			vs[i][j] = byte(r.Uint32())
		}
	}
	if n > 3 {
		vs[n-1] = K{} // all zero bytes is a value like any other
		vs[n-2] = K{1: 1}
	}
	return vs
}

type op struct {
	key K
	val K
	del bool
}

type batch struct {
	ops    []op
	kinds  string
	atomic bool
}

// nextBatch makes a batch of distinct keys, preferring the awkward cases.
func nextBatch(r *rand.Rand, pool, vals []K, cur, prev map[K]K) batch {
	n := 1 + r.IntN(4)
	if r.IntN(4) == 0 {
		n = 1 + r.IntN(len(pool))
	}
	style := r.IntN(12)
	perm := r.Perm(len(pool))
	if n > len(perm) {
		n = len(perm)
	}
	var b batch
	kinds := map[byte]bool{}
	if style == 11 { // delete everything that is there
		for _, k := range sortedKeys(cur) {
			b.ops = append(b.ops, op{key: k, del: true})
		}
		kinds['Z'] = true
		if len(b.ops) > 0 {
			b.kinds = "Z"
			return b
		}
	}
	for _, i := range perm[:n] {
		k := pool[i]
		_, present := cur[k]
		o := op{key: k, val: vals[r.IntN(len(vals))]}
		switch {
		case style == 0 || (style > 6 && r.IntN(3) == 0): // revert to the previous state of that key
			if pv, ok := prev[k]; ok {
				o.val = pv
			} else {
				o.del = true
			}
			kinds['R'] = true
		case style == 1 && present: // same value again
			o.val = cur[k]
			kinds['S'] = true
		case style == 2 || (style > 6 && r.IntN(3) == 0):
			o.del = true
			if present {
				kinds['D'] = true
			} else {
				kinds['d'] = true
			}
		case present:
			kinds['O'] = true
		default:
			kinds['I'] = true
		}
		b.ops = append(b.ops, o)
	}
	sort.Slice(b.ops, func(i, j int) bool { return bytes.Compare(b.ops[i].key[:], b.ops[j].key[:]) < 0 })
	for _, c := range "RSDdOI" {
		if kinds[byte(c)] {
			b.kinds += string(c)
		}
	}
	return b
}

// slices renders the batch as the arguments of the tree; mode selects how the memory is laid out.
func (b batch) slices(mode int) (ks, vs [][]byte) {
	for _, o := range b.ops {
		k, v := o.key, o.val
		ks = append(ks, k[:])
		if o.del {
			vs = append(vs, []byte{0})
		} else {
			vs = append(vs, v[:])
		}
	}
	if mode == 1 { // all keys in one buffer, all values in another
		kb := make([]byte, 0, 64*len(ks)+64)
		vb := make([]byte, 0, 64*len(ks)+64)
		for i := range ks {
			kb = append(kb, ks[i]...)
			vb = append(vb, vs[i]...)
		}
		ko, vo := 0, 0
		for i := range ks {
			lk, lv := len(ks[i]), len(vs[i])
			ks[i] = kb[ko : ko+lk]
			vs[i] = vb[vo : vo+lv]
			ko, vo = ko+lk, vo+lv
		}
	}
	return
}

func (b batch) apply(m map[K]K) {
	for _, o := range b.ops {
		if o.del {
			delete(m, o.key)
		} else {
			m[o.key] = o.val
		}
	}
}

func clone(m map[K]K) map[K]K {
	n := make(map[K]K, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (b batch) String() string {
	s := "["
	for i, o := range b.ops {
		if i > 6 {
			s += fmt.Sprintf(" +%d", len(b.ops)-i)
			break
		}
		if o.del {
			s += fmt.Sprintf(" -%x", o.key)
		} else {
			s += fmt.Sprintf(" %x=%x", o.key, o.val[:4])
		}
	}
	return s + " ]" + b.kinds
}

func open(root []byte, st trie.DBConn, limit int) *trie.Trie {
	t, err := trie.NewTrie(root, common.SHA256Hash, st)
	if err != nil {
		panic(err)
	}
	if limit >= 0 {
		t.CacheHeightLimit = limit
	}
	return t
}
