package main

import (
	"cmp"
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// item is one element of a parallel slice: its value and where it came from.
type item struct {
	v   int
	pos int
}

// guarded returns a slice of n elements inside a bigger array whose surroundings are watched.
func guarded[T any](n, before, after int, fill func(i int) T, sentinel T) (s []T, back []T) {
	back = make([]T, before+n+after)
	for i := range back {
		back[i] = sentinel
	}
	for i := 0; i < n; i++ {
		back[before+i] = fill(i)
	}
	return back[before : before+n : before+n+after], back
}

func surroundings[T comparable](back []T, before, n int, sentinel T) bool {
	for i, v := range back {
		if (i < before || i >= before+n) && v != sentinel {
			return false
		}
	}
	return true
}

func u01(r *lib.R) {
	r.Rule("collections of every length 0..40 (and some up to 3000), all repetition patterns by alphabet size, 1 to 3 parallel slices inside guarded arrays with spare capacity")
	dedupes(r)
	removals(r)
	resizes(r)
	sorts(r)
	ids(r)
	maths(r)
	typed(r)
	bundleNames(r)
	channels(r)
	coalesced(r)
}

func dedupes(r *lib.R) {
	n := r.N(6000, 120000)
	sent := item{-1, -1}
	r.Par(n, func(c int) {
		rnd := r.Rand("dedup", c)
		size := rnd.IntN(41)
		if c%50 == 0 {
			size = rnd.IntN(3000)
		}
		alpha := 1 + rnd.IntN(size+2)
		nSl := 1 + rnd.IntN(3)
		vals := make([]int, size)
		for i := range vals {
			vals[i] = rnd.IntN(alpha)
		}
		if size > 0 && rnd.IntN(4) == 0 { // duplicates only at the end, or at the front
			for i := range vals {
				vals[i] = i
			}
			k := 1 + rnd.IntN(size)
			for i := 0; i < k; i++ {
				if rnd.IntN(2) == 0 {
					vals[size-1-i] = vals[rnd.IntN(size)]
				} else {
					vals[i] = vals[rnd.IntN(size)]
				}
			}
		}
		before, after := rnd.IntN(3), rnd.IntN(3)
		sl := make([][]item, nSl)
		back := make([][]item, nSl)
		for j := range sl {
			sl[j], back[j] = guarded(size, before, after, func(i int) item { return item{vals[i], i} }, sent)
		}
		orig := slices.Clone(vals)
		mode := rnd.IntN(4)
		what := fmt.Sprintf("size %d alphabet %d slices %d mode %d", size, alpha, nSl, mode)
		wraps := func() []any { return nil }
		_ = wraps
		r.NoPanic("dedup-panic", what, func() {
			f := func(i int) int { return sl[0][i].v }
			if nSl > 1 && mode == 3 {
				f = func(i int) int { return sl[1][i].v } // representation taken from another slice
			}
			switch mode {
			case 0, 3:
				switch nSl {
				case 1:
					util.DeduplicateSlice(f, util.Wrap(&sl[0]))
				case 2:
					util.DeduplicateSlice(f, util.Wrap(&sl[0]), util.Wrap(&sl[1]))
				case 3:
					util.DeduplicateSlice(f, util.Wrap(&sl[0]), util.Wrap(&sl[1]), util.Wrap(&sl[2]))
				}
			default:
				st := map[int]struct{}{}
				if mode == 2 { // storage used before
					for i := 0; i < alpha; i += 2 {
						st[i] = struct{}{}
					}
				}
				switch nSl {
				case 1:
					util.DeduplicateSliceWithStorage(st, f, util.Wrap(&sl[0]))
				case 2:
					util.DeduplicateSliceWithStorage(st, f, util.Wrap(&sl[0]), util.Wrap(&sl[1]))
				case 3:
					util.DeduplicateSliceWithStorage(st, f, util.Wrap(&sl[0]), util.Wrap(&sl[1]), util.Wrap(&sl[2]))
				}
			}
		})
		distinct := map[int]bool{}
		for _, v := range orig {
			distinct[v] = true
		}
		r.Case(len(distinct) < size, "dedup", size, nSl, mode, len(distinct))
		r.Seen("dedup shapes (size, distinct)", size, len(distinct))
		if len(sl[0]) != len(distinct) {
			r.Violation("dedup-count", fmt.Sprintf("%d distinct elements, %d kept: %s", len(distinct), len(sl[0]), what), orig)
			return
		}
		seen := map[int]bool{}
		for i, e := range sl[0] {
			if e.pos < 0 || e.pos >= size || orig[e.pos] != e.v || seen[e.v] {
				r.Violation("dedup-content", "an element is repeated or invented: "+what, orig)
				return
			}
			seen[e.v] = true
			for j := 1; j < nSl; j++ {
				if len(sl[j]) != len(sl[0]) || sl[j][i] != e {
					r.Violation("dedup-align", "parallel slices no longer correspond: "+what, orig)
					return
				}
			}
		}
		for j := range back {
			if !surroundings(back[j], before, size, sent) {
				r.Violation("dedup-outside", "an element outside the slice was changed: "+what, orig)
			}
		}
	})
	// The provided value functions.
	for c := 0; c < r.N(300, 3000); c++ {
		rnd := r.Rand("dedup-fn", c)
		size := rnd.IntN(20)
		a := make([]string, size)
		p := make([]*string, size)
		tag := make([]int, size)
		set := map[string]bool{}
		for i := range a {
			a[i] = fmt.Sprint(rnd.IntN(6))
			v := a[i]
			p[i] = &v
			tag[i] = i
			set[v] = true
		}
		orig := slices.Clone(a)
		if c%2 == 0 {
			util.DeduplicateSlice(util.WithSlice(a), util.Wrap(&a), util.Wrap(&tag))
		} else {
			util.DeduplicateSlice(util.WithSlicePtr(p), util.Wrap(&p), util.Wrap(&tag))
			a = a[:0]
			for _, x := range p {
				a = append(a, *x)
			}
		}
		r.Case(len(set) < size, "dedup-fn", size, len(set), c%2)
		got := map[string]bool{}
		ok := len(a) == len(set) && len(tag) == len(a)
		for i := range a {
			got[a[i]] = true
			ok = ok && orig[tag[i]] == a[i]
		}
		if !ok || !reflect.DeepEqual(got, set) {
			r.Violation("dedup-fn", "de-duplication by value or pointer", []any{orig, a, tag})
		}
	}
}

func removals(r *lib.R) {
	for c := 0; c < r.N(4000, 80000); c++ {
		rnd := r.Rand("remove", c)
		size := rnd.IntN(20)
		if c%40 == 0 {
			size = rnd.IntN(500)
		}
		s, back := guarded(size, 2, 2, func(i int) int { return i }, -1)
		k := 0
		if size > 0 {
			k = rnd.IntN(size + 1)
		}
		idx := rnd.Perm(size)[:k]
		switch rnd.IntN(4) {
		case 0: // a run at the end
			for i := range idx {
				idx[i] = size - 1 - i
			}
		case 1: // a run at the front
			for i := range idx {
				idx[i] = k - 1 - i
			}
		}
		kill := map[int]bool{}
		for _, i := range idx {
			kill[i] = true
		}
		given := slices.Clone(idx)
		r.NoPanic("remove-panic", fmt.Sprint(size, given), func() { util.RemoveElementsFromSlice(&s, idx) })
		r.Case(k > 0 && k < size, "remove", size, k)
		ok := len(s) == size-k
		seen := map[int]bool{}
		for _, v := range s {
			ok = ok && v >= 0 && !kill[v] && !seen[v]
			seen[v] = true
		}
		if !ok {
			r.Violation("remove-elements", fmt.Sprintf("removing %v of %d elements left %v", given, size, s), nil)
		}
		if !surroundings(back, 2, size, -1) {
			r.Violation("remove-outside", "an element outside the slice was changed", given)
		}
		if size == 0 {
			continue
		}
		s2, back2 := guarded(size, 1, 1, func(i int) int { return i }, -1)
		x := rnd.IntN(size)
		r.NoPanic("remove1-panic", fmt.Sprint(size, x), func() { util.RemoveElemFromSlice(&s2, x) })
		r.Case(true, "remove1", size, x)
		ok = len(s2) == size-1
		seen = map[int]bool{}
		for _, v := range s2 {
			ok = ok && v >= 0 && v != x && !seen[v]
			seen[v] = true
		}
		if !ok || !surroundings(back2, 1, size, -1) {
			r.Violation("remove-element", fmt.Sprintf("removing %d of %d elements left %v", x, size, s2), nil)
		}
	}
}

func resizes(r *lib.R) {
	for size := 0; size < 14; size++ {
		for spare := 0; spare < 8; spare++ {
			for want := 0; want < 26; want++ {
				s, back := guarded(size, 1, spare, func(i int) int { return i + 1 }, -1)
				if size == 0 && spare == 0 {
					s = nil
				}
				r.NoPanic("resize-panic", fmt.Sprint(size, spare, want), func() { util.ResizeSlice(&s, want, 77) })
				r.Case(want != size, "resize", size, spare, want)
				ok := len(s) == want
				for i, v := range s {
					if i < size {
						ok = ok && v == i+1
					} else {
						ok = ok && v == 77
					}
				}
				// Elements of the array which do not belong to the result are not its business.
				for i, v := range back {
					if j := i - 1; j < 0 || j >= max(size, want) {
						ok = ok && v == -1
					} else if j >= want && j < size {
						ok = ok && v == j+1
					}
				}
				if !ok {
					r.Violation("resize", fmt.Sprintf("length %d spare %d resized to %d: %v of %v", size, spare, want, s, back), nil)
				}
			}
		}
	}
}

func sortCase[T cmp.Ordered](r *lib.R, kind string, in []T, sentinel T) {
	s, back := guarded(len(in), 1, 1, func(i int) T { return in[i] }, sentinel)
	var out []T
	r.NoPanic("sort-panic", kind, func() { out = util.Qsort(s) })
	want := slices.Clone(in)
	slices.Sort(want)
	r.Case(!slices.Equal(in, want), "sort", kind, len(in), fmt.Sprint(in))
	if !slices.Equal(s, want) || !slices.Equal(out, want) {
		r.Violation("sort-"+kind, fmt.Sprintf("sorting %v gave %v / %v", in, s, out), nil)
	}
	if !surroundings(back, 1, len(in), sentinel) {
		r.Violation("sort-outside", "an element outside the slice was changed", in)
	}
}

func sorts(r *lib.R) {
	for c := 0; c < r.N(3000, 60000); c++ {
		rnd := r.Rand("sort", c)
		n := rnd.IntN(30)
		if c%60 == 0 {
			n = rnd.IntN(900)
		}
		alpha := 1 + rnd.IntN(n+3)
		ii := make([]int, n)
		ss := make([]string, n)
		ff := make([]float64, n)
		uu := make([]uint8, n)
		for i := range ii {
			ii[i] = rnd.IntN(alpha) - alpha/2
			ss[i] = strings.Repeat("x", rnd.IntN(3)) + fmt.Sprint(rnd.IntN(alpha))
			ff[i] = float64(rnd.IntN(alpha)) / 3
			uu[i] = uint8(rnd.IntN(256))
		}
		switch rnd.IntN(5) {
		case 0:
			sort.Ints(ii)
		case 1:
			sort.Sort(sort.Reverse(sort.IntSlice(ii)))
		}
		sortCase(r, "int", ii, -1<<40)
		sortCase(r, "string", ss, "sentinel")
		sortCase(r, "float", ff, -5)
		sortCase(r, "byte", uu, 0)
	}
}

// ids checks the identifier lists which domain values are computed from.
func ids(r *lib.R) {
	for c := 0; c < r.N(800, 10000); c++ {
		rnd := r.Rand("ids", c)
		n := rnd.IntN(12)
		in := make([]common.SHA256Output, n)
		for i := range in {
			fillRand(rnd, in[i][:])
			if rnd.IntN(2) == 0 { // long common prefixes
				for j := 0; j < 31; j++ {
					in[i][j] = 9
				}
				in[i][31] = byte(rnd.IntN(256))
				in[i][rnd.IntN(32)] ^= byte(rnd.IntN(4))
			}
		}
		orig := slices.Clone(in)
		want := slices.Clone(in)
		slices.SortFunc(want, func(a, b common.SHA256Output) int { return slices.Compare(a[:], b[:]) })
		var glue []byte
		for _, x := range want {
			glue = append(glue, x[:]...)
		}
		got := common.SortIDsAndGlue(in)
		h := common.SortIDsAndHash(in)
		r.Case(n > 1, "ids", n, c)
		if string(got) != string(glue) || !slices.Equal(in, orig) {
			r.Violation("ids-glue", "identifiers sorted and glued", orig)
		}
		if n == 0 && h != nil || n > 0 && string(h) != string(common.SHA256Hash(glue)) {
			r.Violation("ids-hash", "digest of identifiers", orig)
		}
		if back := common.BytesToIDs(common.IDsToBytes(in)); !slices.Equal(back, in) {
			r.Violation("ids-bytes", "identifiers to bytes and back", orig)
		}
	}
}

func maths(r *lib.R) {
	for n := uint(0); n < uint(r.N(5000, 300000)); n++ {
		checkLog2(r, n)
	}
	for b := 12; b < 64; b++ {
		for d := -2; d <= 2; d++ {
			checkLog2(r, uint(1)<<b+uint(d))
		}
	}
	checkLog2(r, ^uint(0))
	for x := int64(-40); x <= 40; x++ {
		for e := uint(0); e < 20; e++ {
			w := new(big.Int).Exp(big.NewInt(x), big.NewInt(int64(e)), nil)
			if !w.IsInt64() {
				continue
			}
			r.Case(e > 1, "pow", x, e)
			if g := util.Pow(x, e); g != w.Int64() {
				r.Violatedf("pow", "%d to the power %d is %d", x, e, g)
			}
		}
	}
	if util.Pow(1.5, uint8(4)) != 5.0625 {
		r.Violatedf("pow", "1.5 to the power 4 is %v", util.Pow(1.5, uint8(4)))
	}
}

func checkLog2(r *lib.R, n uint) {
	want := uint(0)
	if n > 1 {
		want = uint(new(big.Int).SetUint64(uint64(n - 1)).BitLen())
	}
	r.Case(n > 2, "log2", n)
	if g := util.Log2(n); g != want {
		r.Violatedf("log2", "rounded up binary logarithm of %d is %d, want %d", n, g, want)
	}
}

func typed(r *lib.R) {
	for c := 0; c < r.N(500, 5000); c++ {
		rnd := r.Rand("typed", c)
		n := rnd.IntN(10)
		s := make([]any, n)
		var str []string
		var rest []any
		allStr := rnd.IntN(3) == 0
		for i := range s {
			if allStr || rnd.IntN(2) == 0 {
				v := fmt.Sprint("s", i)
				s[i] = v
				str = append(str, v)
			} else {
				s[i] = []any{i, nil, 2.5, errors.New("x")}[rnd.IntN(4)]
				rest = append(rest, s[i])
			}
		}
		a, b := util.SliceToTypedSlice[string](s)
		r.Case(len(str) > 0, "typed", n, len(str), c)
		if !slices.Equal(a, str) || len(b) != len(rest) || len(b) > 0 && !reflect.DeepEqual(b, rest) {
			r.Violation("typed", "splitting by type", []any{fmt.Sprint(s), a, fmt.Sprint(b)})
		}
		t, err := util.ToTypedSlice[string](any(s))
		if (err == nil) != (len(rest) == 0) || err == nil && !slices.Equal(t, str) {
			r.Violation("typed-all", "converting a whole slice", fmt.Sprint(s, t, err))
		}
	}
	if _, err := util.ToTypedSlice[string](5); err == nil {
		r.Violatedf("typed-all", "a number was converted into a slice")
	}
	if _, err := util.ToType[string](nil); err == nil {
		r.Violatedf("typed-all", "nothing was converted into a string")
	}
}

func bundleNames(r *lib.R) {
	for c := 0; c < r.N(500, 5000); c++ {
		rnd := r.Rand("bundle", c)
		n := rnd.IntN(12)
		names := make([]string, n)
		for i := range names {
			a := rnd.IntN(30)
			if rnd.IntN(3) == 0 {
				a = rnd.IntN(2000000)
			}
			names[i] = fmt.Sprintf("%d-%d%s", a, a+rnd.IntN(1000), []string{".gz", ".csv"}[rnd.IntN(2)])
			if rnd.IntN(3) == 0 {
				names[i] = filepath.Join("/data", fmt.Sprint(9-rnd.IntN(9)), names[i])
			}
		}
		bad := n > 0 && rnd.IntN(5) == 0
		if bad {
			names[rnd.IntN(n)] = []string{"x.csv", "12.gz", "5-4.csv", "1-2.txt", "-1-5.csv", "1-2-3.csv", "99999999999999999999-99999999999999999999.gz", ""}[rnd.IntN(8)]
		}
		orig := slices.Clone(names)
		err := util.SortByBundleName(names)
		r.Case(n > 1, "bundle", n, bad, c)
		if (err != nil) != bad {
			r.Violation("bundle-error", fmt.Sprintf("sorting bundle names: %v", err), orig)
			continue
		}
		x, y := slices.Clone(orig), slices.Clone(names)
		slices.Sort(x)
		slices.Sort(y)
		if !slices.Equal(x, y) {
			r.Violation("bundle-perm", "sorting bundle names loses names", []any{orig, names})
		}
		if bad {
			continue
		}
		last := -1
		for _, nm := range names {
			var a, b int
			fmt.Sscanf(filepath.Base(nm), "%d-%d", &a, &b)
			if a < last {
				r.Violation("bundle-order", "bundle names are not in order of their first index", []any{orig, names})
				break
			}
			last = a
			if f, err := util.CsvFilenameToFirstIndex(nm); err != nil || f != uint(a) {
				r.Violatedf("bundle-first", "first index of %s is %d, %v", nm, f, err)
			}
			if k, err := util.EstimateCertCount(nm); err != nil || k != uint(b-a+1) {
				r.Violatedf("bundle-count", "number of rows of %s is %d, %v", nm, k, err)
			}
		}
	}
}

func channels(r *lib.R) {
	for c := 0; c < r.N(200, 2000); c++ {
		rnd := r.Rand("chan", c)
		n := rnd.IntN(9)
		chs := make([]chan int, n)
		for i := range chs {
			chs[i] = make(chan int, rnd.IntN(2)*3)
		}
		var got atomic.Int64
		order := rnd.Perm(n)
		recv := lib.Go(func() {
			for _, i := range order { // received in any order, one after the other
				if <-chs[i] == 42 {
					got.Add(1)
				}
			}
		})
		done := lib.Go(func() { util.SendToAllChannels(chs, 42) })
		if !r.WaitDone("send-all-hang", fmt.Sprintf("sending to %d channels", n), done) {
			return
		}
		r.WaitDone("send-all-lost", fmt.Sprintf("receiving from %d channels", n), recv)
		extra := 0
		for _, ch := range chs {
			extra += len(ch)
		}
		r.Case(n > 1, "chan", n, fmt.Sprint(order))
		if int(got.Load()) != n || extra != 0 {
			r.Violatedf("send-all", "%d channels, %d values received, %d left over", n, got.Load(), extra)
		}
	}
}

// coalesced checks that collecting errors keeps each distinct failure once and loses none.
func coalesced(r *lib.R) {
	for c := 0; c < r.N(600, 8000); c++ {
		rnd := r.Rand("errs", c)
		var want []string
		add := func(m string) {
			if !slices.Contains(want, m) {
				want = append(want, m)
			}
		}
		var build func(rnd *rand.Rand, depth int) error
		leaves := []error{}
		build = func(rnd *rand.Rand, depth int) error {
			switch k := rnd.IntN(5); {
			case k == 0:
				return nil
			case k == 1 && depth < 3:
				var sub []error
				for i := rnd.IntN(4); i > 0; i-- {
					sub = append(sub, build(rnd, depth+1))
				}
				return util.ErrorsCoalesce(sub...)
			default:
				m := fmt.Sprint("failure ", rnd.IntN(6))
				add(m)
				e := errors.New(m)
				leaves = append(leaves, e)
				return e
			}
		}
		var errs []error
		for i := rnd.IntN(6); i > 0; i-- {
			errs = append(errs, build(rnd, 0))
		}
		err := util.ErrorsCoalesce(errs...)
		r.Case(len(want) > 1, "errs", len(errs), fmt.Sprint(want))
		if (err == nil) != (len(want) == 0) {
			r.Violation("errs-nil", fmt.Sprintf("failures %v coalesced to %v", want, err), nil)
			continue
		}
		if err == nil {
			continue
		}
		ce, ok := err.(util.CoalescedErrors)
		if !ok {
			if err.Error() != want[0] || len(want) != 1 {
				r.Violation("errs-type", fmt.Sprintf("failures %v coalesced to %v", want, err), nil)
			}
			continue
		}
		var got []string
		for _, e := range ce.Errs {
			got = append(got, e.Error())
			if !errors.Is(err, e) {
				r.Violatedf("errs-is", "the collected error does not stand for %v", e)
			}
			if len(want) == 1 && err.Error() != want[0] {
				r.Violatedf("errs-text", "one failure %v is reported as %q", want, err.Error())
			}
			if !strings.Contains(err.Error(), e.Error()) {
				r.Violatedf("errs-text", "failure %v is missing in %q", e, err.Error())
			}
		}
		if !slices.Equal(got, want) {
			r.Violation("errs-set", fmt.Sprintf("failures %v coalesced to %v", want, got), nil)
		}
	}
}
