// Package lib is the common part of the runtime monitors: seeded case generation, violation
// recording, coverage accounting and bounded waits.
package lib

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// R is one run of one property's monitor.
type R struct {
	Prop, Tier string
	Seed       uint64
	out        string

	mu       sync.Mutex
	viol     map[string]*Violation
	order    []string
	evals    int64
	distinct map[uint64]struct{}
	samples  []string
	counters map[string]int64
	rule     string
	assume   []string
	inconcl  []string
	sets     map[string]map[uint64]struct{}
}

type Violation struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Detail any    `json:"detail,omitempty"`
	Count  int    `json:"count"`
}

// Thorough is true for the deep tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N selects a workload size by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rand returns a generator determined by the seed and the labels only.
func (r *R) Rand(labels ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.Prop)
	for _, l := range labels {
		fmt.Fprintf(h, "|%v", l)
	}
	return rand.New(rand.NewPCG(r.Seed, h.Sum64()))
}

// Main runs the monitor of the property given on the command line.
func Main(m map[string]func(*R)) {
	r := &R{
		viol:     map[string]*Violation{},
		distinct: map[uint64]struct{}{},
		counters: map[string]int64{},
		sets:     map[string]map[uint64]struct{}{},
	}
	flag.StringVar(&r.Prop, "prop", "", "")
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.Uint64Var(&r.Seed, "seed", 1, "")
	flag.StringVar(&r.out, "out", "", "")
	flag.Parse()
	f, ok := m[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	r.write(false)
	f(r)
	r.write(true)
}

// Case counts one explored case; sig identifies it (distinct, non-trivial cases are counted once).
func (r *R) Case(nontrivial bool, sig ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		r.distinct[hashOf(sig...)] = struct{}{}
	}
}

func hashOf(sig ...any) uint64 {
	h := fnv.New64a()
	for _, s := range sig {
		switch v := s.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			h.Write(b[:])
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// Count adds to an observation counter that goes to the evidence.
func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Max records the maximum of an observed value.
func (r *R) Max(name string, n int) {
	r.mu.Lock()
	if r.counters[name] < int64(n) {
		r.counters[name] = int64(n)
	}
	r.mu.Unlock()
}

// Seen records a distinct observed thing (state, interleaving) under a name.
func (r *R) Seen(name string, sig ...any) {
	h := hashOf(sig...)
	r.mu.Lock()
	m := r.sets[name]
	if m == nil {
		m = map[uint64]struct{}{}
		r.sets[name] = m
	}
	m[h] = struct{}{}
	r.mu.Unlock()
}

// Counter reads a counter back.
func (r *R) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Sample keeps a few written out cases.
func (r *R) Sample(format string, a ...any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *R) Rule(s string)        { r.rule = s }
func (r *R) Assume(s ...string)   { r.assume = append(r.assume, s...) }
func (r *R) Inconclusive(s string) { r.mu.Lock(); r.inconcl = append(r.inconcl, s); r.mu.Unlock() }

// Violation records a broken property. key identifies the kind of failure (call site, input
// class), so that a known finding can be told from a new one.
func (r *R) Violation(key, what string, detail any) {
	r.mu.Lock()
	v := r.viol[key]
	first := v == nil
	if first {
		v = &Violation{Key: key, What: what, Detail: detail}
		r.viol[key] = v
		r.order = append(r.order, key)
	}
	v.Count++
	r.mu.Unlock()
	if first {
		fmt.Fprintf(os.Stderr, "VIOLATION-RECORD %s: %s\n", key, what)
		r.write(false)
	}
}

// Violatedf is Violation with a formatted description.
func (r *R) Violatedf(key, format string, a ...any) { r.Violation(key, fmt.Sprintf(format, a...), nil) }

// NViol is the number of distinct violations so far.
func (r *R) NViol() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viol) }

func (r *R) write(finished bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.out == "" {
		return
	}
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             append([]string{}, r.samples...),
	}
	obs := map[string]any{}
	for k, v := range r.counters {
		obs[k] = v
	}
	for k, v := range r.sets {
		obs["distinct "+k] = len(v)
	}
	cov["observed"] = obs
	var vs []*Violation
	for _, k := range r.order {
		vs = append(vs, r.viol[k])
	}
	inc := r.inconcl
	if finished && r.evals == 0 {
		inc = append(inc, "nothing was observed")
	}
	b, err := json.MarshalIndent(map[string]any{
		"finished": finished, "coverage": cov, "violations": vs, "assumptions": r.assume,
		"inconclusive": inc,
	}, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		return
	}
	tmp := r.out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		os.Rename(tmp, r.out)
	}
}

// Catch runs f and reports whether it panicked, with the panic value and the code under test's
// innermost frame.
func Catch(f func()) (panicked bool, val any, frame string) {
	defer func() {
		if p := recover(); p != nil {
			panicked, val = true, p
			frame = topRepoFrame()
		}
	}()
	f()
	return
}

func topRepoFrame() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "netsec-ethz/fpki/") && !strings.Contains(f.Function, "/zzverif/") {
			return strings.TrimPrefix(f.Function, "github.com/netsec-ethz/fpki/")
		}
		if !more {
			return "?"
		}
	}
}

// NoPanic runs f; a panic whose stack is in the code under test is a violation.
func (r *R) NoPanic(key, what string, f func()) bool {
	p, v, fr := Catch(f)
	if p {
		r.Violation(key, fmt.Sprintf("%s: crashed with %v in %s", what, v, fr), nil)
	}
	return !p
}

// WaitDone waits for the channel with a very generous limit; if nothing moved by then it is
// reported as lack of progress together with all goroutine stacks, and the run stops.
func (r *R) WaitDone(key, what string, ch <-chan struct{}) bool {
	return r.WaitDoneFor(key, what, ch, 120*time.Second)
}

func (r *R) WaitDoneFor(key, what string, ch <-chan struct{}, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if len(buf) > 20000 {
		buf = buf[:20000]
	}
	r.Violation(key, what+": no progress (all activity blocked or spinning) for "+d.String(), string(buf))
	return false
}

// Go runs f in a goroutine and returns a channel closed at its end.
func Go(f func()) <-chan struct{} {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	return ch
}

// Stop ends the run early (after a violation that leaves blocked goroutines behind).
func (r *R) Stop() {
	r.write(true)
	os.Exit(0)
}

// Goroutines returns the number of live goroutines having a frame of the code under test in
// their stack, and the stacks.
func Goroutines(substr string) (int, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, substr) {
			n++
			if len(keep) < 5 {
				keep = append(keep, g)
			}
		}
	}
	return n, strings.Join(keep, "\n\n")
}

// SettleGoroutines waits until no goroutine with the substring is left; false if some remain.
// The bound is generous: leaked goroutines stay forever, legitimate ones end in microseconds.
func SettleGoroutines(substr string) (bool, string) {
	var st string
	for i := 0; i < 400; i++ {
		var n int
		n, st = Goroutines(substr)
		if n == 0 {
			return true, ""
		}
		if i < 100 {
			runtime.Gosched()
			time.Sleep(time.Millisecond)
		} else {
			time.Sleep(25 * time.Millisecond)
		}
	}
	return false, st
}

// Par runs f(0..n-1) on several goroutines, stopping early once enough violations were found.
func (r *R) Par(n int, f func(i int)) { r.ParW(runtime.GOMAXPROCS(0), n, f) }

// ParW is Par with a number of workers.
func (r *R) ParW(workers, n int, f func(i int)) {
	var wg sync.WaitGroup
	var next atomic.Int64
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.NViol() >= 12 {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
