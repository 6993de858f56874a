// pipe monitors pkg/pipeline (P01, P02, P03).
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func main() {
	lib.Main(map[string]func(*lib.R){"P01": p01, "P02": p02, "P03": p03})
}

// generate makes the layers of a pipeline.
func generate(r *lib.R, key string, rng *rand.Rand, streams bool) *world {
	w := &world{r: r, key: key, rng: rng, salt: rng.Uint64(), srcKind: rng.IntN(3), perCall: 1 + rng.IntN(3), delay: rng.IntN(4)}
	switch rng.IntN(6) {
	case 0:
		w.n = rng.IntN(3)
	case 1:
		w.n = 100 + rng.IntN(200)
	default:
		w.n = 5 + rng.IntN(50)
	}
	nl := 2 + rng.IntN(4)
	w.layers = []*layer{{parts: make([]*part, 1)}}
	w.layers[0].link = -1
	afterShared := false
	for l := 0; l < nl-1; l++ {
		cur := w.layers[l]
		n := len(cur.parts)
		var m int
		ins, outs := 1, 1
		link := rng.IntN(5)
		switch link {
		case linkGather:
			if n == 1 || n%2 == 1 {
				link = linkFull
			}
		case linkScatter:
			if n > 3 {
				link = linkShared
			}
		}
		switch link {
		case linkFull:
			m = 1 + rng.IntN(4)
			ins, outs = n, m
		case linkZip:
			m = n
		case linkShared:
			m = 1 + rng.IntN(5)
		case linkGather:
			m = n / 2
			if rng.IntN(2) == 0 {
				m = 1
			}
			ins = n / m
		case linkScatter:
			g := 1 + rng.IntN(3)
			m = n * g
			outs = g
		}
		cur.link = link
		mode := rng.IntN(3)
		for _, p := range w.layersParts(l) {
			p.outs, p.outMode = outs, mode
		}
		next := &layer{parts: make([]*part, m)}
		w.layers = append(w.layers, next)
		batch, stream, multi := 0, false, rng.IntN(2) == 0
		if rng.IntN(4) == 0 {
			batch = 2 + rng.IntN(5)
		} else if streams && rng.IntN(4) == 0 {
			stream = true
		}
		// Reading inputs in turn is only for parts whose feeders are fed independently.
		inSeq := ins > 1 && outs == 1 && afterShared && cur.parts[0].batch == 0 && rng.IntN(2) == 0
		for i := range next.parts {
			next.parts[i] = &part{w: w, layer: l + 1, idx: i, ins: ins, batch: batch, stream: stream,
				multi: multi, isSink: l+1 == nl-1, inSeq: inSeq}
			if l+1 == nl-1 {
				next.parts[i].batch, next.parts[i].stream = 0, false
			}
		}
		afterShared = link == linkShared
	}
	uid := 0
	for _, ly := range w.layers {
		reuse := rng.IntN(2) == 0
		for _, p := range ly.parts {
			p.uid = uid
			p.reuse = reuse
			uid++
		}
	}
	return w
}

func (w *world) layersParts(l int) []*part {
	if l == 0 && w.layers[0].parts[0] == nil {
		w.layers[0].parts[0] = &part{w: w}
	}
	return w.layers[l].parts
}

func (w *world) finish(opts ...func() any) bool {
	w.reset()
	if w.srcKind == srcChan {
		w.ch = make(chan item)
	}
	if err := w.build(); err != nil {
		w.r.Violatedf(w.key+"/build", "%v", err)
		return false
	}
	var err error
	w.p, err = pip.NewPipeline(func(*pip.Pipeline) { w.linkLayers(0, len(w.layers)-1) }, pip.WithStages(w.all...))
	if err != nil {
		w.r.Violatedf(w.key+"/build", "%s: %v", w.shape(), err)
		return false
	}
	return true
}

var procs = []int{8, 4, 2, 1, 16}

func setProcs(i int) int { n := procs[i%len(procs)]; runtime.GOMAXPROCS(n); return n }

func p01(r *lib.R) {
	r.Rule("any pipeline of a source, layers of stages and sinks, any link kind, output and input mode, streaming and batching: " +
		"what every layer processes equals what was put on its links and what a reference computes; order per link; Wait returns nil; nothing keeps running; several runs")
	ctx := context.Background()
	n := r.N(1800, 18000)
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		w := generate(r, "P01", r.Rand("p01", i), true)
		if !w.finish() {
			continue
		}
		runs := 1 + w.rng.IntN(3)
		for k := 0; k < runs && r.NViol() < 8; k++ {
			if k > 0 {
				w.n = w.rng.IntN(60)
			}
			w.reset()
			if !w.run(ctx, fmt.Sprintf("case %d run %d of %d items", i, k, w.n)) {
				return
			}
		}
		r.Case(w.n > 1 && len(w.layers) > 2, "plain", w.shape(), w.n, i)
	}
	auto(r, "P01", r.N(600, 6000))
	early(r, r.N(600, 6000))
	joins(r, "P01", r.N(900, 9000), false)
	modes(r, r.N(300, 3000))
}

// early checks pipelines where some parts of a layer have enough after some items, also with sources
// that never end.
func early(r *lib.R, n int) {
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		rng := r.Rand("early", i)
		w := generate(r, "P01", rng, false)
		l := rng.IntN(len(w.layers))
		for w.layers[l].parts[0].batch > 0 || l == 0 && w.srcKind != srcFunc {
			l = rng.IntN(len(w.layers))
		}
		w.earlyLayer = l
		if !w.finish() {
			continue
		}
		runs := 1 + rng.IntN(2)
		for k := 0; k < runs; k++ {
			w.reset()
			w.earlyAt = int32(1 + rng.IntN(20))
			w.endless = w.srcKind != srcSlice && len(w.layers[l].parts) == 1 && rng.IntN(2) == 0
			for m := 0; m < l; m++ {
				// Something has to arrive there.
				if w.layers[m].link != linkFull && w.layers[m].link != linkShared && w.layers[m].link != linkGather {
					w.endless = false
				}
			}
			if !w.run(context.Background(), fmt.Sprintf("early case %d run %d of %d items (endless %v), layer %d after %d", i, k, w.n, w.endless, l, w.earlyAt)) {
				return
			}
			if w.earlyDone.Load() {
				r.Count("runs ended early by a part", 1)
			}
		}
		r.Case(w.earlyDone.Load(), "early", w.shape(), w.n, i)
	}
}

// auto checks pipelines with a part that is resumed automatically.
func auto(r *lib.R, key string, n int) {
	ctx := context.Background()
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		rng := r.Rand(key, "auto", i)
		var w *world
		// A target that stands alone in its layer.
		for w == nil {
			w = generate(r, key, rng, false)
			var cand []int
			for l := 0; l < len(w.layers); l++ {
				p := w.layers[l].parts[0]
				if len(w.layers[l].parts) == 1 && p.batch == 0 && !(l == 0 && w.srcKind != srcFunc) {
					if l == 0 || w.layers[l-1].link != linkShared {
						cand = append(cand, l)
					}
				}
			}
			if len(cand) == 0 {
				w = nil
				continue
			}
			w.autoLayer = cand[rng.IntN(len(cand))]
			w.autoEvery = 1 + rng.IntN(6)
		}
		w.reset()
		if w.srcKind == srcChan {
			w.ch = make(chan item)
		}
		w.build()
		target, first := 0, 0
		for l := 0; l < w.autoLayer; l++ {
			target += len(w.layers[l].parts)
		}
		first = target + 1
		var affected []int
		for k := first; k < len(w.all); k++ {
			affected = append(affected, k)
		}
		rng.Shuffle(len(affected), func(a, b int) { affected[a], affected[b] = affected[b], affected[a] })
		link := func(*pip.Pipeline) { w.linkLayers(0, len(w.layers)-1) }
		var err error
		w.p, err = pip.NewPipeline(link, pip.WithStages(w.all...), pip.WithAutoResumeAtStage(target,
			func() bool {
				if w.autoClosed.Load() {
					return false
				}
				for _, j := range w.inj {
					if j.fired.Load() {
						return false
					}
				}
				w.resumes.Add(1)
				return true
			},
			func(*pip.Pipeline) { w.linkLayers(w.autoLayer, len(w.layers)-1) },
			affected...))
		if err != nil {
			r.Violatedf(key+"/build", "%v", err)
			continue
		}
		runs := 1 + rng.IntN(2)
		for k := 0; k < runs; k++ {
			w.reset()
			if key == "P02" {
				w.plan(1)
			}
			if !w.run(ctx, fmt.Sprintf("auto case %d run %d of %d items, every %d, failures %v", i, k, w.n, w.autoEvery, w.inj)) {
				return
			}
			r.Count("automatic resumptions", int(w.resumes.Load()))
		}
		r.Case(w.resumes.Load() > 0, "auto", w.shape(), w.n, i)
	}
}

// plan draws failures.
func (w *world) plan(max int) {
	k := 1 + w.rng.IntN(max)
	for ; k > 0; k-- {
		l := w.rng.IntN(len(w.layers))
		p := w.layers[l].parts[0]
		j := &inject{layer: l, what: "process", n: 1}
		switch w.rng.IntN(6) {
		case 0:
			if l > 0 {
				j.what = "flush"
				j.n = int32(1 + w.rng.IntN(len(w.layers[l].parts)))
			}
		case 1:
			if p.stream {
				j.what = "stream"
			}
		}
		if j.what != "flush" {
			switch w.rng.IntN(3) {
			case 0:
				j.n = int32(1 + w.rng.IntN(3))
			default:
				j.n = int32(1 + w.rng.IntN(w.n+5))
			}
		}
		w.inj = append(w.inj, j)
	}
}

func p02(r *lib.R) {
	r.Rule("pipelines as in P01 where the n-th call of the processing, streaming or flushing function of any layer fails, several at once, sources that never end: " +
		"Wait returns an error with every failure that occurred, nothing keeps running, nothing was processed twice or invented, and the next run works")
	ctx := context.Background()
	n := r.N(3000, 30000)
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		w := generate(r, "P02", r.Rand("p02", i), true)
		if !w.finish() {
			continue
		}
		runs := 1 + w.rng.IntN(3)
		for k := 0; k < runs && r.NViol() < 8; k++ {
			w.reset()
			clean := k > 0 && w.rng.IntN(3) == 0
			if !clean {
				w.plan([]int{1, 1, 3, 6}[w.rng.IntN(4)])
				// An endless source only if something is sure to fail.
				if w.n > 5 && w.srcKind != srcSlice && w.inj[0].what == "process" && w.inj[0].layer < 2 && w.rng.IntN(2) == 0 {
					w.endless = true
				}
			}
			if !w.run(ctx, fmt.Sprintf("case %d run %d of %d items (endless %v), failures %v", i, k, w.n, w.endless, w.inj)) {
				return
			}
		}
		r.Case(true, "fail", w.shape(), w.n, i)
	}
	auto(r, "P02", r.N(900, 9000))
	joins(r, "P02", r.N(900, 9000), true)
	if r.NViol() == 0 && r.Counter("calls told that sending failed") == 0 {
		r.Violatedf("P02/report", "in no run with failing parts was a previous part told that sending failed")
	}
}

// staller observes stall actions.
type staller struct {
	w         *world
	name      string
	stalled   map[*part]bool
	acting    atomic.Int32
	evaling   atomic.Int32
	evals     atomic.Int64
	asked     atomic.Int64
	acted     atomic.Int64
	every     int64
	limit     int64
	more      *staller
	actionFor time.Duration
}

func (s *staller) check(p *part, what string) {
	if s == nil {
		return
	}
	if s.stalled[p] && s.acting.Load() != 0 {
		s.w.r.Violatedf(s.w.key+"/active", "%s runs %s during a stall action: %s", p, what, s.w.shape())
	}
	s.more.check(p, what)
}

func (s *staller) ended(what string) {
	if s == nil {
		return
	}
	if a, b := s.asked.Load(), s.acted.Load(); a != b {
		s.w.r.Violatedf(s.w.key+"/actions", "%d stalls asked for, %d actions run: %s", a, b, what)
	}
	s.w.r.Count("stall actions", int(s.acted.Load()))
	s.w.r.Count("stall evaluations", int(s.evals.Load()))
	s.asked.Store(0)
	s.acted.Store(0)
	s.more.ended(what)
}

func (s *staller) should(pip.StageLike) bool {
	if s.evaling.Add(1) != 1 {
		s.w.r.Violatedf(s.w.key+"/evaluations", "two evaluations at once: %s", s.w.shape())
	}
	defer s.evaling.Add(-1)
	if s.acting.Load() != 0 {
		s.w.r.Violatedf(s.w.key+"/evaluation-in-action", "evaluation during an action: %s", s.w.shape())
	}
	n := s.evals.Add(1)
	if n%s.every == 0 && s.asked.Load() < s.limit {
		s.asked.Add(1)
		return true
	}
	return false
}

func (s *staller) action() {
	if s.acting.Add(1) != 1 {
		s.w.r.Violatedf(s.w.key+"/actions-overlap", "two actions at once: %s", s.w.shape())
	}
	look := func(when string) {
		for p := range s.stalled {
			if p.inside.Load() != 0 {
				s.w.r.Violatedf(s.w.key+"/not-stalled", "%s is working at the %s of a stall action: %s", p, when, s.w.shape())
			}
		}
	}
	look("start")
	for i := 0; i < 3; i++ {
		runtime.Gosched()
		time.Sleep(s.actionFor)
		look("middle")
	}
	s.acting.Add(-1)
	s.acted.Add(1)
}

func p03(r *lib.R) {
	r.Rule("pipelines as in P01 with one or two stall options on any subset of parts, evaluated at any subset: no stalled part is inside a function during an action, " +
		"actions and evaluations never overlap, as many actions as stalls asked for, contents as in P01; also with failing parts")
	ctx := context.Background()
	n := r.N(1800, 18000)
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		w := generate(r, "P03", r.Rand("p03", i), true)
		if !w.finish() {
			continue
		}
		var parts []*part
		for _, ly := range w.layers {
			parts = append(parts, ly.parts...)
		}
		opts := 1 + w.rng.IntN(5)/4
		var head *staller
		for o := 0; o < opts; o++ {
			s := &staller{w: w, stalled: map[*part]bool{}, every: int64(1 + w.rng.IntN(20)), limit: int64(1 + w.rng.IntN(30)),
				actionFor: time.Duration(w.rng.IntN(80)) * time.Microsecond}
			var which, at []pip.StageLike
			all := w.rng.IntN(2) == 0
			for k, p := range parts {
				if all || w.rng.IntN(2) == 0 {
					which = append(which, w.all[k])
					s.stalled[p] = true
				}
				if w.rng.IntN(3) == 0 {
					at = append(at, w.all[k])
				}
			}
			if len(at) == 0 {
				at = append(at, w.all[w.rng.IntN(len(w.all))])
			}
			s.more = head
			head = s
			pip.WithStallStages(which, s.action, s.should, at)(w.p)
		}
		w.stall = head
		runs := 1 + w.rng.IntN(2)
		for k := 0; k < runs && r.NViol() < 8; k++ {
			w.reset()
			if w.rng.IntN(4) == 0 {
				w.plan(1)
			}
			if !w.run(ctx, fmt.Sprintf("case %d run %d of %d items, failures %v", i, k, w.n, w.inj)) {
				return
			}
		}
		r.Case(true, "stall", w.shape(), w.n, i)
	}
}
