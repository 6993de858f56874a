package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// item is what travels. The identifier decides what every part does with it, whatever the schedule.
type item struct {
	id   uint64
	from int32 // link it was put on: part * 64 + output
	call int32 // processing call of that part
	seq  int32 // number on that link
}

type stage = pip.Stage[item, item]

const (
	srcFunc = iota
	srcChan
	srcSlice
)

const (
	linkFull    = iota // every part to every part of the next layer
	linkZip            // part i to part i
	linkShared         // all parts share one channel (distribute, crisscross)
	linkGather         // several parts into one each
	linkScatter        // one part to several each
)

var linkNames = []string{"full", "zip", "shared", "gather", "scatter"}

const (
	outConc = iota
	outSeq
	outCyc
)

// part is one source, stage or sink. Everything but the atomics is touched only by the part while a
// run lasts, and by the monitor after Wait: the race detector reports it if that is not so.
type part struct {
	w          *world
	uid        int
	layer, idx int
	outs, ins  int
	outMode    int
	inSeq      bool
	batch      int
	stream     bool
	multi      bool // more than one output per call
	reuse      bool // returns the same slices in every call
	bufI       []item
	bufO       []int
	isSink     bool
	// State of one run.
	got    []item
	put    map[uint64]int // put on an output, by id
	calls  int32
	seqs   []int32
	held   []item
	queue  []item
	last   map[int32][2]int32
	flush  int
	sent   []item // outputs of the last call
	unsent []item // reported as not sent
	inside atomic.Int32
}

type layer struct {
	parts []*part
	link  int // to the next layer
}

// inject is one failure: at the n-th call of kind what in a layer.
type inject struct {
	layer int
	what  string // process, flush, stream
	n     int32
	fired atomic.Bool
}

func (i *inject) Error() string { return fmt.Sprintf("injected-%d-%s-%d!", i.layer, i.what, i.n) }

type world struct {
	r       *lib.R
	key     string
	rng     *rand.Rand
	salt    uint64
	layers  []*layer
	n       int  // items of the source; <0 unlimited
	endless bool // source never ends
	srcKind int
	perCall int
	delay   int
	// Joined pipelines.
	first, second *world
	joint         string         // how
	given         map[uint64]int // what the first gave to this one
	// Per run.
	slice   []item
	ch      chan item
	next    int
	counts  [][3]atomic.Int32 // per layer: calls of process, flush, stream
	inj     []*inject
	active  atomic.Int64 // calls of any part
	events  atomic.Int64
	orderMu sync.Mutex
	order   []string
	// Reports of outputs that were not sent.
	reports                    []string
	arrived                    map[[2]int32]bool
	notSentCalls, notSentItems atomic.Int64
	// Stalling.
	stall *staller
	// A part that ends early.
	earlyLayer int
	earlyAt    int32
	earlyDone  atomic.Bool
	// Auto resume.
	autoLayer  int
	autoEvery  int
	autoClosed atomic.Bool
	autoSeen   int
	resumes    atomic.Int32

	src    *pip.Source[item]
	stages [][]*stage // nil entries for the source and sinks
	sinks  []*pip.Sink[item]
	all    []pip.StageLike
	p      *pip.Pipeline
}

func mix(a ...uint64) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range a {
		h ^= x
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
	}
	return h
}

// children is the function of layer l: what it makes of an item, in which order.
func (w *world) children(l int, id uint64) []uint64 {
	if l == 0 {
		return []uint64{id}
	}
	h := mix(w.salt, uint64(l), id)
	n := 1
	p0 := w.layers[l].parts[0]
	if p0.multi {
		switch h % 8 {
		case 0:
			n = 0
		case 1, 2:
			n = 2
		case 3:
			n = 3
		}
	} else if h%16 == 0 {
		n = 0
	}
	res := make([]uint64, n)
	for k := range res {
		res[k] = mix(h, uint64(k)) | 1
	}
	return res
}

// outOf is the output on which layer l puts id: one of outs. Sources on a channel may use several.
func (w *world) outsOf(l int, id uint64, outs int) []int {
	h := mix(w.salt, 77, uint64(l), id)
	if l == 0 && w.srcKind == srcChan && outs > 1 && h%5 == 0 {
		return []int{int(h>>8) % outs, int((h>>8)+1) % outs}
	}
	return []int{int((h >> 8) % uint64(outs))}
}

// expected is the multiset of items each layer has to receive.
func (w *world) expected() []map[uint64]int {
	res := make([]map[uint64]int, len(w.layers)+1)
	cur := map[uint64]int{}
	if w.given != nil {
		cur = w.given
	} else {
		for i := 0; i < w.n; i++ {
			cur[w.sourceID(i)]++
		}
	}
	res[0] = cur
	for l := 0; l < len(w.layers); l++ {
		next := map[uint64]int{}
		if !w.layers[l].parts[0].isSink {
			for id, c := range res[l] {
				for _, ch := range w.children(l, id) {
					next[ch] += c * len(w.outsOf(l, ch, w.layers[l].parts[0].outs))
				}
			}
		}
		res[l+1] = next
	}
	return res
}

func (w *world) sourceID(i int) uint64 { return mix(w.salt, 5, uint64(i)) | 1 }

// pause perturbs the schedule.
func (p *part) pause() {
	d := p.w.delay
	if d == 0 {
		return
	}
	h := mix(uint64(p.uid), uint64(p.calls), p.w.salt, uint64(p.w.active.Load()))
	switch {
	case h%7 == 0:
		runtime.Gosched()
	case h%uint64(41-d*10) == 1:
		time.Sleep(time.Duration(h>>20%60) * time.Microsecond)
	}
}

// enter is called at the start of any function of the part, and what it returns at its end.
func (p *part) enter(what string) func() {
	if n := p.inside.Add(1); n != 1 {
		p.w.r.Violatedf(p.w.key+"/overlap", "%s: two calls of %s run at once", p, what)
	}
	p.calls++
	p.w.active.Add(1)
	p.w.events.Add(1)
	p.w.stall.check(p, what)
	p.pause()
	return func() {
		p.w.stall.check(p, what)
		p.w.events.Add(1)
		p.inside.Add(-1)
	}
}

func (p *part) String() string { return fmt.Sprintf("layer %d part %d", p.layer, p.idx) }

var kinds = map[string]int{"process": 0, "flush": 1, "stream": 2}

func (p *part) fail(what string) error {
	n := p.w.counts[p.layer][kinds[what]].Add(1)
	for _, i := range p.w.inj {
		if i.layer == p.layer && i.what == what && i.n == n {
			i.fired.Store(true)
			return i
		}
	}
	return nil
}

// receive records an incoming item and checks the order on its link.
func (p *part) receive(in item) {
	p.got = append(p.got, in)
	if l, ok := p.last[in.from]; ok {
		seqOrder := p.w.partByUID(in.from / 64).ordered()
		if in.call < l[0] || seqOrder && in.seq <= l[1] {
			p.w.orderMu.Lock()
			if len(p.w.order) < 5 {
				p.w.order = append(p.w.order, fmt.Sprintf("%s: call %d number %d after call %d number %d of link %d",
					p, in.call, in.seq, l[0], l[1], in.from))
			}
			p.w.orderMu.Unlock()
		}
	}
	p.last[in.from] = [2]int32{in.call, in.seq}
}

// ordered tells if several outputs of one call keep their order.
func (p *part) ordered() bool {
	return p.outMode == outSeq && !(p.layer == 0 && p.w.srcKind == srcChan)
}

func (w *world) partByUID(uid int32) *part {
	for _, l := range w.layers {
		for _, p := range l.parts {
			if p.uid == int(uid) {
				return p
			}
		}
	}
	if w.first != nil {
		return w.first.partByUID(uid)
	}
	return nil
}

// emit turns items into outputs.
func (p *part) emit(ids []uint64) ([]item, []int) {
	var outs []item
	var idx []int
	if p.reuse {
		if len(ids) == 1 && p.outs == 1 && p.bufO != nil {
			// As constant slices of many processing functions.
			for i, o := range p.bufO[:cap(p.bufO)] {
				if o != 0 {
					p.w.r.Violatedf(p.w.key+"/user-slice", "%s: the index slice it returned became %v at %d", p, p.bufO[:cap(p.bufO)], i)
				}
			}
		}
		outs, idx = p.bufI[:0], p.bufO[:0]
		defer func() { p.bufI, p.bufO = outs, idx }()
	}
	for _, id := range ids {
		for _, o := range p.w.outsOf(p.layer, id, p.outs) {
			p.seqs[o]++
			outs = append(outs, item{id: id, from: int32(p.uid*64 + o), call: p.calls, seq: p.seqs[o]})
			idx = append(idx, o)
			p.put[id]++
		}
	}
	p.sent = append(p.sent[:0], outs...)
	return outs, idx
}

// notSent is told which outputs of the last call were not sent, and why.
func (p *part) notSent(err error, failed []int) {
	w := p.w
	bad := func(what string) {
		w.orderMu.Lock()
		defer w.orderMu.Unlock()
		if len(w.reports) < 5 {
			w.reports = append(w.reports, fmt.Sprintf("%s: %s (error %v, indices %v of %d outputs)", p, what, err, failed, len(p.sent)))
		}
	}
	w.notSentCalls.Add(1)
	w.notSentItems.Add(int64(len(failed)))
	if len(failed) == 0 {
		bad("told that sending failed, without any output")
	}
	if err != nil && !strings.Contains(err.Error(), "injected-") {
		bad("told an error that no part had")
	}
	seen := map[int]bool{}
	for _, i := range failed {
		if i < 0 || i >= len(p.sent) || seen[i] {
			bad("told impossible outputs")
			return
		}
		seen[i] = true
		p.unsent = append(p.unsent, p.sent[i])
	}
}

func (p *part) process(in item) ([]item, []int, error) {
	defer p.enter("process")()
	p.sent = p.sent[:0]
	p.receive(in)
	if err := p.fail("process"); err != nil {
		return nil, nil, err
	}
	if p.batch > 0 {
		p.held = append(p.held, in)
		if len(p.held) < p.batch {
			return nil, nil, nil
		}
		ids := p.heldIDs()
		o, i := p.emit(ids)
		return o, i, nil
	}
	ids := p.w.children(p.layer, in.id)
	if p.stream {
		for _, id := range ids {
			p.queue = append(p.queue, item{id: id})
		}
		if len(ids) > 0 && p.calls%3 == 0 {
			// The processing already has some output.
			p.queue = p.queue[1:]
			o, i := p.emit(ids[:1])
			return o, i, pip.StreamOutput
		}
		return nil, nil, pip.StreamOutput
	}
	o, i := p.emit(ids)
	return o, i, p.autoStop()
}

func (p *part) heldIDs() []uint64 {
	var ids []uint64
	for _, h := range p.held {
		ids = append(ids, p.w.children(p.layer, h.id)...)
	}
	p.held = nil
	return ids
}

// autoStop ends the stage every few items if it is resumed automatically.
func (p *part) autoStop() error {
	if p.w.earlyAt > 0 && p.layer == p.w.earlyLayer && p.w.counts[p.layer][0].Load() >= p.w.earlyAt {
		p.w.earlyDone.Store(true)
		return pip.NoMoreData
	}
	if p.w.autoEvery > 0 && p.layer == p.w.autoLayer {
		p.w.autoSeen++
		if p.w.autoSeen%p.w.autoEvery == 0 {
			return pip.NoMoreData
		}
	}
	return nil
}

func (p *part) streamOn(outs *[]item, idx *[]int) error {
	defer p.enter("stream")()
	p.sent = p.sent[:0]
	if err := p.fail("stream"); err != nil {
		*outs, *idx = (*outs)[:0], (*idx)[:0]
		return err
	}
	if len(p.queue) == 0 {
		*outs, *idx = (*outs)[:0], (*idx)[:0]
		if p.calls%2 == 0 {
			return pip.NoMoreData
		}
		return nil
	}
	n := 1
	if p.calls%5 == 0 {
		n = len(p.queue)
	}
	var ids []uint64
	for _, q := range p.queue[:n] {
		ids = append(ids, q.id)
	}
	p.queue = p.queue[n:]
	*outs, *idx = p.emit(ids)
	if len(p.queue) == 0 && p.calls%4 < 2 {
		// The last outputs come along with the end of streaming.
		if p.calls%2 == 0 {
			return pip.NoMoreData
		}
		return nil
	}
	return pip.StreamOutput
}

func (p *part) noMore() ([]item, []int, error) {
	defer p.enter("flush")()
	p.sent = p.sent[:0]
	p.flush++
	if p.w.autoEvery > 0 && p.layer == p.w.autoLayer {
		p.w.autoClosed.Store(true)
	}
	if err := p.fail("flush"); err != nil {
		return nil, nil, err
	}
	o, i := p.emit(p.heldIDs())
	return o, i, nil
}

func (p *part) sink(in item) error {
	defer p.enter("process")()
	p.receive(in)
	if err := p.fail("process"); err != nil {
		return err
	}
	return p.autoStop()
}

func (p *part) sinkNoMore() ([]pip.None, []int, error) {
	defer p.enter("flush")()
	p.flush++
	if p.w.autoEvery > 0 && p.layer == p.w.autoLayer {
		p.w.autoClosed.Store(true)
	}
	return nil, nil, p.fail("flush")
}

// generate is a source function.
func (p *part) generate() ([]item, []int, error) {
	defer p.enter("process")()
	if err := p.fail("process"); err != nil {
		return nil, nil, err
	}
	var ids []uint64
	w := p.w
	for k := 0; k < w.perCall && (w.endless || w.next < w.n); k++ {
		id := w.sourceID(w.next)
		w.next++
		p.got = append(p.got, item{id: id})
		ids = append(ids, id)
	}
	o, i := p.emit(ids)
	if !w.endless && w.next >= w.n {
		if w.autoEvery > 0 && p.layer == w.autoLayer {
			w.autoClosed.Store(true)
		}
		return o, i, pip.NoMoreData
	}
	return o, i, p.autoStop()
}

// choose is the function of sources that read a channel or slice.
func (p *part) choose(in item) ([]int, error) {
	defer p.enter("process")()
	p.got = append(p.got, in)
	if err := p.fail("process"); err != nil {
		return nil, err
	}
	outs := p.w.outsOf(p.layer, in.id, p.outs)
	p.put[in.id] += len(outs)
	return outs, nil
}

// build makes the pipeline of the layers.
func (w *world) build() error {
	w.stages = make([][]*stage, len(w.layers))
	for l, ly := range w.layers {
		for _, p := range ly.parts {
			p := p
			name := fmt.Sprintf("p%d.%d", l, p.idx)
			switch {
			case l == 0:
				var s *pip.Source[item]
				switch w.srcKind {
				case srcFunc:
					s = pip.NewSource[item](name, pip.WithMultiOutputChannels[pip.None, item](p.outs),
						sourceMode(p), pip.WithSourceFunction(p.generate))
				case srcChan:
					s = pip.NewSource[item](name, pip.WithMultiOutputChannels[pip.None, item](p.outs),
						sourceMode(p), pip.WithSourceChannel(&w.ch, p.choose))
				case srcSlice:
					s = pip.NewSource[item](name, pip.WithMultiOutputChannels[pip.None, item](p.outs),
						sourceMode(p), pip.WithSourceSlice(&w.slice, func(in item) (int, error) {
							o, err := p.choose(in)
							if len(o) == 0 {
								o = []int{0}
							}
							return o[0], err
						}))
				}
				w.src = s
				w.all = append(w.all, s)
			case p.isSink:
				var s *pip.Sink[item]
				if p.inSeq {
					s = pip.NewSink[item](name, pip.WithMultiInputChannels[item, pip.None](p.ins),
						pip.WithSequentialInputs[item, pip.None](),
						pip.WithSinkFunction(p.sink), pip.WithOnNoMoreData[item, pip.None](p.sinkNoMore))
				} else {
					s = pip.NewSink[item](name, pip.WithMultiInputChannels[item, pip.None](p.ins),
						pip.WithSinkFunction(p.sink), pip.WithOnNoMoreData[item, pip.None](p.sinkNoMore))
				}
				w.sinks = append(w.sinks, s)
				w.all = append(w.all, s)
			default:
				in := pip.WithConcurrentInputs[item, item]()
				if p.inSeq {
					in = pip.WithSequentialInputs[item, item]()
				}
				out := pip.WithConcurrentOutputs[item, item]()
				switch p.outMode {
				case outSeq:
					out = pip.WithSequentialOutputs[item, item]()
				case outCyc:
					out = pip.WithCyclesAllowedSequentialOutputs[item, item]()
				}
				s := pip.NewStage[item, item](name,
					pip.WithMultiInputChannels[item, item](p.ins),
					pip.WithMultiOutputChannels[item, item](p.outs),
					in, out,
					pip.WithProcessFunction(p.process),
					pip.WithOutputStreamingFunction[item, item](p.streamOn),
					pip.WithOnNoMoreData[item, item](p.noMore),
					pip.WithOnErrorSending[item, item](p.notSent))
				w.stages[l] = append(w.stages[l], s)
				w.all = append(w.all, s)
			}
		}
	}
	return nil
}

func sourceMode(p *part) interface {
	ApplyToStage(*pip.Stage[pip.None, item])
	ApplyToSource(*pip.Source[item])
	ApplyToSink(*pip.Sink[pip.None])
} {
	switch p.outMode {
	case outSeq:
		return pip.WithSequentialOutputs[pip.None, item]()
	case outCyc:
		return pip.WithCyclesAllowedSequentialOutputs[pip.None, item]()
	}
	return pip.WithConcurrentOutputs[pip.None, item]()
}

// linkLayers links layers from..to-1 with their next.
func (w *world) linkLayers(from, to int) {
	for l := from; l < to; l++ {
		last := l+1 == len(w.layers)-1
		switch {
		case l == 0 && last:
			linkTwo(w.layers[l].link, []*pip.Stage[pip.None, item]{pip.SourceAsStage(w.src)}, w.sinkStages())
		case l == 0:
			linkTwo(w.layers[l].link, []*pip.Stage[pip.None, item]{pip.SourceAsStage(w.src)}, w.stages[1])
		case last:
			linkTwo(w.layers[l].link, w.stages[l], w.sinkStages())
		default:
			linkTwo(w.layers[l].link, w.stages[l], w.stages[l+1])
		}
	}
}

func (w *world) sinkStages() []*pip.Stage[item, pip.None] {
	var res []*pip.Stage[item, pip.None]
	for _, s := range w.sinks {
		res = append(res, pip.SinkAsStage(s))
	}
	return res
}

func linkTwo[A, B any](kind int, prev []*pip.Stage[A, item], next []*pip.Stage[item, B]) {
	switch kind {
	case linkFull:
		if len(prev) == 1 {
			pip.LinkStagesFanOut(prev[0], next...)
			return
		}
		for i, p := range prev {
			for j, n := range next {
				pip.LinkStagesAt(p, j, n, i)
			}
		}
	case linkZip:
		for i, p := range prev {
			pip.LinkStagesAt(p, 0, next[i], 0)
		}
	case linkShared:
		if len(prev) == 1 {
			pip.LinkStagesDistribute(prev[0], next...)
		} else {
			pip.LinkStagesCrissCross(prev, next)
		}
	case linkGather:
		g := len(prev) / len(next)
		for i, p := range prev {
			pip.LinkStagesAt(p, 0, next[i/g], i%g)
		}
	case linkScatter:
		g := len(next) / len(prev)
		for j, n := range next {
			pip.LinkStagesAt(prev[j/g], j%g, n, 0)
		}
	}
}

// reset prepares for a run.
func (w *world) reset() {
	if w.counts == nil {
		w.counts = make([][3]atomic.Int32, len(w.layers))
	}
	for l, ly := range w.layers {
		for k := range w.counts[l] {
			w.counts[l][k].Store(0)
		}
		for _, p := range ly.parts {
			p.got, p.put, p.calls, p.seqs = nil, map[uint64]int{}, 0, make([]int32, p.outs)
			p.held, p.queue, p.last, p.flush = nil, nil, map[int32][2]int32{}, 0
			p.sent, p.unsent = nil, nil
		}
	}
	w.next = 0
	w.inj = nil
	w.given = nil
	w.endless = false
	w.order, w.reports = nil, nil
	w.notSentCalls.Store(0)
	w.notSentItems.Store(0)
	w.autoClosed.Store(false)
	w.autoSeen = 0
	w.earlyAt = 0
	w.earlyDone.Store(false)
	w.resumes.Store(0)
	w.slice = w.slice[:0:0]
	src := w.layers[0].parts[0]
	for i := 0; i < w.n; i++ {
		w.slice = append(w.slice, item{id: w.sourceID(i), from: int32(src.uid * 64), call: int32(i + 1), seq: int32(i + 1)})
	}
}

// feed writes to the source channel until done.
func (w *world) feed(stop <-chan struct{}) <-chan struct{} {
	ch := make(chan item)
	w.ch = ch
	src := w.layers[0].parts[0]
	n, endless := w.n, w.endless
	return lib.Go(func() {
		defer close(ch)
		for i := 0; endless || i < n; i++ {
			select {
			case ch <- item{id: w.sourceID(i), from: int32(src.uid * 64), call: int32(i + 1), seq: int32(i + 1)}:
			case <-stop:
				return
			}
		}
	})
}

func (w *world) shape() string {
	var b strings.Builder
	if w.joint != "" {
		fmt.Fprintf(&b, "%s ", w.joint)
	}
	fmt.Fprintf(&b, "s%d", w.srcKind)
	for l, ly := range w.layers {
		p := ly.parts[0]
		x := ""
		if p.stream {
			x += "~"
		}
		if p.batch > 0 {
			x += "#"
		}
		if p.inSeq {
			x += "="
		}
		fmt.Fprintf(&b, " %d%s%s", len(ly.parts), []string{"", "q", "c"}[p.outMode], x)
		if l+1 < len(w.layers) {
			fmt.Fprintf(&b, " %s", linkNames[ly.link])
		}
	}
	if w.autoEvery > 0 {
		fmt.Fprintf(&b, " auto@%d", w.autoLayer)
	}
	if w.second != nil {
		fmt.Fprintf(&b, " => %s", w.second.shape())
	}
	return b.String()
}

// run resumes the pipeline, waits and checks what was observed. It returns false to stop the case.
func (w *world) run(ctx context.Context, detail string) bool {
	r := w.r
	stop := make(chan struct{})
	var fed <-chan struct{}
	if w.srcKind == srcChan {
		fed = w.feed(stop)
	}
	var err error
	done := lib.Go(func() {
		w.p.Resume(ctx)
		err = w.p.Wait(ctx)
	})
	what := fmt.Sprintf("%s; %s", w.shape(), detail)
	if !r.WaitDoneFor(w.key+"/end", "pipeline does not end: "+what, done, 45*time.Second) {
		r.Stop()
		return false
	}
	ev := w.worked()
	close(stop)
	if fed != nil {
		<-fed
	}
	worlds := []*world{w}
	if w.second != nil {
		worlds = append(worlds, w.second)
	}
	fired, planned := 0, 0
	for _, x := range worlds {
		planned += len(x.inj)
		for _, i := range x.inj {
			if i.fired.Load() {
				fired++
				if err == nil {
					r.Violatedf(w.key+"/hidden", "part failed (%v) and the pipeline reports success: %s", i, what)
				} else if !strings.Contains(err.Error(), i.Error()) {
					r.Violatedf(w.key+"/other-error", "part failed (%v) and the pipeline reports only %q: %s", i, err, what)
				}
			}
		}
	}
	if fired == 0 && err != nil {
		r.Violatedf(w.key+"/false-error", "nothing failed and the pipeline reports %q: %s", err, what)
	}
	if ok, dump := lib.SettleGoroutines("/pkg/pipeline/"); !ok {
		r.Violation(w.key+"/running", "something keeps running after the pipeline ended: "+what, dump)
		r.Stop()
		return false
	}
	if now := w.worked(); now != ev {
		r.Violatedf(w.key+"/late", "parts still worked after Wait returned (%d events): %s", now-ev, what)
	}
	w.stall.ended(what)
	r.Count("runs", 1)
	if planned > 0 {
		r.Count("runs with failures planned", 1)
		if fired > 0 {
			r.Count("runs with a failing part", 1)
		}
		if fired > 1 {
			r.Count("runs with several failing parts", 1)
		}
	}
	r.Seen("shapes", w.shape())
	w.check(fired, what)
	if w.second != nil {
		w.second.given = map[uint64]int{}
		for _, p := range w.layers[len(w.layers)-1].parts {
			for _, it := range p.got {
				w.second.given[it.id]++
			}
		}
		w.second.check(fired, what+" (second pipeline)")
	}
	return true
}

// worked tells how many events parts had.
func (w *world) worked() int64 {
	if w.second != nil {
		return w.events.Load() + w.second.events.Load()
	}
	return w.events.Load()
}

// check compares what the parts observed in a run with what they had to.
func (w *world) check(fired int, what string) {
	r := w.r
	var sched []uint64
	bad := func(key, f string, a ...any) {
		r.Violatedf(w.key+"/"+key, "%s: %s", fmt.Sprintf(f, a...), what)
	}
	exp := w.expected()
	if w.endless {
		exp = nil
	}
	for l, ly := range w.layers {
		got := map[uint64]int{}
		for _, p := range ly.parts {
			sched = append(sched, uint64(len(p.got)))
			for _, it := range p.got {
				got[it.id]++
				sched = append(sched, it.id)
			}
		}
		total := 0
		for _, c := range got {
			total += c
		}
		r.Count("items processed", total)
		if l > 0 || w.given != nil {
			put := map[uint64]int{}
			if l == 0 {
				put = w.given
			} else {
				for _, p := range w.layers[l-1].parts {
					for id, c := range p.put {
						put[id] += c
					}
				}
			}
			for id, c := range got {
				if c > put[id] {
					bad("invented", "layer %d processed an item %d times that was put %d times", l, c, put[id])
					break
				}
			}
			if fired == 0 && (!w.earlyDone.Load() || l > w.earlyLayer) {
				for id, c := range put {
					if c != got[id] {
						bad("lost", "layer %d processed an item %d times that was put %d times", l, got[id], c)
						break
					}
				}
			}
		}
		if fired == 0 && exp != nil && !w.earlyDone.Load() {
			if !same(got, exp[l]) {
				bad("content", "layer %d processed %d items of which not all are the expected %d", l, len(got), len(exp[l]))
			}
			for _, p := range ly.parts {
				if len(p.held) > 0 || len(p.queue) > 0 {
					bad("held", "%s still holds items", p)
				}
				if l > 0 && p.flush != 1 && w.autoEvery == 0 {
					bad("flush", "%s was told %d times that there is no more data", p, p.flush)
				}
			}
		}
	}
	// What was reported as not sent never arrives.
	w.arrivals()
	for _, p := range w.layersAll() {
		for _, it := range p.unsent {
			if w.arrived[[2]int32{it.from, it.seq}] {
				bad("unsent", "%s was told that output %d of call %d was not sent, and it was received", p, it.seq, it.call)
				break
			}
		}
	}
	for _, o := range w.reports {
		bad("report", "%s", o)
	}
	r.Count("calls told that sending failed", int(w.notSentCalls.Load()))
	r.Count("outputs reported as not sent", int(w.notSentItems.Load()))
	if n := w.notSentCalls.Load(); n > 0 && fired == 0 && !w.earlyDone.Load() && w.autoEvery == 0 {
		bad("report", "%d calls were told that sending failed, and nothing did", n)
	}
	for _, o := range w.order {
		bad("order", "items of one link out of order: %s", o)
	}
	r.Seen("schedules", sched)
}

func (w *world) layersAll() []*part {
	var res []*part
	for _, ly := range w.layers {
		res = append(res, ly.parts...)
	}
	return res
}

// arrivals notes the link and number of all items that were received, also in the other of two joined
// pipelines.
func (w *world) arrivals() {
	w.arrived = map[[2]int32]bool{}
	for _, p := range w.layersAll() {
		if p.layer == 0 {
			continue
		}
		for _, it := range p.got {
			w.arrived[[2]int32{it.from, it.seq}] = true
		}
	}
}

func same(a, b map[uint64]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}
