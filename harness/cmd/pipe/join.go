package main

import (
	"context"
	"fmt"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// joins checks pipelines made of two others.
func joins(r *lib.R, key string, n int, fail bool) {
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		if i%2 == 0 {
			if !joinRaw(r, key, i, fail) {
				return
			}
		} else if !joinTwo(r, key, i, fail) {
			return
		}
	}
}

// joinRaw splits a pipeline between two layers of stages, completes both parts with a sink and a
// source of their own, and joins them.
func joinRaw(r *lib.R, key string, i int, fail bool) bool {
	rng := r.Rand(key, "raw", i)
	w := generate(r, key, rng, true)
	for len(w.layers) < 4 {
		w = generate(r, key, rng, true)
	}
	w.joint = "raw"
	w.reset()
	if w.srcKind == srcChan {
		w.ch = make(chan item)
	}
	w.build()
	k := 1 + rng.IntN(len(w.layers)-3) // Last layer of the first pipeline.
	nk := len(w.stages[k])
	nn := len(w.stages[k+1])
	skipped := func(what string) {
		r.Violatedf(key+"/skipped", "the %s that was left out processes items: %s", what, w.shape())
	}
	dummySink := pip.NewSink[item]("left out",
		pip.WithMultiInputChannels[item, pip.None](nk),
		pip.WithSinkFunction(func(item) error { skipped("sink"); return nil }))
	dummySource := pip.NewSource[item]("left out",
		pip.WithMultiOutputChannels[pip.None, item](nn),
		pip.WithSourceFunction(func() ([]item, []int, error) {
			skipped("source")
			return nil, nil, pip.NoMoreData
		}))
	count := 0
	for l := 0; l <= k; l++ {
		count += len(w.layers[l].parts)
	}
	own := rng.IntN(2) == 0 // Whether to use the original link functions.
	p1, err := pip.NewPipeline(func(*pip.Pipeline) {
		w.linkLayers(0, k)
		for j, s := range w.stages[k] {
			pip.LinkStagesAt(s, 0, pip.SinkAsStage(dummySink), j)
		}
	}, pip.WithStages(append(append([]pip.StageLike{}, w.all[:count]...), dummySink)...))
	if err != nil {
		r.Violatedf(key+"/build", "%v", err)
		return true
	}
	p2, err := pip.NewPipeline(func(*pip.Pipeline) {
		for j, s := range w.stages[k+1] {
			pip.LinkStagesAt(pip.SourceAsStage(dummySource), j, s, 0)
		}
		w.linkLayers(k+1, len(w.layers)-1)
	}, pip.WithStages(append([]pip.StageLike{dummySource}, w.all[count:]...)...))
	if err != nil {
		r.Violatedf(key+"/build", "%v", err)
		return true
	}
	w.p = pip.JoinPipelinesRaw(func(*pip.Pipeline) {
		if own {
			p1.LinkFunction()(p1)
			p2.LinkFunction()(p2)
			w.linkLayers(k, k+1)
		} else {
			w.linkLayers(0, len(w.layers)-1)
		}
	}, p1, p2)
	runs := 1 + rng.IntN(3)
	for j := 0; j < runs; j++ {
		w.reset()
		if fail && (j == 0 || rng.IntN(3) > 0) {
			w.plan(2)
		}
		if !w.run(context.Background(), fmt.Sprintf("raw join case %d run %d of %d items, failures %v", i, j, w.n, w.inj)) {
			return false
		}
	}
	r.Count("raw joins", 1)
	r.Case(w.n > 0, "raw", w.shape(), w.n, i)
	return true
}

// joinTwo joins a pipeline with one sink and another one with a source that uses a channel.
func joinTwo(r *lib.R, key string, i int, fail bool) bool {
	rng := r.Rand(key, "two", i)
	var a, b *world
	for a == nil || len(a.layers[len(a.layers)-1].parts) != 1 || a.layers[len(a.layers)-2].link == linkShared {
		a = generate(r, key, rng, true)
	}
	b = generate(r, key, rng, true)
	b.srcKind = srcChan
	b.n = 0
	for _, ly := range b.layers {
		for _, p := range ly.parts {
			p.uid += 1000
		}
	}
	a.joint, a.second, b.first = "two", b, a
	if rng.IntN(2) == 0 {
		a.autoLayer = len(a.layers) - 1
		a.autoEvery = 1 + rng.IntN(9)
		b.autoLayer, b.autoEvery = -1, 1
	}
	if !b.finish() {
		return true
	}
	a.reset()
	if a.srcKind == srcChan {
		a.ch = make(chan item)
	}
	a.build()
	link := func(*pip.Pipeline) { a.linkLayers(0, len(a.layers)-1) }
	stages := pip.WithStages(a.all...)
	var p1 *pip.Pipeline
	var err error
	if a.autoEvery > 0 {
		failed := func() bool {
			for _, w := range []*world{a, b} {
				for _, j := range w.inj {
					if j.fired.Load() {
						return true
					}
				}
			}
			return false
		}
		p1, err = pip.NewPipeline(link, stages, pip.WithAutoResumeAtStage(len(a.all)-1,
			func() bool {
				if a.autoClosed.Load() || failed() {
					return false
				}
				a.resumes.Add(1)
				return true
			},
			func(*pip.Pipeline) {}))
	} else {
		p1, err = pip.NewPipeline(link, stages)
	}
	if err != nil {
		r.Violatedf(key+"/build", "%v", err)
		return true
	}
	a.p, err = pip.JoinTwoPipelines[item](p1, b.p)
	if err != nil {
		r.Violatedf(key+"/build", "%v", err)
		return true
	}
	runs := 1 + rng.IntN(3)
	for j := 0; j < runs; j++ {
		a.reset()
		b.reset()
		if fail && (j == 0 || rng.IntN(3) > 0) {
			switch rng.IntN(3) {
			case 0:
				a.plan(2)
			case 1:
				b.n = a.n
				b.plan(2)
			case 2:
				b.n = a.n
				a.plan(1)
				b.plan(1)
			}
		}
		if !a.run(context.Background(), fmt.Sprintf("join case %d run %d of %d items, every %d, failures %v %v", i, j, a.n, a.autoEvery, a.inj, b.inj)) {
			return false
		}
		r.Count("automatic resumptions of a whole second pipeline", int(a.resumes.Load()))
	}
	r.Count("two joined", 1)
	r.Case(a.n > 0, "two", a.shape(), a.n, i)
	return true
}
