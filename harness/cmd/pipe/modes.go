package main

import (
	"context"
	"fmt"
	"time"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// modes checks what the documentation says about the modes of inputs and outputs: a stage with
// concurrent or cycles-allowed outputs does not wait for one output before it offers the others, and
// a stage with sequential inputs takes one item of each input in turn. A part emits all the items of
// the last branch first, then those of the one before, etc., and the sink takes the branches in turn,
// which needs both.
func modes(r *lib.R, n int) {
	for i := 0; i < n && r.NViol() < 8; i++ {
		setProcs(i)
		rng := r.Rand("modes", i)
		k := 2 + rng.IntN(4)           // branches
		m := 1 + rng.IntN(5)           // items per branch and call
		calls := 1 + rng.IntN(4)       // calls of the part that splits
		depth := 1 + rng.IntN(2)       // stages per branch
		fromSource := rng.IntN(3) == 0 // the source splits
		useDefault := rng.IntN(4) == 0 // no option for the outputs
		cyc := rng.IntN(2) == 0
		toStage := rng.IntN(2) == 0 // a stage reads in turn, else the sink
		order := rng.Perm(k)        // order of branches in a call
		var outs []item
		var idx []int
		next := func() ([]item, []int) {
			outs, idx = outs[:0], idx[:0]
			for _, b := range order {
				for j := 0; j < m; j++ {
					outs = append(outs, item{id: uint64(len(outs)), from: int32(b)})
					idx = append(idx, b)
				}
			}
			return outs, idx
		}
		pulse := 0
		var got []int32
		take := func(in item) { got = append(got, in.from) }

		srcOuts := 1
		if fromSource {
			srcOuts = k
		}
		srcMode := pip.WithConcurrentOutputs[pip.None, item]()
		if cyc {
			srcMode = pip.WithCyclesAllowedSequentialOutputs[pip.None, item]()
		}
		if useDefault {
			srcMode = pip.WithMultiOutputChannels[pip.None, item](srcOuts)
		}
		src := pip.NewSource[item]("source", pip.WithMultiOutputChannels[pip.None, item](srcOuts), srcMode,
			pip.WithSourceFunction(func() ([]item, []int, error) {
				pulse++
				if pulse > calls {
					return nil, nil, pip.NoMoreData
				}
				if fromSource {
					o, i := next()
					return o, i, nil
				}
				return []item{{id: 1}}, []int{0}, nil
			}))
		all := []pip.StageLike{src}
		mode := pip.WithConcurrentOutputs[item, item]()
		if cyc {
			mode = pip.WithCyclesAllowedSequentialOutputs[item, item]()
		}
		if useDefault {
			mode = pip.WithMultiOutputChannels[item, item](k)
		}
		var split *stage
		if !fromSource {
			split = pip.NewStage[item, item]("split", pip.WithMultiOutputChannels[item, item](k), mode,
				pip.WithProcessFunction(func(item) ([]item, []int, error) {
					o, i := next()
					return o, i, nil
				}))
			all = append(all, split)
		}
		branches := make([][]*stage, k)
		for b := range branches {
			for d := 0; d < depth; d++ {
				s := pip.NewStage[item, item](fmt.Sprintf("branch %d.%d", b, d),
					pip.WithProcessFunction(func(in item) ([]item, []int, error) {
						return []item{in}, []int{0}, nil
					}))
				branches[b] = append(branches[b], s)
				all = append(all, s)
			}
		}
		var merge *stage
		var sink *pip.Sink[item]
		if toStage {
			merge = pip.NewStage[item, item]("merge", pip.WithMultiInputChannels[item, item](k),
				pip.WithSequentialInputs[item, item](),
				pip.WithProcessFunction(func(in item) ([]item, []int, error) {
					take(in)
					return []item{in}, []int{0}, nil
				}))
			sink = pip.NewSink[item]("sink", pip.WithSinkFunction(func(item) error { return nil }))
			all = append(all, merge)
		} else {
			sink = pip.NewSink[item]("sink", pip.WithMultiInputChannels[item, pip.None](k),
				pip.WithSequentialInputs[item, pip.None](),
				pip.WithSinkFunction(func(in item) error { take(in); return nil }))
		}
		all = append(all, sink)
		p, err := pip.NewPipeline(func(*pip.Pipeline) {
			if !fromSource {
				pip.LinkStagesAt(pip.SourceAsStage(src), 0, split, 0)
			}
			for b, br := range branches {
				if fromSource {
					pip.LinkStagesAt(pip.SourceAsStage(src), b, br[0], 0)
				} else {
					pip.LinkStagesAt(split, b, br[0], 0)
				}
				for d := 1; d < depth; d++ {
					pip.LinkStagesAt(br[d-1], 0, br[d], 0)
				}
				if toStage {
					pip.LinkStagesAt(br[depth-1], 0, merge, b)
				} else {
					pip.LinkStagesAt(br[depth-1], 0, pip.SinkAsStage(sink), b)
				}
			}
			if toStage {
				pip.LinkStagesAt(merge, 0, pip.SinkAsStage(sink), 0)
			}
		}, pip.WithStages(all...))
		what := fmt.Sprintf("%d branches of depth %d in order %v, %d calls with %d items per branch, split by source %v, default mode %v, cycles-allowed mode %v, merged by a stage %v",
			k, depth, order, calls, m, fromSource, useDefault, cyc, toStage)
		if err != nil {
			r.Violatedf("P01/build", "%s: %v", what, err)
			return
		}
		for run := 0; run < 2; run++ {
			pulse, got = 0, nil
			done := lib.Go(func() {
				p.Resume(context.Background())
				err = p.Wait(context.Background())
			})
			if !r.WaitDoneFor("P01/modes-end", "a pipeline whose outputs do not wait for each other and whose inputs are read in turn does not end: "+what, done, 45*time.Second) {
				r.Stop()
				return
			}
			if err != nil {
				r.Violatedf("P01/modes-error", "%v: %s", err, what)
			}
			if len(got) != k*m*calls {
				r.Violatedf("P01/modes-count", "%d items arrived of %d: %s", len(got), k*m*calls, what)
			}
			for j, b := range got {
				if int(b) != j%k {
					r.Violatedf("P01/modes-turn", "item %d read in turn comes from input %d instead of %d: %s", j, b, j%k, what)
					break
				}
			}
			r.Count("items taken in turn", len(got))
		}
		r.Count("runs with inputs read in turn", 2)
		r.Case(true, "modes", what)
	}
}
