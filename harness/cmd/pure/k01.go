package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/common"
	psync "github.com/netsec-ethz/fpki/pkg/sync"
	"github.com/netsec-ethz/fpki/pkg/util/noallocs"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func k01(r *lib.R) {
	r.Rule("concurrent histories of presence caches with 1-4 writers and 1-8 readers, every answer checked against the interval in which the element was being added; bounded caches against a model; spinning locks of 1-64 workers arriving in random order with random pauses")
	r.Assume("workers of a spinning lock are numbered 0..n-1 and each takes it once, as in the code base")
	presence(r)
	bounded(r)
	spin(r)
	ring(r)
}

func idOf(k int) *common.SHA256Output {
	h := common.SHA256Hash32Bytes([]byte(fmt.Sprint("id", k)))
	return &h
}

// pause gives other goroutines a chance in one of several ways.
func pause(rnd *rand.Rand) {
	switch rnd.IntN(6) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := rnd.IntN(200); i > 0; i-- {
			_ = i
		}
	}
}

func presence(r *lib.R) {
	rounds := r.N(60, 900)
	for c := 0; c < rounds; c++ {
		rnd := r.Rand("presence", c)
		nIDs := 20 + rnd.IntN(300)
		writers := 1 + rnd.IntN(4)
		readers := 1 + rnd.IntN(8)
		overlap := rnd.IntN(3) == 0 // several writers add the same elements
		pc := cache.NewPresenceCache(rnd.IntN(3) * nIDs / 2)
		// started is set before an addition is called, done after it returned.
		started := make([]atomic.Bool, nIDs+20) // the last 20 are never added
		done := make([]atomic.Bool, nIDs+20)
		ids := make([]*common.SHA256Output, nIDs+20)
		for i := range ids {
			ids[i] = idOf(i)
		}
		var completed, finished atomic.Int64
		var during, present, absent atomic.Int64
		var wg, rg sync.WaitGroup
		for w := 0; w < writers; w++ {
			wrnd := r.Rand("presence-w", c, w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer finished.Add(1)
				var mine []int
				for i := 0; i < nIDs; i++ {
					if overlap || i%writers == w {
						mine = append(mine, i)
					}
				}
				wrnd.Shuffle(len(mine), func(a, b int) { mine[a], mine[b] = mine[b], mine[a] })
				for len(mine) > 0 {
					k := min(len(mine), wrnd.IntN(12))
					b := mine[:k]
					mine = mine[k:]
					args := make([]*common.SHA256Output, k)
					for i, x := range b {
						started[x].Store(true)
						cp := *ids[x]
						args[i] = &cp
					}
					pc.AddIDs(args...)
					for i, x := range b {
						*args[i] = common.SHA256Output{} // the caller reuses its storage
						done[x].Store(true)
						completed.Add(1)
					}
					if wrnd.IntN(3) == 0 {
						// An element one has just added is present.
						for _, x := range b {
							if !pc.Contains(ids[x]) {
								r.Violatedf("presence-own", "an element whose addition completed is reported absent")
							}
						}
					}
					pause(wrnd)
				}
			}()
		}
		for q := 0; q < readers; q++ {
			qrnd := r.Rand("presence-r", c, q)
			rg.Add(1)
			go func() {
				defer rg.Done()
				last := 0
				for i := 0; i < 4000; i++ {
					if finished.Load() == int64(writers) && i > 300 {
						break
					}
					x := qrnd.IntN(nIDs + 20)
					wasDone := done[x].Load()
					got := pc.Contains(ids[x])
					wasStarted := started[x].Load()
					switch {
					case wasDone && !got:
						r.Violatedf("presence-lost", "an element whose addition completed is reported absent")
					case got && !wasStarted:
						r.Violatedf("presence-invented", "an element never added is reported present")
					case got:
						present.Add(1)
					default:
						absent.Add(1)
					}
					if wasStarted && !wasDone {
						during.Add(1)
					}
					if qrnd.IntN(50) == 0 {
						s := pc.Size()
						if s < last || s > nIDs {
							r.Violatedf("presence-size", "size went from %d to %d with %d elements", last, s, nIDs)
						}
						last = s
					}
					pause(qrnd)
				}
			}()
		}
		all := lib.Go(func() { wg.Wait(); rg.Wait() })
		if !r.WaitDone("presence-hang", "presence cache under concurrent use", all) {
			return
		}
		r.Count("presence answers positive", int(present.Load()))
		r.Count("presence answers negative", int(absent.Load()))
		r.Count("presence queries overlapping the addition", int(during.Load()))
		r.Case(during.Load() > 0, "presence", c, writers, readers)
		if s := pc.Size(); s != nIDs {
			r.Violatedf("presence-size-end", "%d elements added, size is %d", nIDs, s)
		}
		for i := range ids {
			if pc.Contains(ids[i]) != (i < nIDs) {
				r.Violatedf("presence-end", "element %d of %d at the end", i, nIDs)
				break
			}
		}
	}
	var none cache.Cache = cache.NewNoCache()
	none.AddIDs(idOf(1), idOf(2))
	if none.Contains(idOf(1)) {
		r.Violatedf("nocache", "the cache which stores nothing contains an element")
	}
}

func bounded(r *lib.R) {
	for c := 0; c < r.N(400, 6000); c++ {
		rnd := r.Rand("lru", c)
		capa := 1 + rnd.IntN(12)
		universe := 1 + rnd.IntN(30)
		lru := cache.NewLruCache(capa)
		var recent []int // most recently added last
		for step := 0; step < 60; step++ {
			var args []*common.SHA256Output
			for k := rnd.IntN(5); k > 0; k-- {
				x := rnd.IntN(universe)
				args = append(args, idOf(x))
				for i, y := range recent {
					if y == x {
						recent = append(recent[:i], recent[i+1:]...)
						break
					}
				}
				recent = append(recent, x)
			}
			lru.AddIDs(args...)
			if lru.Len() > capa {
				r.Violatedf("lru-size", "a cache for %d elements has %d", capa, lru.Len())
			}
			cnt := 0
			for x := 0; x < universe+3; x++ {
				rank := -1
				for i, y := range recent {
					if y == x {
						rank = len(recent) - i
					}
				}
				got := lru.Contains(idOf(x))
				if got {
					cnt++
				}
				if got && rank < 0 {
					r.Violatedf("lru-invented", "an element never added is reported present")
				}
				if !got && rank > 0 && rank <= capa {
					r.Violatedf("lru-lost", "the %d-th last added element is missing in a cache for %d", rank, capa)
				}
			}
			if cnt > capa {
				r.Violatedf("lru-size", "a cache for %d elements contains %d", capa, cnt)
			}
		}
		r.Case(universe > capa, "lru", capa, universe, c)
	}
	// Concurrent use.
	for c := 0; c < r.N(10, 150); c++ {
		capa := 1 + c*3
		lru := cache.NewLruCache(capa)
		var started [64]atomic.Bool
		var wg sync.WaitGroup
		for w := 0; w < 6; w++ {
			rnd := r.Rand("lru-c", c, w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 400; i++ {
					x := rnd.IntN(60)
					if w < 3 {
						started[x].Store(true)
						lru.AddIDs(idOf(x))
						continue
					}
					x = rnd.IntN(64)
					if lru.Contains(idOf(x)) && !started[x].Load() {
						r.Violatedf("lru-invented", "an element never added is reported present")
					}
					if lru.Len() > capa {
						r.Violatedf("lru-size", "a cache for %d elements has %d", capa, lru.Len())
					}
				}
			}()
		}
		if !r.WaitDone("lru-hang", "bounded cache", lib.Go(wg.Wait)) {
			return
		}
		r.Case(true, "lru-concurrent", capa)
	}
}

func spin(r *lib.R) {
	for c := 0; c < r.N(150, 2500); c++ {
		rnd := r.Rand("spin", c)
		n := 1 + rnd.IntN(64)
		if c%3 == 0 {
			n = 1 + rnd.IntN(5)
		}
		l := psync.NewSpinLock(n)
		shared := 0 // deliberately not atomic: the race detector watches it
		var order []int
		var holders atomic.Int32
		var wg sync.WaitGroup
		early := rnd.IntN(2) == 0 // Start before or after the workers
		if early {
			l.Start()
		}
		arrive := rnd.Perm(n)
		for _, w := range arrive {
			wrnd := r.Rand("spin-w", c, w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := wrnd.IntN(3); i > 0; i-- {
					runtime.Gosched()
				}
				l.Lock(w)
				if h := holders.Add(1); h != 1 {
					r.Violatedf("spin-holders", "%d holders of the lock", h)
				}
				v := shared
				for i := wrnd.IntN(3); i > 0; i-- {
					runtime.Gosched()
				}
				shared = v + 1
				order = append(order, w)
				holders.Add(-1)
				l.UnLock(w)
			}()
		}
		if !early {
			l.Start()
		}
		ch := lib.Go(func() {
			l.Wait()
			// All holders are through and what they wrote is visible here.
			if shared != n {
				r.Violatedf("spin-wait", "waiting returned after %d of %d holders", shared, n)
			}
			wg.Wait()
		})
		if !r.WaitDone("spin-hang", fmt.Sprintf("spinning lock with %d workers", n), ch) {
			return
		}
		for i, w := range order {
			if i != w {
				r.Violation("spin-order", "the lock was not handed on in the order of the workers", order)
				break
			}
		}
		if shared != n || len(order) != n {
			r.Violatedf("spin-lost", "%d of %d updates under the lock survived", shared, n)
		}
		r.Case(n > 1, "spin", n, fmt.Sprint(arrive))
	}
	if ok, st := lib.SettleGoroutines("pkg/sync.(*SpinLock)"); !ok {
		r.Violation("spin-leak", "a spinning lock keeps running after all workers finished", st)
	}
}

func ring(r *lib.R) {
	for size := 1; size < 8; size++ {
		k := 0
		rc := noallocs.NewRingCache(size, noallocs.WithPerNewElement(func(p *[]int) { k++; *p = []int{k} }))
		if k != size {
			r.Violatedf("ring-init", "%d of %d elements initialised", k, size)
		}
		rnd := r.Rand("ring", size)
		cur := 0
		for i := 0; i < 60; i++ {
			if got := rc.Current(); len(got) != 1 || got[0] != cur+1 {
				r.Violatedf("ring", "element %v is current, want %d", got, cur+1)
			}
			if rnd.IntN(2) == 0 {
				rc.Next()
			} else if got := rc.Rotate(); len(got) != 1 || got[0] != cur+1 {
				r.Violatedf("ring", "rotating returned %v, want %d", got, cur+1)
			}
			cur = (cur + 1) % size
		}
		r.Case(size > 1, "ring", size)
	}
}
