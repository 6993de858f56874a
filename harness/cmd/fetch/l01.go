package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/ctlog"
	"github.com/netsec-ethz/fpki/zzverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
)

const bgFrame = "/mapserver/logfetcher."

type l01run struct {
	r    *lib.R
	pool []*certs.Leaf
	ents []ctlog.Entry
}

func (w *l01run) at(i int64) *certs.Leaf       { return w.pool[i%int64(len(w.pool))] }
func (w *l01run) entry(i int64) ctlog.Entry    { return w.ents[i%int64(len(w.ents))] }

func l01(r *lib.R) {
	r.Rule("one case: one fetcher used against one loopback log: range, batch sizes, answer sizes, failure or stop placement; " +
		"distinct by these")
	r.Assume("the log delivers the entries it was asked for (entries are not yet verified against the tree head)")
	w := &l01run{r: r, pool: pool(397, false)}
	for i, l := range w.pool {
		w.ents = append(w.ents, ctlog.EntryOf(l, uint64(i)))
	}
	r.Par(r.N(320, 6000), func(i int) { w.ranges(i) })
	if r.NViol() == 0 {
		w.def()
		if r.Thorough() {
			w.def()
		}
	}
	if r.NViol() == 0 {
		r.ParW(4, r.N(200, 4000), func(i int) { w.stop(i) })
		if ok, st := lib.SettleGoroutines(bgFrame); !ok {
			r.Violation("leak:stop", "fetching goes on after it was stopped", st)
		}
	}
	if r.NViol() == 0 {
		r.Par(r.N(60, 600), func(i int) { w.all(i) })
		if ok, st := lib.SettleGoroutines(bgFrame); !ok {
			r.Violation("leak:all", "fetching goes on after FetchAllCertificates returned", st)
		}
	}
}

// faults an answer may have
var faults = []string{"", "", "", "", "empty", "toomany", "status", "status429", "garbage", "badleaf", "badtls", "badcert", "badextra",
	"badchain", "abort", "beyond", "notentries"}

// answerer builds the answer function: answers of varying size, with one fault at one request.
func (w *l01run) answerer(rng *rand.Rand, fault string, at int, hit *atomic.Bool) ctlog.Answer {
	mode := rng.IntN(4)
	k := int64(1 + rng.IntN(9))
	var mu sync.Mutex
	return func(n int, start, end, size int64) ctlog.Reply {
		mu.Lock()
		defer mu.Unlock()
		rep := ctlog.Full(n, start, end, size)
		switch mode {
		case 1:
			rep.To = min(rep.To, start+k-1)
		case 2:
			rep.To = min(rep.To, start+rng.Int64N(k+3))
		case 3:
			if n%2 == 0 {
				rep.To = min(rep.To, start)
			}
		}
		if start >= size || start > end {
			return ctlog.Reply{Status: 400, Body: []byte("bad range")}
		}
		if fault == "" || n != at {
			return rep
		}
		hit.Store(true)
		one := func(e ctlog.Entry) ctlog.Reply {
			good := w.entry(start)
			if end == start {
				return ctlog.Reply{Body: []byte(fmt.Sprintf(`{"entries":[{"leaf_input":%q,"extra_data":%q}]}`, e.LeafInput, e.ExtraData))}
			}
			return ctlog.Reply{Body: []byte(fmt.Sprintf(`{"entries":[{"leaf_input":%q,"extra_data":%q},{"leaf_input":%q,"extra_data":%q}]}`,
				good.LeafInput, good.ExtraData, e.LeafInput, e.ExtraData))}
		}
		b64 := base64.StdEncoding.EncodeToString
		switch fault {
		case "empty":
			return ctlog.Reply{From: 0, To: -1}
		case "toomany":
			return ctlog.Reply{From: start, To: end + 1 + rng.Int64N(5)}
		case "status":
			return ctlog.Reply{Status: 500, Body: []byte("no")}
		case "status429":
			return ctlog.Reply{Status: 429, Body: []byte("slow down")}
		case "garbage":
			return ctlog.Reply{Body: []byte(`{"entries": [{`)}
		case "notentries":
			return ctlog.Reply{Body: []byte(`{"something": 1}`)}
		case "badleaf":
			return one(ctlog.Entry{LeafInput: "!!!", ExtraData: ""})
		case "badtls":
			return one(ctlog.Entry{LeafInput: b64([]byte{0, 0, 1}), ExtraData: b64([]byte{0, 0, 0})})
		case "badextra":
			return one(ctlog.Entry{LeafInput: w.entry(start).LeafInput, ExtraData: b64([]byte{9, 9})})
		case "badcert":
			l := *w.at(start)
			l.DER = append([]byte{0x30, 0x82}, l.DER[4:40]...)
			return one(ctlog.EntryOf(&l, 1))
		case "badchain":
			l := *w.at(start)
			l.CA = &certs.CA{DER: []byte{0x30, 3, 1, 2, 3}}
			return one(ctlog.EntryOf(&l, 1))
		case "beyond":
			return ctlog.Reply{Status: 400, Body: []byte("range")}
		case "abort":
			return ctlog.Reply{Before: func() { panic("abort") }}
		}
		return rep
	}
}

// collect reads batches until the end and checks them as a prefix of the range.
func (w *l01run) collect(ctx context.Context, f logfetcher.Fetcher, s, e int64, maxBatch int64, key string) (n int64, err error) {
	for f.NextBatch(ctx) {
		cs, chains, excl, berr := f.ReturnNextBatch()
		if berr != nil {
			return n, berr
		}
		if len(cs) != len(chains) {
			w.r.Violatedf("chains:"+key, "%d certificates with %d chains", len(cs), len(chains))
			return n, nil
		}
		if excl != 0 {
			w.r.Violatedf("excluded:"+key, "%d entries excluded without reason", excl)
		}
		if maxBatch > 0 && int64(len(cs)) > maxBatch {
			w.r.Violatedf("batch:"+key, "a batch of %d, more than %d", len(cs), maxBatch)
		}
		for i := range cs {
			if s+n > e {
				w.r.Violatedf("more:"+key, "more entries than the range [%d,%d]", s, e)
				return n, nil
			}
			if d := same(&cs[i], chains[i], w.at(s+n)); d != "" {
				w.r.Violatedf("entry:"+key, "range [%d,%d]: %s delivered at position %d", s, e, d, n)
				return n, nil
			}
			n++
		}
		w.r.Count("batches delivered", 1)
	}
	return n, nil
}

func (w *l01run) ranges(ci int) {
	r := w.r
	rng := r.Rand("ranges", ci)
	size := int64(1 + rng.IntN(250))
	s := rng.Int64N(size)
	e := s - 1 + rng.Int64N(size-s+1)
	if rng.IntN(8) == 0 {
		s, e = 0, size-1
	}
	sb := int64(1 + rng.IntN(12))
	pb := int64(1 + rng.IntN(40))
	fault := faults[rng.IntN(len(faults))]
	if rng.IntN(10) == 0 {
		e = size + rng.Int64N(4) // beyond the end of the log
	}
	at := rng.IntN(6)
	var hit atomic.Bool
	log := ctlog.New(size, w.entry, w.answerer(rng, fault, at, &hit))
	defer log.Close()
	f, err := logfetcher.NewHttpLogFetcher(log.URL())
	if err != nil {
		r.Violatedf("new", "NewHttpLogFetcher: %v", err)
		return
	}
	if !setField(f, "serverBatchSize", sb) || !setField(f, "processBatchSize", pb) {
		sb, pb = 0, 0
	}
	if err := f.Initialize(time.Now()); err != nil {
		r.Violatedf("init", "Initialize: %v", err)
	}
	key := "range"
	if fault != "" {
		key = fault
	}
	ctx := context.Background()
	st, err := f.GetCurrentState(ctx, logfetcher.State{})
	if err != nil || int64(st.Size) != size {
		r.Violatedf("state", "state of a log of %d: %d, %v", size, st.Size, err)
	}
	// the same fetcher is used for several ranges in turn.
	for round := 0; round < 2; round++ {
		hit.Store(false)
		before := len(log.Requests())
		var n int64
		var ferr error
		again := true
		done := lib.Go(func() {
			f.StartFetching(s, e)
			n, ferr = w.collect(ctx, f, s, e, pb, key)
			if ferr == nil {
				again = f.NextBatch(ctx)
			} else {
				again = false
			}
			f.StopFetching()
		})
		if !r.WaitDone("hang:"+key, fmt.Sprintf("fetching [%d,%d] of %d with batches %d/%d and an answer %q at request %d",
			s, e, size, sb, pb, fault, at), done) {
			r.Stop()
		}
		either := fault == "abort" && hit.Load() // the request may be repeated transparently
		bad := ferr != nil && either || !either && hit.Load() || e >= size && s <= e // there is an answer that cannot be used
		r.Case(s <= e, size, s, e, sb, pb, fault, at, round)
		r.Count("entries delivered", int(n))
		r.Count("requests served", len(log.Requests())-before)
		r.Seen("request sequences", fmt.Sprint(log.Requests()))
		switch {
		case again:
			r.Violatedf("again:"+key, "a further batch after the end of the range")
		case bad && ferr == nil:
			r.Violatedf("silent:"+key, "range [%d,%d] of %d: an answer %q (request %d, batches %d/%d) led to %d entries and no error",
				s, e, size, fault, at, sb, pb, n)
		case !bad && ferr != nil:
			r.Violatedf("spurious:"+key, "range [%d,%d] of %d, batches %d/%d: error %v though the log answered well", s, e, size, sb, pb, ferr)
		case !bad && n != max(0, e-s+1):
			r.Violatedf("missing:"+key, "range [%d,%d] of %d, batches %d/%d: only %d entries", s, e, size, sb, pb, n)
		}
		if bad {
			r.Count("faulty answers reported as errors", 1)
		}
		if round == 0 {
			s = rng.Int64N(size)
			e = s + rng.Int64N(size-s)
			at = len(log.Requests()) + rng.IntN(4)
		}
	}
	r.Sample("log of %d, range [%d,%d], batches %d/%d, fault %q", size, s, e, sb, pb, fault)
}

// def uses the default batch sizes with a range longer than one processing batch.
func (w *l01run) def() {
	size := int64(16384 + 300)
	log := ctlog.New(size, w.entry, func(n int, start, end, size int64) ctlog.Reply {
		rep := ctlog.Full(n, start, end, size)
		if n%5 == 1 {
			rep.To = start + (rep.To-start)/3
		}
		return rep
	})
	defer log.Close()
	f, err := logfetcher.NewHttpLogFetcher(log.URL())
	if err != nil {
		w.r.Violatedf("new", "%v", err)
		return
	}
	var n int64
	done := lib.Go(func() {
		f.StartFetching(3, size-1)
		n, err = w.collect(context.Background(), f, 3, size-1, 0, "default")
		f.StopFetching()
	})
	if !w.r.WaitDoneFor("hang:default", "fetching with default sizes", done, 240*time.Second) {
		w.r.Stop()
	}
	w.r.Case(true, "default")
	w.r.Count("entries delivered", int(n))
	if err != nil || n != size-3 {
		w.r.Violatedf("missing:default", "default batch sizes: %d of %d entries, %v", n, size-3, err)
	}
}

// stop ends fetches at all kinds of points and starts others on the same fetcher.
func (w *l01run) stop(ci int) {
	r := w.r
	rng := r.Rand("stop", ci)
	size := int64(60 + rng.IntN(200))
	var f *logfetcher.HttpLogFetcher
	stopAt := rng.IntN(8) // stop while this request is being answered
	if rng.IntN(2) == 0 {
		stopAt = -1
	}
	take := rng.IntN(4) // batches read before stopping
	cancelled := rng.IntN(3) == 0
	var stopped atomic.Bool
	var hmu sync.Mutex // no hook runs once stopAt is negative
	slow := rng.IntN(3) == 0
	k := int64(1 + rng.IntN(6))
	log := ctlog.New(size, w.entry, func(n int, start, end, size int64) ctlog.Reply {
		rep := ctlog.Full(n, start, end, size)
		rep.To = min(rep.To, start+k-1)
		hmu.Lock()
		hook := n == stopAt
		hmu.Unlock()
		if hook {
			rep.Before = func() {
				hmu.Lock()
				if stopAt >= 0 {
					stopped.Store(true)
					f.StopFetching()
				}
				hmu.Unlock()
				if slow {
					time.Sleep(5 * time.Millisecond)
				}
			}
		}
		return rep
	})
	defer log.Close()
	f, err := logfetcher.NewHttpLogFetcher(log.URL())
	if err != nil {
		r.Violatedf("new", "%v", err)
		return
	}
	sb, pb := int64(1+rng.IntN(7)), int64(1+rng.IntN(20))
	setField(f, "serverBatchSize", sb)
	setField(f, "processBatchSize", pb)
	done := lib.Go(func() {
		ctx, cancel := context.WithCancel(context.Background())
		f.StartFetching(0, size-1)
		n, got := int64(0), 0
		for got < take && f.NextBatch(ctx) {
			cs, chains, _, err := f.ReturnNextBatch()
			if err != nil {
				if !stopped.Load() {
					r.Violatedf("spurious:stop", "error %v without any reason", err)
				}
				break
			}
			for i := range cs {
				if d := same(&cs[i], chains[i], w.at(n)); d != "" {
					r.Violatedf("entry:stop", "%s at position %d", d, n)
				}
				n++
			}
			got++
		}
		r.Count("entries delivered", int(n))
		if cancelled {
			// a cancelled wait ends and says so (or delivers what was ready).
			cancel()
			for i := 0; i < 100000 && f.NextBatch(ctx); i++ {
				if _, _, _, err := f.ReturnNextBatch(); err != nil {
					r.Count("waits cancelled", 1)
					break
				}
			}
		}
		switch rng.IntN(3) {
		case 0:
			f.StopFetching()
			f.StopFetching()
		case 1:
			d := lib.Go(func() { f.StopFetching() })
			if ok := f.NextBatch(context.Background()); ok {
				f.ReturnNextBatch()
			}
			<-d
		case 2:
			f.StopFetching()
			for i := 0; i < 10 && f.NextBatch(context.Background()); i++ {
				cs, chains, _, err := f.ReturnNextBatch()
				if err != nil {
					break
				}
				for i := range cs {
					if !cancelled && !stopped.Load() {
						if d := same(&cs[i], chains[i], w.at(n)); d != "" {
							r.Violatedf("entry:stopped", "%s at position %d", d, n)
						}
					}
					n++
				}
			}
		}
		cancel()
		r.Count("fetches stopped", 1)
		hmu.Lock()
		stopAt = -1
		hmu.Unlock()
		// another range on the same fetcher is delivered as if nothing had happened.
		s := rng.Int64N(size)
		e := s + rng.Int64N(min(30, size-s))
		f.StartFetching(s, e)
		m, err := w.collect(context.Background(), f, s, e, 0, "restart")
		if err != nil || m != e-s+1 {
			r.Violatedf("restart", "range [%d,%d] after a stop: %d entries, %v", s, e, m, err)
		}
		f.StopFetching()
	})
	if !r.WaitDone("hang:stop", "stopping a fetch", done) {
		r.Stop()
	}
	r.Case(true, "stop", ci, size, sb, pb, k, take, cancelled)
}

// all uses FetchAllCertificates, complete or cut off.
func (w *l01run) all(ci int) {
	r := w.r
	rng := r.Rand("all", ci)
	size := int64(1 + rng.IntN(200))
	s := rng.Int64N(size)
	e := s - 1 + rng.Int64N(size-s+1)
	cutAt := -1
	if rng.IntN(2) == 0 {
		cutAt = rng.IntN(6)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var cut atomic.Bool
	k := int64(1 + rng.IntN(9))
	log := ctlog.New(size, w.entry, func(n int, start, end, size int64) ctlog.Reply {
		rep := ctlog.Full(n, start, end, size)
		rep.To = min(rep.To, start+k-1)
		if n == cutAt {
			rep.Before = func() { cut.Store(true); cancel() }
		}
		return rep
	})
	defer log.Close()
	f, err := logfetcher.NewHttpLogFetcher(log.URL())
	if err != nil {
		r.Violatedf("new", "%v", err)
		return
	}
	setField(f, "serverBatchSize", int64(1+rng.IntN(7)))
	setField(f, "processBatchSize", int64(1+rng.IntN(20)))
	var cs []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	var ex uint64
	done := lib.Go(func() { cs, chains, ex, err = f.FetchAllCertificates(ctx, s, e) })
	if !r.WaitDone("hang:all", "FetchAllCertificates", done) {
		r.Stop()
	}
	r.Case(s <= e, "all", size, s, e, k, cutAt)
	for i := range cs {
		if s+int64(i) > e || i >= len(chains) {
			r.Violatedf("more:all", "FetchAllCertificates(%d,%d) delivered %d certificates, %d chains", s, e, len(cs), len(chains))
			break
		}
		if d := same(&cs[i], chains[i], w.at(s+int64(i))); d != "" {
			r.Violatedf("entry:all", "FetchAllCertificates(%d,%d): %s at %d", s, e, d, i)
			break
		}
	}
	if !cut.Load() && (err != nil || ex != 0) {
		r.Violatedf("spurious:all", "FetchAllCertificates(%d,%d) of %d: %d excluded, %v", s, e, size, ex, err)
	}
	if err == nil && int64(len(cs)) != max(0, e-s+1) {
		r.Violatedf("missing:all", "FetchAllCertificates(%d,%d) of %d: %d certificates and no error (cut: %v)", s, e, size, len(cs), cut.Load())
	}
	r.Count("entries delivered", len(cs))
}
