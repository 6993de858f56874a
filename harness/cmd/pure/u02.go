package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func u02(r *lib.R) {
	r.Rule("duration texts from a grammar with all units, signs, overflows and near misses; all sizes of durations and times of day; configuration files; schedules executed under a simulated clock with starts, periods, run lengths and cancellations placed exactly")
	r.Assume("periods are positive and times of day carry no date")
	durations(r)
	timesOfDay(r)
	configs(r)
	schedules(r)
	nextTimes(r)
}

var factors = map[string]int64{
	"y": 365 * 24 * 3600e9, "w": 7 * 24 * 3600e9, "d": 24 * 3600e9, "h": 3600e9, "m": 60e9, "s": 1e9,
	"ms": 1e6, "us": 1e3, "µs": 1e3, "ns": 1,
}

var durForm = regexp.MustCompile(`^(-?)([0-9]+)([a-zµ]+)$`)

// durOf is what the text means, or ok=false if it means nothing.
func durOf(s string) (d time.Duration, ok, negative bool) {
	m := durForm.FindStringSubmatch(s)
	if m == nil {
		return 0, false, false
	}
	f, known := factors[m[3]]
	if !known {
		return 0, false, false
	}
	n, _ := new(big.Int).SetString(m[1]+m[2], 10)
	n.Mul(n, big.NewInt(f))
	if !n.IsInt64() {
		return 0, false, m[1] == "-"
	}
	return time.Duration(n.Int64()), true, m[1] == "-"
}

func checkDurText(r *lib.R, s string) {
	want, ok, neg := durOf(s)
	r.Case(ok, "dur", s)
	check := func(via string, got time.Duration, err error) {
		switch {
		case err != nil && ok && !neg:
			r.Violatedf("dur-reject", "%s of %q fails: %v", via, s, err)
		case err == nil && !ok:
			r.Violatedf("dur-accept", "%s of %q gives %v", via, s, got)
		case err == nil && got != want:
			r.Violatedf("dur-value", "%s of %q gives %d ns instead of %d", via, s, int64(got), int64(want))
		}
	}
	r.NoPanic("dur-panic", s, func() {
		d, err := util.ParseDuration(s)
		check("parsing", d, err)
		var w util.DurationWrap
		err = w.UnmarshalText([]byte(s))
		check("reading", w.Duration, err)
		w = util.DurationWrap{}
		err = w.Set(s)
		check("setting", w.Duration, err)
		var st struct{ D util.DurationWrap }
		js, _ := json.Marshal(map[string]string{"D": s})
		err = json.Unmarshal(js, &st)
		check("decoding", st.D.Duration, err)
	})
}

func durations(r *lib.R) {
	units := []string{"y", "w", "d", "h", "m", "s", "ms", "us", "µs", "ns"}
	for _, u := range units {
		lim := math.MaxInt64 / factors[u]
		for _, n := range []string{"0", "1", "2", "007", fmt.Sprint(lim - 1), fmt.Sprint(lim), fmt.Sprint(lim + 1), fmt.Sprint(lim * 3), "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "99999999999999999999999"} {
			checkDurText(r, n+u)
			checkDurText(r, "-"+n+u)
		}
		for _, bad := range []string{u, "-" + u, "--1" + u, "1-" + u, "1-2" + u, "-1-" + u, " 1" + u, "1 " + u, "1" + u + " ", "1" + u + "\n", "\n1" + u, "1" + u + u, "+1" + u, "1.5" + u, ".5" + u, "1_0" + u, "0x1" + u, "1e3" + u, "1" + u + "1", "1" + u + "1s", "１" + u} {
			checkDurText(r, bad)
		}
	}
	for _, s := range []string{"", "-", "5", "1M", "1S", "1min", "1µ", "1 s", "1h10m", "1μs", "\xb5s", "1\xb5s", "1s\x00", "x1s"} {
		checkDurText(r, s)
	}
	for c := 0; c < r.N(20000, 400000); c++ {
		rnd := r.Rand("durtext", c)
		u := units[rnd.IntN(len(units))]
		n := rnd.Int64() >> uint(rnd.IntN(63))
		s := fmt.Sprint(n) + u
		if rnd.IntN(3) == 0 { // around the largest representable
			s = fmt.Sprint(math.MaxInt64/factors[u]+int64(rnd.IntN(5))-2) + u
		}
		switch rnd.IntN(8) {
		case 0:
			b := []byte(s)
			b[rnd.IntN(len(b))] = "0123456789-+ .ysmhdwnu"[rnd.IntN(22)]
			s = string(b)
		case 1:
			s = "-" + s
		case 2:
			i := rnd.IntN(len(s) + 1)
			s = s[:i] + string("0123456789-+ .ysmhdwnu"[rnd.IntN(22)]) + s[i:]
		}
		checkDurText(r, s)
	}
	for c := 0; c < r.N(20000, 400000); c++ {
		rnd := r.Rand("durfmt", c)
		d := time.Duration(rnd.Int64() >> uint(rnd.IntN(63)))
		if rnd.IntN(2) == 0 { // a whole number of some unit
			f := time.Duration(factors[units[rnd.IntN(len(units))]])
			d = d / f * f
		}
		checkDurFmt(r, d)
		if rnd.IntN(5) == 0 {
			checkDurFmt(r, -d)
		}
	}
	for _, d := range []time.Duration{0, 1, math.MaxInt64, math.MinInt64, -1, math.MaxInt64 - 1} {
		checkDurFmt(r, d)
	}
}

func checkDurFmt(r *lib.R, d time.Duration) {
	r.Case(d != 0, "durfmt", int64(d))
	r.NoPanic("dur-panic", fmt.Sprint(int64(d)), func() {
		s := util.FmtDuration(d)
		if want, ok, _ := durOf(s); !ok || want != d {
			r.Violatedf("dur-format", "%d ns is written as %q", int64(d), s)
		}
		if g, err := util.ParseDuration(s); err != nil || g != d {
			r.Violatedf("dur-roundtrip", "%d ns is written as %q and read as %d, %v", int64(d), s, int64(g), err)
		}
		w := util.DurationWrap{Duration: d}
		var b, j util.DurationWrap
		txt, err := w.MarshalText()
		if err == nil {
			err = b.UnmarshalText(txt)
		}
		if err != nil || b != w || w.String() != s {
			r.Violatedf("dur-roundtrip", "%d ns through text: %q %v", int64(d), txt, err)
		}
		js, err := json.Marshal(w)
		if err == nil {
			err = json.Unmarshal(js, &j)
		}
		if err != nil || j != w {
			r.Violatedf("dur-roundtrip", "%d ns through JSON: %s gives %d, %v", int64(d), js, int64(j.Duration), err)
		}
	})
}

func timesOfDay(r *lib.R) {
	check := func(h, m, s, ns uint) {
		t := util.NewTimeOfDay(h, m, s, ns)
		r.Case(ns%1000 != 0 || s > 0, "tod", h, m, s, ns)
		what := fmt.Sprintf("%02d:%02d:%02d.%09d", h, m, s, ns)
		if t.Hour() != int(h) || t.Minute() != int(m) || t.Second() != int(s) || t.Nanosecond() != int(ns) {
			r.Violatedf("tod-new", "%s is made as %v", what, t.Time)
		}
		same := func(via string, x util.TimeOfDayWrap, err error) {
			if err != nil || !x.Time.Equal(t.Time) || x.Hour() != int(h) || x.Minute() != int(m) || x.Second() != int(s) || x.Nanosecond() != int(ns) {
				r.Violatedf("tod-roundtrip", "%s through %s: %v, %v (%q)", what, via, x.Time, err, t.String())
			}
		}
		r.NoPanic("tod-panic", what, func() {
			var a, b, c, d util.TimeOfDayWrap
			txt, err := t.MarshalText()
			if err == nil {
				err = a.UnmarshalText(txt)
			}
			same("text", a, err)
			js, err := json.Marshal(t)
			if err == nil {
				err = json.Unmarshal(js, &b)
			}
			same("JSON", b, err)
			same("flag", c, c.Set(t.String()))
			same("full text", d, d.Set(what))
			p, err := util.ParseTimeOfDay(t.String())
			same("parsing", util.TimeOfDayWrap{Time: p}, err)
		})
	}
	for _, ns := range []uint{0, 1, 10, 100, 999, 1000, 1001, 10000, 100000, 999999, 1000000, 1000001, 1001000, 10000000, 100000000, 100000001, 999999999, 500000000, 120000000, 123456789, 123456000, 123000000} {
		check(0, 0, 0, ns)
		check(23, 59, 59, ns)
		check(12, 30, 5, ns)
	}
	for c := 0; c < r.N(10000, 200000); c++ {
		rnd := r.Rand("tod", c)
		ns := uint(rnd.IntN(1e9))
		for k := rnd.IntN(10); k > 0; k-- {
			ns = ns / 10
		}
		if rnd.IntN(2) == 0 {
			ns *= 1000
		}
		check(uint(rnd.IntN(24)), uint(rnd.IntN(60)), uint(rnd.IntN(60)), ns%1e9)
	}
	for _, bad := range []string{"", "1", "24:00:00", "12:60:00", "12:00:60", "12:00", "12:00:00.", "12:00:00x", " 12:00:00", "-1:00:00", "12-00-00", "noon"} {
		r.NoPanic("tod-panic", bad, func() {
			r.Case(true, "tod-bad", bad)
			var x, y util.TimeOfDayWrap
			if x.Set(bad) == nil {
				r.Violatedf("tod-accept", "%q is read as %v", bad, x.Time)
			}
			js, _ := json.Marshal(bad)
			if json.Unmarshal(js, &y) == nil {
				r.Violatedf("tod-accept", "%q is decoded as %v", bad, y.Time)
			}
		})
	}
	for _, bad := range []string{`5`, `{}`, `[]`, `"`, `true`} {
		var y util.TimeOfDayWrap
		if json.Unmarshal([]byte(bad), &y) == nil {
			r.Violatedf("tod-accept", "JSON %s is decoded as %v", bad, y.Time)
		}
	}
}

func configs(r *lib.R) {
	dir, err := os.MkdirTemp("", "cfg")
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	for c := 0; c < r.N(300, 3000); c++ {
		rnd := r.Rand("cfg", c)
		str := func() string {
			return []string{"", "a", "/x/y z", `quote"back\slash`, "ünï\u2028", "<&>"}[rnd.IntN(6)] + fmt.Sprint(rnd.IntN(9))
		}
		in := &config.Config{
			CTLogServerURLs:     []string{str(), str()},
			CertificateFolders:  map[string]string{str(): str(), "k": str()},
			CertificatePemFile:  str(),
			PrivateKeyPemFile:   str(),
			HttpAPIPort:         rnd.IntN(65536),
			CsvIngestionMaxRows: rnd.Uint64() >> uint(rnd.IntN(64)),
			UpdateAt:            util.NewTimeOfDay(uint(rnd.IntN(24)), uint(rnd.IntN(60)), uint(rnd.IntN(60)), uint(rnd.IntN(3)*rnd.IntN(1e8))),
			UpdateTimer:         util.DurationWrap{Duration: time.Duration(rnd.Int64() >> uint(rnd.IntN(63)))},
		}
		if rnd.IntN(3) > 0 {
			in.DBConfig = db.NewConfig(db.WithDB(str()))
		}
		f := filepath.Join(dir, "c.json")
		var out *config.Config
		r.NoPanic("config-panic", "configuration", func() {
			err := config.WriteConfigurationToFile(f, in)
			if err == nil {
				out, err = config.ReadConfigFromFile(f)
			}
			if err != nil {
				r.Violation("config", "writing and reading a configuration: "+err.Error(), fmt.Sprintf("%+v", in))
			}
		})
		r.Case(true, "config", c)
		if out == nil {
			continue
		}
		if !out.UpdateAt.Equal(in.UpdateAt.Time) {
			r.Violatedf("config", "update time %v is read as %v", in.UpdateAt, out.UpdateAt)
		}
		out.UpdateAt = in.UpdateAt
		if !reflect.DeepEqual(in, out) {
			r.Violation("config", "a configuration read back differs", []any{fmt.Sprintf("%+v", in), fmt.Sprintf("%+v", out)})
		}
	}
	if _, err := config.ReadConfigFromFile(filepath.Join(dir, "none")); err == nil {
		r.Violatedf("config-error", "a missing configuration is read")
	}
	for _, t := range []string{"", "{", `{"UpdateTimer":"1.5h"}`, `{"UpdateTimer":"1h30m"}`, `{"UpdateTimer":"9999999y"}`, `{"UpdateAt":"25:00:00"}`} {
		f := filepath.Join(dir, "bad.json")
		os.WriteFile(f, []byte(t), 0o644)
		r.Case(true, "config-bad", t)
		if c, err := config.ReadConfigFromFile(f); err == nil {
			r.Violatedf("config-error", "configuration %q is read as %+v", t, c)
		}
	}
}

// bubble runs f under a simulated clock.
func bubble(r *lib.R, name string, f func()) {
	ok := false
	synctest.Test(mainT, func(*testing.T) { f(); ok = true })
	if !ok {
		r.Inconclusive("simulated clock run " + name + " did not finish")
	}
}

func schedules(r *lib.R) {
	bubble(r, "schedules", func() {
		for c := 0; c < r.N(1500, 25000); c++ {
			schedule(r, r.Rand("sched", c), c)
		}
	})
}

func schedule(r *lib.R, rnd *rand.Rand, c int) {
	repeat := time.Duration(1+rnd.IntN(1000)) * time.Millisecond * 2
	if rnd.IntN(4) == 0 {
		repeat = time.Duration(1+rnd.IntN(48)) * time.Hour
	}
	start := time.Now()
	var offset time.Duration
	switch rnd.IntN(4) {
	case 0: // in the past
		offset = -time.Duration(rnd.Int64N(int64(5 * repeat)))
	case 1: // now
	default:
		offset = time.Duration(rnd.Int64N(int64(3 * repeat)))
	}
	when := start.Add(offset)
	first := when
	if offset < 0 {
		first = start
	}
	long := rnd.IntN(3) == 0
	// The cancellation never falls on a tick: ticks are whole milliseconds from first.
	life := time.Duration(rnd.Int64N(int64(8*repeat)))/time.Millisecond*time.Millisecond + 500*time.Microsecond + offset.Abs()%time.Millisecond/7
	before := rnd.IntN(6) == 0 // cancelled before it starts
	ctx, cancel := context.WithCancel(context.Background())
	if before && rnd.IntN(2) == 0 {
		cancel()
		life = 0
	} else if before {
		life = time.Duration(rnd.Int64N(int64(max(time.Millisecond, offset))))
	}
	type call struct{ from, to time.Time }
	var mu sync.Mutex
	var calls []call
	running, cancelled := 0, life == 0 && before
	var late, overlap, wrongCtx, extra bool
	util.RunWhen(ctx, when, repeat, func(x context.Context) {
		mu.Lock()
		now := time.Now()
		if cancelled {
			late = true
			if len(calls) > 100 {
				extra = true
			}
		}
		if x == nil || x.Done() != ctx.Done() {
			wrongCtx = true
		}
		running++
		overlap = overlap || running > 1
		i := len(calls)
		calls = append(calls, call{from: now})
		stop := extra
		mu.Unlock()
		if stop {
			runtime.Goexit()
		}
		var d time.Duration
		if long {
			d = time.Duration(rnd.Int64N(int64(5*repeat/2))) / time.Millisecond * time.Millisecond
			if d%repeat == 0 {
				d += time.Millisecond / 4
			}
		} else {
			d = time.Duration(rnd.Int64N(int64(repeat)-1)) / 2
		}
		time.Sleep(d)
		mu.Lock()
		running--
		calls[i].to = time.Now()
		mu.Unlock()
	})
	time.Sleep(life)
	if !before || life > 0 {
		mu.Lock()
		cancelled = true
		mu.Unlock()
		cancel()
	}
	end := start.Add(life)
	synctest.Wait()
	time.Sleep(6*repeat + offset.Abs())
	synctest.Wait()
	cancel()
	mu.Lock()
	defer mu.Unlock()
	what := fmt.Sprintf("start %v, period %v, cancelled after %v, long runs %v", offset, repeat, life, long)
	r.Case(len(calls) > 1, "sched", c)
	r.Count("scheduled runs observed under the simulated clock", len(calls))
	if late {
		r.Violatedf("sched-cancelled", "a run starts after the cancellation: %s", what)
		return
	}
	if overlap {
		r.Violatedf("sched-overlap", "two runs at the same time: %s", what)
	}
	if wrongCtx {
		r.Violatedf("sched-context", "a run gets another context: %s", what)
	}
	describe := func() string {
		s := what + ", runs"
		for _, x := range calls {
			s += fmt.Sprintf(" %v-%v", x.from.Sub(first), x.to.Sub(first))
		}
		return s
	}
	if len(calls) > 0 && !calls[0].from.Equal(first) {
		r.Violatedf("sched-first", "the first run is not at the requested time: %s", describe())
		return
	}
	if len(calls) == 0 && first.Before(end) {
		r.Violatedf("sched-never", "no run although due: %s", what)
		return
	}
	for i := 1; i < len(calls); i++ {
		at, prevEnd := calls[i].from, calls[i-1].to
		due := first.Add(time.Duration(i) * repeat)
		if at.Before(due) {
			r.Violatedf("sched-early", "run %d is early: %s", i, describe())
			return
		}
		onTick := at.Sub(first)%repeat == 0
		if !long && !at.Equal(due) {
			r.Violatedf("sched-aligned", "run %d is not %d periods after the first: %s", i, i, describe())
			return
		}
		if !onTick && !at.Equal(prevEnd) {
			r.Violatedf("sched-aligned", "run %d is neither on a period nor directly after a long run: %s", i, describe())
			return
		}
		if at.Sub(prevEnd) > repeat {
			r.Violatedf("sched-missed", "run %d comes more than a period after the previous one ended: %s", i, describe())
			return
		}
	}
	// None is missing at the end: the next one would have been due at the latest one period after
	// the last one's end.
	if n := len(calls); n > 0 {
		last := calls[n-1]
		due := first.Add(time.Duration(n) * repeat)
		if long {
			due = last.to.Add(repeat)
		}
		if last.to.Before(due) && due.Before(end) {
			r.Violatedf("sched-missed", "run %d never happens: %s", n, describe())
		}
	}
}

func nextTimes(r *lib.R) {
	old := time.Local
	defer func() { time.Local = old }()
	for _, z := range []*time.Location{time.UTC, time.FixedZone("west", -9*3600), time.FixedZone("east", 13*3600), time.FixedZone("half", 5*3600+1800)} {
		time.Local = z
		bubble(r, "next "+z.String(), func() {
			for c := 0; c < r.N(1500, 20000); c++ {
				rnd := r.Rand("next", z.String(), c)
				time.Sleep(time.Duration(rnd.Int64N(int64(40 * time.Hour))))
				now := time.Now()
				u := now.UTC()
				var t util.TimeOfDayWrap
				switch rnd.IntN(4) {
				case 0: // this instant
					t = util.NewTimeOfDay(uint(u.Hour()), uint(u.Minute()), uint(u.Second()), uint(u.Nanosecond()))
				case 1: // a moment before or after
					x := u.Add(time.Duration(rnd.IntN(7)-3) * time.Nanosecond)
					t = util.NewTimeOfDay(uint(x.Hour()), uint(x.Minute()), uint(x.Second()), uint(x.Nanosecond()))
				default:
					t = util.NewTimeOfDay(uint(rnd.IntN(24)), uint(rnd.IntN(60)), uint(rnd.IntN(60)), uint(rnd.IntN(1e9)))
				}
				if rnd.IntN(2) == 0 { // as read from a configuration
					var x util.TimeOfDayWrap
					if x.Set(t.String()) == nil {
						t = x
					}
				}
				next := t.NextTimeOfDay()
				n := next.UTC()
				r.Case(true, "next", z.String(), c)
				if next.Before(now) || next.Sub(now) > 24*time.Hour {
					r.Violatedf("next-range", "at %v the next %v is %v", now, t, next)
				}
				if n.Hour() != t.Hour() || n.Minute() != t.Minute() || n.Second() != t.Second() || n.Nanosecond() != t.Nanosecond() {
					r.Violatedf("next-value", "at %v the next %v is %v", now, t, n)
				}
			}
		})
	}
}
