package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

type lfile struct {
	start, end int64
	gz         bool
	path       string
	leaves     []*certs.Leaf
}

func rowOf(l *certs.Leaf, rng *rand.Rand) []string {
	var ch []string
	for _, c := range l.Chain() {
		ch = append(ch, base64.StdEncoding.EncodeToString(c))
	}
	row := []string{"7", "www.example.com", fmt.Sprint(rng.IntN(1000)), base64.StdEncoding.EncodeToString(l.DER), strings.Join(ch, ";")}
	for i := rng.IntN(3); i > 0; i-- {
		row = append(row, "text, with \"marks\"")
	}
	exp := l.NotAfter
	if exp.Before(noon) && rng.IntN(3) == 0 {
		exp = future // the certificate itself decides
	}
	return append(row, fmt.Sprintf("%d.%d", exp.Unix(), rng.IntN(10)))
}

func writeFile(f *lfile, rows [][]string, fault string, rng *rand.Rand) error {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	for _, r := range rows {
		w.Write(r)
		if rng.IntN(6) == 0 {
			w.Flush()
			b.WriteString("\n")
		}
	}
	w.Flush()
	data := b.Bytes()
	if fault == "quote" {
		data = append(data, []byte("\"open,1,2,3,4\n")...)
	}
	if f.gz {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(data)
		zw.Close()
		data = z.Bytes()
		switch fault {
		case "truncated":
			data = data[:len(data)-9-rng.IntN(len(data)/3)]
		case "corrupt":
			for i := 0; i < 8; i++ {
				data[12+rng.IntN(len(data)-20)] ^= byte(1 + rng.IntN(255))
			}
			// make sure that it is detectable: break the checksum, too.
			data[len(data)-7] ^= 0x5a
		case "notgz":
			data = b.Bytes()
		}
	}
	os.MkdirAll(filepath.Dir(f.path), 0o755)
	return os.WriteFile(f.path, data, 0o644)
}

var rowFaults = []string{"short", "badb64", "badcert", "badchain", "badchainb64", "badexp", "quote", "truncated", "corrupt", "notgz", "gone"}

func l02(r *lib.R) {
	r.Rule("one case: one folder of log files with one update cycle (or several in sequence): file layout, batch size, limit, fault or stop placement")
	p := pool(240, true)
	tmp, err := os.MkdirTemp("", "l02")
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer os.RemoveAll(tmp)
	r.ParW(6, r.N(150, 3000), func(i int) { l02case(r, p, filepath.Join(tmp, fmt.Sprint("c", i)), i) })
	if ok, st := lib.SettleGoroutines(bgFrame); !ok && r.NViol() == 0 {
		r.Violation("leak", "reading goes on after it was stopped or had ended", st)
	}
	l02folders(r, p, tmp)
}

func l02case(r *lib.R, p []*certs.Leaf, dir string, ci int) {
	defer os.RemoveAll(dir)
	rng := r.Rand("l02", ci)
	first := int64(rng.IntN(3) * 17)
	next := first
	fault, faultFile := "", -1
	nf := 1 + rng.IntN(9)
	if rng.IntN(3) == 0 {
		fault = rowFaults[rng.IntN(len(rowFaults))]
		faultFile = rng.IntN(nf)
	}
	stop := fault == "" && rng.IntN(4) == 0
	// files: one contiguous run, then a gap and others that must not be touched.
	var files []*lfile
	var rowsOf [][][]string
	gapAt := -1
	if rng.IntN(2) == 0 {
		gapAt = rng.IntN(nf + 1)
	}
	for i := 0; i < nf; i++ {
		if i == gapAt && i > 0 {
			next += 1 + rng.Int64N(5)
		}
		n := int64(1 + rng.IntN(25))
		f := &lfile{start: next, end: next + n - 1, gz: rng.IntN(2) == 0}
		if i == faultFile && (fault == "truncated" || fault == "corrupt" || fault == "notgz") {
			f.gz = true
		}
		sub := ""
		if rng.IntN(3) == 0 {
			sub = "bundled"
		}
		ext := ".csv"
		if f.gz {
			ext = ".gz"
		}
		f.path = filepath.Join(dir, sub, fmt.Sprintf("%d-%d%s", f.start, f.end, ext))
		var rows [][]string
		for j := int64(0); j < n; j++ {
			l := p[rng.IntN(len(p))]
			f.leaves = append(f.leaves, l)
			rows = append(rows, rowOf(l, rng))
		}
		if i == faultFile {
			at := rng.IntN(len(rows))
			l := certs.Leaf(*p[0])
			l.NotAfter = future
			row := rowOf(&l, rng)
			switch fault {
			case "short":
				row = []string{"1", "2", row[len(row)-1]}
			case "badb64":
				row[3] = "***"
			case "badcert":
				row[3] = base64.StdEncoding.EncodeToString([]byte{0x30, 1, 2, 3})
			case "badchain":
				row[4] = base64.StdEncoding.EncodeToString([]byte{0x30, 1, 2, 3})
			case "badchainb64":
				row[4] += ";***"
			case "badexp":
				row[len(row)-1] = []string{"soon", "12", "x.0", ""}[rng.IntN(4)]
			}
			switch fault {
			case "short", "badb64", "badcert", "badchain", "badchainb64", "badexp":
				rows[at] = row
				f.leaves[at] = nil
			}
		}
		files = append(files, f)
		rowsOf = append(rowsOf, rows)
		next = f.end + 1
	}
	for i, f := range files {
		ft := ""
		if i == faultFile {
			ft = fault
		}
		if err := writeFile(f, rowsOf[i], ft, rng); err != nil {
			r.Inconclusive(err.Error())
			return
		}
	}
	os.WriteFile(filepath.Join(dir, "README.txt"), []byte("x"), 0o644)
	os.WriteFile(filepath.Join(dir, "notes.csv"), []byte("x"), 0o644)

	limit := uint64(1 + rng.IntN(120))
	fe, err := logfetcher.NewLocalLogFetcher("http://log.example", dir, limit)
	if err != nil {
		r.Violatedf("new", "%v", err)
		return
	}
	bs := int64(1 + rng.IntN(30))
	if !setField(fe, "processBatchSize", bs) {
		bs = 0
	}
	key := "rows"
	if fault != "" {
		key = fault
	}
	state := logfetcher.State{Size: uint64(first), STH: []byte("s")}
	ctx := context.Background()
	desc := fmt.Sprintf("%d files from %d, gap before %d, batches of %d, limit %d, fault %q in file %d", nf, first, gapAt, bs, limit, fault, faultFile)
	r.Sample("%s", desc)
	body := func() {
		for cycle := 0; cycle < nf+2; cycle++ {
			if err := fe.Initialize(noon); err != nil {
				r.Violatedf("init:"+key, "Initialize: %v (%s)", err, desc)
				return
			}
			// the contiguous files from the state on, at most the limit but at least one.
			var want []*lfile
			size := int64(state.Size)
			for _, f := range files {
				if f.start == size && (len(want) == 0 || f.end-int64(state.Size)+1 <= int64(limit)) {
					want = append(want, f)
					size = f.end + 1
				}
			}
			ns, err := fe.GetCurrentState(ctx, state)
			if err != nil {
				r.Violatedf("state:"+key, "GetCurrentState: %v", err)
				return
			}
			if int64(ns.Size) != size {
				r.Violatedf("state:"+key, "GetCurrentState at %d: %d, the files cover %d with limit %d (%s)", state.Size, ns.Size, size, limit, desc)
				return
			}
			hasFault := false
			counts := map[string]int{}
			chains := map[string]*certs.Leaf{}
			expired := 0
			for _, f := range want {
				for i, wf := range files {
					if wf == f && i == faultFile {
						hasFault = true
						if fault == "gone" {
							os.Remove(f.path)
						}
					}
				}
				for _, l := range f.leaves {
					switch {
					case l == nil:
					case l.NotAfter.Before(noon):
						expired++
					default:
						counts[string(l.DER)]++
						chains[string(l.DER)] = l
					}
				}
			}
			if cycle == 0 && rng.IntN(5) == 0 && fault != "gone" {
				// the cycle is abandoned here, and begun anew
				r.Count("cycles abandoned before fetching", 1)
				if err := fe.Initialize(noon); err != nil {
					r.Violatedf("init:"+key, "Initialize: %v (%s)", err, desc)
					return
				}
			}
			fe.StartFetching(int64(state.Size), int64(ns.Size)-1)
			gotExp, gotErr, batches := 0, error(nil), 0
			stopAfter := -1
			if stop && cycle == 0 {
				stopAfter = rng.IntN(4)
			}
			stopped := false
			for {
				if batches == stopAfter {
					fe.StopFetching()
					stopped = true
					break
				}
				if !fe.NextBatch(ctx) {
					break
				}
				cs, chs, ex, err := fe.ReturnNextBatch()
				if err != nil {
					gotErr = err
					break
				}
				batches++
				r.Count("batches delivered", 1)
				gotExp += ex
				if bs > 0 && int64(len(cs)+ex) > bs {
					r.Violatedf("batch:"+key, "a batch of %d, more than %d", len(cs)+ex, bs)
				}
				if len(cs) != len(chs) {
					r.Violatedf("chains:"+key, "%d certificates, %d chains", len(cs), len(chs))
					return
				}
				for i := range cs {
					k := string(cs[i].Raw)
					if counts[k] == 0 {
						r.Violatedf("more:"+key, "a certificate delivered that is not in the files, or once too often (%s)", desc)
						return
					}
					counts[k]--
					if d := same(&cs[i], chs[i], chains[k]); d != "" {
						r.Violatedf("chain:"+key, "%s (%s)", d, desc)
						return
					}
				}
				r.Count("certificates delivered", len(cs))
			}
			fe.StopFetching()
			left := 0
			for _, n := range counts {
				left += n
			}
			switch {
			case stopped:
				r.Count("fetches stopped", 1)
				continue // the same again
			case hasFault && gotErr == nil:
				r.Violatedf("silent:"+key, "no error reported, %d certificates missing (%s)", left, desc)
				return
			case hasFault:
				r.Count("faults reported as errors", 1)
				return
			case gotErr != nil:
				r.Violatedf("spurious:"+key, "error %v with good files (%s)", gotErr, desc)
				return
			case left != 0:
				r.Violatedf("missing:"+key, "%d certificates missing (%s)", left, desc)
				return
			case gotExp != expired:
				r.Violatedf("expired:"+key, "%d rows reported as expired, not %d (%s)", gotExp, expired, desc)
				return
			}
			r.Count("expired rows excluded", gotExp)
			r.Seen("batch counts", batches, bs, len(want))
			if len(want) == 0 {
				break
			}
			state = ns
		}
		if fault == "" {
			partOfFiles(r, fe, files, desc, rng)
		}
	}
	if !r.WaitDone("hang:"+key, "reading local files: "+desc, lib.Go(body)) {
		r.Stop()
	}
	r.Case(true, desc)
}

// partOfFiles asks for a range that may end before the files do, also within one of them: whole files
// of the range are delivered, and no file that lies behind it.
func partOfFiles(r *lib.R, fe *logfetcher.LocalLogFetcher, files []*lfile, desc string, rng *rand.Rand) {
	run := files[:1]
	for i := 1; i < len(files) && files[i].start == files[i-1].end+1; i++ {
		run = files[:i+1]
	}
	from := rng.IntN(len(run))
	start := run[from].start
	end := start + rng.Int64N(run[len(run)-1].end-start+4)
	desc = fmt.Sprintf("%s; asked for %d-%d", desc, start, end)
	if err := fe.Initialize(noon); err != nil {
		r.Violatedf("init:part", "Initialize: %v (%s)", err, desc)
		return
	}
	must, may := map[string]int{}, map[string]int{}
	for _, f := range run[from:] {
		for i, l := range f.leaves {
			if l.NotAfter.Before(noon) {
				continue
			}
			if f.end <= end {
				must[string(l.DER)]++
			}
			if f.start+int64(i) <= end {
				may[string(l.DER)]++
			}
		}
	}
	fe.StartFetching(start, end)
	for fe.NextBatch(context.Background()) {
		cs, _, _, err := fe.ReturnNextBatch()
		if err != nil {
			r.Violatedf("spurious:part", "error %v with good files (%s)", err, desc)
			fe.StopFetching()
			return
		}
		for i := range cs {
			k := string(cs[i].Raw)
			may[k]--
			must[k]--
			if may[k] < 0 {
				r.Violatedf("more:part", "a certificate delivered that is not in the range, or once too often (%s)", desc)
				fe.StopFetching()
				return
			}
		}
	}
	fe.StopFetching()
	for _, n := range must {
		if n > 0 {
			r.Violatedf("missing:part", "%d times a certificate of a file within the range is missing (%s)", n, desc)
			return
		}
	}
	r.Count("ranges ending before the files", 1)
}

// l02folders looks at folders that cannot be used.
func l02folders(r *lib.R, p []*certs.Leaf, tmp string) {
	rng := r.Rand("folders")
	mk := func(name string, files ...string) string {
		d := filepath.Join(tmp, name)
		os.MkdirAll(d, 0o755)
		for _, f := range files {
			lf := &lfile{gz: strings.HasSuffix(f, ".gz"), path: filepath.Join(d, f)}
			writeFile(lf, [][]string{rowOf(p[0], rng)}, "", rng)
		}
		return d
	}
	cases := map[string]string{
		"missing":  filepath.Join(tmp, "there is none"),
		"reverse":  mk("reverse", "5-4.gz"),
		"cycle":    mk("cycle", "0-4.gz", "5-9.csv", "10-4.gz"),
		"twice":    mk("twice", "0-4.gz", "0-3.csv"),
		"twicesub": mk("twicesub", "0-4.gz", "sub/0-4.gz"),
		"names":    mk("names", "a-b.gz"),
		"number":   mk("number", "0-99999999999999999999.csv"),
	}
	var keys []string
	for k := range cases {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var err error
		done := lib.Go(func() {
			r.NoPanic("crash:"+k, "folder "+k, func() {
				f, e := logfetcher.NewLocalLogFetcher("u", cases[k], 1000)
				if e != nil {
					err = e
					return
				}
				err = f.Initialize(noon)
			})
		})
		if !r.WaitDone("hang:folder", "folder "+k, done) {
			r.Stop()
		}
		r.Case(true, "folder", k)
		if err == nil {
			r.Violatedf("folder:"+k, "an unusable folder (%s) is accepted without an error", k)
		}
	}
}
