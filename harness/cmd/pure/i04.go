package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

var expirationForm = regexp.MustCompile(`^[0-9]+\.[0-9]+$`)

func i04(r *lib.R) {
	r.Rule("rows of 0 to 9 columns over an alphabet of separators, quotes, blanks, line ends, non-ASCII and base64 text, quoted by a standard writer, by hand, or damaged, each parsed by the specialised parser and by the standard one")
	r.Assume("a row is one physical line with at most one line end; a row without certificate or with an expiration not written as seconds.fraction may be refused")
	restore := fastcsv.SetStderr(io.Discard)
	defer restore()
	type kept struct {
		p    fastcsv.ParsedLine
		want [3]string
		raw  []byte
		orig string
	}
	var held []kept
	for c := 0; c < r.N(60000, 1500000); c++ {
		rnd := r.Rand("row", c)
		nf := rnd.IntN(9)
		if rnd.IntN(2) == 0 {
			nf = 6
		}
		field := func() string {
			switch rnd.IntN(7) {
			case 0:
				return ""
			case 1:
				return "MIIB" + strings.Repeat("Ab+/", rnd.IntN(5)) + "=="
			case 2:
				return "MIIA;MIIB;MIIC"
			case 3:
				b := []string{"a", ",", "\"", " ", ";", "é", "\xff", "0", "\t", "\x00", "\r", "=", "\"\""}
				s := ""
				for k := rnd.IntN(5); k > 0; k-- {
					s += b[rnd.IntN(len(b))]
				}
				return s
			default:
				return fmt.Sprint("f", rnd.IntN(100))
			}
		}
		fields := make([]string, nf)
		for i := range fields {
			fields[i] = field()
		}
		if nf > 0 && rnd.IntN(4) > 0 {
			fields[nf-1] = []string{"1893456000.5", "0.0", "1.", ".5", "17", "1.2.3", "12345678901234567890.123456789", "-1.5", "1e3", " 1.5", "1.5 "}[rnd.IntN(11)*rnd.IntN(2)]
		}
		if nf > 0 && rnd.IntN(12) == 0 { // the last column is empty, not the expiration
			for k := 1 + rnd.IntN(2); k > 0; k-- {
				fields = append(fields, "")
			}
		}
		var line string
		how := rnd.IntN(4)
		switch how {
		case 0: // written by the standard writer
			var b bytes.Buffer
			w := csv.NewWriter(&b)
			w.Write(fields)
			w.Flush()
			line = strings.TrimSuffix(b.String(), "\n")
		case 1: // no quoting at all
			line = strings.Join(fields, ",")
		default: // quoted where needed or at random
			q := make([]string, len(fields))
			for i, f := range fields {
				if strings.ContainsAny(f, ",\"\r\n") || rnd.IntN(4) == 0 {
					f = `"` + strings.ReplaceAll(f, `"`, `""`) + `"`
				}
				q[i] = f
			}
			line = strings.Join(q, ",")
		}
		if rnd.IntN(8) == 0 && len(line) > 0 { // damage
			i := rnd.IntN(len(line))
			switch rnd.IntN(3) {
			case 0:
				line = line[:i] + line[i+1:]
			case 1:
				line = line[:i] + `"` + line[i:]
			case 2:
				line = line[:i]
			}
		}
		line = strings.ReplaceAll(line, "\n", "")
		if strings.HasSuffix(line, "\r") {
			continue
		}
		end := []string{"\n", "\r\n", ""}[rnd.IntN(3)]
		raw := []byte(line + end)
		rd := csv.NewReader(bytes.NewReader(raw))
		rd.FieldsPerRecord = -1
		want, wantErr := rd.Read()
		no := rnd.IntN(1000) + 1
		var p fastcsv.ParsedLine
		var err error
		if !r.NoPanic("csv-panic", fmt.Sprintf("%q", raw), func() { p, err = fastcsv.ParseLine(raw, "file.csv", no) }) {
			continue
		}
		if string(raw) != line+end {
			r.Violatedf("csv-changed", "parsing changes the row %q", line)
		}
		usable := wantErr == nil && len(want) > fastcsv.CertChainColumn
		r.Case(strings.Contains(line, `"`) || how == 1, "row", line+end)
		switch {
		case err == nil && wantErr != nil:
			r.Count("rows refused by the standard reader", 1)
			r.Violation("csv-accept", fmt.Sprintf("a row which is no CSV (%v) is accepted", wantErr), fmt.Sprintf("%q -> %q", raw, p))
		case err == nil && !usable:
			r.Violation("csv-accept", "a row with too few columns is accepted", fmt.Sprintf("%q", raw))
		case err == nil:
			w := [3]string{want[fastcsv.CertificateColumn], want[fastcsv.CertChainColumn], want[len(want)-1]}
			r.Count("rows with fields compared", 1)
			if g := [3]string{string(p.CertField), string(p.ChainField), string(p.ExpirationField)}; g != w {
				r.Violation("csv-fields", "other fields than the standard reader's", fmt.Sprintf("%q: %q want %q", raw, g, w))
			}
			if p.Number != no {
				r.Violatedf("csv-number", "line %d is numbered %d", no, p.Number)
			}
			held = append(held, kept{p, w, raw, line + end})
		case usable && want[fastcsv.CertificateColumn] != "" && expirationForm.MatchString(want[len(want)-1]):
			r.Violation("csv-reject", "a well-formed row is refused: "+err.Error(), fmt.Sprintf("%q", raw))
		default:
			r.Count("rows refused", 1)
		}
		// The classification of the fast path agrees with the whole parser.
		if res := fastcsv.ParseRowFast([]byte(line)); res.Disposition == fastcsv.ParseFastOK {
			if wantErr != nil || !usable || string(res.CertField) != want[fastcsv.CertificateColumn] ||
				string(res.ChainField) != want[fastcsv.CertChainColumn] || string(res.ExpirationField) != want[len(want)-1] {
				r.Violation("csv-fast", "the fast path takes a row it reads differently", fmt.Sprintf("%q", line))
			}
			r.Count("rows read by the fast path", 1)
		}
		if len(held) >= 300 {
			for _, h := range held {
				if g := [3]string{string(h.p.CertField), string(h.p.ChainField), string(h.p.ExpirationField)}; g != h.want || string(h.raw) != h.orig {
					r.Violation("csv-stale", "fields handed out changed while later rows were parsed", fmt.Sprintf("%q: %q", h.orig, g))
				}
			}
			held = held[:0]
		}
	}
}
