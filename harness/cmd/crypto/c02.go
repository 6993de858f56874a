package main

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func c02(r *lib.R) {
	r.Rule("issuer and child with domains equal, above, below, beside, textually similar, empty and malformed; validity bounds before, at and after the issuer's, to the nanosecond and in different zones; may-own flag and present signatures")
	r.Assume("names are compared as written: lower case, without trailing dots")
	domains := []string{"", "com", "example.com", "xample.com", "a.example.com", "b.a.example.com", "aexample.com", "example.com.org", "a-example.com", "example.comx", "org", "xn--a.com", "ample.com", "example"}
	broken := []string{".", "..", "a..example.com", ".example.com", "a..", "..a.example.com", "b..a.example.com", "a..example.com\nx.example.com", "x.example.com\n..example.com", "a\n.\n..b\n"}
	labels := func(d string) []string {
		if d == "" {
			return nil
		}
		return strings.Split(d, ".")
	}
	// every pair of short names over a tiny alphabet
	names := []string{""}
	for from, l := 0, 1; l <= r.N(4, 5); l++ {
		to := len(names)
		for _, n := range names[from:to] {
			names = append(names, n+"a", n+"b", n+".")
		}
		from = to
	}
	r.Par(len(names), func(i int) {
		issuer, child := rpc(r.Rand("short", i)), rpc(r.Rand("short", i, 1))
		child.NotBefore, child.NotAfter = issuer.NotBefore, issuer.NotAfter
		issuer.DomainField = names[i]
		il := labels(issuer.DomainField)
		for _, n := range names {
			child.DomainField = n
			if strings.HasSuffix(n, ".") || strings.HasSuffix(names[i], ".") {
				continue
			}
			cl := labels(n)
			want := !slices.Contains(il, "") && !slices.Contains(cl, "") && len(cl) >= len(il) && slices.Equal(cl[len(cl)-len(il):], il)
			r.NoPanic("constraint-panic", names[i]+" / "+n, func() {
				if err := crypto.VerifyIssuerConstraints(issuer, child); (err == nil) != want {
					r.Violation("constraint", fmt.Sprintf("%q issued by %q: acceptable %v, answer %v", n, names[i], want, err), nil)
				}
			})
			r.Case(true, "short", names[i], n)
		}
	})
	ks := getKeys()
	for c := 0; c < r.N(20000, 500000); c++ {
		rnd := r.Rand("pair", c)
		issuer, child := rpc(rnd), rpc(rnd)
		pick := func() string {
			if rnd.IntN(12) == 0 {
				return broken[rnd.IntN(len(broken))]
			}
			return domains[rnd.IntN(len(domains))]
		}
		issuer.DomainField, child.DomainField = pick(), pick()
		if i := issuer.DomainField; rnd.IntN(2) == 0 {
			at := rnd.IntN(len(i) + 1)
			child.DomainField = []string{"x." + i, "x" + i, "x-" + i, "y.x" + i, i + "x", i + ".x", i[:at] + "x" + i[at:], i[:at] + "." + i[at:],
				strings.Replace(i, ".", "x", 1), strings.Replace(i, ".", "", 1), i[at:], i[:at], strings.ToUpper(i)}[rnd.IntN(13)]
		}
		zone := func(t time.Time) time.Time {
			if rnd.IntN(3) == 0 {
				return t.In(time.FixedZone("", 3600*(rnd.IntN(25)-12)))
			}
			return t
		}
		d := []time.Duration{-time.Hour, -1, 0, 0, 1, time.Hour}
		from, to := rtime(rnd), rtime(rnd)
		db, da := d[rnd.IntN(len(d))], d[rnd.IntN(len(d))]
		if rnd.IntN(2) == 0 {
			db, da = max(db, -db), min(da, -da)
		}
		issuer.NotBefore, child.NotBefore = zone(from), zone(from.Add(db))
		issuer.NotAfter, child.NotAfter = zone(to), zone(to.Add(da))

		il, cl := labels(issuer.DomainField), labels(child.DomainField)
		valid := !slices.Contains(il, "") && !slices.Contains(cl, "")
		below := len(cl) >= len(il) && slices.Equal(cl[len(cl)-len(il):], il)
		within := db >= 0 && da <= 0
		want := valid && below && within
		b1, b2 := clone(issuer), clone(child)
		r.NoPanic("constraint-panic", issuer.DomainField+" / "+child.DomainField, func() {
			err := crypto.VerifyIssuerConstraints(issuer, child)
			r.Case(true, "constraint", issuer.DomainField, child.DomainField, db, da)
			r.Count(fmt.Sprintf("names valid %v below %v, validity within %v", valid, below, within), 1)
			// A trailing dot makes the last label empty: malformed or absolute, not judged.
			absolute := strings.HasSuffix(issuer.DomainField, ".") || strings.HasSuffix(child.DomainField, ".")
			if (err == nil) != want && !(absolute && within) {
				r.Violation("constraint", fmt.Sprintf("%q [%v, %v] issued by %q [%v, %v]: acceptable %v, answer %v", child.DomainField, child.NotBefore, child.NotAfter,
					issuer.DomainField, issuer.NotBefore, issuer.NotAfter, want, err), nil)
			}
		})
		if !reflect.DeepEqual(b1, issuer) || !reflect.DeepEqual(b2, child) {
			r.Violation("constraint-modified", "checking the constraints changes a certificate", []string{show(b1), show(issuer), show(b2), show(child)})
		}
		// Who may own.
		if c%40 == 0 {
			s := newSigner(rnd, ks[0])
			s.cert.CanOwn = rnd.IntN(2) == 0
			s.cert.CanIssue = rnd.IntN(2) == 0
			q := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: rfields(rnd)}
			if rnd.IntN(3) > 0 {
				q.OwnerSignature, q.OwnerHash = nil, nil
			}
			want := s.cert.CanOwn && q.OwnerSignature == nil && q.OwnerHash == nil
			before := clone(q)
			err := crypto.SignAsOwner(s.cert, s.key, q)
			r.Count("requests to sign as owner", 1)
			if (err == nil) != want {
				r.Violation("own", fmt.Sprintf("signer may own %v, request already owned %v: %v", s.cert.CanOwn, before.OwnerHash != nil || before.OwnerSignature != nil, err), nil)
			}
			if err != nil && !reflect.DeepEqual(before, q) {
				r.Violation("own-modified", "a refused request is changed", []string{show(before), show(q)})
			}
		}
	}
}
