package main

import (
	"fmt"
	"slices"
	"strings"

	"golang.org/x/net/publicsuffix"

	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// suffixOf is the public suffix and whether it is publicly maintained.
func suffixOf(n string) (string, bool) { return publicsuffix.PublicSuffix(n) }

func publicSuffix(n string) bool {
	s, icann := suffixOf(n)
	return icann && s == n
}

// nameValid is the rule for acceptable names, written by labels.
func nameValid(n string) bool {
	if len(n) > 255 {
		return false
	}
	labels := strings.Split(n, ".")
	for i, l := range labels {
		if l == "*" && i == 0 {
			continue
		}
		if len(l) == 0 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for _, b := range []byte(l) {
			if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '-') {
				return false
			}
		}
	}
	if labels[0] == "*" {
		n = strings.Join(labels[1:], ".")
	}
	return n == "" || !publicSuffix(n)
}

// normal is the name without leading wildcard and www labels.
func normal(n string) string {
	if strings.HasPrefix(n, "*.") {
		n = n[2:]
	}
	if rest, ok := strings.CutPrefix(n, "www."); ok && rest != "" && !publicSuffix(rest) {
		n = rest
	}
	return n
}

// ancestors lists the names from the registered domain down to n.
func ancestors(n string) []string {
	s, icann := suffixOf(n)
	if !icann {
		return []string{n}
	}
	sl := strings.Count(s, ".") + 1
	labels := strings.Split(n, ".")
	var res []string
	for i := len(labels) - sl - 1; i >= 0; i-- {
		res = append(res, strings.Join(labels[i:], "."))
	}
	return res
}

func under(n, parent string) bool { return n == parent || strings.HasSuffix(n, "."+parent) }

func d01(r *lib.R) {
	r.Rule("names built from public suffixes (one and several labels, wildcard and exception rules, privately maintained, unknown), wildcard and www labels at any place, label and name lengths around the limits, foreign characters; lists of such names in several orders and with repetitions")
	r.Assume("the limit of 255 bytes (domain.MaxDomainLength) is one of the name as written", "names are lower case for acceptance; the public suffix list built into golang.org/x/net is the reference for public suffixes")
	suffixes := []string{"com", "org", "ch", "uk", "co.uk", "ac.uk", "jp", "kawasaki.jp", "city.kawasaki.jp", "x.kawasaki.jp", "foo.ck", "ck", "www.ck", "er", "com.er", "github.io", "io", "blogspot.com", "unknowntld", "localhost", "internal.corp", "compute.amazonaws.com", "k12.ca.us", "us", "bd", "com.bd", "co.jp", "name", "xn--p1ai"}
	labels := []string{"www", "a", "b", "mail", "x-y", "1", "xn--abc", "example", "www1", "w", "com", "co"}
	bad := []string{"", "-a", "a-", "a_b", "a b", "é", "*", "a*", "*a", "**", "a\x00", "a/b", "\xff", strings.Repeat("a", 64), "-"}
	gen := func(rnd rng) string {
		n := suffixes[rnd.IntN(len(suffixes))]
		for k := rnd.IntN(5); k > 0; k-- {
			l := labels[rnd.IntN(len(labels))]
			if rnd.IntN(12) == 0 {
				l = strings.Repeat("l", []int{1, 2, 61, 62, 63}[rnd.IntN(5)])
			}
			if rnd.IntN(25) == 0 {
				l = bad[rnd.IntN(len(bad))]
			}
			n = l + "." + n
		}
		switch rnd.IntN(12) {
		case 0, 1:
			n = "www." + n
		case 2, 3:
			n = "*." + n
		case 4:
			n = "*.www." + n
		case 5:
			n = "www.*." + n
		case 6:
			n = "*.*." + n
		case 7:
			if rnd.IntN(3) == 0 {
				n = n + "."
			}
		case 8:
			if rnd.IntN(3) == 0 {
				n = "." + n
			}
		case 9:
			if rnd.IntN(3) == 0 { // long names
				want := 200 + rnd.IntN(80)
				if rnd.IntN(2) == 0 {
					want = 252 + rnd.IntN(6) // around the limit, exactly
				}
				for {
					l := min(1+rnd.IntN(40), want-len(n)-1)
					if l < 1 || len(n)+1+l == want-1 && rnd.IntN(4) > 0 {
						break
					}
					n = strings.Repeat("q", l) + "." + n
				}
			}
		case 10:
			if rnd.IntN(4) == 0 {
				n = strings.ToUpper(n[:1]) + n[1:]
			}
		}
		return n
	}
	skip := func(n string) bool {
		return strings.ToLower(n) != n
	}
	var pool []string
	for c := 0; c < r.N(40000, 800000); c++ {
		n := gen(r.Rand("name", c))
		var ok bool
		var parts []string
		var err error
		if !r.NoPanic("name-panic", fmt.Sprintf("%q", n), func() {
			ok = domain.IsValidDomain(n)
			parts, err = domain.ParseDomainName(n)
		}) {
			continue
		}
		want := nameValid(n)
		r.Case(true, "name", n)
		if skip(n) {
			continue
		}
		r.Count(fmt.Sprintf("names accepted %v", want), 1)
		if ok != want {
			r.Violatedf("name-valid", "%q is accepted: %v, want %v", n, ok, want)
			continue
		}
		if (err == nil) != want {
			r.Violatedf("name-parse", "%q is valid %v but parsing it answers %q, %v", n, want, parts, err)
			continue
		}
		if err != nil {
			continue
		}
		if w := ancestors(normal(n)); !slices.Equal(parts, w) {
			r.Violatedf("name-ancestors", "%q is split into %q, want %q", n, parts, w)
		}
		for _, p := range parts {
			if publicSuffix(p) {
				r.Violatedf("name-suffix", "%q is split into %q containing a public suffix", n, parts)
			}
		}
		if c%3 == 0 && len(pool) < 4000 {
			pool = append(pool, n)
		}
	}
	for c := 0; c < r.N(8000, 150000); c++ {
		rnd := r.Rand("group", c)
		var in []string
		k := rnd.IntN(12)
		base := pool[rnd.IntN(len(pool))]
		for len(in) < k {
			switch rnd.IntN(6) {
			case 0:
				in = append(in, gen(rnd))
			case 1:
				in = append(in, pool[rnd.IntN(len(pool))])
			default: // related names
				n := strings.TrimPrefix(base, "*.")
				if rnd.IntN(3) == 0 && strings.Count(n, ".") > 1 {
					n = n[strings.Index(n, ".")+1:]
				}
				for j := rnd.IntN(3); j > 0; j-- {
					n = labels[rnd.IntN(len(labels))] + "." + n
				}
				in = append(in, n)
			}
		}
		in = slices.DeleteFunc(in, skip)
		orig := slices.Clone(in)
		var out []string
		if !r.NoPanic("group-panic", fmt.Sprintf("%q", in), func() { out = domain.ExtractAffectedDomains(in) }) {
			continue
		}
		r.Case(len(out) > 1 || len(in) > 4, "group", fmt.Sprint(in))
		if !slices.Equal(in, orig) {
			r.Violation("group-changed", "grouping changes the list of names", orig)
		}
		for _, n := range in {
			if !nameValid(n) {
				continue
			}
			if !slices.ContainsFunc(out, func(o string) bool { return under(normal(n), o) }) {
				r.Violation("group-lost", fmt.Sprintf("%q is not covered by %q", n, out), orig)
			}
		}
		for _, o := range out {
			if publicSuffix(o) {
				r.Violation("group-suffix", fmt.Sprintf("grouped into the public suffix %q", o), orig)
			}
			if !slices.ContainsFunc(in, func(n string) bool { return nameValid(n) && under(normal(n), o) }) {
				r.Violation("group-invented", fmt.Sprintf("%q covers none of the names", o), orig)
			}
		}
		again := slices.Clone(in)
		for j := rnd.IntN(4); j > 0 && len(in) > 0; j-- {
			again = append(again, in[rnd.IntN(len(in))])
		}
		rnd.Shuffle(len(again), func(a, b int) { again[a], again[b] = again[b], again[a] })
		out2 := domain.ExtractAffectedDomains(again)
		slices.Sort(out)
		slices.Sort(out2)
		if !slices.Equal(out, out2) {
			r.Violation("group-order", fmt.Sprintf("the same names in another order give %q instead of %q", out2, out), orig)
		}
		if len(slices.Compact(slices.Clone(out))) != len(out) {
			r.Violation("group-repeat", fmt.Sprintf("repeated result %q", out), orig)
		}
	}
}
