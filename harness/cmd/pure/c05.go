package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func c05(r *lib.R) {
	r.Rule("attribute sets over small label alphabets (wildcard, labels that are parts of each other, repetitions within and across lists) against names at, below, above, beside and textually similar to the policy's domain, with and without a trailing dot")
	r.Assume("names are lower case, non-empty and without empty labels; decisions are checked for accepted attribute sets")
	labels := []string{"a", "b", "ab", "a-b", "www", "example", "com", "*", "x1"}
	domains := []string{"example.com", "a.example.com", "com", "b.a.example.com", "ex-ample.org"}
	verdicts := map[common.PolicyAttributeDomainValidityResult]string{
		common.PolicyAttributeDomainAllowed: "allowed", common.PolicyAttributeDomainDisallowed: "disallowed",
		common.PolicyAttributeDomainExcluded: "excluded", common.PolicyAttributeDomainNotApplicable: "not concerned",
	}
	if len(verdicts) != 4 {
		r.Violatedf("attr-values", "the four decisions are not distinguishable")
	}
	for c := 0; c < r.N(20000, 400000); c++ {
		rnd := r.Rand("attr", c)
		pick := func() []string {
			var res []string
			for k := rnd.IntN(4) * rnd.IntN(2); k > 0; k-- {
				res = append(res, labels[rnd.IntN(len(labels))])
			}
			return res
		}
		a := common.PolicyAttributes{AllowedSubdomains: pick(), DisallowedSubdomains: pick(), ExcludedSubdomains: pick()}
		for k := rnd.IntN(4); k > 0; k-- {
			a.AllowedCAs = append(a.AllowedCAs, fmt.Sprint("CN=ca", rnd.IntN(6)))
		}
		if rnd.IntN(6) == 0 { // all entries distinct
			p := rnd.Perm(len(labels))
			a.AllowedSubdomains, a.DisallowedSubdomains, a.ExcludedSubdomains = nil, nil, nil
			for _, i := range p {
				switch rnd.IntN(4) {
				case 0:
					a.AllowedSubdomains = append(a.AllowedSubdomains, labels[i])
				case 1:
					a.DisallowedSubdomains = append(a.DisallowedSubdomains, labels[i])
				case 2:
					a.ExcludedSubdomains = append(a.ExcludedSubdomains, labels[i])
				}
			}
		}
		unique := func(l ...[]string) bool {
			seen := map[string]bool{}
			for _, x := range slices.Concat(l...) {
				if seen[x] {
					return false
				}
				seen[x] = true
			}
			return true
		}
		valid := unique(a.AllowedCAs) && unique(a.AllowedSubdomains, a.DisallowedSubdomains, a.ExcludedSubdomains)
		before := fmt.Sprintf("%#v", a)
		r.NoPanic("attr-panic", before, func() {
			err := a.ValidateAttributes()
			r.Case(!valid, "validate", before)
			if (err == nil) != valid {
				r.Violation("attr-validate", fmt.Sprintf("attributes without repetition %v, answer: %v", valid, err), before)
			}
		})
		if valid {
			for k := 0; k < 6; k++ {
				pd := domains[rnd.IntN(len(domains))]
				var name string
				below := ""
				switch rnd.IntN(8) {
				case 0:
					name = pd
				case 1: // textually similar only
					name = labels[rnd.IntN(3)] + pd
				case 2: // the parent
					name = pd[strings.Index(pd, ".")+1:]
				case 3:
					name = domains[rnd.IntN(len(domains))]
				case 4: // the domain somewhere in front
					name = "a." + pd + ".org"
				default:
					below = labels[rnd.IntN(len(labels))]
					name = below + "." + pd
					for j := rnd.IntN(3); j > 0; j-- {
						name = labels[rnd.IntN(len(labels))] + "." + name
					}
				}
				// What the name is, judged by its labels.
				nl, pl := strings.Split(name, "."), strings.Split(pd, ".")
				want := common.PolicyAttributeDomainValidityResult(common.PolicyAttributeDomainNotApplicable)
				if len(nl) > len(pl) && slices.Equal(nl[len(nl)-len(pl):], pl) {
					want = decide(a, nl[len(nl)-len(pl)-1])
				}
				qd, qn := pd, name
				if rnd.IntN(3) == 0 {
					qd += "."
				}
				if rnd.IntN(3) == 0 {
					qn += "."
				}
				r.NoPanic("attr-panic", qn, func() {
					got := a.CheckDomainValidity(qd, qn)
					r.Case(true, "decide", before, qd, qn)
					r.Count("decision "+verdicts[want], 1)
					if got != want {
						r.Violation("attr-decide", fmt.Sprintf("%s under a policy for %s is %s, want %s", qn, qd, verdicts[got], verdicts[want]), before)
					}
				})
			}
		}
		if fmt.Sprintf("%#v", a) != before {
			r.Violation("attr-changed", "asking changes the attributes", []string{before, fmt.Sprintf("%#v", a)})
		}
	}
}

// decide is the documented rule: an explicit entry, then a wildcard, then allowed.
func decide(a common.PolicyAttributes, label string) common.PolicyAttributeDomainValidityResult {
	for _, l := range []string{label, "*"} {
		switch {
		case slices.Contains(a.AllowedSubdomains, l):
			return common.PolicyAttributeDomainAllowed
		case slices.Contains(a.DisallowedSubdomains, l):
			return common.PolicyAttributeDomainDisallowed
		case slices.Contains(a.ExcludedSubdomains, l):
			return common.PolicyAttributeDomainExcluded
		}
	}
	return common.PolicyAttributeDomainAllowed
}
