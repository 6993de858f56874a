package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/domainowner"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// logs stands for the certificate logs: it records what it is sent and fails where told.
type logs struct {
	r        *lib.R
	rnd      rng
	root     *common.PolicyCertificate
	keys     map[string]key
	failSPT  int // fail the n-th request for a timestamp (-1: never)
	failSend int
	spts     map[string]*common.SignedPolicyCertificateTimestamp
	asked    []string
	sent     []string
	pre      []*common.PolicyCertificate // what the logs were shown first
	final    []*common.PolicyCertificate
}

func (l *logs) reset(failSPT, failSend int) {
	l.failSPT, l.failSend, l.asked, l.sent, l.pre, l.final = failSPT, failSend, nil, nil, nil, nil
	l.spts = map[string]*common.SignedPolicyCertificateTimestamp{}
}

func (l *logs) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	l.asked = append(l.asked, url)
	l.pre = append(l.pre, clone(pc))
	if len(l.asked)-1 == l.failSPT {
		return nil, fmt.Errorf("injected: no timestamp")
	}
	k := l.keys[url]
	spt, err := crypto.SignPolicyCertificateTimestamp(clone(pc), 1, common.SHA256Hash(k.der), k.priv)
	l.spts[url] = spt
	return spt, err
}

func (l *logs) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	l.sent = append(l.sent, url)
	l.final = append(l.final, clone(pc))
	if len(l.sent)-1 == l.failSend {
		return fmt.Errorf("injected: not accepted")
	}
	return nil
}

type issued struct {
	cert *common.PolicyCertificate
	key  key
}

func c03(r *lib.R) {
	r.Rule("histories of requests to one policy CA: first certificates, renewals signed with any certificate issued so far, forged, altered and malformed owner signatures, unknown owners, log failures at every position; several certificates for one key; 0 to 3 logs")
	r.Assume("requests arrive one after another; a log answers with an error or a timestamp")
	ks := getKeys()
	r.Par(r.N(60, 1000), func(c int) {
		rnd := r.Rand("ca", c)
		root := rpc(rnd)
		root.CanIssue, root.CanOwn, root.PublicKey = true, true, ks[0].der
		root.NotBefore, root.NotAfter = base.Add(-24*365*time.Hour), base.Add(24*365*time.Hour)
		rootJSON, err := util.PolicyCertificateToBytes(root)
		if err != nil {
			r.Violatedf("ca-config", "encoding a CA certificate: %v", err)
			return
		}
		conf := &pca.PCAConfig{CAName: "ca", KeyPEM: util.RSAKeyToPEM(ks[0].priv), CertJSON: rootJSON}
		l := &logs{r: r, rnd: rnd, root: root, keys: map[string]key{}}
		for i := rnd.IntN(4); i > 0; i-- {
			url := fmt.Sprintf("https://log%d/", i)
			l.keys[url] = ks[i]
			conf.CTLogServers = append(conf.CTLogServers, pca.CTLogServerEntryConfig{Name: url, URL: url, PublicKeyDER: ks[i].der})
		}
		dir, _ := os.MkdirTemp("", "pca")
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "conf.json")
		if err := pca.SaveConfigToFile(conf, path); err != nil {
			r.Violatedf("ca-config", "saving the CA configuration: %v", err)
			return
		}
		ca, err := pca.NewPCA(path)
		if err != nil || ca.CAName != "ca" || !ca.RootPolicyCert.Equal(*root) || len(ca.CtLogServers) != len(l.keys) {
			r.Violatedf("ca-config", "a saved CA configuration does not load as it was: %v", err)
			return
		}
		ca.LogServerRequester = l
		if rnd.IntN(3) == 0 { // a key that does not belong to the certificate
			bad := *conf
			bad.KeyPEM = util.RSAKeyToPEM(ks[1].priv)
			p := filepath.Join(dir, "bad.json")
			b, _ := json.Marshal(bad)
			os.WriteFile(p, b, 0600)
			if _, err := pca.NewPCA(p); err == nil {
				r.Violatedf("ca-config", "a CA starts with a key that does not belong to its certificate")
			}
		}
		var certs []issued
		serials := map[int]bool{}
		remembered := func() map[string]bool {
			m := map[string]bool{}
			for _, c := range ca.DB {
				m[show(c)] = true
			}
			return m
		}
		for step := 0; step < 14; step++ {
			k := ks[1+rnd.IntN(len(ks)-1)]
			name := words[1+rnd.IntN(3)]
			nb, na := root.NotBefore.Add(time.Duration(rnd.IntN(3))*time.Hour), root.NotAfter.Add(-time.Duration(rnd.IntN(3))*time.Hour)
			outside := rnd.IntN(8) == 0
			if outside {
				if rnd.IntN(2) == 0 {
					nb = root.NotBefore.Add(-1)
				} else {
					na = root.NotAfter.Add(1)
				}
			}
			attrs := common.PolicyAttributes{AllowedCAs: rstrings(rnd), AllowedSubdomains: rstrings(rnd)}
			canIssue, canOwn := rnd.IntN(2) == 0, rnd.IntN(4) > 0

			// Who signs as owner.
			kind := []string{"none", "issued", "issued", "forged", "altered", "malformed id", "unknown", "bad signature"}[rnd.IntN(8)]
			if len(certs) == 0 && kind != "none" && kind != "unknown" && kind != "malformed id" {
				kind = "none"
			}
			var owner issued
			var ownerHash []byte
			if len(certs) > 0 {
				owner = certs[rnd.IntN(len(certs))]
				ownerHash, _ = crypto.ComputeHashAsSigner(owner.cert)
			}
			wrong := owner.key
			for wrong.priv == nil || wrong.priv == owner.key.priv {
				wrong = ks[rnd.IntN(len(ks))]
			}
			switch kind {
			case "none":
				ownerHash = nil
			case "unknown":
				ownerHash = rbytes(rnd, 32)
			case "malformed id":
				ownerHash = rbytes(rnd, []int{0, 1, 31, 33, 64}[rnd.IntN(5)])
			}
			calls := 0
			var toSign []byte
			serialBefore := ca.SerialNumber
			req, err := ca.NewPolicyCertificateSigningRequest(1, name, nb, na, canIssue, canOwn, k.der, common.RSA, common.SHA256, attrs,
				func(b []byte) []byte {
					calls++
					toSign = bytes.Clone(b)
					var sig []byte
					switch kind {
					case "none":
						return nil
					case "forged", "unknown":
						sig, _ = crypto.SignBytes(b, wrong.priv)
					case "bad signature":
						sig = rbytes(rnd, 128)
					case "malformed id":
						sig, _ = crypto.SignBytes(b, ks[1].priv)
					default:
						sig, _ = crypto.SignBytes(b, owner.key.priv)
					}
					return sig
				}, ownerHash)
			r.Case(true, "request", kind, outside, len(certs), len(l.keys))
			r.Count("requests: "+kind, 1)
			if outside {
				if err == nil {
					r.Violation("ca-validity", "a request whose validity exceeds that of the CA is prepared", show(req))
				}
				if calls != 0 {
					r.Violatedf("ca-validity", "a refused request is given to the owner for signing")
				}
				continue
			}
			if err != nil {
				r.Violation("ca-request", "a proper request cannot be prepared: "+err.Error(), nil)
				continue
			}
			// The request says what was asked for, and the owner signed exactly it.
			plain := clone(req)
			plain.OwnerSignature = nil
			enc, _ := common.ToJSON(common.NewPolicyCertificateFromRequest(plain))
			if calls != 1 || !bytes.Equal(enc, toSign) {
				r.Violation("ca-request", fmt.Sprintf("the owner signed %d times, or something else than the request", calls), []string{string(enc), string(toSign)})
			}
			want := common.NewPolicyCertificateSigningRequest(1, req.SerialNumber(), name, nb, na, canIssue, canOwn, k.der, common.RSA, common.SHA256, req.TimeStamp, attrs, req.OwnerSignature, ownerHash)
			if !req.Equal(want) {
				r.Violation("ca-request", "the prepared request differs from what was asked for", []string{show(req), show(want)})
			}
			if serials[req.SerialNumber()] || req.SerialNumber() == serialBefore {
				r.Violation("ca-serial", fmt.Sprintf("serial number %d is used twice", req.SerialNumber()), nil)
			}
			serials[req.SerialNumber()] = true
			if kind == "altered" {
				lv := leaves(req)
				for {
					i := rnd.IntN(len(lv))
					if p := lv[i].path; p == ".OwnerHash" { // then the owner is another or none
						continue
					}
					lv[i].change(rnd)
					break
				}
				if len(req.OwnerSignature) == 0 {
					kind = "none"
				}
			}

			// What must happen.
			reject := false
			switch kind {
			case "forged", "altered", "malformed id", "bad signature":
				reject = true
			}
			nLogs := len(l.keys)
			failSPT, failSend := -1, -1
			if nLogs > 0 && rnd.IntN(3) == 0 {
				if rnd.IntN(2) == 0 {
					failSPT = rnd.IntN(nLogs)
				} else {
					failSend = rnd.IntN(nLogs)
				}
			}
			l.reset(failSPT, failSend)
			before, reqBefore := remembered(), clone(req)
			var pc *common.PolicyCertificate
			if !r.NoPanic("ca-panic", kind, func() { pc, err = ca.SignAndLogRequest(req) }) {
				return
			}
			if !reflect.DeepEqual(reqBefore, req) {
				r.Violation("ca-request-modified", "issuing changes the request", []string{show(reqBefore), show(req)})
			}
			if reject {
				if err == nil || pc != nil {
					r.Violation("ca-unauthorised", "a certificate is issued although the owner's signature is not genuine: "+kind, show(req))
					return // the model does not continue from here
				}
				if len(l.asked)+len(l.sent) > 0 {
					r.Violation("ca-unauthorised", "an unauthorised request is sent to the logs: "+kind, show(req))
				}
				if !reflect.DeepEqual(before, remembered()) {
					r.Violation("ca-remembers", "a refused request is remembered", show(req))
				}
				r.Count("requests refused", 1)
				continue
			}
			if failSPT >= 0 || failSend >= 0 {
				if err == nil || pc != nil {
					r.Violation("ca-log-failure", fmt.Sprintf("a certificate results although a log failed (timestamp %d, final %d)", failSPT, failSend), nil)
					return
				}
				if failSPT >= 0 && len(l.sent) > 0 {
					r.Violation("ca-log-failure", "a final certificate is sent although a timestamp is missing", nil)
				}
				if !reflect.DeepEqual(before, remembered()) {
					r.Violation("ca-remembers", "a certificate that was not issued is remembered", show(req))
				}
				r.Count("log failures", 1)
				// It is not an owner either: nothing signed for it is checked against it.
				continue
			}
			if err != nil || pc == nil {
				r.Violation("ca-refuses", fmt.Sprintf("a proper request (%s) is refused: %v", kind, err), show(req))
				continue
			}
			r.Count("certificates issued", 1)
			if !pc.PolicyCertificateFields.Equal(req.PolicyCertificateFields) {
				r.Violation("ca-content", "the issued certificate differs from the request", []string{show(req), show(pc)})
			}
			if err := crypto.VerifyIssuerSignature(ca.RootPolicyCert, pc); err != nil {
				r.Violation("ca-signature", "an issued certificate does not verify under the CA: "+err.Error(), show(pc))
			}
			if kind == "issued" {
				if err := crypto.VerifyOwnerSignatureInPolicyCertificate(owner.cert, pc); err != nil {
					r.Violation("ca-owner", "the owner's signature does not verify in the issued certificate: "+err.Error(), show(pc))
				}
			}
			// Each log asked once with the right content, all timestamps included, final certificate everywhere.
			seenAsk, seenSent := map[string]int{}, map[string]int{}
			for i, u := range l.asked {
				seenAsk[u]++
				p := l.pre[i]
				if !p.PolicyCertificateFields.Equal(req.PolicyCertificateFields) || len(p.SPCTs) != 0 || crypto.VerifyIssuerSignature(ca.RootPolicyCert, p) != nil {
					r.Violation("ca-log-content", "a log is asked to timestamp something else than the signed request", show(p))
				}
			}
			for i, u := range l.sent {
				seenSent[u]++
				if !l.final[i].Equal(*pc) {
					r.Violation("ca-log-content", "a log receives another certificate than the one issued", []string{show(l.final[i]), show(pc)})
				}
			}
			for u := range l.keys {
				if seenAsk[u] != 1 || seenSent[u] != 1 {
					r.Violation("ca-logs", fmt.Sprintf("log %s was asked %d times and sent the certificate %d times", u, seenAsk[u], seenSent[u]), nil)
				}
				n := 0
				for _, s := range pc.SPCTs {
					if s.Equal(*l.spts[u]) {
						n++
					}
				}
				if n != 1 {
					r.Violation("ca-timestamps", fmt.Sprintf("the timestamp of log %s is included %d times", u, n), show(pc))
				}
			}
			if len(pc.SPCTs) != nLogs || len(l.asked) != nLogs || len(l.sent) != nLogs {
				r.Violation("ca-timestamps", fmt.Sprintf("%d timestamps of %d logs", len(pc.SPCTs), nLogs), show(pc))
			}
			if !remembered()[show(pc)] {
				r.Violation("ca-remembers", "an issued certificate is not remembered", show(pc))
			}
			certs = append(certs, issued{clone(pc), k})
		}
		r.Max("certificates of one CA", len(certs))
	})
	// Requests of a domain owner.
	for c := 0; c < r.N(4, 40); c++ {
		rnd := r.Rand("owner", c)
		do := domainowner.NewDomainOwner()
		o := newSigner(rnd, ks[2])
		if c%2 == 1 {
			do.DomainRoots["example.com"] = domainowner.CertKey{Cert: o.cert, Key: o.key}
		}
		req, err := do.GeneratePolCertSignRequest("example.com", 1)
		r.Case(true, "owner request", c%2)
		if err != nil {
			r.Violatedf("owner-request", "a domain owner cannot make a request: %v", err)
			continue
		}
		if req.Domain() != "example.com" || len(req.PublicKey) == 0 {
			r.Violation("owner-request", "the request is not for the domain", show(req))
		}
		if again, err := do.GeneratePolCertSignRequest("example.com", 1); err != nil || bytes.Equal(again.PublicKey, req.PublicKey) || bytes.Equal(req.PublicKey, o.cert.PublicKey) {
			r.Violation("owner-request", fmt.Sprintf("a request fails (%v) or is for the key of another one", err), show(req))
		}
		if signed := crypto.VerifyOwnerSignature(o.cert, req) == nil; signed != (c%2 == 1) {
			r.Violation("owner-request", fmt.Sprintf("owner has a previous certificate: %v, the request is signed with it: %v", c%2 == 1, signed), show(req))
		}
		other, err := do.GeneratePolCertSignRequest("other.com", 1)
		if err != nil || len(other.OwnerSignature) != 0 || len(other.OwnerHash) != 0 || bytes.Equal(other.PublicKey, req.PublicKey) {
			r.Violation("owner-request", "a request for a new domain is signed by another domain's owner, or repeats a key", show(other))
		}
	}
}
