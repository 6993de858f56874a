package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

type signer struct {
	cert *common.PolicyCertificate
	key  *rsa.PrivateKey
}

func newSigner(rnd rng, k key) signer {
	c := rpc(rnd)
	c.CanOwn = true
	c.PublicKey = bytes.Clone(k.der)
	return signer{c, k.priv}
}

// unencodable is an instant that has no representation in a document.
var unencodable = time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)

// ownerCovers and issuerCovers: which places of a certificate the signatures bind.
func ownerCovers(path string) bool {
	return !strings.HasPrefix(path, ".SPCTs") && !strings.HasPrefix(path, ".Issuer")
}

func signerIdentifies(path string) bool {
	return !strings.HasPrefix(path, ".SPCTs") && path != ".IssuerSignature"
}

func c01(r *lib.R) {
	r.Rule("random documents signed as owner and as issuer; every place of the document, the signer and the signature changed in turn; documents that cannot be serialised; concurrent verification of shared documents")
	r.Assume("strings are valid UTF-8; changing the zone of an instant or nil to empty is not regarded as a change")
	ks := getKeys()
	n := r.N(60, 1500)
	r.Par(n, func(c int) {
		rnd := r.Rand("doc", c)
		owner, issuer, other := newSigner(rnd, ks[0]), newSigner(rnd, ks[1]), newSigner(rnd, ks[2])
		// unchanged watches that f leaves the documents as they are.
		unchanged := func(what string, f func(), docs ...any) {
			before := make([]any, len(docs))
			for i := range docs {
				before[i] = clone(docs[i])
			}
			r.NoPanic("sign-panic", what, f)
			for i := range docs {
				if !reflect.DeepEqual(before[i], docs[i]) {
					r.Violation("doc-modified", what+": a document passed for inspection changed", []string{show(before[i]), show(docs[i])})
				}
			}
			r.Count("calls watched for modifications", 1)
		}
		verOwner := func(o *common.PolicyCertificate, c *common.PolicyCertificate) (err error) {
			unchanged("verifying the owner", func() { err = crypto.VerifyOwnerSignatureInPolicyCertificate(o, c) }, o, c)
			return
		}
		verReq := func(o *common.PolicyCertificate, q *common.PolicyCertificateSigningRequest) (err error) {
			unchanged("verifying the owner of a request", func() { err = crypto.VerifyOwnerSignature(o, q) }, o, q)
			return
		}
		verIssuer := func(i *common.PolicyCertificate, c *common.PolicyCertificate) (err error) {
			unchanged("verifying the issuer", func() { err = crypto.VerifyIssuerSignature(i, c) }, i, c)
			return
		}
		identity := func(p *common.PolicyCertificate) (h []byte, err error) {
			unchanged("identifying a signer", func() { h, err = crypto.ComputeHashAsSigner(p) }, p)
			return
		}

		// Sign as owner.
		req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: rfields(rnd)}
		req.OwnerSignature, req.OwnerHash = nil, nil
		before := clone(req)
		var err error
		unchanged("signing as owner", func() { err = crypto.SignAsOwner(owner.cert, owner.key, req) }, owner.cert)
		if err != nil {
			r.Violation("owner-sign", "signing as owner fails: "+err.Error(), show(before))
			return
		}
		wantHash, _ := identity(owner.cert)
		stripped := clone(owner.cert)
		stripped.SPCTs, stripped.IssuerSignature = nil, nil
		enc, _ := common.ToJSON(stripped)
		if want := sha256.Sum256(enc); !bytes.Equal(wantHash, want[:]) || !bytes.Equal(req.OwnerHash, want[:]) {
			r.Violation("signer-identity", "the signer is not identified by the hash of its certificate without timestamps and issuer signature", show(owner.cert))
		}
		after := clone(req)
		after.OwnerHash, after.OwnerSignature = nil, nil
		if !reflect.DeepEqual(before, after) {
			r.Violation("owner-sign-modified", "signing as owner changes other parts of the request", []string{show(before), show(after)})
		}
		// Issue.
		var cert *common.PolicyCertificate
		unchanged("issuing", func() { cert, err = crypto.SignRequestAsIssuer(issuer.cert, issuer.key, req) }, issuer.cert, req)
		if err != nil {
			r.Violation("issuer-sign", "signing as issuer fails: "+err.Error(), show(req))
			return
		}
		if !cert.PolicyCertificateFields.Equal(req.PolicyCertificateFields) || len(cert.SPCTs) != 0 {
			r.Violation("issue-content", "the issued certificate has not the content of the request", []string{show(req), show(cert)})
		}
		r.Case(true, "signed", show(cert))
		for what, err := range map[string]error{"owner of the request": verReq(owner.cert, req), "owner": verOwner(owner.cert, cert), "issuer": verIssuer(issuer.cert, cert)} {
			if err != nil {
				r.Violation("verify-honest", "a genuine signature ("+what+") is refused: "+err.Error(), show(cert))
			}
		}
		// With timestamps, signed again.
		full := clone(cert)
		full.SPCTs = []common.SignedPolicyCertificateTimestamp{rspct(rnd), rspct(rnd)}
		pre := clone(full)
		if err := crypto.SignPolicyCertificateAsIssuer(issuer.cert, issuer.key, full); err == nil || !reflect.DeepEqual(pre, full) {
			r.Violation("resign", fmt.Sprintf("signing a signed certificate: %v", err), show(full))
		}
		full.IssuerHash, full.IssuerSignature = nil, nil
		pre = clone(full)
		unchanged("signing as issuer", func() { err = crypto.SignPolicyCertificateAsIssuer(issuer.cert, issuer.key, full) }, issuer.cert)
		post := clone(full)
		post.IssuerHash, post.IssuerSignature = nil, nil
		if err != nil || !reflect.DeepEqual(pre, post) {
			r.Violation("issuer-sign", fmt.Sprintf("signing as issuer: error %v or other parts changed", err), []string{show(pre), show(post)})
			return
		}
		// It survives transport.
		enc, err = common.ToJSON(full)
		if err == nil {
			var o any
			if o, err = common.FromJSON(enc); err == nil {
				got, ok := o.(*common.PolicyCertificate)
				if !ok || verOwner(owner.cert, got) != nil || verIssuer(issuer.cert, got) != nil {
					r.Violation("verify-transported", "a signed certificate does not verify after encoding and decoding", string(enc))
				}
			}
		}
		if err != nil {
			r.Violation("verify-transported", "a signed certificate cannot be encoded and decoded: "+err.Error(), show(full))
		}
		// Every change of the document.
		for i, l := range leaves(full) {
			m := clone(full)
			leaves(m)[i].change(rnd)
			ownerOK, issuerOK := verOwner(owner.cert, m) == nil, verIssuer(issuer.cert, m) == nil
			r.Case(true, "mut", l.path, c)
			r.Seen("places changed", l.path)
			if ownerOK == ownerCovers(l.path) {
				r.Violation("owner-binds", fmt.Sprintf("after changing %s of a certificate, verification of the owner's signature gives %v", l.path, ownerOK), []string{show(full), show(m)})
			}
			if issuerOK {
				r.Violation("issuer-binds", fmt.Sprintf("after changing %s of a certificate, the issuer's signature still verifies", l.path), []string{show(full), show(m)})
			}
		}
		for i, l := range leaves(req) {
			m := clone(req)
			leaves(m)[i].change(rnd)
			if verReq(owner.cert, m) == nil {
				r.Violation("request-binds", fmt.Sprintf("after changing %s of a request, the owner's signature still verifies", l.path), []string{show(req), show(m)})
			}
		}
		// Every change of the signer.
		for i, l := range leaves(owner.cert) {
			mo, mi := clone(owner.cert), clone(issuer.cert)
			leaves(mo)[i].change(rnd)
			if h, _ := identity(mo); bytes.Equal(h, wantHash) == signerIdentifies(l.path) {
				r.Violation("signer-identity", fmt.Sprintf("after changing %s of the signer, its identity is the same: %v", l.path, bytes.Equal(h, wantHash)), show(mo))
			}
			if ok := verOwner(mo, full) == nil; ok == signerIdentifies(l.path) {
				r.Violation("owner-signer", fmt.Sprintf("after changing %s of the owner's certificate, verification gives %v", l.path, ok), show(mo))
			}
			if il := leaves(mi); i < len(il) {
				il[i].change(rnd)
				if ok := verIssuer(mi, full) == nil; ok == signerIdentifies(il[i].path) {
					r.Violation("issuer-signer", fmt.Sprintf("after changing %s of the issuer's certificate, verification gives %v", il[i].path, ok), show(mi))
				}
			}
		}
		// Other signers, also with the right key in another certificate, and other keys for the right one.
		twin := newSigner(rnd, ks[0])
		for _, s := range []signer{other, issuer, twin} {
			if verOwner(s.cert, full) == nil || verReq(s.cert, req) == nil {
				r.Violation("owner-other", "the owner's signature verifies under a certificate that did not sign", show(full))
			}
		}
		for _, s := range []signer{other, owner} {
			if verIssuer(s.cert, full) == nil {
				r.Violation("issuer-other", "the issuer's signature verifies under a certificate that did not sign", show(full))
			}
		}
		forged := clone(before)
		if crypto.SignAsOwner(owner.cert, other.key, forged) == nil && verReq(owner.cert, forged) == nil {
			r.Violation("owner-forged", "a signature made with another key verifies", show(forged))
		}
		forgedC := clone(pre)
		if crypto.SignPolicyCertificateAsIssuer(issuer.cert, other.key, forgedC) == nil && verIssuer(issuer.cert, forgedC) == nil {
			r.Violation("issuer-forged", "a signature made with another key verifies", show(forgedC))
		}
		// Not signed at all.
		bare := clone(full)
		bare.OwnerSignature, bare.IssuerSignature = nil, nil
		if verOwner(owner.cert, bare) == nil || verIssuer(issuer.cert, bare) == nil {
			r.Violation("unsigned", "an unsigned certificate verifies", show(bare))
		}
		bare.OwnerHash, bare.IssuerHash = nil, nil
		if verOwner(owner.cert, bare) == nil || verIssuer(issuer.cert, bare) == nil {
			r.Violation("unsigned", "an unsigned certificate without declared signers verifies", show(bare))
		}
		// Refusals and failures leave everything as it is.
		refuse := func(what string, q *common.PolicyCertificateSigningRequest, s signer) {
			var err error
			unchanged("refused: "+what, func() { err = crypto.SignAsOwner(s.cert, s.key, q) }, q, s.cert)
			if err == nil {
				r.Violation("owner-refuse", "signing as owner is not refused: "+what, show(q))
			}
		}
		refuse("already signed", clone(req), owner)
		q := clone(before)
		q.OwnerHash = rbytes(rnd, 32)
		refuse("already has an owner", q, owner)
		cannot := signer{clone(owner.cert), owner.key}
		cannot.cert.CanOwn = false
		refuse("signer may not own", clone(before), cannot)
		q = clone(before)
		q.NotAfter = unencodable
		refuse("not serialisable", q, owner)
		badSigner := signer{clone(owner.cert), owner.key}
		badSigner.cert.NotAfter = unencodable
		refuse("signer not serialisable", clone(before), badSigner)
		bad := clone(pre)
		bad.TimeStamp = unencodable
		unchanged("issuing something not serialisable", func() { err = crypto.SignPolicyCertificateAsIssuer(issuer.cert, issuer.key, bad) }, bad, issuer.cert)
		if err == nil {
			r.Violation("issuer-refuse", "a certificate that cannot be serialised is signed", nil)
		}
		badFull := clone(full)
		badFull.TimeStamp = unencodable
		if verOwner(owner.cert, badFull) == nil || verIssuer(issuer.cert, badFull) == nil || verOwner(badSigner.cert, full) == nil || verIssuer(badSigner.cert, full) == nil {
			r.Violation("unserialisable", "a certificate that cannot be serialised verifies", nil)
		}
		if _, err := identity(badSigner.cert); err == nil {
			r.Violation("unserialisable", "a certificate that cannot be serialised has an identity", nil)
		}
		// Keys that are none.
		for _, pk := range [][]byte{nil, {1, 2, 3}, rbytes(rnd, 40)} {
			bo := clone(owner.cert)
			bo.PublicKey = pk
			q := clone(before)
			if crypto.SignAsOwner(bo, owner.key, q) == nil && verReq(bo, q) == nil {
				r.Violation("no-key", "a signature verifies under a certificate without a key", show(bo))
			}
		}
		// Timestamps.
		logID := rbytes(rnd, 32)
		var spt *common.SignedPolicyCertificateTimestamp
		unchanged("timestamping", func() { spt, err = crypto.SignPolicyCertificateTimestamp(full, 3, logID, ks[3].priv) }, full)
		if err != nil || spt == nil || spt.Version != 3 || !bytes.Equal(spt.LogID, logID) {
			r.Violation("timestamp", fmt.Sprintf("timestamping a certificate: %v", err), show(spt))
		} else {
			verify := func(entry *common.PolicyCertificate, s *common.SignedPolicyCertificateTimestamp) bool {
				e, _ := common.ToJSON(entry)
				in := common.NewSignedEntryTimestampSignatureInput(e, s)
				in.Signature = nil
				b, _ := common.ToJSON(in)
				return crypto.VerifySignedBytes(b, s.Signature, &ks[3].priv.PublicKey) == nil
			}
			if !verify(full, spt) {
				r.Violation("timestamp", "the signature of a timestamp does not verify", show(spt))
			}
			for i, l := range leaves(spt) {
				m := clone(spt)
				leaves(m)[i].change(rnd)
				if verify(full, m) {
					r.Violation("timestamp-binds", "after changing "+l.path+" of a timestamp its signature still verifies", show(m))
				}
			}
			fl := leaves(full)
			m := clone(full)
			i := rnd.IntN(len(fl))
			leaves(m)[i].change(rnd)
			if verify(m, spt) {
				r.Violation("timestamp-binds", "after changing "+fl[i].path+" of the certificate the timestamp still verifies", show(m))
			}
		}
		// Raw bytes.
		msg := rbytes(rnd, rnd.IntN(100))
		sig, err := crypto.SignBytes(msg, ks[4].priv)
		if err != nil || crypto.VerifySignedBytes(msg, sig, &ks[4].priv.PublicKey) != nil {
			r.Violatedf("sign-bytes", "signing and verifying %d bytes fails: %v", len(msg), err)
		} else {
			flip := bytes.Clone(sig)
			flip[rnd.IntN(len(flip))] ^= 1 << rnd.IntN(8)
			if crypto.VerifySignedBytes(msg, flip, &ks[4].priv.PublicKey) == nil || crypto.VerifySignedBytes(append(msg, 0), sig, &ks[4].priv.PublicKey) == nil ||
				crypto.VerifySignedBytes(msg, sig, &ks[5].priv.PublicKey) == nil || crypto.VerifySignedBytes(msg, nil, &ks[4].priv.PublicKey) == nil {
				r.Violatedf("verify-bytes", "an altered signature of bytes verifies")
			}
		}
		// Shared documents.
		if c%4 == 0 {
			done := make(chan struct{})
			const par = 6
			results := make(chan string, par*20)
			for g := 0; g < par; g++ {
				go func() {
					defer func() { done <- struct{}{} }()
					for k := 0; k < 4; k++ {
						h, err := crypto.ComputeHashAsSigner(owner.cert)
						h2, err2 := crypto.ComputeHashAsSigner(full)
						if err != nil || err2 != nil || !bytes.Equal(h, wantHash) || len(h2) != 32 {
							results <- "identity"
						}
						if crypto.VerifyOwnerSignatureInPolicyCertificate(owner.cert, full) != nil {
							results <- "owner"
						}
						if crypto.VerifyIssuerSignature(issuer.cert, full) != nil {
							results <- "issuer"
						}
						if crypto.VerifyOwnerSignature(owner.cert, req) != nil {
							results <- "request"
						}
						crypto.VerifyIssuerConstraints(issuer.cert, full)
					}
				}()
			}
			for g := 0; g < par; g++ {
				<-done
			}
			close(results)
			for what := range results {
				r.Violation("concurrent", "concurrent verification of shared documents gives another answer ("+what+")", show(full))
			}
			r.Count("documents verified concurrently", 1)
		}
	})
}
