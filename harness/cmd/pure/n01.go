package main

import (
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	stdx509 "crypto/x509"
	"encoding/base64"
	"encoding/csv"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/pkg/util/noallocs"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// pieces hands out data in pieces chosen by sizes.
type pieces struct {
	data  []byte
	rnd   rng
	most  int
	zeros int   // how many times nothing may be returned
	fail  int   // fails when this many bytes are left (-1: never)
	err   error // with what
	eof   bool  // end of file together with the last bytes
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.fail >= 0 && len(p.data) <= p.fail {
		return 0, p.err
	}
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	if p.zeros > 0 && p.rnd.IntN(10) == 0 {
		p.zeros--
		return 0, nil
	}
	n := min(len(b), len(p.data), 1+p.rnd.IntN(p.most))
	if p.fail >= 0 {
		n = min(n, len(p.data)-p.fail)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.eof && len(p.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var errPiece = errors.New("the medium fails")

type material struct {
	leaves []*certs.Leaf
	cas    []*certs.CA
	parsed map[string]*ctx509.Certificate
	big    []byte
}

func newMaterial(r *lib.R) *material {
	future := time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	m := &material{parsed: map[string]*ctx509.Certificate{}}
	root := certs.NewCA(nil, "root", future)
	root2 := certs.NewCA(nil, "other root", future)
	mid := certs.NewCA(root, "mid", future)
	low := certs.NewCA(mid, "low", future)
	mid2 := certs.NewCA(root2, "mid2", future)
	deep := certs.NewCA(low, "deep", future)
	deeper := certs.NewCA(deep, "deeper", future)
	m.cas = []*certs.CA{root, root2, mid, low, mid2, deep, deeper}
	for i := 0; i < 24; i++ {
		cn := fmt.Sprintf("h%d.example.com", i)
		var sans []string
		for j := 0; j < i%5; j++ {
			sans = append(sans, fmt.Sprintf("s%d.h%d.example.com", j%3, i))
		}
		if i%4 == 1 {
			sans = append(sans, cn, cn)
		}
		if i%6 == 5 {
			cn = ""
		}
		m.leaves = append(m.leaves, certs.NewLeaf(m.cas[i%7], cn, sans, future.Add(-time.Duration(i)*time.Hour), i%5 == 3))
	}
	var sans []string
	for i := 0; i < 42000; i++ {
		sans = append(sans, fmt.Sprintf("name-number-%d.example.com", i))
	}
	m.big = certs.NewLeaf(root, "big.example.com", sans, future, false).DER
	for _, l := range m.leaves {
		m.parsed[string(l.DER)] = mustParse(l.DER)
	}
	for _, c := range m.cas {
		m.parsed[string(c.DER)] = mustParse(c.DER)
	}
	return m
}

func mustParse(der []byte) *ctx509.Certificate {
	c, err := ctx509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return c
}

// ders lists some certificates of all kinds.
func (m *material) some(rnd rng, n int) (res [][]byte) {
	for i := 0; i < n; i++ {
		if rnd.IntN(4) == 0 {
			res = append(res, m.cas[rnd.IntN(len(m.cas))].DER)
		} else {
			res = append(res, m.leaves[rnd.IntN(len(m.leaves))].DER)
		}
	}
	return
}

func rawsOf(cs []ctx509.Certificate) (res [][]byte) {
	for _, c := range cs {
		res = append(res, c.Raw)
	}
	return
}

func equalRaws(a, b [][]byte) bool { return slices.EqualFunc(a, b, bytes.Equal) }

func n01(r *lib.R) {
	r.Rule("streams of 0 to 20 certificates (one larger than the reader's storage) with foreign blocks and text in between, read in pieces of 1 byte to everything, in batches of every size; damaged and failing streams; compressed files; CSV rows with chains; chains with shared and already known members")
	r.Assume("a stream cut inside the line that begins a certificate is not told from trailing text")
	m := newMaterial(r)
	dir, err := os.MkdirTemp("", "n01")
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	readers(r, m)
	damages(r, m)
	files(r, m, dir)
	keys(r, dir)
	csvRows(r, m)
	unfold(r, m)
	extracts(r, m)
	scratchFiles(r, dir)
}

// stream writes certificates as PEM with other things in between.
func stream(rnd rng, ders [][]byte, plain bool) []byte {
	var b bytes.Buffer
	noise := func() {
		if plain {
			return
		}
		switch rnd.IntN(8) {
		case 0:
			b.WriteString("some text\nsubject=/CN=x\n")
		case 1:
			b.WriteString("\n\n")
		case 2:
			pem.Encode(&b, &pem.Block{Type: "X509 CRL", Bytes: []byte("something else")})
		case 3:
			pem.Encode(&b, &pem.Block{Type: "RSA PRIVATE KEY", Bytes: make([]byte, rnd.IntN(3000))})
		}
	}
	for _, d := range ders {
		noise()
		bl := &pem.Block{Type: "CERTIFICATE", Bytes: d}
		if !plain && rnd.IntN(6) == 0 {
			bl.Headers = map[string]string{"Origin": "test"}
		}
		pem.Encode(&b, bl)
	}
	noise()
	return b.Bytes()
}

func readers(r *lib.R, m *material) {
	r.Par(r.N(700, 12000), func(c int) {
		rnd := r.Rand("stream", c)
		n := rnd.IntN(21)
		ders := m.some(rnd, n)
		if c%60 == 7 {
			ders = slices.Insert(ders, rnd.IntN(len(ders)+1), m.big)
		}
		data := stream(rnd, ders, rnd.IntN(2) == 0)
		if rnd.IntN(6) == 0 && len(data) < 100000 { // other line ends
			data = bytes.ReplaceAll(data, []byte("\n"), []byte("\r\n"))
		}
		most := []int{1, 3, 70, 1000, 5000, 1 << 30}[rnd.IntN(6)]
		if len(data) > 100000 {
			most = 1 << (12 + rnd.IntN(18))
		} else if most < 100 && len(data) > 6000 {
			most = 700
		}
		src := &pieces{data: data, rnd: rnd, most: most, zeros: rnd.IntN(4), fail: -1, eof: rnd.IntN(2) == 0}
		what := fmt.Sprintf("%d certificates, %d bytes, pieces of up to %d", len(ders), len(data), most)
		r.Case(len(ders) > 1, "stream", c)
		r.Count("certificates written and read", len(ders))
		r.NoPanic("reader-panic", what, func() {
			rd := util.NewCertReader(src)
			var got [][]byte
			if rnd.IntN(3) == 0 {
				all, err := rd.ReadAll()
				if err != nil {
					r.Violation("reader-error", "reading a sound stream fails: "+err.Error(), what)
					return
				}
				got = rawsOf(all)
			} else {
				for {
					k := 1 + rnd.IntN(7)
					buf := make([]ctx509.Certificate, k)
					n, err := rd.Read(buf)
					if err != nil {
						r.Violation("reader-error", "reading a sound stream fails: "+err.Error(), what)
						return
					}
					if n < 0 || n > k {
						r.Violatedf("reader-count", "%d certificates read into room for %d", n, k)
						return
					}
					got = append(got, rawsOf(buf[:n])...)
					if n < k {
						break
					}
				}
				if n, err := rd.Read(make([]ctx509.Certificate, 2)); n != 0 || err != nil {
					r.Violatedf("reader-end", "%d certificates after the end, %v", n, err)
				}
			}
			if !equalRaws(got, ders) {
				r.Violation("reader-content", fmt.Sprintf("%d of %d certificates read, or others", len(got), len(ders)), what)
			}
		})
	})
	for c := 0; c < r.N(200, 2000); c++ {
		rnd := r.Rand("serial", c)
		ders := m.some(rnd, rnd.IntN(8))
		cs := make([]ctx509.Certificate, len(ders))
		for i, d := range ders {
			cs[i] = *m.parsed[string(d)]
		}
		r.Case(len(ders) > 1, "serial", c)
		r.NoPanic("reader-panic", "serialize", func() {
			b, err := util.SerializeCertificates(cs)
			if err != nil {
				r.Violatedf("serialize", "%v", err)
				return
			}
			back, err := util.DeserializeCertificates(b)
			if err != nil || !equalRaws(rawsOf(back), ders) {
				r.Violatedf("serialize", "%d certificates come back as %d, %v", len(ders), len(back), err)
			}
			// A writer which fails is reported with the number of certificates that got through.
			if len(cs) > 0 {
				lim := rnd.IntN(len(b))
				w := &limited{left: lim}
				n, err := util.NewCertWriter(w).Write(cs)
				done, _ := util.DeserializeCertificates(b[:0])
				_ = done
				if err == nil || n > len(cs)-1 {
					r.Violatedf("writer-error", "a failing medium: %d written, %v", n, err)
				}
			}
		})
	}
}

type limited struct{ left int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.left {
		n := l.left
		l.left = 0
		return n, errPiece
	}
	l.left -= len(b)
	return len(b), nil
}

func damages(r *lib.R, m *material) {
	r.Par(r.N(1200, 20000), func(c int) {
		rnd := r.Rand("damage", c)
		ders := m.some(rnd, 1+rnd.IntN(8))
		v := rnd.IntN(len(ders))
		head := stream(rnd, ders[:v], true)
		block := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ders[v]})
		tail := stream(rnd, ders[v+1:], true)
		var data []byte
		fail := -1
		kind := rnd.IntN(6)
		const begin = len("-----BEGIN CERTIFICATE-----\n")
		endLine := len("-----END CERTIFICATE-----\n")
		switch kind {
		case 0: // cut inside the body
			cut := begin + rnd.IntN(len(block)-begin-2)
			data = append(head, block[:cut]...)
		case 1: // a foreign character in the body
			b := slices.Clone(block)
			i := begin + rnd.IntN(len(block)-begin-endLine-4)
			if b[i] == '\n' {
				i++
			}
			b[i] = "!#%"[rnd.IntN(3)]
			data = slices.Concat(head, b, tail)
		case 2: // the end line is missing
			data = slices.Concat(head, block[:len(block)-endLine], tail)
		case 3: // no certificate inside
			d := slices.Clone(ders[v])
			switch rnd.IntN(3) {
			case 0:
				d = d[:rnd.IntN(len(d))]
			case 1:
				d = append(d, 1, 2, 3)
			case 2:
				d[0] ^= 0x21
			}
			data = slices.Concat(head, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d}), tail)
		case 4: // some bytes lost in the body
			i := begin + 70 + rnd.IntN(40)
			data = slices.Concat(head, block[:i], block[i+1+rnd.IntN(3):], tail)
			if _, err := certsIn(data); err == nil {
				return // the loss was one of line ends only
			}
		case 5: // the medium fails
			data = slices.Concat(head, block, tail)
			fail = rnd.IntN(len(data))
		}
		src := &pieces{data: data, rnd: rnd, most: []int{100, 700, 1 << 30}[rnd.IntN(3)], fail: fail, err: errPiece}
		var got []ctx509.Certificate
		var err error
		r.Case(true, "damage", c)
		r.Count(fmt.Sprintf("damaged streams of kind %d", kind), 1)
		r.NoPanic("reader-panic", "damaged stream", func() { got, err = util.NewCertReader(src).ReadAll() })
		if err == nil {
			r.Violation(fmt.Sprintf("damage-silent-%d", kind), fmt.Sprintf("a stream of %d certificates damaged at %d is read as %d without an error", len(ders), v, len(got)), string(data))
		} else if kind == 5 && !errors.Is(err, errPiece) {
			r.Violatedf("damage-error", "the medium's error is reported as %v", err)
		}
	})
}

// certsIn reads the certificates strictly.
func certsIn(data []byte) (res [][]byte, err error) {
	for len(bytes.TrimSpace(data)) > 0 {
		b, rest := pem.Decode(data)
		if b == nil || bytes.Count(data[:len(data)-len(rest)], []byte("-----BEGIN")) != 1 {
			return nil, errPiece
		}
		if _, err := ctx509.ParseCertificate(b.Bytes); err != nil {
			return nil, err
		}
		res = append(res, b.Bytes)
		data = rest
	}
	return
}

func gzipped(parts ...[]byte) []byte {
	var b bytes.Buffer
	for _, p := range parts {
		z := gzip.NewWriter(&b)
		z.Write(p)
		z.Close()
	}
	return b.Bytes()
}

func files(r *lib.R, m *material, dir string) {
	fn := filepath.Join(dir, "f.gz")
	for c := 0; c < r.N(300, 4000); c++ {
		rnd := r.Rand("gz", c)
		ders := m.some(rnd, rnd.IntN(6))
		data := stream(rnd, ders, true)
		parts := [][]byte{data}
		if rnd.IntN(3) == 0 && len(data) > 0 { // several members
			k := rnd.IntN(len(data))
			parts = [][]byte{data[:k], data[k:]}
		}
		z := gzipped(parts...)
		damaged := rnd.IntN(3) == 0
		if damaged {
			switch rnd.IntN(3) {
			case 0:
				z = z[:rnd.IntN(len(z))]
				if len(parts) == 2 && bytes.Equal(z, gzipped(parts[0])) || len(z) == 0 {
					damaged = len(z) == 0
				}
			case 1:
				z[len(z)-1-rnd.IntN(8)] ^= byte(1 + rnd.IntN(255)) // checksum or length
			case 2:
				z = append(z, []byte("trailing text")...)
			}
		}
		os.WriteFile(fn, z, 0o644)
		r.Case(len(ders) > 0, "gz", c)
		var got []byte
		var err error
		r.NoPanic("gz-panic", "compressed file", func() { got, err = util.ReadAllGzippedFile(fn) })
		if (err != nil) != damaged || err == nil && !bytes.Equal(got, data) {
			r.Violatedf("gz-read", "compressed file (damaged %v, %d members): %d of %d bytes, %v", damaged, len(parts), len(got), len(data), err)
		}
		if !damaged {
			r.NoPanic("gz-panic", "compressed file", func() {
				g, err := util.NewGzipReader(fn)
				if err != nil {
					r.Violatedf("gz-read", "%v", err)
					return
				}
				all, err := util.NewCertReader(g).ReadAll()
				if err != nil || !equalRaws(rawsOf(all), ders) {
					r.Violatedf("gz-certs", "%d of %d certificates, %v", len(all), len(ders), err)
				}
				if err := g.Close(); err != nil {
					r.Violatedf("gz-close", "%v", err)
				}
			})
		}
		// The same through the file type used for bundles.
		for _, name := range []string{"0-9.gz", "0-9.csv"} {
			p := filepath.Join(dir, name)
			content := z
			if name == "0-9.csv" {
				content = data
			}
			os.WriteFile(p, content, 0o644)
			r.NoPanic("bundle-panic", name, func() {
				f, err := util.LoadCsvFile(p)
				if err != nil || f.Filename() != p {
					r.Violatedf("bundle-file", "%s: %v", name, err)
					return
				}
				rd, err := f.Open()
				var got []byte
				if err == nil {
					got, err = io.ReadAll(rd)
					if e := f.Close(); err == nil {
						err = e
					}
				}
				if wantErr := damaged && name == "0-9.gz"; (err != nil) != wantErr || err == nil && !bytes.Equal(got, data) {
					r.Violatedf("bundle-file", "%s (damaged %v): %d of %d bytes, %v", name, damaged, len(got), len(data), err)
				}
			})
		}
		// One certificate.
		text := stream(rnd, ders, false)
		pf := filepath.Join(dir, "one.pem")
		os.WriteFile(pf, text, 0o644)
		r.NoPanic("pem-panic", "single certificate", func() {
			a, errA := util.CertificateFromPEMFile(pf)
			b, errB := util.CertificateFromPEMBytes(text)
			for _, x := range []struct {
				c *ctx509.Certificate
				e error
			}{{a, errA}, {b, errB}} {
				if x.e != nil || (x.c == nil) != (len(ders) == 0) || x.c != nil && !bytes.Equal(x.c.Raw, ders[0]) {
					r.Violatedf("pem-one", "first of %d certificates: %v, %v", len(ders), x.c != nil, x.e)
				}
			}
		})
	}
	for _, f := range []func() error{
		func() error { _, err := util.CertificateFromPEMFile(filepath.Join(dir, "none")); return err },
		func() error { _, err := util.ReadAllGzippedFile(filepath.Join(dir, "none")); return err },
		func() error { _, err := util.NewGzipReader(filepath.Join(dir, "one.pem")); return err },
		func() error { _, err := util.LoadCsvFile("x.txt"); return err },
		func() error {
			c, err := util.LoadCsvFile(filepath.Join(dir, "none.gz"))
			if err == nil {
				_, err = c.Open()
			}
			return err
		},
		func() error {
			c, err := util.LoadCsvFile(filepath.Join(dir, "none.csv"))
			if err == nil {
				_, err = c.Open()
			}
			return err
		},
	} {
		r.NoPanic("file-panic", "missing file", func() {
			if f() == nil {
				r.Violatedf("file-error", "a missing or foreign file is opened")
			}
		})
	}
}

func keys(r *lib.R, dir string) {
	for i := 0; i < r.N(3, 12); i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024+512*(i%3))
		if err != nil {
			r.Inconclusive(err.Error())
			return
		}
		r.Case(true, "key", i)
		r.NoPanic("key-panic", "key", func() {
			p := util.RSAKeyToPEM(k)
			a, err := util.RSAKeyFromPEM(p)
			if err != nil || !a.Equal(k) {
				r.Violatedf("key", "private key read back: %v", err)
			}
			fn := filepath.Join(dir, "key.pem")
			os.WriteFile(fn, p, 0o600)
			b, err := util.RSAKeyFromPEMFile(fn)
			if err != nil || !b.Equal(k) {
				r.Violatedf("key", "private key read back: %v", err)
			}
			d, err := util.RSAPublicToDERBytes(&k.PublicKey)
			if err == nil {
				var q *rsa.PublicKey
				q, err = util.DERBytesToRSAPublic(d)
				if err == nil && !q.Equal(&k.PublicKey) {
					r.Violatedf("key", "public key changed")
				}
			}
			if err != nil {
				r.Violatedf("key", "public key: %v", err)
			}
			s, err := util.RSAPublicToDERBase64(&k.PublicKey)
			if err == nil {
				var q *rsa.PublicKey
				q, err = util.DERBase64ToRSAPublic(s)
				if err == nil && !q.Equal(&k.PublicKey) {
					r.Violatedf("key", "public key changed")
				}
			}
			if err != nil {
				r.Violatedf("key", "public key: %v", err)
			}
			rnd := r.Rand("key", i)
			for j := 0; j < 60; j++ {
				cut := rnd.IntN(len(p) - 2)
				if x, err := util.RSAKeyFromPEM(p[:cut]); err == nil {
					r.Violatedf("key-damaged", "a cut private key is read: %v", x)
				}
				if x, err := util.DERBytesToRSAPublic(d[:rnd.IntN(len(d))]); err == nil {
					r.Violatedf("key-damaged", "a cut public key is read: %v", x)
				}
			}
			if x, err := util.RSAKeyFromPEM(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: ctx509.MarshalPKCS1PrivateKey(k)})); err == nil {
				r.Violatedf("key-type", "a block of another type is read: %v", x)
			}
		})
	}
	// A key of another kind is an error.
	const ec = "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAE"
	r.NoPanic("key-panic", "foreign key", func() {
		ecKey, err1 := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		edKey, _, err2 := ed25519.GenerateKey(rand.Reader)
		if err1 != nil || err2 != nil {
			panic("environment: keys")
		}
		for _, k := range []any{&ecKey.PublicKey, edKey} {
			der, err := stdx509.MarshalPKIXPublicKey(k)
			if err != nil {
				panic("environment: " + err.Error())
			}
			if x, err := util.DERBytesToRSAPublic(der); err == nil {
				r.Violatedf("key-type", "a key of type %T is read as RSA key %v", k, x)
			}
			if x, err := util.DERBase64ToRSAPublic(base64.StdEncoding.EncodeToString(der)); err == nil {
				r.Violatedf("key-type", "a key of type %T is read as RSA key %v", k, x)
			}
		}
		for _, s := range []string{"", "AAAA", ec, "!"} {
			if _, err := util.DERBase64ToRSAPublic(s); err == nil {
				r.Violatedf("key-damaged", "public key read from %q", s)
			}
		}
		for _, l := range [][]byte{nil, []byte("x"), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: []byte("x")})} {
			if _, err := util.RSAKeyFromPEM(l); err == nil {
				r.Violatedf("key-damaged", "private key read from %q", l)
			}
		}
	})
}

type unfolded struct {
	der    string
	parent string // its digest, "" for none
}

func sum(b []byte) string { h := sha256.Sum256(b); return string(h[:]) }

// checkUnfolded compares unfolded material with leaves and chains.
func checkUnfolded(r *lib.R, what string, leaves []*certs.Leaf, cs []ctx509.Certificate, ids []common.SHA256Output, parents []*common.SHA256Output, names [][]string) {
	if len(cs) != len(ids) || len(cs) != len(parents) || len(cs) != len(names) {
		r.Violatedf("unfold-lengths", "%s: %d %d %d %d", what, len(cs), len(ids), len(parents), len(names))
		return
	}
	want := map[unfolded]bool{}
	for _, l := range leaves {
		all := append([][]byte{l.DER}, l.Chain()...)
		for i, d := range all {
			p := ""
			if i+1 < len(all) {
				p = sum(all[i+1])
			}
			want[unfolded{string(d), p}] = true
		}
	}
	got := map[unfolded]bool{}
	for i, c := range cs {
		p := ""
		if parents[i] != nil {
			p = string(parents[i][:])
		}
		if string(ids[i][:]) != sum(c.Raw) {
			r.Violatedf("unfold-id", "%s: identifier %d", what, i)
		}
		got[unfolded{string(c.Raw), p}] = true
		if i < len(leaves) {
			if !bytes.Equal(c.Raw, leaves[i].DER) {
				r.Violatedf("unfold-leaves", "%s: leaf %d is not at its place", what, i)
				return
			}
			a, b := slices.Sorted(slices.Values(names[i])), slices.Sorted(slices.Values(leaves[i].Names()))
			if !slices.Equal(a, b) || len(b) > 0 && names[i] == nil {
				r.Violatedf("unfold-names", "%s: leaf %d has names %q, want %q", what, i, a, b)
			}
		} else if names[i] != nil {
			r.Violatedf("unfold-names", "%s: chain member %d has names %q", what, i, names[i])
		}
	}
	if len(got) != len(want) {
		r.Violatedf("unfold-set", "%s: %d certificates and parents, want %d", what, len(got), len(want))
		return
	}
	for k := range want {
		if !got[k] {
			r.Violatedf("unfold-set", "%s: a certificate with its parent is missing", what)
			return
		}
	}
}

func csvRows(r *lib.R, m *material) {
	b64 := base64.StdEncoding.EncodeToString
	r.Par(r.N(300, 4000), func(c int) {
		rnd := r.Rand("csv", c)
		n := rnd.IntN(10)
		var b bytes.Buffer
		w := csv.NewWriter(&b)
		var ls []*certs.Leaf
		bad := -1
		if rnd.IntN(3) == 0 && n > 0 {
			bad = rnd.IntN(n)
		}
		for i := 0; i < n; i++ {
			l := m.leaves[rnd.IntN(len(m.leaves))]
			ls = append(ls, l)
			var ch []string
			for _, d := range l.Chain() {
				ch = append(ch, b64(d))
			}
			row := []string{"1", "2", "x,\"y", b64(l.DER), strings.Join(ch, ";"), "1893456000.0"}
			if i == bad {
				switch rnd.IntN(7) {
				case 0:
					row = row[:1+rnd.IntN(4)]
				case 1:
					row[3] = ""
				case 2:
					row[3] = row[3][:len(row[3])/2]
				case 3:
					row[3] = "!" + row[3][1:]
				case 4:
					row[4] = row[4][:len(row[4])-8]
				case 5:
					row[4] += ";"
				case 6:
					row[4] = b64([]byte("no certificate")) + ";" + row[4]
				}
			}
			w.Write(row)
		}
		w.Flush()
		var cs []ctx509.Certificate
		var ids []common.SHA256Output
		var ps []*common.SHA256Output
		var ns [][]string
		var err error
		r.Case(n > 1, "csv", c)
		if !r.NoPanic("csvrows-panic", b.String(), func() { cs, ids, ps, ns, err = util.LoadCertsAndChainsFromCSV(b.Bytes()) }) {
			return
		}
		if (err != nil) != (bad >= 0) {
			r.Violation("csvrows-error", fmt.Sprintf("%d rows, row %d malformed, answer: %v", n, bad, err), b.String())
			return
		}
		if err == nil {
			checkUnfolded(r, "rows", ls, cs, ids, ps, ns)
		}
	})
}

func unfold(r *lib.R, m *material) {
	for c := 0; c < r.N(400, 5000); c++ {
		rnd := r.Rand("unfold", c)
		var ls []*certs.Leaf
		var cs []ctx509.Certificate
		var chains [][]*ctx509.Certificate
		for k := rnd.IntN(12); k > 0; k-- {
			l := m.leaves[rnd.IntN(len(m.leaves))]
			if rnd.IntN(6) == 0 { // a root delivered as leaf
				ca := m.cas[rnd.IntN(2)]
				l = &certs.Leaf{DER: ca.DER, CN: ca.Name}
			}
			ls = append(ls, l)
			cs = append(cs, *m.parsed[string(l.DER)])
			var ch []*ctx509.Certificate
			for _, d := range l.Chain() {
				ch = append(ch, m.parsed[string(d)])
			}
			chains = append(chains, ch)
		}
		r.Case(len(ls) > 1, "unfold", c)
		r.NoPanic("unfold-panic", "unfolding", func() {
			a, b, p, n := util.UnfoldCerts(cs, chains)
			checkUnfolded(r, "unfolding", ls, a, b, p, n)
		})
		// One certificate, some of whose ancestors are known already.
		for i, l := range ls {
			ch := slices.Clone(chains[i])
			var ids []*common.SHA256Output
			for _, d := range l.Chain() {
				h := common.SHA256Output(sha256.Sum256(d))
				ids = append(ids, &h)
			}
			known := len(ch)
			if rnd.IntN(2) == 0 && len(ch) > 0 {
				known = rnd.IntN(len(ch))
				for j := known; j < len(ch); j++ {
					if j == known || rnd.IntN(3) > 0 {
						ch[j] = nil
					}
				}
			}
			id := common.SHA256Output(sha256.Sum256(l.DER))
			r.Case(known < len(ch), "unfold1", len(ch), known)
			r.NoPanic("unfold-panic", fmt.Sprintf("chain of %d, known from %d", len(ch), known), func() {
				a, b, p, n := util.UnfoldCert(&cs[i], id, ch, ids)
				// The leaf and every ancestor not known yet, by their position.
				members := []int{0}
				for j := range ch {
					if ch[j] != nil {
						members = append(members, j+1)
					}
				}
				if len(a) != len(members) || len(b) != len(a) || len(p) != len(a) || len(n) != len(a) {
					r.Violatedf("unfold1-lengths", "chain of %d, known from %d: %d %d %d %d", len(ch), known, len(a), len(b), len(p), len(n))
					return
				}
				for j, at := range members {
					raw := l.DER
					if at > 0 {
						raw = l.Chain()[at-1]
					}
					wantParent := ""
					if at < len(ids) {
						wantParent = string(ids[at][:])
					}
					gotParent := ""
					if p[j] != nil {
						gotParent = string(p[j][:])
					}
					if !bytes.Equal(a[j].Raw, raw) || string(b[j][:]) != sum(raw) || gotParent != wantParent || (n[j] != nil) != (j == 0 && len(l.Names()) >= 0) && j > 0 {
						r.Violatedf("unfold1", "chain of %d, known from %d, member %d", len(ch), known, j)
					}
				}
				if x := slices.Sorted(slices.Values(n[0])); !slices.Equal(x, slices.Sorted(slices.Values(l.Names()))) {
					r.Violatedf("unfold1-names", "names %q", x)
				}
			})
		}
	}
}

func extracts(r *lib.R, m *material) {
	for c := 0; c < r.N(100, 1000); c++ {
		rnd := r.Rand("extract", c)
		var ls []*certs.Leaf
		var cs []ctx509.Certificate
		for k := rnd.IntN(9); k > 0; k-- {
			l := m.leaves[rnd.IntN(len(m.leaves))]
			ls = append(ls, l)
			cs = append(cs, *m.parsed[string(l.DER)])
		}
		r.Case(len(ls) > 0, "extract", c)
		r.NoPanic("extract-panic", "extracting", func() {
			n, e, p := util.ExtractNames(cs), util.ExtractExpirations(cs), util.ExtractPayloads(cs)
			if len(n) != len(ls) || len(e) != len(ls) || len(p) != len(ls) {
				r.Violatedf("extract", "%d certificates: %d names, %d expirations, %d payloads", len(ls), len(n), len(e), len(p))
				return
			}
			for i, l := range ls {
				if !slices.Equal(slices.Sorted(slices.Values(n[i])), slices.Sorted(slices.Values(l.Names()))) ||
					!e[i].Equal(l.NotAfter) || !bytes.Equal(p[i], l.DER) {
					r.Violatedf("extract", "certificate %d: %q %v", i, n[i], e[i])
				}
			}
		})
	}
}

// scratchFiles checks the allocation-free file functions the bulk loads are written with.
func scratchFiles(r *lib.R, dir string) {
	seen := map[string]bool{}
	storage := make([]byte, 4096)
	for c := 0; c < r.N(300, 3000); c++ {
		rnd := r.Rand("scratch", c)
		r.Case(true, "scratch", c)
		r.NoPanic("scratch-panic", "scratch file", func() {
			prefix, suffix := filepath.Join(dir, "p"+strings.Repeat("x", rnd.IntN(20))), []string{"", ".csv"}[rnd.IntN(2)]
			name, err := noallocs.CreateTempFile(storage, prefix, suffix)
			if err != nil {
				r.Violatedf("scratch", "%v", err)
				return
			}
			name = strings.Clone(name)
			if seen[name] || !strings.HasPrefix(name, prefix) || !strings.HasSuffix(name, suffix) {
				r.Violatedf("scratch-name", "file %q (prefix %q suffix %q), seen before %v", name, prefix, suffix, seen[name])
			}
			seen[name] = true
			fd, err := noallocs.Open(storage, name)
			if err != nil {
				r.Violatedf("scratch", "%v", err)
				return
			}
			var want []byte
			for k := rnd.IntN(4); k > 0; k-- {
				b := make([]byte, rnd.IntN(1+rnd.IntN(200000)))
				fillRand(rnd, b)
				want = append(want, b...)
				if err := noallocs.Write(fd, b); err != nil {
					r.Violatedf("scratch", "%v", err)
				}
			}
			if err := noallocs.Close(fd); err != nil {
				r.Violatedf("scratch", "%v", err)
			}
			if got, err := os.ReadFile(name); err != nil || !bytes.Equal(got, want) {
				r.Violatedf("scratch-content", "%d bytes written, %d there, %v", len(want), len(got), err)
			}
		})
	}
	if _, err := noallocs.CreateTempFile(storage, filepath.Join(dir, "no", "such"), ""); err == nil {
		r.Violatedf("scratch-error", "a file is created in a missing folder")
	}
	if err := noallocs.Write(1<<20, []byte("x")); err == nil {
		r.Violatedf("scratch-error", "writing to no file succeeds")
	}
}
