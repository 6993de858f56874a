// Package certs makes real certificates: a few authorities and any number of leaves.
package certs

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"sync"
	"time"
)

type CA struct {
	DER    []byte
	Parent *CA
	Name   string
	x      *x509.Certificate
	key    *ecdsa.PrivateKey
}

type Leaf struct {
	DER      []byte
	CA       *CA
	CN       string
	SANs     []string
	NotAfter time.Time
	Precert  bool
}

var (
	mu     sync.Mutex
	serial int64 = 1000
	keys   []*ecdsa.PrivateKey
)

func key(i int) *ecdsa.PrivateKey {
	mu.Lock()
	defer mu.Unlock()
	for len(keys) <= i {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		keys = append(keys, k)
	}
	return keys[i]
}

func nextSerial() *big.Int {
	mu.Lock()
	defer mu.Unlock()
	serial++
	return big.NewInt(serial)
}

// NewCA makes an authority below parent (nil: a root).
func NewCA(parent *CA, name string, notAfter time.Time) *CA {
	mu.Lock()
	n := int(serial % 7)
	mu.Unlock()
	c := &CA{Parent: parent, Name: name, key: key(n)}
	t := &x509.Certificate{
		SerialNumber:          nextSerial(),
		Subject:               pkix.Name{CommonName: name, Organization: []string{"verif"}},
		NotBefore:             time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter:              notAfter,
		BasicConstraintsValid: true, IsCA: true,
		KeyUsage: x509.KeyUsageCertSign,
	}
	pt, pk := t, c.key
	if parent != nil {
		pt, pk = parent.x, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, pt, &c.key.PublicKey, pk)
	if err != nil {
		panic(err)
	}
	c.DER = der
	c.x, err = x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return c
}

var poison = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}

// NewLeaf makes a leaf certificate.
func NewLeaf(ca *CA, cn string, sans []string, notAfter time.Time, precert bool) *Leaf {
	return NewLeafFrom(ca, cn, sans, time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), notAfter, precert)
}

// NewLeafFrom also sets the start of the validity.
func NewLeafFrom(ca *CA, cn string, sans []string, notBefore, notAfter time.Time, precert bool) *Leaf {
	k := key(0)
	t := &x509.Certificate{
		SerialNumber:          nextSerial(),
		Subject:               pkix.Name{CommonName: cn},
		NotBefore:             notBefore,
		NotAfter:              notAfter,
		DNSNames:              sans,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageDigitalSignature,
	}
	if precert {
		t.ExtraExtensions = []pkix.Extension{{Id: poison, Critical: true, Value: []byte{5, 0}}}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.x, &k.PublicKey, ca.key)
	if err != nil {
		panic(err)
	}
	return &Leaf{DER: der, CA: ca, CN: cn, SANs: sans, NotAfter: notAfter, Precert: precert}
}

// Chain is the chain of the authorities above the leaf, nearest first.
func (l *Leaf) Chain() (res [][]byte) {
	for c := l.CA; c != nil; c = c.Parent {
		res = append(res, c.DER)
	}
	return
}

// Names are the distinct names the leaf stands for.
func (l *Leaf) Names() (res []string) {
	seen := map[string]bool{}
	for _, n := range append([]string{l.CN}, l.SANs...) {
		if n != "" && !seen[n] {
			seen[n] = true
			res = append(res, n)
		}
	}
	return
}
