// Package ctlog is a certificate log on the loopback network that records what it is asked for and
// answers as it is told to.
package ctlog

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strconv"
	"sync"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/tls"

	"github.com/netsec-ethz/fpki/zzverif/certs"
)

type Entry struct {
	LeafInput string `json:"leaf_input"`
	ExtraData string `json:"extra_data"`
}

// Answer decides how one request for entries is answered; the returned value is written as is.
// n is the running number of the request.
type Answer func(n int, start, end, size int64) Reply

type Reply struct {
	From, To int64  // entries to deliver, inclusive; To < From: none
	Status   int    // another status than 200
	Body     []byte // sent instead of entries
	Before   func() // run before answering
}

type Log struct {
	srv     *httptest.Server
	mu      sync.Mutex
	size    int64
	entry   func(i int64) Entry
	answer  Answer
	reqs    [][2]int64
	sths    int
	STHFail bool
}

// Full answers completely.
func Full(n int, start, end, size int64) Reply { return Reply{From: start, To: min(end, size-1)} }

func New(size int64, entry func(i int64) Entry, answer Answer) *Log {
	l := &Log{size: size, entry: entry, answer: answer}
	l.srv = httptest.NewServer(http.HandlerFunc(l.serve))
	return l
}

func (l *Log) URL() string  { return l.srv.URL }
func (l *Log) Close()       { l.srv.CloseClientConnections(); l.srv.Close() }
func (l *Log) Grow(n int64) { l.mu.Lock(); l.size = n; l.mu.Unlock() }

func (l *Log) Requests() [][2]int64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([][2]int64{}, l.reqs...)
}

func (l *Log) serve(w http.ResponseWriter, r *http.Request) {
	switch r.URL.Path {
	case "/ct/v1/get-sth":
		l.mu.Lock()
		size := l.size
		l.sths++
		fail := l.STHFail
		l.mu.Unlock()
		if fail {
			w.WriteHeader(503)
			return
		}
		sig, _ := tls.Marshal(ct.DigitallySigned{
			Algorithm: tls.SignatureAndHashAlgorithm{Hash: tls.SHA256, Signature: tls.ECDSA},
			Signature: []byte(fmt.Sprintf("sth of %d", size)),
		})
		json.NewEncoder(w).Encode(map[string]any{
			"tree_size": size, "timestamp": 1700000000000 + size,
			"sha256_root_hash":    base64.StdEncoding.EncodeToString(make([]byte, 32)),
			"tree_head_signature": base64.StdEncoding.EncodeToString(sig),
		})
	case "/ct/v1/get-entries":
		s, _ := strconv.ParseInt(r.URL.Query().Get("start"), 10, 64)
		e, _ := strconv.ParseInt(r.URL.Query().Get("end"), 10, 64)
		l.mu.Lock()
		n := len(l.reqs)
		l.reqs = append(l.reqs, [2]int64{s, e})
		size, answer := l.size, l.answer
		l.mu.Unlock()
		rep := answer(n, s, e, size)
		if rep.Before != nil {
			rep.Before()
		}
		if rep.Status != 0 {
			w.WriteHeader(rep.Status)
			w.Write(rep.Body)
			return
		}
		if rep.Body != nil {
			w.Write(rep.Body)
			return
		}
		es := []Entry{}
		for i := rep.From; i <= rep.To; i++ {
			es = append(es, l.entry(i))
		}
		json.NewEncoder(w).Encode(map[string]any{"entries": es})
	default:
		w.WriteHeader(404)
	}
}

// EntryOf is the log entry of a leaf with its chain.
func EntryOf(leaf *certs.Leaf, stamp uint64) Entry {
	te := ct.TimestampedEntry{Timestamp: stamp, EntryType: ct.X509LogEntryType}
	var chain []ct.ASN1Cert
	for _, c := range leaf.Chain() {
		chain = append(chain, ct.ASN1Cert{Data: c})
	}
	var extra []byte
	var err error
	if leaf.Precert {
		te.EntryType = ct.PrecertLogEntryType
		te.PrecertEntry = &ct.PreCert{TBSCertificate: []byte("tbs of the precertificate")}
		extra, err = tls.Marshal(ct.PrecertChainEntry{PreCertificate: ct.ASN1Cert{Data: leaf.DER}, CertificateChain: chain})
	} else {
		te.X509Entry = &ct.ASN1Cert{Data: leaf.DER}
		extra, err = tls.Marshal(ct.CertificateChain{Entries: chain})
	}
	if err != nil {
		panic(err)
	}
	li, err := tls.Marshal(ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType, TimestampedEntry: &te})
	if err != nil {
		panic(err)
	}
	return Entry{base64.StdEncoding.EncodeToString(li), base64.StdEncoding.EncodeToString(extra)}
}
