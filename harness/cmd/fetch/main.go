// fetch monitors the log fetchers (L01, L02).
package main

import (
	"bytes"
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
)

func main() {
	lib.Main(map[string]func(*lib.R){"L01": l01, "L02": l02})
}

// setField sets an unexported integer field if there is such one.
func setField(p any, name string, v int64) bool {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	if !f.IsValid() || f.Kind() != reflect.Int64 {
		return false
	}
	*(*int64)(unsafe.Pointer(f.UnsafeAddr())) = v
	return true
}

var (
	future = time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	past   = time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC)
	noon   = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
)

func pool(n int, withExpired bool) []*certs.Leaf {
	root := certs.NewCA(nil, "root", future)
	root2 := certs.NewCA(nil, "root two", future)
	mid := certs.NewCA(root, "mid", future)
	low := certs.NewCA(mid, "low", future)
	cas := []*certs.CA{root, root2, mid, low}
	res := make([]*certs.Leaf, n)
	for i := range res {
		na := future
		if withExpired && i%5 == 3 {
			na = past
		}
		name := fmt.Sprintf("host%d.example%d.com", i, i%11)
		res[i] = certs.NewLeaf(cas[i%len(cas)], name, []string{name, "www." + name}, na, i%3 == 1)
	}
	return res
}

// same compares a delivered certificate and chain with a leaf.
func same(c *ctx509.Certificate, chain []*ctx509.Certificate, l *certs.Leaf) string {
	if !bytes.Equal(c.Raw, l.DER) {
		return "another certificate"
	}
	want := l.Chain()
	if len(want) != len(chain) {
		return fmt.Sprintf("a chain of %d instead of %d", len(chain), len(want))
	}
	for i := range want {
		if chain[i] == nil || !bytes.Equal(chain[i].Raw, want[i]) {
			return fmt.Sprintf("another chain at %d", i)
		}
	}
	return ""
}
