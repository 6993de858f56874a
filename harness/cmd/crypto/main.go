// crypto monitors the policy documents and everything that signs, verifies, encodes and logs them.
package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	mrand "math/rand/v2"
	"reflect"
	"sync"
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func main() {
	lib.Main(map[string]func(*lib.R){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "G01": g01, "G02": g02,
	})
}

type rng = *mrand.Rand

type key struct {
	priv *rsa.PrivateKey
	der  []byte
}

var (
	keysOnce sync.Once
	keys     []key
)

// getKeys returns a fixed number of RSA keys.
func getKeys() []key {
	keysOnce.Do(func() {
		keys = make([]key, 6)
		var wg sync.WaitGroup
		for i := range keys {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k, err := rsa.GenerateKey(rand.Reader, 1024)
				if err != nil {
					panic(err)
				}
				der, err := util.RSAPublicToDERBytes(&k.PublicKey)
				if err != nil {
					panic(err)
				}
				keys[i] = key{k, der}
			}()
		}
		wg.Wait()
	})
	return keys
}

func rbytes(rnd rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rnd.Uint32())
	}
	return b
}

// maybe returns nil sometimes: absent fields.
func maybe(rnd rng, n int) []byte {
	if rnd.IntN(4) == 0 {
		return nil
	}
	return rbytes(rnd, 1+rnd.IntN(n))
}

var base = time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC)

func rtime(rnd rng) time.Time {
	switch rnd.IntN(8) {
	case 0:
		return time.Time{}
	case 1: // another zone
		return base.Add(time.Duration(rnd.Int64N(1e17))).In(time.FixedZone("", 3600*(rnd.IntN(23)-11)))
	case 2:
		return time.Date(1+rnd.IntN(9998), 1, 1, 0, 0, 0, 0, time.UTC)
	case 3: // whole seconds
		return base.Add(time.Duration(rnd.IntN(1e9)) * time.Second)
	}
	return base.Add(time.Duration(rnd.Int64N(1e17)))
}

var words = []string{"", "a", "example.com", "www.a.example.org", "<&>\"\\/", "ünïcode ✓", "\u2028x", "a\tb\nc", "null", "*", "0"}

func rstrings(rnd rng) []string {
	var res []string
	for k := rnd.IntN(4); k > 0; k-- {
		res = append(res, words[rnd.IntN(len(words))])
	}
	return res
}

func rint(rnd rng) int { return []int{0, 1, -1, 2, 1 << 31, -(1 << 40), 9007199254740993}[rnd.IntN(7)] }

func rset(rnd rng) common.SignedEntryTimestamp {
	return *common.NewSignedEntryTimestamp(rint(rnd), maybe(rnd, 40), rtime(rnd), maybe(rnd, 40))
}

func rspct(rnd rng) common.SignedPolicyCertificateTimestamp {
	return common.SignedPolicyCertificateTimestamp{SignedEntryTimestamp: rset(rnd)}
}

func rfields(rnd rng) common.PolicyCertificateFields {
	return *common.NewPolicyCertificateFields(rint(rnd), rint(rnd), words[rnd.IntN(len(words))], rtime(rnd), rtime(rnd),
		rnd.IntN(2) == 0, rnd.IntN(2) == 0, maybe(rnd, 60), common.RSA, common.SHA256, rtime(rnd),
		common.PolicyAttributes{AllowedCAs: rstrings(rnd), AllowedSubdomains: rstrings(rnd), DisallowedSubdomains: rstrings(rnd), ExcludedSubdomains: rstrings(rnd)},
		maybe(rnd, 40), maybe(rnd, 40))
}

func rpc(rnd rng) *common.PolicyCertificate {
	c := &common.PolicyCertificate{PolicyCertificateFields: rfields(rnd), IssuerSignature: maybe(rnd, 40), IssuerHash: maybe(rnd, 40)}
	for k := rnd.IntN(3); k > 0; k-- {
		c.SPCTs = append(c.SPCTs, rspct(rnd))
	}
	return c
}

func rrev(rnd rng) *common.PolicyCertificateRevocation {
	c := common.NewPolicyCertificateRevocation(rint(rnd), rint(rnd), rtime(rnd), maybe(rnd, 40), maybe(rnd, 40), nil, maybe(rnd, 40), maybe(rnd, 40))
	c.DomainField = words[rnd.IntN(len(words))]
	for k := rnd.IntN(3); k > 0; k-- {
		c.SPCRTs = append(c.SPCRTs, common.SignedPolicyCertificateRevocationTimestamp{SignedEntryTimestamp: rset(rnd)})
	}
	return c
}

// rdoc returns a pointer to a random document of one of the supported types.
func rdoc(rnd rng, kind int) any {
	switch kind % 9 {
	case 0:
		return rpc(rnd)
	case 1:
		return &common.PolicyCertificateSigningRequest{PolicyCertificateFields: rfields(rnd)}
	case 2:
		return rrev(rnd)
	case 3:
		return common.NewPolicyCertificateRevocationSigningRequest(maybe(rnd, 40))
	case 4:
		s := rspct(rnd)
		return &s
	case 5:
		return &common.SignedPolicyCertificateRevocationTimestamp{SignedEntryTimestamp: rset(rnd)}
	case 6:
		p := &trillian.Proof{LeafIndex: int64(rint(rnd))}
		for k := rnd.IntN(4); k > 0; k-- {
			p.Hashes = append(p.Hashes, rbytes(rnd, 32))
		}
		return p
	case 7:
		return &trilliantypes.LogRootV1{TreeSize: rnd.Uint64(), RootHash: maybe(rnd, 40), TimestampNanos: rnd.Uint64(), Revision: rnd.Uint64(), Metadata: maybe(rnd, 9)}
	}
	s := rspct(rnd)
	return common.NewSignedEntryTimestampSignatureInput(maybe(rnd, 50), &s)
}

// clone makes a deep copy.
func clone[T any](v T) T { return deepCopy(reflect.ValueOf(&v).Elem()).Interface().(T) }

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// A leaf is one place in a document that can be changed.
type leaf struct {
	path string
	v    reflect.Value
}

// leaves lists the changeable places of the document p points to.
func leaves(p any) []leaf { return walk("", reflect.ValueOf(p).Elem(), nil) }

func walk(path string, v reflect.Value, res []leaf) []leaf {
	if !v.CanSet() {
		return res
	}
	if _, ok := v.Interface().(time.Time); ok {
		return append(res, leaf{path, v})
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "JSONField" || f.PkgPath != "" {
				continue
			}
			p := path
			if !f.Anonymous {
				p += "." + f.Name
			}
			res = walk(p, v.Field(i), res)
		}
		return res
	case reflect.Slice:
		res = append(res, leaf{path, v})
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				res = walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), res)
			}
		}
		return res
	}
	return append(res, leaf{path, v})
}

// change gives the place a different value.
func (l leaf) change(rnd rng) {
	v := l.v
	if t, ok := v.Interface().(time.Time); ok {
		d := []time.Duration{time.Nanosecond, time.Second, time.Hour, -time.Nanosecond}[rnd.IntN(4)]
		if t.Year() <= 1 {
			d = max(d, -d)
		}
		v.Set(reflect.ValueOf(t.Add(d)))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64:
		v.SetInt(v.Int() + 1)
	case reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.String:
		if s := v.String(); len(s) > 0 && rnd.IntN(2) == 0 && s[len(s)-1] < 128 {
			v.SetString(s[:len(s)-1])
		} else {
			v.SetString(s + "x")
		}
	case reflect.Slice:
		n := v.Len()
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := bytes.Clone(v.Bytes())
			switch k := rnd.IntN(4); {
			case n == 0 || k == 0:
				b = append(b, byte(rnd.Uint32()))
			case k == 1:
				b = b[:n-1]
			case k == 2 && n > 1:
				b = b[1:]
				if bytes.Equal(b, v.Bytes()) {
					b[0]++
				}
			default:
				b[rnd.IntN(n)] ^= 1 << rnd.IntN(8)
			}
			v.SetBytes(b)
			return
		}
		c := deepCopy(v)
		switch k := rnd.IntN(3); {
		case n == 0 || k == 0: // one more
			c = reflect.Append(c, reflect.Zero(v.Type().Elem()))
		case k == 1 && n > 1 && !reflect.DeepEqual(c.Index(0).Interface(), c.Index(1).Interface()): // other order
			t := deepCopy(c.Index(0))
			c.Index(0).Set(c.Index(1))
			c.Index(1).Set(t)
		default:
			c = c.Slice(0, n-1)
		}
		v.Set(c)
	default:
		panic("cannot change " + l.path + " of kind " + v.Kind().String())
	}
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}
