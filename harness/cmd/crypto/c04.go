package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

// element of a list: a document or a list of them, by value or by pointer.
func relement(rnd rng, depth int) any {
	if depth > 0 && rnd.IntN(4) == 0 {
		l := rlist(rnd, depth-1)
		if rnd.IntN(2) == 0 {
			return &l
		}
		return l
	}
	d := rdoc(rnd, rnd.IntN(9))
	if rnd.IntN(2) == 0 {
		return reflect.ValueOf(d).Elem().Interface()
	}
	return d
}

func rlist(rnd rng, depth int) []any {
	l := []any{}
	for k := rnd.IntN(4); k > 0; k-- {
		l = append(l, relement(rnd, depth))
	}
	return l
}

// canon makes documents comparable: instants by value, empty byte strings as absent, received text removed.
func canon(v any) any {
	c := reflect.New(reflect.TypeOf(v)).Elem()
	c.Set(deepCopy(reflect.ValueOf(v)))
	canonValue(c)
	return c.Interface()
}

func canonValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			canonValue(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			n := reflect.New(v.Elem().Type()).Elem()
			n.Set(v.Elem())
			canonValue(n)
			v.Set(n)
		}
	case reflect.Slice:
		if v.Len() == 0 && v.CanSet() && v.Type().Elem().Kind() != reflect.Interface {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			canonValue(v.Index(i))
		}
	case reflect.Struct:
		if t := v.Type(); t.PkgPath() == "time" && v.CanSet() {
			v.Set(reflect.ValueOf(v.Interface().(interface{ UTC() time.Time }).UTC().Round(0)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				if v.Type().Field(i).Name == "JSONField" {
					f.Set(reflect.Zero(f.Type()))
				} else {
					canonValue(f)
				}
			}
		}
	}
}

// texts returns the received text kept in each document, in order.
func texts(v reflect.Value, res [][]byte) [][]byte {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			return texts(v.Elem(), res)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Interface {
			for i := 0; i < v.Len(); i++ {
				res = texts(v.Index(i), res)
			}
		}
	case reflect.Struct:
		if f := v.FieldByName("JSONField"); f.IsValid() {
			return append(res, f.Bytes())
		}
	}
	return res
}

func equalDocs(a, b any) (bool, bool) {
	switch x := a.(type) {
	case *common.PolicyCertificate:
		return x.Equal(*b.(*common.PolicyCertificate)), true
	case *common.PolicyCertificateSigningRequest:
		return x.Equal(b.(*common.PolicyCertificateSigningRequest)), true
	case *common.PolicyCertificateRevocation:
		return x.Equal(*b.(*common.PolicyCertificateRevocation)), true
	case *common.PolicyCertificateRevocationSigningRequest:
		return x.Equal(b.(*common.PolicyCertificateRevocationSigningRequest)), true
	case *common.SignedPolicyCertificateTimestamp:
		return x.Equal(*b.(*common.SignedPolicyCertificateTimestamp)), true
	case *common.SignedPolicyCertificateRevocationTimestamp:
		return x.Equal(*b.(*common.SignedPolicyCertificateRevocationTimestamp)), true
	case *common.SignedEntryTimestampSignatureInput:
		return x.Equal(*b.(*common.SignedEntryTimestampSignatureInput)), true
	}
	return false, false
}

func c04(r *lib.R) {
	r.Rule("documents of all nine types by value and by pointer, and nested lists of them; absent, empty and extreme fields, escapes, non-ASCII, zones; damaged, truncated, retagged and deeply nested encodings; unsupported and nil objects; buffers reused after decoding")
	r.Assume("strings are valid UTF-8, years have four digits, absent and empty byte strings are the same")
	dir, _ := os.MkdirTemp("", "docs")
	defer os.RemoveAll(dir)
	r.Par(r.N(4000, 80000), func(c int) {
		rnd := r.Rand("doc", c)
		var obj any
		if c%3 == 0 {
			l := rlist(rnd, 3)
			if rnd.IntN(4) == 0 { // policy documents only, or all but one
				l = l[:0]
				for len(l) < 5 && rnd.IntN(5) > 0 {
					if e := relement(rnd, 0); rnd.IntN(20) == 0 {
						l = append(l, e)
					} else if _, ok := e.(common.PolicyDocument); ok {
						l = append(l, e)
					}
				}
			}
			obj = l
			if rnd.IntN(2) == 0 {
				obj = &l
			}
		} else {
			obj = rdoc(rnd, c)
			if rnd.IntN(3) == 0 {
				obj = reflect.ValueOf(obj).Elem().Interface()
			}
		}
		var enc []byte
		var err error
		before := canon(obj)
		r.NoPanic("encode-panic", fmt.Sprintf("%T", obj), func() { enc, err = common.ToJSON(obj) })
		if err != nil {
			r.Violation("encode", fmt.Sprintf("%T cannot be encoded: %v", obj, err), show(obj))
			return
		}
		r.Case(true, "roundtrip", string(enc))
		r.Count(fmt.Sprintf("round trips of %T", obj), 1)
		if !reflect.DeepEqual(before, canon(obj)) {
			r.Violation("encode-modifies", "encoding changes a document", show(obj))
		}
		for _, skip := range []bool{false, true} {
			buf := append(bytes.Repeat([]byte(" "), rnd.IntN(2)), enc...)
			var opts []common.FromJSONModifier
			if skip {
				opts = append(opts, common.WithSkipCopyJSONIntoPolicyObjects)
			}
			var got any
			r.NoPanic("decode-panic", string(enc), func() { got, err = common.FromJSON(buf, opts...) })
			if err != nil {
				r.Violation("decode", fmt.Sprintf("an encoded %T cannot be decoded: %v", obj, err), string(enc))
				return
			}
			if reflect.TypeOf(got) != reflect.TypeOf(obj) {
				r.Violation("decode-type", fmt.Sprintf("a %T is decoded as %T", obj, got), string(enc))
				return
			}
			if !reflect.DeepEqual(before, canon(got)) {
				r.Violation("decode-differs", fmt.Sprintf("a decoded %T differs", obj), []string{string(enc), show(got)})
			}
			if eq, ok := equalDocs(obj, got); ok && !eq {
				r.Violation("decode-differs", fmt.Sprintf("a decoded %T does not compare equal", obj), string(enc))
			}
			again, err := common.ToJSON(got)
			if err != nil || !bytes.Equal(again, enc) {
				r.Violation("reencode", fmt.Sprintf("encoding a decoded %T again gives something else: %v", obj, err), []string{string(enc), string(again)})
			}
			// The kept text.
			kept := texts(reflect.ValueOf(got), nil)
			offset := 0
			for _, k := range kept {
				if skip {
					if len(k) != 0 {
						r.Violation("raw-skip", "the received text is kept although it should not", string(k))
					}
					continue
				}
				i := bytes.Index(enc[offset:], k)
				if i < 0 || len(k) == 0 {
					r.Violation("raw", "the text kept with a document is not what was received", []string{string(enc), string(k)})
					break
				}
				offset += i + len(k)
				// It is the text of that document.
				r.Count("kept texts compared", 1)
			}
			if !skip && len(kept) == 1 && reflect.Indirect(reflect.ValueOf(got)).Kind() == reflect.Struct && !bytes.Equal(kept[0], enc) {
				r.Violation("raw", "the text kept with a document is not what was received", []string{string(enc), string(kept[0])})
			}
			if !skip && len(kept) != len(texts(reflect.ValueOf(obj), nil)) {
				r.Violation("raw", fmt.Sprintf("%d documents keep their text", len(kept)), string(enc))
			}
			snapshot := clone(kept)
			for i := range buf {
				buf[i] = '#'
			}
			if !reflect.DeepEqual(snapshot, texts(reflect.ValueOf(got), nil)) || !reflect.DeepEqual(before, canon(got)) {
				r.Violation("alias", "a decoded document changes when the buffer it came from is reused", string(enc))
			}
			if m, ok := rawOf(got); ok {
				raw, err := m.Raw()
				if err != nil || !skip && !bytes.Equal(raw, enc) || common.SHA256Hash32Bytes(raw) != common.SHA256Hash32Bytes(raw) {
					r.Violation("raw", fmt.Sprintf("the raw form of a decoded document is not what was received: %v", err), []string{string(enc), string(raw)})
				}
			}
		}
		policyList(r, obj, enc, before)
		if m, ok := rawOf(obj); ok && reflect.ValueOf(obj).Kind() == reflect.Pointer {
			raw, err := m.Raw()
			if err != nil || !bytes.Equal(raw, enc) {
				r.Violation("raw", fmt.Sprintf("the raw form of a new document is not its encoding: %v", err), []string{string(enc), string(raw)})
			}
		}
		// Comparison notices every difference.
		if reflect.ValueOf(obj).Kind() == reflect.Pointer && reflect.ValueOf(obj).Elem().Kind() == reflect.Struct {
			for i, l := range leaves(obj) {
				m := clone(obj)
				if e, ok := equalDocs(obj, m); ok && !e {
					r.Violation("equal", "a copy does not compare equal", show(obj))
				}
				leaves(m)[i].change(rnd)
				if e, ok := equalDocs(obj, m); ok {
					e2, _ := equalDocs(m, obj)
					r.Count("comparisons of different documents", 1)
					if e || e2 {
						r.Violation("equal", fmt.Sprintf("documents differing in %s compare equal", l.path), []string{show(obj), show(m)})
					}
				}
				if e2, err := common.ToJSON(m); err == nil && bytes.Equal(e2, enc) {
					r.Violation("encode-lossy", fmt.Sprintf("documents differing in %s have the same encoding", l.path), []string{show(obj), show(m)})
				}
			}
		}
		// Damaged encodings.
		for k := 0; k < 4; k++ {
			bad := bytes.Clone(enc)
			switch rnd.IntN(6) {
			case 0:
				bad = bad[:rnd.IntN(len(bad)+1)]
			case 1:
				bad[rnd.IntN(len(bad))] ^= 1 << rnd.IntN(8)
			case 2:
				tags := []string{"pc", "*pc", "**pc", "[]", "*[]", "pcsr", "pcrev", "pcrevsr", "spct", "spcrevt", "trillian.Proof", "logrootv1", "spctsiginput", "", "*", "**", "nil", "\u0000"}
				s := string(bad)
				if i := strings.Index(s, `"T":"`); i >= 0 {
					j := strings.Index(s[i+5:], `"`)
					s = s[:i+5] + tags[rnd.IntN(len(tags))] + s[i+5+j:]
				}
				bad = []byte(s)
			case 3:
				vals := []string{"null", "0", `""`, "[]", "{}", "[null]", "[{}]", "true", `[[]]`, `"AA=="`}
				s := string(bad)
				if i := strings.LastIndex(s[:len(s)-rnd.IntN(len(s)/2+1)], ":"); i >= 0 {
					s = s[:i+1] + vals[rnd.IntN(len(vals))] + "}"
				}
				bad = []byte(s)
			case 4:
				i, j := rnd.IntN(len(bad)), rnd.IntN(len(bad))
				bad = append(bytes.Clone(bad[:min(i, j)]), bad[max(i, j):]...)
			case 5:
				i := rnd.IntN(len(bad))
				bad = append(bytes.Clone(bad[:i]), append(rbytes(rnd, 3), bad[i:]...)...)
			}
			decodeHostile(r, bad)
		}
		// Files.
		if c%50 == 0 {
			p := filepath.Join(dir, fmt.Sprint(c))
			if err := common.ToJSONFile(obj, p); err != nil {
				r.Violatedf("file", "writing a %T to a file: %v", obj, err)
			} else {
				got, err := common.FromJSONFile(p)
				if err != nil || !reflect.DeepEqual(canon(got), before) {
					r.Violation("file", fmt.Sprintf("a %T read from a file differs: %v", obj, err), string(enc))
				}
				kind := fmt.Sprintf("%T", obj)
				pc, err1 := common.JsonFileToPolicyCert(p)
				spt, err2 := common.JsonFileToSPT(p)
				proof, err3 := common.JsonFileToProof(p)
				sth, err4 := common.JsonFileToSTH(p)
				pc2, err5 := util.PolicyCertificateFromFile(p)
				for want, res := range map[string]struct {
					v   any
					err error
				}{"*common.PolicyCertificate": {pc, err1}, "*common.SignedPolicyCertificateTimestamp": {spt, err2}, "*trillian.Proof": {proof, err3}, "*types.LogRootV1": {sth, err4}, "*common.PolicyCertificate ": {pc2, err5}} {
					if (kind == strings.TrimSpace(want)) != (res.err == nil) {
						r.Violation("file-type", fmt.Sprintf("reading a file holding a %s as %s: %v", kind, want, res.err), string(enc))
					} else if res.err == nil && !reflect.DeepEqual(canon(res.v), before) {
						r.Violation("file", "a document read from a file differs", string(enc))
					}
				}
				r.Count("files", 1)
			}
		}
	})
	// Crafted texts.
	deep := func(n int, open, shut string) []byte {
		return []byte(strings.Repeat(open, n) + `{"T":"pc","O":{}}` + strings.Repeat(shut, n))
	}
	for _, s := range [][]byte{nil, []byte(" "), []byte("null"), []byte("[]"), []byte("{}"), []byte(`{"T":null,"O":null}`), []byte(`{"T":"[]"}`), []byte(`{"T":"*[]"}`), []byte(`{"T":"[]","O":[null]}`),
		[]byte(`{"T":"[]","O":{}}`), []byte(`{"T":"pc"}`), []byte(`{"O":{}}`), []byte(`{"T":"*","O":{}}`), []byte(`{"T":5,"O":{}}`), []byte(`{"T":"*pc","O":null}`), []byte(`{"T":"pc","O":[]}`), []byte(`{"T":"pc","O":{"SPCTs":[null,{}]}}`),
		deep(200, `{"T":"[]","O":[`, `]}`), deep(200, `{"T":"*[]","O":[`, `]}`), deep(20000, "[", "]"), deep(9000, `{"O":`, `}`)} {
		decodeHostile(r, s)
	}
	// Unsupported objects.
	var nilPC *common.PolicyCertificate
	var nilList *[]any
	type other struct{ A int }
	for i, o := range []any{nil, nilPC, nilList, 5, "x", map[string]int{"a": 1}, other{1}, &other{1}, []any{5}, []any{nil}, []any{nilPC}, []any{[]any{nilPC}}, &[]any{nilList}, (*trillian.Proof)(nil),
		(*trilliantypes.LogRootV1)(nil), make(chan int), func() {}, [2]int{}, []other{{1}}, struct{}{}, 1.5, true} {
		r.NoPanic("unsupported-panic", fmt.Sprintf("object %d of type %T", i, o), func() {
			b, err := common.ToJSON(o)
			r.Case(true, "unsupported", i)
			if err == nil {
				r.Violation("unsupported", fmt.Sprintf("an object of type %T is encoded", o), string(b))
			}
		})
	}
	if _, err := common.FromJSONFile(filepath.Join(dir, "missing")); err == nil {
		r.Violatedf("file", "reading a missing file succeeds")
	}
	if err := common.ToJSONFile(5, filepath.Join(dir, "unsupported")); err == nil {
		r.Violatedf("file", "writing an unsupported object succeeds")
	}
}

// policyList reads the encoding as a list of policy documents: all of them, or an error.
func policyList(r *lib.R, obj any, enc []byte, before any) {
	l, isList := obj.([]any)
	if _, ok := obj.(*[]any); ok {
		return
	}
	for _, o := range l {
		if _, ok := o.(common.PolicyDocument); !ok {
			isList = false
		}
	}
	r.NoPanic("policy-list-panic", string(enc), func() {
		got, err := util.LoadPoliciesFromRaw(enc)
		if (err == nil) != isList {
			r.Violation("policy-list", fmt.Sprintf("a %T of %d elements, only policy documents: %v, is read as %d policy documents, error %v", obj, len(l), isList, len(got), err), string(enc))
			return
		}
		if !isList {
			r.Count("refused as a list of policy documents", 1)
			return
		}
		all := []any{}
		for _, d := range got {
			all = append(all, d)
		}
		if !reflect.DeepEqual(canon(all), before) {
			r.Violation("policy-list", "a list of policy documents is read differently", []string{string(enc), show(all)})
		}
		r.Count("lists of policy documents", 1)
		if len(l) > 1 {
			r.Count("lists of several policy documents", 1)
		}
	})
}

// decodeHostile decodes anything: it must answer, and what it accepts must be encodable to the same.
func decodeHostile(r *lib.R, b []byte) {
	in := bytes.Clone(b)
	r.NoPanic("hostile-panic", string(in[:min(len(in), 300)]), func() {
		o, err := common.FromJSON(b)
		o2, err2 := common.FromJSON(b, common.WithSkipCopyJSONIntoPolicyObjects)
		r.Count("damaged encodings decoded", 1)
		if (err == nil) != (err2 == nil) {
			r.Violation("hostile", fmt.Sprintf("acceptance depends on keeping the text: %v / %v", err, err2), string(in))
		}
		if !bytes.Equal(in, b) {
			r.Violation("hostile", "decoding changes its input", string(in))
		}
		if err != nil {
			r.Count("damaged encodings refused", 1)
			return
		}
		if o == nil || o2 == nil {
			if string(bytes.TrimSpace(in)) != "null" {
				r.Violation("hostile", "nothing is decoded without an error", string(in))
			}
			return
		}
		e1, err := common.ToJSON(o)
		if err != nil {
			r.Violation("hostile", fmt.Sprintf("an accepted document (%T) cannot be encoded: %v", o, err), string(in))
			return
		}
		o3, err := common.FromJSON(e1)
		if err != nil || !reflect.DeepEqual(canon(o), canon(o3)) {
			r.Violation("hostile", fmt.Sprintf("an accepted document (%T) does not round-trip: %v", o, err), []string{string(in), string(e1)})
		}
	})
}

// rawOf returns the document if its type is meant to have a raw form (the input of a timestamp's
// signature has the method only by embedding).
func rawOf(doc any) (common.MarshallableDocument, bool) {
	switch doc.(type) {
	case *common.SignedEntryTimestampSignatureInput, common.SignedEntryTimestampSignatureInput:
		return nil, false
	}
	m, ok := doc.(common.MarshallableDocument)
	return m, ok
}
