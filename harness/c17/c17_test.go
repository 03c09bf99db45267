package c17

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"testing"

	"github.com/qri-io/dataset"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a document encoded and hashed next to copies of it built in other orders and by other routes, a document and a changed one, or bytes hashed against an independent multihash; non-trivial = at least two fields set, or at least one byte; distinct by encoded bytes")
}

func TestC17(t *testing.T) {
	vt.Check(t, "same", 20000, 400000, same)
	vt.Check(t, "changed", 12000, 240000, changed)
	vt.Check(t, "unencodable", 6000, 120000, unencodable)
	vt.Check(t, "hash", 12000, 240000, hash)
}

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// reference is the base58 SHA-256 multihash of data.
func reference(data []byte) string {
	sum := sha256.Sum256(data)
	mh := append([]byte{0x12, 0x20}, sum[:]...)
	n := new(big.Int).SetBytes(mh)
	var out []byte
	mod := new(big.Int)
	for n.Sign() > 0 {
		n.DivMod(n, big.NewInt(58), mod)
		out = append([]byte{alphabet[mod.Int64()]}, out...)
	}
	return string(out)
}

func encode(c *vt.C, v interface{}) ([]byte, string) {
	data, err := v.(json.Marshaler).MarshalJSON()
	if err != nil {
		c.Fatalf("encode: %v", err)
	}
	h, err := dataset.JSONHash(v.(json.Marshaler))
	if err != nil {
		c.Fatalf("hash: %v", err)
	}
	if want := reference(data); h != want {
		c.Fatalf("hash of %s is %s, want %s", data, h, want)
	}
	return data, h
}

func same(c *vt.C) {
	kind := vt.One(c.T, "kind", mx.Kinds...)
	v := mx.Gen(c.T, kind, mx.Opts{})
	c.Label(kind)
	var copies []interface{}
	for i := 0; i < 3; i++ {
		copies = append(copies, mx.Copy(v))
	}
	shuffle(c, copies[2])
	if m, ok := v.(*dataset.Meta); ok {
		// arbitrary keys set and overwritten along another route
		r := &dataset.Meta{}
		for _, k := range vt.SortedKeys(m.Meta()) {
			_ = r.SetArbitrary(k, "old")
		}
		r.Assign(m)
		copies = append(copies, r)
	}
	data, h := encode(c, v)
	for i, w := range copies {
		for rep := 0; rep < 2; rep++ {
			d2, h2 := encode(c, w)
			if !bytes.Equal(data, d2) {
				c.Fatalf("copy %d encodes differently:\n%s\n%s", i, data, d2)
			}
			if h != h2 {
				c.Fatalf("copy %d hashes differently: %s %s", i, h, h2)
			}
		}
	}
	if st, ok := v.(*dataset.Structure); ok {
		if h2, err := st.Hash(); err != nil || h2 != h {
			c.Fatalf("structure hash %s (%v), want %s", h2, err, h)
		}
	}
	sorted(c, kind, data)
	if mx.SetCount(v) >= 2 {
		c.NonTrivial(data)
	}
	c.Sample("%s", data)
}

// shuffle rebuilds free-form maps in a drawn order.
func shuffle(c *vt.C, v interface{}) {
	rv := reflect.ValueOf(v).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if rv.Type().Field(i).PkgPath != "" {
			continue
		}
		m, ok := rv.Field(i).Interface().(map[string]interface{})
		if !ok || len(m) < 2 {
			continue
		}
		keys := vt.SortedKeys(m)
		n := map[string]interface{}{}
		n["temporary"] = 1
		start := vt.N(c.T, 0, len(keys)-1, "rot")
		for j := range keys {
			k := keys[(start+j)%len(keys)]
			n[k] = m[k]
		}
		if _, has := m["temporary"]; !has {
			delete(n, "temporary")
		}
		rv.Field(i).Set(reflect.ValueOf(n))
	}
}

// sorted checks the key order of free-form objects.
func sorted(c *vt.C, kind string, data []byte) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	whole := kind == "meta" || kind == "readme" || kind == "viz"
	if err := walk(dec, kind, whole, func(p, a, b string) {
		c.Fatalf("keys of %s out of order: %q before %q in %s", p, a, b, data)
	}); err != nil {
		c.Fatalf("encoding of a %s: %v", kind, err)
	}
}

var free = map[string]bool{"schema": true, "formatConfig": true, "config": true, "stats": true, "body": true, "meta": true, "readme": true, "viz": true, "resources": true, "syntaxes": true}

func walk(dec *json.Decoder, path string, check bool, bad func(p, a, b string)) error {
	tok, err := dec.Token()
	if err != nil {
		return err
	}
	switch tok {
	case json.Delim('{'):
		prev, first := "", true
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return err
			}
			key := k.(string)
			if check && !first && key <= prev {
				bad(path, prev, key)
			}
			prev, first = key, false
			sub := check || free[key]
			if (path == "dataset" && key == "stats") || key == "citations" || key == "contributors" || key == "license" {
				sub = false // fixed fields
			}
			p := path + "." + key
			if err := walk(dec, p, sub, bad); err != nil {
				return err
			}
		}
		_, err = dec.Token()
	case json.Delim('['):
		for dec.More() {
			if err := walk(dec, path+"[]", check, bad); err != nil {
				return err
			}
		}
		_, err = dec.Token()
	}
	return err
}

func changed(c *vt.C) {
	kind := vt.One(c.T, "kind", mx.Kinds...)
	v := mx.Gen(c.T, kind, mx.Opts{NoComponents: true})
	w := mx.Copy(v)
	fields := mx.Fields(kind)
	f := fields[vt.N(c.T, 0, len(fields)-1, "field")]
	if vt.Chance(c.T, 3, "tweak") {
		f = mx.Tweak(c.T, w)
	} else {
		mx.GenField(c.T, w, f, mx.Opts{NoComponents: true})
	}
	if m, ok := w.(*dataset.Meta); ok && vt.Bool(c.T, "arb") {
		_ = m.SetArbitrary(mx.ArbKey(c.T), mx.Free(c.T, 1))
	}
	a, ha := encode(c, v)
	b, hb := encode(c, w)
	differ := mx.Diff(v, w, mx.DiffOpts{RefQri: true, Skip: func(k, f string) bool { return f == "Secrets" || f == "Qri" }}) != ""
	if differ && bytes.Equal(a, b) {
		c.Fatalf("%s differing in %s encodes the same: %s", kind, f, a)
	}
	if (ha == hb) != bytes.Equal(a, b) {
		c.Fatalf("hashes %s %s of\n%s\n%s", ha, hb, a, b)
	}
	c.Labelf("changed=%v", differ)
	if differ {
		c.NonTrivial(a, b)
	}
	c.Sample("%s.%s: %s / %s", kind, f, a, b)
}

func hash(c *vt.C) {
	data := vt.Bytes(c.T, 200)
	if vt.Chance(c.T, 20, "big") {
		data = bytes.Repeat(append(data, 7), vt.N(c.T, 1, 4000, "rep"))
	}
	keep := append([]byte(nil), data...)
	got, err := dataset.HashBytes(data)
	if err != nil {
		c.Fatalf("hash: %v", err)
	}
	if want := reference(keep); got != want {
		c.Fatalf("hash of %q is %s, want %s", vt.Trunc(fmt.Sprintf("%q", keep), 200), got, want)
	}
	if !bytes.Equal(keep, data) {
		c.Fatalf("hashing changed its input")
	}
	if len(data) > 0 {
		c.NonTrivial(data)
	}
	c.Sample("%d bytes -> %s", len(data), got)
}

// unencodable documents have no encoding, and so no hash.
func unencodable(c *vt.C) {
	bad := vt.From(c.T, "bad", []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1)})
	for i := vt.N(c.T, 0, 2, "nested"); i > 0; i-- {
		if vt.Bool(c.T, "list") {
			bad = []interface{}{"x", bad}
		} else {
			bad = map[string]interface{}{"x": bad}
		}
	}
	kind := vt.One(c.T, "kind", mx.Kinds...)
	v := mx.Gen(c.T, kind, mx.Opts{})
	where := kind
	free := map[string]interface{}{"x": bad}
	switch x := v.(type) {
	case *dataset.Dataset:
		switch vt.N(c.T, 0, 4, "where") {
		case 0:
			x.Body = bad
		case 1:
			x.Structure = &dataset.Structure{Schema: free}
		case 2:
			x.Transform = &dataset.Transform{Config: free}
		case 3:
			x.Stats = &dataset.Stats{Stats: bad}
		case 4:
			x.Meta = &dataset.Meta{Title: "t"}
			_ = x.Meta.SetArbitrary("x", bad)
		}
	case *dataset.Meta:
		_ = x.SetArbitrary("x", bad)
	case *dataset.Structure:
		if vt.Bool(c.T, "schema") {
			x.Schema = free
		} else {
			x.FormatConfig = free
		}
	case *dataset.Transform:
		x.Config = free
	case *dataset.Stats:
		x.Stats = bad
	default:
		return
	}
	data, err := v.(json.Marshaler).MarshalJSON()
	if err == nil {
		c.Fatalf("%s with %T encodes as %s", where, bad, data)
	}
	h, err := dataset.JSONHash(v.(json.Marshaler))
	if err == nil {
		c.Fatalf("%s with %T, which has no encoding, hashes to %s", where, bad, h)
	}
	if st, ok := v.(*dataset.Structure); ok {
		if h, err := st.Hash(); err == nil {
			c.Fatalf("structure with %T hashes to %s", bad, h)
		}
	}
	c.Label("unencodable " + where)
	c.NonTrivial(where, fmt.Sprintf("%T", bad), mx.SetCount(v))
}
