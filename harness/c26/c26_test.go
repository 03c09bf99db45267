package c26

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/qri-io/dataset/vals"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a JSON document in drawn notation, a native value of drawn Go types, or a pair of such values of which one may be changed in one place; non-trivial = a container with members or a scalar that is not null; distinct by document(s)")
}

func TestC26(t *testing.T) {
	vt.Check(t, "decode", 200000, 3000000, decode)
	vt.Check(t, "convert", 120000, 2000000, convert)
	vt.Check(t, "equal", 200000, 3000000, equal)
	vt.Check(t, "malformed", 100000, 1500000, malformed)
}

func opts(c *vt.C) vt.ValOpts {
	return vt.ValOpts{Depth: vt.N(c.T, 0, 3, "depth")}
}

// walk turns a Value into a native tree through its accessors.
func walk(c *vt.C, v vals.Value) interface{} {
	if v == nil {
		c.Fatalf("nil value")
	}
	if v.IsNull() != (v.Type() == vals.TypeNull) {
		c.Fatalf("%v value IsNull=%v", v.Type(), v.IsNull())
	}
	refuses(c, v)
	switch v.Type() {
	case vals.TypeNull:
		return nil
	case vals.TypeBoolean:
		return v.Boolean()
	case vals.TypeString:
		return v.String()
	case vals.TypeInteger:
		if v.Number() != float64(v.Integer()) {
			c.Fatalf("integer %d as number %v", v.Integer(), v.Number())
		}
		return int64(v.Integer())
	case vals.TypeNumber:
		return v.Number()
	case vals.TypeArray:
		out := make([]interface{}, v.Len())
		for i := range out {
			out[i] = walk(c, v.Index(i))
		}
		return out
	case vals.TypeObject:
		out := map[string]interface{}{}
		for _, k := range v.Keys() {
			if _, dup := out[k]; dup {
				c.Fatalf("key %q twice", k)
			}
			out[k] = walk(c, v.MapIndex(k))
		}
		return out
	}
	c.Fatalf("value of type %d", v.Type())
	return nil
}

func weight(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return false
	case []interface{}:
		return len(x) > 0
	case map[string]interface{}:
		return len(x) > 0
	}
	return true
}

// encoded checks that a value encodes to a document equivalent to the tree.
func encoded(c *vt.C, v vals.Value, tree interface{}) {
	out, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("encoding: %v", err)
	}
	back, err := jx.Value(out)
	if err != nil {
		c.Fatalf("encoded as %q: %v", vt.Trunc(string(out), 300), err)
	}
	if d := vt.Diff(loose(tree), loose(back), vt.CmpOpts{}); d != "" {
		c.Fatalf("encoded as %q: %s", vt.Trunc(string(out), 300), d)
	}
}

// loose replaces whole floats by what a JSON writer makes of them.
func loose(v interface{}) interface{} {
	switch x := v.(type) {
	case float64:
		if x == math.Trunc(x) && math.Abs(x) < 1e15 {
			return int64(x)
		}
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = loose(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			out[k] = loose(x[k])
		}
		return out
	}
	return v
}

func render(c *vt.C, v interface{}) []byte {
	return jx.Join(c.T, jx.Tokens(c.T, v), 3, true)
}

func decode(c *vt.C) {
	tree := vt.Value(c.T, opts(c))
	if vt.Chance(c.T, 40, "deep") {
		tree = vt.Deep(c.T, vt.ValOpts{}, 60)
	}
	doc := render(c, tree)
	want, err := jx.Value(doc)
	if err != nil {
		c.Fatalf("reference: %v", err)
	}
	keep := string(doc)
	v, err := vals.UnmarshalJSON(doc)
	if err != nil {
		c.Fatalf("decoding %q: %v", vt.Trunc(keep, 300), err)
	}
	if string(doc) != keep {
		c.Fatalf("decoding changed its input")
	}
	if d := vt.Diff(want, walk(c, v), vt.CmpOpts{}); d != "" {
		c.Fatalf("decoding %q: %s", vt.Trunc(keep, 300), d)
	}
	for i := range doc { // nothing decoded lives in the input
		doc[i] = 'x'
	}
	if d := vt.Diff(want, walk(c, v), vt.CmpOpts{}); d != "" {
		c.Fatalf("value of %q changed with its input: %s", vt.Trunc(keep, 300), d)
	}
	encoded(c, v, want)
	v2, err := vals.UnmarshalJSON([]byte(keep))
	if err != nil || !vals.Equal(v, v2) || !vals.Equal(v, v) {
		c.Fatalf("two decodings of %q are not equal (%v)", vt.Trunc(keep, 300), err)
	}
	c.Labelf("%v", v.Type())
	if weight(tree) {
		c.NonTrivial(keep)
	}
	c.Sample("%s", vt.Trunc(keep, 200))
}

// native draws Go types for the scalars of a tree.
func native(c *vt.C, v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		var cands []interface{}
		cands = append(cands, x, int(x))
		if x >= 0 {
			cands = append(cands, uint64(x))
		}
		if x >= 0 && x <= math.MaxUint8 {
			cands = append(cands, uint8(x))
		}
		if x >= 0 && x <= math.MaxUint16 {
			cands = append(cands, uint16(x))
		}
		if x >= 0 && x <= math.MaxUint32 {
			cands = append(cands, uint32(x))
		}
		if x >= math.MinInt32 && x <= math.MaxInt32 {
			cands = append(cands, int32(x))
		}
		return cands[vt.N(c.T, 0, len(cands)-1, "goType")]
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = native(c, x[i])
		}
		return out
	case map[string]interface{}:
		if vt.Bool(c.T, "anyKeys") {
			out := map[interface{}]interface{}{}
			for _, k := range vt.SortedKeys(x) {
				out[k] = native(c, x[k])
			}
			return out
		}
		out := map[string]interface{}{}
		for _, k := range vt.SortedKeys(x) {
			out[k] = native(c, x[k])
		}
		return out
	}
	return v
}

func convert(c *vt.C) {
	tree := vt.Value(c.T, opts(c))
	src := native(c, tree)
	if vt.Chance(c.T, 30, "huge") {
		u := uint64(math.MaxUint64) - uint64(vt.N(c.T, 0, 1000000, "below"))
		src, tree = []interface{}{u}, []interface{}{float64(u)}
		if v, err := vals.ConvertDecoded(src); err == nil { // refusing is right too
			n := v.Index(0)
			if n.Number() != float64(u) {
				c.Fatalf("converting %d gives %v", u, n.Number())
			}
		}
		return
	}
	if vt.Chance(c.T, 30, "foreign") {
		bad := []interface{}{struct{}{}, complex(1, 2), make(chan int), map[interface{}]interface{}{1: 2}, map[interface{}]interface{}{nil: 2}, func() {}}[vt.N(c.T, 0, 5, "bad")]
		for i := vt.N(c.T, 0, 3, "nested"); i > 0; i-- {
			switch vt.N(c.T, 0, 3, "nest") {
			case 0:
				bad = []interface{}{bad}
			case 1:
				bad = []interface{}{1, bad, "x"}
			case 2:
				bad = map[string]interface{}{"a": bad, "b": 1}
			case 3:
				bad = map[interface{}]interface{}{"a": bad, "b": 1}
			}
		}
		if v, err := vals.ConvertDecoded(bad); err == nil {
			c.Fatalf("converted %#v to %v", bad, v)
		}
		return
	}
	before := fmt.Sprintf("%#v", src)
	v, err := vals.ConvertDecoded(src)
	if err != nil {
		c.Fatalf("converting %s: %v", vt.Trunc(before, 300), err)
	}
	if d := vt.Diff(tree, walk(c, v), vt.CmpOpts{}); d != "" {
		c.Fatalf("converting %s: %s", vt.Trunc(before, 300), d)
	}
	if fmt.Sprintf("%#v", src) != before {
		c.Fatalf("conversion changed its input")
	}
	encoded(c, v, tree)
	if !vals.Equal(v, v) {
		c.Fatalf("value of %s not equal to itself", vt.Trunc(before, 300))
	}
	if weight(tree) {
		c.NonTrivial(before)
	}
	c.Sample("%s", vt.Trunc(before, 200))
}

// make produces a Value of a tree in one of the ways there are.
func produce(c *vt.C, tree interface{}) vals.Value {
	switch vt.N(c.T, 0, 2, "way") {
	case 0:
		v, err := vals.UnmarshalJSON(render(c, tree))
		if err != nil {
			c.Fatalf("decode: %v", err)
		}
		return v
	case 1:
		v, err := vals.ConvertDecoded(native(c, tree))
		if err != nil {
			c.Fatalf("convert: %v", err)
		}
		return v
	}
	return build(c, tree)
}

// build makes a Value by hand, as values or pointers.
func build(c *vt.C, tree interface{}) vals.Value {
	ptr := vt.Bool(c.T, "pointer")
	switch x := tree.(type) {
	case nil:
		n := vals.Null(vt.Bool(c.T, "null"))
		if ptr {
			return &n
		}
		return n
	case bool:
		b := vals.Boolean(x)
		if ptr {
			return &b
		}
		return b
	case string:
		s := vals.String(x)
		if ptr {
			return &s
		}
		return s
	case int64:
		i := vals.Integer(x)
		if ptr {
			return &i
		}
		return i
	case float64:
		f := vals.Number(x)
		if ptr {
			return &f
		}
		return f
	case []interface{}:
		a := vals.Array{}
		for _, e := range x {
			a = append(a, build(c, e))
		}
		if ptr {
			return &a
		}
		return a
	case map[string]interface{}:
		o := vals.Object{}
		for _, k := range vt.SortedKeys(x) {
			o[k] = build(c, x[k])
		}
		if ptr {
			return &o
		}
		return o
	}
	c.Fatalf("tree %T", tree)
	return nil
}

// mutate changes a tree in one place, usually to something else.
func mutate(c *vt.C, v interface{}) interface{} {
	if vt.Chance(c.T, 4, "replace") {
		return vt.Value(c.T, vt.ValOpts{Depth: 1})
	}
	switch x := v.(type) {
	case nil:
		return vt.One(c.T, "forNil", "", "null")
	case bool:
		return !x
	case int64:
		switch vt.N(c.T, 0, 2, "intTo") {
		case 0:
			return float64(x)
		case 1:
			return x ^ 1
		}
		return -x
	case float64:
		if vt.Bool(c.T, "next") {
			return math.Nextafter(x, 0)
		}
		return -x
	case string:
		if vt.Bool(c.T, "append") {
			return x + vt.One(c.T, "tail", " ", "a", "\x00")
		}
		return ""
	case []interface{}:
		out := append([]interface{}{}, x...)
		switch n := vt.N(c.T, 0, 3, "arrayChange"); {
		case len(out) == 0 || n == 0:
			return append(out, vt.Scalar(c.T, vt.ValOpts{}))
		case n == 1:
			return out[:len(out)-1]
		case n == 2 && len(out) > 1:
			i := vt.N(c.T, 0, len(out)-2, "swap")
			out[i], out[i+1] = out[i+1], out[i]
			return out
		}
		i := vt.N(c.T, 0, len(out)-1, "member")
		out[i] = mutate(c, out[i])
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = e
		}
		ks := vt.SortedKeys(x)
		switch n := vt.N(c.T, 0, 3, "objectChange"); {
		case len(ks) == 0 || n == 0:
			out[vt.Str(c.T, vt.StrOpts{Simple: true})] = vt.Scalar(c.T, vt.ValOpts{})
			return out
		case n == 1:
			delete(out, ks[vt.N(c.T, 0, len(ks)-1, "drop")])
			return out
		case n == 2: // rename
			k := ks[vt.N(c.T, 0, len(ks)-1, "rename")]
			e := out[k]
			delete(out, k)
			out[k+"_"] = e
			return out
		}
		k := ks[vt.N(c.T, 0, len(ks)-1, "member")]
		out[k] = mutate(c, out[k])
		return out
	}
	return v
}

// same is the reference: equal types and content.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			e, ok := y[k]
			if !ok || !same(x[k], e) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func equal(c *vt.C) {
	ta := vt.Value(c.T, opts(c))
	tb := vt.Clone(ta)
	switch vt.N(c.T, 0, 4, "pair") {
	case 0:
	case 4:
		tb = vt.Value(c.T, opts(c))
	default:
		tb = mutate(c, tb)
	}
	a, b := produce(c, ta), produce(c, tb)
	// documents may denote another type than the tree: compare what was produced
	wa, wb := walk(c, a), walk(c, b)
	want := same(wa, wb)
	if got := vals.Equal(a, b); got != want {
		c.Fatalf("Equal(%s, %s) = %v (made as %T and %T)", vt.Show(wa), vt.Show(wb), got, a, b)
	}
	if got := vals.Equal(b, a); got != want {
		c.Fatalf("Equal(%s, %s) = %v, the other way round %v", vt.Show(wb), vt.Show(wa), got, want)
	}
	c.Labelf("equal=%v", want)
	if weight(wa) || weight(wb) {
		c.NonTrivial(fmt.Sprint(wa, wb))
	}
	c.Sample("%s == %s: %v", vt.Show(wa), vt.Show(wb), want)
}

func malformed(c *vt.C) {
	var s string
	if vt.Bool(c.T, "cut") {
		doc := render(c, vt.Value(c.T, vt.ValOpts{Depth: 2}))
		k := vt.N(c.T, 0, len(doc), "at")
		if vt.Bool(c.T, "insert") {
			s = string(doc[:k]) + vt.One(c.T, "char", ",", "]", "}", "[", "{", "\"", "x", ":", "1", "t", "\x00", ".") + string(doc[k:])
		} else {
			s = string(doc[:k])
		}
	} else {
		n := vt.N(c.T, 0, 6, "soup")
		for i := 0; i < n; i++ {
			s += vt.One(c.T, "char", "[", "]", "{", "}", ",", ":", "\"a\"", "1", "-", "null", "true", "t", " ", "e", ".5", "nul", "\n")
		}
	}
	v, err := vals.UnmarshalJSON([]byte(s))
	want, werr := jx.Value([]byte(s))
	if !json.Valid([]byte(s)) {
		if err == nil {
			c.Fatalf("%q decoded to %v", s, walk(c, v))
		}
		c.Label("invalid")
		c.NonTrivial(s)
		return
	}
	if werr != nil {
		return // numbers out of range
	}
	if err != nil {
		c.Fatalf("decoding %q: %v", s, err)
	}
	if d := vt.Diff(want, walk(c, v), vt.CmpOpts{}); d != "" {
		c.Fatalf("decoding %q: %s", s, d)
	}
	c.Label("valid")
	c.Sample("%q", s)
}

// answers lists what values of a type can be asked for besides their type and text.
var answers = map[vals.Type]string{
	vals.TypeNull: "", vals.TypeBoolean: "Boolean", vals.TypeString: "", vals.TypeInteger: "Integer Number", vals.TypeNumber: "Number",
	vals.TypeArray: "Len Index", vals.TypeObject: "Keys MapIndex",
}

// refuses asks a value for what it is not.
func refuses(c *vt.C, v vals.Value) {
	ask := map[string]func(){
		"Len": func() { v.Len() }, "Index": func() { v.Index(0) }, "Keys": func() { v.Keys() }, "MapIndex": func() { v.MapIndex("") },
		"Boolean": func() { v.Boolean() }, "Integer": func() { v.Integer() }, "Number": func() { v.Number() },
	}
	for name, f := range ask {
		if strings.Contains(answers[v.Type()], name) {
			continue
		}
		var p interface{}
		func() {
			defer func() { p = recover() }()
			f()
		}()
		e, ok := p.(*vals.ValueError)
		if !ok || e.Method != name || e.Type != v.Type() {
			c.Fatalf("%s of a %v value: %v, want a value error of it", name, v.Type(), p)
		}
		if s := e.Error(); !strings.Contains(s, name) || !strings.Contains(s, v.Type().String()) {
			c.Fatalf("error of %s of a %v value is %q", name, v.Type(), s)
		}
	}
}
