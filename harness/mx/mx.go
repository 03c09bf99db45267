// Package mx generates dataset documents and components and looks at them by reflection.
package mx

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"pgregory.net/rapid"
	"verif/vt"
)

// Kinds are the document types.
var Kinds = []string{"dataset", "commit", "meta", "readme", "stats", "structure", "transform", "viz"}

// Components are the document types a dataset holds.
var Components = Kinds[1:]

// New allocates a document of a kind.
func New(kind string) interface{} {
	switch kind {
	case "dataset":
		return &dataset.Dataset{}
	case "commit":
		return &dataset.Commit{}
	case "meta":
		return &dataset.Meta{}
	case "readme":
		return &dataset.Readme{}
	case "stats":
		return &dataset.Stats{}
	case "structure":
		return &dataset.Structure{}
	case "transform":
		return &dataset.Transform{}
	case "viz":
		return &dataset.Viz{}
	}
	panic(kind)
}

// KindString is the kind identifier of a document type.
func KindString(kind string) string {
	return map[string]string{"dataset": "ds:0", "commit": "cm:0", "meta": "md:0", "readme": "rm:0", "stats": "sa:0", "structure": "st:0", "transform": "tf:0", "viz": "vz:0"}[kind]
}

// KindOf names the type of a document.
func KindOf(v interface{}) string {
	return strings.ToLower(reflect.TypeOf(v).Elem().Name())
}

// Opts tunes generation.
type Opts struct {
	NoComponents bool // datasets without components
	NoFree       bool // no free-form values (bodies, schemas, arbitrary metadata)
	Line         bool // strings without line feeds
	KindOnly     bool // kind identifiers are empty or the standard one
	Depth        int
}

// Gen draws a document with some of its fields set.
func Gen(t *rapid.T, kind string, o Opts) interface{} {
	v := New(kind)
	density := vt.N(t, 0, 9, "density")
	rv := reflect.ValueOf(v).Elem()
	rt := rv.Type()
	single := -1
	if density >= 8 { // one field and maybe the path
		single = vt.N(t, 0, rt.NumField()-1, "single")
	}
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.PkgPath != "" {
			continue
		}
		set := false
		switch {
		case single >= 0:
			set = i == single || (f.Name == "Path" && vt.Bool(t, "withPath"))
		case density == 0:
			set = true
		case density < 4:
			set = vt.N(t, 0, 3, "set") == 3
		default:
			set = vt.Bool(t, "set")
		}
		if set {
			genField(t, kind, f, rv.Field(i), o)
		}
	}
	if m, ok := v.(*dataset.Meta); ok && !o.NoFree {
		n := 0
		if vt.Bool(t, "arbitrary") {
			n = count(t, "arb")
		}
		for i := 0; i < n; i++ {
			if i > 3 {
				if err := m.SetArbitrary(fmt.Sprintf("arb %d", i), int64(i*i)); err != nil {
					panic(err)
				}
				continue
			}
			if err := m.SetArbitrary(ArbKey(t), Free(t, 1)); err != nil {
				panic(err)
			}
		}
	}
	return v
}

// StandardMeta are the standard metadata keys.
var StandardMeta = func() (out []string) {
	rt := reflect.TypeOf(dataset.Meta{})
	for i := 0; i < rt.NumField(); i++ {
		if f := rt.Field(i); f.PkgPath == "" {
			out = append(out, strings.Split(f.Tag.Get("json"), ",")[0])
		}
	}
	return out
}()

// IsStandard tells whether a key names a standard metadata field.
func IsStandard(k string) bool {
	for _, s := range StandardMeta {
		if strings.EqualFold(s, strings.TrimSpace(k)) || strings.EqualFold(s, k) {
			return true
		}
	}
	return false
}

var arbKeys = []string{"data", "image", "length", "timestamp", "keyword", "foo", "a.b", "Keyword", "meta", "author", "license_2", "titles", "x", "name", "body", "é", " spaced ", "checksum", "stats", "structure", "commit", "readme", "transform", "viz", "id", "peername", "url", "type", "email", "text", "format", "entries", "meta.meta"}

// ArbKey draws a metadata key that is not a standard one.
func ArbKey(t *rapid.T) string {
	k := arbKeys[vt.N(t, 0, len(arbKeys)-1, "arbKey")]
	if vt.Bool(t, "anyKey") {
		k = vt.Str(t, vt.StrOpts{})
	}
	if IsStandard(k) {
		k = "z" + k
	}
	return k
}

// Free draws a free-form JSON value whose integers fit a float64.
func Free(t *rapid.T, depth int) interface{} {
	return small(vt.Value(t, vt.ValOpts{Depth: depth}))
}

// FreeMap draws a non-empty free-form object.
func FreeMap(t *rapid.T) map[string]interface{} {
	m := map[string]interface{}{}
	n := count(t, "mapLen")
	for i := 0; i < n; i++ {
		if i > 3 {
			m[fmt.Sprintf("key %d", i)] = int64(i * i)
			continue
		}
		m[vt.Str(t, vt.StrOpts{})] = Free(t, 2)
	}
	return m
}

func small(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		if x > 1<<53 || x < -(1<<53) {
			return x % (1 << 53)
		}
	case []interface{}:
		for i := range x {
			x[i] = small(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = small(x[k])
		}
	}
	return v
}

// count draws the size of a list or map that is not empty: mostly small, once in a
// while beyond what anybody writes by hand.
func count(t *rapid.T, label string) int {
	n := vt.N(t, 1, 3, label)
	if vt.Chance(t, 30, "more") {
		n = vt.N(t, 4, 40, label+"More")
		if vt.Chance(t, 4, "muchMore") {
			n = vt.N(t, 41, 700, label+"MuchMore")
		}
	}
	return n
}

// texts gives strings for the positions of a list: the first ones are drawn, the others
// made from them.
func texts(t *rapid.T) func(i int) string {
	var drawn []string
	return func(i int) string {
		if i < 4 {
			s := vt.Str(t, vt.StrOpts{})
			drawn = append(drawn, s)
			return s
		}
		return fmt.Sprintf("%s%d", drawn[i%len(drawn)], i)
	}
}

// Text draws a non-empty string.
func Text(t *rapid.T, o Opts) string {
	s := vt.Str(t, vt.StrOpts{NonEmpty: true})
	if vt.Chance(t, 60, "longText") {
		s = vt.BigStr(t, 70000) + "k"
	}
	if o.Line {
		s = strings.ReplaceAll(s, "\n", "")
		if s == "" {
			s = "t"
		}
	}
	return s
}

// Time draws a non-zero time in some zone.
func Time(t *rapid.T) time.Time {
	sec := int64(vt.N(t, -2000000000, 2000000000, "sec"))
	ns := int64(0)
	if vt.Bool(t, "frac") {
		ns = int64(vt.N(t, 0, 999999999, "ns"))
	}
	tm := time.Unix(sec, ns).UTC()
	if vt.Bool(t, "zone") {
		off := vt.N(t, -56, 56, "off") * 900
		tm = tm.In(time.FixedZone("", off))
	}
	return tm
}

func genField(t *rapid.T, kind string, f reflect.StructField, fv reflect.Value, o Opts) {
	switch x := fv.Interface().(type) {
	case string:
		if f.Name == "Qri" {
			fv.SetString(KindString(kind))
			if !o.KindOnly && vt.Chance(t, 4, "otherKind") {
				fv.SetString(vt.One(t, "kind", "ds:1", "md:2", "xx:0", "qri"))
			}
			return
		}
		fv.SetString(Text(t, o))
	case int:
		i := int(vt.Int(t) % (1 << 53))
		if i == 0 {
			i = 7
		}
		fv.SetInt(int64(i))
	case bool:
		fv.SetBool(true)
	case []byte:
		fv.SetBytes([]byte(Text(t, o)))
	case []string:
		str := texts(t)
		for i, n := 0, count(t, "strs"); i < n; i++ {
			x = append(x, str(i))
		}
		fv.Set(reflect.ValueOf(x))
	case map[string]interface{}:
		if o.NoFree {
			return
		}
		fv.Set(reflect.ValueOf(FreeMap(t)))
	case map[string]string:
		m := map[string]string{}
		key, str := texts(t), texts(t)
		for i, n := 0, count(t, "strMap"); i < n; i++ {
			m[key(i)] = str(i)
		}
		fv.Set(reflect.ValueOf(m))
	case map[string]*dataset.TransformResource:
		m := map[string]*dataset.TransformResource{}
		key, str := texts(t), texts(t)
		for i, n := 0, count(t, "res"); i < n; i++ {
			m[key(i)] = &dataset.TransformResource{Path: str(i)}
		}
		fv.Set(reflect.ValueOf(m))
	case []*dataset.TransformStep:
		a, b, c, d := texts(t), texts(t), texts(t), texts(t)
		for i, n := 0, count(t, "steps"); i < n; i++ {
			s := &dataset.TransformStep{Name: a(i), Syntax: b(i), Category: c(i), Script: d(i)}
			if i < 4 && vt.Chance(t, 4, "stepPath") {
				s.Path = Text(t, o)
			}
			if i < 4 && vt.Chance(t, 6, "stepValue") {
				s.Script = Free(t, 1)
			}
			x = append(x, s)
		}
		fv.Set(reflect.ValueOf(x))
	case []*dataset.Citation:
		a, b, c := texts(t), texts(t), texts(t)
		for i, n := 0, count(t, "cites"); i < n; i++ {
			x = append(x, &dataset.Citation{Name: a(i), URL: b(i), Email: c(i)})
		}
		fv.Set(reflect.ValueOf(x))
	case []*dataset.User:
		for i, n := 0, count(t, "users"); i < n; i++ {
			if i > 3 {
				x = append(x, &dataset.User{ID: fmt.Sprintf("%s%d", x[i%4].ID, i), Email: x[0].Email})
				continue
			}
			x = append(x, user(t))
		}
		fv.Set(reflect.ValueOf(x))
	case *dataset.User:
		fv.Set(reflect.ValueOf(user(t)))
	case *dataset.License:
		fv.Set(reflect.ValueOf(&dataset.License{Type: vt.Str(t, vt.StrOpts{}), URL: vt.Str(t, vt.StrOpts{})}))
	case time.Time:
		fv.Set(reflect.ValueOf(Time(t)))
	default:
		if f.Type.Kind() == reflect.Interface {
			if o.NoFree {
				return
			}
			v := Free(t, 2)
			if v == nil {
				v = []interface{}{int64(1)}
			}
			fv.Set(reflect.ValueOf(v))
			return
		}
		if f.Type.Kind() == reflect.Ptr {
			if o.NoComponents {
				return
			}
			fv.Set(reflect.ValueOf(Gen(t, strings.ToLower(f.Name), o)))
			return
		}
		panic(fmt.Sprintf("mx: field %s of type %s", f.Name, f.Type))
	}
}

func user(t *rapid.T) *dataset.User {
	return &dataset.User{ID: vt.Str(t, vt.StrOpts{}), Fullname: vt.Str(t, vt.StrOpts{}), Email: vt.Str(t, vt.StrOpts{})}
}

// Copy copies a document deeply: exported fields, arbitrary metadata; no files.
func Copy(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return copyVal(reflect.ValueOf(v)).Interface()
}

func copyVal(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(copyVal(v.Elem()))
		if m, ok := v.Interface().(*dataset.Meta); ok {
			nm := n.Interface().(*dataset.Meta)
			arb := m.Meta()
			keys := vt.SortedKeys(arb)
			for i := len(keys) - 1; i >= 0; i-- { // another insertion order
				_ = nm.SetArbitrary(keys[i], copyAny(arb[keys[i]]))
			}
		}
		return n
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(copyVal(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyVal(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() > keys[j].String() })
		for _, k := range keys {
			n.SetMapIndex(k, copyVal(v.MapIndex(k)))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(copyVal(v.Elem()))
		return n
	}
	return v
}

func copyAny(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return copyVal(reflect.ValueOf(v)).Interface()
}

// DiffOpts tunes Diff.
type DiffOpts struct {
	Skip    func(kind, field string) bool
	RefQri  bool // ignore the kind identifier of bare references
	FillQri bool // an empty kind identifier may have been filled in
}

// Diff compares two documents field by field, "" meaning equal. Numbers compare by
// value, times by instant, and empty containers equal missing ones.
func Diff(want, got interface{}, o DiffOpts) string {
	return diffDoc("", reflect.ValueOf(want), reflect.ValueOf(got), o)
}

func isDoc(t reflect.Type) bool {
	for _, k := range Kinds {
		if t == reflect.TypeOf(New(k)) {
			return true
		}
	}
	return false
}

func diffDoc(p string, a, b reflect.Value, o DiffOpts) string {
	if a.IsNil() || b.IsNil() {
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: missing in one (%v, %v)", p, a.IsNil(), b.IsNil())
		}
		return ""
	}
	kind := KindOf(a.Interface())
	p += kind
	ref := o.RefQri && Empty(a.Interface()) && a.Elem().FieldByName("Path").String() != ""
	rt := a.Elem().Type()
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.PkgPath != "" || (o.Skip != nil && o.Skip(kind, f.Name)) {
			continue
		}
		if f.Name == "Qri" {
			x, y := a.Elem().Field(i).String(), b.Elem().Field(i).String()
			if ref || (o.FillQri && x == "" && y == KindString(kind)) {
				continue
			}
		}
		if d := diffVal(p+"."+f.Name, a.Elem().Field(i), b.Elem().Field(i), o); d != "" {
			return d
		}
	}
	if m, ok := a.Interface().(*dataset.Meta); ok && (o.Skip == nil || !o.Skip(kind, "meta")) {
		if d := vt.Diff(m.Meta(), b.Interface().(*dataset.Meta).Meta(), vt.CmpOpts{}); d != "" {
			return p + " arbitrary: " + d
		}
	}
	return ""
}

func diffVal(p string, a, b reflect.Value, o DiffOpts) string {
	if isDoc(a.Type()) {
		return diffDoc(p+":", a, b, o)
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: missing in one", p)
			}
			return ""
		}
		return diffVal(p, a.Elem(), b.Elem(), o)
	case reflect.Interface:
		var x, y interface{}
		if !a.IsNil() {
			x = a.Interface()
		}
		if !b.IsNil() {
			y = b.Interface()
		}
		if d := vt.Diff(x, y, vt.CmpOpts{}); d != "" {
			return p + ": " + d
		}
		return ""
	case reflect.Struct:
		if x, ok := a.Interface().(time.Time); ok {
			y := b.Interface().(time.Time)
			if !x.Equal(y) {
				return fmt.Sprintf("%s: want %v, got %v", p, x, y)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diffVal(p+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i), o); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if x, ok := a.Interface().([]byte); ok {
			if !bytes.Equal(x, b.Bytes()) {
				return fmt.Sprintf("%s: want %q, got %q", p, x, b.Bytes())
			}
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d elements, got %d", p, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffVal(fmt.Sprintf("%s[%d]", p, i), a.Index(i), b.Index(i), o); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d keys, got %d", p, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %q missing", p, k.String())
			}
			if d := diffVal(fmt.Sprintf("%s[%q]", p, k.String()), a.MapIndex(k), y, o); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: want %#v, got %#v", p, a.Interface(), b.Interface())
	}
	return ""
}

// Empty tells whether nothing but path and kind identifier is set.
func Empty(v interface{}) bool {
	rv := reflect.ValueOf(v).Elem()
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		if f.PkgPath != "" || f.Name == "Path" || f.Name == "Qri" {
			continue
		}
		if !rv.Field(i).IsZero() {
			return false
		}
	}
	if m, ok := v.(*dataset.Meta); ok && len(m.Meta()) > 0 {
		return false
	}
	return true
}

// Field gives a field of a document.
func Field(v interface{}, name string) reflect.Value {
	return reflect.ValueOf(v).Elem().FieldByName(name)
}

// Fields lists the exported fields of a kind.
func Fields(kind string) (out []string) {
	rt := reflect.TypeOf(New(kind)).Elem()
	for i := 0; i < rt.NumField(); i++ {
		if rt.Field(i).PkgPath == "" {
			out = append(out, rt.Field(i).Name)
		}
	}
	return out
}

// SetCount counts the fields set.
func SetCount(v interface{}) (n int) {
	rv := reflect.ValueOf(v).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if rv.Type().Field(i).PkgPath == "" && !rv.Field(i).IsZero() {
			n++
		}
	}
	if m, ok := v.(*dataset.Meta); ok && len(m.Meta()) > 0 {
		n++
	}
	return n
}

// GenField draws another value for one field.
func GenField(t *rapid.T, v interface{}, name string, o Opts) {
	rv := reflect.ValueOf(v).Elem()
	f, _ := rv.Type().FieldByName(name)
	nv := reflect.New(f.Type).Elem()
	genField(t, KindOf(v), f, nv, o)
	rv.FieldByName(name).Set(nv)
}

// Ref is a component holding just a path.
func Ref(kind, path string) reflect.Value {
	v := reflect.ValueOf(New(kind))
	v.Elem().FieldByName("Path").SetString(path)
	return v
}

// Sprint writes a document out, independently of its own encoding.
func Sprint(v interface{}) string {
	var b strings.Builder
	sprint(&b, reflect.ValueOf(v))
	return b.String()
}

func sprint(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		sprint(b, v.Elem())
		if v.Kind() == reflect.Ptr {
			if m, ok := v.Interface().(*dataset.Meta); ok {
				sprint(b, reflect.ValueOf(m.Meta()))
			}
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			b.WriteString(t.UTC().Format(time.RFC3339Nano))
			return
		}
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && !v.Field(i).IsZero() {
				b.WriteString(f.Name + ":")
				sprint(b, v.Field(i))
				b.WriteString(" ")
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		if x, ok := v.Interface().([]byte); ok {
			fmt.Fprintf(b, "%q", x)
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			sprint(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		b.WriteString("{")
		for _, k := range keys {
			fmt.Fprintf(b, "%q:", k.String())
			sprint(b, v.MapIndex(k))
			b.WriteString(",")
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "%#v", v.Interface())
	}
}
