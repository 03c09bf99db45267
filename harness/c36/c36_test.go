package c36

import (
	"encoding/json"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a format or compression value or name, an options map (valid, or with one value of the wrong type), a structure and file name, or a kind string; non-trivial = a format or kind other than the empty one, or a map with at least one option; distinct by input")
}

func TestC36(t *testing.T) {
	vt.Check(t, "formats", 20000, 400000, formats)
	vt.Check(t, "unknown", 30000, 600000, unknown)
	vt.Check(t, "filenames", 20000, 400000, filenames)
	vt.Check(t, "csvOptions", 40000, 800000, csvOptions)
	vt.Check(t, "otherOptions", 20000, 400000, otherOptions)
	vt.Check(t, "kinds", 40000, 800000, kinds)
}

var names = map[dataset.DataFormat]string{
	dataset.CSVDataFormat:    "csv",
	dataset.JSONDataFormat:   "json",
	dataset.NDJSONDataFormat: "ndjson",
	dataset.CBORDataFormat:   "cbor",
	dataset.XMLDataFormat:    "xml",
	dataset.XLSXDataFormat:   "xlsx",
}

var all = []dataset.DataFormat{dataset.CSVDataFormat, dataset.JSONDataFormat, dataset.NDJSONDataFormat, dataset.CBORDataFormat, dataset.XMLDataFormat, dataset.XLSXDataFormat}

// spelling of a format name: the names themselves and the other name of
// newline-delimited JSON, with or without a dot.
func spelling(c *vt.C, f dataset.DataFormat) string {
	s := names[f]
	if f == dataset.NDJSONDataFormat && vt.Bool(c.T, "jsonl") {
		s = "jsonl"
	}
	if vt.Bool(c.T, "dot") {
		s = "." + s
	}
	return s
}

func formats(c *vt.C) {
	f := all[vt.N(c.T, 0, len(all)-1, "format")]
	c.NonTrivial(int(f))
	c.Labelf("format %s", names[f])
	if f.String() != names[f] {
		c.Fatalf("format %d is named %q, want %q", f, f, names[f])
	}
	s := spelling(c, f)
	got, err := dataset.ParseDataFormatString(s)
	if err != nil || got != f {
		c.Fatalf("format %q parsed: %v, %v; want %v", s, got, err, f)
	}
	st := &dataset.Structure{Format: s}
	if st.DataFormat() != f {
		c.Fatalf("structure of format %q has format %v, want %v", s, st.DataFormat(), f)
	}
	// alone and inside other JSON values
	doc, err := json.Marshal(map[string]interface{}{"f": f, "l": []dataset.DataFormat{f, f}})
	if err != nil {
		c.Fatalf("encoding %v: %v", f, err)
	}
	if want := `{"f":"` + names[f] + `","l":["` + names[f] + `","` + names[f] + `"]}`; string(doc) != want {
		c.Fatalf("encoding of %v: %s, want %s", f, doc, want)
	}
	var back struct {
		F dataset.DataFormat
		L []dataset.DataFormat
		P *dataset.DataFormat
	}
	if err := json.Unmarshal(doc, &back); err != nil || back.F != f || len(back.L) != 2 || back.L[0] != f || back.L[1] != f || back.P != nil {
		c.Fatalf("%s decoded: %v, %v", doc, back, err)
	}
	q, _ := json.Marshal(s)
	got = all[vt.N(c.T, 0, len(all)-1, "previous")]
	if err := json.Unmarshal(q, &got); err != nil || got != f {
		c.Fatalf("%s decoded: %v, %v; want %v", q, got, err, f)
	}
	if b, err := json.Marshal(dataset.UnknownDataFormat); err == nil {
		c.Fatalf("the unknown format encoded as %s", b)
	}
	for _, f := range dataset.SupportedDataFormats() {
		if names[f] == "" {
			c.Fatalf("supported format %d is not a known format", f)
		}
	}
	// changing the returned list changes nothing
	l := dataset.SupportedDataFormats()
	want := append([]dataset.DataFormat{}, l...)
	for i := range l {
		l[i] = dataset.UnknownDataFormat
	}
	if got := dataset.SupportedDataFormats(); !reflect.DeepEqual(got, want) {
		c.Fatalf("supported formats %v, before %v", got, want)
	}
	for _, p := range [][2]string{{"gzip", "gzip"}, {"gz", "gzip"}, {"zst", "zst"}, {"zstd", "zst"}} {
		cf, err := compression.ParseFormat(p[0])
		if err != nil || cf.String() != p[1] {
			c.Fatalf("compression format %q parsed: %v, %v", p[0], cf, err)
		}
		if _, ok := compression.SupportedFormats[cf]; !ok {
			c.Fatalf("compression format %q is not supported", cf)
		}
	}
}

func isName(s string) bool {
	s = strings.TrimPrefix(s, ".")
	for _, n := range names {
		if s == n {
			return true
		}
	}
	return s == "jsonl"
}

func isComp(s string) bool { return s == "gzip" || s == "gz" || s == "zst" || s == "zstd" }

// nearName draws a string that is close to a name of a format.
func nearName(c *vt.C) string {
	f := all[vt.N(c.T, 0, len(all)-1, "near")]
	s := spelling(c, f)
	if vt.Chance(c.T, 3, "comp") {
		s = []string{"gzip", "gz", "zst", "zstd"}[vt.N(c.T, 0, 3, "compName")]
	}
	switch vt.N(c.T, 0, 8, "how") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s + []string{" ", "\n", "x", "\x00", ".", "s"}[vt.N(c.T, 0, 5, "tail")]
	case 2:
		return []string{" ", "..", ".", "x", "/", "text/"}[vt.N(c.T, 0, 5, "head")] + s
	case 3:
		return s[:vt.N(c.T, 1, len(s)-1, "cut")]
	case 4:
		i := vt.N(c.T, 0, len(s)-1, "at")
		return s[:i] + string(rune('a'+vt.N(c.T, 0, 25, "ch"))) + s[i+1:]
	case 5:
		return s
	case 6:
		return "" // the name of the unknown format
	default:
		return vt.Str(c.T, vt.StrOpts{})
	}
}

func unknown(c *vt.C) {
	s := nearName(c)
	ok := isName(s) || s == ""
	c.Labelf("name %v", ok)
	if s != "" {
		c.NonTrivial(s)
	}
	f, err := dataset.ParseDataFormatString(s)
	if ok != (err == nil) {
		c.Fatalf("format %q parsed: %v, %v", s, f, err)
	}
	if !ok && f != dataset.UnknownDataFormat {
		c.Fatalf("refused format %q gives %v", s, f)
	}
	st := &dataset.Structure{Format: s}
	if st.DataFormat() != f {
		c.Fatalf("structure of format %q has format %v, want %v", s, st.DataFormat(), f)
	}
	if utf8.ValidString(s) {
		doc, _ := json.Marshal(s)
		keep := all[vt.N(c.T, 0, len(all)-1, "previous")]
		got := keep
		err := json.Unmarshal(doc, &got)
		if ok != (err == nil) || ok && got != f {
			c.Fatalf("format %s decoded: %v, %v", doc, got, err)
		}
		if !ok && got != keep {
			c.Fatalf("refused format %s changed the format from %v to %v", doc, keep, got)
		}
	}
	cf, err := compression.ParseFormat(s)
	if isComp(s) != (err == nil) {
		c.Fatalf("compression format %q parsed: %v, %v", s, cf, err)
	}
	if err != nil && cf != compression.FmtNone {
		c.Fatalf("refused compression format %q gives %q", s, cf)
	}
	// values that are not text
	var g dataset.DataFormat
	doc := []string{"1", "{}", "[]", "true", `["csv"]`, `{"f":"csv"}`}[vt.N(c.T, 0, 5, "doc")]
	if err := json.Unmarshal([]byte(doc), &g); err == nil {
		c.Fatalf("format %s decoded as %v", doc, g)
	}
}

func filenames(c *vt.C) {
	f := all[vt.N(c.T, 0, len(all)-1, "format")]
	comp := []string{"", "", "gzip", "gz", "zst", "zstd"}[vt.N(c.T, 0, 5, "comp")]
	name := names[f]
	if f == dataset.NDJSONDataFormat && vt.Bool(c.T, "jsonl") {
		name = "jsonl"
	}
	st := &dataset.Structure{Format: name, Compression: comp}
	c.NonTrivial(name, comp)
	want := compression.FmtNone
	if comp != "" {
		want, _ = compression.ParseFormat(comp)
	}
	try := func(p string) {
		gf, gc, err := detect.FormatFromFilename(p)
		if err != nil || gf != f || gc != want {
			c.Fatalf("structure {%s %s} has file %q, recognised as %v %q, %v", name, comp, p, gf, gc, err)
		}
	}
	body := st.BodyFilename()
	if !strings.HasPrefix(body, "body") || filepath.Base(body) != body {
		c.Fatalf("body file name %q", body)
	}
	try(body)
	// the extensions are appended to any name, whatever it already looks like
	base := vt.Str(c.T, vt.StrOpts{})
	if vt.Bool(c.T, "known") {
		base = []string{"a.csv", "a.csv.gz", "a.gz", "dir.csv/b", ".", "..", "a.", "x.json", "/a/b", ""}[vt.N(c.T, 0, 9, "base")]
	}
	full := st.AddFileFormatExtensions(base)
	if !strings.HasPrefix(full, base) {
		c.Fatalf("extensions added to %q give %q", base, full)
	}
	try(full)
	c.Sample(full)
	if !reflect.DeepEqual(st, &dataset.Structure{Format: name, Compression: comp}) {
		c.Fatalf("naming the file changed the structure: %v", st)
	}
	// a name with no such extension is refused, with or without compression
	bad := "body." + []string{"csvx", "txt", "JSON", "c", "body", "xls", "html"}[vt.N(c.T, 0, 6, "badExt")]
	if vt.Bool(c.T, "noExt") {
		bad = "body"
	}
	if comp != "" {
		bad += "." + comp
	}
	if gf, gc, err := detect.FormatFromFilename(bad); err == nil || gf != dataset.UnknownDataFormat {
		c.Fatalf("file %q recognised as %v %q, %v", bad, gf, gc, err)
	}
}

func wrong(c *vt.C, str bool) interface{} {
	l := []interface{}{1.0, 0, int64(3), []interface{}{}, map[string]interface{}{}, []byte("x"), 'x'}
	if str { // wanted: text
		l = append(l, true, false)
	} else {
		l = append(l, "true", "", "x")
	}
	return l[vt.N(c.T, 0, len(l)-1, "wrong")]
}

func separator(c *vt.C) rune {
	if vt.Bool(c.T, "usual") {
		return []rune{',', '\t', ';', '|', ' ', ':', '\x01', '.', 'a', '0'}[vt.N(c.T, 0, 9, "sep")]
	}
	for {
		r := rune(vt.N(c.T, 1, 0x10FFFF, "rune"))
		if vt.Bool(c.T, "low") {
			r = rune(vt.N(c.T, 1, 0x17F, "lowRune"))
		}
		if utf8.ValidRune(r) && r != utf8.RuneError {
			return r
		}
	}
}

func csvOptions(c *vt.C) {
	m := map[string]interface{}{}
	want := dataset.CSVOptions{}
	flag := func(key string, p *bool) {
		switch vt.N(c.T, 0, 4, key) {
		case 0:
			m[key] = nil
		case 1:
		case 2:
			m[key] = false
		default:
			m[key] = true
			*p = true
		}
	}
	flag("headerRow", &want.HeaderRow)
	flag("lazyQuotes", &want.LazyQuotes)
	flag("variadicFields", &want.VariadicFields)
	switch vt.N(c.T, 0, 4, "separator") {
	case 0:
		m["separator"] = nil
	case 1:
	default:
		want.Separator = separator(c)
		m["separator"] = string(want.Separator)
	}
	if vt.Chance(c.T, 4, "unknown") {
		m[[]string{"HeaderRow", "sheetName", "x", ""}[vt.N(c.T, 0, 3, "key")]] = vt.Value(c.T, vt.ValOpts{Depth: 1})
	}
	bad := ""
	if vt.Chance(c.T, 3, "bad") {
		bad = []string{"headerRow", "lazyQuotes", "variadicFields", "separator"}[vt.N(c.T, 0, 3, "badKey")]
		if bad != "separator" {
			m[bad] = wrong(c, false)
		} else if vt.Bool(c.T, "text") {
			m[bad] = []string{"", ",,", "ab", "é,", "\xff", "\xc3", "\t\t"}[vt.N(c.T, 0, 6, "badSep")]
		} else {
			m[bad] = wrong(c, true)
		}
	}
	if len(m) > 0 {
		c.NonTrivial(vt.Show(m))
	}
	c.Sample(vt.Show(m))
	before := vt.Show(m)
	got, err := dataset.NewCSVOptions(m)
	cfg, cerr := dataset.ParseFormatConfigMap(dataset.CSVDataFormat, m)
	if vt.Show(m) != before {
		c.Fatalf("reading options %s changed them: %s", before, vt.Show(m))
	}
	if bad != "" {
		c.Label("refused")
		if err == nil || cerr == nil {
			c.Fatalf("options %s with bad %s accepted: %v %v", vt.Show(m), bad, got, cfg)
		}
		return
	}
	if err != nil || cerr != nil {
		c.Fatalf("options %s refused: %v %v", vt.Show(m), err, cerr)
	}
	if *got != want {
		c.Fatalf("options %s read as %+v, want %+v", vt.Show(m), *got, want)
	}
	if p, ok := cfg.(*dataset.CSVOptions); !ok || *p != want || cfg.Format() != dataset.CSVDataFormat {
		c.Fatalf("configuration %s read as %v", vt.Show(m), cfg)
	}
	// back to a map, and through JSON as it is stored
	mm := got.Map()
	again, err := dataset.NewCSVOptions(mm)
	if err != nil || *again != want {
		c.Fatalf("options %+v as map %s read back: %v, %v", want, vt.Show(mm), again, err)
	}
	doc, err := json.Marshal(mm)
	if err != nil {
		c.Fatalf("encoding %s: %v", vt.Show(mm), err)
	}
	var jm map[string]interface{}
	if err := json.Unmarshal(doc, &jm); err != nil {
		c.Fatalf("decoding %s: %v", doc, err)
	}
	if again, err = dataset.NewCSVOptions(jm); err != nil || *again != want {
		c.Fatalf("options %+v stored as %s read back: %v, %v", want, doc, again, err)
	}
	// the map belongs to the caller
	for k := range mm {
		delete(mm, k)
	}
	if *got != want || !reflect.DeepEqual(got.Map(), again.Map()) {
		c.Fatalf("options %+v after emptying their map: %+v", want, *got)
	}
	if p, err := dataset.NewCSVOptions(nil); err != nil || *p != (dataset.CSVOptions{}) {
		c.Fatalf("options of no map: %v, %v", p, err)
	}
}

func otherOptions(c *vt.C) {
	if vt.Bool(c.T, "json") {
		var m map[string]interface{}
		if !vt.Chance(c.T, 10, "nil") {
			m = vt.Object(c.T, vt.ValOpts{Depth: 2, Width: 3}, 4)
			if vt.Bool(c.T, "pretty") {
				m["pretty"] = vt.Bool(c.T, "prettyOn")
			}
		}
		if len(m) > 0 {
			c.NonTrivial(vt.Show(m))
		}
		want := map[string]interface{}{}
		if m != nil {
			want = vt.Clone(m).(map[string]interface{})
		}
		cfg, err := dataset.ParseFormatConfigMap(dataset.JSONDataFormat, m)
		if err != nil {
			c.Fatalf("JSON options %s: %v", vt.Show(m), err)
		}
		if cfg.Format() != dataset.JSONDataFormat || !reflect.DeepEqual(cfg.Map(), want) {
			c.Fatalf("JSON options %s: %v %s", vt.Show(want), cfg.Format(), vt.Show(cfg.Map()))
		}
		again, err := dataset.NewJSONOptions(cfg.Map())
		if err != nil || !reflect.DeepEqual(again.Map(), want) {
			c.Fatalf("JSON options %s read back: %v, %v", vt.Show(want), again, err)
		}
		for _, f := range []dataset.DataFormat{dataset.UnknownDataFormat, dataset.CBORDataFormat, dataset.XMLDataFormat, dataset.DataFormat(99)} {
			if cfg, err := dataset.ParseFormatConfigMap(f, m); err == nil {
				c.Fatalf("options for format %q: %v", f, cfg)
			}
		}
		return
	}
	m := map[string]interface{}{}
	name := ""
	bad := false
	switch vt.N(c.T, 0, 4, "sheet") {
	case 0:
		m["sheetName"] = nil
	case 1:
		bad = true
		m["sheetName"] = wrong(c, true)
	case 2:
	default:
		name = vt.Str(c.T, vt.StrOpts{})
		m["sheetName"] = name
	}
	if vt.Chance(c.T, 4, "unknown") {
		m[[]string{"SheetName", "headerRow", "x"}[vt.N(c.T, 0, 2, "key")]] = vt.Value(c.T, vt.ValOpts{Depth: 1})
	}
	if len(m) > 0 {
		c.NonTrivial(vt.Show(m))
	}
	cfg, err := dataset.ParseFormatConfigMap(dataset.XLSXDataFormat, m)
	if bad {
		if err == nil {
			c.Fatalf("XLSX options %s accepted: %v", vt.Show(m), cfg)
		}
		return
	}
	if err != nil {
		c.Fatalf("XLSX options %s: %v", vt.Show(m), err)
	}
	o, ok := cfg.(*dataset.XLSXOptions)
	if !ok || o.SheetName != name || cfg.Format() != dataset.XLSXDataFormat {
		c.Fatalf("XLSX options %s: %v", vt.Show(m), cfg)
	}
	again, err := dataset.NewXLSXOptions(cfg.Map())
	if err != nil || !reflect.DeepEqual(again, cfg) {
		c.Fatalf("XLSX options %s as map %s read back: %v, %v", vt.Show(m), vt.Show(cfg.Map()), again, err)
	}
}

func kinds(c *vt.C) {
	std := []dataset.Kind{dataset.KindDataset, dataset.KindBody, dataset.KindMeta, dataset.KindStructure, dataset.KindTransform, dataset.KindCommit, dataset.KindViz, dataset.KindReadme, dataset.KindStats}
	var s string
	switch vt.N(c.T, 0, 5, "how") {
	case 0:
		s = std[vt.N(c.T, 0, len(std)-1, "std")].String()
	case 1:
		s = vt.Str(c.T, vt.StrOpts{Simple: true})
	case 2:
		s = []string{"", ":", "ds", "ds:", ":0", "d:0", "dsx:0", "ds0:", "abcd", "ds-0", "::::", "ds::", "ds:0:1"}[vt.N(c.T, 0, 12, "edge")]
	default:
		s = string(rune('a'+vt.N(c.T, 0, 25, "a"))) + string(rune('a'+vt.N(c.T, 0, 25, "b"))) + ":" + vt.Str(c.T, vt.StrOpts{Simple: true, NonEmpty: true})
	}
	k := dataset.Kind(s)
	ok := len(s) >= 4 && s[2] == ':'
	c.Labelf("valid %v", ok)
	if s != "" {
		c.NonTrivial(s)
	}
	if err := k.Valid(); ok != (err == nil) {
		c.Fatalf("kind %q: %v", s, err)
	}
	if k.String() != s {
		c.Fatalf("kind %q is written %q", s, k.String())
	}
	if utf8.ValidString(s) {
		doc, err := json.Marshal(k)
		if err != nil {
			c.Fatalf("encoding kind %q: %v", s, err)
		}
		var got dataset.Kind
		if err := json.Unmarshal(doc, &got); ok != (err == nil) || ok && got != k {
			c.Fatalf("kind %s decoded: %q, %v", doc, got, err)
		}
	}
	var got dataset.Kind
	doc := []string{"1", "{}", "[]", "true", `["ds:0"]`, "null"}[vt.N(c.T, 0, 5, "doc")]
	if err := json.Unmarshal([]byte(doc), &got); err == nil && doc != "null" {
		c.Fatalf("kind %s decoded as %q", doc, got)
	}
	if !ok {
		return
	}
	if k.Type()+":"+k.Version() != s || len(k.Type()) != 2 {
		c.Fatalf("kind %q splits into %q and %q", s, k.Type(), k.Version())
	}
	str := vt.Str(c.T, vt.StrOpts{})
	if p := dataset.ComponentTypePrefix(k, str); p != s[:3]+str {
		c.Fatalf("prefix of kind %q on %q: %q", s, str, p)
	}
	seen := map[string]bool{}
	for _, k := range std {
		if k.Valid() != nil || k.Version() != dataset.CurrentSpecVersion || seen[k.Type()] {
			c.Fatalf("kind %q: %v", k, k.Valid())
		}
		seen[k.Type()] = true
	}
}
