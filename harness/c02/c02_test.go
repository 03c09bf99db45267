package c02

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = JSON text rendered from a generated document with random whitespace, escapes, number notation, delivered in random chunks through a random buffer size, valid or with one structural mutation; non-trivial = document of more than 20 bytes; distinct by text")
}

func TestC02(t *testing.T) {
	vt.Check(t, "valid", 90000, 2000000, func(c *vt.C) { valid(c, vt.ValOpts{Depth: 3, Str: vt.StrOpts{Big: 5000}}, 8) })
	vt.Check(t, "validbig", 2400, 30000, func(c *vt.C) { valid(c, vt.ValOpts{Depth: 1, Str: vt.StrOpts{Big: 300000}}, 4) })
	vt.Check(t, "bytes", 9000, 200000, byteEscapes)
	vt.Check(t, "malformed", 90000, 2000000, malformed)
	vt.Check(t, "wrongtop", 1500, 20000, wrongTop)
	vt.Check(t, "many", 300, 3000, many)
}

// many: however many containers a document has, only how deep they nest is limited.
func many(c *vt.C) {
	n := vt.N(c.T, 9990, 12000, "containers")
	if vt.Bool(c.T, "anyCount") {
		n = dx.ManyCount(c, 110000)
	}
	unit := vt.One(c.T, "unit", "7", `"x"`, "null", "[]", "{}", "[[]]", `{"a":[]}`, `[{"a":1},[2]]`)
	keyed := vt.Bool(c.T, "object")
	inner := vt.Bool(c.T, "inner")
	var b strings.Builder
	open := func(keyed bool) { b.WriteString(map[bool]string{true: "{", false: "["}[keyed]) }
	end := func(keyed bool) { b.WriteString(map[bool]string{true: "}", false: "]"}[keyed]) }
	open(keyed)
	in := vt.Bool(c.T, "innerObject")
	if inner {
		if keyed {
			b.WriteString(`"k":`)
		}
		open(in)
	} else {
		in = keyed
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		if in {
			fmt.Fprintf(&b, `"k%d":`, i)
		}
		b.WriteString(unit)
	}
	if inner {
		end(in)
	}
	end(keyed)
	text := b.String()
	got, err := read(c, tltOf(keyed), []byte(text))
	if err != nil {
		c.Fatalf("%d times %s, keyed %v, inner %v: %v", n, unit, keyed, inner, err)
	}
	want := n
	if inner {
		want = 1
	}
	if len(got) != want {
		c.Fatalf("%d times %s, keyed %v, inner %v: %d entries, want %d", n, unit, keyed, inner, len(got), want)
	}
	all, err := jx.Parse([]byte(text))
	if err != nil {
		c.Fatalf("%v", err)
	}
	if d := dx.DiffEntries(all.Entries, got, keyed, !keyed, vt.CmpOpts{IntKind: true}); d != "" {
		c.Fatalf("%d times %s, keyed %v, inner %v: %s", n, unit, keyed, inner, vt.Trunc(d, 300))
	}
	c.NonTrivial(n, unit, keyed, inner, in)
	c.Sample("%d times %s, keyed %v, inner %v", n, unit, keyed, inner)
}

func document(c *vt.C, o vt.ValOpts, max int) (bool, []string) {
	keyed := vt.Bool(c.T, "object")
	ents := dx.Entries(c, keyed, max, o)
	var toks []string
	if keyed {
		toks = append(toks, "{")
	} else {
		toks = append(toks, "[")
	}
	for i, e := range ents {
		if i > 0 {
			toks = append(toks, ",")
		}
		if keyed {
			toks = append(toks, jx.StringText(c.T, e.Key), ":")
		}
		toks = append(toks, jx.Tokens(c.T, e.Value)...)
	}
	if keyed {
		toks = append(toks, "}")
	} else {
		toks = append(toks, "]")
	}
	return keyed, toks
}

func tltOf(keyed bool) string {
	if keyed {
		return "object"
	}
	return "array"
}

func read(c *vt.C, tlt string, data []byte) ([]dsio.Entry, error) {
	src := vt.Chunks(c, data)
	st := dx.Noise(c, dx.St("json", tlt, ""))
	var r dsio.EntryReader
	var err error
	if vt.Bool(c.T, "sized") {
		sizes := []int{16, 17, 31, 64, 100, 1000, 4095, 4096, 4097, 8192, 262144}
		lo := 0
		if len(data) > 15000 {
			lo = 7
		}
		r, err = dsio.NewJSONReaderSize(st, src, sizes[vt.N(c.T, lo, len(sizes)-1, "size")])
	} else {
		r, err = dsio.NewEntryReader(st, src)
	}
	if err != nil {
		c.Fatalf("new reader: %v", err)
	}
	ents, err := dx.Drain(r, len(data)+2)
	if cerr := r.Close(); cerr != nil && err == nil {
		c.Fatalf("close: %v", cerr)
	}
	return ents, err
}

func valid(c *vt.C, o vt.ValOpts, max int) {
	keyed, toks := document(c, o, max)
	ws := 0
	if o.Str.Big > 100000 || vt.Chance(c.T, 30, "bigWS") {
		ws = len(vt.BigStr(c.T, o.Str.Big))
	}
	data := jx.Join(c.T, toks, ws, false)
	if vt.Chance(c.T, 8, "trail") {
		data = append(data, "\n \n"...)
	}
	check(c, keyed, data)
}

func check(c *vt.C, keyed bool, data []byte) {
	want, err := jx.Parse(data)
	if err != nil {
		c.Fatalf("vt: generated text is not JSON: %v: %s", err, vt.Trunc(string(data), 300))
	}
	if len(data) > 20 {
		c.NonTrivial(data)
	}
	c.Label(tltOf(keyed))
	if len(data) > 262144 {
		c.Label("text>262144")
	}
	c.Sample("%s", data)
	got, err := read(c, tltOf(keyed), data)
	if err != nil {
		c.Fatalf("reading well-formed text: %v\ntext: %s", err, vt.Trunc(string(data), 400))
	}
	if d := dx.DiffEntries(want.Entries, got, keyed, !keyed, vt.CmpOpts{IntKind: true}); d != "" {
		c.Fatalf("%s\ntext: %s", d, vt.Trunc(string(data), 400))
	}
}

var junk = []string{",", ":", "[", "]", "{", "}", "tru", "nul", "fals", "True", "nulL", "truee", "undefined", "x", "@", "'a'", "--1", "1e", "1.2.3", "+1", ".5", "NaN", "\"a\"", "1", "null", "=", ";", "//", "\"open", "\"open\\\"", "\f", "\v", "\x00", "\u00a0", "\ufeff", "\x85", "\x1f"}

// malformed applies structural mutations; whether the result is still a document up to
// its closing bracket is decided by encoding/json.
func malformed(c *vt.C) {
	keyed, toks := document(c, vt.ValOpts{Depth: 3, Str: vt.StrOpts{}}, 5)
	muts := vt.N(c.T, 1, 2, "muts")
	for m := 0; m < muts && len(toks) > 1; m++ {
		i := vt.N(c.T, 1, len(toks)-1, "at") // the opening bracket stays
		switch vt.N(c.T, 0, 4, "mut") {
		case 0:
			toks = append(append([]string{}, toks[:i]...), toks[i+1:]...)
		case 1:
			toks = append(append([]string{}, toks[:i]...), append([]string{toks[i]}, toks[i:]...)...)
		case 2:
			toks = append(append([]string{}, toks[:i]...), append([]string{junk[vt.N(c.T, 0, len(junk)-1, "junk")]}, toks[i:]...)...)
		case 3:
			toks = append([]string{}, toks...)
			toks[i] = junk[vt.N(c.T, 0, len(junk)-1, "junk")]
		case 4:
			toks = toks[:i]
		}
	}
	// plain spaces only: line feeds inside strings are tolerated by design
	data := []byte(strings.Join(toks, " "))
	if vt.Chance(c.T, 5, "cut") {
		data = data[:vt.N(c.T, 1, len(data), "cutAt")]
	}
	var raw json.RawMessage
	if err := json.NewDecoder(bytes.NewReader(data)).Decode(&raw); err == nil {
		c.Label("mutant still well formed")
		want, err := jx.Parse(raw)
		if err != nil {
			return
		}
		got, rerr := read(c, tltOf(keyed), data)
		if rerr != nil {
			c.Fatalf("reading well-formed text: %v\ntext: %s", rerr, data)
		}
		if d := dx.DiffEntries(want.Entries, got, keyed, !keyed, vt.CmpOpts{IntKind: true}); d != "" {
			c.Fatalf("%s\ntext: %s", d, data)
		}
		return
	}
	c.Label("malformed")
	if len(data) > 20 {
		c.NonTrivial(data)
	}
	c.Sample("%s", data)
	got, err := read(c, tltOf(keyed), data)
	if err == nil || err == io.EOF {
		if trailingSeparator(toks, got) {
			c.Label("known finding: trailing separator")
			return
		}
		c.Fatalf("malformed text read to a clean end: %s", vt.Trunc(string(data), 400))
	}
}

// wrongTop: the top level must be the one of the schema.
func wrongTop(c *vt.C) {
	keyed, toks := document(c, vt.ValOpts{Depth: 1}, 4)
	data := jx.Join(c.T, toks, 0, false)
	if vt.Chance(c.T, 4, "scalarTop") {
		data = jx.Join(c.T, jx.Tokens(c.T, vt.Scalar(c.T, vt.ValOpts{})), 0, false)
	}
	c.NonTrivial(data)
	c.Sample("%s as %s", data, tltOf(!keyed))
	if _, err := read(c, tltOf(!keyed), data); err == nil {
		c.Fatalf("text %s read as %s to a clean end", vt.Trunc(string(data), 300), tltOf(!keyed))
	}
}

// trailingSeparator recognises the known finding: the only thing wrong with the document
// is a separator before the closing bracket of the top-level array, read as null.
func trailingSeparator(toks []string, got []dsio.Entry) bool {
	depth := 0
	for i, tok := range toks {
		switch tok {
		case "[", "{":
			depth++
		case "]", "}":
			depth--
		}
		if depth == 1 && tok == "," && toks[0] == "[" && i+1 < len(toks) && toks[i+1] == "]" {
			fixed := strings.Join(toks[:i+1], " ") + " null ]"
			want, err := jx.Parse([]byte(fixed))
			return err == nil && dx.DiffEntries(want.Entries, got, false, true, vt.CmpOpts{IntKind: true}) == ""
		}
	}
	return false
}

// byteEscapes reads the \xHH escapes that some applications write.
func byteEscapes(c *vt.C) {
	keyed := vt.Bool(c.T, "object")
	b := &bytes.Buffer{}
	b.WriteString(map[bool]string{false: "[", true: "{"}[keyed])
	str := func(i int) string {
		var want []byte
		b.WriteByte('"')
		if keyed { // keys must differ
			fmt.Fprintf(b, "%d:", i)
			want = append(want, fmt.Sprintf("%d:", i)...)
		}
		for j, n := 0, vt.N(c.T, 0, 6, "pieces"); j < n; j++ {
			switch x := vt.N(c.T, 0, 255, "byte"); vt.N(c.T, 0, 4, "piece") {
			case 0:
				fmt.Fprintf(b, "\\x%02x", x)
				want = append(want, byte(x))
			case 1:
				fmt.Fprintf(b, "\\x%02X", x)
				want = append(want, byte(x))
			case 2:
				s := vt.Str(c.T, vt.StrOpts{Simple: true, Max: 20})
				b.WriteString(strings.Trim(jx.StringText(c.T, s), `"`))
				want = append(want, s...)
			case 3:
				b.WriteString(`\\x41`) // a backslash and text
				want = append(want, `\x41`...)
			default:
				b.WriteString(strings.Repeat("a", x*x/8))
				want = append(want, strings.Repeat("a", x*x/8)...)
			}
		}
		b.WriteByte('"')
		return string(want)
	}
	var want []dsio.Entry
	for i, n := 0, vt.N(c.T, 1, 4, "entries"); i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		e := dsio.Entry{Index: i}
		if keyed {
			e = dsio.Entry{Key: str(i)}
			b.WriteByte(':')
		}
		e.Value = str(i)
		want = append(want, e)
	}
	b.WriteString(map[bool]string{false: "]", true: "}"}[keyed])
	got, err := read(c, tltOf(keyed), b.Bytes())
	if err != nil {
		c.Fatalf("%v in %q", err, b)
	}
	if d := dx.DiffEntries(want, got, keyed, !keyed, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s\n%q", d, b)
	}
	if bytes.Contains(b.Bytes(), []byte(`\x`)) {
		c.NonTrivial(b.Bytes())
	}
}
