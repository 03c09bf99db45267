package c05

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = sequence of JSON values written and read back, or rendered line by line with LF/CRLF, optional last newline, random escapes/spacing and chunking, or with one malformed line; non-trivial = at least two lines; distinct by text")
}

func TestC05(t *testing.T) {
	vt.Check(t, "roundtrip", 40000, 1000000, func(c *vt.C) { roundTrip(c, vt.ValOpts{Depth: 3, Str: vt.StrOpts{Big: 9000}}, 10) })
	vt.Check(t, "text", 40000, 1000000, func(c *vt.C) { text(c, vt.ValOpts{Depth: 3, Str: vt.StrOpts{Big: 5000}}, 8) })
	vt.Check(t, "many", 300, 4000, func(c *vt.C) { roundTrip(c, vt.ValOpts{}, -110000) })
	vt.Check(t, "big", 900, 20000, func(c *vt.C) { text(c, vt.ValOpts{Depth: 1, Str: vt.StrOpts{Big: 300000}}, 4) })
	vt.Check(t, "badline", 20000, 400000, badLine)
}

func roundTrip(c *vt.C, o vt.ValOpts, max int) {
	st := dx.Noise(c, dx.St("ndjson", "array", dx.Comp(c.T)))
	ents := dx.Entries(c, false, max, o)
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	plain := data
	if st.Compression != "" {
		r, err := compression.Decompressor(st.Compression, bytes.NewReader(data))
		if err != nil {
			c.Fatalf("decompressor: %v", err)
		}
		plain, err = io.ReadAll(r)
		if err != nil {
			c.Fatalf("decompressing: %v", err)
		}
		r.Close()
	}
	if len(ents) > 1 {
		c.NonTrivial(data)
	}
	c.Sample("%s", plain)
	lines := strings.SplitAfter(string(plain), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	if len(lines) != len(ents) {
		c.Fatalf("%d entries written as %d lines: %q", len(ents), len(lines), vt.Trunc(string(plain), 300))
	}
	for i, l := range lines {
		if !strings.HasSuffix(l, "\n") {
			c.Fatalf("line %d is not terminated", i)
		}
		v, err := jx.Value([]byte(l))
		if err != nil {
			c.Fatalf("line %d is not JSON: %v: %s", i, err, vt.Trunc(l, 200))
		}
		if d := vt.Diff(ents[i].Value, v, vt.CmpOpts{}); d != "" {
			c.Fatalf("line %d: %s", i, d)
		}
	}
	got, err := dx.Read(st, vt.Chunks(c, data), len(ents)+1)
	if err != nil {
		c.Fatalf("reading back: %v", err)
	}
	if d := dx.DiffEntries(ents, got, false, true, vt.CmpOpts{}); d != "" {
		c.Fatalf("round trip: %s\nbody %s", d, vt.Trunc(string(plain), 300))
	}
}

// lines renders values as single-line JSON texts.
func lines(c *vt.C, o vt.ValOpts, max int) ([]dsio.Entry, []string) {
	ents := dx.Entries(c, false, max, o)
	var out []string
	sp := vt.One(c.T, "sp", "", " ", "\t")
	for i := range ents {
		l := strings.Join(jx.Tokens(c.T, ents[i].Value), sp)
		v, err := jx.Value([]byte(l))
		if err != nil {
			c.Fatalf("vt: %v", err)
		}
		ents[i].Value = v
		out = append(out, l)
	}
	return ents, out
}

func text(c *vt.C, o vt.ValOpts, max int) {
	ents, ls := lines(c, o, max)
	if o.Str.Big > 100000 && len(ents) > 0 {
		i := vt.N(c.T, 0, len(ents)-1, "bigAt")
		s := vt.BigStr(c.T, o.Str.Big)
		ents[i].Value, ls[i] = s, jx.StringText(c.T, s)
	}
	var b strings.Builder
	end := vt.N(c.T, 0, 2, "eol")
	for i, l := range ls {
		b.WriteString(l)
		if i == len(ls)-1 && vt.Bool(c.T, "noLastEOL") {
			c.Label("no newline after last line")
			break
		}
		if end == 1 || (end == 2 && i%2 == 0) {
			b.WriteString("\r")
		}
		b.WriteString("\n")
	}
	if len(ls) > 1 {
		c.NonTrivial(b.String())
	}
	c.Sample("%q", b.String())
	got, err := dx.Read(dx.Noise(c, dx.St("ndjson", "array", "")), vt.Chunks(c, []byte(b.String())), len(ents)+1)
	if err != nil {
		c.Fatalf("reading: %v\ntext %q", err, vt.Trunc(b.String(), 300))
	}
	if d := dx.DiffEntries(ents, got, false, true, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s\ntext %q", d, vt.Trunc(b.String(), 300))
	}
}

var bad = []string{"{", "[1,2", "tru", "nul", "'a'", `"open`, "1 2", "{} {}", "[1],", "1,", "{a:1}", `{"a" 1}`, "[1 2]", "]", ":", "undefined", "--1", `"a""b"`, "null null", "[]]", "", "  ", "\t", "\r"}

func badLine(c *vt.C) {
	ents, ls := lines(c, vt.ValOpts{Depth: 2}, 6)
	i := vt.N(c.T, 0, len(ls), "badAt")
	broken := bad[vt.N(c.T, 0, len(bad)-1, "bad")]
	if len(ls) > 0 && vt.Chance(c.T, 3, "blemish") { // a good line with a byte too many
		broken = ls[vt.N(c.T, 0, len(ls)-1, "like")]
		x := []byte{byte(vt.N(c.T, 0, 255, "byte"))}
		if x[0] == '\n' {
			x[0] = 0
		}
		if vt.Bool(c.T, "front") {
			broken = string(x) + broken
		} else {
			broken += string(x)
		}
		if json.Valid([]byte(broken)) {
			return
		}
	}
	ls = append(append(append([]string{}, ls[:i]...), broken), ls[i:]...)
	txt := strings.Join(ls, "\n")
	if vt.Bool(c.T, "lastEOL") || broken == "" { // no text after the last line end is no line
		txt += "\n"
	}
	c.NonTrivial(txt)
	c.Sample("%q", txt)
	got, err := dx.Read(dx.Noise(c, dx.St("ndjson", "array", "")), vt.Chunks(c, []byte(txt)), len(ls)+1)
	if err == nil {
		c.Fatalf("malformed line %d read to a clean end: %q", i, txt)
	}
	if len(got) > i {
		c.Fatalf("entries returned for or after the malformed line %d of %q", i, txt)
	}
	if d := dx.DiffEntries(ents[:len(got)], got, false, true, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s", d)
	}
}
