package c07

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = byte string rich in CR/LF pushed through the normaliser with random caller buffers and source chunks, or a CSV text with random line-end styles (also inside quoted fields) compared with its LF form, or a counted stream; non-trivial = at least one CR and two other bytes; distinct by input and read plan")
}

func TestC07(t *testing.T) {
	vt.Check(t, "normalise", 80000, 2000000, normalise)
	vt.Check(t, "normaliseBig", 1500, 30000, normaliseBig)
	vt.Check(t, "normaliseHuge", 60, 900, normaliseHuge)
	vt.Check(t, "csv", 40000, 1000000, csvText)
	vt.Check(t, "csvBig", 300, 6000, csvBig)
	vt.Check(t, "tracked", 20000, 400000, tracked)
}

// model inserts a line feed after every carriage return that lacks one.
func model(in []byte) []byte {
	var out []byte
	for i, b := range in {
		out = append(out, b)
		if b == '\r' && (i+1 == len(in) || in[i+1] != '\n') {
			out = append(out, '\n')
		}
	}
	return out
}

// pull reads everything with the given caller buffer sizes.
func pull(c *vt.C, r io.Reader, sizes []int, limit int) []byte {
	var out []byte
	idle := 0
	for i := 0; ; i++ {
		p := make([]byte, sizes[i%len(sizes)]+4)
		for j := range p {
			p[j] = 0xEE
		}
		q := p[:len(p)-4]
		n, err := r.Read(q)
		if n < 0 || n > len(q) {
			c.Fatalf("Read of %d bytes returned %d", len(q), n)
		}
		if !bytes.Equal(p[len(q):], []byte{0xEE, 0xEE, 0xEE, 0xEE}) {
			c.Fatalf("Read wrote beyond the caller's buffer")
		}
		out = append(out, q[:n]...)
		if err == io.EOF {
			return out
		}
		if err != nil {
			c.Fatalf("unexpected error %v", err)
		}
		if n == 0 && len(q) > 0 {
			idle++
			if idle > 200 {
				c.Fatalf("no progress")
			}
		}
		if len(out) > limit {
			c.Fatalf("more output (%d) than the input can give", len(out))
		}
	}
}

func sizes(c *vt.C) []int {
	var out []int
	for i := vt.N(c.T, 1, 4, "nsizes"); i > 0; i-- {
		out = append(out, vt.N(c.T, 1, 12, "size"))
	}
	if vt.Chance(c.T, 5, "large") {
		out = append(out, 5000)
	}
	if vt.Chance(c.T, 8, "zero") {
		out = append(out, 0)
	}
	return out
}

func newReader(c *vt.C, src io.Reader) io.Reader {
	if vt.Bool(c.T, "withSize") {
		return replacecr.ReaderWithSize(src, vt.N(c.T, 1, 64, "bufSize"))
	}
	return replacecr.Reader(src)
}

func compare(c *vt.C, in, got []byte) {
	want := model(in)
	if !bytes.Equal(want, got) {
		i := 0
		for i < len(want) && i < len(got) && want[i] == got[i] {
			i++
		}
		c.Fatalf("input %q\nwant  %q\ngot   %q\nfirst difference at %d of %d/%d", vt.Trunc(string(in), 200), vt.Trunc(string(want), 200), vt.Trunc(string(got), 200), i, len(want), len(got))
	}
}

func normalise(c *vt.C) {
	n := vt.N(c.T, 0, 40, "len")
	in := make([]byte, n)
	for i := range in {
		in[i] = []byte{'\r', '\n', 'a', ',', '"', 0, 0xff, '\r'}[vt.N(c.T, 0, 7, "b")]
	}
	sz := sizes(c)
	if bytes.IndexByte(in, '\r') >= 0 && len(in) > 2 {
		c.NonTrivial(in, sz)
	}
	c.Sample("input %q, caller buffers %v", in, sz)
	compare(c, in, pull(c, newReader(c, vt.Chunks(c, in)), sz, 2*len(in)+2))
}

// normaliseBig crosses the usual buffer boundaries.
func normaliseBig(c *vt.C) {
	at := []int{512, 1024, 2048, 4096, 8192, 32768, 65536, 262144}[vt.N(c.T, 0, 7, "boundary")]
	n := at + vt.N(c.T, -3, 3, "adj") + vt.N(c.T, 0, 2, "more")*at
	in := bytes.Repeat([]byte{'x'}, n)
	for _, p := range []int{at - 2, at - 1, at, at + 1, n - 2, n - 1, 2*at - 1, 2 * at} {
		if p >= 0 && p < n {
			in[p] = []byte{'\r', '\n', 'y', '\r'}[vt.N(c.T, 0, 3, "edge")]
		}
	}
	var r io.Reader
	src := vt.Chunks(c, in)
	if vt.Bool(c.T, "withSize") {
		r = replacecr.ReaderWithSize(src, at)
	} else {
		r = replacecr.Reader(src)
	}
	sz := []int{at}
	if vt.Bool(c.T, "other") {
		sz = []int{at - 1, 1, at + 1}
	}
	c.NonTrivial(in, sz)
	compare(c, in, pull(c, r, sz, 2*n))
}

// normaliseHuge: input of megabytes, with line ends everywhere.
func normaliseHuge(c *vt.C) {
	n := vt.N(c.T, 1<<18, 3<<20, "len")
	every := vt.N(c.T, 1, 300, "every")
	x := uint32(vt.N(c.T, 1, 1<<30, "seed"))
	in := make([]byte, n)
	for i := range in {
		in[i] = 'a' + byte(i%26)
		if x = x*1664525 + 1013904223; x>>8%uint32(every) == 0 {
			in[i] = "\r\n\r"[x>>30%3]
		}
	}
	src := &vt.Chunked{Data: in, EOFIn: vt.Bool(c.T, "eofIn")}
	if vt.Bool(c.T, "chunked") {
		src.Plan = []int{vt.N(c.T, 100, 70000, "chunk"), vt.N(c.T, 100, 9000, "chunk2")}
	}
	var r io.Reader = replacecr.Reader(src)
	if vt.Bool(c.T, "withSize") {
		r = replacecr.ReaderWithSize(src, []int{1, 16, 512, 4096, 65536, 1 << 20, 4 << 20}[vt.N(c.T, 0, 6, "bufSize")])
	}
	sz := []int{vt.N(c.T, 500, 100000, "buf"), vt.N(c.T, 500, 5000, "buf2")}
	c.NonTrivial(n, every, x, sz)
	compare(c, in, pull(c, r, sz, 2*n))
}

var fields = []string{"a", "1", "x y", "é", "", "true", "-3.5", `"q"`, `"a,b"`, `"say ""hi"""`, "\"l\n2\"", "\"l\n\n3\"", "\"\n\"", `""`, "\"t\n\"", "日本"}

// restyle replaces each line feed by a random line end.
func restyle(c *vt.C, text string) string {
	style := vt.N(c.T, 0, 3, "style")
	var b strings.Builder
	prevCR := false
	for i := 0; i < len(text); i++ {
		if text[i] != '\n' {
			b.WriteByte(text[i])
			prevCR = false
			continue
		}
		k := style
		if style == 3 {
			k = vt.N(c.T, 0, 2, "eol")
		}
		if k == 0 && prevCR {
			k = 2
		}
		b.WriteString([]string{"\n", "\r\n", "\r"}[k])
		prevCR = k == 2
	}
	return b.String()
}

func csvText(c *vt.C) {
	cols := vt.N(c.T, 1, 4, "cols")
	var b strings.Builder
	rows := vt.N(c.T, 0, 8, "rows")
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			if j > 0 {
				b.WriteByte(',')
			}
			b.WriteString(fields[vt.N(c.T, 0, len(fields)-1, "field")])
		}
		if i == rows-1 && vt.Bool(c.T, "noLast") {
			break
		}
		b.WriteByte('\n')
		if vt.Chance(c.T, 10, "blank") {
			b.WriteByte('\n')
		}
	}
	text := b.String()
	styled := restyle(c, text)
	if strings.Contains(styled, "\r") {
		c.NonTrivial(styled)
	}
	c.Sample("%q", styled)
	checkText(c, text, styled, cols, vt.N(c.T, 1, 80, "bufSize"))
}

func checkText(c *vt.C, text, styled string, cols, size int) {
	recs, err := csv.NewReader(strings.NewReader(text)).ReadAll()
	if err != nil {
		c.Fatalf("vt: generated text is not CSV: %v: %q", err, text)
	}
	tb := &dx.Table{}
	for i := 0; i < cols; i++ {
		tb.Cols = append(tb.Cols, dx.Obj{"title": fmt.Sprint("c", i), "type": "string"})
	}
	st := dx.Noise(c, dx.St("csv", "array", ""))
	st.Schema = tb.Schema()
	if vt.Chance(c.T, 3, "header") {
		st.FormatConfig = dx.Obj{"headerRow": true}
		if len(recs) > 0 {
			recs = recs[1:]
		}
	}
	var want []dx.Arr
	for _, r := range recs {
		row := dx.Arr{}
		for _, f := range r {
			row = append(row, f)
		}
		want = append(want, row)
	}
	var r dsio.EntryReader
	if vt.Bool(c.T, "sized") {
		r, err = dsio.NewCSVReaderSize(st, vt.Chunks(c, []byte(styled)), size)
	} else {
		r, err = dsio.NewEntryReader(st, vt.Chunks(c, []byte(styled)))
	}
	if err != nil {
		c.Fatalf("new reader: %v", err)
	}
	got, err := dx.Drain(r, len(want)+1)
	if err != nil {
		c.Fatalf("%v\ntext %q", err, vt.Trunc(styled, 300))
	}
	if d := dx.DiffEntries(dx.RowEntries(want), got, false, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s\ntext %q", d, vt.Trunc(styled, 300))
	}
}

// csvBig puts line ends at every offset around the internal buffer sizes.
func csvBig(c *vt.C) {
	at := []int{4096, 8192, 65536, 262144}[vt.N(c.T, 0, 3, "boundary")]
	var b strings.Builder
	w := vt.N(c.T, 1, 9, "width")
	for b.Len() < at+64 {
		if b.Len() > at-20 {
			w = vt.N(c.T, 1, 3, "narrow")
		}
		b.WriteString(strings.Repeat("v", w))
		b.WriteByte('\n')
	}
	text := b.String()
	var styled string
	if k := vt.N(c.T, 0, 2, "style"); k < 2 {
		styled = strings.ReplaceAll(text, "\n", []string{"\r", "\r\n"}[k])
	} else {
		styled = text[:at-20]
		styled = strings.ReplaceAll(styled, "\n", "\r") + restyle(c, "z"+text[at-20:])
		text = text[:at-20] + "z" + text[at-20:]
	}
	c.NonTrivial(styled)
	checkText(c, text, styled, 1, at)
}

func tracked(c *vt.C) {
	in := vt.Bytes(c.T, 3000)
	src := vt.Chunks(c, in)
	tr := dsio.NewTrackedReader(src)
	sz := sizes(c)
	var got []byte
	if len(in) > 2 {
		c.NonTrivial(in, sz)
	}
	for i := 0; i < 100000; i++ {
		p := make([]byte, sz[i%len(sz)])
		n, err := tr.Read(p)
		got = append(got, p[:n]...)
		if tr.BytesRead() != len(got) {
			c.Fatalf("%d bytes delivered, %d reported", len(got), tr.BytesRead())
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fatalf("unexpected error %v", err)
		}
	}
	if !bytes.Equal(got, in) {
		c.Fatalf("tracked reader changed the bytes: %q, want %q", got, in)
	}
	if err := tr.Close(); err != nil || src.CloseCall != 1 {
		c.Fatalf("close: err %v, source closed %d times", err, src.CloseCall)
	}
}
