package c09

import (
	"bytes"
	stdgzip "compress/gzip"
	"fmt"
	"io"
	"runtime"
	"strings"
	"testing"

	"github.com/klauspost/compress/zstd"
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = content (random, repetitive or structured, to hundreds of KB) written in random pieces under a compression name and read in random pieces, foreign gzip/zstd streams, bodies of each format with and without compression, or an unknown name; non-trivial = more than 3 bytes of content or any name/body case; distinct by content and plan")
}

var names = map[string]bool{"gzip": true, "gz": true, "zst": false, "zstd": false} // name -> is gzip

func TestC09(t *testing.T) {
	vt.Check(t, "bytes", 15000, 300000, func(c *vt.C) { roundTrip(c, 3000) })
	vt.Check(t, "bigbytes", 500, 8000, func(c *vt.C) { roundTrip(c, vt.Pick(300000, 3000000)) })
	vt.Check(t, "foreign", 5000, 100000, foreign)
	vt.Check(t, "bodies", 10000, 200000, bodies)
	vt.Check(t, "unknown", 10000, 200000, unknown)
}

func content(c *vt.C, max int) []byte {
	n := vt.DictLen(c.T, max)
	if max > 100000 && vt.Bool(c.T, "edge") {
		n = []int{32768, 65536, 131072, 262144}[vt.N(c.T, 0, 3, "edgeAt")] + vt.N(c.T, -2, 2, "edgeAdj")
	}
	out := make([]byte, n)
	switch vt.N(c.T, 0, 3, "contentKind") {
	case 0:
		b := byte(vt.N(c.T, 0, 255, "fill"))
		for i := range out {
			out[i] = b
		}
	case 1:
		x := uint32(vt.N(c.T, 1, 1<<30, "seed"))
		for i := range out {
			x = x*1664525 + 1013904223
			out[i] = byte(x >> 24)
		}
	case 2:
		p := []byte(vt.Str(c.T, vt.StrOpts{NonEmpty: true}))
		for i := range out {
			out[i] = p[i%len(p)]
		}
	default:
		x := uint32(vt.N(c.T, 1, 1<<30, "seed"))
		for i := range out {
			if i%100 < 50 {
				out[i] = byte('a' + i%26)
			} else {
				x = x*1664525 + 1013904223
				out[i] = byte(x >> 28)
			}
		}
	}
	return out
}

func name(c *vt.C) string { return vt.One(c.T, "name", "gzip", "gz", "zst", "zstd") }

func same(c *vt.C, want, got []byte, what string) {
	if bytes.Equal(want, got) {
		return
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	c.Fatalf("%s: want %d bytes, got %d, first difference at %d", what, len(want), len(got), i)
}

func compress(c *vt.C, n string, in []byte) []byte {
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(n, buf)
	if err != nil {
		c.Fatalf("compressor %q: %v", n, err)
	}
	rest := in
	for k := 0; len(rest) > 0 || vt.Chance(c.T, 4, "emptyWrite"); k++ {
		m := vt.N(c.T, 0, len(rest), "piece")
		if k > 6 {
			m = len(rest)
		}
		p := append([]byte{}, rest[:m]...)
		got, err := w.Write(p)
		if err != nil || got != m {
			c.Fatalf("write of %d bytes: %d, %v", m, got, err)
		}
		if !bytes.Equal(p, rest[:m]) {
			c.Fatalf("write changed the caller's bytes")
		}
		for i := range p { // the caller may reuse its buffer
			p[i] = 0xAA
		}
		rest = rest[m:]
	}
	if err := w.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	return buf.Bytes()
}

func decompress(c *vt.C, n string, src io.Reader, limit int) []byte {
	r, err := compression.Decompressor(n, src)
	if err != nil {
		c.Fatalf("decompressor %q: %v", n, err)
	}
	var out []byte
	max := vt.N(c.T, 1, 5000, "readSize")
	if limit > 100000 {
		max += 3000
	}
	for i := 0; ; i++ {
		p := make([]byte, 1+(i*7919)%max)
		k, err := r.Read(p)
		out = append(out, p[:k]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fatalf("read: %v after %d bytes", err, len(out))
		}
		if len(out) > limit {
			c.Fatalf("more than %d bytes", limit)
		}
	}
	if err := r.Close(); err != nil {
		c.Fatalf("close reader: %v", err)
	}
	return out
}

func alias(c *vt.C, n string) string {
	if !vt.Bool(c.T, "alias") {
		return n
	}
	c.Label("written and read under different aliases")
	return map[string]string{"gzip": "gz", "gz": "gzip", "zst": "zstd", "zstd": "zst"}[n]
}

func roundTrip(c *vt.C, max int) {
	in, n := content(c, max), name(c)
	data := compress(c, n, in)
	if len(in) > 3 {
		c.NonTrivial(in, n)
	}
	c.Labelf("name=%s", n)
	c.Sample("%d bytes under %s, compressed to %d", len(in), n, len(data))
	same(c, in, decompress(c, alias(c, n), vt.Chunks(c, data), len(in)+1), n+" round trip")
	if names[n] {
		zr, err := stdgzip.NewReader(bytes.NewReader(data))
		if err != nil {
			c.Fatalf("not gzip: %v", err)
		}
		got, err := io.ReadAll(zr)
		if err != nil {
			c.Fatalf("standard gzip reader: %v", err)
		}
		same(c, in, got, "standard gzip reader")
	} else if len(data) > 0 {
		zr, err := zstd.NewReader(nil, zstd.WithDecoderConcurrency(1))
		if err != nil {
			c.Fatalf("vt: %v", err)
		}
		got, err := zr.DecodeAll(data, nil)
		zr.Close()
		if err != nil {
			c.Fatalf("standard zstd reader: %v", err)
		}
		same(c, in, got, "zstd block reader")
	}
}

// foreign streams come from other writers: levels, header fields, several members.
func foreign(c *vt.C) {
	n := name(c)
	buf := &bytes.Buffer{}
	var want []byte
	for i := vt.N(c.T, 1, 3, "members"); i > 0; i-- {
		in := content(c, 2000)
		want = append(want, in...)
		if names[n] {
			w, err := stdgzip.NewWriterLevel(buf, vt.N(c.T, -2, 9, "level"))
			if err != nil {
				c.Fatalf("vt: %v", err)
			}
			if vt.Bool(c.T, "hdr") {
				w.Name, w.Comment, w.Extra = "body.json", "note", []byte{1, 2, 3}
			}
			w.Write(in)
			if vt.Bool(c.T, "flush") {
				w.Flush()
			}
			w.Close()
		} else {
			w, err := zstd.NewWriter(buf, zstd.WithEncoderLevel(zstd.EncoderLevel(vt.N(c.T, 1, 3, "level"))), zstd.WithEncoderCRC(vt.Bool(c.T, "crc")), zstd.WithEncoderConcurrency(1))
			if err != nil {
				c.Fatalf("vt: %v", err)
			}
			w.Write(in)
			w.Close()
		}
	}
	if len(want) > 3 {
		c.NonTrivial(buf.Bytes())
	}
	same(c, want, decompress(c, n, vt.Chunks(c, buf.Bytes()), len(want)+1), "foreign "+n)
}

func bodies(c *vt.C) {
	n := name(c)
	format := vt.One(c.T, "format", "json", "csv", "cbor", "ndjson")
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, Big: 3000}, MaxCols: 4, MaxRows: 6, Depth: 1})
	plain := &dataset.Structure{Format: format, Schema: tb.Schema()}
	if format == "csv" && vt.Bool(c.T, "header") {
		plain.FormatConfig = dx.Obj{"headerRow": true}
	}
	comp := *plain
	comp.Compression = n
	raw, err := dx.Write(plain, tb.Entries())
	if err != nil {
		c.Fatalf("plain: %v", err)
	}
	data, err := dx.Write(&comp, tb.Entries())
	if err != nil {
		c.Fatalf("%s: %v", n, err)
	}
	c.NonTrivial(raw, n)
	c.Labelf("body %s.%s", format, n)
	same(c, raw, decompress(c, n, bytes.NewReader(data), len(raw)+1), "body written with "+n)
	want, err := dx.Read(plain, bytes.NewReader(raw), len(tb.Rows)+1)
	if err != nil {
		c.Fatalf("plain: %v", err)
	}
	if vt.Bool(c.T, "recompressed") {
		data = compress(c, n, raw)
	}
	got, err := dx.Read(&comp, vt.Chunks(c, data), len(tb.Rows)+1)
	if err != nil {
		c.Fatalf("%s %s: %v", format, n, err)
	}
	if d := dx.DiffEntries(want, got, false, false, vt.CmpOpts{IntKind: true, FloatKind: true}); d != "" {
		c.Fatalf("%s read with %s differs: %s", format, n, d)
	}
	// closing ends what decompression started, wherever reading stopped
	for i := 0; i < 2; i++ {
		before := runtime.NumGoroutine()
		r, err := dsio.NewEntryReader(&comp, vt.Chunks(c, data))
		if err != nil {
			c.Fatalf("%s %s: %v", format, n, err)
		}
		for j, k := 0, vt.N(c.T, 0, len(want)+1, "readEntries"); j < k; j++ {
			if _, err := r.ReadEntry(); err != nil {
				break
			}
		}
		if err := r.Close(); err != nil {
			c.Fatalf("%s %s: close: %v", format, n, err)
		}
		c.Settled(before, fmt.Sprintf("a closed reader of %s %s", format, n))
	}
}

func unknown(c *vt.C) {
	s := vt.Str(c.T, vt.StrOpts{})
	if vt.Bool(c.T, "near") {
		s = vt.One(c.T, "nearName", "zip", "bz2", "xz", "lz4", "snappy", "br", "deflate", "gzi", "gzipp", "z", "zs", "zstandard", "tar", "tgz", "zstdd", "none", "identity")
	}
	if _, ok := names[strings.ToLower(strings.Trim(s, ". "))]; ok {
		return
	}
	c.NonTrivial(s)
	if f, err := compression.ParseFormat(s); err == nil {
		c.Fatalf("ParseFormat(%q) = %q", s, f)
	}
	if _, err := compression.Compressor(s, io.Discard); err == nil {
		c.Fatalf("Compressor(%q) succeeded", s)
	}
	if _, err := compression.Decompressor(s, strings.NewReader("x")); err == nil {
		c.Fatalf("Decompressor(%q) succeeded", s)
	}
	tb := &dx.Table{Cols: []dx.Obj{{"title": "a", "type": "string"}}}
	st := dx.Noise(c, &dataset.Structure{Format: vt.One(c.T, "format", "json", "csv", "cbor", "ndjson", "xlsx"), Schema: tb.Schema(), Compression: s})
	if s == "" {
		if st.Format != "xlsx" {
			if _, err := dsio.NewEntryWriter(st, io.Discard); err != nil {
				c.Fatalf("no compression refused: %v", err)
			}
		}
		return
	}
	if _, err := dsio.NewEntryWriter(st, io.Discard); err == nil {
		c.Fatalf("%s writer accepts compression %q", st.Format, s)
	}
	if _, err := dsio.NewEntryReader(st, strings.NewReader("[]")); err == nil {
		c.Fatalf("%s reader accepts compression %q", st.Format, s)
	}
}
