package c31

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/stepfile"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a list of scripts of drawn kinds written to a step file and read back, or a text read as a step file, through a drawn read chunking; non-trivial = at least two steps; distinct by the scripts or text")
}

func TestC31(t *testing.T) {
	vt.Check(t, "roundtrip", 120000, 3000000, roundtrip)
	vt.Check(t, "read", 150000, 4000000, read)
	vt.Check(t, "refuse", 30000, 600000, refuse)
}

const sep = "\n---\n"

// frags are pieces that come close to a separator line.
var frags = []string{"---", "\n", "--", "-", "---\n", "\n---", "----", "\r\n---\r\n", " ---\n", "\n--- \n", "\n----\n", "\n\n", "a", "load_dataset()", "é", "\x00", "\xff", " "}

func script(c *vt.C) string {
	switch vt.N(c.T, 0, 5, "script") {
	case 0:
		return ""
	case 1:
		return vt.Str(c.T, vt.StrOpts{})
	case 2:
		return string(vt.Bytes(c.T, 40))
	case 3:
		if vt.Chance(c.T, 8, "big") {
			return strings.Repeat(frags[vt.N(c.T, 0, len(frags)-1, "rep")], vt.N(c.T, 1, 9000, "reps"))
		}
	}
	var s string
	for i, n := 0, vt.N(c.T, 1, 6, "frags"); i < n; i++ {
		s += frags[vt.N(c.T, 0, len(frags)-1, "frag")]
	}
	return s
}

type closer struct {
	io.Reader
	closed int
}

func (c *closer) Close() error { c.closed++; return nil }

func roundtrip(c *vt.C) {
	n := vt.N(c.T, 1, 6, "steps")
	if vt.Chance(c.T, 40, "many") {
		n = vt.N(c.T, 50, 300, "steps2")
	}
	var pool []string // scripts a long file repeats
	if vt.Chance(c.T, 100, "long") {
		n = []int{256, 512, 1000, 1024, 2000}[vt.N(c.T, 0, 4, "steps3")] + vt.N(c.T, 0, 60, "over")
		for i := 0; i < 5; i++ {
			pool = append(pool, vt.Trunc(script(c), 60))
		}
	}
	scripts := make([]string, n)
	for i := range scripts {
		if pool != nil {
			scripts[i] = pool[i*i%len(pool)]
			continue
		}
		scripts[i] = script(c)
	}
	file := strings.Join(scripts, sep)
	// the domain: no separator but those between the scripts
	if !equal(split(file), scripts) {
		c.Label("out of domain")
		return
	}
	var steps []*dataset.TransformStep
	var closers []*closer
	var kinds []string
	for _, s := range scripts {
		st := &dataset.TransformStep{Name: "n", Category: "c"}
		k := vt.N(c.T, 0, 3, "kind")
		switch k {
		case 0:
			st.Script = s
		case 1:
			st.Script = []byte(s)
		case 2:
			st.Script = vt.Chunks(c, []byte(s))
		case 3:
			cl := &closer{Reader: vt.Chunks(c, []byte(s))}
			closers = append(closers, cl)
			st.Script = cl
		}
		kinds = append(kinds, []string{"text", "bytes", "stream", "closer"}[k])
		steps = append(steps, st)
	}
	buf := &bytes.Buffer{}
	if err := stepfile.Write(steps, buf); err != nil {
		c.Fatalf("write: %v", err)
	}
	if got := buf.String(); got != file {
		c.Fatalf("scripts %q (%v) written as %q, want %q", scripts, kinds, vt.Trunc(got, 300), vt.Trunc(file, 300))
	}
	for _, cl := range closers {
		if cl.closed == 0 {
			c.Fatalf("a script stream was left open")
		}
	}
	for i, st := range steps {
		if kinds[i] == "text" && st.Script != interface{}(scripts[i]) || kinds[i] == "bytes" && string(st.Script.([]byte)) != scripts[i] {
			c.Fatalf("writing changed step %d", i)
		}
	}
	check(c, read1(c, buf.Bytes()), scripts, file)
	c.Labelf("steps=%d", min(n, 7))
	if n > 1 {
		c.NonTrivial(file)
	}
}

func read1(c *vt.C, data []byte) []*dataset.TransformStep {
	if vt.Chance(c.T, 30, "file") {
		dir, err := os.MkdirTemp("", "c31")
		if err != nil {
			c.Fatalf("%v", err)
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "s.star")
		if err := os.WriteFile(name, data, 0600); err != nil {
			c.Fatalf("%v", err)
		}
		got, err := stepfile.ReadFile(name)
		if err != nil {
			c.Fatalf("read file: %v", err)
		}
		c.Label("from a file")
		return got
	}
	got, err := stepfile.Read(vt.Chunks(c, data))
	if err != nil {
		c.Fatalf("read: %v", err)
	}
	return got
}

func check(c *vt.C, got []*dataset.TransformStep, want []string, file string) {
	if len(got) != len(want) {
		c.Fatalf("%q read as %d steps, want %d", vt.Trunc(file, 300), len(got), len(want))
	}
	for i, st := range got {
		s, ok := st.Script.(string)
		if !ok || s != want[i] {
			c.Fatalf("%q: step %d is %q, want %q", vt.Trunc(file, 300), i, st.Script, want[i])
		}
	}
}

// split cuts a text at its separator lines: lines of exactly three dashes with a line
// before and after them.
func split(s string) []string {
	lines := strings.Split(s, "\n")
	var out []string
	var cur []string
	for i, l := range lines {
		if l == "---" && i > 0 && i < len(lines)-1 && cur != nil {
			out = append(out, strings.Join(cur, "\n"))
			cur = nil
			continue
		}
		cur = append(cur, l)
	}
	return append(out, strings.Join(cur, "\n"))
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func read(c *vt.C) {
	var s string
	for i, n := 0, vt.N(c.T, 0, 6, "parts"); i < n; i++ {
		if vt.Bool(c.T, "sep") {
			s += sep
		}
		s += script(c)
	}
	if vt.Chance(c.T, 150, "long") {
		s += strings.Repeat(sep+vt.Trunc(script(c), 40), vt.N(c.T, 200, 1200, "reps"))
	}
	if strings.Contains(s, "\n---\n---\n") {
		c.Label("adjacent separators")
		return // separators that share a line end
	}
	want := split(s)
	check(c, read1(c, []byte(s)), want, s)
	c.Labelf("read steps=%d", min(len(want), 7))
	if len(want) > 1 {
		c.NonTrivial(s)
	}
}

func refuse(c *vt.C) {
	// a failing source is an error, not a shorter list
	s := script(c) + sep + script(c)
	ch := vt.Chunks(c, []byte(s[:vt.N(c.T, 0, len(s), "cut")]))
	ch.Err = vt.Fault(c.T)
	if got, err := stepfile.Read(ch); err == nil {
		c.Fatalf("failing source read as %d steps", len(got))
	}
	// so is a failing or unknown script
	n := vt.N(c.T, 1, 5, "steps")
	bad := vt.N(c.T, 0, n-1, "bad")
	var steps []*dataset.TransformStep
	for i := 0; i < n; i++ {
		steps = append(steps, &dataset.TransformStep{Script: script(c)})
	}
	if vt.Bool(c.T, "unknown") {
		steps[bad].Script = []interface{}{nil, 4, 1.5, map[string]interface{}{"a": 1}, []string{"x"}, true, []interface{}{"a"}}[vt.N(c.T, 0, 6, "of")]
	} else {
		ch := vt.Chunks(c, []byte(script(c)))
		ch.Err = vt.Fault(c.T)
		steps[bad].Script = ch
	}
	var err error
	c.NoPanic("write", func() { err = stepfile.Write(steps, io.Discard) })
	if err == nil {
		c.Fatalf("step %d (%T) was written without an error", bad, steps[bad].Script)
	}
	if _, err := stepfile.ReadFile("/nonexistent/steps"); err == nil {
		c.Fatalf("missing file read without an error")
	}
	c.Label("refused")
	c.NonTrivial(s, n, bad)
}
