package c15

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a native value read and closed through the in-memory reader under perturbed scheduling (race detector on), or an entry source (possibly failing) run through a collecting, copying, iterating or buffering helper; non-trivial = at least one entry; distinct by entries and operation sequence")
}

func TestC15(t *testing.T) {
	vt.Check(t, "identity", 12000, 240000, identity)
	vt.Check(t, "readall", 6000, 120000, readAll)
	vt.Check(t, "copy", 6000, 120000, copyEntries)
	vt.Check(t, "each", 6000, 120000, each)
	vt.Check(t, "buffer", 4000, 80000, buffer)
}

func native(c *vt.C) (*dataset.Structure, interface{}, []dsio.Entry) {
	st := dx.Noise(c, dx.St("json", "array", ""))
	o := vt.ValOpts{Depth: 2}
	n := vt.N(c.T, 0, 12, "n")
	if vt.Chance(c.T, 20, "many") {
		n = vt.N(c.T, 100, 3000, "nMany")
		if vt.Chance(c.T, 8, "nVeryMany") {
			n = dx.ManyCount(c, 140000)
		}
		o.Depth = 0
	}
	var ents []dsio.Entry
	if vt.Bool(c.T, "object") {
		st.Schema["type"] = "object"
		m := dx.Obj{}
		for i := 0; i < n; i++ {
			k := fmt.Sprint(i)
			if n < 100 {
				k = vt.Str(c.T, vt.StrOpts{})
			}
			if n < 100 {
				m[k] = vt.Value(c.T, o)
			} else {
				m[k] = i
			}
		}
		for _, k := range vt.SortedKeys(m) {
			ents = append(ents, dsio.Entry{Key: k, Value: m[k]})
		}
		return st, m, ents
	}
	a := make(dx.Arr, n)
	for i := range a {
		if n < 100 {
			a[i] = vt.Value(c.T, o)
		} else {
			a[i] = i
		}
		ents = append(ents, dsio.Entry{Index: i, Value: a[i]})
	}
	return st, a, ents
}

func yield(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func identity(c *vt.C) {
	st, data, ents := native(c)
	_, keyed := data.(dx.Obj)
	procs := vt.N(c.T, 1, 8, "procs")
	yields := []int{vt.N(c.T, 0, 3, "y0"), vt.N(c.T, 0, 3, "y1"), vt.N(c.T, 0, 20, "y2")}
	stop := len(ents) + 1
	if vt.Bool(c.T, "closeEarly") {
		stop = vt.N(c.T, 0, len(ents), "stop")
	}
	after := vt.N(c.T, 0, 3, "readsAfterEnd")
	if len(ents) > 0 {
		c.NonTrivial(fmt.Sprintf("%v", data), procs, fmt.Sprint(yields), stop)
	}
	c.Labelf("object=%v closed early=%v", keyed, stop <= len(ents))
	c.Sample("%d entries, object=%v, GOMAXPROCS %d, close after %d reads", len(ents), keyed, procs, stop)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))

	var got []dsio.Entry
	before := runtime.NumGoroutine()
	c.Within("in-memory reader", func() {
		r, err := dsio.NewIdentityReader(st, data)
		if err != nil {
			panic(err)
		}
		if r.Structure() != st {
			panic("structure differs")
		}
		yield(yields[2])
		for i := 0; i < stop; i++ {
			e, err := r.ReadEntry()
			if err == io.EOF {
				for j := 0; j < after; j++ {
					if e, err := r.ReadEntry(); err != io.EOF {
						panic(fmt.Sprintf("read %d after the end: %v, %v", j, e, err))
					}
				}
				break
			}
			if err != nil {
				panic(err)
			}
			got = append(got, e)
			if len(got) > len(ents) {
				break
			}
			yield(yields[i%2])
		}
		if err := r.Close(); err != nil {
			panic(err)
		}
		if err := r.Close(); err != nil {
			panic(err)
		}
	})
	c.Settled(before, "the closed in-memory reader")
	if stop > len(ents) && len(got) != len(ents) || len(got) > len(ents) {
		c.Fatalf("%d entries of %d delivered", len(got), len(ents))
	}
	if keyed {
		seen := map[string]bool{}
		m := data.(dx.Obj)
		for _, e := range got {
			v, ok := m[e.Key]
			if !ok || seen[e.Key] {
				c.Fatalf("key %q delivered twice or not in the value", e.Key)
			}
			seen[e.Key] = true
			if d := vt.Diff(norm(v), norm(e.Value), vt.CmpOpts{}); d != "" {
				c.Fatalf("key %q: %s", e.Key, d)
			}
		}
		return
	}
	for i, e := range got {
		if e.Index != i || e.Key != "" {
			c.Fatalf("entry %d has position %d, key %q", i, e.Index, e.Key)
		}
		if d := vt.Diff(norm(ents[i].Value), norm(e.Value), vt.CmpOpts{}); d != "" {
			c.Fatalf("entry %d: %s", i, d)
		}
	}
}

func norm(v interface{}) interface{} { return v }

var errSource = errors.New("vt: source failed")

// source is an entry reader over given entries that ends in err.
type source struct {
	st     *dataset.Structure
	ents   []dsio.Entry
	err    error
	last   dsio.Entry // what comes with err
	i      int
	closed int
}

func (s *source) Structure() *dataset.Structure { return s.st }
func (s *source) ReadEntry() (dsio.Entry, error) {
	if s.i >= len(s.ents) {
		return s.last, s.err
	}
	s.i++
	return s.ents[s.i-1], nil
}
func (s *source) Close() error { s.closed++; return nil }

// sink is an entry writer that fails at one entry.
type sink struct {
	st     *dataset.Structure
	got    []dsio.Entry
	failAt int
}

func (s *sink) Structure() *dataset.Structure { return s.st }
func (s *sink) WriteEntry(e dsio.Entry) error {
	if len(s.got) == s.failAt {
		return vt.ErrFault
	}
	s.got = append(s.got, e)
	return nil
}
func (s *sink) Close() error { return nil }

func genSource(c *vt.C) (*source, bool) {
	keyed := vt.Bool(c.T, "keyed")
	s := &source{st: dx.Noise(c, dx.St("json", "array", "")), err: io.EOF}
	if keyed {
		s.st.Schema["type"] = "object"
	}
	s.ents = dx.Entries(c, keyed, 10, vt.ValOpts{Depth: 1})
	if keyed && len(s.ents) > 0 && vt.Chance(c.T, 12, "emptyKey") {
		i := vt.N(c.T, 0, len(s.ents)-1, "emptyKeyAt")
		for j := range s.ents {
			if s.ents[j].Key == "" {
				i = j
			}
		}
		s.ents[i].Key = ""
	}
	if vt.Chance(c.T, 3, "fails") {
		s.err = errSource
		if vt.Bool(c.T, "unexpected") {
			s.err = io.ErrUnexpectedEOF
		}
		// a failing reader may say which entry it failed at
		switch vt.N(c.T, 0, 3, "lastEntry") {
		case 0:
			s.last = dsio.Entry{Index: len(s.ents)}
		case 1:
			s.last = dsio.Entry{Index: len(s.ents), Key: "k", Value: "partial"}
		case 2:
			s.last = dsio.Entry{Key: "k"}
		}
	}
	if len(s.ents) > 0 {
		c.NonTrivial(fmt.Sprint(s.ents), s.err)
	}
	c.Labelf("source fails=%v", s.err != io.EOF)
	return s, keyed
}

func readAll(c *vt.C) {
	s, keyed := genSource(c)
	var v interface{}
	var err error
	switch k := vt.N(c.T, 0, 1, "specific"); {
	case k == 0:
		v, err = dsio.ReadAll(s)
	case keyed:
		v, err = dsio.ReadAllObject(s)
	default:
		v, err = dsio.ReadAllArray(s)
	}
	if s.err != io.EOF {
		if err == nil {
			c.Fatalf("source failed with %v, ReadAll gave %s", s.err, vt.Show(v))
		}
		if !errors.Is(err, s.err) && !strings.Contains(err.Error(), s.err.Error()) {
			c.Fatalf("source failed with %v, ReadAll reported %v", s.err, err)
		}
		return
	}
	if err != nil {
		c.Fatalf("%v", err)
	}
	var want interface{}
	if keyed {
		m := dx.Obj{}
		for _, e := range s.ents {
			m[e.Key] = e.Value
		}
		want = m
	} else {
		a := make(dx.Arr, 0)
		for _, e := range s.ents {
			a = append(a, e.Value)
		}
		want = a
	}
	if d := vt.Diff(want, v, vt.CmpOpts{IntKind: true, FloatKind: true}); d != "" {
		c.Fatalf("%s", d)
	}
}

func sameEntries(c *vt.C, want, got []dsio.Entry) {
	if len(want) != len(got) {
		c.Fatalf("want %d entries, got %d", len(want), len(got))
	}
	for i := range want {
		if want[i].Key != got[i].Key || want[i].Index != got[i].Index {
			c.Fatalf("entry %d: want (%d,%q), got (%d,%q)", i, want[i].Index, want[i].Key, got[i].Index, got[i].Key)
		}
		if d := vt.Diff(want[i].Value, got[i].Value, vt.CmpOpts{IntKind: true, FloatKind: true}); d != "" {
			c.Fatalf("entry %d: %s", i, d)
		}
	}
}

func copyEntries(c *vt.C) {
	s, _ := genSource(c)
	w := &sink{st: s.st, failAt: -1}
	if vt.Chance(c.T, 3, "sinkFails") {
		w.failAt = vt.N(c.T, 0, len(s.ents), "failAt")
	}
	err := dsio.Copy(s, w)
	want := s.ents
	if w.failAt >= 0 && w.failAt < len(s.ents) {
		want = want[:w.failAt]
		if err == nil || !strings.Contains(err.Error(), vt.ErrFault.Error()) {
			c.Fatalf("sink failed at entry %d, Copy returned %v", w.failAt, err)
		}
	} else if s.err != io.EOF {
		if err == nil || !strings.Contains(err.Error(), s.err.Error()) {
			c.Fatalf("source failed with %v, Copy returned %v", s.err, err)
		}
	} else if err != nil {
		c.Fatalf("%v", err)
	}
	sameEntries(c, want, w.got)
}

func each(c *vt.C) {
	s, _ := genSource(c)
	stopAt, stopErr := -1, error(nil)
	if vt.Chance(c.T, 3, "stops") {
		stopAt = vt.N(c.T, 0, len(s.ents), "stopAt")
		stopErr = vt.ErrFault
		if vt.Bool(c.T, "eof") {
			stopErr = io.EOF
		}
	}
	var got []dsio.Entry
	err := dsio.EachEntry(s, func(i int, e dsio.Entry, err error) error {
		if i != len(got) {
			c.Fatalf("call %d has number %d", len(got), i)
		}
		if err != nil {
			c.Fatalf("callback given error %v", err)
		}
		if i == stopAt {
			return stopErr
		}
		got = append(got, e)
		return nil
	})
	want := s.ents
	switch {
	case stopAt >= 0 && stopAt < len(s.ents):
		want = want[:stopAt]
		if stopErr == io.EOF && err != nil || stopErr != io.EOF && (err == nil || !strings.Contains(err.Error(), stopErr.Error())) {
			c.Fatalf("callback returned %v, EachEntry %v", stopErr, err)
		}
	case s.err != io.EOF:
		if err == nil || !strings.Contains(err.Error(), s.err.Error()) {
			c.Fatalf("source failed with %v, EachEntry returned %v", s.err, err)
		}
	case err != nil:
		c.Fatalf("%v", err)
	}
	sameEntries(c, want, got)
}

// buffer: entries written to an entry buffer are read from it after close, and its bytes
// are a body holding them.
func buffer(c *vt.C) {
	var st *dataset.Structure
	var ents, want []dsio.Entry
	keyed := false
	if f := vt.One(c.T, "format", "json", "cbor", "ndjson", "csv"); f == "csv" {
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true}, MaxCols: 3, MaxRows: 6, Depth: 1})
		st = dx.Noise(c, dx.CSVStructure(c, tb, false))
		st.Compression = ""
		ents, want = tb.Entries(), tb.WantEntries()
	} else {
		keyed = f != "ndjson" && vt.Bool(c.T, "keyed")
		st = dx.Noise(c, dx.St(f, "array", ""))
		if keyed {
			st.Schema["type"] = "object"
		}
		ents = dx.Entries(c, keyed, 8, vt.ValOpts{Depth: 1})
		want = ents
	}
	b, err := dsio.NewEntryBuffer(st)
	if err != nil {
		c.Fatalf("%v", err)
	}
	if b.Structure() != st {
		c.Fatalf("structure differs")
	}
	if err := dsio.Copy(&source{st: st, ents: ents, err: io.EOF}, b); err != nil {
		c.Fatalf("%v", err)
	}
	if err := b.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	first := append([]byte{}, b.Bytes()...)
	for i, n := 0, vt.N(c.T, 0, 2, "others"); i < n; i++ { // other buffers come and go
		o, err := dsio.NewEntryBuffer(dx.Noise(c, dx.St(vt.One(c.T, "otherFormat", "json", "cbor", "ndjson"), "array", "")))
		if err != nil {
			c.Fatalf("%v", err)
		}
		for j, m := 0, vt.N(c.T, 0, 4, "otherSize"); j < m; j++ {
			if err := o.WriteEntry(dsio.Entry{Index: j, Value: "other"}); err != nil {
				c.Fatalf("%v", err)
			}
		}
		if err := o.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
	}
	data := append([]byte{}, b.Bytes()...)
	if !bytes.Equal(first, data) {
		c.Fatalf("%s: buffer holding %q holds %q after another was used", st.Format, first, data)
	}
	if len(ents) > 0 {
		c.NonTrivial(st.Format, data)
	}
	got, err := dx.Drain(b, len(ents)+2)
	if err != nil {
		c.Fatalf("%s: reading from the buffer: %v", st.Format, err)
	}
	again, err := dx.Read(st, bytes.NewReader(data), len(ents)+2)
	if err != nil {
		c.Fatalf("%s: reading the buffer's bytes: %v", st.Format, err)
	}
	if keyed {
		want, got, again = dx.ByKey(want), dx.ByKey(got), dx.ByKey(again)
	}
	for _, g := range [][]dsio.Entry{got, again} {
		if d := dx.DiffEntries(want, g, keyed, !keyed && st.Format != "csv", vt.CmpOpts{}); d != "" {
			c.Fatalf("%s: %s", st.Format, d)
		}
	}
}
