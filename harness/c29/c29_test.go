package c29

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/qri-io/dataset/dsstats/histosketch"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a sequence of add, add-many, merge and encode/decode operations on sketches of a drawn limit, with all invariants checked after each operation; non-trivial = at least three operations and two distinct values; distinct by operation sequence")
}

func TestC29(t *testing.T) {
	vt.Check(t, "history", 120000, 2000000, history)
	vt.Check(t, "sample", 80000, 1200000, sample)
	vt.Check(t, "stream", 1000, 20000, stream)
	vt.Check(t, "bins", 18, 300, bins)
}

// model is a multiset of values.
type model struct {
	w     map[float64]int64
	limit int  // bins
	exact bool // never more distinct values than bins
}

func (m *model) add(v float64, n int64) {
	if v == 0 {
		v = 0 // one zero
	}
	m.w[v] += n
	if len(m.w) > m.limit {
		m.exact = false
	}
}

func (m *model) values() []float64 {
	var vs []float64
	for v := range m.w {
		vs = append(vs, v)
	}
	sort.Float64s(vs)
	return vs
}

func (m *model) total() float64 {
	var n int64
	for _, k := range m.w {
		n += k
	}
	return float64(n)
}

func (m *model) rank(p float64) float64 {
	var n int64
	for v, k := range m.w {
		if v <= p {
			n += k
		}
	}
	return float64(n)
}

// quantile is the first value whose middle rank exceeds p*total: the convention the
// repository's own tests fix.
func (m *model) quantile(p float64) float64 {
	t := p * m.total()
	n := 0.0
	vs := m.values()
	for _, v := range vs {
		if n+float64(m.w[v])/2 > t {
			return v
		}
		n += float64(m.w[v])
	}
	return vs[len(vs)-1]
}

// source draws values, or repeats few.
func source(c *vt.C) func() float64 {
	if vt.Chance(c.T, 3, "few") {
		pool := []float64{value(c), value(c), value(c)}[:vt.N(c.T, 1, 3, "pool")]
		return func() float64 { return pool[vt.N(c.T, 0, len(pool)-1, "of")] }
	}
	return func() float64 { return value(c) }
}

func value(c *vt.C) float64 {
	switch vt.N(c.T, 0, 6, "valueKind") {
	case 0, 1:
		return float64(vt.N(c.T, -8, 8, "small"))
	case 2:
		return float64(vt.N(c.T, -1000, 1000, "thousandths")) / 1000
	case 3: // neighbours
		v := []float64{0.1, 0.3, 1, 7, -0.1, 1e10}[vt.N(c.T, 0, 5, "base")]
		for i, n := 0, vt.N(c.T, 0, 3, "ulps"); i < n; i++ {
			v = math.Nextafter(v, 1e300)
		}
		return v
	case 4:
		return float64(vt.N(c.T, -1000000, 1000000, "wide"))
	case 5:
		return math.Ldexp(float64(vt.N(c.T, -9, 9, "mant")), vt.N(c.T, -100, 100, "exp"))
	}
	f := vt.Float(c.T)
	if math.Abs(f) > 1e100 {
		f = math.Mod(f, 1e6)
	}
	return f
}

func check(c *vt.C, h *histosketch.Sketch, m *model, what string) {
	if h.Count() != m.total() {
		c.Fatalf("%s: count %v, want %v", what, h.Count(), m.total())
	}
	vs := m.values()
	bins, freqs := h.Read()
	if len(bins) != len(freqs)+1 {
		c.Fatalf("%s: %d bins edges for %d frequencies", what, len(bins), len(freqs))
	}
	if len(freqs) > m.limit {
		c.Fatalf("%s: %d bins, limit %d", what, len(freqs), m.limit)
	}
	sum := 0.0
	for i, f := range freqs {
		if !(f >= 0) {
			c.Fatalf("%s: frequency %v of bin %v", what, f, bins[i])
		}
		sum += f
		if i > 0 && bins[i] < bins[i-1] {
			c.Fatalf("%s: bins not sorted: %v", what, bins)
		}
	}
	if sum != m.total() {
		c.Fatalf("%s: frequencies %v sum to %v, want %v", what, freqs, sum, m.total())
	}
	if len(vs) == 0 {
		if len(freqs) != 0 {
			c.Fatalf("%s: bins %v without values", what, bins)
		}
		return
	}
	lo, hi := vs[0], vs[len(vs)-1]
	if h.Min() != lo || h.Max() != hi {
		c.Fatalf("%s: minimum and maximum %v %v, want %v %v", what, h.Min(), h.Max(), lo, hi)
	}
	if bins[0] < lo || bins[len(freqs)-1] > hi || bins[len(freqs)] < hi {
		c.Fatalf("%s: bins %v outside %v to %v", what, bins, lo, hi)
	}
	// the bins keep the mean
	var mean, want, abs float64
	for i, f := range freqs {
		mean += bins[i] * f
	}
	for _, v := range vs {
		want += v * float64(m.w[v])
		abs += math.Abs(v) * float64(m.w[v])
	}
	if math.Abs(mean-want) > 1e-9*abs+1e-290 {
		c.Fatalf("%s: bins weigh %v, values %v", what, mean, want)
	}
	// ranks
	var ps []float64
	ps = append(ps, vs...)
	ps = append(ps, bins...)
	for i := 0; i+1 < len(vs); i++ {
		ps = append(ps, vs[i]+(vs[i+1]-vs[i])*0.5, math.Nextafter(vs[i], hi))
	}
	for i := 0; i+1 < len(bins); i++ {
		ps = append(ps, bins[i]+(bins[i+1]-bins[i])*0.25, math.Nextafter(bins[i], bins[i+1]), math.Nextafter(bins[i+1], bins[i]))
	}
	ps = append(ps, lo-1, hi+1, math.Inf(1), math.Inf(-1), 0)
	sort.Float64s(ps)
	tol := 1e-9 * m.total()
	prev := 0.0
	for _, p := range ps {
		s := h.Sum(p)
		if math.IsNaN(s) || s < 0 || s > m.total()+tol {
			c.Fatalf("%s: rank of %v is %v of %v", what, p, s, m.total())
		}
		if s < prev-tol {
			c.Fatalf("%s: rank falls from %v to %v at %v (bins %v %v)", what, prev, s, p, bins, freqs)
		}
		if s > prev {
			prev = s
		}
		if m.exact {
			if w := m.rank(p); s != w {
				c.Fatalf("%s: rank of %v is %v, want %v (bins %v %v)", what, p, s, w, bins, freqs)
			}
		}
		if p < lo && s != 0 || p >= hi && s != m.total() {
			c.Fatalf("%s: rank of %v beyond the values is %v of %v", what, p, s, m.total())
		}
	}
	// quantiles
	qs := []float64{0, 0.001, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.999, 1}
	n := 0.0
	for _, f := range freqs { // around the steps
		n += f
		for _, d := range []float64{-0.5, -0.25, 0, 0.25} {
			if q := (n + d*f) / m.total(); q >= 0 && q <= 1 {
				qs = append(qs, q)
			}
		}
	}
	sort.Float64s(qs)
	slack := 1e-9 * (hi - lo)
	prev = math.Inf(-1)
	for _, q := range qs {
		v := h.Quantile(q)
		if math.IsNaN(v) || v < lo-slack || v > hi+slack {
			c.Fatalf("%s: quantile %v is %v, outside %v to %v (bins %v %v)", what, q, v, lo, hi, bins, freqs)
		}
		if v < prev-slack {
			c.Fatalf("%s: quantile falls from %v to %v at %v (bins %v %v)", what, prev, v, q, bins, freqs)
		}
		if v > prev {
			prev = v
		}
		if m.exact {
			t := q * m.total()
			if math.Abs(2*t-math.Round(2*t)) < 1e-6+1e-12*t && (2*t != math.Round(2*t) || t > 1e9) {
				continue // the step itself is a matter of rounding
			}
			if w := m.quantile(q); v != w {
				c.Fatalf("%s: quantile %v is %v, want %v (bins %v %v)", what, q, v, w, bins, freqs)
			}
		}
	}
	med := h.Median()
	if med < lo-slack || med > hi+slack {
		c.Fatalf("%s: median %v outside %v to %v", what, med, lo, hi)
	}
	if m.exact && m.total() < 1e6 {
		if w := m.quantile(0.4999999); med != w {
			c.Fatalf("%s: median %v, want %v (bins %v %v)", what, med, w, bins, freqs)
		}
	}
}

func fresh(c *vt.C) (*histosketch.Sketch, *model) {
	n := vt.N(c.T, 1, 8, "limit")
	if vt.Chance(c.T, 6, "large") {
		n = 32
	}
	return histosketch.New(uint(n)), &model{w: map[float64]int64{}, limit: n, exact: true}
}

func recode(c *vt.C, h *histosketch.Sketch, m *model) *histosketch.Sketch {
	var out *histosketch.Sketch
	if vt.Bool(c.T, "intoNew") {
		out = histosketch.New(uint(m.limit))
		if vt.Chance(c.T, 3, "used") { // what it held gives way
			for i, n := 0, vt.N(c.T, 1, 5, "held"); i < n; i++ {
				out.AddMany(float64(i*i)-3.5, int64(i+1))
			}
		}
	} else {
		out = &histosketch.Sketch{}
		_, f := h.Read()
		m.limit = len(f) // the encoding does not carry the limit
		if m.limit == 0 {
			m.limit = 1
		}
	}
	if vt.Bool(c.T, "gob") {
		var b bytes.Buffer
		if err := gob.NewEncoder(&b).Encode(h); err != nil {
			c.Fatalf("encode: %v", err)
		}
		if err := gob.NewDecoder(&b).Decode(out); err != nil {
			c.Fatalf("decode: %v", err)
		}
		return out
	}
	data, err := h.MarshalBinary()
	if err != nil {
		c.Fatalf("encode: %v", err)
	}
	if err := out.UnmarshalBinary(data); err != nil {
		c.Fatalf("decode %q: %v", data, err)
	}
	again, err := out.MarshalBinary()
	if err != nil || !bytes.Equal(data, again) {
		c.Fatalf("encoded again as %q, %v, was %q", again, err, data)
	}
	// so is a wrong version or number of bins
	if vt.Chance(c.T, 6, "damage") {
		ls := bytes.SplitN(data, []byte("\n"), 3)
		for _, w := range []string{"0", "2", "-1", "x", ""} {
			if bad := w + "\n" + string(ls[1]) + "\n" + string(ls[2]); (&histosketch.Sketch{}).UnmarshalBinary([]byte(bad)) == nil {
				c.Fatalf("decoded %q", bad)
			}
		}
		_, f := h.Read()
		for _, w := range []string{"-1", "-5", "x", "", fmt.Sprint(len(f) + 1), fmt.Sprint(len(f) + 2), "999999999999"} {
			if bad := string(ls[0]) + "\n" + w + "\n" + string(ls[2]); (&histosketch.Sketch{}).UnmarshalBinary([]byte(bad)) == nil {
				c.Fatalf("decoded %q", bad)
			}
		}
	}
	// a cut encoding is an error
	if k := vt.N(c.T, 0, len(data)-1, "cut"); k > 0 && data[k-1] == '\n' {
		if (&histosketch.Sketch{}).UnmarshalBinary(data[:k]) == nil {
			c.Fatalf("decoded %q, cut from %q", data[:k], data)
		}
	}
	return out
}

// closest: a value added becomes part of its own bin or a new one and, if that is one
// too many, two neighbours with the smallest distance become one at their mean.
func closest(c *vt.C, b0, f0 []float64, v, k float64, h *histosketch.Sketch, log string) {
	b1, f1 := h.Read()
	b0, b1 = b0[:len(f0)], b1[:len(f1)]
	i := sort.SearchFloat64s(b0, v)
	ps, ms := append([]float64{}, b0...), append([]float64{}, f0...)
	if i < len(b0) && b0[i] == v {
		ms[i] += k
	} else {
		ps = append(ps[:i], append([]float64{v}, b0[i:]...)...)
		ms = append(ms[:i], append([]float64{k}, f0[i:]...)...)
	}
	same := func(ps, ms []float64) bool {
		if len(ps) != len(b1) {
			return false
		}
		for j := range ps {
			if ms[j] != f1[j] || math.Abs(ps[j]-b1[j]) > 1e-9*(math.Abs(ps[j])+math.Abs(b1[j])) {
				return false
			}
		}
		return true
	}
	if same(ps, ms) {
		return
	}
	gap := math.Inf(1)
	for j := 0; j+1 < len(ps); j++ {
		gap = math.Min(gap, ps[j+1]-ps[j])
	}
	for j := 0; j+1 < len(ps); j++ {
		if ps[j+1]-ps[j] > gap*(1+1e-9) {
			continue
		}
		qs := append(append([]float64{}, ps[:j]...), ps[j+1:]...)
		ns := append(append([]float64{}, ms[:j]...), ms[j+1:]...)
		ns[j] = ms[j] + ms[j+1]
		qs[j] = (ps[j]*ms[j] + ps[j+1]*ms[j+1]) / ns[j]
		// a mean of opposite numbers is rounded on their scale
		if math.Abs(qs[j]) < 1e-3*math.Max(math.Abs(ps[j]), math.Abs(ps[j+1])) && j < len(b1) && math.Abs(qs[j]-b1[j]) < 1e-9*math.Max(math.Abs(ps[j]), math.Abs(ps[j+1])) {
			qs[j] = b1[j]
		}
		if same(qs, ns) {
			return
		}
	}
	c.Fatalf("%s: bins %v %v became %v %v, which joins no closest neighbours", log, b0, f0, b1, f1)
}

// best is the least total squared distance of sorted values to the means of k segments.
func best(vs []float64, k int) float64 {
	if k == 1 || len(vs) == 0 {
		return spread(vs)
	}
	b := math.Inf(1)
	for i := k - 1; i < len(vs); i++ {
		b = math.Min(b, best(vs[:i], k-1)+spread(vs[i:]))
	}
	return b
}

func spread(vs []float64) float64 {
	mean, d := 0.0, 0.0
	for _, v := range vs {
		mean += v / float64(len(vs))
	}
	for _, v := range vs {
		d += (v - mean) * (v - mean)
	}
	return d
}

func history(c *vt.C) {
	h, m := fresh(c)
	check(c, h, m, "new")
	n := vt.N(c.T, 1, 14, "ops")
	log := fmt.Sprintf("new(%d)", m.limit)
	next := source(c)
	for i := 0; i < n; i++ {
		switch vt.N(c.T, 0, 9, "op") {
		default:
			v := next()
			b0, f0 := h.Read()
			h.Add(v)
			m.add(v, 1)
			log += fmt.Sprintf(" add(%v)", v)
			closest(c, b0, f0, v, 1, h, log)
		case 6, 7:
			v, k := next(), int64(vt.N(c.T, 1, 20, "count"))
			if vt.Chance(c.T, 10, "huge") {
				k = []int64{1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1 << 32, 1<<33 + 7, 1 << 40}[vt.N(c.T, 0, 6, "hugeCount")]
			}
			b0, f0 := h.Read()
			h.AddMany(v, k)
			m.add(v, k)
			log += fmt.Sprintf(" add(%v,%d)", v, k)
			closest(c, b0, f0, v, float64(k), h, log)
		case 8:
			x, xm := fresh(c)
			for j, k := 0, vt.N(c.T, 0, 10, "others"); j < k; j++ {
				v, cnt := next(), int64(vt.N(c.T, 1, 3, "count"))
				x.AddMany(v, cnt)
				xm.add(v, cnt)
			}
			b0, f0 := x.Read()
			h.Merge(*x)
			b1, f1 := x.Read()
			if fmt.Sprint(b0, f0) != fmt.Sprint(b1, f1) {
				c.Fatalf("merging changed the other sketch from %v %v to %v %v", b0, f0, b1, f1)
			}
			for v, k := range xm.w {
				m.add(v, k)
			}
			m.exact = m.exact && xm.exact
			log += fmt.Sprintf(" merge(%v)", xm.w)
		case 9:
			h = recode(c, h, m)
			log += " recode"
		}
		check(c, h, m, log)
	}
	c.Labelf("exact=%v", m.exact)
	if n > 2 && len(m.w) > 1 {
		c.NonTrivial(log)
	}
	c.Sample("%s", vt.Trunc(log, 300))
}

func sample(c *vt.C) {
	n := vt.N(c.T, 1, 30, "values")
	var vs []float64
	next := source(c)
	for i := 0; i < n; i++ {
		vs = append(vs, next())
	}
	limit := vt.N(c.T, 1, 12, "limit")
	if vt.Chance(c.T, 800, "large") {
		step := vt.N(c.T, 1, 997, "step")
		for i, k := 0, vt.N(c.T, 40, 400, "values"); i < k; i++ {
			vs = append(vs, float64(i*step%1009)*0.25)
		}
		n = len(vs)
		if vt.Bool(c.T, "fewer") {
			limit = n + vt.N(c.T, 1, 50, "over")
		}
	}
	m := &model{w: map[float64]int64{}, limit: limit, exact: true}
	for _, v := range vs {
		m.add(v, 1)
	}
	m.exact = n < limit
	h := histosketch.NewFromSample(append([]float64{}, vs...), limit)
	log := fmt.Sprintf("sample(%v, %d)", vs, limit)
	check(c, h, m, log)
	if n <= 9 && limit <= 5 && n >= limit {
		sorted := append([]float64{}, vs...)
		sort.Float64s(sorted)
		_, fs := h.Read()
		cost, at := 0.0, 0
		for _, f := range fs {
			cost += spread(sorted[at : at+int(f)])
			at += int(f)
		}
		big := math.Max(math.Abs(sorted[0]), math.Abs(sorted[n-1]))
		if w := best(sorted, limit); cost > w*(1+1e-6)+1e-9*spread(sorted)+1e-22*big*big {
			c.Fatalf("%s: bins of %v values have the squared distance %v, the best ones %v", log, fs, cost, w)
		}
		c.Label("optimal")
	}
	m.exact = false
	for i, k := 0, vt.N(c.T, 0, 5, "more"); i < k; i++ {
		v := value(c)
		h.Add(v)
		m.add(v, 1)
		log += fmt.Sprintf(" add(%v)", v)
		check(c, h, m, log)
	}
	if len(m.w) > 1 {
		c.NonTrivial(log)
	}
	c.Sample("%s", vt.Trunc(log, 300))
}

// bins has a sketch hold thousands of bins, all exact.
func bins(c *vt.C) {
	limit := vt.N(c.T, 1000, 9000, "limit")
	n := limit + vt.N(c.T, -3, 0, "short")
	h := histosketch.New(uint(limit))
	for i := 0; i < n; i++ {
		h.AddMany(float64(i)*0.5-100, int64(i%7+1))
	}
	out := histosketch.New(uint(limit))
	data, err := h.MarshalBinary()
	if err != nil {
		c.Fatalf("encode %d bins: %v", n, err)
	}
	if err := out.UnmarshalBinary(data); err != nil {
		c.Fatalf("decode %d bins: %v", n, err)
	}
	other := histosketch.New(uint(limit))
	other.Merge(*h)
	for what, x := range map[string]*histosketch.Sketch{"sketch": h, "decoded sketch": out, "merged sketch": other} {
		b, f := x.Read()
		if len(f) != n {
			c.Fatalf("%s of %d values under limit %d has %d bins", what, n, limit, len(f))
		}
		total := 0.0
		for i := range f {
			if b[i] != float64(i)*0.5-100 || f[i] != float64(i%7+1) {
				c.Fatalf("%s: bin %d is %v times %v", what, i, b[i], f[i])
			}
			total += f[i]
		}
		if x.Count() != total || x.Min() != -100 || x.Max() != b[n-1] || x.Sum(b[n/2]) > total {
			c.Fatalf("%s: count %v, min %v, max %v", what, x.Count(), x.Min(), x.Max())
		}
	}
	c.NonTrivial(limit, n)
	c.Sample("%d bins, limit %d", n, limit)
}

// stream adds many values, as statistics do.
func stream(c *vt.C) {
	h := histosketch.New(32)
	m := &model{w: map[float64]int64{}, limit: 32, exact: true}
	n := vt.N(c.T, 100, 2000, "values")
	mul, mod := vt.N(c.T, 1, 999, "mul"), vt.N(c.T, 2, 1500, "mod")
	scale := []float64{1, 0.001, 1e6, -3.7}[vt.N(c.T, 0, 3, "scale")]
	for i := 0; i < n; i++ {
		v := float64((i*i*mul+i)%mod) * scale
		h.Add(v)
		m.add(v, 1)
	}
	check(c, h, m, fmt.Sprintf("stream %d %d %d %v", n, mul, mod, scale))
	h = recode(c, h, m)
	check(c, h, m, "recoded stream")
	c.NonTrivial(n, mul, mod, scale)
	c.Sample("%d values i*(i*%d+1) mod %d times %v", n, mul, mod, scale)
}
