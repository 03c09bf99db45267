// Package vt is the shared machinery of the property checks: the case runner on top of
// rapid, evidence collection, and a watchdog for cases that never end.
package vt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type state struct {
	mu       sync.Mutex
	evals    int
	skipped  int
	distinct map[uint64]struct{}
	labels   map[string]int
	samples  []interface{}
	perTest  map[string]int
	failed   int32

	caseSeq   int64
	caseStart time.Time
	caseCPU   time.Duration
	caseName  string
	inCase    bool
	slowest   time.Duration
	slowName  string
}

var (
	st       = &state{distinct: map[uint64]struct{}{}, labels: map[string]int{}, perTest: map[string]int{}}
	start    = time.Now()
	tier     = env("VT_TIER", "quick")
	seed     = envInt("VT_SEED", 1)
	shard    = envInt("VT_SHARD", 0)
	shards   = envInt("VT_SHARDS", 1)
	budget   = time.Duration(envInt("VT_BUDGET", 600)) * time.Second
	hangCPU  = time.Duration(envInt("VT_HANG_CPU", 180)) * time.Second
	hangWall = time.Duration(envInt("VT_HANG_WALL", 240)) * time.Second
	maxHeap  = uint64(envInt("VT_MAX_HEAP_MB", 3000)) << 20
	replay   = os.Getenv("VT_REPLAY") != ""
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Repo is the source tree under test.
func Repo() string { return env("VT_REPO", "/repo") }

// Thorough tells whether the deep tier is running.
func Thorough() bool { return tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func Pick(q, th int) int {
	if Thorough() {
		return th
	}
	return q
}

// Main runs the tests of a property and writes what they covered.
func Main(m *testing.M, rule string) {
	flag.Parse()
	go watchdog()
	code := m.Run()
	writeOut(rule)
	os.Exit(code)
}

func writeOut(rule string) {
	out := os.Getenv("VT_OUT")
	if out == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	hs := make([]uint64, 0, len(st.distinct))
	for h := range st.distinct {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	bin := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(bin[8*i:], h)
	}
	_ = os.WriteFile(out+".hashes", bin, 0o644)
	data, _ := json.Marshal(map[string]interface{}{
		"evaluations": st.evals, "skipped": st.skipped, "rule": rule, "samples": st.samples,
		"labels": st.labels, "per_test": st.perTest, "slowest_s": st.slowest.Seconds(), "slowest": st.slowName, "wall_s": time.Since(start).Seconds(),
	})
	_ = os.WriteFile(out, data, 0o644)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when one case burns far more time or memory than any case
// of this harness needs: cases take milliseconds, the limits are minutes and gigabytes.
func watchdog() {
	for {
		time.Sleep(2 * time.Second)
		st.mu.Lock()
		in, s, c, name := st.inCase, st.caseStart, st.caseCPU, st.caseName
		st.mu.Unlock()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > maxHeap {
			die("VT-BLOAT", name)
		}
		if !in {
			continue
		}
		cpu, wall := cpuTime()-c, time.Since(s)
		if cpu > hangCPU || (wall > hangWall && cpu < wall/20) {
			die("VT-HANG", name)
		}
	}
}

func die(what, name string) {
	fmt.Printf("\n%s in case of %s\n", what, name)
	_ = pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
	os.Exit(3)
}

// C is one generated case.
type C struct {
	*rapid.T
	h    uint64
	nt   bool
	test string
	lab  []string
	smp  []interface{}
}

// NonTrivial marks the case as non-trivial and identifies it by its content.
func (c *C) NonTrivial(key ...interface{}) {
	f := fnv.New64a()
	for _, k := range key {
		switch x := k.(type) {
		case []byte:
			f.Write(x)
		case string:
			f.Write([]byte(x))
		default:
			fmt.Fprintf(f, "%#v", x)
		}
		f.Write([]byte{0xff})
	}
	f.Write([]byte(c.test))
	c.h = f.Sum64()
	c.nt = true
}

// Label counts a category of cases.
func (c *C) Label(l string) { c.lab = append(c.lab, l) }

// Labelf counts a formatted category of cases.
func (c *C) Labelf(f string, a ...interface{}) { c.lab = append(c.lab, fmt.Sprintf(f, a...)) }

// Sample offers the case, written out, for the evidence file.
func (c *C) Sample(format string, a ...interface{}) {
	if len(c.smp) < 1 {
		c.smp = append(c.smp, Trunc(fmt.Sprintf(format, a...), 300))
	}
}

// Trunc shortens a string for reports.
func Trunc(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s...(%d bytes)", s[:n], len(s))
	}
	return s
}

// Check runs f over generated cases. quick and thorough are totals over all shards.
func Check(t *testing.T, name string, quick, thorough int, f func(c *C)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		n := quick
		if Thorough() {
			n = thorough
		}
		n = (n + shards - 1) / shards
		if n < 1 {
			n = 1
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%d/%s", seed, shard, t.Name())
		s := h.Sum64()
		if s == 0 {
			s = 1
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		if !replay {
			_ = flag.Set("rapid.seed", strconv.FormatUint(s, 10))
		}
		t0 := time.Now()
		rapid.Check(t, func(rt *rapid.T) { runCase(t.Name(), rt, f) })
		if os.Getenv("VT_TIMING") != "" {
			fmt.Printf("VT-TIME %s n=%d %.2fs\n", t.Name(), n, time.Since(t0).Seconds())
		}
	})
}

func runCase(name string, rt *rapid.T, f func(c *C)) {
	if atomic.LoadInt32(&st.failed) == 0 && !replay && time.Since(start) > budget {
		st.mu.Lock()
		st.skipped++
		st.mu.Unlock()
		return
	}
	c := &C{T: rt, test: name}
	st.mu.Lock()
	st.inCase, st.caseStart, st.caseCPU, st.caseName = true, time.Now(), cpuTime(), name
	st.mu.Unlock()
	done := false
	defer func() {
		p := recover()
		invalid := p != nil && strings.Contains(fmt.Sprintf("%T", p), "invalidData")
		if p != nil && !invalid || rt.Failed() {
			atomic.StoreInt32(&st.failed, 1)
		}
		st.mu.Lock()
		st.inCase = false
		if d := cpuTime() - st.caseCPU; d > st.slowest {
			st.slowest, st.slowName = d, name
		}
		if done && atomic.LoadInt32(&st.failed) == 0 {
			st.evals++
			st.perTest[name]++
			if c.nt {
				st.distinct[c.h] = struct{}{}
			}
			for _, l := range c.lab {
				st.labels[l]++
			}
			if n := st.perTest[name]; (n == 3 || n == 40) && len(st.samples) < 40 {
				for _, s := range c.smp {
					st.samples = append(st.samples, strings.TrimPrefix(name, "Test")+": "+fmt.Sprint(s))
				}
			}
		}
		st.mu.Unlock()
		if p != nil {
			panic(p)
		}
	}()
	f(c)
	done = !rt.Failed()
}

var hung int32

// Within runs f, which normally takes microseconds, and fails the case if it has not
// returned after the (very generous) limit. Panics are passed on.
func (c *C) Within(what string, f func()) {
	c.Helper()
	type res struct {
		p  interface{}
		st string
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			r := res{p: recover()}
			if r.p != nil {
				buf := make([]byte, 8192)
				r.st = string(buf[:runtime.Stack(buf, false)])
			}
			ch <- r
		}()
		f()
	}()
	limit := 120 * time.Second
	if atomic.LoadInt32(&hung) != 0 {
		limit = 5 * time.Second // only shrinking is left
	}
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case r := <-ch:
		if r.p != nil {
			c.Fatalf("%s: panic: %v\n%s", what, r.p, r.st)
		}
	case <-tm.C:
		atomic.StoreInt32(&hung, 1)
		buf := make([]byte, 1<<16)
		c.Fatalf("%s: did not return in time\n%s", what, buf[:runtime.Stack(buf, true)])
	}
}

// NoPanic runs f and turns a panic into a failure with the stack.
func (c *C) NoPanic(what string, f func()) {
	c.Helper()
	defer func() {
		if p := recover(); p != nil {
			if strings.Contains(fmt.Sprintf("%T", p), "rapid.") {
				panic(p)
			}
			buf := make([]byte, 8192)
			c.Fatalf("%s: panic: %v\n%s", what, p, buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
}
