//go:build go1.25

// Package veriffunc runs the functional parts of the real code on generated
// inputs and records inputs and results, which TLC judges with spec/Cases.tla.
package veriffunc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/internal/vsync"
	xrand "golang.org/x/exp/rand"
)

type m = map[string]interface{}

// rat records a real number as a rational of denominator at most maxDen
const maxDen = 40000

func rat(x float64) [2]int {
	if math.IsNaN(x) {
		return [2]int{0, 0}
	}
	if math.IsInf(x, 1) {
		return [2]int{1, 0}
	}
	if math.IsInf(x, -1) || math.Abs(x) > 1e8 {
		return [2]int{-1, 0}
	}
	var tol = 1e-10 * math.Max(1, math.Abs(x))
	var p0, q0, p1, q1 = 0, 1, 1, 0
	var y = x
	for k := 0; k < 40; k++ {
		var a = int(math.Floor(y))
		var p2, q2 = a*p1 + p0, a*q1 + q0
		if q2 > maxDen {
			break
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		if math.Abs(x-float64(p1)/float64(q1)) <= tol {
			return [2]int{p1, q1}
		}
		y = 1 / (y - float64(a))
		if math.IsInf(y, 0) {
			break
		}
	}
	return [2]int{int(math.Floor(x)), 0}
}

func ratVec(v []float64) [][2]int {
	var r = make([][2]int, len(v))
	for i := range v {
		r[i] = rat(v[i])
	}
	return r
}

func ratSeries(s [][]float64) [][][2]int {
	var r = make([][][2]int, len(s))
	for i := range s {
		r[i] = ratVec(s[i])
	}
	return r
}

// gen is a source of cases
type gen struct {
	*rand.Rand
	t     *testing.T
	w     *bufio.Writer
	index int  // of the case
	base  int  // of the call of the generator
	big   bool // thorough
}

func (g *gen) pick(l ...int) int { return l[g.Intn(len(l))] }

func (g *gen) line(c m) {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	g.w.Write(b)
	g.w.WriteByte('\n')
	g.w.Flush()
}

// run executes a case: the fields of c are its inputs, those returned by f its
// results. The beginning is recorded apart in case the process dies.
func (g *gen) run(c m, f func() m) {
	g.line(m{"begin": g.base, "in": c})
	g.index++
	type result struct {
		out   m
		crash string
	}
	var done = make(chan result, 1)
	var body = func() {
		var r result
		defer func() {
			if e := recover(); e != nil {
				r = result{crash: fmt.Sprintf("panic: %v at %s", e, stack())}
			}
			done <- r
		}()
		r.out = f()
	}
	var start = time.Now()
	if c["sync"] == true {
		var watchdog = time.AfterFunc(60*time.Second, func() {
			c["crash"] = "hang"
			g.line(c)
			g.w.Flush()
			fmt.Println("HARNESS DONE")
			os.Exit(0)
		})
		body() // synctest bubbles have to be run by the test goroutine
		watchdog.Stop()
	} else {
		go body()
	}
	var r result
	select {
	case r = <-done:
	case <-time.After(60 * time.Second):
		r.crash = "hang"
	}
	for k, v := range r.out {
		c[k] = v
	}
	c["crash"] = r.crash
	g.line(c)
	if r.crash == "hang" || r.crash != "" && time.Since(start) > 3*time.Second { // others would be as long
		g.w.Flush()
		fmt.Println("HARNESS DONE")
		os.Exit(0)
	}
}

// bubble runs f in virtual time, with random scheduling points
func (g *gen) bubble(f func()) {
	var seed, lvl, max = g.Uint64(), g.pick(0, 1, 2, 5), g.pick(1, 4, 20)
	var crash interface{}
	synctest.Test(g.t, func(t *testing.T) {
		vsync.Enable(seed, lvl, max)
		defer vsync.Enable(0, 0, 1)
		defer func() {
			if e := recover(); e != nil {
				crash = fmt.Sprintf("%v at %s", e, stack())
			}
		}()
		f()
	})
	if crash != nil {
		panic(crash)
	}
}

// maybe in a bubble
func (g *gen) maybe(c m, f func() m) func() m {
	if g.Intn(3) > 0 {
		return f
	}
	c["sync"] = true
	return func() (r m) {
		g.bubble(func() { r = f() })
		return
	}
}

// yielding makes a space a place where schedules change
type yielding struct{ core.Space }

func (s yielding) Dist(a, b core.Elemt) float64 {
	vsync.Yield()
	return s.Space.Dist(a, b)
}

func (s yielding) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	vsync.Yield()
	var r = s.Space.Combine(a, u, b, v)
	vsync.Yield()
	return r
}

func stack() string {
	var s = string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// rsource is a scripted source of random numbers, then a seeded one
type rsource struct {
	script []uint64
	used   int
	next   xrand.Source
}

func (s *rsource) Seed(uint64) {}
func (s *rsource) Uint64() uint64 {
	s.used++
	if len(s.script) > 0 {
		var v = s.script[0]
		s.script = s.script[1:]
		return v
	}
	return s.next.Uint64()
}

func (g *gen) rgen(script ...uint64) (*xrand.Rand, *rsource) {
	var s = &rsource{script: script, next: xrand.NewSource(g.Uint64())}
	return xrand.New(s), s
}

// some random generator, whose first numbers may be extreme
func (g *gen) anyRgen() *xrand.Rand {
	var script []uint64
	for g.Intn(3) == 0 {
		script = append(script, []uint64{0, math.MaxUint64, 1 << 63, g.Uint64()}[g.Intn(4)])
	}
	var r, _ = g.rgen(script...)
	return r
}

// a random generator which often gives zero
func (g *gen) zeroRgen() *xrand.Rand {
	var script []uint64
	for i := 0; i < 300; i++ {
		script = append(script, []uint64{0, g.Uint64()}[g.Intn(2)])
	}
	var r, _ = g.rgen(script...)
	return r
}

// deep copies of elements
func deep(x interface{}) interface{} {
	switch v := x.(type) {
	case nil:
		return nil
	case []float64:
		return append([]float64{}, v...)
	case [][]float64:
		var r = make([][]float64, len(v))
		for i := range v {
			r[i] = append([]float64{}, v[i]...)
		}
		return r
	case core.Clust:
		var r = make(core.Clust, len(v))
		for i := range v {
			r[i] = deep(v[i])
		}
		return r
	case []core.Elemt:
		var r = make([]core.Elemt, len(v))
		for i := range v {
			r[i] = deep(v[i])
		}
		return r
	case []int:
		return append([]int{}, v...)
	case bag:
		return bag{ids: append([]int{}, v.ids...), w: v.w, bad: v.bad, cen: v.cen}
	}
	return x
}

// guard detects modifications of arguments
type guard struct{ orig, kept []interface{} }

func guarded(xs ...interface{}) *guard {
	var g = &guard{}
	for _, x := range xs {
		g.orig = append(g.orig, x)
		g.kept = append(g.kept, deep(x))
	}
	return g
}

func (g *guard) mutated() bool {
	for i := range g.orig {
		if !same(g.orig[i], g.kept[i]) {
			return true
		}
	}
	return false
}

func same(a, b interface{}) bool {
	var va, vb = reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// vectors of small integers
func (g *gen) vec(dim, lo, hi int) []int {
	var v = make([]int, dim)
	for i := range v {
		v[i] = lo + g.Intn(hi-lo+1)
	}
	return v
}

func (g *gen) vecs(n, dim, lo, hi int) [][]int {
	var v = make([][]int, n)
	for i := range v {
		v[i] = g.vec(dim, lo, hi)
		if i > 0 && g.Intn(4) == 0 {
			v[i] = v[g.Intn(i)]
		}
	}
	return v
}

func floats(v []int, scale float64) []float64 {
	var r = make([]float64, len(v))
	for i := range v {
		r[i] = float64(v[i]) * scale
	}
	return r
}

func series1(v []int) [][]float64 {
	var r = make([][]float64, len(v))
	for i := range v {
		r[i] = []float64{float64(v[i])}
	}
	return r
}

func elemts(vs [][]int, scale float64) []core.Elemt {
	var r = make([]core.Elemt, len(vs))
	for i := range vs {
		r[i] = floats(vs[i], scale)
	}
	return r
}

func ints(n int) []int {
	var r = make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

var generators = map[string]func(*gen){}

func TestFunc(t *testing.T) {
	var prop = os.Getenv("VERIF_PROP")
	var seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var first, _ = strconv.Atoi(os.Getenv("VERIF_FIRST"))
	var n, _ = strconv.Atoi(os.Getenv("VERIF_N"))
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var w = bufio.NewWriterSize(f, 1<<20)
	for i := first; i < first+n; i++ {
		var g = &gen{Rand: rand.New(rand.NewSource(seed*1000003 + int64(i))), t: t, w: w, index: i, base: i, big: os.Getenv("VERIF_TIER") == "thorough"}
		generators[prop](g)
	}
	w.Flush()
	fmt.Println("HARNESS DONE")
}
