//go:build go1.25

package veriffunc

import (
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

func init() {
	generators["C14"] = genLloyd
	generators["C18"] = genStreaming
	generators["C19"] = genMcmc
	generators["C11"] = genSnap
}

// drive runs real algorithms iteration by iteration: it is their finishing
// condition, evaluated by the execution loop between two iterations.
type drive struct {
	g      *gen
	algo   *core.Algo
	snap   func(core.OCModel) m // what is recorded of an iteration
	push   func()               // pushes an element
	begin  func()               // called before an iteration
	cur    core.Clust           // last clustering seen
	events []m
	left   int // iterations still to run
	last   int
	fresh  bool // no iteration since the initialisation
	idle   int  // consecutive iterations without effect
	rate   int  // one push out of rate
	kept   *guard
	figs   []core.RuntimeFigures
	figs0  []core.RuntimeFigures
	extra  func() // anything else to do between iterations
	early  func() // anything to do before the pushes
}

func (d *drive) observe(t string, model core.OCModel) {
	var e = d.snap(model)
	e["t"] = t
	d.events = append(d.events, e)
	var c = model.Centroids()
	d.kept.orig = append(d.kept.orig, c)
	d.kept.kept = append(d.kept.kept, deep(c))
	var f, f0 = model.RuntimeFigures(), core.RuntimeFigures{}
	for k, v := range f {
		f0[k] = v
	}
	d.figs, d.figs0 = append(d.figs, f), append(d.figs0, f0)
}

func (d *drive) IsFinished(model core.OCModel) bool {
	var it = int(model.RuntimeFigures()[core.Iterations])
	if d.fresh {
		d.fresh = false
		d.last, d.idle = 0, -1
		d.observe("init", model)
	}
	if it != d.last {
		if it != d.last+1 {
			panic(fmt.Sprintf("harness: iterations %v after %v", it, d.last))
		}
		d.last = it
		d.left--
		d.idle = 0
		d.observe("iter", model)
	} else {
		d.idle++
	}
	if d.left <= 0 || d.idle > 3 {
		return true
	}
	if d.early != nil && d.idle == 0 {
		d.early()
	}
	if d.rate > 0 && d.g.Intn(d.rate) == 0 {
		d.push()
	}
	if d.extra != nil {
		d.extra()
	}
	if d.begin != nil {
		d.begin()
	}
	return false
}

// rounds of iterations, with pushes and restarts in between
func (d *drive) rounds(n int, restarts bool) {
	d.kept = &guard{}
	d.fresh = true
	for i := 0; i < n; i++ {
		for d.rate > 0 && d.g.Intn(2*d.rate) == 0 {
			d.push()
		}
		d.left, d.idle = 1+d.g.Intn(4), 0
		if err := d.algo.Play(); err != nil {
			d.events = append(d.events, m{"t": "err", "e": err.Error()})
			d.fresh = true
		} else {
			await(d.algo)
			if st := d.algo.Status(); st.Value == core.Finished {
				d.events = append(d.events, m{"t": "fail", "e": fmt.Sprint(st.Error)})
				return
			}
		}
		for d.rate > 0 && d.g.Intn(2*d.rate) == 0 {
			d.push()
		}
		if restarts && d.g.Intn(3) == 0 {
			_ = d.algo.Stop()
			d.fresh = true
		}
	}
	_ = d.algo.Stop()
}

// await the end of an execution, faster than Wait
func await(algo core.OnlineClust) {
	for start := time.Now(); algo.Status().Value == core.Running; {
		time.Sleep(20 * time.Microsecond)
		if time.Since(start) > 30*time.Second {
			panic("harness: the execution does not end")
		}
	}
}

func (d *drive) mutated() bool {
	for i := range d.figs {
		if !same(d.figs[i], d.figs0[i]) {
			return true
		}
	}
	return d.kept.mutated()
}

func ratClust(c core.Clust) interface{} {
	var r = make([][][2]int, len(c))
	for i := range c {
		r[i] = ratElemt(c[i])
	}
	return r
}

func ratElemt(e core.Elemt) [][2]int {
	switch v := e.(type) {
	case nil:
		return [][2]int{}
	case rvec:
		return v.record()
	case []float64:
		return ratVec(v)
	}
	panic("harness: unexpected element")
}

// all elements, initial then pushed
type source struct {
	data [][]int
	n0   int
	used int
	make func(v []int) core.Elemt
}

func (s *source) initial() []core.Elemt {
	var r = []core.Elemt{}
	for i := 0; i < s.n0; i++ {
		r = append(r, s.make(s.data[i]))
	}
	s.used = s.n0
	return r
}

// pusher pushes next elements of the source
func (d *drive) pusher(s *source) func() {
	return func() {
		if s.used < len(s.data) {
			var e = s.make(s.data[s.used])
			s.used++
			if err := d.algo.Push(e); err != nil {
				panic(err)
			}
		}
	}
}

// C14
func genLloyd(g *gen) { lloydRun(g, false) }

func lloydRun(g *gen, copies bool) {
	var n = g.pick(2, 3, 4, 6, 8, 11)
	var k = g.pick(1, 1, 2, 2, 3, 4)
	if k > n {
		k = n
	}
	var dim, hi = g.pick(1, 1, 2), g.pick(1, 2, 5)
	var large = g.Intn(100) == 0
	if large {
		n, k, dim, hi = 60+g.Intn(90), g.pick(1, 2, 3), 1, 9
		if g.Intn(2) == 0 {
			n, k, dim = 20+g.Intn(20), 8+g.Intn(6), g.pick(1, 2)
		}
	}
	var n0 = k + g.Intn(n-k+1)
	var frame = 0
	if g.Intn(3) == 0 {
		frame = k + g.Intn(n-k+2)
	}
	var src = &source{data: g.vecs(n, dim, 0, hi), n0: n0}
	var space core.Space
	var sp = "r"
	if g.Intn(3) == 0 && !large {
		sp = "euclid"
		space = euclid.NewSpace()
		src.make = func(v []int) core.Elemt { return floats(v, 1) }
	} else {
		space = rspace{dim}
		src.make = func(v []int) core.Elemt { return newRvec(v) }
	}
	var par = g.Intn(2) == 0
	var cpu = g.pick(0, 1, 2, 3, n, n+1, 17)
	var c = m{"k": "lloyd", "sp": sp, "data": src.data, "n0": n0, "kk": k, "frame": frame, "par": par, "cpu": cpu}
	var tw = &twin{g: g, c: c, src: src, frame: frame}
	g.run(c, func() m {
		var d = &drive{g: g, rate: 2 + g.Intn(3)}
		var conf = kmeans.Conf{K: k, Par: par, NumCPU: cpu, FrameSize: frame, CtrlConf: core.CtrlConf{Finishing: d}}
		d.algo = kmeans.NewAlgo(conf, space, src.initial(), kmeans.GivenInitializer)
		d.push = d.pusher(src)
		var snap = func(s *source) func(model core.OCModel) m {
			return func(model core.OCModel) m { return m{"clust": ratClust(model.Centroids()), "pushed": s.used} }
		}
		d.snap = snap(src)
		if copies {
			tw.prepare(d, func(d2 *drive, src2 *source) core.Conf {
				d2.snap = snap(src2)
				return &kmeans.Conf{K: k, Par: par, NumCPU: cpu, FrameSize: frame, CtrlConf: core.CtrlConf{Finishing: d2}}
			})
		}
		d.rounds(1+g.Intn(3), g.Intn(2) == 0)
		tw.finish()
		return m{"ev": d.events}
	})
	tw.emit()
}

// twin is a copy made between two iterations of an algorithm, run at some
// other time, and recorded as a case of its own
type twin struct {
	g     *gen
	c     m
	src   *source
	frame int
	algo  core.OnlineClust
	d     *drive
	src2  *source
	runs  int
	done  bool
}

func (t *twin) prepare(d *drive, conf func(*drive, *source) core.Conf) {
	d.early = func() {
		if t.algo == nil && t.g.Intn(2) == 0 {
			// the data seen by the iterations: all pushes are applied here
			var data = t.src.data[:t.src.used]
			if t.frame > 0 && len(data) > t.frame {
				data = data[len(data)-t.frame:]
			}
			t.src2 = &source{n0: len(data), used: len(data), make: t.src.make}
			t.src2.data = append(append([][]int{}, data...), t.g.vecs(t.g.Intn(4), len(t.src.data[0]), 0, 3)...)
			t.d = &drive{g: t.g, rate: 2}
			var c = conf(t.d, t.src2)
			var cp, err = d.algo.Copy(c, d.algo.Space())
			if err != nil {
				panic(err)
			}
			t.d.algo = cp.(*core.Algo)
			t.d.push = t.d.pusher(t.src2)
			t.algo = cp
		}
		if t.algo != nil && !t.done && t.g.Intn(3) == 0 {
			t.run()
		}
	}
}

func (t *twin) run() {
	t.done = true
	t.d.rounds(1+t.g.Intn(2), t.g.Intn(2) == 0)
}

func (t *twin) finish() {
	if t.algo != nil && !t.done {
		t.run()
	}
}

func (t *twin) emit() {
	if !t.done {
		return
	}
	var c = m{}
	for k, v := range t.c {
		c[k] = v
	}
	delete(c, "ev")
	delete(c, "crash")
	c["data"], c["n0"], c["twin"] = t.src2.data, t.src2.n0, true
	t.g.run(c, func() m { return m{"ev": t.d.events} })
}

// recording distribution
type recorder struct {
	mu    sync.Mutex
	g     *gen
	p     float64
	shift int
	mus   [][][2]int
	outs  [][][2]int
	times []int
}

func (r *recorder) Sample(mu core.Elemt, time int) core.Elemt {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.mus = append(r.mus, ratElemt(mu))
	r.times = append(r.times, time)
	var out core.Elemt
	switch v := mu.(type) {
	case rvec:
		var s = g1(r.g, r.shift, len(v))
		var x = make(rvec, len(v))
		for i := range v {
			x[i] = newRvec(s[i : i+1])[0]
			x[i].Add(x[i], v[i])
		}
		out = x
	case []float64:
		var s = g1(r.g, r.shift, len(v))
		var x = make([]float64, len(v))
		for i := range v {
			x[i] = v[i] + float64(s[i])
		}
		out = x
	}
	r.outs = append(r.outs, ratElemt(out))
	return out
}

func g1(g *gen, shift, n int) []int {
	var s = make([]int, n)
	for i := range s {
		if shift > 0 && g.Intn(2) == 0 {
			s[i] = g.Intn(2*shift+1) - shift
		}
	}
	return s
}

func (r *recorder) Pdf(x, mu core.Elemt, time int) float64 { return r.p }

// C19
func genMcmc(g *gen) { mcmcRun(g, false) }

func mcmcRun(g *gen, copies bool) {
	var n = g.pick(1, 2, 3, 4, 5, 6)
	var initk = 1 + g.Intn(3)
	if initk > n {
		initk = n
	}
	var maxk = initk + g.Intn(3)
	if g.Intn(4) == 0 {
		maxk = 16
	}
	var n0 = initk + g.Intn(n-initk+1)
	var dim, hi = g.pick(1, 1, 2), g.pick(1, 2, 3)
	var frame = 0
	if g.Intn(4) == 0 {
		frame = initk + g.Intn(n-initk+1)
	}
	var src = &source{data: g.vecs(n, dim, 0, hi), n0: n0}
	var space core.Space
	var sp = []string{"r", "r", "euclid", "abs"}[g.Intn(4)]
	var norm = 1.
	switch sp {
	case "r":
		space = rspace{dim}
		src.make = func(v []int) core.Elemt { return newRvec(v) }
	case "euclid":
		space = euclid.NewSpace()
		norm = 2
		src.make = func(v []int) core.Elemt { return floats(v, 1) }
	case "abs":
		dim = 1
		for i := range src.data {
			src.data[i] = src.data[i][:1]
		}
		space = euclid.NewSpace()
		src.make = func(v []int) core.Elemt { return floats(v, 1) }
	}
	if norm == 2 && g.Intn(2) == 0 {
		norm = 0 // default
	}
	var par = g.Intn(2) == 0
	var cpu = g.pick(0, 1, 2, 3, 7)
	var amp2 = g.pick(0, 0, 1, 2, 4, 100)
	var l = g.Intn(2)
	var p = g.pick(0, 0, 1, 2, 100)
	var proba = [][]int{{}, {1, 8, 1}, {1, 1, 1}, {0, 1, 0}, {0, 0, 1}, {2, 0, 3}, {1, 1, 0}}[g.Intn(7)]
	var shift = g.pick(0, 0, 1, 2, 20)
	var zeros = g.Intn(8) == 0
	if zeros { // the ratio underflows
		shift, amp2 = 20, 2000
	}
	var c = m{"k": "mcmc", "sp": sp, "data": src.data, "n0": n0, "kk": initk, "maxk": maxk, "frame": frame,
		"par": par, "cpu": cpu, "amp2": amp2, "l": l, "p": p, "proba": proba, "dim": dim}
	if len(proba) == 0 {
		c["proba"] = []int{1, 8, 1}
	}
	var tw = &twin{g: g, c: c, src: src, frame: frame}
	g.run(c, func() m {
		var d = &drive{g: g, rate: 2 + g.Intn(3)}
		var rec = &recorder{g: g, p: float64(p), shift: shift}
		var conf = mcmc.Conf{InitK: initk, MaxK: maxk, Par: par, NumCPU: cpu, FrameSize: frame, RGen: g.anyRgen(),
			Amp: float64(amp2) / 2, B: []float64{.5, math.E / 2}[l], Norm: norm, ProbaK: floats(proba, 1), CtrlConf: core.CtrlConf{Finishing: d}}
		if zeros {
			conf.RGen = g.zeroRgen()
		}
		d.algo = mcmc.NewAlgo(conf, space, src.initial(), kmeans.GivenInitializer, rec)
		d.push = d.pusher(src)
		d.begin = func() { rec.mus, rec.outs, rec.times = [][][2]int{}, [][][2]int{}, nil }
		var snap = func(d *drive, src *source, model core.OCModel) m {
			var e = m{"clust": ratClust(model.Centroids()), "pushed": src.used}
			if d.fresh || d.last == 0 {
				return e
			}
			var f = model.RuntimeFigures()
			var lam, gibbs, rho = f[mcmc.Lambda], f[mcmc.RGibbs], f[mcmc.Rho]
			e["acc"], e["time"] = rat(f[mcmc.Acceptations])[0], rat(f[mcmc.Time])[0]
			e["mus"], e["outs"] = rec.mus, rec.outs
			e["lam2"] = rat(lam * lam)
			e["gibbs"] = [2]int{0, 1}
			if amp2 > 0 {
				e["gibbs"] = rat(gibbs / lam)
			} else if gibbs != 0 {
				e["gibbs"] = [2]int{0, 0}
			}
			e["rho"] = "mid"
			if rho >= 1 {
				e["rho"] = "ge1"
			} else if rho == 0 {
				e["rho"] = "zero"
			} else if !(rho > 0) {
				e["rho"] = "nan"
			}
			// what the ratio adds to the Gibbs term
			e["lnr"] = 9999
			if rho > 0 && !math.IsInf(rho, 1) && rho > 1e-300 {
				var x = math.Log(rho) - gibbs
				if math.Abs(x-math.Round(x)) < 1e-6 {
					e["lnr"] = int(math.Round(x))
				}
			} else {
				e["lnr"] = 8888 // under or overflow
			}
			var stime = true
			for _, t := range rec.times {
				stime = stime && t == rat(f[mcmc.Time])[0]
			}
			e["stime"] = stime
			return e
		}
		d.snap = func(model core.OCModel) m { return snap(d, src, model) }
		if copies {
			tw.prepare(d, func(d2 *drive, src2 *source) core.Conf {
				d2.begin = d.begin
				d2.snap = func(model core.OCModel) m { return snap(d2, src2, model) }
				var conf2 = conf
				conf2.RGen, conf2.CtrlConf = g.anyRgen(), core.CtrlConf{Finishing: d2}
				return &conf2
			})
		}
		d.rounds(1+g.Intn(3), g.Intn(2) == 0)
		tw.finish()
		return m{"ev": d.events}
	})
	tw.emit()
}

// C18
func genStreaming(g *gen) {
	var n = 1 + g.Intn(14)
	if g.Intn(20) == 0 {
		n = 20 + g.Intn(30)
	}
	var hi = g.pick(2, 6, 15)
	var ids = make([]int, n) // positions, with duplicates
	for i := range ids {
		ids[i] = g.Intn(hi + 1)
		if g.Intn(6) == 0 {
			ids[i] = 40 + g.Intn(20)
		}
	}
	var n0 = g.Intn(n + 1)
	var size = g.pick(1, 2, 3, 5, 20)
	if size < n0 {
		size = n0 + g.Intn(2)
	}
	var after = g.pick(2, 2, 3, 5)
	var ratio2 = g.pick(1, 2, 3, 4, 7)
	var mu2 = g.pick(1, 1, 2, 3)
	var tiny = g.Intn(2) == 0
	var sigma = .1
	if tiny {
		sigma = 1e-9
	}
	g.run(m{"k": "stream", "pos": ids, "n0": n0, "size": size, "after": after, "ratio2": ratio2, "mu2": mu2, "tiny": tiny}, func() m {
		var d = &drive{g: g, rate: 1 + g.Intn(2)}
		var rg = g.anyRgen()
		if tiny { // extreme uniform numbers give infinite normal ones
			rg, _ = g.rgen()
		}
		var conf = streaming.Conf{BufferSize: size, OutAfter: after, OutRatio: float64(ratio2) / 2, Mu: float64(mu2) / 2, Sigma: sigma, RGen: rg,
			CtrlConf: core.CtrlConf{Finishing: d}}
		var data = []core.Elemt{}
		for i := 0; i < n0; i++ {
			data = append(data, obs{sum: ids[i], ids: []int{i + 1}})
		}
		d.algo = streaming.NewAlgo(conf, obsSpace{}, data)
		var next = n0
		d.push = func() {
			if next >= n {
				return
			}
			var err = d.algo.Push(obs{sum: ids[next], ids: []int{next + 1}})
			next++
			d.events = append(d.events, m{"t": "push", "id": next, "ok": err == nil, "st": statusNames[d.algo.Status().Value]})
		}
		d.snap = func(model core.OCModel) m {
			var cs = [][]int{}
			for _, x := range model.Centroids() {
				cs = append(cs, x.(obs).record())
			}
			return m{"cs": cs, "max": rat(model.RuntimeFigures()[streaming.MaxDistance])}
		}
		d.rounds(1+g.Intn(4), g.Intn(2) == 0)
		return m{"ev": d.events}
	})
}

// obs are observations, or averages of several of them
type obs struct {
	sum int
	ids []int
	bad bool
}

func (o obs) pos() float64 { return float64(o.sum) / float64(len(o.ids)) }
func (o obs) record() []int {
	if o.bad {
		return []int{-1}
	}
	var r = append([]int{}, o.ids...)
	sortInts(r)
	return r
}

type obsSpace struct{}

func (obsSpace) Dist(a, b core.Elemt) float64 { return math.Abs(a.(obs).pos() - b.(obs).pos()) }
func (obsSpace) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	var x, y = a.(obs), b.(obs)
	return obs{sum: x.sum + y.sum, ids: append(append([]int{}, x.ids...), y.ids...),
		bad: x.bad || y.bad || u != len(x.ids) || v != len(y.ids)}
}
func (obsSpace) Copy(a core.Elemt) core.Elemt {
	var x = a.(obs)
	return obs{sum: x.sum, ids: append([]int{}, x.ids...), bad: x.bad}
}
func (obsSpace) Dim([]core.Elemt) int { return 1 }

// C11: what is returned never changes
func genSnap(g *gen) {
	var n = 3 + g.Intn(8)
	var k = 1 + g.Intn(3)
	var src = &source{data: g.vecs(n, 2, 0, 5), n0: k + g.Intn(n-k+1), make: func(v []int) core.Elemt { return floats(v, 1) }}
	var kind = []string{"kmeans", "mcmc", "streaming"}[g.Intn(3)]
	var par, frame = g.Intn(2) == 0, g.pick(0, 0, k, k+1)
	var init = []string{"given", "rand"}[g.Intn(2)]
	g.run(m{"k": "snap", "algo": kind, "kk": k, "n": n, "par": par, "frame": frame, "init": init}, func() m {
		var d = &drive{g: g, rate: 2}
		var ctrl = core.CtrlConf{Finishing: d}
		switch kind {
		case "kmeans":
			d.algo = kmeans.NewAlgo(kmeans.Conf{K: k, Par: par, FrameSize: frame, CtrlConf: ctrl}, euclid.NewSpace(), src.initial(), kmeans.CreateInitializer(init))
		case "mcmc":
			d.algo = mcmc.NewAlgo(mcmc.Conf{InitK: k, MaxK: k + g.Intn(3), Par: par, FrameSize: frame, Amp: float64(g.Intn(2)), B: 1, ProbaK: []float64{1, 1, 1}, CtrlConf: ctrl, RGen: g.anyRgen()},
				euclid.NewSpace(), src.initial(), kmeans.CreateInitializer(init), mcmc.NewDirac())
		default:
			d.algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, RGen: g.anyRgen()}, euclid.NewSpace(), src.initial())
		}
		d.push = d.pusher(src)
		var preds = &guard{}
		var consistent = true
		d.snap = func(model core.OCModel) m {
			// what the algorithm itself gives at the same time
			var c, f = d.algo.Centroids(), d.algo.RuntimeFigures()
			if !same(c, model.Centroids()) || f[core.Iterations] != model.RuntimeFigures()[core.Iterations] {
				consistent = false
			}
			for i := 0; i < 2; i++ {
				var e = floats(src.data[g.Intn(n)], 1)
				var gd = guarded(e)
				var p, l, dist = d.algo.Predict(e)
				var _, wl, wd = c.Assign(e, euclid.NewSpace())
				if gd.mutated() || l != wl || dist != wd || l < 0 || l >= len(c) || !same(p, c[l]) {
					consistent = false
				}
				preds.orig = append(preds.orig, p)
				preds.kept = append(preds.kept, deep(p))
			}
			return m{}
		}
		d.rounds(2+g.Intn(3), g.Intn(2) == 0)
		return m{"mut": d.mutated() || preds.mutated(), "consistent": consistent, "n": len(d.events)}
	})
}
