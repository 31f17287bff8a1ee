//go:build go1.25

package veriffunc

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

func init() {
	generators["C24"] = genCopy
}

// countSpace counts its calls
type countSpace struct {
	obsSpace
	calls *int64
}

func (s countSpace) Dist(a, b core.Elemt) float64 {
	atomic.AddInt64(s.calls, 1)
	return s.obsSpace.Dist(a, b)
}
func (s countSpace) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	atomic.AddInt64(s.calls, 1)
	return s.obsSpace.Combine(a, u, b, v)
}

// side is an algorithm with what is observed of it
type side struct {
	algo    core.OnlineClust
	calls   *int64
	space   core.Space
	conf    core.Conf
	stop    *stopAfter
	mu      sync.Mutex
	foreign int // notifications about another algorithm
	pushed  []int
	kept    m
}

// stopAfter some iterations
type stopAfter struct{ n int }

func (s *stopAfter) IsFinished(model core.OCModel) bool {
	return int(model.RuntimeFigures()[core.Iterations]) >= s.n
}

func (s *side) note(algo core.OnlineClust, _ core.OCStatus) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.algo != nil && algo != s.algo {
		s.foreign++
	}
}

func (s *side) others() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.foreign
}

func (s *side) confOf(g *gen, kind string, frame int, fin core.Finishing) core.Conf {
	var ctrl = core.CtrlConf{Finishing: fin, StatusNotifier: s.note}
	var par, cpu = g.Intn(2) == 0, g.pick(0, 1, 2, 5)
	if kind == "kmeans" {
		return &kmeans.Conf{K: 1, Par: par, NumCPU: cpu, FrameSize: frame, CtrlConf: ctrl, RGen: g.anyRgen()}
	}
	return &mcmc.Conf{InitK: 1, MaxK: 1, ProbaK: []float64{0, 1, 0}, B: 1, Par: par, NumCPU: cpu, FrameSize: frame, CtrlConf: ctrl, RGen: g.anyRgen()}
}

// state that the other side must not change
func (s *side) state() m {
	var figs = m{}
	for k, v := range s.algo.RuntimeFigures() {
		figs[k] = v
	}
	return m{"st": s.algo.Status(), "figs": figs, "clust": deepObs(s.algo.Centroids()), "conf": s.algo.Conf() == s.conf, "calls": atomic.LoadInt64(s.calls)}
}

func deepObs(c core.Clust) [][]int {
	var r = [][]int{}
	for _, e := range c {
		r = append(r, e.(obs).record())
	}
	return r
}

func genCopy(g *gen) {
	switch g.Intn(7) {
	case 6:
		genStreamCopy(g)
		return
	case 0:
		lloydRun(g, true)
		return
	case 1:
		mcmcRun(g, true)
		return
	}
	var n = 2 + g.Intn(10)
	var n0 = g.Intn(n)
	var kind = []string{"kmeans", "mcmc"}[g.Intn(2)]
	var frame = g.pick(0, 0, 1, 2, 3, 5)
	g.run(m{"k": "copy", "algo": kind, "n0": n0, "frame": frame}, func() m {
		var newSide = func() *side {
			var s = &side{calls: new(int64), stop: &stopAfter{}}
			s.space = countSpace{calls: s.calls}
			return s
		}
		var orig = newSide()
		var copies []*side
		var d = &drive{g: g, rate: 2}
		orig.conf = orig.confOf(g, kind, frame, d)
		var data = []core.Elemt{}
		for i := 0; i < n0; i++ {
			data = append(data, obs{sum: g.Intn(9), ids: []int{i + 1}})
		}
		if kind == "kmeans" {
			d.algo = kmeans.NewAlgo(*orig.conf.(*kmeans.Conf), orig.space, data, kmeans.GivenInitializer)
		} else {
			d.algo = mcmc.NewAlgo(*orig.conf.(*mcmc.Conf), orig.space, data, kmeans.GivenInitializer, mcmc.NewDirac())
		}
		orig.conf = d.algo.Conf()
		orig.algo = d.algo
		var next = n0
		var alive = func() bool {
			var v = d.algo.Status().Value
			return v == core.Ready || v == core.Running || v == core.Idle
		}
		// copies are as they were left
		var quiet = func() bool {
			for _, c := range copies {
				if !same(c.state(), c.kept) {
					return false
				}
			}
			return true
		}
		d.push = func() {
			if next >= n {
				return
			}
			var a = alive()
			if err := d.algo.Push(obs{sum: g.Intn(9), ids: []int{next + 1}}); err != nil {
				panic(err)
			}
			next++
			d.events = append(d.events, m{"t": "push", "pushed": next, "alive": a, "quiet": quiet()})
		}
		var makeCopy = func() {
			var c = newSide()
			var fr = g.pick(frame, frame, 0, 2)
			c.conf = c.confOf(g, kind, fr, c.stop)
			var before = orig.state()
			var cp, err = orig.algo.Copy(c.conf, c.space)
			if err != nil {
				panic(err)
			}
			c.algo = cp
			var figs = cp.RuntimeFigures()
			var fresh = cp.Status().Value == core.Created && cp.Status().Error == nil && len(cp.Centroids()) == 0 &&
				figs[core.Iterations] == 0 && figs[core.PushedData] == 0
			c.kept = c.state()
			copies = append(copies, c)
			d.events = append(d.events, m{"t": "copy", "pushed": next, "fr": fr, "fresh": fresh, "given": cp.Conf() == c.conf && cp.Space() == c.space,
				"quiet": same(before, orig.state()) && quiet()})
		}
		var useCopy = func(i int) {
			var c = copies[i]
			var before = orig.state()
			var othersQuiet = quiet()
			for g.Intn(2) == 0 {
				var id = 100*(i+1) + len(c.pushed)
				if err := c.algo.Push(obs{sum: g.Intn(9), ids: []int{id}}); err != nil {
					panic(err)
				}
				c.pushed = append(c.pushed, id)
			}
			var e = m{"t": "crun", "c": i + 1, "cp": append([]int{}, c.pushed...), "ids": []int{}, "err": true, "ran": false}
			if g.Intn(4) > 0 {
				e["ran"] = true
				c.stop.n = 1 + g.Intn(2)
				if c.algo.Play() == nil {
					await(c.algo)
					e["err"] = false
					if cs := c.algo.Centroids(); len(cs) == 1 {
						e["ids"] = cs[0].(obs).record()
					}
					_ = c.algo.Stop()
				}
			}
			c.kept = c.state()
			e["quiet"] = othersQuiet && same(before, orig.state()) && quiet()
			if e["quiet"] == false {
				e["note"] = fmt.Sprint(othersQuiet, before, orig.state())
			}
			d.events = append(d.events, e)
		}
		var act = func() {
			if len(copies) < 3 && g.Intn(2) == 0 {
				makeCopy()
			}
			if len(copies) > 0 && g.Intn(2) == 0 {
				useCopy(g.Intn(len(copies)))
			}
		}
		d.extra = func() {
			if g.Intn(3) == 0 {
				act()
			}
		}
		d.snap = func(model core.OCModel) m {
			return m{"ids": model.Centroids()[0].(obs).record(), "pushed": next, "quiet": quiet()}
		}
		if g.Intn(2) == 0 {
			act()
		}
		d.rounds(1, false)
		for i := g.Intn(3); i > 0; i-- {
			act()
			d.push()
			act()
			d.fresh = true
			var ev = d.events
			d.rounds(1, false)
			_ = ev
			act()
		}
		for i := range copies {
			useCopy(i)
		}
		time.Sleep(500 * time.Microsecond) // last notifications
		var foreign = orig.others()
		for _, c := range copies {
			foreign += c.others()
		}
		return m{"ev": d.events, "foreign": foreign}
	})
}

// manyCenters is met with n centers
type manyCenters struct{ n int }

func (c *manyCenters) IsFinished(model core.OCModel) bool { return len(model.Centroids()) >= c.n }

// genStreamCopy copies streaming algorithms and their copies; every element becomes a center
func genStreamCopy(g *gen) {
	var n0 = g.Intn(4)
	var size0 = n0 + g.pick(1, 2, 20)
	var acts = 4 + g.Intn(12)
	g.run(m{"k": "scopy", "n0": n0, "size": size0}, func() m {
		var algos []*side
		var counts []int // elements given
		var fins []*manyCenters
		var next = 0
		var elemt = func() core.Elemt {
			next++
			return obs{sum: next, ids: []int{next}}
		}
		var newSide = func(size int) *side {
			var s = &side{calls: new(int64)}
			var fin = &manyCenters{}
			fins = append(fins, fin)
			s.space = countSpace{calls: s.calls}
			s.conf = &streaming.Conf{BufferSize: size, Mu: -1e9, Sigma: 1e-9, OutAfter: 1000000, RGen: g.anyRgen(),
				CtrlConf: core.CtrlConf{Finishing: fin, StatusNotifier: s.note}}
			return s
		}
		var record = func(c core.Clust) []int {
			var r = []int{}
			for _, e := range c {
				if o := e.(obs); len(o.ids) == 1 && !o.bad {
					r = append(r, o.ids[0])
				} else {
					r = append(r, -1)
				}
			}
			return r
		}
		var first = newSide(size0)
		var data = []core.Elemt{}
		for i := 0; i < n0; i++ {
			data = append(data, elemt())
		}
		var algo = streaming.NewAlgo(*first.conf.(*streaming.Conf), first.space, data)
		first.algo, first.conf = algo, algo.Conf()
		first.kept = first.state()
		algos, counts = append(algos, first), append(counts, n0)
		var ev = []m{}
		for ; acts > 0; acts-- {
			var a = g.Intn(len(algos))
			var s = algos[a]
			var e = m{"a": a + 1}
			var kind = g.Intn(6)
			switch {
			case kind == 0 && len(algos) < 4:
				var size = g.pick(1, 2, 3, 30)
				var c = newSide(size)
				e["t"], e["size"], e["fresh"], e["given"] = "copy", size, true, true
				var cp core.OnlineClust
				var err error
				func() {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("%v", r)
						}
					}()
					cp, err = s.algo.Copy(c.conf, c.space)
				}()
				e["refused"] = err != nil
				if err != nil {
					fins = fins[:len(fins)-1]
					break
				}
				c.algo = cp
				var figs = cp.RuntimeFigures()
				e["fresh"] = cp.Status().Value == core.Created && cp.Status().Error == nil && len(cp.Centroids()) == 0 &&
					figs[core.Iterations] == 0 && figs[core.PushedData] == 0 && figs[streaming.MaxDistance] == 0
				e["given"] = cp.Conf() == c.conf && cp.Space() == c.space
				c.kept = c.state()
				algos, counts = append(algos, c), append(counts, len(s.algo.Centroids()))
			case kind <= 3:
				var x = elemt()
				var err = s.algo.Push(x)
				e["t"], e["id"], e["ok"] = "push", next, err == nil
				if err == nil {
					counts[a]++
				}
			case kind == 4:
				var done = len(s.algo.Centroids())
				var target = done + g.Intn(counts[a]-done+1)
				if target == 0 && counts[a] > 0 {
					target = 1
				}
				fins[a].n = target
				var err = s.algo.Play()
				if err == nil {
					await(s.algo)
				}
				e["t"], e["target"], e["err"], e["cs"] = "run", target, err != nil, record(s.algo.Centroids())
			default:
				e["t"] = "stop"
				_ = s.algo.Stop()
			}
			var quiet = true
			for i, o := range algos {
				if i == a && e["t"] != "copy" {
					o.kept = o.state()
				} else {
					quiet = quiet && same(o.state(), o.kept)
				}
			}
			e["quiet"] = quiet
			ev = append(ev, e)
		}
		time.Sleep(200 * time.Microsecond) // last notifications
		var foreign = 0
		for _, s := range algos {
			foreign += s.others()
		}
		return m{"ev": ev, "foreign": foreign}
	})
}
