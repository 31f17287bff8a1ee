//go:build go1.25

package veriffunc

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/internal/vsync"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	xrand "golang.org/x/exp/rand"
)

func init() { generators["C30"] = genRepro }

// setting of several runs
type setting struct {
	algo, space, init, distrib string
	par                        bool
	k, cpu, frame, n0          int
	data                       []core.Elemt
	rate, rounds               int
	restarts                   bool
	out                        float64
	outAfter                   int
	amp                        float64
	wrap                       func(core.Space) core.Space
	wrapDistrib                func(mcmc.Distrib) mcmc.Distrib
}

func (s *setting) newSpace() core.Space {
	switch s.space {
	case "euclid":
		return euclid.NewSpace()
	case "cosinus":
		return cosinus.NewSpace()
	case "dtw":
		return dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
	case "dtw2":
		return dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: 2})
	}
	return dtw.NewSpace(dtw.Conf{InnerSpace: cosinus.NewSpace()})
}

// theSpace and theDistrib may be altered by the case
func (s *setting) theSpace() core.Space {
	if s.wrap != nil {
		return s.wrap(s.newSpace())
	}
	return s.newSpace()
}

func (s *setting) theDistrib(seed uint64) mcmc.Distrib {
	if s.wrapDistrib != nil {
		return s.wrapDistrib(s.newDistrib(seed))
	}
	return s.newDistrib(seed)
}

func (s *setting) newDistrib(seed uint64) mcmc.Distrib {
	var dim = 1
	if v, ok := s.data[0].([]float64); ok {
		dim = len(v)
	}
	var t = func() mcmc.Distrib {
		return mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: 3, RGen: xrand.New(xrand.NewSource(seed))})
	}
	switch s.distrib {
	case "multivt":
		return t()
	case "late":
		return mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib { return t() })
	}
	return mcmc.NewDirac()
}

var initializers = map[string]core.Initializer{
	"given": kmeans.GivenInitializer, "rand": kmeans.RandInitializer, "pp": kmeans.PPInitializer,
}

// conf with the given random generator seed, and finishing condition
func (s *setting) conf(seed uint64, f core.Finishing) core.Conf {
	var rgen = xrand.New(xrand.NewSource(seed))
	var ctrl = core.CtrlConf{Finishing: f}
	switch s.algo {
	case "kmeans":
		return &kmeans.Conf{CtrlConf: ctrl, K: s.k, Par: s.par, NumCPU: s.cpu, FrameSize: s.frame, RGen: rgen}
	case "mcmc":
		return &mcmc.Conf{CtrlConf: ctrl, InitK: s.k, MaxK: s.k + 3, Par: s.par, NumCPU: s.cpu, FrameSize: s.frame, RGen: rgen, Amp: s.amp,
			ProbaK: []float64{1, 1, 1}}
	}
	return &streaming.Conf{CtrlConf: ctrl, BufferSize: 100, OutRatio: s.out, OutAfter: s.outAfter, RGen: rgen}
}

func (s *setting) newAlgo(seed uint64, f core.Finishing) *core.Algo {
	var data = deep(s.data[:s.n0]).([]core.Elemt)
	switch c := s.conf(seed, f).(type) {
	case *kmeans.Conf:
		return kmeans.NewAlgo(*c, s.theSpace(), data, initializers[s.init])
	case *mcmc.Conf:
		return mcmc.NewAlgo(*c, s.theSpace(), data, initializers[s.init], s.theDistrib(seed+1))
	case *streaming.Conf:
		return streaming.NewAlgo(*c, s.theSpace(), data)
	}
	panic("harness: conf")
}

// run records the clusterings and figures published, identified by number
func (s *setting) run(seed uint64, choices int64, copied bool, number func(string) int) []m {
	var g = &gen{Rand: rand.New(rand.NewSource(choices))}
	var d = &drive{g: g, rate: s.rate}
	var used = s.n0
	d.algo = s.newAlgo(seed, d)
	if copied {
		var orig = s.newAlgo(seed, nil)
		var c, err = orig.Copy(s.conf(seed, d), s.newSpace())
		if err != nil {
			panic(err)
		}
		d.algo = c.(*core.Algo)
	}
	d.push = func() {
		if used < len(s.data) {
			if err := d.algo.Push(deep(s.data[used])); err != nil {
				panic(err)
			}
			used++
		}
	}
	d.snap = func(model core.OCModel) m {
		var f = model.RuntimeFigures()
		var names []string
		for n := range f {
			if n != core.Duration && n != core.LastDataTime {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		var figures = "figures"
		for _, n := range names {
			figures += fmt.Sprintf(" %s %x", n, math.Float64bits(f[n]))
		}
		return m{"c": number(bits(model.Centroids())), "f": number(figures), "p": used}
	}
	d.rounds(s.rounds, s.restarts)
	return d.events
}

// bits of an element or clustering
func bits(e interface{}) string {
	switch v := e.(type) {
	case core.Clust:
		var r = "clust"
		for i := range v {
			r += bits(v[i])
		}
		return r
	case [][]float64:
		var r = "("
		for i := range v {
			r += bits(v[i])
		}
		return r + ")"
	case []float64:
		var r = "["
		for i := range v {
			r += fmt.Sprintf(" %x", math.Float64bits(v[i]))
		}
		return r + "]"
	}
	return fmt.Sprint(e)
}

// C30
func genRepro(g *gen) {
	var s = &setting{
		algo:  []string{"kmeans", "mcmc", "mcmc", "streaming"}[g.Intn(4)],
		space: []string{"euclid", "euclid", "euclid", "cosinus", "dtw", "dtw2", "dtwcos"}[g.Intn(7)],
		init:  []string{"given", "rand", "pp"}[g.Intn(3)],
		par:   g.Intn(3) > 0, cpu: g.pick(1, 2, 3, 5, 8),
		rate: g.pick(0, 2, 3), rounds: 1 + g.Intn(3), restarts: g.Intn(2) == 0,
		out: []float64{0, 1, 2}[g.Intn(3)], outAfter: g.pick(2, 3, 5), amp: []float64{.01, .3, 2, 50}[g.Intn(4)],
	}
	var n = g.pick(4, 7, 12, 25)
	s.k = 1 + g.Intn(3)
	s.n0 = s.k + g.Intn(n-s.k+1)
	if g.Intn(3) == 0 {
		s.frame = s.k + g.Intn(n)
	}
	var dim = 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		if s.space == "euclid" || s.space == "cosinus" {
			s.data = append(s.data, g.normals(dim))
			continue
		}
		var series [][]float64
		for j := 1 + g.Intn(5); j > 0; j-- {
			series = append(series, g.normals(dim))
		}
		s.data = append(s.data, series)
	}
	s.distrib = "dirac"
	if s.space == "euclid" || s.space == "cosinus" {
		s.distrib = []string{"multivt", "late", "dirac"}[g.Intn(3)]
	}
	var seeds = []uint64{g.Uint64(), g.Uint64(), g.Uint64()}
	var choices = g.Int63()
	var c = m{"k": "repro", "algo": s.algo, "space": s.space, "init": s.init, "distrib": s.distrib, "par": s.par, "cpu": s.cpu,
		"kk": s.k, "n0": s.n0, "n": n, "frame": s.frame, "sync": true}
	var lvls, maxs [3]int
	for i := range lvls {
		lvls[i], maxs[i] = g.pick(0, 1, 2, 5), g.pick(1, 4, 20)
	}
	g.run(c, func() m {
		var numbers = map[string]int{}
		var number = func(s string) int {
			if _, ok := numbers[s]; !ok {
				numbers[s] = len(numbers) + 1
			}
			return numbers[s]
		}
		var runs = []m{}
		var one = func(seed int, copied bool, number func(string) int) m {
			return m{"seed": seed, "copied": copied, "ev": s.run(seeds[seed], choices, copied, number)}
		}
		runs = append(runs, one(0, false, number))
		for i := 0; i < 2; i++ {
			g.bubble(func() {
				vsync.Enable(g.Uint64(), lvls[i], maxs[i])
				var done = make(chan m, 1)
				var private = i == 1
				if private { // something else in the process
					go func() { done <- one(1, false, func(string) int { return 0 }) }()
				}
				runs = append(runs, one(0, i == 1 && s.algo != "streaming", number))
				if private {
					<-done
				}
			})
		}
		return m{"runs": runs}
	})
}

func (g *gen) normals(n int) []float64 {
	var v = make([]float64, n)
	for i := range v {
		v[i] = g.NormFloat64()*10 + 20*float64(g.Intn(3))
	}
	return v
}
