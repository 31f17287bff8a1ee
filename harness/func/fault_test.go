//go:build go1.25

package veriffunc

import (
	"errors"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
)

func init() {
	generators["C06"] = genFault
}

// fault makes a function given by the user panic, once
type fault struct {
	mutex        sync.Mutex
	where        string
	at, nth      int // armed after at iterations (-1: from the beginning), at the nth call
	armed, fired bool
	value        interface{}
	last         int // iterations, when last told
	clust        core.Clust
	budget       int
}

type faultText string

func (t faultText) String() string { return string(t) }

func (f *fault) call(where string) {
	f.mutex.Lock()
	defer f.mutex.Unlock()
	if f.armed && where == f.where {
		if f.nth--; f.nth < 0 {
			f.armed, f.fired = false, true
			panic(f.value)
		}
	}
}

// IsFinished is called before each iteration
func (f *fault) IsFinished(model core.OCModel) bool {
	var n = int(model.RuntimeFigures()[core.Iterations])
	f.mutex.Lock()
	f.last, f.clust = n, model.Centroids()
	if f.at == n && !f.fired {
		f.armed, f.at = true, -2
	} else if f.at == -1 {
		f.armed, f.at = false, -2
	}
	var finished = n >= f.budget
	f.mutex.Unlock()
	if !finished {
		f.call("condition")
	}
	return finished
}

type faultSpace struct {
	core.Space
	f *fault
}

func (s faultSpace) Dist(a, b core.Elemt) float64 {
	s.f.call("dist")
	return s.Space.Dist(a, b)
}

func (s faultSpace) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	s.f.call("combine")
	return s.Space.Combine(a, u, b, v)
}

func (s faultSpace) Copy(a core.Elemt) core.Elemt {
	s.f.call("copy")
	return s.Space.Copy(a)
}

type faultDistrib struct {
	mcmc.Distrib
	f *fault
}

func (d faultDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	d.f.call("distrib")
	return d.Distrib.Sample(mu, time)
}

func (d faultDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	d.f.call("distrib")
	return d.Distrib.Pdf(x, mu, time)
}

func text(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// genFault has the space, the distribution or the condition of an algorithm panic once
func genFault(g *gen) {
	var s = &setting{
		algo:  []string{"kmeans", "kmeans", "mcmc", "mcmc", "streaming"}[g.Intn(5)],
		space: []string{"euclid", "euclid", "cosinus", "dtw"}[g.Intn(4)],
		init:  []string{"given", "rand", "pp"}[g.Intn(3)],
		par:   g.Intn(4) > 0, cpu: g.pick(1, 2, 3, 8), out: 1, outAfter: 3, amp: 1,
	}
	s.k = 1 + g.Intn(3)
	s.n0 = s.k + 12 + g.Intn(10)
	for i := 0; i < s.n0; i++ {
		var one = []float64{g.NormFloat64(), 5 + g.NormFloat64()}
		if s.space == "dtw" {
			s.data = append(s.data, [][]float64{one, one, {1, 2}}[:1+g.Intn(3)])
		} else {
			s.data = append(s.data, one)
		}
	}
	s.distrib = "dirac"
	if s.space != "dtw" {
		s.distrib = []string{"multivt", "late"}[g.Intn(2)]
	}
	var f = &fault{where: []string{"dist", "dist", "combine", "copy", "distrib", "condition"}[g.Intn(6)],
		at: g.Intn(5) - 1, nth: g.pick(0, 0, 1, 2, 5, 20)}
	f.budget = 4
	f.value = []interface{}{"fault", errors.New("fault"), faultText("fault")}[g.Intn(3)]
	if f.where == "condition" && f.at < 0 {
		f.at = 0
	}
	f.armed = f.at < 0
	s.wrap = func(space core.Space) core.Space { return faultSpace{space, f} }
	s.wrapDistrib = func(d mcmc.Distrib) mcmc.Distrib { return faultDistrib{d, f} }
	var first, second = []string{"play", "batch", "init"}[g.Intn(3)], []string{"play", "batch"}[g.Intn(2)]
	var seed, x = g.Uint64(), g.data(s, g.Rand)
	g.run(m{"k": "fault", "algo": s.algo, "space": s.space, "init": s.init, "par": s.par, "where": f.where, "at": f.at, "nth": f.nth,
		"first": first, "second": second, "budget": f.budget, "sync": true}, func() (r m) {
		synctest.Test(g.t, func(*testing.T) {
			var algo = s.newAlgo(seed, f)
			var do = func(what string) m {
				var err, initErr error
				switch what {
				case "batch":
					err = algo.Batch()
				case "init":
					if initErr = algo.Init(); initErr == nil {
						err = algo.Play()
					}
				default:
					err = algo.Play()
				}
				time.Sleep(time.Second)
				var status = algo.Status()
				var clust = algo.Centroids()
				f.mutex.Lock()
				f.armed = false
				f.mutex.Unlock()
				var predicted = true
				if len(clust) > 0 {
					var _, label, _ = algo.Predict(x)
					predicted = label >= 0 && label < len(clust)
				}
				f.mutex.Lock()
				defer f.mutex.Unlock()
				return m{"err": text(err), "initerr": text(initErr), "value": statusNames[status.Value], "error": text(status.Error),
					"iters": int(algo.RuntimeFigures()[core.Iterations]), "last": f.last, "fired": f.fired, "n": len(clust),
					"same": reflect.DeepEqual(clust, f.clust), "predicted": predicted}
			}
			var one = do(first)
			var begun = f.clust != nil // by the condition, before the first iteration
			f.mutex.Lock()
			f.armed, f.at, f.fired = false, -2, false
			f.mutex.Unlock()
			if one["value"] != "Finished" {
				algo.Stop()
			}
			r = m{"begun": begun, "one": one, "two": do(second)}
			algo.Stop()
		})
		return
	})
}

func (g *gen) data(s *setting, r *rand.Rand) core.Elemt { return deep(s.data[r.Intn(len(s.data))]) }
