//go:build go1.25

package veriffunc

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	xrand "golang.org/x/exp/rand"
)

func init() {
	generators["race"] = genAtomic
	generators["raceC21"] = genAtomicLate
}

// genAtomicLate has several users use a new late distribution concurrently
func genAtomicLate(g *gen) {
	var n = 2 + g.Intn(3)
	var starts = make([]int, n)
	for i := range starts {
		starts[i] = g.Intn(50)
	}
	var slow, kind = g.Intn(100), g.Intn(2)
	g.run(m{"k": "atomic", "algo": "late", "n": n}, func() m {
		var d = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
			time.Sleep(time.Duration(slow) * time.Microsecond)
			if kind == 0 {
				return mcmc.NewDirac()
			}
			return mcmc.NewMultivT(mcmc.MultivTConf{Dim: len(e.([]float64)), RGen: xrand.New(xrand.NewSource(1))})
		})
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(starts[i]) * time.Microsecond)
				var x = []float64{float64(i), 2}
				for j := 0; j < 4; j++ {
					if (i+j)%2 == 0 {
						x = d.Sample(x, 1+j).([]float64)
					} else {
						d.Pdf(x, x, 1+j)
					}
				}
			}()
		}
		wg.Wait()
		return m{"done": true}
	})
}

// stopper ends executions after some iterations
type stopper struct{ n float64 }

func (s stopper) IsFinished(model core.OCModel) bool {
	touch(model.Centroids())
	return model.RuntimeFigures()[core.Iterations] >= s.n
}

var sink float64
var sinkMutex sync.Mutex

// touch reads everything in a clustering
func touch(c core.Clust) (s float64) {
	for i := range c {
		switch v := c[i].(type) {
		case []float64:
			for j := range v {
				s += v[j]
			}
		case [][]float64:
			for j := range v {
				for k := range v[j] {
					s += v[j][k]
				}
			}
		}
	}
	return
}

// user of an algorithm, which issues calls without any synchronisation with others
func use(algo core.OnlineClust, r *rand.Rand, calls int, elemt func() core.Elemt, copyIt func() core.OnlineClust) {
	var clusts []core.Clust
	var figs []core.RuntimeFigures
	var s float64
	for ; calls > 0; calls-- {
		switch r.Intn(18) {
		case 0, 1:
			algo.Play()
		case 2:
			algo.Pause()
		case 3:
			algo.Stop()
		case 4:
			algo.Init()
		case 5, 6, 7:
			algo.Push(elemt())
		case 8, 9:
			if p, l, _ := algo.Predict(elemt()); l >= 0 {
				s += touch(core.Clust{p})
			}
		case 10, 11:
			clusts = append(clusts, algo.Centroids())
		case 12:
			figs = append(figs, algo.RuntimeFigures())
		case 13:
			s += float64(algo.Status().Value)
		case 14:
			if copyIt != nil && r.Intn(3) == 0 {
				if c := copyIt(); c != nil {
					use(c, r, 4, elemt, nil)
					c.Stop()
				}
			}
		case 15:
			if r.Intn(8) == 0 {
				algo.Wait(nil, time.Millisecond)
			}
		default:
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
		for _, c := range clusts {
			s += touch(c)
		}
		for _, f := range figs {
			for _, v := range f {
				s += v
			}
		}
	}
	sinkMutex.Lock()
	sink += s
	sinkMutex.Unlock()
}

// genAtomic has several users issue calls to one algorithm concurrently
func genAtomic(g *gen) {
	var s = &setting{
		algo:  []string{"kmeans", "mcmc", "streaming"}[g.Intn(3)],
		space: []string{"euclid", "euclid", "cosinus", "dtw"}[g.Intn(4)],
		init:  []string{"given", "rand", "pp"}[g.Intn(3)],
		par:   g.Intn(3) > 0, cpu: g.pick(1, 2, 3, 8), out: 1, outAfter: 3, amp: 1,
	}
	s.k = 1 + g.Intn(3)
	s.n0 = s.k + g.Intn(10)
	if g.Intn(3) == 0 {
		s.frame = s.k + g.Intn(10)
	}
	var elemt = func(r *rand.Rand) core.Elemt {
		var one = func() []float64 { return []float64{r.NormFloat64(), 5 + r.NormFloat64()} }
		if s.space == "dtw" {
			return [][]float64{one(), one(), one()}[:1+r.Intn(3)]
		}
		return one()
	}
	for i := 0; i < s.n0; i++ {
		s.data = append(s.data, elemt(g.Rand))
	}
	s.distrib = "dirac"
	if s.space != "dtw" {
		s.distrib = []string{"multivt", "late"}[g.Intn(2)]
	}
	var closed int32
	var conf = func(r *rand.Rand) core.Conf {
		var f core.Finishing
		if r.Intn(2) == 0 {
			f = stopper{float64(r.Intn(20))}
		}
		var conf = s.conf(r.Uint64(), f)
		var c = conf.Ctrl()
		c.Iter = g.pick(0, 0, 3, 30)
		c.DataPerIter = g.pick(0, 1, 3)
		c.IterFreq = []float64{0, 0, 10000}[g.Intn(3)]
		if g.Intn(4) == 0 {
			c.Timeout = time.Duration(1+g.Intn(3)) * time.Millisecond
		}
		if g.Intn(2) == 0 {
			c.StatusNotifier = func(oc core.OnlineClust, status core.OCStatus) {
				touch(oc.Centroids())
				if oc.Status().Value == core.Idle && atomic.LoadInt32(&closed) == 0 {
					oc.Play()
				}
			}
		}
		switch v := conf.(type) {
		case *kmeans.Conf:
			v.CtrlConf = *c
		case *mcmc.Conf:
			v.CtrlConf = *c
		case *streaming.Conf:
			v.CtrlConf = *c
		}
		return conf
	}
	var algo *core.Algo
	var data = s.data
	switch v := conf(g.Rand).(type) {
	case *kmeans.Conf:
		algo = kmeans.NewAlgo(*v, s.newSpace(), data, initializers[s.init])
	case *mcmc.Conf:
		algo = mcmc.NewAlgo(*v, s.newSpace(), data, initializers[s.init], s.newDistrib(g.Uint64()))
	case *streaming.Conf:
		algo = streaming.NewAlgo(*v, s.newSpace(), data)
	}
	g.run(m{"k": "atomic", "algo": s.algo, "space": s.space}, func() m {
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			var r = rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				use(algo, r, 25, func() core.Elemt { return elemt(r) }, func() core.OnlineClust {
					var c, _ = algo.Copy(s.conf(r.Uint64(), nil), s.newSpace())
					return c
				})
			}()
		}
		wg.Wait()
		atomic.StoreInt32(&closed, 1)
		algo.Stop()
		time.Sleep(200 * time.Microsecond)
		algo.Stop() // in case the notifier has just played it
		return m{"done": true}
	})
}
