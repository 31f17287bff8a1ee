//go:build go1.25

package veriffunc

import (
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func init() {
	generators["C10"] = genFlood
}

// element j has two coordinates, see Flood.tla
func floodElemt(j int) core.Elemt { return []float64{float64(j), float64(j * j % 97)} }

// genFlood pushes more elements between iterations than the staging room holds
func genFlood(g *gen) {
	var n0 = 1 + g.Intn(3)
	var frame = g.pick(0, 0, 0, 2, 1000, 2500, 5000)
	var n = g.pick(1, 500, 1999, 2000, 2001, 2002, 2500, 4100)
	var clients = 1
	if frame == 0 {
		clients = g.pick(1, 2, 5)
	}
	var par, paused, again = g.Intn(3) == 0, g.Intn(2) == 0, g.Intn(3) == 0
	var freq = g.pick(0, 20, 100)
	g.run(m{"k": "flood", "n0": n0, "frame": frame, "n": n, "clients": clients, "par": par, "paused": paused, "again": again, "freq": freq, "sync": true}, func() (r m) {
		synctest.Test(g.t, func(*testing.T) {
			var data []core.Elemt
			for j := 1; j <= n0; j++ {
				data = append(data, floodElemt(j))
			}
			var conf = kmeans.Conf{K: 1, Par: par, FrameSize: frame, RGen: g.anyRgen(), CtrlConf: core.CtrlConf{IterFreq: float64(freq), StatusNotifier: func(core.OnlineClust, core.OCStatus) {}}}
			if freq == 0 {
				conf.IterFreq = 1000 // the clock of the bubble moves when nothing runs
			}
			var algo = kmeans.NewAlgo(conf, euclid.NewSpace(), data, kmeans.GivenInitializer)
			var errs = 0
			var mu sync.Mutex
			var must = func(err error) {
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					errs++
				}
			}
			must(algo.Play())
			if paused {
				must(algo.Pause())
			}
			var wg sync.WaitGroup
			for c := 0; c < clients; c++ {
				wg.Add(1)
				go func(c int) {
					defer wg.Done()
					for j := 1 + c; j <= n; j += clients {
						must(algo.Push(floodElemt(n0 + j)))
					}
				}(c)
			}
			if paused {
				time.Sleep(time.Second)
				must(algo.Play())
			}
			var done = make(chan bool)
			go func() {
				wg.Wait()
				close(done)
			}()
			var all = false
			select {
			case <-done:
				all = true
			case <-time.After(time.Minute):
			}
			time.Sleep(time.Second)
			must(algo.Stop())
			if again { // what has been pushed is kept by the next session
				must(algo.Play())
				time.Sleep(time.Second)
				must(algo.Stop())
			}
			var kept = n0 + n
			if frame > 0 && frame < kept {
				kept = frame
			}
			var sums = []int{-1, -1}
			var clust = algo.Centroids()
			if len(clust) == 1 {
				for i, x := range clust[0].([]float64) {
					var s = x * float64(kept)
					if math.Abs(s-math.Round(s)) < 0.01 {
						sums[i] = int(math.Round(s))
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			r = m{"all": all, "errs": errs, "kept": kept, "sums": sums, "pushed": int(algo.RuntimeFigures()[core.PushedData])}
		})
		return
	})
}
