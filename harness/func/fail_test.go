//go:build go1.25

package veriffunc

import (
	"fmt"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// every call on an algorithm whose initialisation fails
func genFailInit(g *gen) {
	var kind = []string{"kmeans", "mcmc", "streaming"}[g.Intn(3)]
	var init = []string{"given", "rand", "pp"}[g.Intn(3)]
	var k = 2 + g.Intn(3)
	var data = []core.Elemt{}
	var nd = g.Intn(k)
	var dup = init == "pp" && g.Intn(2) == 0
	if dup { // enough elements, not enough different ones
		nd = k + g.Intn(3)
	}
	if kind == "streaming" {
		nd = 0
		k = 1
		dup = false
	}
	for i := 0; i < nd; i++ {
		var x = float64(i)
		if dup {
			x = float64(i % (k - 1))
		}
		data = append(data, []float64{x, 1})
	}
	var distinct = nd
	if dup {
		distinct = k - 1
	}
	var calls []string
	var names = []string{"init", "play", "batch", "stop", "pause", "centroids", "predict", "figures", "status", "push", "copy"}
	calls = append(calls, []string{"init", "play", "batch"}[g.Intn(3)])
	for i := 1 + g.Intn(8); i > 0; i-- {
		calls = append(calls, names[g.Intn(len(names))])
	}
	calls = append(calls, "predict", "centroids", "figures")
	g.run(m{"k": "failinit", "algo": kind, "init": init, "n": nd, "distinct": distinct, "kk": k, "calls": calls}, func() m {
		var rg = g.anyRgen()
		var algo *core.Algo
		var conf core.Conf
		var ctrl = core.CtrlConf{Iter: 2}
		switch kind {
		case "kmeans":
			var c = kmeans.Conf{K: k, RGen: rg, CtrlConf: ctrl, Par: g.Intn(2) == 0}
			conf = &c
			algo = kmeans.NewAlgo(c, euclid.NewSpace(), data, kmeans.CreateInitializer(init))
		case "mcmc":
			var c = mcmc.Conf{InitK: k, RGen: rg, CtrlConf: ctrl, Par: g.Intn(2) == 0}
			conf = &c
			algo = mcmc.NewAlgo(c, euclid.NewSpace(), data, kmeans.CreateInitializer(init), mcmc.NewDirac())
		default:
			// iterations without data do not count: bounded by a timeout
			ctrl.Timeout = 15 * time.Millisecond
			var c = streaming.Conf{RGen: rg, CtrlConf: ctrl}
			conf = &c
			algo = streaming.NewAlgo(c, euclid.NewSpace(), nil)
		}
		var pushed, failed, ready = 0, 0, false
		var obs = []m{}
		var e = func(err error) string {
			if err == nil {
				return ""
			}
			return "err"
		}
		for _, name := range calls {
			var o = m{"c": name, "res": "", "pushed": pushed}
			switch name {
			case "init":
				o["res"] = e(algo.Init())
			case "play":
				o["res"] = e(algo.Play())
			case "batch":
				o["res"] = e(algo.Batch())
			case "stop":
				o["res"] = e(algo.Stop())
			case "pause":
				o["res"] = e(algo.Pause())
			case "centroids":
				o["res"] = fmt.Sprint(len(algo.Centroids()))
				for _, c := range algo.Centroids() {
					if c == nil {
						o["res"] = "nil centroid"
					}
				}
			case "predict":
				var c, l, _ = algo.Predict([]float64{0, 0})
				o["res"] = "none"
				if l >= 0 && c != nil {
					o["res"] = "some"
				} else if l >= 0 || c != nil {
					o["res"] = "inconsistent"
				}
			case "figures":
				_ = algo.RuntimeFigures()
			case "status":
				_ = algo.Status()
			case "push":
				if algo.Push([]float64{float64(100 + pushed), 1}) == nil {
					pushed++
				}
			case "copy":
				if kind != "streaming" {
					var cp, err = algo.Copy(conf, euclid.NewSpace())
					o["res"] = e(err)
					if err == nil {
						var c, l, _ = cp.Predict([]float64{0, 0})
						if l >= 0 || c != nil {
							o["res"] = "copy predicts"
						}
					}
				}
			}
			obs = append(obs, o)
		}
		_, _ = failed, ready
		return m{"obs": obs}
	})
}
