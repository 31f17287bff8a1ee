//go:build go1.25

package veriffunc

import (
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

func init() {
	generators["C22"] = genFinish
	generators["C23"] = genConf
}

var statusNames = []string{"Created", "Initializing", "Ready", "Running", "Idle", "Finished"}
var statuses = []core.ClustStatus{core.Created, core.Initializing, core.Ready, core.Running, core.Idle, core.Finished}

func (g *gen) finishing(depth int) (m, core.Finishing) {
	var kind = g.Intn(6)
	if depth == 0 && kind > 3 {
		kind = g.Intn(3)
	}
	switch kind {
	case 0:
		return m{"t": "nil"}, nil
	case 1, 2:
		var n, p = g.pick(-1, 0, 0, 1, 2, 3), g.pick(-1, 0, 0, 1, 2)
		if g.Intn(2) == 0 {
			return m{"t": "iter", "n": n, "p": p}, core.IterFinishing{Iter: n, IterPerData: p}
		}
		return m{"t": "iter", "n": n, "p": p}, core.NewIterFinishing(n, p)
	case 3:
		var names = []string{}
		var list []core.ClustStatus
		for i := range statuses {
			if g.Intn(4) == 0 {
				names = append(names, statusNames[i])
				list = append(list, statuses[i])
			}
		}
		var e = g.Intn(2) == 0
		return m{"t": "status", "e": e, "s": names}, core.NewStatusFinishing(e, list...)
	}
	var l = []m{}
	var fs []core.Finishing
	for i := g.Intn(4); i > 0; i-- {
		var d, f = g.finishing(depth - 1)
		l = append(l, d)
		fs = append(fs, f)
	}
	if kind == 4 {
		return m{"t": "and", "l": l}, core.NewAndFinishing(fs...)
	}
	return m{"t": "or", "l": l}, core.NewOrFinishing(fs...)
}

// C22
func genFinish(g *gen) {
	var depth = g.pick(0, 1, 2, 3)
	var d, f = g.finishing(depth)
	var s = g.Intn(len(statuses))
	var st = core.OCStatus{Value: statuses[s]}
	var e = ""
	if g.Intn(3) == 0 {
		e = "boom"
		st.Error = errors.New(e)
		if g.Intn(2) == 0 {
			st.Error = []error{core.ErrTimeout, core.ErrNotRunning, core.ErrNotAlive, core.ErrIdle, core.ErrNeverFinish, core.ErrElapsedIter, core.ErrFinished}[g.Intn(7)]
			e = st.Error.Error()
		}
	}
	var it, pu = g.Intn(6), g.Intn(3)
	var rf = core.RuntimeFigures{core.Iterations: float64(it), core.PushedData: float64(pu), core.Duration: 12, "other": 3}
	if g.Intn(8) == 0 {
		it, pu = 0, 0
		rf = core.RuntimeFigures{}
	}
	g.run(m{"k": "fin", "f": d, "s": statusNames[s], "e": e, "it": it, "pu": pu}, func() m {
		var kept = core.RuntimeFigures{}
		for k, v := range rf {
			kept[k] = v
		}
		var clust = core.Clust{[]float64{1}}
		var model = core.NewSimpleOCModel(&kmeans.Conf{K: 1}, euclid.NewSpace(), st, rf, clust)
		var r = core.IsFinished(f, model)
		var again = core.IsFinished(f, model)
		var direct = r
		if f != nil {
			direct = f.IsFinished(model)
		}
		return m{"res": r, "stable": again == r && direct == r, "mut": !same(kept, rf) || model.Status() != st || !same(model.Centroids(), core.Clust{[]float64{1}})}
	})
}

// micro is a real in millionths
func micro(f float64) int { return int(math.Round(f * 1e6)) }

// real picks a parameter, often unset
func (g *gen) real(sign bool) float64 {
	var f = g.pickFloat(0, 0, .5, 1, 1.5, 2, 3, 5, .1, .05, .3, 1e-6, 2e-4, .999999, 1000, 7.25)
	if sign && g.Intn(5) == 0 {
		f = -f
	}
	return f
}

func (g *gen) pickFloat(l ...float64) float64 { return l[g.Intn(len(l))] }

// C23
func genConf(g *gen) {
	var ctrl = core.CtrlConf{}
	// mostly valid control parameters
	var bad = g.Intn(4) == 0
	var low = func(vals ...int) int {
		var sign = 1
		if bad && g.Intn(3) == 0 {
			sign = -1
		}
		return sign * vals[g.Intn(len(vals))]
	}
	ctrl.Iter = low(0, 0, 1, 20, math.MaxInt32)
	ctrl.IterPerData = low(0, 0, 1, 7, math.MaxInt32)
	ctrl.DataPerIter = low(0, 0, 1, 7, math.MaxInt32)
	ctrl.IterFreq = g.real(bad)
	ctrl.Timeout = time.Duration(low(0, 0, 1, 1000, 999999999, 1000000000, math.MaxInt32)) * time.Duration(g.pick(1, 1, 1, 4000))
	if g.Intn(3) == 0 {
		ctrl.Finishing = core.NewIterFinishing(3, 2)
	}
	if g.Intn(3) == 0 {
		ctrl.StatusNotifier = func(core.OnlineClust, core.OCStatus) {}
	}
	var ctrlOf = func(c *core.CtrlConf) m {
		return m{"iter": c.Iter, "ipd": c.IterPerData, "dpi": c.DataPerIter, "freq": micro(c.IterFreq),
			"tmo": int(c.Timeout % time.Second), "tmos": int(c.Timeout / time.Second),
			"fin": c.Finishing == core.Finishing(core.NewIterFinishing(3, 2)), "nofin": c.Finishing == nil, "notif": c.StatusNotifier != nil}
	}
	var given = ctrlOf(&ctrl)
	var rg, _ = g.rgen()
	if g.Intn(2) == 0 {
		rg = nil
	}
	var space = euclid.NewSpace()
	var c = m{"k": "conf", "ctrl": given}
	// build makes the algorithm, conf gives an identical configuration
	var build func() *core.Algo
	var conf func() core.Conf
	var fields func(core.Conf) m
	var kind = []string{"kmeans", "mcmc", "streaming"}[g.Intn(3)]
	c["algo"] = kind
	var data []core.Elemt
	for i := g.Intn(4); i > 0; i-- {
		data = append(data, []float64{float64(i)})
	}
	switch kind {
	case "kmeans":
		var k = kmeans.Conf{CtrlConf: ctrl, K: g.pick(-1000, -1, 0, 1, 1, 2, 16, 1000, math.MaxInt32), FrameSize: g.pick(-2, 0, 0, 1, 3, 17), NumCPU: g.pick(0, 0, 1, 3, 100), Par: g.Intn(2) == 0, RGen: rg}
		fields = func(x core.Conf) m {
			var y = x.(*kmeans.Conf)
			return m{"k": y.K, "frame": y.FrameSize, "par": y.Par, "cpu": y.NumCPU, "rgen": y.RGen != nil, "rsame": rg == nil || y.RGen == rg}
		}
		conf = func() core.Conf { var z = k; return &z }
		build = func() *core.Algo { return kmeans.NewAlgo(k, space, data, kmeans.GivenInitializer) }
	case "mcmc":
		var probs = [][]float64{nil, {}, {1, 1, 1}, {0, 1, 0}, {2, 3, 5}, {0, 0, 0}, {1, 2}, {1, 2, 3, 4}, {1, 8, 1}, {.1, .2, .1}, {9}}[g.Intn(11)]
		var k = mcmc.Conf{CtrlConf: ctrl, InitK: g.pick(-5, -1, 0, 1, 1, 2, 3, 16, 17, 100), MaxK: g.pick(0, 0, 0, -1, -3, 1, 2, 3, 16, 17, 99, 100, 5000), FrameSize: g.pick(-2, 0, 0, 1, 3, 17), NumCPU: g.pick(0, 0, 1, 3, 100), Par: g.Intn(2) == 0, RGen: rg,
			B: g.real(true), Amp: g.real(true), R: g.real(true), Norm: g.real(true), ProbaK: probs}
		fields = func(x core.Conf) m {
			var y = x.(*mcmc.Conf)
			var p = make([]int, len(y.ProbaK))
			for i := range p {
				p[i] = micro(y.ProbaK[i])
			}
			return m{"k": y.InitK, "maxk": y.MaxK, "frame": y.FrameSize, "par": y.Par, "cpu": y.NumCPU, "rgen": y.RGen != nil, "rsame": rg == nil || y.RGen == rg,
				"b": micro(y.B), "amp": micro(y.Amp), "r": micro(y.R), "norm": micro(y.Norm), "proba": p}
		}
		conf = func() core.Conf { var z = k; z.ProbaK = append([]float64(nil), probs...); return &z }
		build = func() *core.Algo {
			return mcmc.NewAlgo(k, space, data, kmeans.GivenInitializer, mcmc.NewDirac())
		}
	default:
		var k = streaming.Conf{CtrlConf: ctrl, BufferSize: g.pick(-1, 0, 0, 1, 2, 3, 100, 999), Mu: g.real(true), Sigma: g.real(true),
			OutRatio: g.real(true), OutAfter: g.pick(-100, -1, 0, 0, 1, 2, 2, 5, 9, 4000), RGen: rg}
		fields = func(x core.Conf) m {
			var y = x.(*streaming.Conf)
			return m{"buf": y.BufferSize, "mu": micro(y.Mu), "sigma": micro(y.Sigma), "ratio": micro(y.OutRatio), "after": y.OutAfter, "rgen": y.RGen != nil, "rsame": rg == nil || y.RGen == rg}
		}
		conf = func() core.Conf { var z = k; return &z }
		build = func() *core.Algo { return streaming.NewAlgo(k, space, data) }
	}
	var zero = conf()
	c["given"] = fields(zero)
	c["ndata"] = len(data)
	g.run(c, func() m {
		var out = m{"after": m{}, "ctrlafter": m{}, "panic": ""}
		func() {
			defer func() {
				if e := recover(); e != nil {
					out["panic"] = fmt.Sprint(e)
				}
			}()
			var algo = build()
			out["after"] = fields(algo.Conf())
			out["ctrlafter"] = ctrlOf(algo.Conf().Ctrl())
		}()
		out["refused"] = out["panic"] != ""
		var c2 = conf()
		out["preperr"] = core.PrepareConf(c2) != nil
		out["prep"] = fields(c2)
		_ = core.PrepareConf(c2)
		out["again"] = fields(c2)
		var c3 = conf()
		out["verr"] = c3.Verify() != nil
		out["cverr"] = c3.Ctrl().Verify() != nil
		return out
	})
}
