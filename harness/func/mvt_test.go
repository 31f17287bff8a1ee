//go:build go1.25

package veriffunc

import (
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
	xrand "golang.org/x/exp/rand"
)

func init() {
	generators["C28"] = genMvt
}

// C28: distributions of the alterations
func genMvt(g *gen) {
	switch x := g.Intn(100); {
	case x < 6:
		genMvtLaw(g)
	case x < 14:
		genDirac(g)
	case x < 20:
		var d, nu = 1 + g.Intn(6), g.real(false)
		g.run(m{"k": "mvtconf", "d": d, "nu": micro(nu)}, func() m {
			var v = mcmc.NewMultivT(mcmc.MultivTConf{Dim: d, Nu: nu, RGen: g.anyRgen()})
			return m{"nures": micro(v.Nu), "dres": v.Dim, "rgen": v.RGen != nil}
		})
	case x < 40:
		genMvtSample(g)
	default:
		genMvtPdf(g)
	}
}

func (g *gen) mvt(d, nu int, seed uint64) mcmc.MultivT {
	var conf = mcmc.MultivTConf{Dim: d, Nu: float64(nu), RGen: xrand.New(xrand.NewSource(seed))}
	if nu == 3 && g.Intn(2) == 0 {
		conf.Nu = 0 // 3 by default
	}
	if g.Intn(20) == 0 {
		conf.RGen = nil
	}
	return mcmc.NewMultivT(conf)
}

func genMvtPdf(g *gen) {
	var d, nu, time = 1 + g.Intn(3), 1 + g.Intn(6), 1 + g.Intn(40)
	var top = (d == 1 && nu < 6 || d == 2) && g.Intn(2) == 0 // otherwise denominators are too great
	if top {
		time = 1 + g.Intn(10)
	} else if d == 3 && nu == 1 && g.Intn(2) == 0 {
		top, time = true, 1
	}
	// half-integer coordinates
	var mu, diff, shift = floats(g.vec(d, -6, 6), 0.5), g.vec(d, -3, 3), floats(g.vec(d, -8, 8), 0.5)
	diff[g.Intn(d)] = 1 + g.Intn(3)
	var x, mu2, x2 = make([]float64, d), make([]float64, d), make([]float64, d)
	var s4 = 0
	for i := range x {
		x[i] = mu[i] + 0.5*float64(diff[i])
		mu2[i], x2[i] = mu[i]+shift[i], x[i]+shift[i]
		s4 += diff[i] * diff[i]
	}
	g.run(m{"k": "mvtpdf", "d": d, "nu": nu, "time": time, "s4": s4}, func() m {
		var v = g.mvt(d, nu, g.Uint64())
		var gd = guarded(mu, x, mu2, x2)
		var k = v.Pdf(mu, mu, time)
		var l = v.Pdf(mu, x, time)
		var b = math.Exp(-2*(l-k)/float64(d+nu)) - 1
		var max = [][2]int{}
		if top {
			for e := 0; e < 3; e++ {
				max = append(max, rat(math.Exp(4*k)*math.Pow(math.Pi, float64(4*e))))
			}
		}
		var near = func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)) }
		return m{"b2": rat(b * b), "max4": max, "sym": near(l, v.Pdf(x, mu, time)),
			"shift": near(l, v.Pdf(mu2, x2, time)) && near(k, v.Pdf(x2, x2, time)), "mut": gd.mutated()}
	})
}

func genMvtSample(g *gen) {
	var d, nu = 1 + g.Intn(4), 1 + g.Intn(6)
	var t1, t2 = 1 + g.Intn(60), 1 + g.Intn(60)
	var seed, skip = g.Uint64(), g.Intn(3)
	var shift = floats(g.vec(d, -20, 20), 0.5)
	g.run(m{"k": "mvtsample", "d": d, "t1": t1, "t2": t2}, func() m {
		var draw = func(mu []float64, time int) []float64 {
			var v = mcmc.NewMultivT(mcmc.MultivTConf{Dim: d, Nu: float64(nu), RGen: xrand.New(xrand.NewSource(seed))})
			for i := 0; i < skip; i++ {
				v.Sample(mu, 1+i)
			}
			return v.Sample(mu, time).([]float64)
		}
		var zero = make([]float64, d)
		var gd = guarded(zero, shift)
		var a, b, c = draw(zero, t1), draw(zero, t2), draw(shift, t1)
		var best, equiv = 0, true
		for i := range a {
			if math.Abs(a[i]) > math.Abs(a[best]) {
				best = i
			}
			equiv = equiv && math.Abs(c[i]-shift[i]-a[i]) <= 1e-9*(1+math.Abs(c[i]))
		}
		var ratio = a[best] / b[best]
		var fresh = &c[0] != &shift[0]
		// two samples of the same distribution are distinct and kept
		var v = g.mvt(d, nu, seed)
		var x = v.Sample(shift, t1).([]float64)
		var gx = guarded(x)
		var y = v.Sample(shift, t1).([]float64)
		fresh = fresh && &x[0] != &y[0] && !gx.mutated() && !sameFloats(x, y)
		return m{"equiv": equiv, "ratio2": rat(ratio * ratio), "len": len(a), "fresh": fresh, "mut": gd.mutated()}
	})
}

func genMvtLaw(g *gen) {
	var d, nu, time = 1 + g.Intn(3), g.pick(1, 2, 4, 6), g.pick(1, 2, 7, 100)
	var rs [][2]int
	var den = 1
	var xs = [][2]int{}
	switch {
	case g.Intn(3) == 0: // any degrees of freedom nu / den
		d, nu, den = 2, g.pick(1, 1, 3), g.pick(1, 2, 2, 3)
		xs = [][2]int{{5, 4}, {3, 2}, {2, 1}, {3, 1}}
		for _, x := range xs {
			rs = append(rs, rat(float64(nu)/float64(den)*(math.Pow(float64(x[0])/float64(x[1]), 2*float64(den))-1)))
		}
	case g.Intn(4) == 0:
		d, nu = 1, 1
		rs = [][2]int{{1, 3}, {1, 1}, {3, 1}}
	case g.Intn(3) == 0:
		d, nu = 1, 2
		// 2 k^2 / (1 - k^2)
		rs = [][2]int{{2, 15}, {2, 3}, {8, 5}, {32, 9}} // k = 1/4, 1/2, 2/3, 4/5
	case g.Intn(2) == 0:
		d, nu = g.pick(2, 4), 2
		rs = [][2]int{{1, 1}, {2, 1}, {1, 2}, {6, 1}}
	default:
		d, nu = 2, g.pick(4, 6)
		rs = [][2]int{{nu / 2, 1}, {nu / 2, 2}, {nu, 4}, {nu, 1}}
	}
	for i := range rs {
		rs[i] = rat(float64(rs[i][0]) / float64(rs[i][1]))
	}
	var n, seed = 10000, g.Uint64()
	var mu = floats(g.vec(d, -20, 20), 0.5)
	g.run(m{"k": "mvtlaw", "d": d, "nu": nu, "den": den, "xs": xs, "n": n, "time": time, "rs": rs}, func() m {
		var v = mcmc.NewMultivT(mcmc.MultivTConf{Dim: d, Nu: float64(nu) / float64(den), RGen: xrand.New(xrand.NewSource(seed))})
		var counts, halves = make([]int, len(rs)), make([]int, 3*d)
		for k := 0; k < n; k++ {
			var x = v.Sample(mu, time).([]float64)
			var s = 0.
			for i := range x {
				var a, b = x[i] - mu[i], x[(i+1)%d] - mu[(i+1)%d]
				s += a * a
				if a > 0 {
					halves[i]++
				}
				// uncorrelated coordinates of the same spread
				if d == 1 || math.Abs(a) > math.Abs(b) == (i+1 < d || d == 2) {
					halves[d+i]++
				}
				if d == 1 || a*b > 0 {
					halves[2*d+i]++
				}
			}
			for i := range rs {
				if 20*float64(time)*s < float64(rs[i][0])/float64(rs[i][1]) {
					counts[i]++
				}
			}
		}
		if d == 1 {
			halves = halves[:1]
		}
		return m{"counts": counts, "halves": halves}
	})
}

func genDirac(g *gen) {
	var mu core.Elemt = floats(g.vec(1+g.Intn(3), -9, 9), 0.5)
	if g.Intn(2) == 0 {
		mu = series1(g.vec(1+g.Intn(4), -9, 9))
	}
	var time = g.Intn(100)
	g.run(m{"k": "dirac"}, func() m {
		var gd = guarded(mu)
		var v = mcmc.NewDirac()
		var x = v.Sample(mu, time)
		return m{"same": same(x, mu), "pdf": v.Pdf(x, mu, time), "mut": gd.mutated()}
	})
}
