//go:build go1.25

package veriffunc

import (
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func init() {
	generators["C16"] = genDtw
	generators["C17"] = genDba
}

// series of points with their inner space
type ser = [][]int

func (g *gen) series(n, dim, hi int) ser {
	var s = make(ser, n)
	for i := range s {
		s[i] = g.vec(dim, 0, hi)
		if i > 0 && g.Intn(5) == 0 {
			s[i] = s[i-1]
		}
	}
	return s
}

func serFloats(s ser, scale float64) [][]float64 {
	var r = make([][]float64, len(s))
	for i := range s {
		r[i] = floats(s[i], scale)
	}
	return r
}

func serRat(s ser) [][][2]int { return ratSeries(serFloats(s, 1)) }

func (g *gen) pair() (dim int, space dtw.PointSpace, a, b ser) {
	dim = g.pick(1, 1, 2)
	space = euclid.NewSpace()
	if dim == 2 {
		space = manhattan{}
	}
	var hi = g.pick(1, 2, 4)
	var l1, l2 = 1 + g.Intn(6), 1 + g.Intn(6)
	if g.Intn(4) == 0 {
		l2 = l1
	}
	if g.Intn(8) == 0 {
		l2 = 7 + g.Intn(6)
	}
	a, b = g.series(l1, dim, hi), g.series(l2, dim, hi)
	if g.Intn(10) == 0 {
		b = append(ser{}, a...)
	}
	if g.Intn(40) == 0 { // long
		dim, space = 1, euclid.NewSpace()
		a, b = g.series(10+g.Intn(25), 1, hi), g.series(10+g.Intn(25), 1, hi)
	}
	if g.Intn(2) == 0 {
		a, b = b, a
	}
	return
}

func pathOf(p []dtw.Ends) [][2]int {
	var r = make([][2]int, len(p))
	for i := range p {
		r[i] = [2]int{p[i].End0 + 1, p[i].End1 + 1}
	}
	return r
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// all pairs of series of lengths 1 to 3 with values 0 to 2, then random ones
func genDtw(g *gen) {
	var dim, space, a, b = g.pair()
	_ = dim
	if g.Intn(2) == 0 {
		// direct distance, the window is at least the difference of lengths
		var w = 0
		if g.Intn(3) > 0 {
			w = abs(len(a)-len(b)) + g.Intn(3)
		}
		g.run(m{"k": "dtw", "a": serRat(a), "b": serRat(b), "w": w}, func() m {
			var x, y = serFloats(a, 1), serFloats(b, 1)
			var gd = guarded(x, y)
			var d = dtw.NewDTWWindow(x, y, space, w)
			if w == 0 {
				d = dtw.NewDTW(x, y, space)
			}
			var cm = dtw.NewCumCostMatrix(x, y, space, w)
			var cum = make([][][2]int, len(x))
			for i := range x {
				for j := range y {
					cum[i] = append(cum[i], rat(cm.Get(i, j)))
				}
			}
			var rev = dtw.NewDTWWindow(y, x, space, w)
			return m{"dist": rat(d.Dist()), "path": pathOf(d.Path()), "cum": cum, "rev": rat(rev.Dist()), "mut": gd.mutated()}
		})
		return
	}
	var w = g.pick(0, 1, 1, 2, 3, 5)
	g.run(m{"k": "dtwdist", "a": serRat(a), "b": serRat(b), "w": w}, func() m {
		var x, y = serFloats(a, 1), serFloats(b, 1)
		var gd = guarded(x, y)
		var sp = dtw.NewSpace(dtw.Conf{InnerSpace: space, Window: w})
		return m{"dist": rat(sp.Dist(x, y)), "rev": rat(sp.Dist(y, x)), "self": rat(sp.Dist(x, sp.Copy(x))), "mut": gd.mutated()}
	})
}

func genDba(g *gen) {
	switch g.Intn(4) {
	case 0:
		genResize(g)
		return
	case 1:
		genInterp(g)
		return
	}
	var _, space, a, b = g.pair()
	var w = g.pick(0, 0, 1, 2, 4)
	var u, v = 1 + g.Intn(4), 1 + g.Intn(4)
	switch g.Intn(6) {
	case 0: // averages of many series
		var n = 1 + g.Intn(8000)
		u, v = n*u, n*v
	case 1:
		a, b = a[:1], b[:1] // otherwise denominators are too great
		u, v = 1+g.Intn(15000), 1+g.Intn(g.pick(3, 15000))
		if g.Intn(2) == 0 {
			u, v = v, u
		}
	}
	g.run(m{"k": "dba", "a": serRat(a), "b": serRat(b), "w": w, "u": u, "v": v}, func() m {
		var x, y = serFloats(a, 1), serFloats(b, 1)
		var gd = guarded(x, y)
		var sp = dtw.NewSpace(dtw.Conf{InnerSpace: space, Window: w})
		var res = sp.Combine(x, u, y, v).([][]float64)
		var rec = ratSeries(res)
		var sx, sy = dtw.ShrinkLongest(x, y, space, w)
		var d = dtw.NewDTWWindow(sx, sy, space, w)
		var out = m{"res": rec, "path": pathOf(d.Path()), "sa": ratSeries(sx), "sb": ratSeries(sy), "dba": ratSeries(d.DBA(u, v))}
		out["mut"] = gd.mutated()
		return out
	})
}

func genResize(g *gen) {
	var dim = g.pick(1, 2)
	var a = g.series(g.pick(1, 2, 3, 4, 5, 8), dim, 4)
	var n = 1 + g.Intn(12)
	if g.Intn(4) == 0 {
		n = len(a)
	}
	g.run(m{"k": "resize", "a": serRat(a), "n": n}, func() m {
		var x = serFloats(a, 1)
		var gd = guarded(x)
		var r = dtw.Resize(x, n, euclid.NewSpace())
		return m{"res": ratSeries(r), "mut": gd.mutated()}
	})
}

func genInterp(g *gen) {
	var a = g.series(1+g.Intn(6), 1+g.Intn(2), 4)
	var f = 1 + g.Intn(5)
	var idx = make([]int, len(a))
	for i := 1; i < len(a); i++ {
		idx[i] = idx[i-1] + 1 + g.Intn(4)
	}
	g.run(m{"k": "interp", "a": serRat(a), "idx": idx, "f": f}, func() m {
		var x = serFloats(a, 1)
		var gd = guarded(x, idx)
		var r = dtw.Interpolate(x, idx, f, euclid.NewSpace())
		return m{"res": ratSeries(r), "mut": gd.mutated()}
	})
}
