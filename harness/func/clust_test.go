//go:build go1.25

package veriffunc

import (
	"math"
	"sync"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/internal/vsync"
	"github.com/wearelumenai/distclus/kmeans"
	xrand "golang.org/x/exp/rand"
)

func init() {
	generators["C12"] = genAssign
	generators["C13"] = genReduce
	generators["C15"] = genInit
	generators["C25"] = genSpace
	generators["C27"] = genDraw
}

var scales = []float64{1, 1, 1, 0.125, 1024, 1.0 / (1 << 40), 1 << 40}

// pointSpace are the spaces whose points make series
type pointSpace interface {
	PointDist(point1 []float64, point2 []float64) float64
	PointCopy(point []float64) []float64
	PointCombine(point1 []float64, weight1 int, point2 []float64, weight2 int) []float64
}

// genSeriesSpace is about copies and dimensions of series
func genSeriesSpace(g *gen) {
	var n, dim = g.Intn(5), 1 + g.Intn(3)
	var s = g.vecs(n, dim, -9, 9)
	var others = g.Intn(3)
	var inner = []string{"euclid", "cosine"}[g.Intn(2)]
	var c = m{"k": "serspace", "sp": inner, "series": s, "others": others}
	g.run(c, func() m {
		var space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: g.Intn(3)})
		if inner == "cosine" {
			space = dtw.NewSpace(dtw.Conf{InnerSpace: cosinus.NewSpace(), Window: g.Intn(3)})
		}
		var x = make([][]float64, n)
		for i := range x {
			x[i] = floats(s[i], 1)
		}
		var kept = deep(x)
		var cp = space.Copy(x).([][]float64)
		var r = m{"copy": ratSeries(cp)}
		for i := range cp {
			for j := range cp[i] {
				cp[i][j] += 3
			}
		}
		r["free"] = same(x, kept)
		var data = []core.Elemt{x}
		for i := 0; i < others; i++ {
			data = append(data, [][]float64{{1, 2, 3, 4, 5}})
		}
		r["dim"], r["none"] = space.Dim(data), space.Dim(nil)+space.Dim([]core.Elemt{})
		return r
	})
}

// C25
func genSpace(g *gen) {
	if g.Intn(10) == 0 {
		genSeriesSpace(g)
		return
	}
	var cosine = g.Intn(2) == 0
	var dim = g.pick(1, 2, 2, 3, 3, 4, 7)
	if g.Intn(12) == 0 {
		dim = 8 + g.Intn(200)
	}
	var hi = 9
	if cosine {
		hi = 3
		if dim > 4 {
			dim = 4
		}
		if g.Intn(12) == 0 {
			dim, hi = 20+g.Intn(100), 1
		}
	}
	var a, b = g.vec(dim, -hi, hi), g.vec(dim, -hi, hi)
	switch g.Intn(6) {
	case 0:
		b = append([]int{}, a...)
	case 1:
		for i := range b {
			b[i] = -a[i]
		}
	case 2:
		for i := range b {
			if g.Intn(2) == 0 {
				b[i] = 0
			}
		}
	}
	if cosine {
		for zero(a) {
			a = g.vec(dim, -hi, hi)
		}
		for zero(b) {
			b = g.vec(dim, -hi, hi)
		}
	}
	var u, v = 1 + g.Intn(9), 1 + g.Intn(9)
	switch g.Intn(6) {
	case 0:
		u = 0
	case 1:
		v = 0
	}
	var wscale = g.pick(1, 1, 1, 1000, 1<<20, 1<<33)
	var scale = scales[g.Intn(len(scales))]
	var c = m{"k": "space", "sp": "euclid", "a": a, "b": b, "u": u, "v": v, "wscale": float64(wscale), "vscale": math.Log2(scale)}
	delete(c, "wscale")
	c["note"] = "weights x " + itoa(wscale) + " values x 2^" + itoa(int(math.Log2(scale)))
	delete(c, "vscale")
	if cosine {
		c["sp"] = "cosine"
	}
	g.run(c, func() m {
		var space core.Space = euclid.NewSpace()
		if cosine {
			space = cosinus.NewSpace()
		}
		var x, y = floats(a, scale), floats(b, scale)
		var gd = guarded(x, y)
		var d = space.Dist(x, y)
		var r = m{"s": 0}
		if cosine {
			var cs = 1 - d
			r["d2"] = rat(cs * cs)
			if cs > 1e-9 {
				r["s"] = 1
			} else if cs < -1e-9 {
				r["s"] = -1
			}
		} else {
			r["d2"] = rat(d / scale * d / scale)
		}
		r["sym"] = math.Abs(space.Dist(y, x)-d) <= 1e-12*math.Max(1, d)
		r["nonneg"] = d >= 0 && space.Dist(x, x) >= 0 && space.Dist(y, y) >= 0
		var self = math.Max(space.Dist(x, x), math.Max(space.Dist(y, y), space.Dist(x, space.Copy(x))))
		if cosine {
			r["self"] = self <= 1e-9
		} else {
			r["self"] = self == 0
		}
		r["scale"] = true
		if cosine {
			for _, k := range []float64{0.25, 3, 7, 1 << 30, 1e-9} {
				var z = make([]float64, len(x))
				for i := range x {
					z[i] = x[i] * k
				}
				if math.Abs(space.Dist(z, y)-d) > 1e-9 || math.Abs(space.Dist(y, z)-d) > 1e-9 || space.Dist(z, x) > 1e-9 || space.Dist(z, x) < 0 {
					r["scale"] = false
				}
			}
		}
		var comb = space.Combine(x, u*wscale, y, v*wscale).([]float64)
		if u+v == 0 {
			comb = nil
		}
		var unscaled = make([]float64, len(comb))
		for i := range comb {
			unscaled[i] = comb[i] / scale
		}
		r["comb"] = ratVec(unscaled)
		r["dim"], r["none"] = space.Dim([]core.Elemt{x, append([]float64{1}, y...)}[:1+len(x)%2]), space.Dim(nil)+space.Dim([]core.Elemt{})
		// as points of series
		var ps = space.(pointSpace)
		var pc = ps.PointCopy(x)
		r["points"] = same(ps.PointDist(x, y), d) && same(pc, x) &&
			(u+v == 0 || same(ps.PointCombine(x, u*wscale, y, v*wscale), comb))
		for i := range pc {
			pc[i]++
		}
		var cp = space.Copy(x).([]float64)
		r["copyeq"] = same(cp, x)
		var mut = gd.mutated()
		for i := range cp {
			cp[i] += 17
		}
		r["copyfree"] = !gd.mutated()
		for i := range comb {
			comb[i] += 17
		}
		r["combfree"] = !gd.mutated()
		r["mut"] = mut
		return r
	})
}

func zero(v []int) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

func (g *gen) degrees(n int) []int {
	var d = []int{1 + g.Intn(4), 1 + g.Intn(2*n+3), n, n + 1, g.pick(8, 16, 31)}
	var r []int
	for _, x := range d {
		if x >= 1 && g.Intn(2) == 0 {
			r = append(r, x)
		}
	}
	if len(r) == 0 {
		r = []int{2}
	}
	return r
}

// C12
func genAssign(g *gen) {
	var n, k = g.pick(0, 1, 1, 2, 3, 5, 8), g.pick(0, 1, 1, 2, 3, 4, 6)
	if g.Intn(12) == 0 {
		n = 40 + g.Intn(60)
	}
	if g.Intn(60) == 0 {
		n, k = g.pick(127, 128, 129, 256, 300, 1025), g.pick(1, 2, 9, 17, 33)
		if n > 500 {
			k = 1 + g.Intn(4)
		}
	}
	var sp = []string{"euclid", "euclid", "cosine", "table", "table", "dtw", "l1"}[g.Intn(7)]
	var c = m{"k": "assign", "sp": sp}
	var space core.Space
	var es []core.Elemt
	var cs core.Clust
	var record func(d float64) [3]int
	var asRat = func(d float64) [3]int { var r = rat(d); return [3]int{0, r[0], r[1]} }
	switch sp {
	case "euclid", "cosine", "l1":
		var dim, hi = 1 + g.Intn(3), g.pick(1, 2, 5)
		if sp == "cosine" {
			hi = g.pick(1, 2, 3)
		}
		var ve, vc = g.vecs(n, dim, -hi, hi), g.vecs(k, dim, -hi, hi)
		if sp == "cosine" {
			for _, l := range [][][]int{ve, vc} {
				for i := range l {
					for zero(l[i]) {
						l[i] = g.vec(dim, -hi, hi)
					}
				}
			}
		}
		if n > 0 && k > 0 && g.Intn(3) == 0 {
			vc[g.Intn(k)] = ve[g.Intn(n)]
		}
		var scale = 1.
		if sp != "l1" {
			scale = scales[g.Intn(len(scales))]
		}
		c["es"], c["cs"] = ve, vc
		es, cs = elemts(ve, scale), elemts(vc, scale)
		switch sp {
		case "euclid":
			space = euclid.NewSpace()
			record = func(d float64) [3]int { return asRat(d / scale * d / scale) }
		case "l1":
			space = manhattan{}
			record = asRat
		default:
			space = cosinus.NewSpace()
			record = func(d float64) [3]int {
				var x = 1 - d
				var r = rat(x * x)
				var s int
				if x > 1e-9 {
					s = 1
				} else if x < -1e-9 {
					s = -1
				}
				return [3]int{s, r[0], r[1]}
			}
		}
	case "table":
		var ranks = g.pick(1, 2, 3, 6)
		var tab = make([][]int, n)
		for i := range tab {
			tab[i] = g.vec(k, 0, ranks-1)
			if k == 0 {
				tab[i] = []int{}
			}
		}
		var kind = g.Intn(4)
		var val = func(r int) float64 {
			switch kind {
			case 1:
				return float64(r) * 1e300
			case 2:
				return float64(r) * 5e-324
			case 3:
				if r == ranks-1 {
					return math.Inf(1)
				}
			}
			return float64(r)
		}
		record = func(d float64) [3]int {
			for r := 0; r < ranks; r++ {
				if val(r) == d {
					return [3]int{0, r, 1}
				}
			}
			return [3]int{0, -1, 1}
		}
		space = tableSpace{tab, val}
		var ie, ic = make([]int, n), make([]int, k)
		for i := range ie {
			ie[i] = i + 1
			es = append(es, tnode{false, i})
		}
		for i := range ic {
			ic[i] = i + 1
			cs = append(cs, tnode{true, i})
		}
		c["tab"], c["es"], c["cs"] = tab, ie, ic
	case "dtw":
		var w = g.pick(0, 0, 1, 2)
		var ve, vc = make([][]int, n), make([][]int, k)
		for i := range ve {
			ve[i] = g.vec(1+g.Intn(5), 0, 3)
			es = append(es, series1(ve[i]))
		}
		for i := range vc {
			vc[i] = g.vec(1+g.Intn(5), 0, 3)
			cs = append(cs, series1(vc[i]))
		}
		c["es"], c["cs"], c["w"] = ve, vc, w
		space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: w})
		record = asRat
	}
	var degs = g.degrees(n)
	c["degs"] = degs
	space = yielding{space}
	g.run(c, g.maybe(c, func() m {
		var gd = guarded(es, cs)
		var lab = make([]int, n)
		var dist = make([]float64, n)
		var d = make([][3]int, n)
		var cok = make([]bool, n)
		for i, e := range es {
			var cen core.Elemt
			cen, lab[i], dist[i] = cs.Assign(e, space)
			d[i] = record(dist[i])
			if lab[i] >= 0 && lab[i] < k {
				cok[i] = cen != nil && same(cen, cs[lab[i]])
			} else {
				cok[i] = cen == nil
			}
		}
		var bulk []m
		var add = func(l []int, ds []float64) {
			bulk = append(bulk, m{"lab": l, "deq": sameFloats(ds, dist)})
		}
		add(cs.MapLabel(es, space))
		for _, deg := range degs {
			add(cs.ParMapLabel(es, space, deg))
		}
		var pred = m{"on": false, "lab": []int{}, "deq": true}
		if k > 0 && sp != "table" {
			var algo = kmeans.NewAlgo(kmeans.Conf{K: k}, space, cs, kmeans.GivenInitializer)
			var deq = true
			if n > 0 {
				var p, l, _ = algo.Predict(es[0])
				deq = p == nil && l == -1
			}
			if err := algo.Init(); err != nil {
				panic(err)
			}
			var pl = make([]int, n)
			for i, e := range es {
				var p core.Elemt
				var pd float64
				p, pl[i], pd = algo.Predict(e)
				deq = deq && pd == dist[i] && pl[i] >= 0 && pl[i] < k && same(p, cs[pl[i]])
			}
			pred = m{"on": true, "lab": pl, "deq": deq}
		}
		return m{"lab": lab, "d": d, "cok": cok, "bulk": bulk, "pred": pred, "mut": gd.mutated()}
	}))
}

// C13
func genReduce(g *gen) {
	switch g.Intn(8) {
	case 0:
		genPar(g)
		return
	case 1:
		genAvg(g)
		return
	}
	var n, k = g.pick(0, 1, 2, 3, 5, 8, 12), g.pick(1, 1, 2, 3, 4, 6)
	if g.Intn(12) == 0 {
		n = 30 + g.Intn(40)
	}
	if g.Intn(60) == 0 {
		n, k = g.pick(128, 150, 256), g.pick(1, 2, 9, 12)
	}
	var es []core.Elemt
	var cs core.Clust
	var space core.Space
	var c = m{"k": "reduce", "sq": false}
	var norms = []int{1, 2, 3, 4}
	if g.Intn(2) == 0 {
		c["sp"] = "bag"
		// identifiers are positions, all different among data
		var ids = g.Perm(n + 5)[:n]
		var cids = g.vec(k, 0, n+4)
		for _, i := range ids {
			es = append(es, newBag(i))
		}
		for _, i := range cids {
			var b = newBag(i)
			b.cen = true
			cs = append(cs, b)
		}
		c["es"], c["cs"] = ids, cids
		space = bagSpace{}
		if n > 12 {
			norms = norms[:2]
		}
	} else {
		c["sp"] = "euclid"
		var dim = g.pick(1, 1, 2, 3)
		var ve, vc = g.vecs(n, dim, -5, 5), g.vecs(k, dim, -5, 5)
		c["es"], c["cs"] = ve, vc
		es, cs = elemts(ve, 1), elemts(vc, 1)
		space = euclid.NewSpace()
		if dim > 1 {
			norms = []int{2}
		} else if g.Intn(3) == 0 { // distances are squares, norms are halves
			c["sq"] = true
			norms = []int{1, 3, 5, 2}
			space = sqSpace{euclid.NewSpace()}
		}
	}
	var labels = g.vec(n, 0, k-1)
	if g.Intn(3) == 0 { // only some clusters
		labels = make([]int, n)
	}
	if n == 0 {
		labels = []int{}
	}
	c["labels"] = labels
	var degs = g.degrees(n)
	var norm = norms[g.Intn(len(norms))]
	c["degs"] = degs
	var means = func(ms []core.Elemt) interface{} {
		if c["sp"] == "bag" {
			var r = make([][]int, len(ms))
			for i := range ms {
				var ids = bagIDs(ms[i])
				if len(ids) == 1 && ids[0] == -1 { // an empty cluster may keep its centroid
					if same(ms[i], cs[i]) {
						r[i] = ids
					} else {
						r[i] = []int{-4}
					}
				} else {
					r[i] = indices(ids, c["es"].([]int))
				}
			}
			return r
		}
		var r = make([][][2]int, len(ms))
		for i := range ms {
			r[i] = [][2]int{}
			if ms[i] != nil {
				r[i] = ratVec(ms[i].([]float64))
			}
		}
		return r
	}
	space = yielding{space}
	g.run(c, g.maybe(c, func() m {
		var gd = guarded(es, cs, labels)
		var runs []m
		var dba = func(given bool, ms []core.Elemt, cards []int) {
			runs = append(runs, m{"f": "dba", "given": given, "means": means(ms), "cards": cards})
		}
		var loss = func(given bool, ls []float64, cards []int) {
			runs = append(runs, m{"f": "loss", "given": given, "losses": ratVec(ls), "cards": cards, "norm": norm})
		}
		var tot = func(l float64) {
			runs = append(runs, m{"f": "tot", "given": false, "tot": rat(l), "norm": norm})
		}
		var fn = float64(norm)
		if c["sq"] == true {
			fn /= 2
		}
		var ms, cards = cs.ReduceDBA(es, space)
		dba(false, ms, cards)
		var me, mc = cs.ReduceDBAForLabels(es, labels, space)
		dba(true, me, mc)
		var ls, lc = cs.ReduceLoss(es, space, fn)
		loss(false, ls, lc)
		ls, lc = cs.ReduceLossForLabels(es, labels, space, fn)
		loss(true, ls, lc)
		tot(cs.TotalLoss(es, space, fn))
		for _, deg := range degs {
			ms, cards = cs.ParReduceDBA(es, space, deg)
			dba(false, ms, cards)
			me, mc = cs.ParReduceDBAForLabels(es, labels, space, deg)
			dba(true, me, mc)
			ls, lc = cs.ParReduceLoss(es, space, fn, deg)
			loss(false, ls, lc)
			ls, lc = cs.ParReduceLossForLabels(es, labels, space, fn, deg)
			loss(true, ls, lc)
			tot(cs.ParTotalLoss(es, space, fn, deg))
		}
		return m{"runs": runs, "mut": gd.mutated()}
	}))
}

// sqSpace has the squares of the Euclidean distances
type sqSpace struct{ euclid.Space }

func (s sqSpace) Dist(a, b core.Elemt) float64 {
	var v = a.([]float64)[0] - b.([]float64)[0]
	return v * v
}

// indices (from 1) of identifiers in a list, -3 for those not in it
func indices(ids []int, list []int) []int {
	var r = make([]int, len(ids))
	for i, id := range ids {
		r[i] = -3
		for j, x := range list {
			if x == id {
				r[i] = j + 1
			}
		}
	}
	sortInts(r)
	return r
}

func genAvg(g *gen) {
	var n = g.pick(0, 1, 2, 3, 5, 9)
	var ve = g.vecs(n, 1+g.Intn(3), -5, 5)
	var ws = make([]int, n)
	var weighted = g.Intn(2) == 0
	for i := range ws {
		ws[i] = 1
		if weighted {
			ws[i] = 1 + g.Intn(6)
		}
	}
	g.run(m{"k": "avg", "es": ve, "ws": ws, "weighted": weighted}, func() m {
		var es = elemts(ve, 1)
		var gd = guarded(es, ws)
		var e core.Elemt
		var err error
		if weighted {
			e, err = core.WeightedDBA(es, ws, euclid.NewSpace())
		} else {
			e, err = core.DBA(es, euclid.NewSpace())
		}
		var r = m{"err": err != nil, "res": [][2]int{}}
		if err == nil {
			var v = e.([]float64)
			r["res"] = ratVec(v)
			for i := range v {
				v[i] += 17
			}
		}
		r["mut"] = gd.mutated()
		return r
	})
}

func genPar(g *gen) {
	var size = g.pick(0, 1, 2, 3, 7, 8, 16, 25, 60, g.Intn(1000), 1+g.Intn(100000))
	var deg = g.pick(1, 2, 3, 4, 7, 8, 16, 33, 1+g.Intn(100))
	var c = m{"k": "par", "size": size, "deg": deg}
	g.run(c, g.maybe(c, func() m {
		var slices = [][3]int{}
		var mu sync.Mutex
		core.Par(func(start, end, rank int) {
			vsync.Yield()
			mu.Lock()
			defer mu.Unlock()
			slices = append(slices, [3]int{start, end, rank})
		}, size, deg)
		mu.Lock()
		var got = append([][3]int{}, slices...)
		mu.Unlock()
		var covered = 0
		for _, s := range got {
			covered += s[1] - s[0]
		}
		return m{"slices": got, "done": covered == size}
	}))
}

// C27
func genDraw(g *gen) {
	var n = g.pick(0, 1, 2, 3, 3, 5, 9, 1+g.Intn(60))
	var w = make([]int, n)
	for i := range w {
		w[i] = g.pick(0, 0, 1, 1, 2, 3, 5)
	}
	var scale = []float64{1, 1, 0.1, 1.0 / 3, 1e-300, 1e200, 7}[g.Intn(7)]
	var ws = floats(w, scale)
	var v uint64
	var lo, hi int
	switch g.Intn(4) {
	case 0: // exact fraction
		lo = g.Intn(64)
		hi = lo
		v = uint64(lo) << 47
	case 1:
		v, lo, hi = math.MaxUint64, 63, 64
	case 2:
		v, lo, hi = 1, 0, 1
	default:
		v = g.Uint64()
		lo = int((v >> 47) & 63)
		hi = lo + 1
	}
	g.run(m{"k": "wdraw", "w": w, "ulo": lo, "uhi": hi}, func() m {
		var rg, src = g.rgen(v)
		// the fraction drawn, by the same generator
		var u = xrand.New(&rsource{script: []uint64{v}, next: xrand.NewSource(1)}).Float64()
		if u*64 < float64(lo) || u*64 > float64(hi) {
			panic("harness: unexpected fraction")
		}
		var gd = guarded(ws)
		var idx, err = kmeans.WeightedChoice(ws, rg)
		var e = ""
		if err == kmeans.ErrNullSet {
			e = "null"
		} else if err != nil {
			e = err.Error()
		}
		return m{"idx": idx, "err": e, "used": src.used, "mut": gd.mutated()}
	})
}

// C15
func genInit(g *gen) {
	if g.Intn(4) == 0 {
		genFailInit(g)
		return
	}
	var n = g.pick(0, 1, 2, 3, 5, 8, 14)
	if g.Intn(20) == 0 {
		n = 20 + g.Intn(60)
	}
	var k = g.pick(-1, 0, 1, 1, 2, 3, 4, n, n+1, 1+g.Intn(n+1))
	var init = []string{"given", "rand", "pp", "pp"}[g.Intn(4)]
	var dim = 1 + g.Intn(2)
	var data = g.vecs(n, dim, 0, g.pick(0, 1, 2, 5))
	var cls = data
	var space core.Space = euclid.NewSpace()
	if g.Intn(4) == 0 {
		// a space in which different elements may be at distance zero
		space = firstCoord{}
		cls = make([][]int, n)
		for i := range cls {
			cls[i] = data[i][:1]
		}
	}
	var scale = scales[g.Intn(len(scales))]
	var upper = g.Intn(3) == 0
	g.run(m{"k": "init", "init": init, "data": data, "cls": cls, "kk": k}, func() m {
		var es = elemts(data, scale)
		var gd = guarded(es)
		var name = init
		if upper {
			name = map[string]string{"given": "GIVEN", "rand": "Rand", "pp": "PP"}[init]
		}
		var res, err = kmeans.CreateInitializer(name)(k, es, space, g.anyRgen())
		var out = [][]int{}
		if err == nil {
			for _, e := range res {
				var v = e.([]float64)
				var r = make([]int, len(v))
				for i := range v {
					r[i] = int(v[i] / scale)
				}
				out = append(out, r)
			}
		}
		return m{"err": err != nil, "res": out, "mut": gd.mutated()}
	})
}

// distance between first coordinates only
type firstCoord struct{ euclid.Space }

func (firstCoord) Dist(a, b core.Elemt) float64 {
	return math.Abs(a.([]float64)[0] - b.([]float64)[0])
}
