//go:build go1.25

package veriffunc

import (
	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
)

func init() {
	generators["C20"] = genStore
}

// C20: histories of a centre store
func genStore(g *gen) {
	var dim, hi = g.pick(1, 2), g.pick(0, 1, 2, 4)
	var first = dim == 2 && g.Intn(2) == 0
	var space core.Space = euclid.NewSpace()
	if first {
		space = firstCoord{}
	}
	g.run(m{"k": "store", "first": first}, func() m {
		var store = mcmc.NewCenterStore(g.anyRgen())
		var ops = []m{}
		var kept = &guard{} // clusterings stored
		var last = map[int]core.Clust{}
		for i := 2 + g.Intn(9); i > 0; i-- {
			var vc = g.vecs(1+g.Intn(g.pick(4, 4, 4, 9)), dim, 0, hi)
			if g.Intn(3) == 0 {
				var c = core.Clust(elemts(vc, 1))
				store.SetCenters(c)
				last[len(c)] = c
				kept.orig, kept.kept = append(kept.orig, c), append(kept.kept, deep(c))
				ops = append(ops, m{"op": "set", "c": vc})
				continue
			}
			var vd = g.vecs(g.pick(0, 1, 2, 3, 6, 20), dim, 0, hi)
			var k = len(vc) - 1 + g.Intn(3)
			if k < 1 {
				k = 1
			}
			var data, c = elemts(vd, 1), core.Clust(elemts(vc, 1))
			var given = guarded(data, c)
			var res, err = store.GetCenters(data, space, k, c)
			var o = m{"op": "get", "data": vd, "kk": k, "c": vc, "err": err != nil, "res": []int{}}
			if err == nil {
				o["res"] = ratClust(res)
			}
			// the caller alters generated centres
			if _, stored := last[k]; !stored && k != len(vc) && err == nil {
				for _, e := range res {
					for j := range e.([]float64) {
						e.([]float64)[j] += 17
					}
				}
				for j := range res {
					res[j] = []float64{1000}
				}
			}
			o["mut"] = given.mutated() || kept.mutated()
			ops = append(ops, o)
		}
		return m{"ops": ops}
	})
}
