//go:build go1.25

package veriffunc

import (
	"math"
	"math/big"
	"sort"

	"github.com/wearelumenai/distclus/core"
)

// bag elements identify the elements they are made of, their position is
// their only identifier, or the average of their identifiers
type bag struct {
	ids []int
	w   int
	bad bool
	cen bool // a given centroid
}

func newBag(id int) bag { return bag{ids: []int{id}, w: 1} }

func (b bag) pos() float64 {
	var s int
	for _, id := range b.ids {
		s += id
	}
	return float64(s) / float64(len(b.ids))
}

func bagIDs(e core.Elemt) []int {
	if e == nil {
		return []int{}
	}
	var b = e.(bag)
	if b.cen {
		return []int{-1}
	}
	if b.bad {
		return []int{-2}
	}
	var r = append([]int{}, b.ids...)
	sort.Ints(r)
	return r
}

type bagSpace struct{}

func (bagSpace) Dist(a, b core.Elemt) float64 { return math.Abs(a.(bag).pos() - b.(bag).pos()) }
func (bagSpace) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	var x, y = a.(bag), b.(bag)
	return bag{
		ids: append(append([]int{}, x.ids...), y.ids...),
		w:   u + v,
		bad: x.bad || y.bad || u != x.w || v != y.w,
	}
}
func (bagSpace) Copy(a core.Elemt) core.Elemt { return deep(a) }
func (bagSpace) Dim([]core.Elemt) int         { return 1 }

// rvec are vectors of exact rationals
type rvec []*big.Rat

type rspace struct{ dim int }

func newRvec(v []int) rvec {
	var r = make(rvec, len(v))
	for i := range v {
		r[i] = big.NewRat(int64(v[i]), 1)
	}
	return r
}

func (r rvec) record() [][2]int {
	var out = make([][2]int, len(r))
	for i := range r {
		out[i] = [2]int{int(r[i].Num().Int64()), int(r[i].Denom().Int64())}
	}
	return out
}

// Dist is the square of the Euclidean distance, exact before its rounding
func (rspace) Dist(a, b core.Elemt) float64 {
	var x, y = a.(rvec), b.(rvec)
	var s = new(big.Rat)
	for i := range x {
		var d = new(big.Rat).Sub(x[i], y[i])
		s.Add(s, d.Mul(d, d))
	}
	var f, _ = s.Float64()
	return f
}

func (rspace) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	var x, y = a.(rvec), b.(rvec)
	var r = make(rvec, len(x))
	for i := range x {
		var p = new(big.Rat).Mul(x[i], big.NewRat(int64(u), int64(u+v)))
		var q = new(big.Rat).Mul(y[i], big.NewRat(int64(v), int64(u+v)))
		r[i] = p.Add(p, q)
	}
	return r
}

func (rspace) Copy(a core.Elemt) core.Elemt {
	var x = a.(rvec)
	var r = make(rvec, len(x))
	for i := range x {
		r[i] = new(big.Rat).Set(x[i])
	}
	return r
}

func (s rspace) Dim([]core.Elemt) int { return s.dim }

// table elements have tabulated distances
type tnode struct {
	cent bool
	i    int
}

type tableSpace struct {
	tab [][]int
	val func(int) float64
}

func (s tableSpace) Dist(a, b core.Elemt) float64 {
	var x, y = a.(tnode), b.(tnode)
	if x.cent {
		x, y = y, x
	}
	return s.val(s.tab[x.i][y.i])
}
func (tableSpace) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt { return a }
func (tableSpace) Copy(a core.Elemt) core.Elemt                                { return a }
func (tableSpace) Dim([]core.Elemt) int                                        { return 1 }

// manhattan is an inner space of series
type manhattan struct{}

func (s manhattan) Dist(a, b core.Elemt) float64 { return s.PointDist(a.([]float64), b.([]float64)) }
func (s manhattan) Combine(a core.Elemt, u int, b core.Elemt, v int) core.Elemt {
	return s.PointCombine(a.([]float64), u, b.([]float64), v)
}
func (s manhattan) Copy(a core.Elemt) core.Elemt { return s.PointCopy(a.([]float64)) }
func (manhattan) Dim(d []core.Elemt) int {
	if len(d) == 0 {
		return 0
	}
	return len(d[0].([]float64))
}
func (manhattan) PointDist(a, b []float64) (d float64) {
	for i := range a {
		d += math.Abs(a[i] - b[i])
	}
	return
}
func (manhattan) PointCombine(a []float64, u int, b []float64, v int) []float64 {
	var r = make([]float64, len(a))
	for i := range a {
		r[i] = (a[i]*float64(u) + b[i]*float64(v)) / float64(u+v)
	}
	return r
}
func (manhattan) PointCopy(a []float64) []float64 { return append([]float64{}, a...) }
