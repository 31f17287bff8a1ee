//go:build go1.25

package veriffunc

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/internal/vsync"
	"github.com/wearelumenai/distclus/mcmc"
)

func init() {
	generators["C21"] = genLate
}

// tagged elements tell which distribution sampled them
type tagged struct {
	by, from, time int
}

type tagDistrib struct{ id int }

func (d tagDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	return tagged{d.id, mu.(int), time}
}

func (d tagDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	return float64(d.id*1000000 + x.(int)*10000 + mu.(int)*100 + time)
}

// C21: concurrent calls of a late distribution
func genLate(g *gen) {
	var n = g.pick(1, 2, 2, 3, 4, 8)
	var type1 = g.Intn(3)
	var starts, builds = make([]int, n), 0
	var calls = make([]int, n)
	for i := range starts {
		starts[i] = g.Intn(g.pick(1, 3, 12))
		calls[i] = 1 + g.Intn(3)
	}
	builds = g.pick(0, 1, 5, 20)
	var lvl, max = g.pick(0, 1, 2, 4), g.pick(1, 3, 10)
	var seed = g.Uint64()
	g.run(m{"k": "late", "n": n, "sync": true}, func() m {
		var mu sync.Mutex
		var ev = []m{}
		var add = func(e m) {
			mu.Lock()
			defer mu.Unlock()
			ev = append(ev, e)
		}
		var crash string
		synctest.Test(g.t, func(t *testing.T) {
			vsync.Enable(seed, lvl, max)
			defer vsync.Enable(0, 0, 1)
			var nbuilt = 0
			var d = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
				mu.Lock()
				nbuilt++
				var id = nbuilt
				mu.Unlock()
				add(m{"t": "build", "el": e.(int)})
				time.Sleep(time.Duration(builds) * time.Microsecond)
				add(m{"t": "built", "by": id})
				return tagDistrib{id}
			})
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							mu.Lock()
							crash = fmt.Sprintf("panic: %v", e)
							mu.Unlock()
						}
					}()
					time.Sleep(time.Duration(starts[i]) * time.Microsecond)
					for j := 0; j < calls[i]; j++ {
						var x, y, tm = 1 + i*10 + j*2, 2 + i*10 + j*2, 1 + j
						var pdf = type1 == 0 || type1 == 2 && (i+j)%2 == 0
						if !pdf {
							add(m{"t": "call", "i": i + 1, "els": []int{x}})
							var r = d.Sample(x, tm)
							var tg, ok = r.(tagged)
							add(m{"t": "ret", "i": i + 1, "by": tg.by, "ok": ok && tg.from == x && tg.time == tm})
						} else {
							add(m{"t": "call", "i": i + 1, "els": []int{x, y}})
							var r = int(d.Pdf(x, y, tm))
							add(m{"t": "ret", "i": i + 1, "by": r / 1000000, "ok": r%1000000 == x*10000+y*100+tm})
						}
					}
				}()
			}
			wg.Wait()
		})
		if crash != "" {
			panic(crash)
		}
		return m{"ev": ev}
	})
}
