//go:build go1.25

// Package verifalgo drives the real code in virtual time and records histories,
// which are validated against spec/Algo.tla.
package verifalgo

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/internal/vsync"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	xrand "golang.org/x/exp/rand"
)

type m = map[string]interface{}

const unit = 100 * time.Microsecond

// fin is the syntax tree of a finishing condition
type fin struct {
	T string   `json:"t"`
	N int      `json:"n"`
	P int      `json:"p"`
	E bool     `json:"e"`
	S []string `json:"s"`
	L []*fin   `json:"l"`
}

func (f *fin) MarshalJSON() ([]byte, error) {
	switch f.T {
	case "iter":
		return json.Marshal(m{"t": f.T, "n": f.N, "p": f.P})
	case "status":
		var s = f.S
		if s == nil {
			s = []string{}
		}
		return json.Marshal(m{"t": f.T, "e": f.E, "s": s})
	case "and", "or":
		var l = f.L
		if l == nil {
			l = []*fin{}
		}
		return json.Marshal(m{"t": f.T, "l": l})
	}
	return json.Marshal(m{"t": "nil"})
}

var statusByName = map[string]core.ClustStatus{
	"Created": core.Created, "Initializing": core.Initializing, "Ready": core.Ready,
	"Running": core.Running, "Idle": core.Idle, "Finished": core.Finished}
var statusNames = []string{"Created", "Initializing", "Ready", "Running", "Idle", "Finished"}

func statusName(s core.ClustStatus) string {
	for n, v := range statusByName {
		if v == s {
			return n
		}
	}
	return fmt.Sprintf("status%d", int(s))
}

func (f *fin) build() core.Finishing {
	switch f.T {
	case "iter":
		return core.NewIterFinishing(f.N, f.P)
	case "status":
		var s []core.ClustStatus
		for _, n := range f.S {
			s = append(s, statusByName[n])
		}
		return core.NewStatusFinishing(f.E, s...)
	case "and", "or":
		var l []core.Finishing
		for _, g := range f.L {
			l = append(l, g.build())
		}
		if f.T == "and" {
			return core.NewAndFinishing(l...)
		}
		return core.NewOrFinishing(l...)
	}
	return nil
}

var nilFin = &fin{T: "nil"}

type acfg struct {
	iter, ipd, dpi int
	tmo, freq      int // units of 0.1 ms; freq is the period
	fin            *fin
	notif          string // "", fast, slow, block, reenter
	impl           string // mock, kmeans, kmeanspar, mcmc
	frame          int
	base           []int
	yieldLvl       int
	slowAfter      int // iterations are slow after this number, or 40
	yieldMax       int
	figt           bool // time figures are checked
	spaceMax       int  // duration of operations of the space
	longN, longIn  int  // long yields, among how many
	longMax        int
	iterMin        int // duration of iterations, units of 0.1 ms
	iterMax        int
	initMax        int
	pOk            float64 // probability that an iteration is ok, then nil, err, panic
	pNil, pErr     float64
	pInitErr       float64
	budget         int    // virtual time given to clients before they are rescued (0.1ms)
	birth          string // not empty when the algorithm is a copy: status of its original
	born           []int  // elements pushed to the original
}

type op struct {
	delay  int // units of 1us
	name   string
	fin    *fin
	dur    int
	refuse bool
}

type scenario struct {
	id      int
	c       acfg
	clients [][]op
	rng     *rand.Rand
	rmu     sync.Mutex
	w       *bufio.Writer
	wmu     *sync.Mutex
	t0      time.Time
	dead    int32
	algo    *core.Algo
	iters   int
	tok     int
	nextEl  int64
	pending [8]int32
	snaps   []snap
	reenter int
	cbops   []op
	words   []string // stimuli of a tour, clients is empty then
	gate    chan string
	igate   chan string
	open    chan struct{}
	inIter  int32
	inInit  int32

	orig       *core.Algo // original, when the algorithm is a copy
	origBefore m
	strange    int
}

type snap struct {
	clust, clustCopy core.Clust
	rf, rfCopy       core.RuntimeFigures
}

func (s *scenario) intn(n int) int {
	if n <= 0 {
		return 0
	}
	s.rmu.Lock()
	defer s.rmu.Unlock()
	return s.rng.Intn(n)
}
func (s *scenario) float() float64 {
	s.rmu.Lock()
	defer s.rmu.Unlock()
	return s.rng.Float64()
}

func (s *scenario) log(e m) {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	if atomic.LoadInt32(&s.dead) != 0 {
		return
	}
	e["t"] = int(time.Since(s.t0) / unit)
	s.write(e)
}

func (s *scenario) write(e m) {
	e["sc"] = s.id
	var b, err = json.Marshal(e)
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.w.Flush()
}

func (s *scenario) sleep(min, max int) {
	var d = min
	if max > min {
		d += s.intn(max - min + 1)
	}
	if d > 0 {
		time.Sleep(time.Duration(d) * unit)
	}
}

// atGate waits for an outcome given by the tour, returns "" when gates are open
func (s *scenario) atGate(gate chan string, inside *int32) (o string) {
	if gate == nil {
		return ""
	}
	atomic.AddInt32(inside, 1)
	defer atomic.AddInt32(inside, -1)
	select {
	case <-s.open:
		return ""
	default:
	}
	select {
	case o = <-gate:
	case <-s.open:
	}
	return
}

// tour plays the words of a tour
func (s *scenario) tour(done chan int) {
	for _, w := range s.words {
		var parts = strings.SplitN(w, ":", 2)
		switch {
		case len(parts) == 2:
			var c, _ = strconv.Atoi(parts[0])
			if atomic.LoadInt32(&s.pending[c]) == 0 {
				atomic.StoreInt32(&s.pending[c], 1)
				go s.call(c, op{name: parts[1], fin: nilFin})
			}
		case w == "t":
			time.Sleep(time.Duration(s.c.tmo) * unit)
		case w == "iok" || w == "ierr":
			s.give(s.igate, w)
		default:
			s.give(s.gate, w)
		}
		if s.float() < 0.75 { // let things settle, or not
			s.sleep(20, 30)
			if s.float() < 0.3 {
				s.sleep(1100, 1100) // longer than the polling period of Wait
			}
		}
	}
	close(s.open)
	for i := 0; i < 3000 && (s.pending[1]|s.pending[2]|s.pending[3]) != 0; i++ {
		time.Sleep(time.Millisecond)
	}
	if len(s.anyPending()) > 0 {
		s.call(4, op{name: "Stop"})
	}
	for i := 0; i < 5000 && (s.pending[1]|s.pending[2]|s.pending[3]) != 0; i++ {
		time.Sleep(time.Millisecond)
	}
	done <- 1
}

func (s *scenario) give(gate chan string, w string) {
	select {
	case gate <- w:
	case <-time.After(5 * time.Millisecond):
	}
}

// longer slows iterations down when there were many, to keep histories short
func (s *scenario) longer(n int) {
	if n > 40 && n > s.c.slowAfter {
		s.sleep(3000, 3000)
	}
}

func (s *scenario) blockIfDead() {
	if atomic.LoadInt32(&s.dead) != 0 {
		select {}
	}
}

// ---------------------------------------------------------------- mock

const maxK = 3

func makeClust(tok int) core.Clust {
	var c = make(core.Clust, 1+tok%maxK)
	for i := range c {
		c[i] = tok*10 + i
	}
	return c
}

func tokenOf(c core.Clust) int {
	if len(c) == 0 {
		return -1
	}
	var first, ok = c[0].(int)
	if !ok || first%10 != 0 {
		return -2
	}
	var tok = first / 10
	if !reflect.DeepEqual(c, makeClust(tok)) {
		return -2
	}
	return tok
}

type mockSpace struct{}

func (mockSpace) Dist(a, b core.Elemt) float64 {
	var x, y = a.(int), b.(int)
	var tok, j = y / 10, y % 10
	var d = j - x%(1+tok%maxK)
	return float64(tok*10 + d*d)
}
func (mockSpace) Combine(a core.Elemt, _ int, _ core.Elemt, _ int) core.Elemt { return a }
func (mockSpace) Copy(a core.Elemt) core.Elemt                                { return a }
func (mockSpace) Dim([]core.Elemt) int                                        { return 1 }

// mute implementations are those of the original of a copy
type mock struct {
	s    *scenario
	mute bool
}

func (k *mock) Init(model core.OCModel) (core.Clust, error) {
	var s = k.s
	s.blockIfDead()
	if k.mute {
		return core.Clust{0}, nil
	}
	var rf = model.RuntimeFigures()
	s.log(m{"e": "is", "seen": []int{}, "it": figure(rf, core.Iterations), "pu": figure(rf, core.PushedData),
		"cl": tokenOf(model.Centroids()), "sv": statusName(model.Status().Value)})
	var forced = s.atGate(s.igate, &s.inInit)
	s.sleep(0, s.c.initMax)
	s.rmu.Lock()
	s.tok++
	var tok = s.tok
	s.rmu.Unlock()
	var o = "ok"
	if forced != "" {
		o = strings.TrimPrefix(forced, "i")
	} else if s.float() < s.c.pInitErr {
		o = "err"
	}
	if o == "err" {
		var e = fmt.Sprintf("E%d", tok)
		var panics = s.float() < 0.4
		s.log(m{"e": "ie", "r": m{"k": "err", "e": e}, "panic": panics})
		if panics {
			panic(e)
		}
		return makeClust(tok), errors.New(e)
	}
	s.log(m{"e": "ie", "r": m{"k": "ok", "tok": tok}})
	return makeClust(tok), nil
}

func figure(rf core.RuntimeFigures, name string) int {
	var v, ok = rf[name]
	if !ok {
		return 0
	}
	return int(v)
}

func (k *mock) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	var s = k.s
	s.blockIfDead()
	if k.mute {
		s.muteSleep()
		return core.Clust{0, 1}, core.RuntimeFigures{"fig": 77}, nil
	}
	var rf = model.RuntimeFigures()
	s.log(m{"e": "ts", "it": figure(rf, core.Iterations), "pu": figure(rf, core.PushedData),
		"cl": tokenOf(model.Centroids()), "sv": statusName(model.Status().Value)})
	s.rmu.Lock()
	s.tok++
	var tok = s.tok
	var n = s.iters
	s.iters++
	s.rmu.Unlock()
	var forced = s.atGate(s.gate, &s.inIter)
	var o = "ok"
	if forced != "" {
		o = forced
	} else if p := s.float(); p > s.c.pOk {
		switch {
		case p < s.c.pOk+s.c.pNil:
			o = "nil"
		case p < s.c.pOk+s.c.pNil+s.c.pErr:
			o = "err"
		default:
			o = "panic"
		}
	}
	// a failure may come at once
	if forced == "" && !((o == "err" || o == "panic") && s.float() < 0.5) {
		s.sleep(s.c.iterMin, s.c.iterMax)
		s.longer(n)
	}
	s.blockIfDead()
	switch o {
	case "ok":
		s.log(m{"e": "te", "r": m{"k": "ok", "tok": tok, "fig": tok}, "used": []int{}})
		return makeClust(tok), core.RuntimeFigures{"fig": float64(tok)}, nil
	case "nil":
		s.log(m{"e": "te", "r": m{"k": "nil"}, "used": []int{}})
		return nil, core.RuntimeFigures{"fig": float64(tok)}, nil
	case "err":
		var e = fmt.Sprintf("F%d", tok)
		s.log(m{"e": "te", "r": m{"k": "err", "e": e}, "used": []int{}})
		return makeClust(tok), core.RuntimeFigures{"fig": float64(tok)}, errors.New(e)
	}
	var e = fmt.Sprintf("P%d", tok)
	s.log(m{"e": "te", "r": m{"k": "panic", "e": e}, "used": []int{}})
	switch tok % 3 {
	case 0:
		panic(e)
	case 1:
		panic(errors.New(e))
	}
	panic(fmt.Stringer(stringer(e)))
}

// muteSleep is the duration of an iteration of the original of a copy
func (s *scenario) muteSleep() {
	if s.algo == nil {
		time.Sleep(unit)
	} else {
		time.Sleep(1000 * unit)
	}
}

type stringer string

func (s stringer) String() string { return string(s) }

func (k *mock) Push(elemt core.Elemt, model core.OCModel) error {
	k.s.blockIfDead()
	_ = model.Status()
	if elemt.(int) < 0 {
		return errors.New("refused")
	}
	return nil
}

func (k *mock) Copy(core.OCModel) (core.Impl, error) { return &mock{s: k.s}, nil }

// ------------------------------------------- real implementations, data mode

// bag is a set of ids with multiplicities; data elements have no owner
type bag struct {
	ids  []int
	data bool
}

type bagSpace struct{ s *scenario }

func (b bagSpace) Dist(a, c core.Elemt) float64 {
	var s = b.s
	for _, e := range []core.Elemt{a, c} {
		if x := e.(*bag); x.data && s != nil {
			s.rmu.Lock()
			s.sawData(x.ids[0])
			s.rmu.Unlock()
		}
	}
	vsync.Yield()
	if s != nil {
		s.sleep(0, s.c.spaceMax)
	}
	return 0
}
func (b bagSpace) Combine(a core.Elemt, _ int, c core.Elemt, _ int) core.Elemt {
	vsync.Yield()
	if b.s != nil {
		b.s.sleep(0, b.s.c.spaceMax)
	}
	var x, y = a.(*bag), c.(*bag)
	var ids = append(append([]int{}, x.ids...), y.ids...)
	sort.Ints(ids)
	return &bag{ids: ids}
}
func (b bagSpace) Copy(a core.Elemt) core.Elemt {
	return &bag{ids: append([]int{}, a.(*bag).ids...)}
}
func (b bagSpace) Dim([]core.Elemt) int { return 1 }

var sawMap = map[*scenario]map[int]bool{}

func (s *scenario) sawData(id int) {
	if sawMap[s] == nil {
		sawMap[s] = map[int]bool{}
	}
	sawMap[s][id] = true
}

// initializer wrapper: logs the data it receives
func (s *scenario) initializer(k int, elemts []core.Elemt, space core.Space, src *xrand.Rand) (core.Clust, error) {
	s.blockIfDead()
	var seen = []int{}
	for _, e := range elemts {
		seen = append(seen, e.(*bag).ids[0])
	}
	if s.algo != nil { // otherwise this is the original of a copy
		s.log(m{"e": "is", "seen": seen, "sv": ""})
		s.sleep(0, s.c.initMax)
	}
	if len(elemts) < k {
		return nil, errors.New("less elements than k")
	}
	return core.Clust{space.Copy(elemts[0])}, nil
}

type wrapper struct {
	s    *scenario
	impl core.Impl
	mute bool
}

// tokens of real clusterings: by identity of first centroid
func (w *wrapper) token(c core.Clust) int {
	if len(c) == 0 {
		return -1
	}
	w.s.rmu.Lock()
	defer w.s.rmu.Unlock()
	return tokMap[tokKey{w.s, c[0].(*bag)}]
}

type tokKey struct {
	s *scenario
	b *bag
}

var tokMap = map[tokKey]int{}

func (w *wrapper) newToken(c core.Clust) int {
	w.s.rmu.Lock()
	defer w.s.rmu.Unlock()
	var key = tokKey{w.s, c[0].(*bag)}
	if t, ok := tokMap[key]; ok {
		return t
	}
	w.s.tok++
	tokMap[key] = w.s.tok
	return w.s.tok
}

func (w *wrapper) Init(model core.OCModel) (core.Clust, error) {
	w.s.blockIfDead()
	var c, err = w.impl.Init(model)
	if w.mute {
		return c, err
	}
	if err != nil {
		w.s.log(m{"e": "ie", "r": m{"k": "err", "e": err.Error()}})
	} else {
		w.s.log(m{"e": "ie", "r": m{"k": "ok", "tok": w.newToken(c)}})
	}
	return c, err
}

func (w *wrapper) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	var s = w.s
	s.blockIfDead()
	if w.mute {
		s.muteSleep()
		return w.impl.Iterate(model)
	}
	var rf = model.RuntimeFigures()
	s.log(m{"e": "ts", "it": figure(rf, core.Iterations), "pu": figure(rf, core.PushedData),
		"cl": w.token(model.Centroids()), "sv": statusName(model.Status().Value)})
	s.rmu.Lock()
	delete(sawMap, s)
	s.rmu.Unlock()
	var c, figs, err = w.impl.Iterate(model)
	var n = s.intn(3)
	s.sleep(n, n+s.c.iterMax)
	s.rmu.Lock()
	n = s.iters
	s.iters++
	s.rmu.Unlock()
	s.longer(n)
	s.blockIfDead()
	if err != nil {
		s.log(m{"e": "te", "r": m{"k": "err", "e": err.Error()}, "used": []int{}})
		return c, figs, err
	}
	var used = []int{}
	if s.c.impl == "mcmc" {
		s.rmu.Lock()
		for id := range sawMap[s] {
			used = append(used, id)
		}
		s.rmu.Unlock()
		sort.Ints(used)
	} else {
		used = append(used, c[0].(*bag).ids...)
	}
	var tok = w.newToken(c)
	if figs == nil {
		figs = core.RuntimeFigures{}
	}
	figs["fig"] = float64(tok)
	s.log(m{"e": "te", "r": m{"k": "ok", "tok": tok, "fig": tok}, "used": used})
	return c, figs, nil
}

func (w *wrapper) Push(e core.Elemt, model core.OCModel) error {
	w.s.blockIfDead()
	return w.impl.Push(e, model)
}
func (w *wrapper) Copy(model core.OCModel) (core.Impl, error) {
	var impl, err = w.impl.Copy(model)
	return &wrapper{s: w.s, impl: impl}, err
}

type identity struct{}

func (identity) Sample(mu core.Elemt, time int) core.Elemt { return mu }
func (identity) Pdf(x, mu core.Elemt, time int) float64    { return 1 }

// ---------------------------------------------------------------- calls

func (s *scenario) token(c core.Clust) int {
	if s.c.impl == "mock" {
		return tokenOf(c)
	}
	return (&wrapper{s: s}).token(c)
}

func resOf(err error) []interface{} {
	var r string
	switch err {
	case nil:
		r = "ok"
	case core.ErrRunning:
		r = "running"
	case core.ErrNotRunning:
		r = "notrunning"
	case core.ErrNotAlive:
		r = "notalive"
	case core.ErrAlreadyCreated:
		r = "already"
	case core.ErrIdle:
		r = "idle"
	case core.ErrNeverFinish:
		r = "never"
	case core.ErrTimeout:
		r = "timeout"
	default:
		r = err.Error()
	}
	return []interface{}{r, "", 0, 0, 0}
}

func errName(err error) string {
	if err == nil {
		return ""
	}
	return resOf(err)[0].(string)
}

// call an operation as client c
func (s *scenario) call(c int, o op) {
	var arg = m{"x": 0}
	var el int
	switch o.name {
	case "Push":
		el = int(atomic.AddInt64(&s.nextEl, 1))
		arg = m{"el": el, "refuse": o.refuse}
	case "Wait":
		arg = m{"fin": o.fin, "dur": o.dur}
	}
	atomic.StoreInt32(&s.pending[c], 1)
	s.log(m{"e": "call", "c": c, "op": o.name, "arg": arg})
	var res = s.do(o, el)
	var ret = m{"e": "ret", "c": c, "res": res}
	if s.c.figt && o.name == "Figures" && len(res) == 7 {
		ret["res"], ret["ft"] = res[:5], res[5:]
	}
	s.log(ret)
	atomic.StoreInt32(&s.pending[c], 0)
	s.blockIfDead()
}

func (s *scenario) do(o op, el int) (res []interface{}) {
	defer func() {
		if r := recover(); r != nil {
			res = []interface{}{fmt.Sprintf("PANIC %v", r), "", 0, 0, 0}
		}
	}()
	var a = s.algo
	switch o.name {
	case "Init":
		return resOf(a.Init())
	case "Play":
		return resOf(a.Play())
	case "Pause":
		return resOf(a.Pause())
	case "Stop":
		return resOf(a.Stop())
	case "Batch":
		return resOf(a.Batch())
	case "Wait":
		return resOf(a.Wait(o.fin.build(), time.Duration(o.dur)*unit))
	case "Push":
		var e core.Elemt = el
		if o.refuse {
			e = -el
		}
		if s.c.impl != "mock" {
			e = &bag{ids: []int{el}, data: true}
		}
		return resOf(a.Push(e))
	case "Status":
		var st = a.Status()
		return []interface{}{statusName(st.Value), errName(st.Error), 0, 0, 0}
	case "Centroids":
		var cl = a.Centroids()
		var cp = append(core.Clust{}, cl...)
		s.rmu.Lock()
		s.snaps = append(s.snaps, snap{clust: cl, clustCopy: cp})
		s.rmu.Unlock()
		return []interface{}{"", "", s.token(cl), 0, 0}
	case "Figures":
		var rf = a.RuntimeFigures()
		var cp = core.RuntimeFigures{}
		for k, v := range rf {
			cp[k] = v
		}
		s.rmu.Lock()
		s.snaps = append(s.snaps, snap{rf: rf, rfCopy: cp})
		s.rmu.Unlock()
		res = []interface{}{"", "", figure(rf, core.Iterations), figure(rf, core.PushedData), figure(rf, "fig")}
		if s.c.figt {
			var last = -1
			if v := rf[core.LastDataTime]; v != 0 {
				last = int(v - float64(s.t0.Unix()))
			}
			res = append(res, int(rf[core.Duration]/float64(unit)), last)
		}
		return
	case "Predict":
		if s.c.impl != "mock" {
			var pred, label, dist = a.Predict(&bag{ids: []int{0}})
			if pred == nil && label == -1 {
				return []interface{}{"", "", -1, 0, 0}
			}
			if label != 0 || dist != 0 {
				return []interface{}{"", "", -2, 0, 0}
			}
			return []interface{}{"", "", s.token(core.Clust{pred}), 0, 0}
		}
		var x = s.intn(maxK)
		var pred, label, dist = a.Predict(x)
		if pred == nil && label == -1 {
			return []interface{}{"", "", -1, 0, 0}
		}
		var p, ok = pred.(int)
		var tok = p / 10
		if !ok || label != x%(1+tok%maxK) || p != tok*10+label || dist != float64(tok*10) {
			return []interface{}{"", "", -2, 0, 0}
		}
		return []interface{}{"", "", tok, 0, 0}
	}
	panic("op " + o.name)
}

func (s *scenario) mutated() (n int) {
	s.rmu.Lock()
	defer s.rmu.Unlock()
	for _, x := range s.snaps {
		if x.rf != nil && !reflect.DeepEqual(x.rf, x.rfCopy) {
			n++
		}
		if len(x.clust) != len(x.clustCopy) {
			n++
			continue
		}
		for i := range x.clust {
			if x.clust[i] != x.clustCopy[i] {
				n++
				allLeft++
			}
		}
	}
	return
}

// ---------------------------------------------------------------- scenario

func (s *scenario) notifier(oc core.OnlineClust, st core.OCStatus) {
	s.blockIfDead()
	var name = statusName(st.Value)
	if oc != core.OnlineClust(s.algo) {
		name = "wrong algo"
	}
	s.log(m{"e": "n", "s": name, "er": errName(st.Error)})
	switch s.c.notif {
	case "slow":
		s.sleep(1, 300)
	case "block":
		s.rmu.Lock()
		s.reenter++
		var n = s.reenter
		s.rmu.Unlock()
		if n > len(s.cbops) {
			select {}
		}
	case "reenter":
		s.rmu.Lock()
		var n = s.reenter
		s.reenter++
		s.rmu.Unlock()
		if n < len(s.cbops) && s.cbops[n].name != "" {
			s.call(5, s.cbops[n])
		}
	}
}

func (s *scenario) anyPending() (l []int) {
	for i := range s.pending {
		if atomic.LoadInt32(&s.pending[i]) != 0 {
			l = append(l, i)
		}
	}
	return
}

func (s *scenario) setup() {
	var c = s.c
	var ctrl = core.CtrlConf{Iter: c.iter, IterPerData: c.ipd, DataPerIter: c.dpi,
		Timeout: time.Duration(c.tmo) * unit, Finishing: c.fin.build()}
	if c.freq > 0 {
		ctrl.IterFreq = 10000 / float64(c.freq)
	}
	if c.notif != "" {
		ctrl.StatusNotifier = s.notifier
	}
	s.nextEl = 1000
	if c.birth != "" {
		s.copyOf(ctrl)
	} else if c.impl == "mock" {
		s.algo = core.NewAlgo(&ctrl, &mock{s: s}, mockSpace{})
	} else {
		var data []core.Elemt
		for _, id := range c.base {
			data = append(data, &bag{ids: []int{id}, data: true})
		}
		var rgen = xrand.New(xrand.NewSource(uint64(s.intn(1 << 30))))
		if c.impl == "mcmc" {
			var conf = mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 1, FrameSize: c.frame, RGen: rgen, NumCPU: 2}
			var al = mcmc.NewAlgo(conf, bagSpace{s}, data, s.initializer, identity{})
			s.algo = core.NewAlgo(al.Conf(), &wrapper{s: s, impl: al.Impl()}, bagSpace{s})
		} else {
			var conf = kmeans.Conf{CtrlConf: ctrl, K: 1, FrameSize: c.frame, RGen: rgen, NumCPU: 2, Par: c.impl == "kmeanspar"}
			var al = kmeans.NewAlgo(conf, bagSpace{s}, data, s.initializer)
			s.algo = core.NewAlgo(al.Conf(), &wrapper{s: s, impl: al.Impl()}, bagSpace{s})
		}
	}
}

// copyOf makes the algorithm a copy of another one, which has a life of its own
func (s *scenario) copyOf(ctrl core.CtrlConf) {
	var c = s.c
	var own = core.CtrlConf{Iter: s.intn(3), DataPerIter: s.intn(3), Timeout: time.Duration(s.intn(3)) * 400 * unit,
		StatusNotifier: func(oc core.OnlineClust, _ core.OCStatus) {
			if oc != core.OnlineClust(s.orig) {
				s.strange++
			}
		}}
	if c.birth == "Running" || c.birth == "Idle" {
		own.Iter, own.Timeout = 0, time.Duration(s.intn(2)*(60000+s.intn(10000)))*unit
	}
	var conf core.Conf
	var space core.Space = mockSpace{}
	var el = func(i int) core.Elemt { return i }
	if c.impl == "mock" {
		conf = &ctrl
		s.orig = core.NewAlgo(&own, &mock{s: s, mute: true}, space)
	} else {
		el = func(i int) core.Elemt { return &bag{ids: []int{i}, data: true} }
		var data []core.Elemt
		for _, id := range c.base {
			data = append(data, el(id))
		}
		space = bagSpace{s}
		var rgen = func() *xrand.Rand { return xrand.New(xrand.NewSource(uint64(s.intn(1 << 30)))) }
		var al *core.Algo
		if c.impl == "mcmc" {
			conf = &mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 1, FrameSize: c.frame, RGen: rgen(), NumCPU: 2}
			al = mcmc.NewAlgo(mcmc.Conf{CtrlConf: own, InitK: 1, MaxK: 1, RGen: rgen(), NumCPU: 2}, bagSpace{}, data, s.initializer, identity{})
		} else {
			conf = &kmeans.Conf{CtrlConf: ctrl, K: 1, FrameSize: c.frame, RGen: rgen(), NumCPU: 2, Par: c.impl == "kmeanspar"}
			al = kmeans.NewAlgo(kmeans.Conf{CtrlConf: own, K: 1, RGen: rgen(), NumCPU: 2}, bagSpace{}, data, s.initializer)
		}
		s.orig = core.NewAlgo(al.Conf(), &wrapper{s: s, impl: al.Impl(), mute: true}, bagSpace{})
	}
	for _, id := range c.born {
		_ = s.orig.Push(el(id))
	}
	switch c.birth {
	case "Ready":
		_ = s.orig.Init()
	case "Running", "Idle", "Stopped":
		_ = s.orig.Play()
		time.Sleep(time.Duration(pick(s, 1, 8, 3000, 8000)) * unit)
		if c.birth == "Idle" {
			_ = s.orig.Pause()
		} else if c.birth == "Stopped" {
			_ = s.orig.Stop()
		}
	}
	var before = s.origState()
	var cp, err = s.orig.Copy(conf, space)
	if err != nil {
		panic(err)
	}
	s.algo = cp.(*core.Algo)
	s.origBefore = before
}

// origState is what the copy must leave unchanged, when the original does nothing
func (s *scenario) origState() m {
	var st = s.orig.Status()
	var r = m{"status": st.Value}
	if c := s.c.birth; c != "Running" && c != "Ready" { // no timeout, no iteration
		r["error"], r["figures"], r["centroids"] = st.Error, s.orig.RuntimeFigures(), s.orig.Centroids()
	}
	return r
}

// goroutines of the library seen at the end of a scenario
var seenLeft = map[string]bool{}
var allLeft = 0

// leftBehind counts the goroutines which the library has started, or has blocked,
// and which remain once the algorithm is at rest and its timeout has elapsed
func (s *scenario) leftBehind() (n int) {
	if os.Getenv("VERIF_PROFILE") != "C31" {
		return 0
	}
	var rest = len(s.anyPending()) == 0 && s.orig == nil && s.c.notif != "slow" && s.c.notif != "block"
	if st := s.algo.Status().Value; st != core.Finished && st != core.Created {
		rest = false
	}
	if rest {
		time.Sleep(time.Duration(s.c.tmo)*unit + 30*time.Second)
	}
	var buf = make([]byte, 1<<20)
	for {
		if l := runtime.Stack(buf, true); l < len(buf) {
			buf = buf[:l]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, stack := range strings.Split(string(buf), "\n\n") {
		var id = strings.SplitN(stack, " [", 2)[0]
		var frames = strings.SplitN(stack, "created by ", 2)
		if strings.Contains(frames[0], "verifalgo") || seenLeft[id] {
			continue // of this harness, or of a previous scenario
		}
		if libFrame.MatchString(stack) {
			seenLeft[id] = true
			if rest && len(frames) == 2 {
				fmt.Println("LEFT " + stack) // to the log
				n++
				allLeft++
			}
		}
	}
	return n
}

var libFrame = regexp.MustCompile(`wearelumenai/distclus/(v0/)?(core|kmeans|mcmc|streaming|euclid|complex|cosinus|vectors|dtw|figures|factory)`)

// run the scenario, in a bubble
func (s *scenario) run(t *testing.T) {
	var c = s.c
	var base = append(append([]int{}, c.base...), c.born...)
	if c.impl == "mock" {
		base = []int{}
	}
	s.t0 = time.Now()
	var tol = 60 + c.longN*(c.longMax/100+1)*3/2 // short yields last 45 units at most, see vsync
	s.write(m{"e": "cf", "cf": m{"iter": c.iter, "ipd": c.ipd, "dpi": c.dpi, "tmo": c.tmo, "freq": c.freq,
		"fin": c.fin, "notif": c.notif != "", "data": c.impl != "mock", "frame": c.frame, "base": base, "tol": tol,
		"figt": c.figt, "off": s.t0.Nanosecond() / int(unit)},
		"impl": c.impl, "notif": c.notif, "words": s.words})
	vsync.Enable(uint64(s.intn(1<<30)), c.yieldLvl, c.yieldMax)
	if c.longN > 0 {
		vsync.Long(c.longN, c.longIn, c.longMax)
	}
	s.setup()
	var done = make(chan int, 1+len(s.clients))
	for i, ops := range s.clients {
		go func(c int, ops []op) {
			for _, o := range ops {
				time.Sleep(time.Duration(o.delay) * time.Microsecond)
				s.blockIfDead()
				s.call(c, o)
			}
			done <- c
		}(i+1, ops)
	}
	var left = len(s.clients)
	if s.words != nil {
		left = 1
		go s.tour(done)
	}
	var rescues = 0
	var timer = time.NewTimer(time.Duration(c.budget) * unit)
	for left > 0 {
		select {
		case <-done:
			left--
		case <-timer.C:
			if rescues < 12 && atomic.LoadInt32(&s.pending[4]) == 0 {
				go s.call(4, op{name: "Stop"}) // may block
			}
			rescues++
			if rescues > 14 {
				left = -1
			}
			timer.Reset(2 * time.Second)
		}
	}
	for i := 0; i < 1000 && atomic.LoadInt32(&s.pending[4]) != 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if left == 0 && atomic.LoadInt32(&s.pending[4]) == 0 {
		var fini = make(chan int)
		go func() {
			for _, n := range []string{"Stop", "Status", "Figures", "Centroids"} {
				s.call(4, op{name: n})
			}
			if c.impl != "mock" { // see data order
				s.call(4, op{name: "Init"})
				s.call(4, op{name: "Stop"})
			}
			fini <- 1
		}()
		select {
		case <-fini:
		case <-time.After(10 * time.Second):
		}
	}
	// notifications and late effects
	for i := 0; i < 20; i++ {
		time.Sleep(time.Second)
		if len(s.anyPending()) == 0 && i > 2 && c.notif != "slow" {
			break
		}
	}
	var mut = s.mutated()
	if s.orig != nil {
		if tmo := s.orig.Conf().Ctrl().Timeout; tmo > 0 && (c.birth == "Running" || c.birth == "Idle") {
			time.Sleep(tmo) // its own timeout ends it
			if st := s.orig.Status(); st.Value != core.Finished || st.Error != core.ErrTimeout {
				mut++
			}
		} else if !reflect.DeepEqual(s.origBefore, s.origState()) {
			mut++
		}
		mut += s.strange
	}
	s.log(m{"e": "end", "nb": c.notif == "block", "mut": mut, "crash": "", "left": s.leftBehind()})
	s.wmu.Lock()
	atomic.StoreInt32(&s.dead, 1)
	s.wmu.Unlock()
	s.rmu.Lock()
	delete(sawMap, s)
	s.rmu.Unlock()
	vsync.Enable(1, 0, 1)
	time.Sleep(10 * time.Second)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func TestAlgo(t *testing.T) {
	var out = os.Getenv("VERIF_OUT")
	if out == "" {
		t.Skip("not driven")
	}
	var f, err = os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	var w = bufio.NewWriter(f)
	var seed, n, first = envInt("VERIF_SEED", 1), envInt("VERIF_N", 10), envInt("VERIF_FIRST", 0)
	var profile = os.Getenv("VERIF_PROFILE")
	var tours [][]string
	var step = envInt("VERIF_STEP", 1)
	if p := os.Getenv("VERIF_TOURS"); p != "" {
		var b, err = os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			tours = append(tours, strings.Fields(line))
		}
	}
	// real time watchdog
	var progress int64
	go func() {
		var last, since = int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if p := atomic.LoadInt64(&progress); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > time.Duration(envInt("VERIF_WATCHDOG", 60))*time.Second {
				var buf = make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "WATCHDOG scenario %d makes no progress\n%s\n", p, buf)
				os.Exit(77)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		var wmu sync.Mutex
		for i := first; i < first+n*step && allLeft < 8; i += step {
			atomic.StoreInt64(&progress, int64(i))
			var rng = rand.New(rand.NewSource(int64(seed)*1000003 + int64(i)))
			var s = &scenario{id: i, rng: rng, w: w, wmu: &wmu}
			if tours != nil {
				if i >= len(tours) {
					break
				}
				tourScenario(s, tours[i])
			} else {
				generate(s, profile)
			}
			s.run(t)
		}
		w.Flush()
		f.Close()
		fmt.Println("HARNESS DONE")
		os.Exit(0)
	})
}
