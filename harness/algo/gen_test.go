//go:build go1.25

package verifalgo

// random scenarios, by profile

func pick(s *scenario, l ...int) int        { return l[s.intn(len(l))] }
func chance(s *scenario, p float64) bool    { return s.float() < p }
func picks(s *scenario, l ...string) string { return l[s.intn(len(l))] }

func randFin(s *scenario, depth int, loop bool) *fin {
	var n = 4
	if depth == 0 {
		n = 2
	}
	switch s.intn(n) {
	case 0:
		return &fin{T: "iter", N: s.intn(4), P: s.intn(3)}
	case 1:
		var f = &fin{T: "status", E: chance(s, 0.4)}
		for i := s.intn(3); i > 0; i-- {
			f.S = append(f.S, statusNames[s.intn(6)])
		}
		return f
	}
	var f = &fin{T: picks(s, "and", "or")}
	for i := s.intn(3); i > 0; i-- {
		if chance(s, 0.1) {
			f.L = append(f.L, nilFin)
		} else {
			f.L = append(f.L, randFin(s, depth-1, loop))
		}
	}
	return f
}

type weights map[string]int

func drawOp(s *scenario, names []string, w weights) string {
	var sum = 0
	for _, n := range names {
		sum += w[n]
	}
	var x = s.intn(sum)
	for _, n := range names {
		if x < w[n] {
			return n
		}
		x -= w[n]
	}
	return names[0]
}

var opNames = []string{"Init", "Play", "Pause", "Stop", "Batch", "Wait", "Push", "Status", "Figures", "Centroids", "Predict"}

func delay(s *scenario, c *acfg) int {
	switch s.intn(6) {
	case 0:
		return 0
	case 1:
		return s.intn(50)
	case 2:
		return 100 * c.iterMin * (1 + s.intn(3)) // at the end of an iteration
	case 3:
		return s.intn(1000)
	case 4:
		return s.intn(100 * (c.iterMax + 10))
	}
	return s.intn(5 * 100 * (c.iterMax + 10))
}

func randOp(s *scenario, c *acfg, w weights, cb bool) op {
	var o = op{name: drawOp(s, opNames, w), delay: delay(s, c), fin: nilFin}
	switch o.name {
	case "Wait":
		if chance(s, 0.4) {
			o.dur = pick(s, 1, 50, 500, 999, 1000, 1500, 2500)
		}
		if chance(s, 0.35) {
			o.fin = randFin(s, 2, false)
			if o.dur == 0 {
				o.dur = pick(s, 300, 1100, 5000)
			}
		}
	case "Push":
		o.refuse = c.impl == "mock" && chance(s, 0.12)
	}
	return o
}

func generate(s *scenario, profile string) {
	var c = &s.c
	c.fin = nilFin
	c.impl = "mock"
	c.yieldLvl, c.yieldMax = pick(s, 0, 3, 6, 10), pick(s, 5, 30, 150)
	c.iterMin = pick(s, 10, 10, 20, 50)
	c.iterMax = c.iterMin + pick(s, 0, 0, 20, 50)
	c.initMax = pick(s, 0, 5, 30)
	c.pOk, c.pNil, c.pErr = 1, 0, 0
	c.budget = 20000
	if profile != "C07" && profile != "C26" && chance(s, 0.4) { // a few long suspensions
		c.longN, c.longIn, c.longMax = 1+s.intn(3), pick(s, 30, 100, 300, 1000), pick(s, 1000, 3000, 8000)
		c.yieldLvl, c.yieldMax = pick(s, 0, 3, 10), 10
	}
	var w = weights{"Init": 3, "Play": 8, "Pause": 6, "Stop": 5, "Batch": 2, "Wait": 5, "Push": 6, "Status": 3, "Figures": 3, "Centroids": 2, "Predict": 2}
	var nclients, nops = 2, 6
	var rushed, atEnds = false, false
	var iter = func() {
		switch s.intn(4) {
		case 0:
			c.iter = 1 + s.intn(4)
		case 1:
			c.ipd = 1 + s.intn(2)
		case 2:
			c.iter, c.ipd = 1+s.intn(4), s.intn(3)
		}
	}
	var faults = func() {
		c.pNil = 0.15
		c.pErr = 0.06
		c.pOk = 1 - c.pNil - 2*c.pErr
		c.pInitErr = 0.2
	}
	var verge = func() { // pushes at the end of the executions
		c.iter, c.ipd = s.intn(3), 1
		c.iterMin, c.iterMax = 10, 10
		c.longN, c.longIn, c.longMax = 1+s.intn(3), pick(s, 20, 50, 100), pick(s, 1000, 3000)
		c.yieldLvl, c.yieldMax = pick(s, 0, 3, 10), 10
		nclients, nops = 2, 6
		w = weights{"Play": 10, "Push": 16, "Batch": 1, "Wait": 1}
		atEnds = true
	}
	switch profile {
	case "C01":
		nclients, nops = 1, 12
		iter()
		if chance(s, 0.5) {
			faults()
		}
		if chance(s, 0.3) {
			c.fin = randFin(s, 2, true)
		}
		if chance(s, 0.2) {
			c.tmo = pick(s, 60, 200, 800)
		}
		w["Batch"] = 3
		w["Init"] = 5
	case "C02":
		nclients, nops = 3, 5
		iter()
		if chance(s, 0.4) {
			faults()
		}
		if chance(s, 0.3) {
			c.tmo = pick(s, 30, 100, 300)
		}
		if chance(s, 0.5) {
			c.dpi = 1 + s.intn(3)
		}
		w["Push"] = 10
		if chance(s, 0.2) {
			verge()
		}
	case "C03":
		nclients, nops = 3, 5
		iter()
		faults()
		c.notif = picks(s, "", "fast", "slow", "block", "reenter", "reenter")
		if chance(s, 0.4) {
			c.tmo = pick(s, 30, 100, 300)
		}
		if chance(s, 0.3) {
			c.dpi = 1 + s.intn(2)
		}
		if chance(s, 0.2) {
			c.freq = pick(s, 20, 50, 200)
		}
		w["Batch"] = 4
	case "C31":
		nclients, nops = 1+s.intn(3), 6
		iter()
		if chance(s, 0.5) {
			faults()
		}
		if chance(s, 0.4) {
			c.impl = picks(s, "kmeans", "kmeanspar", "mcmc")
			c.base = []int{1, 2, 3}
			c.frame = pick(s, 0, 2, 4)
			c.yieldLvl = pick(s, 0, 3, 6)
			c.pInitErr = 0
		}
		c.notif = picks(s, "", "fast", "reenter")
		if chance(s, 0.5) {
			c.tmo = pick(s, 30, 100, 300, 5000)
		}
		if chance(s, 0.3) {
			c.dpi = 1 + s.intn(2)
		}
		if chance(s, 0.2) {
			c.freq = pick(s, 20, 50, 200)
		}
		w["Batch"], w["Wait"] = 4, 8
	case "C04":
		nclients, nops = 3, 6
		iter()
		if chance(s, 0.3) {
			faults()
		}
		if chance(s, 0.4) {
			c.dpi = 1
		}
		if chance(s, 0.3) {
			c.tmo = pick(s, 30, 100, 300)
		}
		w = weights{"Init": 2, "Play": 12, "Pause": 9, "Stop": 6, "Batch": 2, "Push": 5, "Status": 5}
	case "C05":
		nclients, nops = 1+s.intn(3), 6
		if chance(s, 0.85) {
			iter()
			if c.iter+c.ipd == 0 {
				c.iter = 1 + s.intn(5)
			}
		}
		if chance(s, 0.4) {
			c.fin = randFin(s, 2, true)
		}
		if chance(s, 0.4) {
			c.pNil = 0.3
			c.pOk = 0.7
		}
		if chance(s, 0.3) {
			c.dpi = 1 + s.intn(3)
		}
		w = weights{"Init": 1, "Play": 9, "Pause": 4, "Stop": 2, "Batch": 2, "Wait": 8, "Push": 9, "Figures": 6, "Status": 4}
		if chance(s, 0.2) { // pushes at the end of the executions
			verge()
		}
		if chance(s, 0.02) { // many iterations
			c.iter, c.ipd = 60+s.intn(90), 0
			c.slowAfter = 400
			c.freq = 0
			c.pOk, c.pNil, c.pErr, c.pInitErr = 1, 0, 0, 0
			c.fin = nilFin
			c.iterMin, c.iterMax = 1, 1
			c.longN, c.longIn, c.longMax = 0, 0, 0
			c.yieldLvl, c.yieldMax = 0, 5
			nclients, nops = 1, 3
			w = weights{"Play": 9, "Batch": 3, "Wait": 8, "Push": 2}
		}
	case "C06":
		nclients, nops = 1+s.intn(2), 8
		iter()
		faults()
		c.pErr = 0.2
		if chance(s, 0.3) { // fails at once, most of the times
			c.pErr = 0.4
		}
		c.pOk = 1 - c.pNil - 2*c.pErr
		c.pInitErr = 0.35
		c.notif = picks(s, "", "", "fast")
		w["Batch"] = 5
		w["Predict"] = 5
		w["Centroids"] = 4
	case "C07":
		nclients, nops = 1+s.intn(2), 6
		if chance(s, 0.5) {
			iter()
		}
		if chance(s, 0.8) {
			c.tmo = pick(s, 10, 25, 60, 105, 200, 500, 1500)
		}
		c.iterMin = pick(s, 10, 20, 30, 100)
		c.iterMax = c.iterMin + pick(s, 0, 20)
		if chance(s, 0.2) {
			c.freq = pick(s, 50, 150, 300)
		}
		w = weights{"Init": 1, "Play": 9, "Pause": 4, "Stop": 5, "Batch": 3, "Wait": 12, "Push": 2, "Status": 5}
		if chance(s, 0.25) { // several executions in a session
			c.tmo = pick(s, 100, 300, 1000)
			c.iterMin = c.tmo / (2 + s.intn(4))
			c.iterMax = c.iterMin
			c.iter, c.ipd, c.dpi = 1+s.intn(2), s.intn(2), pick(s, 0, 1)
			if chance(s, 0.5) { // the timeout occurs about the end of an execution, its interruption is late
				c.tmo = pick(s, 30, 60, 100)
				c.iter, c.ipd = 1+s.intn(2), 0
				c.iterMin = c.tmo / c.iter
				c.iterMax = c.iterMin + s.intn(2)
				c.longN, c.longIn, c.longMax = 1+s.intn(3), pick(s, 30, 60, 120), pick(s, 3000, 10000)
				c.yieldLvl, c.yieldMax = pick(s, 0, 3, 10), 10
			}
			nclients, nops = 1, 9
			w = weights{"Init": 1, "Play": 12, "Pause": 6, "Stop": 1, "Wait": 6, "Push": 6, "Status": 2}
			if c.longN > 0 {
				nclients, nops = 2, 8
				w = weights{"Play": 12, "Pause": 9, "Stop": 1}
				rushed = chance(s, 0.7)
			}
		}
	case "C08":
		nclients, nops = 1+s.intn(3), 9
		c.dpi = s.intn(4)
		c.iter, c.ipd = s.intn(4), s.intn(2)
		if c.iter+c.ipd == 0 {
			c.iter = 1
		}
		if chance(s, 0.2) {
			faults()
		}
		c.notif = picks(s, "", "fast")
		w = weights{"Init": 3, "Play": 4, "Pause": 2, "Stop": 2, "Wait": 4, "Push": 20, "Status": 4, "Figures": 3}
	case "C09":
		nclients, nops = 1+s.intn(3), 6
		iter()
		faults()
		c.notif = picks(s, "fast", "slow", "block", "reenter", "reenter")
		if chance(s, 0.4) {
			c.tmo = pick(s, 30, 100, 300)
		}
		if chance(s, 0.4) {
			c.dpi = 1 + s.intn(2)
		}
		if chance(s, 0.04) { // many changes while the callback is slow or blocked
			nclients, nops = 1, 60+s.intn(140)
			c.notif = picks(s, "slow", "block")
			c.iter, c.ipd, c.tmo = 0, 0, 0
			c.pOk, c.pNil, c.pErr, c.pInitErr = 1, 0, 0, 0
			c.longN, c.longIn, c.longMax = 0, 0, 0
			w = weights{"Play": 10, "Pause": 10, "Stop": 1}
			rushed = true
		}
	case "C10":
		nclients, nops = 1+s.intn(3), 8
		c.impl = picks(s, "kmeans", "kmeans", "kmeanspar", "mcmc")
		if chance(s, 0.7) {
			c.iter, c.ipd = 1+s.intn(3), s.intn(2)
		}
		if chance(s, 0.6) {
			c.frame = 1 + s.intn(6)
		}
		for i := s.intn(5); i > 0; i-- {
			c.base = append(c.base, i)
		}
		if chance(s, 0.3) {
			c.dpi = 1 + s.intn(3)
		}
		c.yieldLvl = pick(s, 0, 3, 6)
		w = weights{"Init": 5, "Play": 8, "Pause": 4, "Stop": 6, "Batch": 2, "Wait": 3, "Push": 26, "Status": 1}
		if chance(s, 0.35) { // pushes on the verge of a start, in a full frame
			c.frame = 2 + s.intn(3)
			c.base = []int{1, 2, 3, 4}
			c.yieldLvl, c.yieldMax = pick(s, 0, 3, 10), 20
			c.longN, c.longIn, c.longMax = 2+s.intn(3), pick(s, 40, 80, 150), pick(s, 3000, 8000)
			c.spaceMax = pick(s, 5, 20, 40)
			nclients, nops = 2, 7
			w = weights{"Play": 8, "Stop": 8, "Batch": 1, "Push": 26}
			rushed = true
		} else if chance(s, 0.06) { // many pushes
			c.frame = pick(s, 0, 20, 64, 100)
			nclients, nops = 1, 100+s.intn(120)
			c.longN, c.longIn, c.longMax = 0, 0, 0
			w = weights{"Init": 1, "Play": 1, "Stop": 1, "Push": 60}
			c.yieldLvl = 0 // staged elements enter in no time
			rushed = true
		}
	case "C11":
		nclients, nops = 3, 7
		iter()
		if chance(s, 0.4) {
			faults()
		}
		if chance(s, 0.3) {
			c.impl = picks(s, "kmeans", "kmeanspar", "mcmc")
			c.base = []int{1, 2, 3}
			c.frame = pick(s, 0, 2, 4)
			c.yieldLvl = pick(s, 0, 3, 6)
			c.pInitErr = 0
		}
		w = weights{"Init": 2, "Play": 7, "Pause": 2, "Stop": 2, "Batch": 1, "Push": 8, "Status": 4, "Figures": 10, "Centroids": 10, "Predict": 10}
	case "C26":
		nclients, nops = 1, 5
		c.freq = pick(s, 0, 30, 50, 100, 200, 1000)
		c.iterMin = pick(s, 10, 20, 40, 120)
		c.iterMax = c.iterMin + pick(s, 0, 0, 40)
		c.iter = s.intn(12)
		if chance(s, 0.2) {
			c.pNil, c.pOk = 0.2, 0.8
		}
		c.budget = 30000
		w = weights{"Play": 8, "Pause": 6, "Stop": 2, "Wait": 3, "Push": 2, "Init": 1, "Figures": 2}
	case "C29":
		nclients, nops = 1+s.intn(2), 8
		c.figt = true
		c.longN, c.yieldMax = 0, pick(s, 5, 30)
		c.iterMin = pick(s, 100, 300, 1000, 2500)
		c.iterMax = c.iterMin + pick(s, 0, 200)
		iter()
		if chance(s, 0.3) {
			faults()
		}
		if chance(s, 0.25) {
			c.freq = pick(s, 200, 800, 3000)
		}
		if chance(s, 0.25) {
			c.tmo = pick(s, 500, 3000)
		}
		if chance(s, 0.4) {
			c.dpi = 1 + s.intn(2)
		}
		c.budget = 100000
		w = weights{"Init": 3, "Play": 9, "Pause": 5, "Stop": 6, "Batch": 2, "Wait": 4, "Push": 9, "Figures": 16}
	case "C24":
		c.birth = picks(s, "Created", "Ready", "Running", "Idle", "Stopped")
		for i := s.intn(4); i > 0; i-- {
			c.born = append(c.born, 20+i)
		}
		nclients, nops = 1+s.intn(2), 8
		c.impl = picks(s, "mock", "mock", "kmeans", "kmeanspar", "mcmc")
		if c.impl != "mock" {
			for i := s.intn(4); i > 0; i-- {
				c.base = append(c.base, i)
			}
			if len(c.base)+len(c.born) == 0 && c.birth != "Created" {
				c.base = []int{1}
			}
			c.frame = pick(s, 0, 0, 1, 2, 5)
			c.yieldLvl = pick(s, 0, 3, 6)
		} else if chance(s, 0.3) {
			faults()
		}
		c.iter, c.ipd, c.dpi = s.intn(4), s.intn(2), s.intn(3)
		c.notif = picks(s, "", "fast")
		if chance(s, 0.2) {
			c.tmo = pick(s, 60, 200, 800)
		}
		w["Push"], w["Init"] = 14, 5
		if chance(s, 0.4) {
			c.figt = true
			c.longN, c.yieldMax = 0, pick(s, 5, 30)
			w["Figures"] = 12
		}
	default:
		panic("profile " + profile)
	}
	for i := 0; i < nclients; i++ {
		var ops []op
		if i == 0 && chance(s, 0.7) {
			if chance(s, 0.3) {
				ops = append(ops, op{name: "Init", fin: nilFin})
			}
			if profile != "C08" {
				ops = append(ops, op{name: "Play", fin: nilFin, delay: delay(s, c)})
			}
		}
		for j := 0; j < nops; j++ {
			var o = randOp(s, c, w, false)
			if rushed && chance(s, 0.7) {
				o.delay = s.intn(60)
			}
			if atEnds && chance(s, 0.7) {
				o.delay = 100*c.iterMin*s.intn(4) + s.intn(20)
			}
			if profile == "C29" && chance(s, 0.3) {
				o.delay = pick(s, 10000, 100000, 400000, 1000000, 2500000)
			}
			if profile == "C26" && chance(s, 0.6) {
				o.delay = 100 * s.intn(10*c.freq+10*c.iterMax)
				if o.delay > 1000000 {
					o.delay = 1000000
				}
			}
			ops = append(ops, o)
			if atEnds && o.name == "Push" {
				ops = append(ops, op{name: "Status", fin: nilFin, delay: s.intn(3) * 100})
			}
		}
		s.clients = append(s.clients, ops)
	}
	if c.notif == "reenter" {
		for i := 0; i < 6; i++ {
			if chance(s, 0.6) {
				s.cbops = append(s.cbops, randOp(s, c, w, true))
			} else {
				s.cbops = append(s.cbops, op{})
			}
		}
	} else if c.notif == "block" {
		s.cbops = make([]op, s.intn(5))
	}
}

// tourScenario replays a sequence of stimuli produced from the specification
func tourScenario(s *scenario, words []string) {
	var c = &s.c
	c.fin = nilFin
	c.impl = "mock"
	c.yieldLvl, c.yieldMax = pick(s, 0, 3, 6), pick(s, 5, 30)
	c.iterMin, c.iterMax = 10, 10
	c.pOk = 1
	c.budget = 900000
	switch words[0] {
	case "1":
		c.iter = 2
		c.notif = picks(s, "", "fast")
	case "2":
		c.ipd, c.dpi = 1, 1
		c.notif = picks(s, "", "fast")
	case "3":
		c.tmo = 30000
	}
	s.words = words[1:]
	s.gate, s.igate, s.open = make(chan string), make(chan string), make(chan struct{})
}
