package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pending struct {
	prefix []decision
	model  *Model
	owner  *Worker
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Sched   []string          `json:"sched,omitempty"`
	Where   string            `json:"where"`
	Observe []string          `json:"observe,omitempty"`
	Known   string            `json:"known,omitempty"`
	Confirm string            `json:"confirm,omitempty"`
}

type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Observe []string          `json:"observe"`
}

type Job struct {
	name         string // harness function
	pkg          string
	fn           *ssa.Function
	tier         int
	allocBound   int
	concBound    int
	memLimit     int64
	logs         bool
	maxSteps     int
	deadline     time.Time
	maxPaths     int64
	interleaving bool
	maxSamples   int
	stopFirst    bool
	seed         int64

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []pending
	idle     int64
	nworkers int
	stop     bool
	timedOut bool

	paths, completed, infeasible, forks, steps, asserts, assertQ int64
	cuts                                                         map[string]int
	unsup                                                        map[string]int
	unknown                                                      int64
	reach                                                        map[string]int
	violations                                                   []*Violation
	vseen                                                        map[string]int
	samples                                                      []*Sample
	fns                                                          map[string]bool
	queries                                                      int64
	sats, unsats                                                 int64
	solverWall                                                   time.Duration
	known                                                        map[string]*Violation
	inputsSeen                                                   map[string]uint32
	leftover                                                     int
	maxDepth                                                     int
	wall                                                         time.Duration
	spec                                                         *HarnessSpec
}

type Worker struct {
	job   *Job
	prog  *Program
	ip    *Interp
	stack []pending
	rng   uint64
}

func (j *Job) run(prog *Program, nworkers int) {
	j.cond = sync.NewCond(&j.mu)
	j.cuts, j.unsup, j.reach, j.vseen, j.fns = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]bool{}
	j.known = map[string]*Violation{}
	j.inputsSeen = map[string]uint32{}
	j.nworkers = nworkers
	j.queue = []pending{{}}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{job: j, prog: prog, rng: uint64(i+1)*0x9E3779B97F4A7C15 + uint64(j.seed)}
			w.loop()
		}(i)
	}
	wg.Wait()
}

func (w *Worker) newInterp() {
	tc := newTermCtx()
	ip := &Interp{w: w, prog: w.prog.prog, tc: tc, s: newSolver(tc)}
	ip.stdGlobals = map[*ssa.Global]*value{}
	ip.stdInited = map[*ssa.Package]bool{}
	ip.fnInfos = map[*ssa.Function]*fnInfo{}
	ip.atomMemo = map[*Term][]*Term{}
	ip.methCache = map[methKey]*ssa.Function{}
	ip.fnSeen = map[*ssa.Function]bool{}
	ip.rtErrType = w.prog.rtErrType
	w.ip = ip
}

func (w *Worker) loop() {
	j := w.job
	defer func() {
		if w.ip != nil {
			w.flush()
			w.ip.s.close()
		}
	}()
	for {
		var p pending
		if n := len(w.stack); n > 0 {
			p = w.stack[n-1]
			w.stack = w.stack[:n-1]
			// feed idle workers with our oldest work
			if n > 2 && atomic.LoadInt64(&j.idle) > 0 {
				j.mu.Lock()
				k := len(w.stack) / 2
				j.queue = append(j.queue, w.stack[:k]...)
				w.stack = append([]pending{}, w.stack[k:]...)
				j.cond.Broadcast()
				j.mu.Unlock()
			}
		} else {
			j.mu.Lock()
			for len(j.queue) == 0 && !j.stop {
				j.idle++
				if j.idle == int64(j.nworkers) {
					j.stop = true
					j.cond.Broadcast()
					j.mu.Unlock()
					return
				}
				j.cond.Wait()
				if !j.stop {
					j.idle--
				}
			}
			if j.stop {
				j.leftover += len(j.queue)
				j.queue = nil
				j.mu.Unlock()
				return
			}
			p = j.queue[0]
			j.queue = j.queue[1:]
			j.mu.Unlock()
		}
		if j.stop || time.Now().After(j.deadline) || j.maxPaths > 0 && atomic.LoadInt64(&j.paths) >= j.maxPaths {
			j.mu.Lock()
			if !j.stop || len(w.stack) > 0 {
				j.timedOut = true
			}
			j.leftover += len(w.stack) + 1 + len(j.queue)
			j.queue = nil
			j.stop = true
			j.cond.Broadcast()
			j.mu.Unlock()
			return
		}
		if w.ip == nil {
			w.newInterp()
		} else if len(w.ip.tc.tab) > 3000000 {
			w.flush()
			w.ip.s.close()
			w.newInterp()
			for i := range w.stack {
				w.stack[i].model = nil
			}
			p.model = nil
		}
		if p.owner != w {
			p.model = nil
		}
		w.runPath(p)
	}
}

// flush adds the worker's solver statistics to the job.
func (w *Worker) flush() {
	j := w.job
	j.mu.Lock()
	s := w.ip.s
	j.queries += int64(s.queries)
	j.sats += int64(s.sats)
	j.unsats += int64(s.unsats)
	j.unknown += int64(s.unk)
	j.solverWall += s.wall
	for fn := range w.ip.fnSeen {
		if p := fn.Pkg; p != nil && w.prog.isTarget(p) {
			j.fns[fn.String()] = true
		} else if p == nil || fn.Pkg != nil {
			j.fns["~"+fn.String()] = true
		}
	}
	j.mu.Unlock()
	s.queries, s.sats, s.unsats, s.unk, s.wall = 0, 0, 0, 0, 0
}

func (w *Worker) rand() uint64 {
	w.rng ^= w.rng << 13
	w.rng ^= w.rng >> 7
	w.rng ^= w.rng << 17
	return w.rng
}

func (w *Worker) runPath(p pending) {
	ip := w.ip
	j := w.job
	path := &Path{prefix: p.prefix, inputN: map[string]int{}, touched: map[*Atom]bool{},
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{}, reached: map[string]bool{},
		locks: map[*value]*lockState{}, side: map[string]interface{}{}}
	if p.model != nil && p.owner == w {
		path.model, path.modelOK = p.model, true
		ip.tc.newEval()
	}
	ip.path = path
	ip.nformat = 0
	ip.dead = false
	ip.curFrame = nil
	ip.done = make(chan pathEnd, 1)
	ip.killed = make(chan struct{}, 1)
	g := &G{id: 0, resume: make(chan struct{}), name: "main"}
	path.gs = []*G{g}
	path.cur = g
	ip.startG(g, func() {
		ip.initPkg(j.fn.Pkg)
		ip.call(&frame{ip: ip, fn: w.prog.dummy, g: g}, j.fn, nil)
	})
	g.resume <- struct{}{}
	end := <-ip.done
	ip.reap()
	atomic.AddInt64(&j.paths, 1)
	atomic.AddInt64(&j.steps, int64(path.steps))
	atomic.AddInt64(&j.forks, int64(path.forks))
	j.mu.Lock()
	defer j.mu.Unlock()
	if len(path.dec) > j.maxDepth {
		j.maxDepth = len(path.dec)
	}
	for _, iv := range path.inputs {
		j.inputsSeen[iv.name] = iv.t.w
	}
	switch end.kind {
	case endDone:
		j.completed++
		for r := range path.reached {
			j.reach[r]++
		}
		// reservoir of witnesses for native validation
		if j.maxSamples > 0 && len(path.observes) > 0 {
			take := -1
			if len(j.samples) < j.maxSamples {
				take = len(j.samples)
				j.samples = append(j.samples, nil)
			} else if k := int(w.rand() % uint64(j.completed)); k < j.maxSamples {
				take = k
			}
			if take >= 0 {
				if s := ip.sample(); s != nil {
					j.samples[take] = s
				} else if j.samples[take] == nil {
					j.samples = j.samples[:take]
				}
			}
		}
	case endAssume:
		j.infeasible++
	case endViolation, endDeadlock:
		if os.Getenv("ZKV_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "violation", end.msg)
		}
		ip.reportViolation(end.kv, end.msg, nil)
	case endUnsupported:
		j.unsup[end.msg]++
	case endCut:
		j.cuts[end.msg]++
		if end.kv == "steps" {
			ip.reportViolation("steps", "step bound", nil)
		}
	}
}

// reportViolation is called with j.mu held when extra is nil, and at path end.
func (ip *Interp) reportViolation(kind, msg string, m *Model) {
	j := ip.w.job
	vk := vkey(kind, msg)
	if j.vseen[vk] >= 4 || kind == "steps" && j.vseen[vk] >= 2 {
		return
	}
	if m == nil {
		if !ip.path.modelOK {
			r, mm := ip.s.check(ip.path.pc, nil, ip.path.vars, true)
			if r != Sat {
				if r == Unknown {
					j.cuts["violation candidate without a model (solver unknown): "+msg]++
				}
				return
			}
			m = mm
		} else {
			m = ip.path.model
		}
	}
	j.vseen[vk]++
	v := &Violation{Harness: j.name, Kind: kind, Msg: msg, Inputs: ip.assignment(m), Sched: ip.path.schedTrace, Where: ip.where()}
	v.Observe = ip.observeStrings(m)
	j.violations = append(j.violations, v)
	if j.stopFirst {
		j.stop = true
		if j.cond != nil {
			j.cond.Broadcast()
		}
	}
}

func (ip *Interp) assignment(m *Model) map[string]uint64 {
	r := map[string]uint64{}
	ip.tc.newEval()
	for _, iv := range ip.path.inputs {
		r[iv.name] = ip.tc.Eval(m, iv.t)
	}
	ip.tc.newEval()
	return r
}

func (ip *Interp) observeStrings(m *Model) []string {
	var out []string
	ip.tc.newEval()
	for _, o := range ip.path.observes {
		s := o.label
		for _, v := range o.vals {
			switch v.kind {
			case "bytes":
				s += " "
				for _, b := range v.b {
					if b.op == OpExtract && b.a[0].atom != nil {
						s += "??"
						continue
					}
					s += fmt.Sprintf("%02x", ip.tc.Eval(m, b))
				}
			default:
				x := ip.tc.Eval(m, v.t)
				if v.sgn {
					s += fmt.Sprintf(" %d", sext64(x, v.w))
				} else {
					s += fmt.Sprintf(" %d", x)
				}
			}
		}
		out = append(out, s)
	}
	ip.tc.newEval()
	return out
}

func (ip *Interp) sample() *Sample {
	m := ip.path.model
	if !ip.path.modelOK {
		r, mm := ip.s.check(ip.path.pc, nil, ip.path.vars, true)
		if r != Sat {
			return nil
		}
		m = mm
	}
	return &Sample{Harness: ip.w.job.name, Inputs: ip.assignment(m), Observe: ip.observeStrings(m)}
}

// ---- decisions ----

func (ip *Interp) tick() {
	if ip.path.steps > ip.w.job.maxSteps {
		panic(pathEnd{endCut, fmt.Sprintf("step bound %d @ %s", ip.w.job.maxSteps, ip.where()), "steps"})
	}
	if ip.w.job.stop || time.Now().After(ip.w.job.deadline) {
		panic(pathEnd{endCut, "time budget", "time"})
	}
}

func (ip *Interp) rawAssert(c *Term) {
	if c.isConst() {
		if c.c == 0 {
			panic(pathEnd{endAssume, "", ""})
		}
		return
	}
	p := ip.path
	p.pc = append(p.pc, c)
	if p.modelOK && ip.tc.Eval(p.model, c) != 1 {
		p.modelOK = false
	}
}

// ensureModel makes path.model a model of the path condition, if it can.
func (ip *Interp) ensureModel() bool {
	p := ip.path
	if p.modelOK {
		return true
	}
	r, m := ip.s.check(p.pc, nil, p.vars, true)
	switch r {
	case Unsat:
		panic(pathEnd{endAssume, "", ""})
	case Unknown:
		return false
	}
	p.model, p.modelOK = m, true
	ip.tc.newEval()
	return true
}

func (ip *Interp) inPrefix() bool { return len(ip.path.dec) < len(ip.path.prefix) }

func (ip *Interp) pushAlt(d decision, m *Model) {
	p := ip.path
	np := make([]decision, len(p.dec)+1)
	copy(np, p.dec)
	np[len(p.dec)] = d
	ip.w.stack = append(ip.w.stack, pending{np, m, ip.w})
	p.forks++
}

func (ip *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.c == 1
	}
	if ip.inStdInit > 0 {
		panic("symbolic branch in std init")
	}
	tc := ip.tc
	p := ip.path
	if v, ok := p.known[c]; ok {
		return v
	}
	v := ip.branch1(c)
	if p.known == nil {
		p.known = map[*Term]bool{}
	}
	p.known[c] = v
	p.known[tc.Not(c)] = !v
	return v
}

func (ip *Interp) branch1(c *Term) bool {
	tc := ip.tc
	p := ip.path
	ip.touch(c)
	if ip.inPrefix() {
		d := p.prefix[len(p.dec)]
		p.dec = append(p.dec, d)
		switch d.b {
		case 0:
			ip.rawAssert(tc.Not(c))
			return false
		case 1:
			ip.rawAssert(c)
			return true
		case 2:
			return false
		case 3:
			return true
		}
		panic(fmt.Sprintf("replay divergence: branch got decision %v at %d", d, len(p.dec)))
	}
	ip.checkTime()
	have := ip.ensureModel()
	v := false
	if have {
		v = tc.Eval(p.model, c) == 1
	}
	this, other := c, tc.Not(c)
	tb, ob, fb := uint8(1), uint8(0), uint8(3)
	if !v {
		this, other = other, this
		tb, ob, fb = 0, 1, 2
	}
	if qprof != nil {
		qprof[ip.where()]++
	}
	r, m := ip.s.check(p.pc, other, p.vars, true)
	if r == Unsat {
		p.dec = append(p.dec, decision{b: fb})
		return v
	}
	if !have {
		// the taken side is not known to be feasible either
		if r2, m2 := ip.s.check(p.pc, this, p.vars, true); r2 == Unsat {
			p.dec = append(p.dec, decision{b: ob})
			ip.rawAssert(other)
			return !v
		} else if r2 == Sat {
			p.model, p.modelOK = m2, true
			tc.newEval()
		}
	}
	ip.pushAlt(decision{b: ob}, m)
	p.dec = append(p.dec, decision{b: tb})
	ip.rawAssert(this)
	return v
}

func (ip *Interp) checkTime() {
	if ip.w.job.stop || time.Now().After(ip.w.job.deadline) {
		panic(pathEnd{endCut, "time budget", "time"})
	}
}

// concretize enumerates the feasible values of t, one path per value.
func (ip *Interp) concretize(t *Term) uint64 {
	tc := ip.tc
	p := ip.path
	if t.isConst() {
		return t.c
	}
	if ip.inStdInit > 0 {
		panic("symbolic value in std init")
	}
	ip.touch(t)
	n := 0
	for {
		if ip.inPrefix() {
			d := p.prefix[len(p.dec)]
			p.dec = append(p.dec, d)
			eq := tc.Eq(t, tc.Const(t.w, d.v))
			if t.w == 0 {
				eq = tc.Eq(t, tc.Bool(d.v == 1))
			}
			switch d.b {
			case 1:
				ip.rawAssert(eq)
				return d.v
			case 3:
				return d.v
			case 0:
				ip.rawAssert(tc.Not(eq))
				n++
				continue
			}
			panic("replay divergence in concretize")
		}
		ip.checkTime()
		if n > ip.w.job.concBound {
			panic(pathEnd{endCut, fmt.Sprintf("more than %d values of a symbolic size or index @ %s", ip.w.job.concBound, ip.where()), "conc"})
		}
		if !ip.ensureModel() {
			panic(pathEnd{endCut, "solver unknown while enumerating @ " + ip.where(), "unknown"})
		}
		v := tc.Eval(p.model, t)
		var eq *Term
		if t.w == 0 {
			eq = tc.Eq(t, tc.Bool(v == 1))
		} else {
			eq = tc.Eq(t, tc.Const(t.w, v))
		}
		if qprof != nil {
			qprof["C "+ip.where()]++
		}
		r, m := ip.s.check(p.pc, tc.Not(eq), p.vars, true)
		if r == Unsat {
			p.dec = append(p.dec, decision{3, v})
			return v
		}
		ip.pushAlt(decision{0, v}, m)
		p.dec = append(p.dec, decision{1, v})
		ip.rawAssert(eq)
		return v
	}
}

// choose forks over 0..n-1 (scheduler, map order, select). The choice is a
// fresh solver variable constrained to the branch taken.
func (ip *Interp) choose(n int, why string) int { return ip.chooseNamed(n, "@"+why) }

func (ip *Interp) chooseNamed(n int, why string) int {
	p := ip.path
	name := ip.inputName(why)
	v := ip.tc.Var(8, "in!"+name)
	p.inputs = append(p.inputs, &inputVar{name, v})
	p.vars = append(p.vars, v)
	var k int
	if ip.inPrefix() {
		d := p.prefix[len(p.dec)]
		if d.b != 4 {
			panic("replay divergence in choose")
		}
		p.dec = append(p.dec, d)
		k = int(d.v)
	} else {
		ip.checkTime()
		for i := n - 1; i > 0; i-- {
			var m *Model
			if p.modelOK {
				m = p.model.with(v, uint64(i))
			}
			ip.pushAlt(decision{4, uint64(i)}, m)
		}
		p.dec = append(p.dec, decision{4, 0})
	}
	eq := ip.tc.Eq(v, ip.tc.Const(8, uint64(k)))
	p.pc = append(p.pc, eq)
	if p.modelOK {
		p.model = p.model.with(v, uint64(k))
		ip.tc.newEval()
	}
	return k
}

func (m *Model) with(t *Term, v uint64) *Model {
	// the variable is fresh, so extending in place is sound for every user
	// of this model on this path; alternates keep their own models
	n := &Model{m: make(map[*Term]uint64, len(m.m)+1), wide: m.wide}
	for k, x := range m.m {
		n.m[k] = x
	}
	n.m[t] = v
	return n
}

func (ip *Interp) assume(c *Term) {
	if c.isConst() {
		if c.c == 0 {
			panic(pathEnd{endAssume, "", ""})
		}
		return
	}
	ip.touch(c)
	ip.rawAssert(c)
	if !ip.inPrefix() {
		ip.ensureModel()
	}
}

func (ip *Interp) assert(c *Term, msg string) {
	j := ip.w.job
	atomic.AddInt64(&j.asserts, 1)
	if c.isConst() && c.c == 1 {
		return
	}
	if c.isConst() {
		panic(pathEnd{endViolation, "assertion failed: " + msg, "assert"})
	}
	ip.touch(c)
	if ip.inPrefix() {
		// an earlier path with this prefix discharged it
		d := ip.path.prefix[len(ip.path.dec)]
		ip.path.dec = append(ip.path.dec, d)
		switch d.b {
		case 5:
		case 6:
			ip.rawAssert(c)
		default:
			panic("replay divergence in assert")
		}
		return
	}
	atomic.AddInt64(&j.assertQ, 1)
	r, m := ip.s.check(ip.path.pc, ip.tc.Not(c), ip.path.vars, true)
	switch r {
	case Sat:
		j.mu.Lock()
		ip.reportViolation("assert", "assertion failed: "+msg, m)
		j.mu.Unlock()
		ip.path.dec = append(ip.path.dec, decision{b: 6})
		ip.checkTime()
		ip.rawAssert(c)
		ip.ensureModel()
	case Unknown:
		j.mu.Lock()
		j.cuts["solver unknown on assertion: "+msg]++
		j.mu.Unlock()
		ip.path.dec = append(ip.path.dec, decision{b: 6})
		ip.rawAssert(c)
	default:
		ip.path.dec = append(ip.path.dec, decision{b: 5})
	}
}

func (ip *Interp) inputName(name string) string {
	n := ip.path.inputN[name]
	ip.path.inputN[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (ip *Interp) newInput(name string, w uint32) *Term {
	nm := ip.inputName(name)
	v := ip.tc.Var(w, fmt.Sprintf("in!%s!%d", nm, w))
	ip.path.inputs = append(ip.path.inputs, &inputVar{nm, v})
	ip.path.vars = append(ip.path.vars, v)
	return v
}

func sortStrings(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = types.Typ

// vkey identifies a violation: numbers in run-time messages vary.
func vkey(kind, msg string) string {
	if kind == "assert" {
		return kind + msg
	}
	b := []byte(kind + msg)
	o := b[:0]
	for _, c := range b {
		if c >= '0' && c <= '9' {
			c = '#'
			if len(o) > 0 && o[len(o)-1] == '#' {
				continue
			}
		}
		o = append(o, c)
	}
	return string(o)
}

// qprof counts solver calls per place (ZKV_QPROF, one worker).
var qprof = func() map[string]int {
	if os.Getenv("ZKV_QPROF") != "" {
		return map[string]int{}
	}
	return nil
}()
