package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control flow out of the interpreted program ----

type endKind int

const (
	endDone endKind = iota
	endAssume
	endViolation
	endDeadlock
	endUnsupported
	endCut
	endStopped
)

type pathEnd struct {
	kind endKind
	msg  string
	kv   string // violation class
}

type killG struct{}

type targetPanic struct {
	v     iface
	trace string
	rt    bool
}

// ---- decisions ----

type decision struct {
	b uint8 // 0 false/ne, 1 true/eq, 2 forced false, 3 forced true, 4 choice
	v uint64
}

type Path struct {
	prefix      []decision
	dec         []decision
	pc          []*Term
	known       map[*Term]bool // branch conditions decided on this path
	model       *Model
	modelOK     bool
	vars        []*Term
	inputs      []*inputVar
	inputN      map[string]int
	atoms       []*Atom
	touched     map[*Atom]bool
	touchedList []*Atom
	steps       int
	forks       int
	globals     map[*ssa.Global]*value
	inited      map[*ssa.Package]bool
	observes    []observation
	reached     map[string]bool
	locks       map[*value]*lockState
	side        map[string]interface{}
	gs          []*G
	cur         *G
	interleave  int
	mapOrder    bool
	schedTrace  []string
	nextSite    int
	concretized int
	replayVals  map[string]uint64
	notes       []string
	mem         map[interface{}]int // owner of memory cells (preemption at accesses)
	ops         int
}

type inputVar struct {
	name string
	t    *Term
}

type observation struct {
	label string
	vals  []obsVal
}

type obsVal struct {
	kind string // int, bytes, bool, str
	t    *Term
	b    []*Term
	w    uint32
	sgn  bool
}

type G struct {
	id      int
	resume  chan struct{}
	dead    bool
	ready   func() bool // nil: runnable
	what    string
	lowprio bool
	name    string
	frame   *frame
}

type Interp struct {
	nformat    int // texts of symbolic times
	w          *Worker
	prog       *ssa.Program
	tc         *termCtx
	s          *solver
	path       *Path
	stdGlobals map[*ssa.Global]*value
	stdInited  map[*ssa.Package]bool
	fnInfos    map[*ssa.Function]*fnInfo
	atomMemo   map[*Term][]*Term
	methCache  map[methKey]*ssa.Function
	done       chan pathEnd
	killed     chan struct{}
	dead       bool
	inStdInit  int
	maxSteps   int
	fnSeen     map[*ssa.Function]bool
	rtErrType  types.Type
	curFrame   *frame
	ended      bool
	stubFn     map[string]*ssa.Function
	bodies     map[*ssa.Function]*fnInfo
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type fnInfo struct {
	fn     *ssa.Function
	intr   func(fr *frame, args []value) value
	redir  *ssa.Function
	pre    func(ip *Interp, args []value) []value
	maybe  func(ip *Interp, args []value) (value, bool)
	slots  map[ssa.Value]int
	nslots int
	blocks [][]cinstr
	zeros  map[int]*zeroLoop
	ready  bool
	memY   int8
	std    bool
	name   string
}

type opnd struct {
	k   uint8 // 0 none, 1 slot, 2 const, 3 global
	idx int
	v   value
	g   *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	sym bool // IndexAddr whose only uses are loads and stores
}

type deferred struct {
	fn   value
	args []value
	tail *deferred
}

type frame struct {
	ip        *Interp
	caller    *frame
	fi        *fnInfo
	fn        *ssa.Function
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    value
	panicking bool
	panic     interface{}
	pos       token.Pos
	g         *G
}

// stdPanicOK etc. are small helpers ------------------------------------

func (ip *Interp) unsupported(f string, a ...interface{}) {
	panic(pathEnd{endUnsupported, fmt.Sprintf(f, a...) + " @ " + ip.where(), ""})
}

func (ip *Interp) where() string {
	var sb strings.Builder
	n := 0
	for fr := ip.curFrame; fr != nil && n < 12; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.String())
		if fr.pos.IsValid() {
			p := ip.prog.Fset.Position(fr.pos)
			f := p.Filename
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				f = f[i+1:]
			}
			fmt.Fprintf(&sb, "(%s:%d)", f, p.Line)
		}
		n++
	}
	return sb.String()
}

func (ip *Interp) goPanic(v iface) {
	panic(&targetPanic{v: v, trace: ip.where()})
}

func (ip *Interp) goPanicRT(msg string) {
	panic(&targetPanic{v: iface{ip.rtErrType, mkStr(msg)}, trace: ip.where(), rt: true})
}

// ---- compile ----

func (ip *Interp) info(fn *ssa.Function) *fnInfo {
	if fi := ip.fnInfos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	ip.fnInfos[fn] = fi
	name := fi.name
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		fi.intr = f
		return fi
	}
	if ip.w.job.logs && strings.HasPrefix(name, "(*"+modPath+"/debug.Debug).") {
		return fi
	}
	if r, ok := redirects[name]; ok {
		fi.redir = ip.w.prog.lookupFunc(r)
		if fi.redir == nil {
			panic("redirect target missing: " + r)
		}
		return fi
	}
	fi.pre = preHooks[name]
	fi.maybe = maybeHooks[name]
	if p := stubPrefix(name); p != nil {
		if ip.stubFn == nil {
			ip.stubFn = map[string]*ssa.Function{}
		}
		ip.stubFn[name] = fn
		fi.intr = p
		return fi
	}
	return fi
}

func (ip *Interp) compile(fi *fnInfo) bool {
	if fi.ready {
		return fi.blocks != nil
	}
	fi.ready = true
	fn := fi.fn
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			ip.w.prog.build(fn.Pkg)
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			ip.w.prog.build(o.Pkg)
		}
	}
	if fn.Blocks == nil {
		return false
	}
	ip.fnSeen[fn] = true
	fi.slots = map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		if i, ok := fi.slots[v]; ok {
			return i
		}
		i := fi.nslots
		fi.slots[v] = i
		fi.nslots++
		return i
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{k: 2, v: ip.constValue(v)}
		case *ssa.Global:
			return opnd{k: 3, g: v}
		case *ssa.Function:
			return opnd{k: 2, v: v}
		case *ssa.Builtin:
			return opnd{k: 2, v: v}
		}
		return opnd{k: 1, idx: add(v)}
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = add(v)
			}
			for _, p := range in.Operands(nil) {
				c.ops = append(c.ops, mkop(*p))
			}
			if ia, ok := in.(*ssa.IndexAddr); ok {
				c.sym = true
				for _, r := range *ia.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
						if r.Op != token.MUL {
							c.sym = false
						}
					case *ssa.Store:
						if r.Val == ssa.Value(ia) {
							c.sym = false
						}
					case *ssa.DebugRef:
					default:
						c.sym = false
					}
				}
			}
			cs = append(cs, c)
		}
		fi.blocks[bi] = cs
	}
	for _, b := range fn.Blocks {
		if z := matchZeroLoop(b, fi.slots); z != nil {
			if fi.zeros == nil {
				fi.zeros = map[int]*zeroLoop{}
			}
			fi.zeros[b.Index] = z
		}
	}
	return true
}

// zeroLoop is a loop that does nothing but set x[i] to 0 (or to x[i]^x[i]) for
// consecutive i below a bound; it is executed in one step.
type zeroLoop struct {
	idx   int // slot of the index
	bound opndRef
	x     opndRef // slice or pointer to array
	g     *ssa.Global
	w     uint32
}

type opndRef struct {
	slot int
	c    *ssa.Const
}

func matchZeroLoop(b *ssa.BasicBlock, slots map[ssa.Value]int) *zeroLoop {
	if len(b.Preds) != 1 || len(b.Succs) != 1 || b.Preds[0] != b.Succs[0] {
		return nil
	}
	h := b.Preds[0]
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || h.Succs[0] != b || h.Succs[1] == b || len(h.Preds) != 2 {
		return nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || cond.Block() != h {
		return nil
	}
	latch := 0
	if h.Preds[1] == b {
		latch = 1
	}
	var phi *ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if phi != nil {
				return nil
			}
			phi = p
		}
	}
	if phi == nil {
		return nil
	}
	next, ok := phi.Edges[latch].(*ssa.BinOp)
	if !ok || next.Op != token.ADD || next.X != ssa.Value(phi) {
		return nil
	}
	if one, ok := next.Y.(*ssa.Const); !ok || one.Value == nil || one.Int64() != 1 {
		return nil
	}
	idx := cond.X
	if !(idx == ssa.Value(phi) && next.Block() == b) && !(idx == ssa.Value(next) && next.Block() == h) {
		return nil
	}
	outside := func(v ssa.Value) (opndRef, bool) {
		switch v := v.(type) {
		case *ssa.Const:
			return opndRef{c: v}, true
		case *ssa.Global, *ssa.Function, *ssa.Builtin:
			return opndRef{}, false
		case ssa.Instruction:
			if v.Block() == b {
				return opndRef{}, false
			}
		}
		n, ok := slots[v]
		return opndRef{slot: n}, ok
	}
	z := &zeroLoop{idx: slots[idx]}
	if z.bound, ok = outside(cond.Y); !ok {
		return nil
	}
	// what x an address in the body indexes
	var xv ssa.Value
	same := func(v ssa.Value) bool {
		ia, ok := v.(*ssa.IndexAddr)
		if !ok || ia.Block() != b || ia.Index != idx {
			return false
		}
		x := ia.X
		if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.Block() == b {
			g, ok := ld.X.(*ssa.Global)
			if !ok {
				return false
			}
			x = g
		}
		if xv != nil && xv != x {
			return false
		}
		xv = x
		return true
	}
	stores := 0
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Jump, *ssa.IndexAddr:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return nil
			}
			if _, ok := in.X.(*ssa.Global); !ok && !same(in.X) {
				return nil
			}
		case *ssa.BinOp:
			if in == next {
				continue
			}
			if in.Op != token.XOR {
				return nil
			}
		case *ssa.Store:
			stores++
			if !same(in.Addr) {
				return nil
			}
			switch v := in.Val.(type) {
			case *ssa.Const:
				if v.Value == nil || v.Value.Kind() != constant.Int || v.Value.String() != "0" {
					return nil
				}
			case *ssa.BinOp:
				l, ok1 := v.X.(*ssa.UnOp)
				r, ok2 := v.Y.(*ssa.UnOp)
				if v.Op != token.XOR || !ok1 || !ok2 || l.Op != token.MUL || r.Op != token.MUL || !same(l.X) || !same(r.X) {
					return nil
				}
			default:
				return nil
			}
			bits, _, ok := intInfo(in.Val.Type())
			if !ok {
				return nil
			}
			z.w = bits
		default:
			return nil
		}
	}
	if stores != 1 || xv == nil {
		return nil
	}
	if g, ok := xv.(*ssa.Global); ok {
		z.g = g
	} else if z.x, ok = outside(xv); !ok || z.x.c != nil {
		return nil
	}
	return z
}

// runZeroLoop does all but the last iteration of z.
func (ip *Interp) runZeroLoop(fr *frame, z *zeroLoop) {
	if ip.path.mem != nil {
		return
	}
	i, ok := fr.env[z.idx].(*Term)
	if !ok || !i.isConst() {
		return
	}
	var n int
	if z.bound.c != nil {
		n = int(z.bound.c.Int64())
	} else if t, ok := fr.env[z.bound.slot].(*Term); ok && t.isConst() {
		n = int(int64(t.c))
	} else {
		return
	}
	var x value
	if z.g != nil {
		x = *ip.globalAddr(z.g)
		if _, ok := x.(array); ok {
			x = ip.globalAddr(z.g)
		}
	} else {
		x = fr.env[z.x.slot]
	}
	if p, ok := x.(*value); ok {
		if p == nil {
			return
		}
		if a, ok := (*p).(array); ok {
			x = []value(a)
		}
	}
	s, ok := x.([]value)
	if !ok || n > len(s) || n < 2 || int(i.c) >= n-1 || i.c > uint64(n) {
		return
	}
	zero := ip.tc.Const(z.w, 0)
	for k := int(i.c); k < n-1; k++ {
		if _, ok := s[k].(*Term); !ok {
			return
		}
		s[k] = zero
	}
	fr.env[z.idx] = ip.tc.Const(i.w, uint64(n-1))
}

func (fr *frame) op(o *opnd) value {
	switch o.k {
	case 1:
		return fr.env[o.idx]
	case 2:
		return o.v
	case 3:
		return fr.ip.globalAddr(o.g)
	}
	return nil
}

// ---- globals ----

func (ip *Interp) globalAddr(g *ssa.Global) *value {
	if ip.w.prog.isTarget(g.Pkg) {
		if p := ip.path.globals[g]; p != nil {
			return p
		}
		if !ip.path.inited[g.Pkg] {
			ip.initPkg(g.Pkg)
		}
		if p := ip.path.globals[g]; p != nil {
			return p
		}
		p := new(value)
		*p = ip.zero(g.Type().(*types.Pointer).Elem())
		ip.path.globals[g] = p
		return p
	}
	if p := ip.stdGlobals[g]; p != nil {
		return p
	}
	if !ip.stdInited[g.Pkg] {
		ip.initPkg(g.Pkg)
	}
	if p := ip.stdGlobals[g]; p != nil {
		return p
	}
	p := new(value)
	*p = ip.zero(g.Type().(*types.Pointer).Elem())
	ip.stdGlobals[g] = p
	return p
}

func (ip *Interp) initPkg(pkg *ssa.Package) {
	target := ip.w.prog.isTarget(pkg)
	if target {
		if ip.path.inited[pkg] {
			return
		}
		ip.path.inited[pkg] = true
	} else {
		if ip.stdInited[pkg] {
			return
		}
		ip.stdInited[pkg] = true
	}
	ip.w.prog.build(pkg)
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			p := new(value)
			*p = ip.zero(g.Type().(*types.Pointer).Elem())
			if target {
				ip.path.globals[g] = p
			} else {
				ip.stdGlobals[g] = p
			}
		}
	}
	if f := pkgInitOverride[pkg.Pkg.Path()]; f != nil {
		f(ip, pkg)
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	if !target {
		ip.inStdInit++
		defer func() { ip.inStdInit-- }()
	}
	saved := ip.curFrame
	ip.call(nil, init, nil)
	ip.curFrame = saved
}

// ---- calls ----

func (ip *Interp) call(caller *frame, f value, args []value) value {
	switch f := f.(type) {
	case *ssa.Function:
		return ip.callFn(caller, f, args, nil)
	case *closure:
		return ip.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return ip.callBuiltin(caller, f, args)
	case *HostFn:
		return f.f(caller, args)
	case funcNil:
		ip.goPanicRT("runtime error: invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call of %T", f))
}

func (ip *Interp) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := ip.info(fn)
	if fi.intr != nil {
		if caller == nil {
			caller = &frame{ip: ip, fi: fi, fn: fn}
		}
		return fi.intr(caller, args)
	}
	if fi.redir != nil {
		fn = fi.redir
		fi = ip.info(fn)
		if fi.intr != nil {
			return fi.intr(caller, args)
		}
	}
	if fi.pre != nil {
		args = fi.pre(ip, args)
	}
	if fi.maybe != nil {
		if r, ok := fi.maybe(ip, args); ok {
			return r
		}
	}
	if fn.Synthetic == "package initializer" && caller != nil && fn.Name() == "init" {
		// lazily initialised; target packages in dependency order
		if ip.w.prog.isTarget(fn.Pkg) {
			ip.initPkg(fn.Pkg)
		}
		return nil
	}
	if !ip.compile(fi) {
		if ip.inStdInit > 0 {
			return ip.zero(fn.Signature.Results())
		}
		ip.unsupported("call of external function %s", fi.name)
	}
	fr := &frame{ip: ip, caller: caller, fi: fi, fn: fn, env: make([]value, fi.nslots)}
	depth := 0
	if caller != nil {
		fr.g = caller.g
	}
	_ = depth
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = env[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		ip.runFrame(fr)
	}
	ip.curFrame = caller
	return fr.result
}

func (ip *Interp) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		p := recover()
		if p == nil {
			return
		}
		p = ip.normPanic(p)
		if _, ok := p.(*targetPanic); !ok {
			panic(p)
		}
		if fr.defers == nil && fr.fn.Recover == nil {
			panic(p)
		}
		fr.panicking = true
		fr.panic = p
		ip.curFrame = fr
		fr.runDefers()
		fr.prev = nil
		fr.block = fr.fn.Recover
	}()
	ip.curFrame = fr
	for {
		instrs := fr.fi.blocks[fr.block.Index]
		if fr.fi.zeros != nil {
			if z := fr.fi.zeros[fr.block.Index]; z != nil {
				ip.runZeroLoop(fr, z)
			}
		}
		i := 0
		// phis
		if len(instrs) > 0 {
			if _, ok := instrs[0].in.(*ssa.Phi); ok {
				pi := -1
				for k, p := range fr.block.Preds {
					if p == fr.prev {
						pi = k
						break
					}
				}
				var tmp [16]value
				vals := tmp[:0]
				for ; i < len(instrs); i++ {
					if _, ok := instrs[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.op(&instrs[i].ops[pi]))
				}
				for k := 0; k < i; k++ {
					fr.env[instrs[k].dst] = vals[k]
				}
			}
		}
		jumped := false
		for ; i < len(instrs); i++ {
			c := &instrs[i]
			ip.path.steps++
			if qprof != nil {
				qprof["S "+fr.fn.String()]++
			}
			if ip.path.steps&0x3ff == 0 && ip.inStdInit == 0 {
				ip.tick()
			}
			if p := c.in.Pos(); p.IsValid() {
				fr.pos = p
			}
			switch in := c.in.(type) {
			case *ssa.If:
				succ := 1
				if ip.branch(fr.op(&c.ops[0]).(*Term)) {
					succ = 0
				}
				fr.prev, fr.block = fr.block, fr.block.Succs[succ]
				jumped = true
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, fr.block.Succs[0]
				jumped = true
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
				case 1:
					fr.result = fr.op(&c.ops[0])
				default:
					r := make(tuple, len(c.ops))
					for k := range c.ops {
						r[k] = fr.op(&c.ops[k])
					}
					fr.result = r
				}
				fr.block = nil
				return
			default:
				ip.exec(fr, c, in)
			}
			if jumped {
				break
			}
		}
	}
}

// normPanic turns host run-time errors into engine errors.
func (ip *Interp) normPanic(p interface{}) interface{} {
	switch p.(type) {
	case *targetPanic, pathEnd, killG:
		return p
	}
	return pathEnd{endUnsupported, fmt.Sprintf("engine error: %v @ %s\n%s", p, ip.where(), string(debug.Stack())), ""}
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			p := fr.ip.normPanic(recover())
			if _, t := p.(*targetPanic); !t {
				panic(p)
			}
			fr.panicking = true
			fr.panic = p
		}
	}()
	fr.ip.call(fr, d.fn, d.args)
	fr.ip.curFrame = fr
	ok = true
}

func (ip *Interp) doRecover(caller *frame) value {
	if caller != nil && caller.caller != nil && caller.caller.panicking && !caller.panicking {
		caller.caller.panicking = false
		p := caller.caller.panic
		caller.caller.panic = nil
		if tp, ok := p.(*targetPanic); ok {
			return tp.v
		}
		panic(p)
	}
	return iface{}
}

func (ip *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := ip.methCache[k]; ok {
		return f
	}
	f := ip.prog.LookupMethod(t, m.Pkg(), m.Name())
	ip.methCache[k] = f
	return f
}

func (fr *frame) prepareCall(cc *ssa.CallCommon, ops []opnd) (value, []value) {
	ip := fr.ip
	v := fr.op(&ops[0])
	n := len(cc.Args)
	if cc.Method == nil {
		args := make([]value, n)
		for i := 0; i < n; i++ {
			args[i] = fr.op(&ops[1+i])
		}
		return v, args
	}
	recv := v.(iface)
	if recv.t == nil {
		ip.goPanicRT("runtime error: invalid memory address or nil pointer dereference")
	}
	f := ip.lookupMethod(recv.t, cc.Method)
	if f == nil {
		ip.unsupported("no method %s on %v", cc.Method.Name(), recv.t)
	}
	args := make([]value, n+1)
	args[0] = recv.v
	for i := 0; i < n; i++ {
		args[i+1] = fr.op(&ops[1+i])
	}
	return f, args
}

func (ip *Interp) nilDeref() {
	ip.goPanicRT("runtime error: invalid memory address or nil pointer dereference")
}

type symPtr struct {
	arr []value
	idx *Term
}

func (ip *Interp) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			ip.nilDeref()
		}
		return copyVal(*p)
	case *symPtr:
		n := len(p.arr)
		r := p.arr[n-1].(*Term)
		for i := n - 2; i >= 0; i-- {
			r = ip.tc.Ite(ip.tc.Eq(p.idx, ip.tc.Const(p.idx.w, uint64(i))), p.arr[i].(*Term), r)
		}
		return r
	case *dataPtr:
		return p.s[0]
	}
	panic(fmt.Sprintf("load from %T", p))
}

func (ip *Interp) store(p value, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			ip.nilDeref()
		}
		storeVal(p, v)
		return
	case *symPtr:
		t := v.(*Term)
		for i := range p.arr {
			c := ip.tc.Eq(p.idx, ip.tc.Const(p.idx.w, uint64(i)))
			p.arr[i] = ip.tc.Ite(c, t, p.arr[i].(*Term))
		}
		return
	}
	panic(fmt.Sprintf("store to %T", p))
}

// toIdx widens an index term to 64 bits by its static type.
func (ip *Interp) toIdx(t types.Type, v value) *Term {
	x := v.(*Term)
	_, signed, _ := intInfo(t)
	if x.w < 64 {
		if signed {
			return ip.tc.Sext(x, 64)
		}
		return ip.tc.Zext(x, 64)
	}
	return x
}

// index checks idx against n (panicking like Go) and returns a concrete
// index, or -1 when sym is allowed and the index stays symbolic.
func (ip *Interp) index(idx *Term, n int, symOK bool) int {
	tc := ip.tc
	if idx.isConst() {
		if idx.c >= uint64(n) {
			ip.goPanicRT(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.c), n))
		}
		return int(idx.c)
	}
	if !ip.branch(tc.Ult(idx, tc.Const(64, uint64(n)))) {
		ip.goPanicRT(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
	}
	if symOK && n <= 600 {
		return -1
	}
	return int(ip.concretize(idx))
}

func (ip *Interp) exec(fr *frame, c *cinstr, instr ssa.Instruction) {
	tc := ip.tc
	switch in := instr.(type) {
	case *ssa.UnOp:
		x := fr.op(&c.ops[0])
		switch in.Op {
		case token.MUL:
			if ip.path.mem != nil {
				ip.memYield(fr, memKey(x))
			}
			fr.env[c.dst] = ip.load(x)
		case token.NOT:
			fr.env[c.dst] = tc.Not(x.(*Term))
		case token.SUB:
			switch x := x.(type) {
			case *Term:
				fr.env[c.dst] = tc.Neg(x)
			case float64:
				fr.env[c.dst] = -x
			case complex128:
				fr.env[c.dst] = -x
			}
		case token.XOR:
			fr.env[c.dst] = tc.BvNot(x.(*Term))
		case token.ARROW:
			v, ok := ip.chanRecv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
			ip.curFrame = fr
			if in.CommaOk {
				fr.env[c.dst] = tuple{v, tc.Bool(ok)}
			} else {
				fr.env[c.dst] = v
			}
		default:
			panic("unop " + in.Op.String())
		}
	case *ssa.BinOp:
		fr.env[c.dst] = ip.binop(in.Op, in.X.Type(), in.Y.Type(), fr.op(&c.ops[0]), fr.op(&c.ops[1]))
	case *ssa.Call:
		f, args := fr.prepareCall(&in.Call, c.ops)
		fr.env[c.dst] = ip.call(fr, f, args)
		ip.curFrame = fr
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.env[c.dst] = fr.op(&c.ops[0])
	case *ssa.Convert:
		fr.env[c.dst] = ip.conv(in.Type(), in.X.Type(), fr.op(&c.ops[0]))
	case *ssa.MultiConvert:
		fr.env[c.dst] = ip.conv(in.Type(), in.X.Type(), fr.op(&c.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.op(&c.ops[0]).([]value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			ip.goPanicRT(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		if s == nil {
			fr.env[c.dst] = (*value)(nil)
		} else {
			p := new(value)
			*p = array(s[:n:n])
			fr.env[c.dst] = p
		}
	case *ssa.MakeInterface:
		fr.env[c.dst] = iface{in.X.Type(), fr.op(&c.ops[0])}
	case *ssa.Extract:
		fr.env[c.dst] = fr.op(&c.ops[0]).(tuple)[in.Index]
	case *ssa.Slice:
		fr.env[c.dst] = ip.slice(in, fr.op(&c.ops[0]), fr.op(&c.ops[1]), fr.op(&c.ops[2]), fr.op(&c.ops[3]))
	case *ssa.RunDefers:
		fr.runDefers()
		ip.curFrame = fr
	case *ssa.Panic:
		ip.goPanic(fr.op(&c.ops[0]).(iface))
	case *ssa.Send:
		ip.chanSend(fr.op(&c.ops[0]).(*Chan), copyVal(fr.op(&c.ops[1])))
		ip.curFrame = fr
	case *ssa.Store:
		if ip.path.mem != nil {
			ip.memYield(fr, memKey(fr.op(&c.ops[0])))
		}
		ip.store(fr.op(&c.ops[0]), fr.op(&c.ops[1]))
	case *ssa.Defer:
		f, args := fr.prepareCall(&in.Call, c.ops)
		defers := &fr.defers
		if len(c.ops) > 0 {
			if in.DeferStack != nil {
				defers = fr.op(&c.ops[len(c.ops)-1]).(**deferred)
			}
		}
		*defers = &deferred{fn: f, args: args, tail: *defers}
	case *ssa.Go:
		f, args := fr.prepareCall(&in.Call, c.ops)
		ip.spawn(f, args, ip.shortPos(in.Pos()))
	case *ssa.MakeChan:
		n := int(ip.concretize(ip.toIdx(in.Size.Type(), fr.op(&c.ops[0]))))
		fr.env[c.dst] = ip.newChan(n)
	case *ssa.Alloc:
		p := new(value)
		*p = ip.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[c.dst] = p
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		if lt := ip.toIdx(in.Len.Type(), fr.op(&c.ops[0])); !lt.isConst() || lt.c > maxAlloc {
			ip.checkMem(lt, et)
		}
		l := ip.sizeArg(ip.toIdx(in.Len.Type(), fr.op(&c.ops[0])), "len")
		cp := ip.sizeArg(ip.toIdx(in.Cap.Type(), fr.op(&c.ops[1])), "cap")
		if l > cp {
			ip.goPanicRT("runtime error: makeslice: cap out of range")
		}
		fr.env[c.dst] = ip.makeSlice(et, l, cp)
	case *ssa.MakeMap:
		fr.env[c.dst] = newMap()
	case *ssa.Range:
		switch x := fr.op(&c.ops[0]).(type) {
		case *Map:
			fr.env[c.dst] = ip.mapIter(x)
		case *Str:
			fr.env[c.dst] = &iterStr{s: x}
		default:
			panic(fmt.Sprintf("range over %T", x))
		}
	case *ssa.Next:
		fr.env[c.dst] = ip.next(in, fr.op(&c.ops[0]))
	case *ssa.FieldAddr:
		p, _ := fr.op(&c.ops[0]).(*value)
		if p == nil {
			ip.nilDeref()
		}
		s, ok := (*p).(structure)
		if !ok {
			ip.unsupported("field address into %T", *p)
		}
		fr.env[c.dst] = &s[in.Field]
	case *ssa.Field:
		fr.env[c.dst] = fr.op(&c.ops[0]).(structure)[in.Field]
	case *ssa.IndexAddr:
		idx := ip.toIdx(in.Index.Type(), fr.op(&c.ops[1]))
		var arr []value
		switch x := fr.op(&c.ops[0]).(type) {
		case []value:
			arr = x
		case *value:
			if x == nil {
				ip.nilDeref()
			}
			arr = []value((*x).(array))
		default:
			panic(fmt.Sprintf("IndexAddr %T", x))
		}
		symOK := c.sym && len(arr) > 0
		if symOK {
			_, symOK = arr[0].(*Term)
		}
		i := ip.index(idx, len(arr), symOK)
		if i >= 0 {
			fr.env[c.dst] = &arr[i]
		} else {
			fr.env[c.dst] = &symPtr{arr, idx}
		}
	case *ssa.Index:
		idx := ip.toIdx(in.Index.Type(), fr.op(&c.ops[1]))
		switch x := fr.op(&c.ops[0]).(type) {
		case array:
			symOK := len(x) > 0
			if symOK {
				_, symOK = x[0].(*Term)
			}
			i := ip.index(idx, len(x), symOK)
			if i >= 0 {
				fr.env[c.dst] = x[i]
			} else {
				fr.env[c.dst] = ip.load(&symPtr{[]value(x), idx})
			}
		case *Str:
			i := ip.index(idx, x.Len(), true)
			if i >= 0 {
				fr.env[c.dst] = x.at(tc, i)
			} else {
				fr.env[c.dst] = ip.load(&symPtr{valuesOf(x.bytes(tc)), idx})
			}
		}
	case *ssa.Lookup:
		switch x := fr.op(&c.ops[0]).(type) {
		case *Str:
			idx := ip.toIdx(in.Index.Type(), fr.op(&c.ops[1]))
			i := ip.index(idx, x.Len(), true)
			if i >= 0 {
				fr.env[c.dst] = x.at(tc, i)
			} else {
				fr.env[c.dst] = ip.load(&symPtr{valuesOf(x.bytes(tc)), idx})
			}
		case *Map:
			mt := in.X.Type().Underlying().(*types.Map)
			k := fr.op(&c.ops[1])
			if ip.path.mem != nil && x != nil {
				ip.memYield(fr, x)
			}
			ip.checkHashable(mt.Key(), k)
			e := ip.mapFind(x, mt.Key(), k)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = ip.zero(mt.Elem())
			}
			if in.CommaOk {
				fr.env[c.dst] = tuple{v, tc.Bool(e != nil)}
			} else {
				fr.env[c.dst] = v
			}
		default:
			panic(fmt.Sprintf("lookup in %T", x))
		}
	case *ssa.MapUpdate:
		m := fr.op(&c.ops[0]).(*Map)
		if m == nil {
			ip.goPanic(iface{ip.rtErrType, mkStr("assignment to entry in nil map")})
		}
		mt := in.Map.Type().Underlying().(*types.Map)
		k := fr.op(&c.ops[1])
		if ip.path.mem != nil {
			ip.memYield(fr, m)
		}
		ip.checkHashable(mt.Key(), k)
		ip.mapSet(m, mt.Key(), k, copyVal(fr.op(&c.ops[2])))
	case *ssa.TypeAssert:
		fr.env[c.dst] = ip.typeAssert(in, fr.op(&c.ops[0]).(iface))
	case *ssa.MakeClosure:
		cl := &closure{fn: in.Fn.(*ssa.Function)}
		for i := range in.Bindings {
			cl.env = append(cl.env, fr.op(&c.ops[1+i]))
		}
		fr.env[c.dst] = cl
	case *ssa.Select:
		fr.env[c.dst] = ip.doSelect(fr, in, c)
		ip.curFrame = fr
	default:
		panic(fmt.Sprintf("unexpected instruction %T", instr))
	}
}

func (ip *Interp) checkHashable(kt types.Type, k value) {
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		ip.goPanicRT("runtime error: hash of unhashable type " + i.t.String())
	}
}

func (ip *Interp) shortPos(p token.Pos) string {
	q := ip.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

const maxAlloc = 1 << 22

// memLimit is the number of bytes that no single allocation may need, unless
// the harness sets a lower limit; native replays run with this much address space.
const memLimit = 8 << 30

var goSizes = types.SizesFor("gc", "amd64")

// checkMem ends the path if n elements of type et may need more memory than a
// process can be expected to get.
func (ip *Interp) checkMem(t *Term, et types.Type) {
	sz := goSizes.Sizeof(et)
	if sz <= 0 {
		return
	}
	tc := ip.tc
	max := int64(memLimit)
	if ip.w.job.memLimit > 0 {
		max = ip.w.job.memLimit
	}
	lim := tc.Const(64, uint64(max/sz))
	if ip.branch(tc.And(tc.Not(tc.Slt(t, tc.Const(64, 0))), tc.Ult(lim, t))) {
		panic(pathEnd{endViolation, "fatal error: runtime: out of memory @ " + ip.where(), "panic"})
	}
}

// sizeArg makes an allocation size concrete.
func (ip *Interp) sizeArg(t *Term, what string) int {
	tc := ip.tc
	if t.isConst() {
		n := int64(t.c)
		if n < 0 {
			ip.goPanicRT("runtime error: makeslice: " + what + " out of range")
		}
		if n > maxAlloc {
			panic(pathEnd{endCut, fmt.Sprintf("allocation of %d elements @ %s", n, ip.where()), ""})
		}
		return int(n)
	}
	if ip.branch(tc.Slt(t, tc.Const(64, 0))) {
		ip.goPanicRT("runtime error: makeslice: " + what + " out of range")
	}
	if !ip.branch(tc.Ule(t, tc.Const(64, uint64(ip.w.job.allocBound)))) {
		panic(pathEnd{endCut, fmt.Sprintf("symbolic allocation above %d elements @ %s", ip.w.job.allocBound, ip.where()), "alloc"})
	}
	return int(ip.concretize(t))
}

func (ip *Interp) makeSlice(et types.Type, l, cp int) []value {
	s := make([]value, cp)
	if cp > 0 {
		z := ip.zero(et)
		s[0] = z
		switch z.(type) {
		case structure, array:
			for i := 1; i < cp; i++ {
				s[i] = ip.zero(et)
			}
		default:
			for i := 1; i < cp; i++ {
				s[i] = z
			}
		}
	}
	return s[:l]
}

func (ip *Interp) slice(in *ssa.Slice, x, lo, hi, max value) value {
	tc := ip.tc
	var arr []value
	var str *Str
	capn, lenn := 0, 0
	isNil := false
	switch x := x.(type) {
	case []value:
		arr = x
		capn, lenn = cap(x), len(x)
		isNil = x == nil
	case *Str:
		str = x
		capn, lenn = x.Len(), x.Len()
	case *value:
		if x == nil {
			ip.nilDeref()
		}
		arr = []value((*x).(array))
		capn, lenn = len(arr), len(arr)
	default:
		panic(fmt.Sprintf("slice of %T", x))
	}
	conv := func(v value, t ssa.Value, def int) *Term {
		if v == nil {
			return tc.Const(64, uint64(def))
		}
		return ip.toIdx(t.Type(), v)
	}
	l := conv(lo, in.Low, 0)
	h := conv(hi, in.High, lenn)
	m := conv(max, in.Max, capn)
	bad := func() {
		ip.goPanicRT(fmt.Sprintf("runtime error: slice bounds out of range [%v:%v] with capacity %d", l, h, capn))
	}
	// 0 <= l <= h <= m <= cap
	if !ip.branch(tc.Ule(m, tc.Const(64, uint64(capn)))) {
		bad()
	}
	if !ip.branch(tc.Ule(h, m)) {
		bad()
	}
	if !ip.branch(tc.Ule(l, h)) {
		bad()
	}
	li, hi2, mi := int(ip.concretize(l)), int(ip.concretize(h)), int(ip.concretize(m))
	if str != nil {
		return str.slice(li, hi2)
	}
	if isNil {
		return []value(nil)
	}
	return arr[li:hi2:mi]
}

func (ip *Interp) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(x.t, it) {
				ok = true
				v = x
			}
		} else if types.Identical(x.t, in.AssertedType) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !in.CommaOk {
			if x.t == nil {
				ip.goPanicRT(fmt.Sprintf("interface conversion: interface is nil, not %v", in.AssertedType))
			}
			ip.goPanicRT(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, in.AssertedType))
		}
		v = ip.zero(in.AssertedType)
	}
	if in.CommaOk {
		return tuple{v, ip.tc.Bool(ok)}
	}
	return v
}

func (ip *Interp) mapIter(m *Map) *iterMap {
	it := &iterMap{m: m, interp: ip}
	if m != nil {
		for _, e := range m.entries {
			if !e.deleted {
				it.keys = append(it.keys, e)
			}
		}
	}
	it.perm = ip.path.mapOrder && len(it.keys) > 1 && ip.inStdInit == 0
	return it
}

func (ip *Interp) next(in *ssa.Next, it value) value {
	tc := ip.tc
	switch it := it.(type) {
	case *iterMap:
		for it.pos < len(it.keys) {
			if it.perm && it.pos < len(it.keys)-1 {
				// any not-yet-visited entry may come next
				k := ip.choose(len(it.keys)-it.pos, "maporder")
				it.keys[it.pos], it.keys[it.pos+k] = it.keys[it.pos+k], it.keys[it.pos]
			}
			e := it.keys[it.pos]
			it.pos++
			if e.deleted {
				continue
			}
			return tuple{tc.True, copyVal(e.k), copyVal(e.v)}
		}
		t := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		return tuple{tc.False, ip.zero(t.Key()), ip.zero(t.Elem())}
	case *iterStr:
		n := it.s.Len()
		if it.pos >= n {
			return tuple{tc.False, tc.Const(64, 0), tc.Const(32, 0)}
		}
		start := it.pos
		r, sz := ip.decodeRune(it.s, it.pos)
		it.pos += sz
		return tuple{tc.True, tc.Const(64, uint64(start)), r}
	}
	panic(fmt.Sprintf("next on %T", it))
}

// decodeRune decodes one rune with Go's semantics.
func (ip *Interp) decodeRune(s *Str, i int) (*Term, int) {
	tc := ip.tc
	b0 := s.at(tc, i)
	if b0.isConst() && b0.c < 0x80 {
		return tc.Const(32, b0.c), 1
	}
	if ip.branch(tc.Ult(b0, tc.Const(8, 0x80))) {
		return tc.Zext(b0, 32), 1
	}
	fn := ip.w.prog.lookupFunc("unicode/utf8.DecodeRuneInString")
	r := ip.callFn(ip.curFrame, fn, []value{s.slice(i, s.Len())}, nil).(tuple)
	return r[0].(*Term), int(ip.concretize(r[1].(*Term)))
}

func (ip *Interp) binop(op token.Token, t, ty types.Type, x, y value) value {
	tc := ip.tc
	switch op {
	case token.EQL:
		return ip.eq(t, x, y)
	case token.NEQ:
		return tc.Not(ip.eq(t, x, y))
	}
	switch x := x.(type) {
	case *Term:
		y := y.(*Term)
		_, signed, _ := intInfo(t)
		switch op {
		case token.ADD:
			return tc.Bin(OpAdd, x, y)
		case token.SUB:
			return tc.Bin(OpSub, x, y)
		case token.MUL:
			return tc.Bin(OpMul, x, y)
		case token.QUO, token.REM:
			if ip.branch(tc.Eq(y, tc.Const(y.w, 0))) {
				ip.goPanicRT("runtime error: integer divide by zero")
			}
			o := OpUdiv
			if op == token.REM {
				o = OpUrem
			}
			if signed {
				o = OpSdiv
				if op == token.REM {
					o = OpSrem
				}
			}
			return tc.Bin(o, x, y)
		case token.AND:
			if x.w == 0 {
				return tc.And(x, y)
			}
			return tc.Bin(OpBvAnd, x, y)
		case token.OR:
			if x.w == 0 {
				return tc.Or(x, y)
			}
			return tc.Bin(OpBvOr, x, y)
		case token.XOR:
			return tc.Bin(OpBvXor, x, y)
		case token.AND_NOT:
			return tc.Bin(OpBvAnd, x, tc.BvNot(y))
		case token.SHL, token.SHR:
			_, ysigned, _ := intInfo(ty)
			if ysigned && ip.branch(tc.Slt(y, tc.Const(y.w, 0))) {
				ip.goPanicRT("runtime error: negative shift amount")
			}
			// bring y to x's width, saturating
			var ys *Term
			if y.w == x.w {
				ys = y
			} else if y.w < x.w {
				ys = tc.Zext(y, x.w)
			} else {
				big := tc.Not(tc.Ult(y, tc.Const(y.w, uint64(x.w))))
				ys = tc.Ite(big, tc.Const(x.w, uint64(x.w)), tc.Extract(y, x.w-1, 0))
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if signed {
					o = OpAshr
				}
			}
			return tc.Bin(o, x, ys)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				return tc.Slt(x, y)
			case signed:
				return tc.Sle(x, y)
			case strict:
				return tc.Ult(x, y)
			default:
				return tc.Ule(x, y)
			}
		}
	case *Str:
		y := y.(*Str)
		switch op {
		case token.ADD:
			return strCat(tc, x, y)
		case token.LSS:
			return ip.strLess(x, y)
		case token.GTR:
			return ip.strLess(y, x)
		case token.LEQ:
			return tc.Not(ip.strLess(y, x))
		case token.GEQ:
			return tc.Not(ip.strLess(x, y))
		}
	case float64:
		y := y.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return tc.Bool(x < y)
		case token.LEQ:
			return tc.Bool(x <= y)
		case token.GTR:
			return tc.Bool(x > y)
		case token.GEQ:
			return tc.Bool(x >= y)
		}
	}
	panic(fmt.Sprintf("binop %v on %T", op, x))
}

func (ip *Interp) strLess(x, y *Str) *Term {
	tc := ip.tc
	if x.b == nil && y.b == nil {
		return tc.Bool(x.s < y.s)
	}
	n := x.Len()
	if y.Len() < n {
		n = y.Len()
	}
	type pair struct{ a, b *Term }
	var ps []pair
	for i := 0; i < n; i++ {
		a, b := x.at(tc, i), y.at(tc, i)
		if a == b {
			continue
		}
		// runs of hex digits of one case are in the order of what they stand for
		p, k := pair{}, i
		for ; k < n && k < i+16; k++ {
			c, d := x.at(tc, k), y.at(tc, k)
			if c.hex.n == nil || d.hex.n == nil || c.hex.upper != d.hex.upper || c.hex.upper != a.hex.upper {
				break
			}
			if k == i {
				p = pair{c.hex.n, d.hex.n}
			} else {
				p = pair{tc.Concat(p.a, c.hex.n), tc.Concat(p.b, d.hex.n)}
			}
		}
		if k > i {
			ps = append(ps, p)
			i = k - 1
			continue
		}
		ps = append(ps, pair{a, b})
	}
	r := tc.Bool(x.Len() < y.Len())
	for i := len(ps) - 1; i >= 0; i-- {
		r = tc.Ite(tc.Eq(ps[i].a, ps[i].b), r, tc.Ult(ps[i].a, ps[i].b))
	}
	return r
}

func (ip *Interp) conv(dst, src types.Type, x value) value {
	tc := ip.tc
	ud, us := dst.Underlying(), src.Underlying()
	switch us := us.(type) {
	case *types.Basic:
		if w, signed, ok := intInfo(us); ok && w > 0 {
			t, isT := x.(*Term)
			if !isT {
				// unsafe.Pointer/uintptr games
				ip.unsupported("conversion of %T", x)
			}
			if dw, _, ok := intInfo(ud); ok && dw > 0 {
				switch {
				case dw == w:
					return t
				case dw < w:
					return tc.Extract(t, dw-1, 0)
				case signed:
					return tc.Sext(t, dw)
				default:
					return tc.Zext(t, dw)
				}
			}
			if isString(ud) {
				r := ip.concretize(t)
				return mkStr(string(rune(sext64(r, w))))
			}
			if isFloat(ud) {
				v := ip.concretize(t)
				if signed {
					return ip.fround(ud, float64(sext64(v, w)))
				}
				return ip.fround(ud, float64(v))
			}
		}
		if us.Info()&types.IsString != 0 {
			s := x.(*Str)
			if isString(ud) {
				return s
			}
			sl := ud.(*types.Slice)
			ek := sl.Elem().Underlying().(*types.Basic).Kind()
			if ek == types.Uint8 {
				n := s.Len()
				r := make([]value, n)
				for i := 0; i < n; i++ {
					r[i] = s.at(tc, i)
				}
				return r
			}
			// []rune
			var r []value
			for i := 0; i < s.Len(); {
				c, sz := ip.decodeRune(s, i)
				r = append(r, c)
				i += sz
			}
			if r == nil {
				r = []value{}
			}
			return r
		}
		if us.Info()&types.IsFloat != 0 {
			f := x.(float64)
			if w, signed, ok := intInfo(ud); ok {
				if signed {
					return tc.Const(w, uint64(int64(f)))
				}
				return tc.Const(w, uint64(f))
			}
			return ip.fround(ud, f)
		}
		if us.Kind() == types.UnsafePointer {
			return x
		}
	case *types.Slice:
		if isString(ud) {
			s := x.([]value)
			ek := us.Elem().Underlying().(*types.Basic).Kind()
			if ek == types.Uint8 {
				return strOf(termsOf(s))
			}
			var out *Str = emptyStr
			for _, r := range s {
				out = strCat(tc, out, ip.runeToStr(r.(*Term)))
			}
			return out
		}
		if at, ok := ud.(*types.Array); ok {
			s := x.([]value)
			if int64(len(s)) < at.Len() {
				ip.goPanicRT("runtime error: cannot convert slice to array")
			}
			return copyVal(array(s[:at.Len()]))
		}
		return x
	case *types.Pointer:
		return x
	}
	if types.Identical(ud, us) {
		return x
	}
	panic(fmt.Sprintf("conv %v -> %v (%T)", src, dst, x))
}

func (ip *Interp) fround(t types.Type, f float64) float64 {
	if t.Underlying().(*types.Basic).Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (ip *Interp) runeToStr(r *Term) *Str {
	tc := ip.tc
	if r.isConst() {
		return mkStr(string(rune(int32(r.c))))
	}
	if ip.branch(tc.Ult(r, tc.Const(32, 0x80))) {
		return strOf([]*Term{tc.Extract(r, 7, 0)})
	}
	fn := ip.w.prog.lookupFunc("unicode/utf8.AppendRune")
	res := ip.callFn(ip.curFrame, fn, []value{[]value(nil), r}, nil).([]value)
	return strOf(termsOf(res))
}

func (ip *Interp) appendVals(a, b []value) []value {
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		for i, x := range b {
			switch x.(type) {
			case structure, array:
				r[len(a)+i] = copyVal(x)
			default:
				r[len(a)+i] = x
			}
		}
		return r
	}
	nc := cap(a) * 2
	if nc < n {
		nc = n
	}
	if nc < 8 {
		nc = 8
	}
	r := make([]value, n, nc)
	copy(r, a)
	for i, x := range b {
		r[len(a)+i] = copyVal(x)
	}
	// zero-fill spare capacity lazily: make sure reslicing sees zero values
	if n < nc {
		var z value
		if n > 0 {
			z = zeroLike(ip, r[0])
		}
		full := r[:nc]
		for i := n; i < nc; i++ {
			switch z.(type) {
			case structure, array:
				full[i] = copyVal(z)
			default:
				full[i] = z
			}
		}
	}
	return r
}

func zeroLike(ip *Interp, v value) value {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return ip.tc.False
		}
		return ip.tc.Const(v.w, 0)
	case *Str:
		return emptyStr
	case *value:
		return (*value)(nil)
	case []value:
		return []value(nil)
	case iface:
		return iface{}
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = zeroLike(ip, v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = zeroLike(ip, v[i])
		}
		return r
	case float64:
		return float64(0)
	}
	return funcNil{}
}

func (ip *Interp) callBuiltin(caller *frame, fn *ssa.Builtin, args []value) value {
	tc := ip.tc
	intc := func(n int) value { return tc.Const(64, uint64(n)) }
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if s, ok := args[1].(*Str); ok {
			return ip.appendVals(args[0].([]value), valuesOf(s.bytes(tc)))
		}
		a, b := args[0].([]value), args[1].([]value)
		if len(b) == 0 {
			return a
		}
		return ip.appendVals(a, b)
	case "copy":
		dst := args[0].([]value)
		if s, ok := args[1].(*Str); ok {
			return intc(copy(dst, valuesOf(s.bytes(tc))))
		}
		src := args[1].([]value)
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		if n > 0 {
			switch src[0].(type) {
			case structure, array:
				tmp := make([]value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(src[i])
				}
				for i := 0; i < n; i++ {
					storeVal(&dst[i], tmp[i])
				}
			default:
				copy(dst, src)
			}
		}
		return intc(n)
	case "close":
		ip.chanClose(args[0].(*Chan))
		return nil
	case "delete":
		mt := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map)
		ip.mapDelete(args[0].(*Map), mt.Key(), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.entries {
					e.deleted = true
				}
				x.entries, x.idx, x.live, x.symKeys = nil, map[string]*mapEntry{}, 0, 0
			}
		case []value:
			for i := range x {
				storeVal(&x[i], zeroLike(ip, x[i]))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return intc(x.Len())
		case array:
			return intc(len(x))
		case *value:
			return intc(len((*x).(array)))
		case []value:
			return intc(len(x))
		case *Map:
			if x == nil {
				return intc(0)
			}
			return intc(x.live)
		case *Chan:
			if x == nil {
				return intc(0)
			}
			return intc(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case array:
			return intc(len(x))
		case *value:
			return intc(len((*x).(array)))
		case []value:
			return intc(cap(x))
		case *Chan:
			if x == nil {
				return intc(0)
			}
			return intc(x.cap)
		}
	case "min", "max":
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, a := range args[1:] {
			less := ip.binop(token.LSS, t, t, a, r).(*Term)
			if fn.Name() == "max" {
				less = ip.binop(token.LSS, t, t, r, a).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = tc.Ite(less, a.(*Term), rt)
			} else if ip.branch(less) {
				r = a
			}
		}
		return r
	case "panic":
		ip.goPanic(args[0].(iface))
	case "recover":
		return ip.doRecover(caller)
	case "ssa:wrapnilchk":
		if p, _ := args[0].(*value); p == nil {
			ip.goPanicRT("runtime error: invalid memory address or nil pointer dereference (value method)")
		}
		return args[0]
	case "ssa:deferstack":
		return &caller.defers
	case "String": // unsafe.String
		p := args[0]
		n := int(ip.concretize(args[1].(*Term)))
		switch p := p.(type) {
		case *dataPtr:
			return strOf(termsOf(p.s[:n]))
		case *value:
			if n == 0 {
				return emptyStr
			}
		}
		ip.unsupported("unsafe.String of %T", p)
	case "SliceData":
		s := args[0].([]value)
		if s == nil {
			return (*value)(nil)
		}
		return &dataPtr{s}
	case "StringData":
		return &dataPtr{valuesOf(args[0].(*Str).bytes(tc))}
	case "Slice":
		n := int(ip.concretize(ip.toIdx(types.Typ[types.Int], args[1])))
		switch p := args[0].(type) {
		case *dataPtr:
			return p.s[:n]
		case *value:
			if p == nil && n == 0 {
				return []value(nil)
			}
		}
		ip.unsupported("unsafe.Slice")
	}
	ip.unsupported("builtin %s", fn.Name())
	return nil
}

// memYield is a preemption point before an access of the code under test to
// memory that another goroutine has touched (only after zkv.MemPreempt).
func (ip *Interp) memYield(fr *frame, p interface{}) {
	owner := ip.path.mem
	if owner == nil || ip.inStdInit > 0 {
		return
	}
	me := ip.path.cur.id + 1
	o, ok := owner[p]
	switch {
	case !ok:
		owner[p] = me
		return
	case o == me:
		return
	case o > 0:
		owner[p] = -1
	}
	if fr.fi.memY == 0 {
		fr.fi.memY = 1
		if fr.fn.Pkg != nil && ip.w.prog.isTarget(fr.fn.Pkg) && !strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), modPath+"/zkv") {
			f := ip.prog.Fset.Position(fr.fn.Pos()).Filename
			if !strings.Contains(f, "/zkvh_") {
				fr.fi.memY = 2
			}
		}
	}
	if fr.fi.memY == 2 {
		ip.yieldPoint("mem")
		ip.curFrame = fr
	}
}

func memKey(x value) interface{} {
	switch x := x.(type) {
	case *symPtr:
		if len(x.arr) > 0 {
			return &x.arr[0]
		}
	case *value:
		return x
	}
	return nil
}
