package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- goroutines as host-goroutine coroutines: exactly one runs ----

func (ip *Interp) spawn(f value, args []value, name string) {
	g := &G{id: len(ip.path.gs), resume: make(chan struct{}), name: name}
	ip.path.gs = append(ip.path.gs, g)
	ip.startG(g, func() { ip.call(&frame{ip: ip, fn: ip.w.prog.dummy, g: g}, f, args) })
	ip.yieldPoint("go")
}

func (ip *Interp) startG(g *G, body func()) {
	go func() {
		<-g.resume
		var end *pathEnd
		func() {
			defer func() {
				p := recover()
				if p == nil {
					return
				}
				p = ip.normPanic(p)
				switch p := p.(type) {
				case *targetPanic:
					end = &pathEnd{endViolation, "panic: " + ip.panicText(p) + " @ " + p.trace, "panic"}
				case pathEnd:
					end = &p
				case killG:
				}
			}()
			if ip.dead {
				return
			}
			body()
		}()
		g.dead = true
		if ip.dead {
			ip.killed <- struct{}{}
			return
		}
		if end != nil {
			ip.finish(*end)
			ip.killed <- struct{}{}
			return
		}
		if g.id == 0 {
			ip.finish(pathEnd{endDone, "", ""})
			ip.killed <- struct{}{}
			return
		}
		// hand over
		var over *pathEnd
		func() {
			defer func() {
				if p := recover(); p != nil {
					if e, ok := ip.normPanic(p).(pathEnd); ok {
						over = &e
					}
				}
			}()
			n := ip.pickNext("exit")
			if n == nil {
				over = &pathEnd{endDeadlock, "all goroutines are blocked: " + ip.blockedList(), "deadlock"}
				return
			}
			ip.path.cur = n
			ip.curFrame = n.frame
			n.resume <- struct{}{}
		}()
		if over != nil {
			ip.finish(*over)
			ip.killed <- struct{}{}
		}
	}()
}

func (ip *Interp) panicText(p *targetPanic) string {
	switch v := p.v.v.(type) {
	case *Str:
		if v.b == nil {
			return v.s
		}
		return "<symbolic string>"
	case nil:
		return "nil"
	case *value:
		// error value: try errors.errorString
		if v != nil {
			if st, ok := (*v).(structure); ok && len(st) > 0 {
				if s, ok := st[0].(*Str); ok {
					return s.s
				}
			}
		}
	}
	return fmt.Sprint(p.v.t)
}

// finish ends the path: called by the goroutine that holds control.
func (ip *Interp) finish(e pathEnd) {
	ip.dead = true
	ip.done <- e
}

// reap kills every parked goroutine of the path.
func (ip *Interp) reap() {
	<-ip.killed // the finisher
	for _, g := range ip.path.gs {
		if !g.dead {
			g.resume <- struct{}{}
			<-ip.killed
		}
	}
}

func (ip *Interp) blockedList() string {
	var s []string
	for _, g := range ip.path.gs {
		if !g.dead && g.what != "" {
			s = append(s, fmt.Sprintf("g%d(%s) on %s", g.id, g.name, g.what))
		}
	}
	return strings.Join(s, "; ")
}

func (ip *Interp) runnable() (norm, low []*G) {
	for _, g := range ip.path.gs {
		if g.dead {
			continue
		}
		if g.ready == nil || g.ready() {
			if g.lowprio {
				low = append(low, g)
			} else {
				norm = append(norm, g)
			}
		}
	}
	return
}

// pickNext chooses the next goroutine when the current one cannot go on.
func (ip *Interp) pickNext(why string) *G {
	norm, low := ip.runnable()
	if len(norm) == 0 {
		// virtual timers fire only when nothing else can run
		if len(low) == 0 {
			return nil
		}
		return low[0]
	}
	if len(norm) == 1 {
		return norm[0]
	}
	delays := ip.path.side["delays"] != nil
	if ip.path.side["interleave"] != nil && !delays {
		k := ip.choose(len(norm), "sched")
		ip.traceSched(norm[k], why)
		return norm[k]
	}
	// deterministic round robin after the current one
	cur := -1
	if ip.path.cur != nil {
		cur = ip.path.cur.id
	}
	def := 0
	for i, g := range norm {
		if g.id > cur {
			def = i
			break
		}
	}
	if delays && ip.path.interleave > 0 {
		// delay bounding: running anything but the round robin choice is
		// paid for like a preemption
		if k := ip.choose(len(norm), "sched"); k != 0 {
			ip.path.interleave--
			def = (def + k) % len(norm)
			ip.traceSched(norm[def], why)
		}
	}
	return norm[def]
}

func (ip *Interp) traceSched(g *G, why string) {
	ip.path.schedTrace = append(ip.path.schedTrace, fmt.Sprintf("%s->g%d", why, g.id))
}

func (ip *Interp) switchTo(n *G) {
	me := ip.path.cur
	if n == me {
		return
	}
	me.frame = ip.curFrame
	ip.path.cur = n
	ip.curFrame = n.frame
	n.resume <- struct{}{}
	<-me.resume
	if ip.dead {
		panic(killG{})
	}
	ip.path.cur = me
	ip.curFrame = me.frame
}

// block parks the current goroutine until ready() holds.
func (ip *Interp) block(ready func() bool, what string) {
	me := ip.path.cur
	for !ready() {
		me.ready, me.what = ready, what+" @ "+ip.briefWhere()
		n := ip.pickNext("block")
		if n == nil {
			panic(pathEnd{endDeadlock, "all goroutines are blocked: " + ip.blockedList(), "deadlock"})
		}
		if n == me {
			break
		}
		ip.switchTo(n)
	}
	me.ready, me.what = nil, ""
}

func (ip *Interp) briefWhere() string {
	fr := ip.curFrame
	for fr != nil && fr.fi != nil && fr.fi.intr != nil {
		fr = fr.caller
	}
	if fr == nil || fr.fn == nil {
		return "?"
	}
	return fr.fn.String() + "(" + ip.shortPos(fr.pos) + ")"
}

// yieldPoint lets the scheduler preempt the current goroutine, within the
// preemption budget.
func (ip *Interp) yieldPoint(what string) {
	p := ip.path
	if p.side["interleave"] == nil || p.interleave <= 0 || ip.inStdInit > 0 {
		return
	}
	norm, _ := ip.runnable()
	if len(norm) < 2 {
		return
	}
	var others []*G
	for _, g := range norm {
		if g != p.cur {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return
	}
	k := ip.choose(len(others)+1, "preempt")
	if k == 0 {
		return
	}
	p.interleave--
	ip.traceSched(others[k-1], what+"@"+ip.briefWhere())
	ip.switchTo(others[k-1])
}

// ---- channels ----

type waiter struct {
	g    *G
	v    value
	ok   bool
	done *bool
	idx  int
	pick *int
}

type Chan struct {
	cap    int
	buf    []value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

func (ip *Interp) newChan(n int) *Chan { return &Chan{cap: n} }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !*w.done {
			return true
		}
	}
	return false
}

func (ip *Interp) canSend(c *Chan) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || live(c.recvq))
}

func (ip *Interp) canRecv(c *Chan) bool {
	return c != nil && (len(c.buf) > 0 || live(c.sendq) || c.closed)
}

func (ip *Interp) doSend(c *Chan, v value) {
	if c.closed {
		ip.goPanicRT("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		*w.done = true
		w.v, w.ok = v, true
		*w.pick = w.idx
		return
	}
	c.buf = append(c.buf, v)
}

func (ip *Interp) doRecv(c *Chan, et types.Type) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]value{}, c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			*w.done = true
			*w.pick = w.idx
			c.buf = append(c.buf, w.v)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		*w.done = true
		*w.pick = w.idx
		return w.v, true
	}
	return ip.zero(et), false // closed
}

func (ip *Interp) chanSend(c *Chan, v value) {
	ip.yieldPoint("send")
	if c == nil {
		ip.block(func() bool { return false }, "send on nil channel")
	}
	if ip.canSend(c) {
		ip.doSend(c, v)
		return
	}
	done, pick := false, -1
	w := &waiter{g: ip.path.cur, v: v, done: &done, pick: &pick}
	c.sendq = append(c.sendq, w)
	ip.block(func() bool { return done || c.closed }, "channel send")
	if !done {
		done = true
		ip.goPanicRT("send on closed channel")
	}
}

func (ip *Interp) chanRecv(c *Chan, et types.Type) (value, bool) {
	ip.yieldPoint("recv")
	if c == nil {
		ip.block(func() bool { return false }, "receive from nil channel")
	}
	if ip.canRecv(c) {
		return ip.doRecv(c, et)
	}
	done, pick := false, -1
	w := &waiter{g: ip.path.cur, done: &done, pick: &pick}
	c.recvq = append(c.recvq, w)
	ip.block(func() bool { return done || c.closed }, "channel receive")
	if !done {
		done = true
		return ip.zero(et), false
	}
	return w.v, w.ok
}

func (ip *Interp) chanClose(c *Chan) {
	ip.yieldPoint("close")
	if c == nil {
		ip.goPanicRT("close of nil channel")
	}
	if c.closed {
		ip.goPanicRT("close of closed channel")
	}
	c.closed = true
}

func (ip *Interp) doSelect(fr *frame, in *ssa.Select, c *cinstr) value {
	tc := ip.tc
	ip.yieldPoint("select")
	n := len(in.States)
	chans := make([]*Chan, n)
	sends := make([]value, n)
	for i := range in.States {
		chans[i] = fr.op(&c.ops[2*i]).(*Chan)
		if in.States[i].Send != nil {
			sends[i] = copyVal(fr.op(&c.ops[2*i+1]))
		}
	}
	var ready []int
	for i, st := range in.States {
		if st.Dir == types.SendOnly && ip.canSend(chans[i]) || st.Dir == types.RecvOnly && ip.canRecv(chans[i]) {
			ready = append(ready, i)
		}
	}
	res := func(chosen int, v value, ok bool) value {
		r := tuple{tc.Const(64, uint64(int64(chosen))), tc.Bool(ok)}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == chosen && ok {
					r = append(r, v)
				} else {
					r = append(r, ip.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return r
	}
	fire := func(i int) value {
		st := in.States[i]
		if st.Dir == types.SendOnly {
			ip.doSend(chans[i], sends[i])
			return res(i, nil, false)
		}
		v, ok := ip.doRecv(chans[i], st.Chan.Type().Underlying().(*types.Chan).Elem())
		return res(i, v, ok)
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = ip.choose(len(ready), "select")
		}
		return fire(ready[k])
	}
	if !in.Blocking {
		return res(-1, nil, false)
	}
	done, pick := false, -1
	ws := make([]*waiter, n)
	for i, st := range in.States {
		if chans[i] == nil {
			continue
		}
		w := &waiter{g: ip.path.cur, v: sends[i], done: &done, pick: &pick, idx: i}
		ws[i] = w
		if st.Dir == types.SendOnly {
			chans[i].sendq = append(chans[i].sendq, w)
		} else {
			chans[i].recvq = append(chans[i].recvq, w)
		}
	}
	closedIdx := func() int {
		for i := range in.States {
			if chans[i] != nil && chans[i].closed {
				return i
			}
		}
		return -1
	}
	ip.block(func() bool { return done || closedIdx() >= 0 }, "select")
	if done {
		st := in.States[pick]
		if st.Dir == types.SendOnly {
			return res(pick, nil, false)
		}
		return res(pick, ws[pick].v, ws[pick].ok)
	}
	done = true
	i := closedIdx()
	if in.States[i].Dir == types.SendOnly {
		ip.goPanicRT("send on closed channel")
	}
	return fire(i)
}

// ---- sync primitives: state lives beside the interpreted structs ----

type lockState struct {
	held    bool
	readers int
	n       int // WaitGroup counter / Once done
	waiters int
	signals int
}

func (ip *Interp) lock(p value) *lockState {
	q, _ := p.(*value)
	if q == nil {
		ip.nilDeref()
	}
	l := ip.path.locks[q]
	if l == nil {
		l = &lockState{}
		ip.path.locks[q] = l
	}
	return l
}

func init() {
	reg := func(name string, f func(fr *frame, a []value) value) { intrinsics[name] = f }
	for _, m := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(m+".Lock", func(fr *frame, a []value) value {
			ip := fr.ip
			l := ip.lock(a[0])
			if ip.inStdInit > 0 {
				return nil
			}
			ip.yieldPoint("lock")
			ip.block(func() bool { return !l.held && l.readers == 0 }, "lock")
			l.held = true
			return nil
		})
		reg(m+".TryLock", func(fr *frame, a []value) value {
			ip := fr.ip
			l := ip.lock(a[0])
			ip.yieldPoint("trylock")
			if l.held || l.readers > 0 {
				return ip.tc.False
			}
			l.held = true
			return ip.tc.True
		})
		reg(m+".Unlock", func(fr *frame, a []value) value {
			ip := fr.ip
			if ip.inStdInit > 0 {
				return nil
			}
			l := ip.lock(a[0])
			if !l.held {
				panic(pathEnd{endViolation, "fatal error: sync: unlock of unlocked mutex @ " + ip.where(), "panic"})
			}
			l.held = false
			ip.yieldPoint("unlock")
			return nil
		})
	}
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		ip.yieldPoint("rlock")
		ip.block(func() bool { return !l.held }, "rlock")
		l.readers++
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		if l.readers <= 0 {
			panic(pathEnd{endViolation, "fatal error: sync: RUnlock of unlocked RWMutex @ " + ip.where(), "panic"})
		}
		l.readers--
		ip.yieldPoint("runlock")
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		l.n += int(int64(ip.concretize(a[1].(*Term))))
		if l.n < 0 {
			ip.goPanicRT("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		l.n--
		if l.n < 0 {
			ip.goPanicRT("sync: negative WaitGroup counter")
		}
		ip.yieldPoint("wgdone")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		ip.yieldPoint("wgwait")
		ip.block(func() bool { return l.n == 0 }, "WaitGroup.Wait")
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		l.n++
		f := a[1]
		ip.spawn(&HostFn{"wg.Go", func(fr *frame, _ []value) value {
			ip.call(fr, f, nil)
			l.n--
			return nil
		}}, nil, "wg")
		return nil
	})
	reg("(*sync.Once).Do", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		if ip.inStdInit == 0 {
			ip.block(func() bool { return !l.held }, "once")
		}
		if l.n == 0 {
			l.held = true
			defer func() { l.held = false }()
			l.n = 1
			ip.call(fr, a[1], nil)
		}
		return nil
	})
	// sync.Cond{noCopy, L, notify, checker}
	condL := func(fr *frame, p value) (value, value) {
		st := (*p.(*value)).(structure)
		for _, f := range st {
			if i, ok := f.(iface); ok && i.t != nil {
				return i, i.v
			}
		}
		fr.ip.unsupported("sync.Cond without L")
		return nil, nil
	}
	reg("(*sync.Cond).Wait", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		_, lv := condL(fr, a[0])
		m := ip.lock(lv)
		m.held = false
		l.waiters++
		my := false
		ip.path.side[fmt.Sprintf("cond%p", l)] = append(ip.condQ(l), &my)
		ip.block(func() bool { return my }, "Cond.Wait")
		ip.block(func() bool { return !m.held && m.readers == 0 }, "lock")
		m.held = true
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		q := ip.condQ(l)
		if len(q) > 0 {
			*q[0] = true
			ip.path.side[fmt.Sprintf("cond%p", l)] = q[1:]
		}
		ip.yieldPoint("signal")
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *frame, a []value) value {
		ip := fr.ip
		l := ip.lock(a[0])
		for _, b := range ip.condQ(l) {
			*b = true
		}
		ip.path.side[fmt.Sprintf("cond%p", l)] = []*bool(nil)
		ip.yieldPoint("broadcast")
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, a []value) value {
		ip := fr.ip
		st := (*a[0].(*value)).(structure)
		n := st[len(st)-1]
		if _, ok := n.(funcNil); ok {
			return iface{}
		}
		return ip.call(fr, n, nil)
	})
	reg("(*sync.Pool).Put", func(fr *frame, a []value) value { return nil })
	// atomics
	for _, ty := range []struct {
		n string
		w uint32
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := ty.w
		_ = w
		reg("sync/atomic.Load"+ty.n, func(fr *frame, a []value) value { fr.ip.yieldPoint("atomic"); return fr.ip.load(a[0]) })
		reg("sync/atomic.Store"+ty.n, func(fr *frame, a []value) value {
			fr.ip.yieldPoint("atomic")
			fr.ip.store(a[0], a[1])
			return nil
		})
		reg("sync/atomic.Add"+ty.n, func(fr *frame, a []value) value {
			fr.ip.yieldPoint("atomic")
			v := fr.ip.tc.Bin(OpAdd, fr.ip.load(a[0]).(*Term), a[1].(*Term))
			fr.ip.store(a[0], v)
			return v
		})
		reg("sync/atomic.Swap"+ty.n, func(fr *frame, a []value) value {
			fr.ip.yieldPoint("atomic")
			v := fr.ip.load(a[0])
			fr.ip.store(a[0], a[1])
			return v
		})
		reg("sync/atomic.CompareAndSwap"+ty.n, func(fr *frame, a []value) value {
			ip := fr.ip
			ip.yieldPoint("atomic")
			v := ip.load(a[0]).(*Term)
			if ip.branch(ip.tc.Eq(v, a[1].(*Term))) {
				ip.store(a[0], a[2])
				return ip.tc.True
			}
			return ip.tc.False
		})
	}
}

func (ip *Interp) condQ(l *lockState) []*bool {
	q, _ := ip.path.side[fmt.Sprintf("cond%p", l)].([]*bool)
	return q
}
