package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

// ---- channels ----

func (x *exec) waiter(ch int, send bool, self *Goroutine) (*Goroutine, int) {
	for _, g := range x.st.gs {
		if g == self || g.status != gBlocked || g.woken {
			continue
		}
		switch g.w.kind {
		case wSend:
			if send && g.w.ch == ch {
				return g, -1
			}
		case wRecv:
			if !send && g.w.ch == ch {
				return g, -1
			}
		case wSelect:
			for i, c := range g.w.sel {
				if c.ch == ch && c.send == send {
					return g, i
				}
			}
		}
	}
	return nil, 0
}

func (x *exec) canRecv(ch int, self *Goroutine) bool {
	c := x.obj(ch).ch
	if len(c.buf) > 0 || c.closed {
		return true
	}
	g, _ := x.waiter(ch, true, self)
	return g != nil
}

func (x *exec) canSend(ch int, self *Goroutine) bool {
	c := x.obj(ch).ch
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	g, _ := x.waiter(ch, false, self)
	return g != nil
}

func (x *exec) waitVal(g *Goroutine, ci int) Value {
	if g.w.kind == wSelect {
		return g.w.sel[ci].val
	}
	return g.w.val
}

// deliver completes the blocking channel operation of g.
func (x *exec) deliver(g *Goroutine, caseIdx int, v Value, ok bool) {
	f := g.frames[len(g.frames)-1]
	ci := &f.fn.blocks[f.block].instrs[f.pc]
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		if ins.CommaOk {
			f.regs[ci.dst] = Tuple{v, term.Bool(ok)}
		} else {
			f.regs[ci.dst] = v
		}
	case *ssa.Send:
	case *ssa.Select:
		f.regs[ci.dst] = x.selResult(ins, caseIdx, v, ok)
	default:
		unsup("deliver to %T", ins)
	}
	f.pc++
	g.woken = true
	g.schedDone = false
}

func (x *exec) selResult(ins *ssa.Select, idx int, v Value, ok bool) Value {
	t := Tuple{c64(idx), term.Bool(ok)}
	for i, s := range ins.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				t = append(t, v)
			} else {
				t = append(t, zeroVal(under(s.Chan.Type()).(*types.Chan).Elem()))
			}
		}
	}
	return t
}

func (x *exec) tryRecv(ch int, elem types.Type) (Value, bool, bool) {
	c := x.obj(ch).ch
	if len(c.buf) > 0 {
		o := x.wobj(ch)
		v := o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		x.acqChan(ch)
		if g, i := x.waiter(ch, true, x.g); g != nil {
			o.ch.buf = append(o.ch.buf, x.waitVal(g, i))
			x.relChan(ch, g)
			x.deliver(g, i, nil, false)
		}
		return v, true, true
	}
	if g, i := x.waiter(ch, true, x.g); g != nil {
		v := x.waitVal(g, i)
		x.relChan(ch, g)
		x.acqChan(ch)
		x.deliver(g, i, nil, false)
		return v, true, true
	}
	if c.closed {
		x.acqChan(ch)
		return zeroVal(elem), false, true
	}
	return nil, false, false
}

func (x *exec) trySend(ch int, v Value) bool {
	c := x.obj(ch).ch
	if c.closed {
		panic(goPanic{Iface{x.p.rtErr, Str{S: "send on closed channel"}}, "send on closed channel"})
	}
	if g, i := x.waiter(ch, false, x.g); g != nil {
		x.relChan(ch, x.g)
		sg := x.g
		x.g = g
		x.acqChan(ch)
		x.g = sg
		x.deliver(g, i, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		o := x.wobj(ch)
		o.ch.buf = append(o.ch.buf, v)
		x.relChan(ch, x.g)
		return true
	}
	return false
}

func (x *exec) chanID(v Value) int {
	c, ok := v.(ChanRef)
	if !ok {
		unsup("channel operation on %T", v)
	}
	return c.id
}

func (x *exec) doRecv(ins *ssa.UnOp) {
	ch := x.chanID(x.val(0))
	if ch == 0 {
		panic(blockReq{wait{kind: wForever}})
	}
	v, ok, done := x.tryRecv(ch, under(ins.X.Type()).(*types.Chan).Elem())
	if !done {
		panic(blockReq{wait{kind: wRecv, ch: ch}})
	}
	if ins.CommaOk {
		x.set(Tuple{v, term.Bool(ok)})
	} else {
		x.set(v)
	}
}

func (x *exec) doSend() {
	ch := x.chanID(x.val(0))
	if ch == 0 {
		panic(blockReq{wait{kind: wForever}})
	}
	if !x.trySend(ch, x.val(1)) {
		panic(blockReq{wait{kind: wSend, ch: ch, val: x.val(1)}})
	}
}

func (x *exec) doSelect(ins *ssa.Select) {
	cs := make([]selCase, len(ins.States))
	var rdy []int
	for i, s := range ins.States {
		cs[i] = selCase{ch: x.chanID(x.val(2 * i)), send: s.Dir == types.SendOnly}
		if cs[i].send {
			cs[i].val = x.val(2*i + 1)
		}
		if cs[i].ch == 0 {
			continue
		}
		if cs[i].send && x.canSend(cs[i].ch, x.g) || !cs[i].send && x.canRecv(cs[i].ch, x.g) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		if !ins.Blocking {
			x.set(x.selResult(ins, -1, nil, false))
			return
		}
		panic(blockReq{wait{kind: wSelect, sel: cs}})
	}
	i := rdy[0]
	if cs[i].send {
		x.trySend(cs[i].ch, cs[i].val)
		x.set(x.selResult(ins, i, nil, false))
		return
	}
	v, ok, _ := x.tryRecv(cs[i].ch, under(ins.States[i].Chan.Type()).(*types.Chan).Elem())
	x.set(x.selResult(ins, i, v, ok))
}

func (x *exec) closeChan(c ChanRef) {
	if c.id == 0 {
		x.rtPanic("close of nil channel")
	}
	o := x.wobj(c.id)
	if o.ch.closed {
		panic(goPanic{Iface{x.p.rtErr, Str{S: "close of closed channel"}}, "close of closed channel"})
	}
	o.ch.closed = true
	x.relChan(c.id, x.g)
	// blocked receivers and selects become ready and retry
}

// ---- time ----

func (x *exec) timeVal() Value {
	return Agg{term.Const(64, 1<<63), x.st.now, Ptr{}}
}

// advanceTime moves the virtual clock to the earliest pending event.
func (x *exec) advanceTime() bool {
	st := x.st
	var best *term.Term
	var bg *Goroutine
	bt := -1
	for _, g := range st.gs {
		if g.status == gBlocked && g.w.kind == wSleep && !g.woken {
			if best == nil || x.decide(term.Slt(g.w.until, best)) {
				best, bg, bt = g.w.until, g, -1
			}
		}
	}
	for i := range st.timers {
		if best == nil || x.decide(term.Slt(st.timers[i].when, best)) {
			best, bg, bt = st.timers[i].when, nil, i
		}
	}
	if best == nil {
		return false
	}
	// now never moves backwards
	if best != st.now && x.decide(term.Slt(st.now, best)) {
		st.now = best
	}
	// everything due by now happens
	due := func(t *term.Term) bool { return t == best || x.decide(term.Sle(t, st.now)) }
	for _, g := range st.gs {
		if g.status == gBlocked && g.w.kind == wSleep && !g.woken && (g == bg || due(g.w.until)) {
			x.complete(g, nil)
		}
	}
	for i := 0; i < len(st.timers); {
		if i != bt && !due(st.timers[i].when) {
			i++
			continue
		}
		n := len(st.timers)
		x.fireTimer(i)
		if len(st.timers) == n {
			i++ // periodic
		} else if bt > i {
			bt--
		} else if bt == i {
			bt = -1
		}
	}
	return true
}

// complete finishes the intrinsic call a goroutine is blocked in.
func (x *exec) complete(g *Goroutine, v Value) {
	f := g.frames[len(g.frames)-1]
	ci := &f.fn.blocks[f.block].instrs[f.pc]
	if _, ok := ci.ins.(*ssa.Call); !ok {
		unsup("blocking call in %T", ci.ins)
	}
	f.regs[ci.dst] = v
	f.pc++
	g.woken = true
	g.schedDone = false
}

func (x *exec) fireTimer(i int) {
	st := x.st
	t := st.timers[i]
	if t.period != nil {
		st.timers[i].when = term.Add(t.when, t.period)
	} else {
		st.timers = append(append([]timer(nil), st.timers[:i]...), st.timers[i+1:]...)
	}
	if t.fn != nil {
		g := &Goroutine{id: len(st.gs)}
		if st.inter {
			g.vc = make(vclock, len(st.gs)+1)
		}
		st.gs = append(st.gs, g)
		sg, sf := x.g, x.f
		x.g = g
		x.f = nil
		x.invoke(t.fn, nil, nil, -1, nil)
		x.g, x.f = sg, sf
		return
	}
	o := x.obj(t.ch)
	if len(o.ch.buf) == 0 {
		if g, k := x.waiter(t.ch, false, nil); g != nil {
			x.deliver(g, k, x.timeVal(), true)
			return
		}
		o = x.wobj(t.ch)
		o.ch.buf = append(o.ch.buf, x.timeVal())
	}
}

func (x *exec) addTimer(when, period *term.Term, ch int, fn *Closure, obj int) {
	st := x.st
	st.tseq++
	st.timers = append(append([]timer(nil), st.timers...), timer{st.tseq, when, period, ch, fn, obj})
}

func (x *exec) stopTimer(obj int) bool {
	st := x.st
	for i, t := range st.timers {
		if t.obj == obj {
			st.timers = append(append([]timer(nil), st.timers[:i]...), st.timers[i+1:]...)
			return true
		}
	}
	return false
}

// ---- happens-before race detection (interleaving mode) ----

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a, b vclock) vclock {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	for i := range r {
		r[i] = a.get(i)
		if c := b.get(i); c > r[i] {
			r[i] = c
		}
	}
	return r
}

func (x *exec) forkVC(id int) vclock {
	g := x.g
	c := joinVC(g.vc, make(vclock, id+1))
	c[id]++
	g.vc = joinVC(g.vc, make(vclock, g.id+1))
	g.vc[g.id]++
	return c
}

func (x *exec) acquire(p Ptr) {
	if !x.st.inter {
		return
	}
	if v, ok := x.st.syncVC[p]; ok {
		x.g.vc = joinVC(x.g.vc, v)
	}
}

func (x *exec) release(p Ptr) {
	if !x.st.inter {
		return
	}
	g := x.g
	x.st.syncVC[p] = joinVC(x.st.syncVC[p], g.vc)
	g.vc = joinVC(g.vc, make(vclock, g.id+1))
	g.vc[g.id]++
}

func (x *exec) acqChan(ch int) { x.acquire(Ptr{obj: ch, off: -1}) }
func (x *exec) relChan(ch int, g *Goroutine) {
	if !x.st.inter {
		return
	}
	sg := x.g
	x.g = g
	x.release(Ptr{obj: ch, off: -1})
	x.g = sg
}

func (x *exec) shadowOf(p Ptr, n int) (*Object, int, int) {
	o := x.wobj(p.obj)
	size := len(o.cells)
	if size == 0 {
		size = 1
	}
	if o.shad == nil {
		o.shad = make([]shadow, size)
	}
	if n == 0 {
		return o, 0, 1
	}
	return o, p.off, n
}

func (x *exec) raceRead(p Ptr, n int) {
	if p.obj == 0 || len(x.st.gs) == 1 || p.sym != nil {
		return
	}
	o, off, cnt := x.shadowOf(p, n)
	g := x.g
	for i := off; i < off+cnt && i < len(o.shad); i++ {
		s := &o.shad[i]
		if s.wg != 0 && s.wg-1 != g.id && s.wc > g.vc.get(s.wg-1) {
			x.race("read", p, s.wg-1)
		}
		x.raceWith("read", p, s.aw)
		r := joinVC(s.reads, make(vclock, g.id+1))
		r[g.id] = g.vc.get(g.id)
		s.reads = r
	}
}

func (x *exec) raceWrite(p Ptr, n int) {
	if p.obj == 0 || len(x.st.gs) == 1 || p.sym != nil {
		return
	}
	o, off, cnt := x.shadowOf(p, n)
	g := x.g
	for i := off; i < off+cnt && i < len(o.shad); i++ {
		s := &o.shad[i]
		if s.wg != 0 && s.wg-1 != g.id && s.wc > g.vc.get(s.wg-1) {
			x.race("write", p, s.wg-1)
		}
		for j, c := range s.reads {
			if j != g.id && c > g.vc.get(j) {
				x.race("write", p, j)
			}
		}
		x.raceWith("write", p, s.ar)
		x.raceWith("write", p, s.aw)
		s.wg = g.id + 1
		s.wc = g.vc.get(g.id)
	}
}

// raceWith reports a conflict with an access in c that is not ordered before this one.
func (x *exec) raceWith(kind string, p Ptr, c vclock) {
	for j, n := range c {
		if j != x.g.id && n > x.g.vc.get(j) {
			x.race(kind, p, j)
		}
	}
}

// raceAtomic is an atomic access; it conflicts with plain ones only.
func (x *exec) raceAtomic(p Ptr, write bool) {
	if !x.st.inter || p.obj == 0 || len(x.st.gs) == 1 || p.sym != nil {
		return
	}
	o, off, _ := x.shadowOf(p, 1)
	if off >= len(o.shad) {
		return
	}
	g, s := x.g, &o.shad[off]
	if s.wg != 0 && s.wg-1 != g.id && s.wc > g.vc.get(s.wg-1) {
		x.race("atomic access", p, s.wg-1)
	}
	c := &s.ar
	if write {
		x.raceWith("atomic write", p, s.reads)
		c = &s.aw
	}
	*c = joinVC(*c, make(vclock, g.id+1))
	(*c)[g.id] = g.vc.get(g.id)
}

func (x *exec) race(kind string, p Ptr, other int) {
	if x.spec != nil { // decided on the way it happens
		panic(specAbort{})
	}
	x.violation("race", fmt.Sprintf("data race: %s by goroutine %d conflicts with goroutine %d at %s", kind, x.g.id, other, x.where()))
	panic(pathEnd{"race"})
}

// initRace switches the path to interleaving mode.
func (x *exec) initRace(preempt int) {
	st := x.st
	st.inter = true
	st.preempt = preempt
	st.syncVC = map[Ptr]vclock{}
	for _, g := range st.gs {
		g.vc = make(vclock, len(st.gs))
		g.vc[g.id] = 1
	}
}
