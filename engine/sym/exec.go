package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"

	"verifengine/solver"
	"verifengine/term"
)

// control-flow signals (Go panics inside the engine)
type forkReq struct{ c *term.Term }
type blockReq struct{ w wait }
type goPanic struct {
	v   Iface
	msg string
}
type unsupported struct{ msg string }
type pathEnd struct{ why string }
type reSched struct{}

type exec struct {
	m   *Machine
	p   *Program
	st  *State
	g   *Goroutine
	f   *Frame
	ci  *cinstr
	sol *solver.Solver
	wid int

	lenient bool
	spec    *spec // executing a region
	steps   int64
}

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (x *exec) val(i int) Value { return x.opVal(&x.ci.ops[i]) }

func (x *exec) opVal(o *operand) Value {
	switch o.kind {
	case opReg:
		return x.f.regs[o.idx]
	case opConst:
		return o.v
	case opGlobal:
		return Ptr{obj: x.global(o.g)}
	}
	return nil
}

func (x *exec) term(v Value) *term.Term {
	switch t := v.(type) {
	case *term.Term:
		return t
	case Poison:
		unsup("use of an uninitialised value (%s)", t.Why)
	}
	unsup("expected a scalar, got %T", v)
	return nil
}
func (x *exec) tv(i int) *term.Term { return x.term(x.val(i)) }

func (x *exec) ptr(v Value) Ptr {
	switch t := v.(type) {
	case Ptr:
		return t
	case Poison:
		unsup("use of an uninitialised pointer (%s)", t.Why)
	}
	unsup("expected a pointer, got %T", v)
	return Ptr{}
}
func (x *exec) slice(v Value) Slice {
	switch t := v.(type) {
	case Slice:
		return t
	case Poison:
		unsup("use of an uninitialised slice (%s)", t.Why)
	}
	unsup("expected a slice, got %T", v)
	return Slice{}
}
func (x *exec) str(v Value) Str {
	switch t := v.(type) {
	case Str:
		return t
	case Poison:
		unsup("use of an uninitialised string (%s)", t.Why)
	}
	unsup("expected a string, got %T", v)
	return Str{}
}
func (x *exec) iface(v Value) Iface {
	switch t := v.(type) {
	case Iface:
		return t
	case Poison:
		unsup("use of an uninitialised interface (%s)", t.Why)
	}
	unsup("expected an interface, got %T", v)
	return Iface{}
}

func (x *exec) set(v Value) { x.f.regs[x.ci.dst] = v }

func (x *exec) rtPanic(msg string) {
	panic(goPanic{Iface{x.p.rtErr, Str{S: msg}}, "runtime error: " + msg})
}

// decide resolves a boolean term on the current path, forking when both values are possible.
func (x *exec) decide(c *term.Term) bool {
	if c.IsConst() {
		return c.IsTrue()
	}
	if v, ok := x.st.known[c]; ok {
		return v
	}
	if c.Op == term.OBNot {
		if v, ok := x.st.known[c.A[0]]; ok {
			return !v
		}
	}
	panic(forkReq{c})
}

// mustInt makes a term concrete, forking over its feasible values.
func (x *exec) mustInt(t *term.Term) uint64 {
	if t.IsConst() {
		return t.Val
	}
	st := x.st
	r, ok := st.ranges[t]
	if !ok {
		r = rng{t.UMin(), t.UMax()}
	}
	if r.lo == r.hi {
		return r.lo
	}
	if x.spec != nil {
		panic(specAbort{})
	}
	span := r.hi - r.lo
	if span > 16 {
		// narrow: is there only one value?
		v := x.eval(t)
		if v < r.lo || v > r.hi {
			unsup("internal: model outside range")
		}
		eq := term.Eq(t, term.Const(t.W, v))
		if k, ok := st.known[eq]; ok && k {
			return v
		}
		if res, _ := x.satWith(term.BNot(eq)); res == solver.Unsat {
			st.ranges[t] = rng{v, v}
			return v
		}
		if span > 4096 {
			// find the true bounds by bisection
			lo := x.bound(t, r.lo, v, false)
			hi := x.bound(t, v, r.hi, true)
			r = rng{lo, hi}
			st.ranges[t] = r
			if lo == hi {
				return lo
			}
		}
	}
	mid := r.lo + (r.hi-r.lo)/2
	c := term.Ule(t, term.Const(t.W, mid))
	if x.decide(c) {
		r.hi = mid
	} else {
		r.lo = mid + 1
	}
	// ranges may be narrowed in place: the decision is already recorded for this path
	st.ranges[t] = r
	return x.mustInt(t)
}

// bound finds the least (or greatest) feasible value of t in [lo,hi].
func (x *exec) bound(t *term.Term, lo, hi uint64, max bool) uint64 {
	for lo < hi {
		mid := lo + (hi-lo)/2
		var c *term.Term
		if max {
			c = term.BAnd(term.Ult(term.Const(t.W, mid), t), term.Ule(t, term.Const(t.W, hi)))
		} else {
			c = term.BAnd(term.Ule(t, term.Const(t.W, mid)), term.Ule(term.Const(t.W, lo), t))
		}
		res, _ := x.satWith(c)
		if res == solver.Unknown {
			unsup("solver unknown while concretising")
		}
		if (res == solver.Sat) != max {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

func (x *exec) mustLen(t *term.Term) int { return int(x.mustInt(t)) }

// sched is called before visible operations in interleaving mode.
func (x *exec) visible() {
	st := x.st
	if !st.inter || x.g.schedDone || st.preempt <= 0 {
		return
	}
	var cand []int
	for i, g := range st.gs {
		if i != st.cur && x.ready(g) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return
	}
	n := uint64(len(cand) + 1)
	v := x.varFor("sched", 8)
	if _, ok := st.ranges[v]; !ok {
		st.addPC(term.Ult(v, term.Const(8, n)), x)
		st.ranges[v] = rng{0, n - 1}
	}
	k := x.mustInt(v)
	x.commitVar("sched", v)
	x.g.schedDone = true
	if k > 0 {
		st.preempt--
		x.switchTo(cand[k-1])
		panic(reSched{})
	}
}

func (x *exec) switchTo(i int) {
	st := x.st
	st.cur = i
	x.g = st.gs[i]
	x.g.status = gRun
	x.g.w = wait{}
	x.g.woken = false
	x.trace("switch to goroutine %d", i)
}

func (x *exec) trace(f string, a ...any) {
	if len(x.st.trail) < 200 {
		x.st.trail = append(x.st.trail, fmt.Sprintf(f, a...))
	}
}

// addPC adds a constraint known to be consistent (a fresh variable's domain).
func (s *State) addPC(c *term.Term, x *exec) {
	if c.IsConst() {
		if c.IsFalse() {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	s.pc = append(s.pc, c)
	s.known[c] = true
}

// eval evaluates t under the path's current model.
func (x *exec) eval(t *term.Term) uint64 {
	if x.st.ev == nil {
		x.st.ev = term.NewEvaluator(x.st.model)
	}
	return x.st.ev.Eval(t)
}

// pickNext selects a goroutine to run; false if nothing can run (deadlock).
func (x *exec) pickNext() bool {
	st := x.st
	for {
		var cand []int
		n := len(st.gs)
		for k := 1; k <= n; k++ {
			i := (st.cur + k) % n
			g := st.gs[i]
			if g.status != gDone && g.w.kind != wQuiesce && x.ready(g) {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			for i, g := range st.gs {
				if g.status == gBlocked && g.w.kind == wQuiesce {
					x.switchTo(i)
					g.woken = true // consumed by the Wait intrinsic
					return true
				}
			}
			if !x.advanceTime() {
				return false
			}
			continue
		}
		k := 0
		if st.inter && len(cand) > 1 {
			v := x.varFor("sched", 8)
			if _, ok := st.ranges[v]; !ok {
				st.addPC(term.Ult(v, term.Const(8, uint64(len(cand)))), x)
				st.ranges[v] = rng{0, uint64(len(cand)) - 1}
			}
			k = int(x.mustInt(v))
			x.commitVar("sched", v)
		}
		x.switchTo(cand[k])
		return true
	}
}

func (x *exec) ready(g *Goroutine) bool {
	switch g.status {
	case gRun:
		return true
	case gDone:
		return false
	}
	if g.woken {
		return true
	}
	w := &g.w
	switch w.kind {
	case wMutex:
		return x.cellInt(w.p, 0) == 0
	case wWLock:
		return x.cellInt(w.p, 0) == 0
	case wRLock:
		v := int32(x.cellInt(w.p, 0))
		return v >= 0 && x.cellInt(w.p, 1) == 0
	case wWG:
		return x.cellInt(w.p, 0) == 0
	case wCond:
		return uint64(w.ch) < x.cellInt(w.p, 2)
	case wRecv:
		return x.canRecv(w.ch, g)
	case wSend:
		return x.canSend(w.ch, g)
	case wSelect:
		for _, c := range w.sel {
			if c.ch == 0 {
				continue
			}
			if c.send && x.canSend(c.ch, g) || !c.send && x.canRecv(c.ch, g) {
				return true
			}
		}
	}
	return false
}

// run executes st until the path ends. Forked siblings go to the queue.
func (x *exec) run(st *State) {
	x.st = st
	for {
		r := x.runSome()
		if r {
			return
		}
	}
}

// runSome executes until a control signal; true when the path is finished.
func (x *exec) runSome() (done bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case forkReq:
			done = x.fork(r.c)
		case reSched:
			done = false
		case blockReq:
			x.g.status = gBlocked
			x.g.w = r.w
			done = false
		case goPanic:
			if x.lenient {
				done = !x.skipPoison(r.msg)
				return
			}
			x.startPanic(r)
			done = false
		case unsupported:
			if x.lenient {
				done = !x.skipPoison(r.msg)
				return
			}
			x.finish("unsupported", r.msg+" at "+x.where())
			done = true
		case pathEnd:
			x.finish(r.why, "")
			done = true
		default:
			if x.m != nil && x.m.Debug {
				fmt.Println(r, string(debug.Stack()))
			}
			x.finish("unsupported", fmt.Sprintf("engine error: %v at %s [%s]", r, x.where(), shortStack()))
			done = true
		}
	}()
	st := x.st
	for {
		x.g = st.gs[st.cur]
		g := x.g
		if g.status != gRun {
			if st.gs[0].status == gDone {
				panic(pathEnd{"done"})
			}
			if !x.pickNext() {
				x.deadlock()
				return true
			}
			continue
		}
		if len(g.frames) == 0 {
			g.status = gDone
			if st.cur == 0 {
				panic(pathEnd{"done"})
			}
			continue
		}
		x.f = g.frames[len(g.frames)-1]
		if x.f.unwind != nil {
			if x.unwindStep() {
				return true
			}
			continue
		}
		x.step()
	}
}

func shortStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range s {
		if strings.Contains(l, "/engine/sym/") || strings.Contains(l, "/engine/term/") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if j := strings.Index(l, " +"); j > 0 {
				l = l[:j]
			}
			out = append(out, l)
		}
	}
	if len(out) > 10 {
		out = out[:10]
	}
	return strings.Join(out, " < ")
}

func (x *exec) where() string {
	if x.f == nil {
		return "?"
	}
	pos := ""
	for i := len(x.g.frames) - 1; i >= 0 && i >= len(x.g.frames)-6; i-- {
		f := x.g.frames[i]
		p := token.NoPos
		if f.block < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.block].instrs) {
			p = f.fn.blocks[f.block].instrs[f.pc].ins.Pos()
		}
		l := ""
		if p.IsValid() {
			pp := f.fn.fn.Prog.Fset.Position(p)
			fn := pp.Filename
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			l = fmt.Sprintf("(%s:%d)", fn, pp.Line)
		}
		pos += f.fn.name + l + " < "
	}
	return strings.TrimSuffix(pos, " < ")
}

// skipPoison is used by best-effort initialisers: the failed instruction yields poison.
func (x *exec) skipPoison(msg string) bool {
	g := x.g
	if len(g.frames) == 0 {
		return false
	}
	nested := len(g.frames) > 1
	dst := -1
	if nested {
		dst = g.frames[1].dst
	}
	g.frames = g.frames[:1]
	f := g.frames[0]
	f.unwind = nil
	g.status = gRun
	x.f = f
	if !nested {
		ci := &f.fn.blocks[f.block].instrs[f.pc]
		switch ci.ins.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
			return false
		}
		dst = ci.dst
		f.pc++
	}
	if dst >= 0 {
		f.regs[dst] = Poison{msg}
	}
	return true
}

func (x *exec) push(fn *cfunc, args []Value, bind []Value, dst int) *Frame {
	if len(x.g.frames) > 2000 {
		unsup("call depth")
	}
	if !fn.seen.Load() {
		fn.seen.Store(true)
	}
	f := &Frame{fn: fn, regs: make([]Value, fn.nregs), dst: dst}
	copy(f.regs, args)
	copy(f.regs[len(fn.fn.Params):], bind)
	x.g.frames = append(x.g.frames, f)
	return f
}

func (x *exec) jump(succ int) {
	f := x.f
	b := f.fn.fn.Blocks[f.block]
	to := b.Succs[succ]
	edge := 0
	// which predecessor edge? (duplicates carry equal phi values only if the same edge index order)
	for i, p := range to.Preds {
		if p == b {
			edge = i
			if succ == 1 && b.Succs[0] == b.Succs[1] {
				continue
			}
			break
		}
	}
	cb := &f.fn.blocks[to.Index]
	if cb.nphi > 0 {
		vals := make([]Value, cb.nphi)
		for i := 0; i < cb.nphi; i++ {
			vals[i] = x.opVal(&cb.instrs[i].ops[edge])
		}
		for i := 0; i < cb.nphi; i++ {
			f.regs[cb.instrs[i].dst] = vals[i]
		}
	}
	f.block = to.Index
	f.pc = cb.nphi
}

func (x *exec) step() {
	f := x.f
	st := x.st
	ci := &f.fn.blocks[f.block].instrs[f.pc]
	x.ci = ci
	st.steps++
	x.steps++
	if st.steps > st.maxStep {
		panic(pathEnd{"steplimit"})
	}
	if x.steps&0xfff == 0 && x.m != nil && atomic.LoadInt32(&x.m.stop) != 0 {
		panic(pathEnd{"budget"})
	}
	switch ins := ci.ins.(type) {
	case *ssa.Jump:
		x.jump(0)
		return
	case *ssa.If:
		if x.tryRegion(x.tv(0)) {
			return
		}
		if x.decide(x.tv(0)) {
			x.jump(0)
		} else {
			x.jump(1)
		}
		return
	case *ssa.Return:
		x.doReturn()
		return
	case *ssa.Call:
		x.doCall(&ins.Call, ci.dst)
		return
	case *ssa.Go:
		x.visible()
		fn, inv, args := x.resolve(&ins.Call)
		x.spawn(fn, inv, args)
	case *ssa.Defer:
		if len(ci.ops) > 0 && ins.DeferStack != nil {
			unsup("defer in range-over-func")
		}
		fn, inv, args := x.resolve(&ins.Call)
		f.defers = append(f.defers, deferred{fn, inv, args})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			x.invoke(d.fn, d.inv, d.args, -1, nil) // may restart: pop afterwards
			f.defers = f.defers[:n-1]
			x.g.schedDone = false
			return
		}
	case *ssa.Panic:
		v := x.iface(x.val(0))
		panic(goPanic{v, x.describe(v)})
	case *ssa.UnOp:
		x.unop(ins)
	case *ssa.BinOp:
		x.set(x.binop(ins.Op, ins.X.Type(), ins.Y.Type(), x.val(0), x.val(1)))
	case *ssa.Store:
		p := x.ptr(x.val(0))
		x.store(p, x.val(1), ins.Val.Type())
	case *ssa.FieldAddr:
		p := x.ptr(x.val(0))
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		p.off += ci.aux
		x.set(p)
	case *ssa.Field:
		a, ok := x.val(0).(Agg)
		if !ok {
			unsup("field of %T", x.val(0))
		}
		t := ins.Type()
		if isAgg(t) {
			x.set(a[ci.aux : ci.aux+cellsOf(t) : ci.aux+cellsOf(t)])
		} else {
			x.set(a[ci.aux])
		}
	case *ssa.IndexAddr:
		x.set(x.indexAddr(ins))
	case *ssa.Index:
		x.set(x.index(ins))
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		o := &Object{cells: append([]Value(nil), zeroCells(t)...)}
		x.set(Ptr{obj: x.addObj(o)})
	case *ssa.MakeSlice:
		x.set(x.makeSlice(under(ins.Type()).(*types.Slice).Elem(), x.idx64(0, ins.Len.Type()), x.idx64(1, ins.Cap.Type())))
	case *ssa.MakeMap:
		x.set(MapRef{x.addObj(&Object{m: &mapData{}})})
	case *ssa.MakeChan:
		n := x.mustLen(x.idx64(0, ins.Size.Type()))
		if n < 0 {
			x.rtPanic("makechan: size out of range")
		}
		x.set(ChanRef{x.addObj(&Object{ch: &chanData{cap: n}})})
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		b := make([]Value, len(ins.Bindings))
		for i := range b {
			b[i] = x.val(i + 1)
		}
		x.set(&Closure{fn: fn, bind: b})
	case *ssa.MakeInterface:
		x.set(Iface{ins.X.Type(), x.val(0)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		x.set(x.val(0))
	case *ssa.Convert:
		x.set(x.convert(ins.X.Type(), ins.Type(), x.val(0)))
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		s := x.slice(x.val(0))
		n := int(under(under(ins.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if s.len < n {
			x.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
		}
		x.set(Ptr{obj: s.obj, off: s.off})
	case *ssa.Slice:
		x.set(x.doSlice(ins))
	case *ssa.TypeAssert:
		x.set(x.typeAssert(ins))
	case *ssa.Extract:
		t, ok := x.val(0).(Tuple)
		if !ok {
			if p, isP := x.val(0).(Poison); isP {
				x.set(p)
				break
			}
			unsup("extract of %T", x.val(0))
		}
		x.set(t[ins.Index])
	case *ssa.Lookup:
		x.set(x.lookup(ins))
	case *ssa.MapUpdate:
		mt := under(ins.Map.Type()).(*types.Map)
		x.mapUpdate(x.val(0), x.val(1), x.val(2), mt.Key())
	case *ssa.Range:
		x.set(x.rangeInit(ins))
	case *ssa.Next:
		x.set(x.rangeNext(ins))
	case *ssa.Send:
		x.visible()
		x.doSend()
	case *ssa.Select:
		x.visible()
		x.doSelect(ins)
	case *ssa.Phi:
		panic("phi")
	default:
		unsup("instruction %T", ins)
	}
	f.pc++
	x.g.schedDone = false
}

func (x *exec) spawn(fn *Closure, inv *ssa.Function, args []Value) {
	st := x.st
	if len(st.gs) > 2000 {
		unsup("too many goroutines")
	}
	g := &Goroutine{id: len(st.gs)}
	if st.inter {
		g.vc = x.forkVC(g.id)
	}
	st.gs = append(st.gs, g)
	sg, sf := x.g, x.f
	x.g = g
	defer func() { x.g, x.f = sg, sf }()
	x.invoke(fn, inv, args, -1, nil)
}

// resolve evaluates callee and arguments of a call.
func (x *exec) resolve(c *ssa.CallCommon) (*Closure, *ssa.Function, []Value) {
	ops := x.ci.ops
	if c.IsInvoke() {
		iv := x.iface(x.opVal(&ops[0]))
		if iv.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := x.p.method(iv.t, c.Method)
		if fn == nil {
			unsup("no method %s on %s", c.Method.Name(), iv.t)
		}
		args := make([]Value, 1+len(c.Args))
		args[0] = iv.v
		for i := range c.Args {
			args[i+1] = x.opVal(&ops[i+1])
		}
		return nil, fn, args
	}
	args := make([]Value, len(c.Args))
	for i := range c.Args {
		args[i] = x.opVal(&ops[i+1])
	}
	switch v := x.opVal(&ops[0]).(type) {
	case *Closure:
		return v, nil, args
	case Poison:
		unsup("call of an uninitialised function (%s)", v.Why)
	}
	unsup("call of %T", x.opVal(&ops[0]))
	return nil, nil, nil
}

func (x *exec) doCall(c *ssa.CallCommon, dst int) {
	fn, inv, args := x.resolve(c)
	if fn != nil && fn.blt != nil {
		v := x.builtin(fn.blt, c, args)
		x.f.regs[dst] = v
		x.f.pc++
		x.g.schedDone = false
		return
	}
	f := x.f
	r, pushed := x.invoke(fn, inv, args, dst, f)
	if !pushed {
		f.regs[dst] = r
		f.pc++
	}
	x.g.schedDone = false
}

// invoke calls a function value; intrinsics run inline. adv: frame whose pc is advanced before a push.
func (x *exec) invoke(c *Closure, inv *ssa.Function, args []Value, dst int, adv *Frame) (Value, bool) {
	fn := inv
	var bind []Value
	if fn == nil {
		if c == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if c.blt != nil {
			return x.builtin(c.blt, nil, args), false
		}
		fn, bind = c.fn, c.bind
	}
	cf := x.p.compile(fn)
	if cf.name == "(*sync.Pool).Get" {
		if off := poolNewOff(fn); off >= 0 {
			return x.poolGet(x.ptr(args[0]), off, dst, adv)
		}
	}
	if x.f != nil && x.p.redir[cf.name] != nil && strings.HasPrefix(x.f.fn.fn.RelString(nil), modelPkg+".") {
		cf = x.p.compileRaw(fn)
	}
	if cf.in != nil {
		if !cf.seen.Load() {
			cf.seen.Store(true)
		}
		if x.spec != nil && !strings.HasPrefix(cf.name, "math/bits.") {
			panic(specAbort{})
		}
		r := cf.in(x, args)
		if r != declined {
			return r, false
		}
		cf = x.p.compileSrc(fn)
	}
	if len(cf.blocks) == 0 {
		unsup("function without body: %s", cf.name)
	}
	if x.st.base && fn.Synthetic == "package initializer" {
		return nil, false
	}
	if adv != nil {
		adv.pc++
	}
	x.push(cf, args, bind, dst)
	return nil, true
}

func (x *exec) doReturn() {
	f := x.f
	var r Value
	switch n := len(x.ci.ops); n {
	case 0:
	case 1:
		r = x.val(0)
	default:
		t := make(Tuple, n)
		for i := range t {
			t[i] = x.val(i)
		}
		r = t
	}
	x.popFrame(f, r)
}

func (x *exec) popFrame(f *Frame, r Value) {
	g := x.g
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.status = gDone
		return
	}
	caller := g.frames[len(g.frames)-1]
	if f.dst >= 0 {
		caller.regs[f.dst] = r
	}
}

// startPanic begins unwinding the current goroutine.
func (x *exec) startPanic(p goPanic) {
	if len(x.g.frames) == 0 {
		// a panic in the callee resolution of a goroutine start
		x.finish("panic", p.msg)
		x.g.status = gDone
		return
	}
	f := x.g.frames[len(x.g.frames)-1]
	// a deferred intrinsic that panicked must not run again
	if n := len(f.defers); n > 0 && x.inDefer(f) {
		f.defers = f.defers[:n-1]
	}
	f.unwind = &panicRec{val: p.v, msg: p.msg, site: x.where()}
	x.g.schedDone = false
}

// unwindStep performs one step of panic unwinding; true when the path ended.
func (x *exec) unwindStep() bool {
	f := x.f
	g := x.g
	pr := f.unwind
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		_, pushed := x.invoke(d.fn, d.inv, d.args, -1, nil)
		f.defers = f.defers[:n-1]
		x.g.schedDone = false
		if pushed && !pr.recovered {
			g.frames[len(g.frames)-1].deferFor = pr
		}
		return false
	}
	if pr.recovered {
		f.unwind = nil
		rb := f.fn.fn.Recover
		if rb == nil {
			x.popFrame(f, zeroVal(resultType(f.fn.fn)))
			return false
		}
		f.block = rb.Index
		f.pc = f.fn.blocks[rb.Index].nphi
		return false
	}
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		x.finish("panic", pr.msg+" at "+pr.site)
		return true
	}
	up := g.frames[len(g.frames)-1]
	up.unwind = pr
	return false
}

func resultType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (x *exec) describe(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch s := v.v.(type) {
	case Str:
		if types.Identical(v.t, x.p.rtErr) {
			return "runtime error: " + s.S
		}
		return s.S
	case *term.Term:
		if s.IsConst() {
			return fmt.Sprintf("%v(%d)", v.t, s.Val)
		}
	}
	return v.t.String()
}

func (x *exec) inDefer(f *Frame) bool {
	if f.unwind != nil {
		return true
	}
	if f.block < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.block].instrs) {
		_, ok := f.fn.blocks[f.block].instrs[f.pc].ins.(*ssa.RunDefers)
		return ok
	}
	return false
}

// poolNewOff is the cell offset of sync.Pool's New field.
func poolNewOff(fn *ssa.Function) int {
	pt, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	st, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			return fieldOff(pt.Elem(), i)
		}
	}
	return -1
}
