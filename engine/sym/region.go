package sym

import (
	"go/token"
	"go/types"
	"os"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

// A region is a small acyclic piece of a function's control flow that starts at a symbolic
// branch, computes values only, and either meets again in one block or returns on every way.
// It is executed on all its ways at once: values that differ become if-then-else terms, so a
// branch that merely selects a value does not fork the path; stores take effect under the
// condition of their way. Where the execution of a region is not plain (it would panic, fork, or
// merge something that is not a term) the branch is decided by forking as usual.
type region struct {
	blocks []int // in topological order, without the branching block
	join   int   // -1: every way returns
	fails  atomic.Int32
	hits   atomic.Int32
}

const maxRegion = 10

var noRegions = os.Getenv("VSYM_NOREGION") != ""

type specAbort struct{}

// spec is the execution of a region: the condition of the current way and the cells changed.
type spec struct {
	guard *term.Term
	lits  map[*term.Term]bool
	undo  []undoCell
	calls int
}

type undoCell struct {
	obj, off int
	v        Value
}

func (s *spec) setGuard(g *term.Term) {
	s.guard = g
	s.lits = map[*term.Term]bool{}
	var add func(t *term.Term)
	add = func(t *term.Term) {
		switch t.Op {
		case term.OBAnd:
			add(t.A[0])
			add(t.A[1])
		case term.OBNot:
			s.lits[t.A[0]] = false
		default:
			s.lits[t] = true
		}
	}
	add(g)
}

// under is t on the current way.
func (s *spec) under(t *term.Term) *term.Term {
	for t.Op == term.OIte {
		c := t.A[0]
		if v, ok := s.lits[c]; ok {
			if v {
				t = t.A[1]
			} else {
				t = t.A[2]
			}
			continue
		}
		break
	}
	return t
}

// specStore is a store under the condition of the current way.
func (x *exec) specStore(p Ptr, v Value) {
	s := x.spec
	if x.st.inter && !x.touched(p, true) {
		panic(specAbort{})
	}
	nv, isT := v.(*term.Term)
	o := x.wobj(p.obj)
	put := func(off int, c *term.Term) {
		old := o.cells[off]
		if sameVal(old, v) {
			return
		}
		ot, ok := old.(*term.Term)
		if !ok || !isT || ot.W != nv.W {
			panic(specAbort{})
		}
		s.undo = append(s.undo, undoCell{p.obj, off, old})
		o.cells[off] = term.Ite(term.BAnd(s.guard, c), nv, ot)
	}
	if p.sym == nil {
		put(p.off, term.True)
		return
	}
	i := p.sym
	for k := 0; k < i.n; k++ {
		if i.idx.UMax() < uint64(k) || i.idx.UMin() > uint64(k) {
			continue
		}
		put(p.off+k*i.stride, term.Eq(i.idx, c64(k)))
	}
}

// touched tells whether the goroutine has accessed what p points to since it last synchronised,
// so that accessing it again does not matter for races.
func (x *exec) touched(p Ptr, write bool) bool {
	if len(x.st.gs) == 1 {
		return true
	}
	if p.sym != nil || p.obj == 0 {
		return false
	}
	o, off, _ := x.shadowOf(p, 1)
	if off >= len(o.shad) {
		return false
	}
	s, now := &o.shad[off], x.g.vc.get(x.g.id)
	return s.wg-1 == x.g.id && s.wc == now || !write && s.reads.get(x.g.id) == now
}

func (x *exec) specUndo(to int) {
	s := x.spec
	for i := len(s.undo) - 1; i >= to; i-- {
		u := s.undo[i]
		x.wobj(u.obj).cells[u.off] = u.v
	}
	s.undo = s.undo[:to]
}

// pureFn tells whether fn only computes and stores.
func pureFn(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || len(fn.Blocks) > 24 || len(fn.FreeVars) > 0 || fn.Recover != nil {
		return false
	}
	for _, b := range fn.Blocks {
		if !pureBlockD(b, false) {
			return false
		}
	}
	return true
}

func pureBlock(b *ssa.BasicBlock) bool { return pureBlockD(b, true) }

func pureBlockD(b *ssa.BasicBlock, calls bool) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.BinOp, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.Phi, *ssa.Store, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef:
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			for _, t := range []types.Type{i.X.Type(), i.Type()} {
				b, ok := under(t).(*types.Basic)
				if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
			}
		case *ssa.Lookup:
			if b, ok := under(i.X.Type()).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return false
			}
		case *ssa.Call:
			if f := i.Call.StaticCallee(); f != nil && calls {
				if !pureFn(f) {
					return false
				}
				continue
			}
			b, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" && b.Name() != "min" && b.Name() != "max" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// findRegion returns the smallest region of the branch that ends b, or nil.
func findRegion(b *ssa.BasicBlock) *region {
	in := map[*ssa.BasicBlock]bool{b: true}
	if b.Succs[0] == b.Succs[1] {
		return nil
	}
	var order []*ssa.BasicBlock
	frontier := func() (f []*ssa.BasicBlock, ret bool) {
		seen := map[*ssa.BasicBlock]bool{}
		for _, x := range append([]*ssa.BasicBlock{b}, order...) {
			if len(x.Succs) == 0 {
				ret = true
			}
			for _, s := range x.Succs {
				if !in[s] && !seen[s] {
					seen[s] = true
					f = append(f, s)
				}
			}
		}
		return
	}
	for len(order) < maxRegion {
		f, _ := frontier()
		var next *ssa.BasicBlock
	search:
		for _, s := range f {
			for _, p := range s.Preds {
				if !in[p] {
					continue search
				}
			}
			if len(s.Succs) == 2 && s.Succs[0] == s.Succs[1] || !pureBlock(s) {
				continue
			}
			for _, t := range s.Succs {
				if in[t] {
					continue search
				}
			}
			next = s
			break
		}
		if next == nil {
			return nil
		}
		in[next] = true
		order = append(order, next)
		f, ret := frontier()
		if len(f) == 1 && !ret || len(f) == 0 && ret {
			r := &region{join: -1}
			if len(f) == 1 {
				r.join = f[0].Index
			}
			for _, o := range order {
				r.blocks = append(r.blocks, o.Index)
			}
			return r
		}
	}
	return nil
}

func (fn *cfunc) region(b int) *region {
	fn.regOnce.Do(func() {
		fn.regions = make([]*region, len(fn.blocks))
		for i, sb := range fn.fn.Blocks {
			if k := len(sb.Instrs); k > 0 {
				if _, ok := sb.Instrs[k-1].(*ssa.If); ok {
					fn.regions[i] = findRegion(sb)
				}
			}
		}
	})
	return fn.regions[b]
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *term.Term, Ptr, MapRef, ChanRef, Slice, *Closure, float64:
		return a == b
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.t == nil) == (y.t == nil) && (x.t == nil || types.Identical(x.t, y.t) && sameVal(x.v, y.v))
	case Str:
		y, ok := b.(Str)
		return ok && x.B == nil && y.B == nil && !x.Opq && !y.Opq && x.S == y.S
	}
	return false
}

type guarded struct {
	g *term.Term
	v Value
}

// mergeVals selects among the values of mutually exclusive ways.
func mergeVals(l []guarded) Value {
	r := l[len(l)-1].v
	for i := len(l) - 2; i >= 0; i-- {
		if sameVal(l[i].v, r) {
			continue
		}
		a, ok1 := l[i].v.(*term.Term)
		b, ok2 := r.(*term.Term)
		if !ok1 || !ok2 || a.W != b.W {
			panic(specAbort{})
		}
		r = term.Ite(l[i].g, a, b)
	}
	return r
}

// tryRegion executes the region of the current branch on condition c, if it has one.
func (x *exec) tryRegion(c *term.Term) (done bool) {
	if noRegions || x.lenient {
		return false
	}
	f := x.f
	rg := f.fn.region(f.block)
	if rg == nil || rg.fails.Load() > 16 && rg.hits.Load() == 0 {
		return false
	}
	if c.IsConst() {
		return false
	}
	if _, ok := x.st.known[c]; ok {
		return false
	}
	if c.Op == term.OBNot {
		if _, ok := x.st.known[c.A[0]]; ok {
			return false
		}
	}
	block, pc, ci, steps, frames := f.block, f.pc, x.ci, x.st.steps, len(x.g.frames)
	outer := x.spec
	outerGuard, mark := term.True, 0
	if outer == nil {
		x.spec = &spec{}
	} else {
		outerGuard, mark = outer.guard, len(outer.undo)
	}
	defer func() {
		r := recover()
		if r != nil {
			switch r.(type) {
			case specAbort, forkReq, goPanic, unsupported, blockReq:
			default:
				x.spec = outer
				panic(r)
			}
			x.specUndo(mark)
			x.f, x.g.frames = f, x.g.frames[:frames]
			f.block, f.pc, x.ci, x.st.steps = block, pc, ci, steps
			rg.fails.Add(1)
			done = false
		}
		x.spec = outer
		if outer != nil {
			outer.setGuard(outerGuard)
		}
	}()
	type edge struct{ from, to int }
	eg := map[edge]*term.Term{}
	bs := f.fn.fn.Blocks
	branch := func(b *ssa.BasicBlock, g, c *term.Term) {
		eg[edge{b.Index, b.Succs[0].Index}] = term.BAnd(g, c)
		eg[edge{b.Index, b.Succs[1].Index}] = term.BAnd(g, term.BNot(c))
	}
	branch(bs[block], term.True, c)
	incoming := func(b int) (g *term.Term, phis []Value) {
		g = term.False
		cb := &f.fn.blocks[b]
		lists := make([][]guarded, cb.nphi)
		for k, p := range bs[b].Preds {
			e, ok := eg[edge{p.Index, b}]
			if !ok || e.IsFalse() {
				continue
			}
			g = term.BOr(g, e)
			for i := range lists {
				lists[i] = append(lists[i], guarded{e, x.opVal(&cb.instrs[i].ops[k])})
			}
		}
		if g.IsFalse() {
			return g, nil
		}
		for _, l := range lists {
			phis = append(phis, mergeVals(l))
		}
		return g, phis
	}
	var rets []guarded
	nres := 0
	for _, b := range rg.blocks {
		g, phis := incoming(b)
		if g.IsFalse() {
			continue
		}
		cb := &f.fn.blocks[b]
		for i, p := range phis {
			f.regs[cb.instrs[i].dst] = p
		}
		f.block, f.pc = b, cb.nphi
		x.spec.setGuard(term.BAnd(outerGuard, g))
		for f.block == b {
			x.ci = &cb.instrs[f.pc]
			switch x.ci.ins.(type) {
			case *ssa.Jump:
				eg[edge{b, bs[b].Succs[0].Index}] = g
			case *ssa.If:
				branch(bs[b], g, x.tv(0))
			case *ssa.Return:
				nres = len(x.ci.ops)
				t := make(Tuple, nres)
				for i := range t {
					t[i] = x.val(i)
				}
				rets = append(rets, guarded{g, t})
			default:
				k := f.pc
				x.step()
				for n := 0; len(x.g.frames) > frames; n++ {
					if n > 2000 || len(x.g.frames) > frames+3 {
						panic(specAbort{})
					}
					x.f = x.g.frames[len(x.g.frames)-1]
					x.step()
				}
				x.f = f
				if x.f != f || f.block != b || f.pc != k+1 {
					panic(specAbort{})
				}
				continue
			}
			break
		}
	}
	if rg.join < 0 {
		t := make(Tuple, nres)
		for i := range t {
			l := make([]guarded, len(rets))
			for j, r := range rets {
				l[j] = guarded{r.g, r.v.(Tuple)[i]}
			}
			t[i] = mergeVals(l)
		}
		var r Value
		switch nres {
		case 0:
		case 1:
			r = t[0]
		default:
			r = t
		}
		rg.hits.Add(1)
		x.popFrame(f, r)
		return true
	}
	_, phis := incoming(rg.join)
	cb := &f.fn.blocks[rg.join]
	for i, p := range phis {
		f.regs[cb.instrs[i].dst] = p
	}
	f.block, f.pc = rg.join, cb.nphi
	rg.hits.Add(1)
	return true
}
