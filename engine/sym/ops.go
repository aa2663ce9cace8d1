package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

func c64(n int) *term.Term { return term.Const(64, uint64(int64(n))) }

// idx64 returns operand i extended to 64 bits according to its type.
func (x *exec) idx64(i int, t types.Type) *term.Term {
	return x.ext64(x.tv(i), t)
}

func (x *exec) ext64(v *term.Term, t types.Type) *term.Term {
	_, signed, _ := intInfo(t)
	return term.Resize(v, 64, signed)
}

// checkIndex panics (Go-level) when idx is outside [0,n).
func (x *exec) checkIndex(idx *term.Term, n int) {
	if !x.decide(term.Ult(idx, c64(n))) {
		s := "?"
		if idx.IsConst() {
			s = fmt.Sprint(int64(idx.Val))
		}
		x.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", s, n))
	}
}

func (x *exec) indexAddr(ins *ssa.IndexAddr) Value {
	idx := x.idx64(1, ins.Index.Type())
	es := x.ci.aux
	var base Ptr
	var n int
	switch v := x.val(0).(type) {
	case Slice:
		base, n = Ptr{obj: v.obj, off: v.off}, v.len
	case Ptr:
		if v.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = v
		n = int(under(under(ins.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
	case Poison:
		unsup("index of an uninitialised value (%s)", v.Why)
	default:
		unsup("indexaddr of %T", v)
	}
	x.checkIndex(idx, n)
	return x.elemPtr(base, idx, es, n)
}

func (x *exec) elemPtr(base Ptr, idx *term.Term, es, n int) Ptr {
	if !idx.IsConst() && (base.sym != nil || n > 4096) {
		idx = c64(int(x.mustInt(idx)))
	}
	if idx.IsConst() {
		base.off += int(idx.Val) * es
		return base
	}
	base.sym = &symOff{idx, es, n}
	return base
}

func (x *exec) index(ins *ssa.Index) Value {
	idx := x.idx64(1, ins.Index.Type())
	switch v := x.val(0).(type) {
	case Str:
		if v.Opq {
			unsup("content of a formatted string")
		}
		n := v.Len()
		x.checkIndex(idx, n)
		if idx.IsConst() {
			return v.At(int(idx.Val))
		}
		vals := make([]*term.Term, n)
		for i := range vals {
			vals[i] = v.At(i)
		}
		return x.mux(idx, vals)
	case Agg:
		at := under(ins.X.Type()).(*types.Array)
		n := int(at.Len())
		es := cellsOf(at.Elem())
		x.checkIndex(idx, n)
		if idx.IsConst() {
			i := int(idx.Val) * es
			if isAgg(at.Elem()) {
				return v[i : i+es : i+es]
			}
			return v[i]
		}
		if es == 1 && !isAgg(at.Elem()) {
			vals := make([]*term.Term, n)
			for i := range vals {
				t, ok := v[i].(*term.Term)
				if !ok {
					vals = nil
					break
				}
				vals[i] = t
			}
			if vals != nil {
				return x.mux(idx, vals)
			}
		}
		i := int(x.mustInt(idx)) * es
		if isAgg(at.Elem()) {
			return v[i : i+es : i+es]
		}
		return v[i]
	case Poison:
		unsup("index of an uninitialised value (%s)", v.Why)
	}
	unsup("index of %T", x.val(0))
	return nil
}

// mux selects vals[idx] (idx < len(vals) is known on the path).
func (x *exec) mux(idx *term.Term, vals []*term.Term) *term.Term {
	n := len(vals)
	same := true
	for _, v := range vals[1:] {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same {
		return vals[0]
	}
	nb := uint8(0)
	for 1<<nb < n {
		nb++
	}
	if m := idx.UMax(); m < uint64(n) {
		// the range of the index may need fewer bits
		for nb > 0 && uint64(1)<<(nb-1) > m {
			nb--
		}
	}
	bit := make([]*term.Term, nb)
	for i := range bit {
		bit[i] = term.Extract(idx, uint64(i), 1)
	}
	if n == 1<<nb && n >= 16 {
		if t := affine(bit, vals); t != nil {
			return t
		}
	}
	one := term.Const(1, 1)
	var rec func(k int, lo int) *term.Term
	rec = func(k, lo int) *term.Term {
		if lo >= n {
			return nil
		}
		if k < 0 {
			return vals[lo]
		}
		a := rec(k-1, lo)
		b := rec(k-1, lo|1<<k)
		if b == nil || a == b {
			return a
		}
		return term.Ite(term.Eq(bit[k], one), b, a)
	}
	return rec(int(nb)-1, 0)
}

// affine recognises tables that are affine over GF(2) in the index bits.
func affine(bit []*term.Term, vals []*term.Term) *term.Term {
	for _, v := range vals {
		if !v.IsConst() || v.W == 0 {
			return nil
		}
	}
	w := vals[0].W
	c := vals[0].Val
	basis := make([]uint64, len(bit))
	for k := range bit {
		basis[k] = vals[1<<k].Val ^ c
	}
	for i, v := range vals {
		e := c
		for k := range basis {
			if i>>k&1 == 1 {
				e ^= basis[k]
			}
		}
		if e != v.Val {
			return nil
		}
	}
	r := term.Const(w, c)
	for k, b := range basis {
		r = term.Xor(r, term.And(term.SExt(bit[k], w), term.Const(w, b)))
	}
	return r
}

func (x *exec) nilCheck(p Ptr) {
	if p.obj == 0 {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
}

func (x *exec) load(p Ptr, t types.Type) Value {
	if x.spec != nil {
		if x.st.inter && (isAgg(t) || !x.touched(p, false)) {
			panic(specAbort{})
		}
		v := x.load1(p, t)
		if tv, ok := v.(*term.Term); ok {
			return x.spec.under(tv)
		}
		return v
	}
	return x.load1(p, t)
}

func (x *exec) load1(p Ptr, t types.Type) Value {
	x.nilCheck(p)
	o := x.obj(p.obj)
	if isAgg(t) {
		n := cellsOf(t)
		if p.sym != nil {
			k := int(x.mustInt(p.sym.idx))
			p.off += k * p.sym.stride
			p.sym = nil
		}
		if x.st.inter {
			x.raceRead(p, n)
		}
		return Agg(append([]Value(nil), o.cells[p.off:p.off+n]...))
	}
	if p.sym != nil {
		s := p.sym
		vals := make([]*term.Term, s.n)
		for i := range vals {
			tv, ok := o.cells[p.off+i*s.stride].(*term.Term)
			if !ok {
				k := int(x.mustInt(s.idx))
				return o.cells[p.off+k*s.stride]
			}
			vals[i] = tv
		}
		if x.st.inter {
			for i := 0; i < s.n; i++ {
				x.raceRead(Ptr{obj: p.obj, off: p.off + i*s.stride}, 1)
			}
		}
		return x.mux(s.idx, vals)
	}
	if x.st.inter {
		x.raceRead(p, 1)
	}
	return o.cells[p.off]
}

func (x *exec) store(p Ptr, v Value, t types.Type) {
	x.nilCheck(p)
	if x.spec != nil {
		if isAgg(t) {
			panic(specAbort{})
		}
		x.specStore(p, v)
		return
	}
	if isAgg(t) {
		if p.sym != nil {
			k := int(x.mustInt(p.sym.idx))
			p.off += k * p.sym.stride
			p.sym = nil
		}
		a, ok := v.(Agg)
		if !ok {
			if _, isP := v.(Poison); isP {
				o := x.wobj(p.obj)
				for i := 0; i < cellsOf(t); i++ {
					o.cells[p.off+i] = v
				}
				return
			}
			unsup("store of %T as %s", v, t)
		}
		if x.st.inter {
			x.raceWrite(p, len(a))
		}
		copy(x.wobj(p.obj).cells[p.off:], a)
		return
	}
	if p.sym != nil {
		s := p.sym
		o := x.obj(p.obj)
		nv, ok := v.(*term.Term)
		if ok {
			for i := 0; i < s.n; i++ {
				if _, ok2 := o.cells[p.off+i*s.stride].(*term.Term); !ok2 {
					ok = false
				}
			}
		}
		if !ok {
			k := int(x.mustInt(s.idx))
			x.wobj(p.obj).cells[p.off+k*s.stride] = v
			return
		}
		if x.st.inter {
			for i := 0; i < s.n; i++ {
				x.raceWrite(Ptr{obj: p.obj, off: p.off + i*s.stride}, 1)
			}
		}
		o = x.wobj(p.obj)
		for i := 0; i < s.n; i++ {
			if s.idx.UMax() < uint64(i) || s.idx.UMin() > uint64(i) {
				continue
			}
			c := &o.cells[p.off+i*s.stride]
			*c = term.Ite(term.Eq(s.idx, c64(i)), nv, (*c).(*term.Term))
		}
		return
	}
	if x.st.inter {
		x.raceWrite(p, 1)
	}
	x.wobj(p.obj).cells[p.off] = v
}

// cellInt reads a concrete counter cell of a modelled sync object.
func (x *exec) cellInt(p Ptr, k int) uint64 {
	t, ok := x.obj(p.obj).cells[p.off+k].(*term.Term)
	if !ok || !t.IsConst() {
		unsup("modelled sync object has a non-constant state")
	}
	return t.Val
}
func (x *exec) setCellInt(p Ptr, k int, v int64) {
	o := x.wobj(p.obj)
	w := o.cells[p.off+k].(*term.Term).W
	o.cells[p.off+k] = term.Const(w, uint64(v))
}

func (x *exec) unop(ins *ssa.UnOp) {
	switch ins.Op {
	case token.MUL:
		x.set(x.load(x.ptr(x.val(0)), ins.Type()))
	case token.ARROW:
		x.visible()
		x.doRecv(ins)
	case token.NOT:
		x.set(term.BNot(x.tv(0)))
	case token.SUB:
		if f, ok := x.val(0).(float64); ok {
			x.set(-f)
			return
		}
		x.set(term.Neg(x.tv(0)))
	case token.XOR:
		x.set(term.Not(x.tv(0)))
	default:
		unsup("unop %s", ins.Op)
	}
}

func (x *exec) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	if p, ok := a.(Poison); ok {
		unsup("operand uninitialised (%s)", p.Why)
	}
	if p, ok := b.(Poison); ok {
		unsup("operand uninitialised (%s)", p.Why)
	}
	switch op {
	case token.EQL:
		return x.equal(a, b, tx)
	case token.NEQ:
		return term.BNot(x.equal(a, b, tx))
	}
	if fa, ok := a.(float64); ok {
		fb := b.(float64)
		f32 := under(tx).(*types.Basic).Kind() == types.Float32
		rnd := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(fa + fb)
		case token.SUB:
			return rnd(fa - fb)
		case token.MUL:
			return rnd(fa * fb)
		case token.QUO:
			return rnd(fa / fb)
		case token.LSS:
			return term.Bool(fa < fb)
		case token.LEQ:
			return term.Bool(fa <= fb)
		case token.GTR:
			return term.Bool(fa > fb)
		case token.GEQ:
			return term.Bool(fa >= fb)
		}
		unsup("float op %s", op)
	}
	if sa, ok := a.(Str); ok {
		return x.strop(op, sa, x.str(b))
	}
	ta, tb := x.term(a), x.term(b)
	w, signed, ok := intInfo(tx)
	if !ok {
		unsup("binop %s on %s", op, tx)
	}
	if w == 0 {
		switch op {
		case token.AND, token.LAND:
			return term.BAnd(ta, tb)
		case token.OR, token.LOR:
			return term.BOr(ta, tb)
		}
		unsup("bool op %s", op)
	}
	switch op {
	case token.ADD:
		return term.Add(ta, tb)
	case token.SUB:
		return term.Sub(ta, tb)
	case token.MUL:
		return term.Mul(ta, tb)
	case token.QUO, token.REM:
		if x.decide(term.Eq(tb, term.Const(w, 0))) {
			x.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return term.SDiv(ta, tb)
		case op == token.QUO:
			return term.UDiv(ta, tb)
		case signed:
			return term.SRem(ta, tb)
		default:
			return term.URem(ta, tb)
		}
	case token.AND:
		return term.And(ta, tb)
	case token.OR:
		return term.Or(ta, tb)
	case token.XOR:
		return term.Xor(ta, tb)
	case token.AND_NOT:
		return term.And(ta, term.Not(tb))
	case token.SHL, token.SHR:
		_, ss, _ := intInfo(ty)
		if ss && x.decide(term.Slt(tb, term.Const(tb.W, 0))) {
			x.rtPanic("negative shift amount")
		}
		var over *term.Term = term.False
		s := tb
		if tb.W > w {
			over = term.Ule(term.Const(tb.W, uint64(w)), tb)
			s = term.Extract(tb, 0, w)
		} else if tb.W < w {
			s = term.ZExt(tb, w)
		}
		var r, o *term.Term
		switch {
		case op == token.SHL:
			r, o = term.Shl(ta, s), term.Const(w, 0)
		case signed:
			r, o = term.AShr(ta, s), term.AShr(ta, term.Const(w, uint64(w-1)))
		default:
			r, o = term.LShr(ta, s), term.Const(w, 0)
		}
		return term.Ite(over, o, r)
	case token.LSS:
		if signed {
			return term.Slt(ta, tb)
		}
		return term.Ult(ta, tb)
	case token.LEQ:
		if signed {
			return term.Sle(ta, tb)
		}
		return term.Ule(ta, tb)
	case token.GTR:
		if signed {
			return term.Slt(tb, ta)
		}
		return term.Ult(tb, ta)
	case token.GEQ:
		if signed {
			return term.Sle(tb, ta)
		}
		return term.Ule(tb, ta)
	}
	unsup("binop %s", op)
	return nil
}

func strEq(a, b Str) *term.Term {
	if a.Opq || b.Opq {
		unsup("comparison of a formatted string")
	}
	if a.B == nil && b.B == nil {
		return term.Bool(a.S == b.S)
	}
	if a.Len() != b.Len() {
		return term.False
	}
	r := term.True
	for i := 0; i < a.Len(); i++ {
		r = term.BAnd(r, term.Eq(a.At(i), b.At(i)))
	}
	return r
}

func concat(a, b Str) Str {
	if a.Opq || b.Opq {
		return Str{S: a.S + b.S, Opq: true}
	}
	if a.B == nil && b.B == nil {
		return Str{S: a.S + b.S}
	}
	var r []*term.Term
	for i := 0; i < a.Len(); i++ {
		r = append(r, a.At(i))
	}
	for i := 0; i < b.Len(); i++ {
		r = append(r, b.At(i))
	}
	return mkStr(r)
}

func (x *exec) strop(op token.Token, a, b Str) Value {
	if op == token.ADD {
		return concat(a, b)
	}
	if a.B == nil && b.B == nil && !a.Opq && !b.Opq {
		switch op {
		case token.LSS:
			return term.Bool(a.S < b.S)
		case token.LEQ:
			return term.Bool(a.S <= b.S)
		case token.GTR:
			return term.Bool(a.S > b.S)
		case token.GEQ:
			return term.Bool(a.S >= b.S)
		}
	}
	unsup("string op %s on symbolic strings", op)
	return nil
}

// equal builds the term for Go's == on values of static type t.
func (x *exec) equal(a, b Value, t types.Type) *term.Term {
	if p, ok := a.(Poison); ok {
		unsup("comparison of an uninitialised value (%s)", p.Why)
	}
	if p, ok := b.(Poison); ok {
		unsup("comparison of an uninitialised value (%s)", p.Why)
	}
	switch va := a.(type) {
	case *term.Term:
		return term.Eq(va, x.term(b))
	case float64:
		return term.Bool(va == b.(float64))
	case Str:
		return strEq(va, x.str(b))
	case Ptr:
		vb := x.ptr(b)
		if va.sym != nil || vb.sym != nil {
			if va.obj != vb.obj {
				return term.False
			}
			unsup("comparison of symbolic pointers")
		}
		return term.Bool(va == vb)
	case Slice: // comparison with nil
		vb := x.slice(b)
		return term.Bool(va.obj == vb.obj && (va.obj == 0 || va == vb))
	case MapRef:
		return term.Bool(va == b.(MapRef))
	case ChanRef:
		return term.Bool(va == b.(ChanRef))
	case *Closure:
		vb, _ := b.(*Closure)
		if va != nil && vb != nil {
			unsup("comparison of functions")
		}
		return term.Bool(va == nil && vb == nil)
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			unsup("comparison of interface with %T", b)
		}
		if va.t == nil || vb.t == nil {
			return term.Bool(va.t == nil && vb.t == nil)
		}
		if !types.Identical(va.t, vb.t) {
			return term.False
		}
		if !types.Comparable(va.t) {
			x.rtPanic("comparing uncomparable type " + va.t.String())
		}
		return x.equal(va.v, vb.v, va.t)
	case Agg:
		vb := b.(Agg)
		r := term.True
		switch u := under(t).(type) {
		case *types.Struct:
			o := 0
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				n := cellsOf(ft)
				if u.Field(i).Name() != "_" {
					if isAgg(ft) {
						r = term.BAnd(r, x.equal(va[o:o+n], vb[o:o+n], ft))
					} else {
						r = term.BAnd(r, x.equal(va[o], vb[o], ft))
					}
				}
				o += n
			}
		case *types.Array:
			es := cellsOf(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				if isAgg(u.Elem()) {
					r = term.BAnd(r, x.equal(va[i*es:i*es+es], vb[i*es:i*es+es], u.Elem()))
				} else {
					r = term.BAnd(r, x.equal(va[i], vb[i], u.Elem()))
				}
			}
		}
		return r
	}
	unsup("comparison of %T", a)
	return nil
}

func (x *exec) convert(from, to types.Type, v Value) Value {
	if p, ok := v.(Poison); ok {
		return p
	}
	fu, tu := under(from), under(to)
	fw, fs, fi := intInfo(fu)
	tw, ts, ti := intInfo(tu)
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fb != nil && fb.Kind() == types.UnsafePointer && ti:
		unsup("unsafe.Pointer to uintptr")
	case tb != nil && tb.Kind() == types.UnsafePointer:
		if fi {
			unsup("uintptr to unsafe.Pointer")
		}
		return v
	case fb != nil && fb.Kind() == types.UnsafePointer:
		return v
	case fi && ti:
		_ = fw
		return term.Resize(x.term(v), tw, fs)
	case fi && tb != nil && tb.Info()&types.IsFloat != 0:
		t := x.term(v)
		var f float64
		if !t.IsConst() {
			unsup("symbolic integer to float")
		}
		if fs {
			f = float64(t.SVal())
		} else {
			f = float64(t.Val)
		}
		if tb.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case fb != nil && fb.Info()&types.IsFloat != 0:
		f := v.(float64)
		if ti {
			return f2i(f, tw, ts)
		}
		if tb != nil && tb.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	case tb != nil && tb.Info()&types.IsString != 0:
		if fi {
			t := x.term(v)
			if !t.IsConst() {
				unsup("symbolic rune to string")
			}
			return Str{S: string(rune(t.SVal()))}
		}
		if fb != nil {
			return v // string to string
		}
		s := x.slice(v)
		if isByte(fu.(*types.Slice).Elem()) {
			return mkStr(x.bytesOf(s))
		}
		var rs []rune
		for i := 0; i < s.len; i++ {
			t := x.term(x.obj(s.obj).cells[s.off+i])
			if !t.IsConst() {
				unsup("symbolic rune slice")
			}
			rs = append(rs, rune(t.SVal()))
		}
		return Str{S: string(rs)}
	case fb != nil && fb.Info()&types.IsString != 0:
		s := x.str(v)
		el := tu.(*types.Slice).Elem()
		if isByte(el) {
			if s.Opq {
				unsup("bytes of a formatted string")
			}
			n := s.Len()
			o := &Object{cells: make([]Value, n)}
			for i := range o.cells {
				o.cells[i] = s.At(i)
			}
			return Slice{x.addObj(o), 0, n, n}
		}
		if s.B != nil || s.Opq {
			unsup("symbolic string to runes")
		}
		rs := []rune(s.S)
		o := &Object{cells: make([]Value, len(rs))}
		for i := range rs {
			o.cells[i] = term.Const(32, uint64(rs[i]))
		}
		return Slice{x.addObj(o), 0, len(rs), len(rs)}
	}
	return v
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// bytesOf reads a []byte's terms.
func (x *exec) bytesOf(s Slice) []*term.Term {
	r := make([]*term.Term, s.len)
	if s.len == 0 {
		return r
	}
	if x.st.inter {
		x.raceRead(Ptr{obj: s.obj, off: s.off}, s.len)
	}
	o := x.obj(s.obj)
	for i := range r {
		r[i] = x.term(o.cells[s.off+i])
	}
	return r
}

func (x *exec) newBytes(b []*term.Term) Slice {
	o := &Object{cells: make([]Value, len(b))}
	for i, t := range b {
		o.cells[i] = t
	}
	return Slice{x.addObj(o), 0, len(b), len(b)}
}

const maxAlloc = 1 << 22

func (x *exec) makeSlice(elem types.Type, ln, cp *term.Term) Value {
	if x.decide(term.Slt(ln, c64(0))) {
		x.rtPanic("makeslice: len out of range")
	}
	if x.decide(term.Slt(cp, ln)) {
		x.rtPanic("makeslice: cap out of range")
	}
	n := x.mustLen(ln)
	c := x.mustLen(cp)
	z := zeroCells(elem)
	if c*len(z) > maxAlloc {
		unsup("allocation of %d cells", c*len(z))
	}
	o := &Object{cells: make([]Value, 0, c*len(z))}
	for i := 0; i < c; i++ {
		o.cells = append(o.cells, z...)
	}
	return Slice{x.addObj(o), 0, n, c}
}

func (x *exec) doSlice(ins *ssa.Slice) Value {
	get := func(k int, v ssa.Value) *term.Term {
		if v == nil {
			return nil
		}
		return x.idx64(k, v.Type())
	}
	lo, hi, max := get(1, ins.Low), get(2, ins.High), get(3, ins.Max)
	switch v := x.val(0).(type) {
	case Str:
		n := v.Len()
		if lo == nil {
			lo = c64(0)
		}
		if hi == nil {
			hi = c64(n)
		}
		if !x.decide(term.Ule(hi, c64(n))) || !x.decide(term.Ule(lo, hi)) {
			x.rtPanic("slice bounds out of range")
		}
		l, h := x.mustLen(lo), x.mustLen(hi)
		if v.Opq {
			unsup("slice of a formatted string")
		}
		if v.B != nil {
			return mkStr(v.B[l:h])
		}
		return Str{S: v.S[l:h]}
	case Slice:
		es := cellsOf(under(ins.X.Type()).(*types.Slice).Elem())
		return x.sliceSlice(v, es, lo, hi, max)
	case Ptr:
		x.nilCheck(v)
		if v.sym != nil {
			v.off += int(x.mustInt(v.sym.idx)) * v.sym.stride
		}
		at := under(under(ins.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := int(at.Len())
		return x.sliceSlice(Slice{v.obj, v.off, n, n}, cellsOf(at.Elem()), lo, hi, max)
	case Poison:
		unsup("slice of an uninitialised value (%s)", v.Why)
	}
	unsup("slice of %T", x.val(0))
	return nil
}

func (x *exec) sliceSlice(s Slice, es int, lo, hi, max *term.Term) Value {
	if lo == nil {
		lo = c64(0)
	}
	if hi == nil {
		hi = c64(s.len)
	}
	mx := max
	if mx == nil {
		mx = c64(s.cap)
	}
	d := func(t *term.Term) string {
		if t.IsConst() {
			return fmt.Sprint(int64(t.Val))
		}
		return "?"
	}
	if max != nil && !x.decide(term.Ule(mx, c64(s.cap))) {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [::%s] with capacity %d", d(mx), s.cap))
	}
	if !x.decide(term.Ule(hi, mx)) {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [:%s] with capacity %s", d(hi), d(mx)))
	}
	if !x.decide(term.Ule(lo, hi)) {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s]", d(lo), d(hi)))
	}
	l, h, m := x.mustLen(lo), x.mustLen(hi), x.mustLen(mx)
	if s.obj == 0 {
		return s
	}
	return Slice{s.obj, s.off + l*es, h - l, m - l}
}

func (x *exec) typeAssert(ins *ssa.TypeAssert) Value {
	v := x.iface(x.val(0))
	ok := false
	var r Value
	if v.t != nil {
		if it, isI := under(ins.AssertedType).(*types.Interface); isI {
			ok = x.implements(v.t, it)
			r = v
		} else {
			ok = types.Identical(v.t, ins.AssertedType)
			r = v.v
		}
	}
	if ins.CommaOk {
		if !ok {
			r = zeroVal(ins.AssertedType)
		}
		return Tuple{r, term.Bool(ok)}
	}
	if !ok {
		x.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, ins.AssertedType))
	}
	return r
}

func (x *exec) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	return types.Implements(t, it)
}

// findKey returns the index of key k in the map (forking on symbolic keys) or -1.
func (x *exec) findKey(ents []mapEnt, k Value, kt types.Type) int {
	for i := range ents {
		if x.decide(x.equal(ents[i].k, k, kt)) {
			return i
		}
	}
	return -1
}

func (x *exec) lookup(ins *ssa.Lookup) Value {
	if s, ok := x.val(0).(Str); ok {
		idx := x.idx64(1, ins.Index.Type())
		x.checkIndex(idx, s.Len())
		if idx.IsConst() {
			return s.At(int(idx.Val))
		}
		vals := make([]*term.Term, s.Len())
		for i := range vals {
			vals[i] = s.At(i)
		}
		return x.mux(idx, vals)
	}
	mt := under(ins.X.Type()).(*types.Map)
	var r Value
	found := false
	m, ok := x.val(0).(MapRef)
	if !ok {
		unsup("map lookup on %T", x.val(0))
	}
	if m.id != 0 {
		o := x.obj(m.id)
		if x.st.inter {
			x.raceRead(Ptr{obj: m.id}, 0)
		}
		if i := x.findKey(o.m.ents, x.val(1), mt.Key()); i >= 0 {
			r = o.m.ents[i].v
			found = true
		}
	}
	if !found {
		r = zeroVal(mt.Elem())
	}
	if ins.CommaOk {
		return Tuple{r, term.Bool(found)}
	}
	return r
}

func (x *exec) mapUpdate(mv, k, v Value, kt types.Type) {
	m, ok := mv.(MapRef)
	if !ok {
		unsup("map update on %T", mv)
	}
	if m.id == 0 {
		panic(goPanic{Iface{x.p.rtErr, Str{S: "assignment to entry in nil map"}}, "assignment to entry in nil map"})
	}
	i := x.findKey(x.obj(m.id).m.ents, k, kt)
	if x.st.inter {
		x.raceWrite(Ptr{obj: m.id}, 0)
	}
	o := x.wobj(m.id)
	if i >= 0 {
		o.m.ents[i].v = v
	} else {
		o.m.ents = append(o.m.ents, mapEnt{k, v})
	}
}

type rangeIter struct {
	obj int // iterator state object: cells[0] = position
	s   Str
	m   int
	k   []Value
}

func (x *exec) rangeInit(ins *ssa.Range) Value {
	it := rangeIter{}
	switch v := x.val(0).(type) {
	case Str:
		it.s = v
	case MapRef:
		it.m = v.id
		if v.id != 0 {
			for _, e := range x.obj(v.id).m.ents {
				it.k = append(it.k, e.k)
			}
		}
	default:
		unsup("range over %T", v)
	}
	id, o := x.newObj(1)
	o.cells[0] = c64(0)
	it.obj = id
	return it
}

func (x *exec) rangeNext(ins *ssa.Next) Value {
	it := x.val(0).(rangeIter)
	pos := int(x.cellInt(Ptr{obj: it.obj}, 0))
	if ins.IsString {
		if it.s.Opq {
			unsup("range over a formatted string")
		}
		if pos >= it.s.Len() {
			return Tuple{term.False, c64(0), term.Const(32, 0)}
		}
		var r rune
		n := 1
		if it.s.B == nil {
			r, n = utf8.DecodeRuneInString(it.s.S[pos:])
			x.setCellInt(Ptr{obj: it.obj}, 0, int64(pos+n))
			return Tuple{term.True, c64(pos), term.Const(32, uint64(r))}
		}
		b := it.s.At(pos)
		if !x.decide(term.Ult(b, term.Const(8, 0x80))) {
			unsup("symbolic non-ASCII rune")
		}
		x.setCellInt(Ptr{obj: it.obj}, 0, int64(pos+1))
		return Tuple{term.True, c64(pos), term.ZExt(b, 32)}
	}
	tt := ins.Type().(*types.Tuple)
	mt := under(ins.Iter.(*ssa.Range).X.Type()).(*types.Map)
	for pos < len(it.k) {
		k := it.k[pos]
		i := x.findKey(x.obj(it.m).m.ents, k, mt.Key())
		pos++
		if i >= 0 {
			x.setCellInt(Ptr{obj: it.obj}, 0, int64(pos))
			return Tuple{term.True, k, x.obj(it.m).m.ents[i].v}
		}
	}
	zk, zv := Value(nil), Value(nil)
	if tt.At(1).Type() != nil && !isInvalid(tt.At(1).Type()) {
		zk = zeroVal(tt.At(1).Type())
	}
	if tt.At(2).Type() != nil && !isInvalid(tt.At(2).Type()) {
		zv = zeroVal(tt.At(2).Type())
	}
	return Tuple{term.False, zk, zv}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (x *exec) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return c64(v.len)
		case Str:
			if v.Opq {
				unsup("length of a formatted string")
			}
			return c64(v.Len())
		case MapRef:
			if v.id == 0 {
				return c64(0)
			}
			return c64(len(x.obj(v.id).m.ents))
		case ChanRef:
			if v.id == 0 {
				return c64(0)
			}
			return c64(len(x.obj(v.id).ch.buf))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return c64(v.cap)
		case ChanRef:
			if v.id == 0 {
				return c64(0)
			}
			return c64(x.obj(v.id).ch.cap)
		}
	case "append":
		return x.doAppend(c, args)
	case "copy":
		return x.doCopy(c, args)
	case "delete":
		m := args[0].(MapRef)
		if m.id == 0 {
			return nil
		}
		kt := under(c.Args[0].Type()).(*types.Map).Key()
		i := x.findKey(x.obj(m.id).m.ents, args[1], kt)
		if i >= 0 {
			if x.st.inter {
				x.raceWrite(Ptr{obj: m.id}, 0)
			}
			o := x.wobj(m.id)
			o.m.ents = append(append([]mapEnt(nil), o.m.ents[:i]...), o.m.ents[i+1:]...)
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v.id != 0 {
				x.wobj(v.id).m.ents = nil
			}
			return nil
		case Slice:
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			z := zeroCells(el)
			if v.len > 0 {
				o := x.wobj(v.obj)
				for i := 0; i < v.len; i++ {
					copy(o.cells[v.off+i*len(z):], z)
				}
			}
			return nil
		}
	case "close":
		x.visible()
		x.closeChan(args[0].(ChanRef))
		return nil
	case "panic":
		v := x.iface(args[0])
		panic(goPanic{v, x.describe(v)})
	case "recover":
		f := x.f
		if f.deferFor != nil && !f.deferFor.recovered {
			f.deferFor.recovered = true
			x.trace("recovered: %s", f.deferFor.msg)
			return f.deferFor.val
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := c.Args[0].Type()
		_, signed, ok := intInfo(t)
		if !ok {
			unsup("%s on %s", b.Name(), t)
		}
		r := x.term(args[0])
		for _, a := range args[1:] {
			v := x.term(a)
			var lt *term.Term
			if signed {
				lt = term.Slt(v, r)
			} else {
				lt = term.Ult(v, r)
			}
			if b.Name() == "max" {
				lt = term.BNot(lt)
			}
			r = term.Ite(lt, v, r)
		}
		return r
	case "ssa:wrapnilchk":
		p := x.ptr(args[0])
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case "String": // unsafe.String
		p := x.ptr(args[0])
		n := x.mustLen(x.ext64(x.term(args[1]), c.Args[1].Type()))
		if n == 0 {
			return Str{}
		}
		return mkStr(x.bytesOf(Slice{p.obj, p.off, n, n}))
	case "SliceData":
		s := x.slice(args[0])
		return Ptr{obj: s.obj, off: s.off}
	case "StringData":
		s := x.str(args[0])
		b := make([]*term.Term, s.Len())
		for i := range b {
			b[i] = s.At(i)
		}
		ns := x.newBytes(b)
		return Ptr{obj: ns.obj}
	case "Slice": // unsafe.Slice
		p := x.ptr(args[0])
		n := x.mustLen(x.ext64(x.term(args[1]), c.Args[1].Type()))
		return Slice{p.obj, p.off, n, n}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *exec) doAppend(c *ssa.CallCommon, args []Value) Value {
	if len(args) < 2 {
		return args[0]
	}
	s := x.slice(args[0])
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	es := cellsOf(el)
	var add []Value
	n := 0
	switch v := args[1].(type) {
	case Str:
		if v.Opq {
			unsup("append of a formatted string")
		}
		n = v.Len()
		for i := 0; i < n; i++ {
			add = append(add, v.At(i))
		}
	case Slice:
		n = v.len
		if n > 0 {
			if x.st.inter {
				x.raceRead(Ptr{obj: v.obj, off: v.off}, n*es)
			}
			add = append(add, x.obj(v.obj).cells[v.off:v.off+n*es]...)
		}
	case Poison:
		unsup("append of an uninitialised value (%s)", v.Why)
	}
	if n == 0 {
		return s
	}
	if s.len+n <= s.cap {
		if x.st.inter {
			x.raceWrite(Ptr{obj: s.obj, off: s.off + s.len*es}, n*es)
		}
		copy(x.wobj(s.obj).cells[s.off+s.len*es:], add)
		s.len += n
		return s
	}
	nc := growCap(s.cap, s.len+n, el)
	if nc*es > maxAlloc {
		unsup("append beyond %d cells", maxAlloc)
	}
	z := zeroCells(el)
	o := &Object{cells: make([]Value, 0, nc*es)}
	if s.len > 0 {
		if x.st.inter {
			x.raceRead(Ptr{obj: s.obj, off: s.off}, s.len*es)
		}
		o.cells = append(o.cells, x.obj(s.obj).cells[s.off:s.off+s.len*es]...)
	}
	o.cells = append(o.cells, add...)
	for len(o.cells) < nc*es {
		o.cells = append(o.cells, z...)
	}
	return Slice{x.addObj(o), 0, s.len + n, nc}
}

func (x *exec) doCopy(c *ssa.CallCommon, args []Value) Value {
	d := x.slice(args[0])
	es := cellsOf(under(c.Args[0].Type()).(*types.Slice).Elem())
	var src []Value
	n := 0
	switch v := args[1].(type) {
	case Str:
		n = v.Len()
		for i := 0; i < n; i++ {
			src = append(src, v.At(i))
		}
		if n > d.len {
			n = d.len
		}
	case Slice:
		n = v.len
		if n > d.len {
			n = d.len
		}
		if n > 0 {
			if x.st.inter {
				x.raceRead(Ptr{obj: v.obj, off: v.off}, n*es)
			}
			src = append(src, x.obj(v.obj).cells[v.off:v.off+n*es]...)
		}
	case Poison:
		unsup("copy of an uninitialised value (%s)", v.Why)
	}
	if n > 0 {
		if x.st.inter {
			x.raceWrite(Ptr{obj: d.obj, off: d.off}, n*es)
		}
		copy(x.wobj(d.obj).cells[d.off:], src[:n*es])
	}
	return c64(n)
}
