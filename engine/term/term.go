// Package term implements hash-consed bit-vector / boolean terms together with
// a sound local simplifier, a concrete evaluator and an SMT-LIB2 printer.
package term

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota // bv const (or bool const when W==0)
	OVar
	// bitvector
	OConcat  // args hi, lo
	OExtract // val = lo ; width = W
	OAnd
	OOr
	OXor
	ONot
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OSExt
	OIte // also for bool result
	// bool
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
)

// Term is an immutable, hash-consed term. W==0 means sort Bool.
type Term struct {
	Op   Op
	W    uint8
	A    [3]*Term
	N    uint8
	Val  uint64
	Name string
	ID   uint32
	umin uint64
	umax uint64
	xors uint8 // nesting depth of xor operations (saturating)
	one  *Term // the only variable, if there is exactly one and it has at most 8 bits
	many bool  // depends on several variables or on a wide one
	tab  atomic.Pointer[[]uint64]
	rep  atomic.Pointer[Term]
	vars atomic.Pointer[[]*Term]
}

type key struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

const shards = 64

type shard struct {
	mu sync.Mutex
	m  map[key]*Term
}

var (
	tbl    [shards]shard
	nextID uint32
	varMu  sync.Mutex
	varTbl = map[varKey]*Term{}
)

func init() {
	for i := range tbl {
		tbl[i].m = map[key]*Term{}
	}
	True = Const(0, 1)
	False = Const(0, 0)
}

var True, False *Term

// Count returns the number of distinct terms created so far.
func Count() int { return int(atomic.LoadUint32(&nextID)) }

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func Mask(w uint8) uint64 { return mask(w) }

func mk(op Op, w uint8, val uint64, a ...*Term) *Term {
	k := key{op: op, w: w, val: val}
	if len(a) > 0 {
		k.a = a[0].ID
	}
	if len(a) > 1 {
		k.b = a[1].ID
	}
	if len(a) > 2 {
		k.c = a[2].ID
	}
	h := (uint64(k.a)*0x9E3779B1 + uint64(k.b)*0x85EBCA77 + uint64(k.c)*0xC2B2AE3D + val*0x27D4EB2F + uint64(op)*31 + uint64(w)) * 0x9E3779B97F4A7C15
	s := &tbl[h>>58]
	s.mu.Lock()
	if t, ok := s.m[k]; ok {
		s.mu.Unlock()
		if r := t.rep.Load(); r != nil {
			return r
		}
		return t
	}
	t := &Term{Op: op, W: w, Val: val, N: uint8(len(a))}
	copy(t.A[:], a)
	t.ID = atomic.AddUint32(&nextID, 1)
	t.umin, t.umax = ranges(t)
	for _, x := range a {
		if x.xors > t.xors {
			t.xors = x.xors
		}
	}
	if op == OXor && t.xors < 200 {
		t.xors++
	}
	for _, x := range a {
		switch {
		case x.many:
			t.many = true
		case x.one == nil:
		case t.one == nil:
			t.one = x.one
		case t.one != x.one:
			t.many = true
		}
	}
	if t.many {
		t.one = nil
	}
	s.m[k] = t
	s.mu.Unlock()
	if t.one != nil && t.xors == 0 {
		r := canon(t)
		t.rep.Store(r)
		return r
	}
	return t
}

type varKey struct {
	name string
	w    uint8
}

// Var returns the variable with the given name and width (0 = Bool).
func Var(name string, w uint8) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	k := varKey{name, w}
	if t, ok := varTbl[k]; ok {
		return t
	}
	t := &Term{Op: OVar, W: w, Name: name}
	t.ID = atomic.AddUint32(&nextID, 1)
	t.umin, t.umax = 0, mask(w)
	if w <= 8 {
		t.one = t
	} else {
		t.many = true
	}
	varTbl[k] = t
	return t
}

func Const(w uint8, v uint64) *Term { return mk(OConst, w, v&mask(w)) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }
func (t *Term) UMax() uint64  { return t.umax }
func (t *Term) UMin() uint64  { return t.umin }

// SVal returns the constant sign-extended to 64 bits.
func (t *Term) SVal() int64 { return sx(t.Val, t.W) }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func ranges(t *Term) (uint64, uint64) {
	m := mask(t.W)
	switch t.Op {
	case OConst:
		return t.Val, t.Val
	case OConcat:
		lw := t.A[1].W
		return t.A[0].umin<<lw | t.A[1].umin, t.A[0].umax<<lw | t.A[1].umax
	case OExtract:
		if t.Val == 0 && t.A[0].umax <= m {
			return t.A[0].umin, t.A[0].umax
		}
		if uint8(t.Val)+t.W == t.A[0].W {
			return t.A[0].umin >> t.Val, t.A[0].umax >> t.Val
		}
		return 0, m
	case OAnd:
		return 0, min64(t.A[0].umax, t.A[1].umax)
	case OOr, OXor:
		u := t.A[0].umax | t.A[1].umax
		n := bits.Len64(u)
		if n >= 64 {
			return 0, m
		}
		lo := uint64(0)
		if t.Op == OOr {
			lo = max64(t.A[0].umin, t.A[1].umin)
		}
		return lo, min64((uint64(1)<<n)-1, m)
	case OAdd:
		s, c := bits.Add64(t.A[0].umax, t.A[1].umax, 0)
		if c == 0 && s <= m {
			return t.A[0].umin + t.A[1].umin, s
		}
		// adding a constant "negative": x + (2^w - k) where x >= k
		if t.A[1].IsConst() {
			k := (-t.A[1].Val) & m
			if t.A[0].umin >= k {
				return t.A[0].umin - k, t.A[0].umax - k
			}
		}
		return 0, m
	case OSub:
		if t.A[0].umin >= t.A[1].umax {
			return t.A[0].umin - t.A[1].umax, t.A[0].umax - t.A[1].umin
		}
		return 0, m
	case OMul:
		h, l := bits.Mul64(t.A[0].umax, t.A[1].umax)
		if h == 0 && l <= m {
			return t.A[0].umin * t.A[1].umin, l
		}
		return 0, m
	case OUDiv:
		if t.A[1].umin > 0 {
			return t.A[0].umin / t.A[1].umax, t.A[0].umax / t.A[1].umin
		}
		return 0, m
	case OURem:
		if t.A[1].umin > 0 {
			return 0, min64(t.A[1].umax-1, t.A[0].umax)
		}
		return 0, t.A[0].umax
	case OLShr:
		if t.A[1].umin < 64 {
			return 0, t.A[0].umax >> t.A[1].umin
		}
		return 0, 0
	case OIte:
		if t.W == 0 {
			return 0, 1
		}
		return min64(t.A[1].umin, t.A[2].umin), max64(t.A[1].umax, t.A[2].umax)
	}
	return 0, m
}

// ---------------------------------------------------------------- booleans

func BNot(a *Term) *Term {
	if a.IsConst() {
		return Bool(a.Val == 0)
	}
	if a.Op == OBNot {
		return a.A[0]
	}
	return mk(OBNot, 0, 0, a)
}

func BAnd(a, b *Term) *Term {
	if a.IsConst() {
		if a.IsTrue() {
			return b
		}
		return False
	}
	if b.IsConst() {
		if b.IsTrue() {
			return a
		}
		return False
	}
	if a == b {
		return a
	}
	if (a.Op == OBNot && a.A[0] == b) || (b.Op == OBNot && b.A[0] == a) {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OBAnd, 0, 0, a, b)
}

func BOr(a, b *Term) *Term {
	if a.IsConst() {
		if a.IsTrue() {
			return True
		}
		return b
	}
	if b.IsConst() {
		if b.IsTrue() {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == OBNot && a.A[0] == b) || (b.Op == OBNot && b.A[0] == a) {
		return True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OBOr, 0, 0, a, b)
}

func Implies(a, b *Term) *Term { return BOr(BNot(a), b) }

// ---------------------------------------------------------------- pieces

// pieces flattens a concat chain, most significant first.
func pieces(t *Term) []*Term {
	if t.Op != OConcat {
		return []*Term{t}
	}
	var out []*Term
	for t.Op == OConcat {
		out = append(out, t.A[0])
		t = t.A[1]
	}
	return append(out, t)
}

func fromPieces(ps []*Term) *Term {
	// merge adjacent
	var out []*Term
	for _, p := range ps {
		if p == nil || p.W == 0 {
			continue
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.IsConst() && p.IsConst() {
				out[n-1] = Const(q.W+p.W, q.Val<<p.W|p.Val)
				continue
			}
			qb, ql := q, uint64(0)
			pb, pl := p, uint64(0)
			if q.Op == OExtract {
				qb, ql = q.A[0], q.Val
			}
			if p.Op == OExtract {
				pb, pl = p.A[0], p.Val
			}
			if qb == pb && (q.Op == OExtract || p.Op == OExtract) && ql == pl+uint64(p.W) {
				out[n-1] = rawExtract(qb, pl, q.W+p.W)
				continue
			}
		}
		out = append(out, p)
	}
	t := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		t = mk(OConcat, out[i].W+t.W, 0, out[i], t)
	}
	return t
}

func rawExtract(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.W {
		return t
	}
	return mk(OExtract, w, lo, t)
}

func Concat(hi, lo *Term) *Term {
	return fromPieces(append(pieces(hi), pieces(lo)...))
}

// Extract returns bits [lo, lo+w) of t.
func Extract(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.W {
		return t
	}
	switch t.Op {
	case OConst:
		return Const(w, t.Val>>lo)
	case OExtract:
		return Extract(t.A[0], t.Val+lo, w)
	case OConcat:
		var out []*Term
		ps := pieces(t)
		pos := uint64(t.W)
		for _, p := range ps {
			pos -= uint64(p.W)
			// piece occupies [pos, pos+p.W)
			a, b := max64(pos, lo), min64(pos+uint64(p.W), lo+uint64(w))
			if a < b {
				out = append(out, Extract(p, a-pos, uint8(b-a)))
			}
		}
		return fromPieces(out)
	case OAnd:
		return And(Extract(t.A[0], lo, w), Extract(t.A[1], lo, w))
	case OOr:
		return Or(Extract(t.A[0], lo, w), Extract(t.A[1], lo, w))
	case OXor:
		return Xor(Extract(t.A[0], lo, w), Extract(t.A[1], lo, w))
	case ONot:
		return Not(Extract(t.A[0], lo, w))
	case OAdd:
		if lo == 0 {
			return Add(Extract(t.A[0], 0, w), Extract(t.A[1], 0, w))
		}
	case OSub:
		if lo == 0 {
			return Sub(Extract(t.A[0], 0, w), Extract(t.A[1], 0, w))
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(t.A[0], 0, w), Extract(t.A[1], 0, w))
		}
	case OSExt:
		if lo+uint64(w) <= uint64(t.A[0].W) {
			return Extract(t.A[0], lo, w)
		}
		if lo == 0 {
			return SExt(t.A[0], w)
		}
	case OIte:
		a, b := t.A[1], t.A[2]
		if a.IsConst() || b.IsConst() || a.Op == OIte || b.Op == OIte || a.Op == OConcat || b.Op == OConcat {
			return Ite(t.A[0], Extract(a, lo, w), Extract(b, lo, w))
		}
	}
	if t.umax != 0 || true {
		// bits known zero above umax
		n := uint64(bits.Len64(t.umax))
		if lo >= n {
			return Const(w, 0)
		}
		if lo+uint64(w) > n {
			return fromPieces([]*Term{Const(w-uint8(n-lo), 0), Extract(t, lo, uint8(n-lo))})
		}
	}
	return mk(OExtract, w, lo, t)
}

func ZExt(t *Term, w uint8) *Term {
	if w == t.W {
		return t
	}
	return fromPieces(append([]*Term{Const(w-t.W, 0)}, pieces(t)...))
}

func SExt(t *Term, w uint8) *Term {
	if w == t.W {
		return t
	}
	if t.IsConst() {
		return Const(w, uint64(sx(t.Val, t.W)))
	}
	if t.umax < uint64(1)<<(t.W-1) {
		return ZExt(t, w)
	}
	if t.Op == OSExt {
		return SExt(t.A[0], w)
	}
	return mk(OSExt, w, 0, t)
}

// Trunc/extend to w.
func Resize(t *Term, w uint8, signed bool) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return Extract(t, 0, w)
	}
	if signed {
		return SExt(t, w)
	}
	return ZExt(t, w)
}

// aligned splits a and b at common boundaries when at least one is a concat;
// returns nil if splitting is pointless.
func split2(a, b *Term) (as, bs []*Term) {
	pa, pb := pieces(a), pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil, nil
	}
	cuts := map[uint64]bool{}
	pos := uint64(0)
	for i := len(pa) - 1; i > 0; i-- {
		pos += uint64(pa[i].W)
		cuts[pos] = true
	}
	pos = 0
	for i := len(pb) - 1; i > 0; i-- {
		pos += uint64(pb[i].W)
		cuts[pos] = true
	}
	hi := uint64(a.W)
	for p := int(a.W) - 1; p >= 0; p-- {
		if p == 0 || cuts[uint64(p)] {
			as = append(as, Extract(a, uint64(p), uint8(hi-uint64(p))))
			bs = append(bs, Extract(b, uint64(p), uint8(hi-uint64(p))))
			hi = uint64(p)
		}
	}
	return as, bs
}

// constRuns turns a constant into runs of equal bits (msb first): (width, bit).
func constRuns(c *Term) (ws []uint8, ones []bool) {
	i := int(c.W) - 1
	for i >= 0 {
		b := c.Val>>uint(i)&1 == 1
		j := i
		for j >= 0 && (c.Val>>uint(j)&1 == 1) == b {
			j--
		}
		ws = append(ws, uint8(i-j))
		ones = append(ones, b)
		i = j
	}
	return
}

func bitwise(op Op, a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	m := mask(a.W)
	if b.IsConst() {
		if a.IsConst() {
			switch op {
			case OAnd:
				return Const(a.W, a.Val&b.Val)
			case OOr:
				return Const(a.W, a.Val|b.Val)
			case OXor:
				return Const(a.W, a.Val^b.Val)
			}
		}
		switch {
		case b.Val == 0:
			if op == OAnd {
				return b
			}
			return a
		case b.Val == m:
			switch op {
			case OAnd:
				return a
			case OOr:
				return b
			case OXor:
				return Not(a)
			}
		}
		ws, ones := constRuns(b)
		if len(ws) <= 8 && op != OXor {
			var out []*Term
			pos := uint64(b.W)
			for i, w := range ws {
				pos -= uint64(w)
				x := Extract(a, pos, w)
				switch {
				case op == OAnd && !ones[i]:
					x = Const(w, 0)
				case op == OOr && ones[i]:
					x = Const(w, mask(w))
				}
				out = append(out, x)
			}
			return fromPieces(out)
		}
	}
	if a == b {
		switch op {
		case OAnd, OOr:
			return a
		case OXor:
			return Const(a.W, 0)
		}
	}
	if as, bs := split2(a, b); as != nil {
		var out []*Term
		for i := range as {
			out = append(out, bitwise(op, as[i], bs[i]))
		}
		return fromPieces(out)
	}
	if op == OXor {
		// normalise constants outwards: (x ^ c1) ^ c2
		if b.IsConst() && a.Op == OXor && a.A[1].IsConst() {
			return bitwise(OXor, a.A[0], Const(a.W, a.A[1].Val^b.Val))
		}
		// (x ^ y) ^ y
		if a.Op == OXor {
			if a.A[0] == b {
				return a.A[1]
			}
			if a.A[1] == b {
				return a.A[0]
			}
		}
		if b.Op == OXor {
			if b.A[0] == a {
				return b.A[1]
			}
			if b.A[1] == a {
				return b.A[0]
			}
		}
	}
	if op == OAnd || op == OOr {
		if a.Op == ONot && a.A[0] == b || b.Op == ONot && b.A[0] == a {
			if op == OAnd {
				return Const(a.W, 0)
			}
			return Const(a.W, m)
		}
		if a.Op == op && (a.A[0] == b || a.A[1] == b) {
			return a
		}
		if b.Op == op && (b.A[0] == a || b.A[1] == a) {
			return b
		}
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(op, a.W, 0, a, b)
}

func And(a, b *Term) *Term { return bitwise(OAnd, a, b) }
func Or(a, b *Term) *Term  { return bitwise(OOr, a, b) }
func Xor(a, b *Term) *Term { return bitwise(OXor, a, b) }

func Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return Const(a.W, ^a.Val)
	case ONot:
		return a.A[0]
	case OConcat:
		ps := pieces(a)
		out := make([]*Term, len(ps))
		for i, p := range ps {
			out[i] = Not(p)
		}
		return fromPieces(out)
	}
	return mk(ONot, a.W, 0, a)
}

// ---------------------------------------------------------------- arithmetic

func Neg(a *Term) *Term { return Sub(Const(a.W, 0), a) }

// lowZeroPiece: if no carries possible (disjoint set bits), a+b == a|b.
func disjoint(a, b *Term) bool {
	pa, pb := pieces(a), pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		return false
	}
	as, bs := split2(a, b)
	for i := range as {
		if !(as[i].IsConst() && as[i].Val == 0) && !(bs[i].IsConst() && bs[i].Val == 0) {
			return false
		}
	}
	return true
}

func Add(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if a.IsConst() {
			return Const(a.W, a.Val+b.Val)
		}
		if a.Op == OAdd && a.A[1].IsConst() {
			return Add(a.A[0], Const(a.W, a.A[1].Val+b.Val))
		}
		if a.Op == OSub && a.A[0].IsConst() {
			return Sub(Const(a.W, a.A[0].Val+b.Val), a.A[1])
		}
		if a.Op == ONot && (a.A[0].Op == OAdd || a.A[0].Op == OSub) {
			return Sub(Const(a.W, b.Val-1), a.A[0])
		}
		if a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
			return Ite(a.A[0], Add(a.A[1], b), Add(a.A[2], b))
		}
	}
	if a.Op == OAdd && a.A[1].IsConst() && !b.IsConst() {
		return Add(Add(a.A[0], b), a.A[1])
	}
	if b.Op == OAdd && b.A[1].IsConst() {
		return Add(Add(a, b.A[0]), b.A[1])
	}
	if b.Op == OSub && b.A[1] == a {
		return b.A[0]
	}
	if a.Op == OSub && a.A[1] == b {
		return a.A[0]
	}
	if disjoint(a, b) {
		return Or(a, b)
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OAdd, a.W, 0, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Const(a.W, 0)
	}
	if b.IsConst() {
		return Add(a, Const(a.W, -b.Val))
	}
	if a.Op == OAdd {
		if a.A[0] == b {
			return a.A[1]
		}
		if a.A[1] == b {
			return a.A[0]
		}
		if a.A[1].IsConst() {
			return Add(Sub(a.A[0], b), a.A[1])
		}
	}
	if b.Op == OAdd && b.A[1].IsConst() {
		return Add(Sub(a, b.A[0]), Const(a.W, -b.A[1].Val))
	}
	if a.IsConst() && b.Op == OSub && b.A[0].IsConst() {
		return Add(b.A[1], Const(a.W, a.Val-b.A[0].Val))
	}
	return mk(OSub, a.W, 0, a, b)
}

func Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Const(a.W, a.Val*b.Val)
		}
		switch {
		case b.Val == 0:
			return b
		case b.Val == 1:
			return a
		case b.Val&(b.Val-1) == 0:
			return Shl(a, Const(a.W, uint64(bits.TrailingZeros64(b.Val))))
		}
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OMul, a.W, 0, a, b)
}

func UDiv(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return Const(a.W, a.Val/b.Val)
		}
		if b.Val == 1 {
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return LShr(a, Const(a.W, uint64(bits.TrailingZeros64(b.Val))))
		}
		if a.umax < b.Val {
			return Const(a.W, 0)
		}
	}
	// narrow
	if n := narrowW(a, b); n < a.W && b.umin > 0 {
		return ZExt(mkUDiv(Extract(a, 0, n), Extract(b, 0, n)), a.W)
	}
	return mk(OUDiv, a.W, 0, a, b)
}

func mkUDiv(a, b *Term) *Term { return mk(OUDiv, a.W, 0, a, b) }

func narrowW(a, b *Term) uint8 {
	n := bits.Len64(a.umax | b.umax)
	if n == 0 {
		n = 1
	}
	return uint8(n)
}

func URem(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return Const(a.W, a.Val%b.Val)
		}
		if b.Val&(b.Val-1) == 0 {
			return And(a, Const(a.W, b.Val-1))
		}
		if a.umax < b.Val {
			return a
		}
	}
	if n := narrowW(a, b); n < a.W && b.umin > 0 {
		return ZExt(mk(OURem, n, 0, Extract(a, 0, n), Extract(b, 0, n)), a.W)
	}
	return mk(OURem, a.W, 0, a, b)
}

func nonneg(a *Term) bool { return a.umax < uint64(1)<<(a.W-1) }

func SDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := sx(a.Val, a.W), sx(b.Val, b.W)
		if y == -1 {
			return Const(a.W, uint64(-x))
		}
		return Const(a.W, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) {
		return UDiv(a, b)
	}
	return mk(OSDiv, a.W, 0, a, b)
}

func SRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := sx(a.Val, a.W), sx(b.Val, b.W)
		if y == -1 {
			return Const(a.W, 0)
		}
		return Const(a.W, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) {
		return URem(a, b)
	}
	return mk(OSRem, a.W, 0, a, b)
}

// Shl etc.: the shift amount has the same width as a (SMT-LIB semantics).
func Shl(a, s *Term) *Term {
	if s.IsConst() {
		if s.Val == 0 {
			return a
		}
		if s.Val >= uint64(a.W) {
			return Const(a.W, 0)
		}
		return fromPieces(append(pieces(Extract(a, 0, a.W-uint8(s.Val))), Const(uint8(s.Val), 0)))
	}
	if a.IsConst() && a.Val == 0 {
		return a
	}
	return mk(OShl, a.W, 0, a, s)
}

func LShr(a, s *Term) *Term {
	if s.IsConst() {
		if s.Val == 0 {
			return a
		}
		if s.Val >= uint64(a.W) {
			return Const(a.W, 0)
		}
		return fromPieces(append([]*Term{Const(uint8(s.Val), 0)}, pieces(Extract(a, s.Val, a.W-uint8(s.Val)))...))
	}
	if a.IsConst() && a.Val == 0 {
		return a
	}
	return mk(OLShr, a.W, 0, a, s)
}

func AShr(a, s *Term) *Term {
	if nonneg(a) {
		return LShr(a, s)
	}
	if s.IsConst() {
		if s.Val == 0 {
			return a
		}
		n := s.Val
		if n >= uint64(a.W) {
			n = uint64(a.W) - 1
		}
		if a.IsConst() {
			return Const(a.W, uint64(sx(a.Val, a.W)>>n))
		}
		return SExt(Extract(a, n, a.W-uint8(n)), a.W)
	}
	return mk(OAShr, a.W, 0, a, s)
}

func Ite(c, a, b *Term) *Term {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == OBNot {
		return Ite(c.A[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return BOr(c, b)
		}
		if a.IsFalse() {
			return BAnd(BNot(c), b)
		}
		if b.IsTrue() {
			return BOr(BNot(c), a)
		}
		if b.IsFalse() {
			return BAnd(c, a)
		}
		return mk(OIte, 0, 0, c, a, b)
	}
	if a.Op == OIte && a.A[0] == c {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == c {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	if a.Op == OConcat || b.Op == OConcat {
		as, bs := split2(a, b)
		same := false
		for i := range as {
			if as[i] == bs[i] {
				same = true
			}
		}
		if same {
			out := make([]*Term, len(as))
			for i := range as {
				out[i] = Ite(c, as[i], bs[i])
			}
			return fromPieces(out)
		}
	}
	return mk(OIte, a.W, 0, c, a, b)
}

// ---------------------------------------------------------------- predicates

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W == 0 {
		if b.IsConst() {
			if b.IsTrue() {
				return a
			}
			return BNot(a)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return mk(OEq, 0, 0, a, b)
	}
	if a.IsConst() && b.IsConst() {
		return False // distinct constants
	}
	if a.umax < b.umin || b.umax < a.umin {
		return False
	}
	if b.IsConst() {
		switch a.Op {
		case OAdd:
			if a.A[1].IsConst() {
				return Eq(a.A[0], Const(a.W, b.Val-a.A[1].Val))
			}
		case OXor:
			if a.A[1].IsConst() {
				return Eq(a.A[0], Const(a.W, b.Val^a.A[1].Val))
			}
		case OSub:
			if a.A[0].IsConst() {
				return Eq(a.A[1], Const(a.W, a.A[0].Val-b.Val))
			}
			if b.Val == 0 {
				return Eq(a.A[0], a.A[1])
			}
		case ONot:
			return Eq(a.A[0], Const(a.W, ^b.Val))
		case OIte:
			x, y := a.A[1], a.A[2]
			if x.IsConst() || y.IsConst() {
				return Ite(a.A[0], Eq(x, b), Eq(y, b))
			}
		case OSExt:
			in := a.A[0]
			if uint64(sx(b.Val&mask(in.W), in.W))&mask(a.W) != b.Val {
				return False
			}
			return Eq(in, Const(in.W, b.Val))
		}
	}
	if as, bs := split2(a, b); as != nil {
		r := True
		for i := range as {
			r = BAnd(r, Eq(as[i], bs[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	}
	// common addends
	if a.Op == OAdd && b.Op == OAdd {
		if a.A[0] == b.A[0] {
			return Eq(a.A[1], b.A[1])
		}
		if a.A[1] == b.A[1] {
			return Eq(a.A[0], b.A[0])
		}
	}
	if isSum(a) || isSum(b) {
		if r := sumEq(a, b); r != nil {
			return r
		}
	}
	if a.Op == OXor && b.Op == OXor {
		if a.A[0] == b.A[0] {
			return Eq(a.A[1], b.A[1])
		}
		if a.A[1] == b.A[1] {
			return Eq(a.A[0], b.A[0])
		}
		if a.A[0] == b.A[1] {
			return Eq(a.A[1], b.A[0])
		}
		if a.A[1] == b.A[0] {
			return Eq(a.A[0], b.A[1])
		}
	}
	if a.xors > 8 && int(a.xors)+int(b.xors) > 8 || b.xors > 8 {
		if r := linEq(a, b); r != nil {
			return r
		}
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, 0, 0, a, b)
}

func Ne(a, b *Term) *Term { return BNot(Eq(a, b)) }

func leadZeros(t *Term) uint8 { return t.W - uint8(bits.Len64(t.umax)) }

func Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.umax < b.umin {
		return True
	}
	if a.umin >= b.umax {
		return False
	}
	// a<b with b==1  => a==0 ; a>=... etc.
	if b.IsConst() && b.Val == 1 {
		return Eq(a, Const(a.W, 0))
	}
	if a.IsConst() && a.Val == 0 {
		return Ne(b, a)
	}
	if b.IsConst() && b.Val == mask(b.W) {
		return Ne(a, b)
	}
	z := leadZeros(a)
	if y := leadZeros(b); y < z {
		z = y
	}
	if z > 0 {
		w := a.W - z
		return Ult(Extract(a, 0, w), Extract(b, 0, w))
	}
	if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return Ite(a.A[0], Ult(a.A[1], b), Ult(a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && (b.A[1].IsConst() || b.A[2].IsConst()) {
		return Ite(b.A[0], Ult(a, b.A[1]), Ult(a, b.A[2]))
	}
	// common high piece
	if a.Op == OConcat && b.Op == OConcat && a.A[0] == b.A[0] {
		return Ult(a.A[1], b.A[1])
	}
	// low piece zero in both: compare the high parts
	return mk(OUlt, 0, 0, a, b)
}

func Ule(a, b *Term) *Term { return BNot(Ult(b, a)) }

func Slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return Bool(sx(a.Val, a.W) < sx(b.Val, b.W))
	}
	half := uint64(1) << (a.W - 1)
	an, bn := a.umax < half, b.umax < half   // known non-negative
	am, bm := a.umin >= half, b.umin >= half // known negative
	switch {
	case an && bn, am && bm:
		return Ult(a, b)
	case an && bm:
		return False
	case am && bn:
		return True
	}
	if a.Op == OSExt && b.Op == OSExt && a.A[0].W == b.A[0].W {
		return Slt(a.A[0], b.A[0])
	}
	if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return Ite(a.A[0], Slt(a.A[1], b), Slt(a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && (b.A[1].IsConst() || b.A[2].IsConst()) {
		return Ite(b.A[0], Slt(a, b.A[1]), Slt(a, b.A[2]))
	}
	if a.Op == OSExt && b.IsConst() {
		in := a.A[0]
		c := sx(b.Val, b.W)
		lo, hi := -(int64(1) << (in.W - 1)), int64(1)<<(in.W-1)-1
		if c > hi {
			return True
		}
		if c <= lo {
			return False
		}
		return Slt(in, Const(in.W, uint64(c)))
	}
	if b.Op == OSExt && a.IsConst() {
		in := b.A[0]
		c := sx(a.Val, a.W)
		lo, hi := -(int64(1) << (in.W - 1)), int64(1)<<(in.W-1)-1
		if c >= hi {
			return False
		}
		if c < lo {
			return True
		}
		return Slt(Const(in.W, uint64(c)), in)
	}
	return mk(OSlt, 0, 0, a, b)
}

func Sle(a, b *Term) *Term { return BNot(Slt(b, a)) }

// ---------------------------------------------------------------- variables

// Vars returns the sorted (by ID) variables of t.
func Vars(t *Term) []*Term {
	if p := t.vars.Load(); p != nil {
		return *p
	}
	var out []*Term
	if t.Op == OVar {
		out = []*Term{t}
	} else {
		for i := 0; i < int(t.N); i++ {
			out = mergeVars(out, Vars(t.A[i]))
		}
	}
	t.vars.Store(&out)
	return out
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset check keeps sharing
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].ID < b[j].ID:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

// ---------------------------------------------------------------- evaluation

// Evaluator evaluates terms under an assignment (missing variables are 0).
type Evaluator struct {
	M    map[*Term]uint64
	memo map[uint32]uint64
}

func NewEvaluator(m map[*Term]uint64) *Evaluator {
	return &Evaluator{M: m, memo: map[uint32]uint64{}}
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.Val
	case OVar:
		return e.M[t] & mask(t.W)
	}
	if v, ok := e.memo[t.ID]; ok {
		return v
	}
	v := e.eval(t)
	e.memo[t.ID] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) eval(t *Term) uint64 {
	if t.Op == OIte {
		if e.Eval(t.A[0]) == 1 {
			return e.Eval(t.A[1])
		}
		return e.Eval(t.A[2])
	}
	a := e.Eval(t.A[0])
	m := mask(t.W)
	switch t.Op {
	case OExtract:
		return a >> t.Val & m
	case ONot:
		return ^a & m
	case OSExt:
		return uint64(sx(a, t.A[0].W)) & m
	case OBNot:
		return 1 - a
	}
	if t.Op == OBAnd && a == 0 {
		return 0
	}
	if t.Op == OBOr && a == 1 {
		return 1
	}
	b := e.Eval(t.A[1])
	w := t.A[0].W
	switch t.Op {
	case OConcat:
		return a<<t.A[1].W | b
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		n := b
		if n >= uint64(w) {
			n = uint64(w) - 1
		}
		return uint64(sx(a, w)>>n) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OSlt:
		return b2u(sx(a, w) < sx(b, w))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	}
	panic("eval: bad op")
}

// ---------------------------------------------------------------- printing

var opName = map[Op]string{
	OConcat: "concat", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBNot: "not", OBAnd: "and", OBOr: "or",
}

func Sort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// Ref is the SMT name (or literal) of a term.
func Ref(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.W/4), t.Val)
		}
		return fmt.Sprintf("#b%0*b", int(t.W), t.Val)
	case OVar:
		return fmt.Sprintf("|%s/%d|", t.Name, t.W)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// Body is the defining SMT expression of a composite term over Refs of its arguments.
func Body(t *Term) string {
	switch t.Op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.Val+uint64(t.W)-1, t.Val, Ref(t.A[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, Ref(t.A[0]))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opName[t.Op])
	for i := 0; i < int(t.N); i++ {
		sb.WriteByte(' ')
		sb.WriteString(Ref(t.A[i]))
	}
	sb.WriteByte(')')
	return sb.String()
}

// String renders a term as a tree (for diagnostics; truncated).
func (t *Term) String() string { return str(t, 6) }

func str(t *Term, d int) string {
	if t.Op == OConst || t.Op == OVar {
		if t.Op == OConst && t.W > 0 {
			return fmt.Sprintf("%d", t.Val)
		}
		return strings.Trim(Ref(t), "|")
	}
	if d == 0 {
		return "…"
	}
	n := opName[t.Op]
	if t.Op == OExtract {
		return fmt.Sprintf("%s[%d:%d]", str(t.A[0], d-1), t.Val+uint64(t.W)-1, t.Val)
	}
	if t.Op == OSExt {
		n = "sext"
	}
	s := "(" + n
	for i := 0; i < int(t.N); i++ {
		s += " " + str(t.A[i], d-1)
	}
	return s + ")"
}
