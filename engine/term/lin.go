package term

import (
	"math/bits"
	"sync"
	"sync/atomic"
)

// GF(2)-linear normal forms. A bit of a bit-vector term is written as c ⊕ (xor of atoms), where
// an atom is one bit of a variable or of a subterm that is not linear. Equality of two terms
// whose bit-wise difference has an empty normal form is decided without the solver; when the
// difference is constant 1 in some bit the terms are different.

type linForm struct {
	c bool
	s []uint64 // bitset over atom indices
}

type atomKey struct {
	id  uint32
	bit uint8
}

var (
	linMu   sync.Mutex
	atomIdx = map[atomKey]int{}
	atomTab []struct {
		t   *Term
		bit uint8
	}
	linMemo  sync.Map
	linCount int64
)

func atom(t *Term, bit uint8) linForm {
	k := atomKey{t.ID, bit}
	linMu.Lock()
	i, ok := atomIdx[k]
	if !ok {
		i = len(atomTab)
		atomIdx[k] = i
		atomTab = append(atomTab, struct {
			t   *Term
			bit uint8
		}{t, bit})
	}
	linMu.Unlock()
	s := make([]uint64, i/64+1)
	s[i/64] = 1 << (i % 64)
	return linForm{s: s}
}

func (a linForm) isConst() bool { return len(a.s) == 0 }

func xorForm(a, b linForm) linForm {
	if len(a.s) < len(b.s) {
		a, b = b, a
	}
	c := a.c != b.c
	if len(b.s) == 0 {
		return linForm{c, a.s}
	}
	s := append([]uint64(nil), a.s...)
	for i, w := range b.s {
		s[i] ^= w
	}
	n := len(s)
	for n > 0 && s[n-1] == 0 {
		n--
	}
	return linForm{c, s[:n]}
}

func opaque(t *Term) []linForm {
	f := make([]linForm, t.W)
	for i := range f {
		f[i] = atom(t, uint8(i))
	}
	return f
}

// lin computes the normal form of every bit of t (W > 0).
func lin(t *Term) []linForm {
	if f, ok := linMemo.Load(t); ok {
		return f.([]linForm)
	}
	f := lin1(t)
	if atomic.AddInt64(&linCount, 1) > 200000 {
		atomic.StoreInt64(&linCount, 0)
		linMemo.Range(func(k, _ any) bool { linMemo.Delete(k); return true })
	}
	linMemo.Store(t, f)
	return f
}

func lin1(t *Term) []linForm {
	switch t.Op {
	case OConst:
		f := make([]linForm, t.W)
		for i := range f {
			f[i].c = t.Val>>i&1 == 1
		}
		return f
	case OConcat:
		lo, hi := lin(t.A[1]), lin(t.A[0])
		return append(append(make([]linForm, 0, t.W), lo...), hi...)
	case OExtract:
		in := lin(t.A[0])
		return in[t.Val : t.Val+uint64(t.W)]
	case OXor:
		a, b := lin(t.A[0]), lin(t.A[1])
		f := make([]linForm, t.W)
		for i := range f {
			f[i] = xorForm(a[i], b[i])
		}
		return f
	case ONot:
		a := lin(t.A[0])
		f := make([]linForm, t.W)
		for i := range f {
			f[i] = linForm{!a[i].c, a[i].s}
		}
		return f
	case OAnd, OOr:
		a, b := lin(t.A[0]), lin(t.A[1])
		f := make([]linForm, t.W)
		for i := range f {
			x, y := a[i], b[i]
			if y.isConst() {
				x, y = y, x
			}
			switch {
			case x.isConst() && x.c == (t.Op == OOr): // dominating constant
				f[i] = linForm{c: x.c}
			case x.isConst():
				f[i] = y
			default:
				f[i] = atom(t, uint8(i))
			}
		}
		return f
	case OSExt:
		in := lin(t.A[0])
		f := append(make([]linForm, 0, t.W), in...)
		for len(f) < int(t.W) {
			f = append(f, in[len(in)-1])
		}
		return f
	case OIte:
		c, ok := linBool(t.A[0])
		if !ok {
			return opaque(t)
		}
		a, b := lin(t.A[1]), lin(t.A[2])
		f := make([]linForm, t.W)
		for i := range f {
			d := xorForm(a[i], b[i])
			switch {
			case d.isConst() && !d.c:
				f[i] = b[i]
			case d.isConst():
				f[i] = xorForm(b[i], c)
			default:
				f[i] = atom(t, uint8(i))
			}
		}
		return f
	}
	return opaque(t)
}

// linBool gives the form of a boolean that is a single linear bit.
func linBool(t *Term) (linForm, bool) {
	switch t.Op {
	case OConst:
		return linForm{c: t.Val == 1}, true
	case OBNot:
		f, ok := linBool(t.A[0])
		return linForm{!f.c, f.s}, ok
	case OEq:
		if t.A[0].W == 1 {
			d := xorForm(lin(t.A[0])[0], lin(t.A[1])[0])
			return linForm{!d.c, d.s}, true
		}
	}
	return linForm{}, false
}

func popcount(s []uint64) int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}

// linEq tries to decide or simplify a == b; nil when nothing was gained.
func linEq(a, b *Term) *Term {
	fa, fb := lin(a), lin(b)
	var sa, sd int
	d := make([]linForm, len(fa))
	for i := range fa {
		d[i] = xorForm(fa[i], fb[i])
		if d[i].isConst() && d[i].c {
			return False
		}
		sa += popcount(fa[i].s) + popcount(fb[i].s)
		sd += popcount(d[i].s)
	}
	if sd == 0 {
		return True
	}
	deep := sd <= 800 && (a.xors > 40 || b.xors > 40)
	if sd > 4000 || sd*3 > sa*2 && !deep {
		return nil
	}
	// rebuild the (smaller) difference
	r := True
	for _, f := range d {
		if f.isConst() {
			continue
		}
		x := Const(1, 0)
		if f.c {
			x = Const(1, 1)
		}
		for w, word := range f.s {
			for word != 0 {
				k := bits.TrailingZeros64(word)
				word &^= 1 << k
				linMu.Lock()
				at := atomTab[w*64+k]
				linMu.Unlock()
				x = Xor(x, Extract(at.t, uint64(at.bit), 1))
			}
		}
		r = BAnd(r, mkEq1(x))
	}
	return r
}

// mkEq1 is x == 0 without re-entering the linear simplifier.
func mkEq1(x *Term) *Term {
	if x.IsConst() {
		return Bool(x.Val == 0)
	}
	return mk(OEq, 0, 0, x, Const(1, 0))
}

// ---- reasoning under linear facts ----

type basis struct {
	rows map[int]linForm // by highest atom
}

func top(f linForm) int {
	n := len(f.s)
	if n == 0 {
		return -1
	}
	return n*64 - 1 - bits.LeadingZeros64(f.s[n-1])
}

// reduce rewrites f modulo the equations row = 0.
func (b *basis) reduce(f linForm) linForm {
	i := top(f)
	for i >= 0 {
		if i/64 < len(f.s) && f.s[i/64]>>(i%64)&1 == 1 {
			if r, ok := b.rows[i]; ok {
				f = xorForm(f, r)
			}
		}
		i--
	}
	return f
}

func (b *basis) add(f linForm) {
	f = b.reduce(f)
	if t := top(f); t >= 0 {
		b.rows[t] = f
	}
}

func (b *basis) addFact(k *Term) {
	switch {
	case k.Op == OBAnd:
		b.addFact(k.A[0])
		b.addFact(k.A[1])
	case k.Op == OEq && k.A[0].W > 0:
		x, y := lin(k.A[0]), lin(k.A[1])
		for i := range x {
			b.add(xorForm(x[i], y[i]))
		}
	case k.Op == OBNot && k.A[0].Op == OEq && k.A[0].A[0].W == 1:
		d := xorForm(lin(k.A[0].A[0])[0], lin(k.A[0].A[1])[0])
		d.c = !d.c
		b.add(d)
	}
}

func (b *basis) simp(t *Term) *Term {
	switch t.Op {
	case OBAnd:
		return BAnd(b.simp(t.A[0]), b.simp(t.A[1]))
	case OBOr:
		return BOr(b.simp(t.A[0]), b.simp(t.A[1]))
	case OBNot:
		return BNot(b.simp(t.A[0]))
	case OEq:
		if t.A[0].W == 0 || t.xors <= 4 {
			return t
		}
		x, y := lin(t.A[0]), lin(t.A[1])
		all := true
		for i := range x {
			d := b.reduce(xorForm(x[i], y[i]))
			if d.isConst() {
				if d.c {
					return False
				}
			} else {
				all = false
			}
		}
		if all {
			return True
		}
	}
	return t
}

// Heavy reports whether t contains deep xor chains.
func Heavy(t *Term) bool { return t.xors > 4 }

// SimplifyUnder simplifies c assuming the facts pc, using linear reasoning over GF(2) only.
func SimplifyUnder(pc []*Term, c *Term) *Term {
	if c.xors <= 4 {
		return c
	}
	b := &basis{rows: map[int]linForm{}}
	for _, k := range pc {
		b.addFact(k)
	}
	return b.simp(c)
}
