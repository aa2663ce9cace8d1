package term

import "sort"

// Sums: equations between chains of additions and subtractions are decided by cancelling equal
// addends, so the order in which a checksum adds up its input does not matter.

func isSum(t *Term) bool {
	return t.Op == OSub || t.Op == ONot && isSum(t.A[0]) || t.Op == OAdd && !t.A[1].IsConst()
}

type sumForm struct {
	k map[*Term]uint64
	c uint64
	n int
}

func (f *sumForm) add(t *Term, m uint64) bool {
	for {
		if f.n++; f.n > 4000 {
			return false
		}
		switch {
		case t.IsConst():
			f.c += m * t.Val
			return true
		case t.Op == OAdd:
			if !f.add(t.A[1], m) {
				return false
			}
			t = t.A[0]
		case t.Op == OSub:
			if !f.add(t.A[1], -m) {
				return false
			}
			t = t.A[0]
		case t.Op == ONot: // -x-1
			f.c -= m
			m = -m
			t = t.A[0]
		default:
			f.k[t] += m
			return true
		}
	}
}

// sumEq simplifies a == b, or returns nil when nothing cancels.
func sumEq(a, b *Term) *Term {
	f := sumForm{k: map[*Term]uint64{}}
	if !f.add(a, 1) {
		return nil
	}
	before := len(f.k)
	g := sumForm{k: map[*Term]uint64{}}
	if !g.add(b, 1) {
		return nil
	}
	before += len(g.k)
	for t, m := range g.k {
		f.k[t] -= m
	}
	w := a.W
	c := (f.c - g.c) & mask(w)
	var pos, neg []*Term
	n := 0
	for t, m := range f.k {
		m &= mask(w)
		if m == 0 {
			continue
		}
		n++
		switch m {
		case 1:
			pos = append(pos, t)
		case mask(w):
			neg = append(neg, t)
		default:
			pos = append(pos, Mul(t, Const(w, m)))
		}
	}
	if n >= before {
		return nil
	}
	add := func(ts []*Term) *Term {
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
		r := Const(w, 0)
		for _, t := range ts {
			r = Add(r, t)
		}
		return r
	}
	l, r := add(pos), Sub(add(neg), Const(w, c))
	if len(pos) == 0 {
		l, r = add(neg), Const(w, c)
	}
	return Eq(l, r)
}

// sums is a system of linear equations modulo 2^w, in echelon form.
type sums struct {
	w    uint8
	rows []sumRow
}

type sumRow struct {
	pivot *Term
	f     sumForm // pivot == f
}

func (b *sums) form(x, y *Term) (sumForm, bool) {
	f := sumForm{k: map[*Term]uint64{}}
	if !f.add(x, 1) || !f.add(y, mask(b.w)) {
		return f, false
	}
	for i := range b.rows { // each pivot is absent from later rows
		r := &b.rows[i]
		m := f.k[r.pivot] & mask(b.w)
		if m == 0 {
			continue
		}
		delete(f.k, r.pivot)
		for t, k := range r.f.k {
			f.k[t] += m * k
		}
		f.c += m * r.f.c
	}
	for t, k := range f.k {
		if k &= mask(b.w); k == 0 {
			delete(f.k, t)
		} else {
			f.k[t] = k
		}
	}
	f.c &= mask(b.w)
	return f, true
}

func (b *sums) fact(x, y *Term) {
	f, ok := b.form(x, y)
	if !ok {
		return
	}
	var pivot *Term
	for t, k := range f.k {
		if k&1 == 1 && (pivot == nil || t.ID > pivot.ID) {
			pivot = t
		}
	}
	if pivot == nil {
		return
	}
	// pivot*k + rest == 0, so pivot == -rest/k
	k := f.k[pivot]
	inv := k
	for i := 0; i < 6; i++ {
		inv *= 2 - k*inv
	}
	delete(f.k, pivot)
	for t := range f.k {
		f.k[t] = -f.k[t] * inv & mask(b.w)
	}
	f.c = -f.c * inv & mask(b.w)
	// keep earlier rows free of the new pivot
	for i := range b.rows {
		r := &b.rows[i]
		if m := r.f.k[pivot]; m != 0 {
			delete(r.f.k, pivot)
			for t, k := range f.k {
				r.f.k[t] += m * k
			}
			r.f.c += m * f.c
		}
	}
	b.rows = append(b.rows, sumRow{pivot, f})
}

// SumDecides decides an equation between sums, or its negation, under the facts pc: it reports
// whether c is determined, and how.
func SumDecides(pc []*Term, c *Term) (val, ok bool) {
	e, pos := c, true
	if e.Op == OBNot {
		e, pos = e.A[0], false
	}
	if e.Op != OEq || e.A[0].W < 2 || !isSum(e.A[0]) && !isSum(e.A[1]) {
		return false, false
	}
	b := &sums{w: e.A[0].W}
	n := 0
	for _, k := range pc {
		if k.Op == OEq && k.A[0].W == b.w {
			b.fact(k.A[0], k.A[1])
			n++
		}
	}
	if n == 0 {
		return false, false
	}
	f, good := b.form(e.A[0], e.A[1])
	if !good || len(f.k) > 0 {
		return false, false
	}
	return (f.c == 0) == pos, true
}
