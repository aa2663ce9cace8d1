package term

import (
	"math/rand"
	"testing"
)

// Differential test: the simplifying constructors, applied to symbolic terms and then
// evaluated, must agree with the constructors applied to the constants themselves and
// with an independent direct computation.
type pair struct {
	t *Term
	v uint64
}

func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	widths := []uint8{1, 3, 8, 16, 24, 32, 64}
	for iter := 0; iter < 60000; iter++ {
		m := map[*Term]uint64{}
		pool := map[uint8][]pair{}
		for _, w := range widths {
			for k := 0; k < 2; k++ {
				x := Var(string(rune('a'+k))+string(rune('0'+w)), w)
				v := r.Uint64() & mask(w)
				if r.Intn(3) == 0 {
					v &= 3
				}
				m[x] = v
				pool[w] = append(pool[w], pair{x, v})
			}
			cv := r.Uint64() & mask(w)
			switch r.Intn(4) {
			case 0:
				cv = uint64(r.Intn(3)) & mask(w)
			case 1:
				cv = mask(w) >> uint(r.Intn(int(w)))
			}
			pool[w] = append(pool[w], pair{Const(w, cv), cv})
		}
		for _, n := range []string{"p", "q"} {
			x := Var(n, 0)
			v := uint64(r.Intn(2))
			m[x] = v
			pool[0] = append(pool[0], pair{x, v})
		}
		ev := NewEvaluator(m)
		for step := 0; step < 25; step++ {
			w := widths[r.Intn(len(widths))]
			pk := func(w uint8) pair { p := pool[w]; return p[r.Intn(len(p))] }
			a, b := pk(w), pk(w)
			mm := mask(w)
			var n pair
			nw := w
			switch r.Intn(22) {
			case 0:
				n = pair{Add(a.t, b.t), (a.v + b.v) & mm}
			case 1:
				n = pair{Sub(a.t, b.t), (a.v - b.v) & mm}
			case 2:
				n = pair{Mul(a.t, b.t), (a.v * b.v) & mm}
			case 3:
				n = pair{And(a.t, b.t), a.v & b.v}
			case 4:
				n = pair{Or(a.t, b.t), a.v | b.v}
			case 5:
				n = pair{Xor(a.t, b.t), a.v ^ b.v}
			case 6:
				n = pair{Not(a.t), ^a.v & mm}
			case 7:
				if b.v == 0 {
					continue
				}
				n = pair{UDiv(a.t, b.t), a.v / b.v}
			case 8:
				if b.v == 0 {
					continue
				}
				n = pair{URem(a.t, b.t), a.v % b.v}
			case 9:
				if b.v == 0 {
					continue
				}
				x, y := sx(a.v, w), sx(b.v, w)
				if y == -1 {
					n = pair{SDiv(a.t, b.t), uint64(-x) & mm}
				} else {
					n = pair{SDiv(a.t, b.t), uint64(x/y) & mm}
				}
			case 10:
				if b.v == 0 {
					continue
				}
				x, y := sx(a.v, w), sx(b.v, w)
				if y == -1 {
					n = pair{SRem(a.t, b.t), 0}
				} else {
					n = pair{SRem(a.t, b.t), uint64(x%y) & mm}
				}
			case 11:
				s := pair{Const(w, uint64(r.Intn(int(w)+2))&mm), 0}
				s.v = s.t.Val
				if r.Intn(2) == 0 {
					s = b
				}
				v := uint64(0)
				if s.v < uint64(w) {
					v = a.v << s.v & mm
				}
				n = pair{Shl(a.t, s.t), v}
			case 12:
				s := pair{Const(w, uint64(r.Intn(int(w)+2))&mm), 0}
				s.v = s.t.Val
				if r.Intn(2) == 0 {
					s = b
				}
				v := uint64(0)
				if s.v < uint64(w) {
					v = a.v >> s.v
				}
				n = pair{LShr(a.t, s.t), v}
			case 13:
				s := pair{Const(w, uint64(r.Intn(int(w)+2))&mm), 0}
				s.v = s.t.Val
				if r.Intn(2) == 0 {
					s = b
				}
				k := s.v
				if k > 63 {
					k = 63
				}
				n = pair{AShr(a.t, s.t), uint64(sx(a.v, w)>>k) & mm}
			case 14:
				n, nw = pair{Eq(a.t, b.t), b2u(a.v == b.v)}, 0
			case 15:
				n, nw = pair{Ult(a.t, b.t), b2u(a.v < b.v)}, 0
			case 16:
				n, nw = pair{Slt(a.t, b.t), b2u(sx(a.v, w) < sx(b.v, w))}, 0
			case 17:
				c := pk(0)
				v := b.v
				if c.v == 1 {
					v = a.v
				}
				n = pair{Ite(c.t, a.t, b.t), v}
			case 18:
				c, d, e := pk(0), pk(0), pk(0)
				switch r.Intn(4) {
				case 0:
					n = pair{BAnd(c.t, d.t), c.v & d.v}
				case 1:
					n = pair{BOr(c.t, d.t), c.v | d.v}
				case 2:
					n = pair{BNot(c.t), 1 - c.v}
				case 3:
					v := e.v
					if c.v == 1 {
						v = d.v
					}
					n = pair{Ite(c.t, d.t, e.t), v}
				}
				nw = 0
			case 19: // extract
				nw = widths[r.Intn(len(widths))]
				if nw > w {
					continue
				}
				lo := uint64(r.Intn(int(w-nw) + 1))
				n = pair{Extract(a.t, lo, nw), a.v >> lo & mask(nw)}
			case 20:
				nw = widths[r.Intn(len(widths))]
				if nw < w {
					continue
				}
				if r.Intn(2) == 0 {
					n = pair{ZExt(a.t, nw), a.v}
				} else {
					n = pair{SExt(a.t, nw), uint64(sx(a.v, w)) & mask(nw)}
				}
			case 21:
				w2 := widths[r.Intn(len(widths))]
				c := pk(w2)
				nw = w + w2
				if pool[nw] == nil {
					continue
				}
				n = pair{Concat(a.t, c.t), a.v<<w2 | c.v}
			}
			if n.t.W != nw {
				t.Fatalf("width %d want %d: %v", n.t.W, nw, n.t)
			}
			if got := ev.Eval(n.t); got != n.v {
				t.Fatalf("iter %d: got %d want %d: %v", iter, got, n.v, n.t)
			}
			if nw > 0 && (n.v < n.t.umin || n.v > n.t.umax) {
				t.Fatalf("range [%d,%d] excludes %d: %v", n.t.umin, n.t.umax, n.v, n.t)
			}
			pool[nw] = append(pool[nw], n)
		}
	}
}
