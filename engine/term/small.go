package term

import (
	"encoding/binary"
	"sync"
)

// Terms over a single variable of at most 8 bits are canonical: two such terms with the same
// value table are represented by the same term, constants by constants and bit fields of the
// variable by extracts. This settles table look-ups (hexadecimal digits and the like).

type repKey struct {
	v   *Term
	w   uint8
	tab string
}

var (
	repMu  sync.Mutex
	repTbl = map[repKey]*Term{}
)

// table is the value of t for every value of its only variable.
func table(t *Term) []uint64 {
	if p := t.tab.Load(); p != nil {
		return *p
	}
	n := int(mask(t.one.W)) + 1
	out := make([]uint64, n)
	if t.Op == OVar {
		for i := range out {
			out[i] = uint64(i)
		}
	} else {
		var kids [3][]uint64
		for k := 0; k < int(t.N); k++ {
			if !t.A[k].IsConst() {
				kids[k] = table(t.A[k])
			}
		}
		for i := range out {
			e := Evaluator{memo: map[uint32]uint64{}}
			for k := 0; k < int(t.N); k++ {
				if kids[k] != nil {
					e.memo[t.A[k].ID] = kids[k][i]
				}
			}
			if t.A[0].Op == OVar || t.N > 1 && t.A[1].Op == OVar || t.N > 2 && t.A[2].Op == OVar {
				e.M = map[*Term]uint64{t.one: uint64(i)}
			}
			out[i] = e.eval(t)
		}
	}
	t.tab.Store(&out)
	return out
}

func canon(t *Term) *Term {
	switch t.Op {
	case OConst, OVar:
		return t
	case OConcat:
		return t
	case OExtract, OSExt:
		if t.A[0].Op == OVar {
			return t
		}
	}
	tab := table(t)
	same := true
	for _, x := range tab {
		if x != tab[0] {
			same = false
			break
		}
	}
	if same {
		return Const(t.W, tab[0])
	}
	v := t.one
	if t.W > 0 && v.W > 0 {
		// a field of the variable, zero extended
		for lo := uint8(0); lo < v.W; lo++ {
			if tab[1<<lo] != 1 {
				continue
			}
			for w := uint8(1); lo+w <= v.W && w <= t.W; w++ {
				ok := true
				for i, x := range tab {
					if uint64(i)>>lo&mask(w) != x {
						ok = false
						break
					}
				}
				if ok {
					return ZExt(Extract(v, uint64(lo), w), t.W)
				}
			}
		}
	}
	if t.Op == OExtract {
		return t
	}
	var b []byte
	if t.W <= 8 {
		b = make([]byte, len(tab))
		for i, x := range tab {
			b[i] = byte(x)
		}
	} else {
		b = make([]byte, 8*len(tab))
		for i, x := range tab {
			binary.LittleEndian.PutUint64(b[8*i:], x)
		}
	}
	k := repKey{v, t.W, string(b)}
	repMu.Lock()
	defer repMu.Unlock()
	if r, ok := repTbl[k]; ok {
		return r
	}
	repTbl[k] = t
	return t
}
