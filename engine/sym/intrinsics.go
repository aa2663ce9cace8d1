package sym

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"verifengine/solver"
	"verifengine/term"
)

type intrinsic func(x *exec, a []Value) Value

// declined is returned by an intrinsic that leaves the call to the function's own source.
var declined Value = &declinedT{}

type declinedT struct{ _ int }

var intrinsics map[string]intrinsic

// Redirections: std function -> Go model in the vmodel package.
var Redirects = map[string]string{
	"fmt.Sprintf":                          "Sprintf",
	"fmt.Sprint":                           "Sprint",
	"fmt.Sprintln":                         "Sprintln",
	"fmt.Errorf":                           "Errorf",
	"fmt.Fprintf":                          "Fprintf",
	"fmt.Fprint":                           "Fprint",
	"fmt.Fprintln":                         "Fprintln",
	"fmt.Appendf":                          "Appendf",
	"errors.Is":                            "ErrorsIs",
	"errors.As":                            "ErrorsAs",
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Compare":             "Compare",
	"internal/bytealg.CompareString":       "CompareString",
	"internal/bytealg.Equal":               "Equal",
	"strings.Index":                        "IndexString",
	"bytes.Index":                          "Index",
	"encoding/binary.Read":                 "BinaryRead",
	"encoding/binary.Write":                "BinaryWrite",
	"encoding/binary.Size":                 "BinarySize",
	"encoding/binary.Decode":               "BinaryDecode",
	"encoding/binary.Encode":               "BinaryEncode",
	"encoding/binary.Append":               "BinaryAppend",
	"sort.Slice":                           "SortSlice",
	"sort.SliceStable":                     "SortSlice",
	"sort.SliceIsSorted":                   "SortSliceIsSorted",
	"(*sync.Map).Range":                    "SyncMapRange",
	"(*sync.WaitGroup).Go":                 "WaitGroupGo",
	"(*sync.Cond).Wait":                    "CondWait",
}

const vp = "verifharness/v."

func nop(x *exec, a []Value) Value { return nil }

func init() {
	in := map[string]intrinsic{}
	intrinsics = in

	// ---- harness primitives ----
	scalar := func(w uint8) intrinsic {
		return func(x *exec, a []Value) Value {
			n := x.name(a[0])
			v := x.varFor(n, w)
			x.commitVar(n, v)
			return v
		}
	}
	in[vp+"Byte"] = scalar(8)
	in[vp+"U16"] = scalar(16)
	in[vp+"U32"] = scalar(32)
	in[vp+"U64"] = scalar(64)
	in[vp+"Bool"] = scalar(0)
	in[vp+"Int"] = func(x *exec, a []Value) Value {
		return x.intVar(x.name(a[0]), a[1], a[2])
	}
	in[vp+"Choose"] = func(x *exec, a []Value) Value {
		n := x.name(a[0])
		lo, hi := int(x.mustInt(x.term(a[1]))), int(x.mustInt(x.term(a[2])))
		if hi < lo {
			panic(pathEnd{"infeasible"})
		}
		if lo == hi {
			v := x.varFor(n, 1)
			x.commitVar(n, v)
			x.st.addPC(term.Eq(v, term.Const(1, 0)), x)
			return c64(lo)
		}
		w := bitsFor(uint64(hi - lo))
		v := x.varFor(n, w)
		if _, ok := x.st.ranges[v]; !ok {
			x.st.addPC(term.Ule(v, term.Const(w, uint64(hi-lo))), x)
			x.st.ranges[v] = rng{0, uint64(hi - lo)}
		}
		k := x.mustInt(v)
		x.commitVar(n, v)
		return c64(lo + int(k))
	}
	in[vp+"Bytes"] = func(x *exec, a []Value) Value {
		n := x.name(a[0])
		k := x.mustLen(x.term(a[1]))
		b := make([]*term.Term, k)
		for i := range b {
			b[i] = x.varFor(n, 8)
			x.commitVar(n, b[i])
		}
		return x.newBytes(b)
	}
	in[vp+"Concrete"] = func(x *exec, a []Value) Value { return c64(int(x.mustInt(x.term(a[0])))) }
	in[vp+"Split"] = func(x *exec, a []Value) Value { return term.Bool(x.decide(x.term(a[0]))) }
	in[vp+"Assume"] = func(x *exec, a []Value) Value { x.assumeTerm(x.term(a[0])); return nil }
	in[vp+"Assert"] = func(x *exec, a []Value) Value {
		x.assertTerm(x.term(a[0]), x.name(a[1]))
		return nil
	}
	in[vp+"Stop"] = func(x *exec, a []Value) Value { panic(pathEnd{"stop"}) }
	in[vp+"Cover"] = func(x *exec, a []Value) Value {
		id := x.name(a[0])
		for _, c := range x.st.covers {
			if c == id {
				return nil
			}
		}
		x.st.covers = append(x.st.covers, id)
		return nil
	}
	in[vp+"Observe"] = func(x *exec, a []Value) Value { x.observe(x.name(a[0]), x.slice(a[1])); return nil }
	nary := func(and bool) intrinsic {
		return func(x *exec, a []Value) Value {
			s := x.slice(a[0])
			r := term.Bool(and)
			for i := 0; i < s.len; i++ {
				t := x.term(x.obj(s.obj).cells[s.off+i])
				if and {
					r = term.BAnd(r, t)
				} else {
					r = term.BOr(r, t)
				}
			}
			return r
		}
	}
	in[vp+"And"] = nary(true)
	in[vp+"Or"] = nary(false)
	in[vp+"Not"] = func(x *exec, a []Value) Value { return term.BNot(x.term(a[0])) }
	in[vp+"Implies"] = func(x *exec, a []Value) Value { return term.Implies(x.term(a[0]), x.term(a[1])) }
	ite := func(x *exec, a []Value) Value { return term.Ite(x.term(a[0]), x.term(a[1]), x.term(a[2])) }
	in[vp+"IteInt"] = ite
	in[vp+"IteByte"] = ite
	in[vp+"IteU16"] = ite
	in[vp+"IteBool"] = ite
	in[vp+"EqBytes"] = func(x *exec, a []Value) Value {
		p, q := x.slice(a[0]), x.slice(a[1])
		if p.len != q.len {
			return term.False
		}
		r := term.True
		bp, bq := x.bytesOf(p), x.bytesOf(q)
		for i := range bp {
			r = term.BAnd(r, term.Eq(bp[i], bq[i]))
		}
		return r
	}
	in[vp+"Tier"] = func(x *exec, a []Value) Value { return c64(x.m.Tier) }
	in[vp+"Symbolic"] = func(x *exec, a []Value) Value { return term.True }
	in[vp+"Interleave"] = func(x *exec, a []Value) Value {
		x.initRace(x.mustLen(x.term(a[0])))
		return nil
	}
	in[vp+"Sequential"] = func(x *exec, a []Value) Value {
		x.st.inter = false
		return nil
	}
	in[vp+"Yield"] = func(x *exec, a []Value) Value { x.visible(); return nil }
	in[vp+"Now"] = func(x *exec, a []Value) Value { return x.st.now }
	in[vp+"Wait"] = func(x *exec, a []Value) Value {
		if x.g.woken {
			x.g.woken = false
			return nil
		}
		panic(blockReq{wait{kind: wQuiesce}})
	}
	in[vp+"MaxSteps"] = func(x *exec, a []Value) Value { x.st.maxStep = x.mustLen(x.term(a[0])); return nil }
	in[vp+"Live"] = func(x *exec, a []Value) Value {
		n := 0
		for _, g := range x.st.gs {
			if g.status != gDone && len(g.frames) > 0 {
				n++
			}
		}
		return c64(n)
	}

	// ---- model helpers ----
	in["verifharness/vmodel.sprintf"] = func(x *exec, a []Value) Value { return x.sprintf(a) }
	in["verifharness/vmodel.asAssign"] = func(x *exec, a []Value) Value { return x.asAssign(a) }
	in["verifharness/vmodel.comparable"] = func(x *exec, a []Value) Value {
		i := x.iface(a[0])
		return term.Bool(i.t == nil || types.Comparable(i.t))
	}
	in["verifharness/vmodel.mapKeys"] = func(x *exec, a []Value) Value {
		l := x.kv(x.ptr(a[0]))
		o := &Object{}
		for _, e := range l.ents {
			o.cells = append(o.cells, e.k)
		}
		return Slice{x.addObj(o), 0, len(l.ents), len(l.ents)}
	}
	in["verifharness/vmodel.block"] = func(x *exec, a []Value) Value {
		panic(blockReq{wait{kind: wForever}})
	}

	fixed := func(x *exec, v Value) ([]fixedCell, []Value, Ptr) {
		i := x.iface(v)
		if i.t == nil {
			return nil, nil, Ptr{}
		}
		var t types.Type
		n := 1
		switch u := under(i.t).(type) {
		case *types.Pointer:
			t = u.Elem()
			p := x.ptr(i.v)
			x.nilCheck(p)
			fs, ok := fixedCells(t)
			if !ok {
				return nil, nil, Ptr{}
			}
			return fs, nil, p
		case *types.Slice:
			t = u.Elem()
			s := x.slice(i.v)
			fs, ok := fixedCells(t)
			if !ok {
				return nil, nil, Ptr{}
			}
			k := cellsOf(t)
			all := []fixedCell{}
			for n = 0; n < s.len; n++ {
				for _, f := range fs {
					f.cell += n * k
					all = append(all, f)
				}
			}
			return all, nil, Ptr{obj: s.obj, off: s.off}
		}
		fs, ok := fixedCells(i.t)
		if !ok {
			return nil, nil, Ptr{}
		}
		if a, isA := i.v.(Agg); isA {
			return fs, a, Ptr{}
		}
		return fs, []Value{i.v}, Ptr{}
	}
	in["verifharness/vmodel.fixedSize"] = func(x *exec, a []Value) Value {
		fs, vals, _ := fixed(x, a[0])
		if fs == nil || vals != nil && x.decide(x.term(a[1])) {
			return c64(-1)
		}
		n := 0
		for _, f := range fs {
			n += f.size
		}
		return c64(n)
	}
	in["verifharness/vmodel.fixedSet"] = func(x *exec, a []Value) Value {
		fs, _, p := fixed(x, a[0])
		b := x.bytesOf(x.slice(a[1]))
		little := x.decide(x.term(a[2]))
		if len(b) == 0 {
			return nil
		}
		for _, f := range fs {
			w := b[:f.size]
			b = b[f.size:]
			if f.blank {
				continue
			}
			var t *term.Term
			for i := range w {
				c := w[i]
				if little {
					c = w[len(w)-1-i]
				}
				if t == nil {
					t = c
				} else {
					t = term.Concat(t, c)
				}
			}
			if f.bool {
				t = term.Ne(t, term.Const(8, 0))
			}
			x.store(Ptr{obj: p.obj, off: p.off + f.cell}, t, f.t)
		}
		return nil
	}
	in["verifharness/vmodel.fixedGet"] = func(x *exec, a []Value) Value {
		fs, vals, p := fixed(x, a[0])
		s := x.slice(a[1])
		little := x.decide(x.term(a[2]))
		k := 0
		for _, f := range fs {
			var t *term.Term
			switch {
			case f.blank:
				t = term.Const(uint8(8*f.size), 0)
			case vals != nil:
				t = x.term(vals[f.cell])
			default:
				t = x.term(x.load(Ptr{obj: p.obj, off: p.off + f.cell}, f.t))
			}
			if f.bool && !f.blank {
				t = term.Ite(t, term.Const(8, 1), term.Const(8, 0))
			}
			for i := 0; i < f.size; i++ {
				sh := 8 * (f.size - 1 - i)
				if little {
					sh = 8 * i
				}
				x.store(Ptr{obj: s.obj, off: s.off + k}, term.Extract(t, uint64(sh), 8), types.Typ[types.Uint8])
				k++
			}
		}
		return nil
	}
	in["verifharness/vmodel.sliceLen"] = func(x *exec, a []Value) Value {
		return c64(x.slice(x.iface(a[0]).v).len)
	}
	in["verifharness/vmodel.sliceSwap"] = func(x *exec, a []Value) Value {
		i := x.iface(a[0])
		s := x.slice(i.v)
		t := under(i.t).(*types.Slice).Elem()
		k := cellsOf(t)
		at := func(v Value) Ptr { return Ptr{obj: s.obj, off: s.off + k*int(x.mustInt(x.term(v)))} }
		p, q := at(a[1]), at(a[2])
		v, w := x.load(p, t), x.load(q, t)
		x.store(p, w, t)
		x.store(q, v, t)
		return nil
	}

	// ---- sync ----
	// notifyList: cell 1 of sync.Cond counts waiters, cell 2 those notified.
	in["verifharness/vmodel.condAdd"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		x.visible()
		n := x.cellInt(p, 1)
		x.setCellInt(p, 1, int64(n+1))
		return c64(int(n))
	}
	in["verifharness/vmodel.condWait"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		n := int(x.mustInt(x.term(a[1])))
		x.visible()
		if uint64(n) >= x.cellInt(p, 2) {
			panic(blockReq{wait{kind: wCond, p: p, ch: n}})
		}
		x.acquire(p)
		return nil
	}
	condNotify := func(all bool) intrinsic {
		return func(x *exec, a []Value) Value {
			p := x.ptr(a[0])
			x.nilCheck(p)
			x.visible()
			w, n := x.cellInt(p, 1), x.cellInt(p, 2)
			if n < w {
				if n++; all {
					n = w
				}
				x.setCellInt(p, 2, int64(n))
			}
			x.release(p)
			return nil
		}
	}
	in["(*sync.Cond).Signal"] = condNotify(false)
	in["(*sync.Cond).Broadcast"] = condNotify(true)
	lock := func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		x.visible()
		if x.cellInt(p, 0) != 0 {
			panic(blockReq{wait{kind: wMutex, p: p}})
		}
		x.setCellInt(p, 0, 1)
		x.acquire(p)
		return nil
	}
	unlock := func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		x.visible()
		if x.cellInt(p, 0) == 0 {
			x.fatal("sync: unlock of unlocked mutex")
		}
		x.setCellInt(p, 0, 0)
		x.release(p)
		return nil
	}
	trylock := func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		if x.cellInt(p, 0) != 0 {
			return term.False
		}
		x.setCellInt(p, 0, 1)
		x.acquire(p)
		return term.True
	}
	for _, t := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex)."} {
		in[t+"Lock"] = lock
		in[t+"Unlock"] = unlock
		in[t+"TryLock"] = trylock
	}
	in["(*sync.RWMutex).Lock"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		x.visible()
		if x.cellInt(p, 0) != 0 {
			if !x.g.wcount {
				x.g.wcount = true
				x.setCellInt(p, 1, int64(x.cellInt(p, 1))+1)
			}
			panic(blockReq{wait{kind: wWLock, p: p}})
		}
		if x.g.wcount {
			x.g.wcount = false
			x.setCellInt(p, 1, int64(x.cellInt(p, 1))-1)
		}
		x.setCellInt(p, 0, -1)
		x.acquire(p)
		x.acquire(Ptr{obj: p.obj, off: p.off + 1})
		return nil
	}
	in["(*sync.RWMutex).TryLock"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		if x.cellInt(p, 0) != 0 {
			return term.False
		}
		x.setCellInt(p, 0, -1)
		x.acquire(p)
		x.acquire(Ptr{obj: p.obj, off: p.off + 1})
		return term.True
	}
	in["(*sync.RWMutex).Unlock"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		if int32(x.cellInt(p, 0)) != -1 {
			x.fatal("sync: Unlock of unlocked RWMutex")
		}
		x.setCellInt(p, 0, 0)
		x.release(p)
		return nil
	}
	in["(*sync.RWMutex).RLock"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		x.visible()
		n := int32(x.cellInt(p, 0))
		if n < 0 || x.cellInt(p, 1) != 0 {
			panic(blockReq{wait{kind: wRLock, p: p}})
		}
		x.setCellInt(p, 0, int64(n+1))
		x.acquire(p)
		return nil
	}
	in["(*sync.RWMutex).TryRLock"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		n := int32(x.cellInt(p, 0))
		if n < 0 || x.cellInt(p, 1) != 0 {
			return term.False
		}
		x.setCellInt(p, 0, int64(n+1))
		x.acquire(p)
		return term.True
	}
	in["(*sync.RWMutex).RUnlock"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		n := int32(x.cellInt(p, 0))
		if n <= 0 {
			x.fatal("sync: RUnlock of unlocked RWMutex")
		}
		x.setCellInt(p, 0, int64(n-1))
		x.release(Ptr{obj: p.obj, off: p.off + 1})
		return nil
	}
	wgAdd := func(x *exec, p Ptr, d int64) {
		x.visible()
		n := int64(x.cellInt(p, 0)) + d
		if n < 0 {
			panic(goPanic{Iface{x.p.rtErr, Str{S: "sync: negative WaitGroup counter"}}, "sync: negative WaitGroup counter"})
		}
		x.setCellInt(p, 0, n)
		if d < 0 {
			x.release(p)
		} else if x.st.inter && d > 0 && n == d {
			// the first increment must be ordered with Wait (as in package sync)
			x.raceRead(Ptr{obj: p.obj, off: p.off + 1}, 1)
		}
	}
	in["(*sync.WaitGroup).Add"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		wgAdd(x, p, int64(x.mustInt(x.term(a[1]))))
		return nil
	}
	in["(*sync.WaitGroup).Done"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		wgAdd(x, p, -1)
		return nil
	}
	in["(*sync.WaitGroup).Wait"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		x.visible()
		if x.cellInt(p, 0) != 0 {
			first := true
			for _, g := range x.st.gs {
				if g != x.g && g.status == gBlocked && g.w.kind == wWG && g.w.p == p {
					first = false
				}
			}
			if x.st.inter && first {
				x.raceWrite(Ptr{obj: p.obj, off: p.off + 1}, 1)
			}
			panic(blockReq{wait{kind: wWG, p: p}})
		}
		x.acquire(p)
		return nil
	}
	in["(*sync.Pool).Put"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		v := x.iface(a[1])
		if v.t == nil {
			return nil
		}
		l := x.poolOf(p)
		x.wobj(p.obj).cells[p.off] = &poolList{append(append([]Value(nil), l.items...), v)}
		x.release(p)
		return nil
	}
	in["(*sync.Map).Load"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		l := x.kv(p)
		if i := x.findKey(l.ents, a[1], anyType); i >= 0 {
			x.acquire(p)
			return Tuple{l.ents[i].v, term.True}
		}
		x.acquire(p)
		return Tuple{Iface{}, term.False}
	}
	mapStore := func(x *exec, p Ptr, k, v Value) {
		l := x.kv(p)
		i := x.findKey(l.ents, k, anyType)
		n := &kvList{append([]mapEnt(nil), l.ents...)}
		if i >= 0 {
			n.ents[i].v = v
		} else {
			n.ents = append(n.ents, mapEnt{k, v})
		}
		x.wobj(p.obj).cells[p.off] = n
		x.acquire(p)
		x.release(p)
	}
	mapDel := func(x *exec, p Ptr, i int) {
		l := x.kv(p)
		x.wobj(p.obj).cells[p.off] = &kvList{append(append([]mapEnt(nil), l.ents[:i]...), l.ents[i+1:]...)}
		x.acquire(p)
		x.release(p)
	}
	in["(*sync.Map).Store"] = func(x *exec, a []Value) Value {
		x.visible()
		mapStore(x, x.ptr(a[0]), a[1], a[2])
		return nil
	}
	in["(*sync.Map).Swap"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		l := x.kv(p)
		i := x.findKey(l.ents, a[1], anyType)
		mapStore(x, p, a[1], a[2])
		if i >= 0 {
			return Tuple{l.ents[i].v, term.True}
		}
		return Tuple{Iface{}, term.False}
	}
	in["(*sync.Map).LoadOrStore"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		l := x.kv(p)
		if i := x.findKey(l.ents, a[1], anyType); i >= 0 {
			x.acquire(p)
			return Tuple{l.ents[i].v, term.True}
		}
		mapStore(x, p, a[1], a[2])
		return Tuple{a[2], term.False}
	}
	in["(*sync.Map).Delete"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		if i := x.findKey(x.kv(p).ents, a[1], anyType); i >= 0 {
			mapDel(x, p, i)
		}
		return nil
	}
	in["(*sync.Map).LoadAndDelete"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		l := x.kv(p)
		if i := x.findKey(l.ents, a[1], anyType); i >= 0 {
			v := l.ents[i].v
			mapDel(x, p, i)
			return Tuple{v, term.True}
		}
		return Tuple{Iface{}, term.False}
	}
	in["(*sync.Map).Clear"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		x.wobj(p.obj).cells[p.off] = &kvList{}
		x.acquire(p)
		x.release(p)
		return nil
	}

	// ---- atomics ----
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		pre := "sync/atomic."
		in[pre+"Load"+t] = func(x *exec, a []Value) Value {
			p := x.ptr(a[0])
			x.nilCheck(p)
			x.visible()
			x.raceAtomic(p, false)
			x.acquire(p)
			return x.obj(p.obj).cells[p.off]
		}
		in[pre+"Store"+t] = func(x *exec, a []Value) Value {
			p := x.ptr(a[0])
			x.nilCheck(p)
			x.visible()
			x.raceAtomic(p, true)
			x.wobj(p.obj).cells[p.off] = a[1]
			x.acquire(p)
			x.release(p)
			return nil
		}
		in[pre+"Swap"+t] = func(x *exec, a []Value) Value {
			p := x.ptr(a[0])
			x.nilCheck(p)
			x.visible()
			x.raceAtomic(p, true)
			o := x.wobj(p.obj)
			v := o.cells[p.off]
			o.cells[p.off] = a[1]
			x.acquire(p)
			x.release(p)
			return v
		}
		in[pre+"Add"+t] = func(x *exec, a []Value) Value {
			p := x.ptr(a[0])
			x.nilCheck(p)
			x.visible()
			x.raceAtomic(p, true)
			o := x.wobj(p.obj)
			v := term.Add(x.term(o.cells[p.off]), x.term(a[1]))
			o.cells[p.off] = v
			x.acquire(p)
			x.release(p)
			return v
		}
		in[pre+"CompareAndSwap"+t] = func(x *exec, a []Value) Value {
			p := x.ptr(a[0])
			x.nilCheck(p)
			x.visible()
			x.raceAtomic(p, true)
			if !x.decide(x.equal(x.obj(p.obj).cells[p.off], a[1], nil)) {
				x.acquire(p)
				return term.False
			}
			x.wobj(p.obj).cells[p.off] = a[2]
			x.acquire(p)
			x.release(p)
			return term.True
		}
	}
	in["(*sync/atomic.Value).Load"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		x.raceAtomic(p, false)
		x.acquire(p)
		return x.obj(p.obj).cells[p.off]
	}
	in["(*sync/atomic.Value).Store"] = func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.visible()
		x.raceAtomic(p, true)
		x.wobj(p.obj).cells[p.off] = a[1]
		x.acquire(p)
		x.release(p)
		return nil
	}

	in["unique.Make"] = func(x *exec, a []Value) Value {
		cells, ok := a[0].(Agg)
		if !ok {
			cells = Agg{a[0]}
		}
		key := ""
		for _, c := range cells {
			switch c := c.(type) {
			case *term.Term:
				if !c.IsConst() {
					unsup("unique.Make of a symbolic value")
				}
				key += fmt.Sprintf("%d:%d,", c.W, c.Val)
			case Str:
				if c.B != nil || c.Opq {
					unsup("unique.Make of a symbolic value")
				}
				key += fmt.Sprintf("%q,", c.S)
			default:
				unsup("unique.Make of %T", c)
			}
		}
		locked := x.lockInit()
		defer x.unlockInit(locked)
		id, ok := x.p.uniq[key]
		if !ok {
			b := append(*x.p.base.Load(), &Object{cells: append([]Value(nil), cells...)})
			x.p.base.Store(&b)
			id = -len(b)
			x.p.uniq[key] = id
		}
		return Agg{Ptr{obj: id}}
	}

	// ---- time ----
	in["time.Now"] = func(x *exec, a []Value) Value { return x.timeVal() }
	in["time.runtimeNano"] = func(x *exec, a []Value) Value { return x.st.now }
	isMono := func(v Value) bool {
		t, ok := v.(Agg)[0].(*term.Term)
		return ok && t.IsConst() && t.Val == 1<<63
	}
	in["time.Since"] = func(x *exec, a []Value) Value {
		if !isMono(a[0]) {
			return declined
		}
		return term.Sub(x.st.now, x.term(a[0].(Agg)[1]))
	}
	in["time.Until"] = func(x *exec, a []Value) Value {
		if !isMono(a[0]) {
			return declined
		}
		return term.Sub(x.term(a[0].(Agg)[1]), x.st.now)
	}
	in["(time.Time).Add"] = func(x *exec, a []Value) Value {
		if !isMono(a[0]) {
			return declined
		}
		t := a[0].(Agg)
		return Agg{t[0], term.Add(x.term(t[1]), x.term(a[1])), t[2]}
	}
	in["(time.Time).Sub"] = func(x *exec, a []Value) Value {
		if !isMono(a[0]) || !isMono(a[1]) {
			return declined
		}
		return term.Sub(x.term(a[0].(Agg)[1]), x.term(a[1].(Agg)[1]))
	}
	in["time.Sleep"] = func(x *exec, a []Value) Value {
		d := x.term(a[0])
		x.visible()
		if x.decide(term.Sle(d, c64(0))) {
			return nil
		}
		panic(blockReq{wait{kind: wSleep, until: term.Add(x.st.now, d)}})
	}
	newTimer := func(x *exec, d *term.Term, period *term.Term, fn *Closure) (Ptr, int) {
		// time.Timer and time.Ticker: {C <-chan Time; initTimer bool}
		id, o := x.newObj(2)
		ch := 0
		if fn == nil {
			ch = x.addObj(&Object{ch: &chanData{cap: 1}})
		}
		o = x.wobj(id)
		o.cells[0] = ChanRef{ch}
		o.cells[1] = term.True
		x.addTimer(term.Add(x.st.now, d), period, ch, fn, id)
		return Ptr{obj: id}, ch
	}
	in["time.NewTimer"] = func(x *exec, a []Value) Value {
		p, _ := newTimer(x, x.term(a[0]), nil, nil)
		return p
	}
	in["time.After"] = func(x *exec, a []Value) Value {
		_, ch := newTimer(x, x.term(a[0]), nil, nil)
		return ChanRef{ch}
	}
	in["time.AfterFunc"] = func(x *exec, a []Value) Value {
		p, _ := newTimer(x, x.term(a[0]), nil, a[1].(*Closure))
		// remember the function for Reset
		x.wobj(p.obj).cells = append(x.wobj(p.obj).cells, a[1])
		return p
	}
	in["time.NewTicker"] = func(x *exec, a []Value) Value {
		d := x.term(a[0])
		if x.decide(term.Sle(d, c64(0))) {
			panic(goPanic{Iface{x.p.rtErr, Str{S: "non-positive interval for NewTicker"}}, "non-positive interval for NewTicker"})
		}
		p, _ := newTimer(x, d, d, nil)
		return p
	}
	in["time.Tick"] = func(x *exec, a []Value) Value {
		d := x.term(a[0])
		_, ch := newTimer(x, d, d, nil)
		return ChanRef{ch}
	}
	stop := func(x *exec, a []Value) Value {
		p := x.ptr(a[0])
		x.nilCheck(p)
		act := x.stopTimer(p.obj)
		if ch := x.obj(p.obj).cells[0].(ChanRef).id; ch != 0 {
			if len(x.obj(ch).ch.buf) > 0 {
				x.wobj(ch).ch.buf = nil
				act = true
			}
		}
		return term.Bool(act)
	}
	in["(*time.Timer).Stop"] = stop
	in["(*time.Ticker).Stop"] = stop
	in["(*time.Timer).Reset"] = func(x *exec, a []Value) Value {
		r := stop(x, a)
		p := x.ptr(a[0])
		o := x.obj(p.obj)
		var fn *Closure
		if len(o.cells) > 2 {
			fn = o.cells[2].(*Closure)
		}
		x.addTimer(term.Add(x.st.now, x.term(a[1])), nil, o.cells[0].(ChanRef).id, fn, p.obj)
		return r
	}
	in["(*time.Ticker).Reset"] = func(x *exec, a []Value) Value {
		stop(x, a)
		p := x.ptr(a[0])
		d := x.term(a[1])
		x.addTimer(term.Add(x.st.now, d), d, x.obj(p.obj).cells[0].(ChanRef).id, nil, p.obj)
		return nil
	}

	// ---- runtime and friends ----
	in["runtime.Gosched"] = func(x *exec, a []Value) Value { x.visible(); return nil }
	in["runtime.KeepAlive"] = nop
	in["runtime.SetFinalizer"] = nop
	in["runtime.GC"] = nop
	in["runtime.GOMAXPROCS"] = func(x *exec, a []Value) Value { return c64(8) }
	in["runtime.NumCPU"] = func(x *exec, a []Value) Value { return c64(8) }
	in["internal/abi.NoEscape"] = func(x *exec, a []Value) Value { return a[0] }
	in["(*internal/godebug.Setting).Value"] = func(x *exec, a []Value) Value { return Str{} }
	in["(*internal/godebug.Setting).IncNonDefault"] = nop
	in["internal/bytealg.MakeNoZero"] = func(x *exec, a []Value) Value {
		return x.makeSlice(types.Typ[types.Uint8], x.term(a[0]), x.term(a[0]))
	}
	in["log.New"] = func(x *exec, a []Value) Value {
		id := x.addObj(&Object{cells: make([]Value, 64)})
		return Ptr{obj: id}
	}
	for _, n := range []string{"Printf", "Println", "Print", "Output", "SetOutput", "SetPrefix", "SetFlags"} {
		in["(*log.Logger)."+n] = nop
		in["log."+n] = nop
	}
	in["(*log.Logger).Output"] = func(x *exec, a []Value) Value { return Iface{} }
	in["log.Output"] = in["(*log.Logger).Output"]
	for _, n := range []string{"Printf", "Println", "Print"} {
		in["fmt."+n] = func(x *exec, a []Value) Value { return Tuple{c64(0), Iface{}} }
	}
	for _, n := range []string{"Write", "WriteString"} {
		in["(*os.File)."+n] = func(x *exec, a []Value) Value {
			if s, ok := a[1].(Slice); ok {
				return Tuple{c64(s.len), Iface{}}
			}
			return Tuple{c64(x.str(a[1]).Len()), Iface{}}
		}
	}
	randN := func(w uint8) intrinsic {
		return func(x *exec, a []Value) Value {
			n := x.term(a[len(a)-1])
			if x.decide(term.Sle(n, term.Const(n.W, 0))) {
				panic(goPanic{Iface{x.p.rtErr, Str{S: "invalid argument to Intn"}}, "invalid argument to Intn"})
			}
			v := x.varFor("rand", n.W)
			c := term.Ult(v, n)
			x.commitVar("rand", v)
			x.assumeTerm(c)
			return v
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand)."} {
		in[p+"Intn"] = randN(64)
		in[p+"Int63n"] = randN(64)
		in[p+"Int31n"] = randN(32)
		in[p+"Seed"] = nop
	}
	for _, p := range []string{"math/rand/v2.", "(*math/rand/v2.Rand)."} {
		in[p+"IntN"] = randN(64)
		in[p+"Int64N"] = randN(64)
		in[p+"Int32N"] = randN(32)
	}
	for _, c := range []struct {
		n         string
		lo, hi, d uint64
	}{{"ToUpper", 'a', 'z', 0xE0}, {"ToLower", 'A', 'Z', 0x20}} {
		fold := func(x *exec, b []*term.Term) []*term.Term {
			hi := term.Const(8, 0)
			for _, t := range b {
				hi = term.Or(hi, t)
			}
			if x.decide(term.Ule(term.Const(8, 0x80), hi)) {
				return nil
			}
			r := make([]*term.Term, len(b))
			for i, t := range b {
				in := term.BAnd(term.Ule(term.Const(8, c.lo), t), term.Ule(t, term.Const(8, c.hi)))
				r[i] = term.Ite(in, term.Add(t, term.Const(8, c.d)), t)
			}
			return r
		}
		in["strings."+c.n] = func(x *exec, a []Value) Value {
			s := x.str(a[0])
			if s.B == nil || s.Opq {
				return declined
			}
			if r := fold(x, s.B); r != nil {
				return mkStr(r)
			}
			return declined
		}
		in["bytes."+c.n] = func(x *exec, a []Value) Value {
			b := x.bytesOf(x.slice(a[0]))
			if len(b) == 0 {
				return declined
			}
			if r := fold(x, b); r != nil {
				return x.newBytes(r)
			}
			return declined
		}
	}
	in["os.Getenv"] = func(x *exec, a []Value) Value { return Str{} }
}

var anyType = types.NewInterfaceType(nil, nil)

func bitsFor(max uint64) uint8 {
	w := uint8(1)
	for w < 64 && max>>w != 0 {
		w++
	}
	return w
}

func (x *exec) fatal(msg string) {
	x.violation("panic", "fatal error: "+msg+" at "+x.where())
	panic(pathEnd{"stop"})
}

func (x *exec) name(v Value) string {
	s := x.str(v)
	if s.B != nil || s.Opq {
		unsup("symbolic name")
	}
	return s.S
}

func (x *exec) intVar(n string, lov, hiv Value) Value {
	lo, hi := int64(x.mustInt(x.term(lov))), int64(x.mustInt(x.term(hiv)))
	if hi < lo {
		panic(pathEnd{"infeasible"})
	}
	w := bitsFor(uint64(hi - lo))
	v := x.varFor(n, w)
	x.commitVar(n, v)
	if uint64(hi-lo) != term.Mask(w) {
		x.st.addPC(term.Ule(v, term.Const(w, uint64(hi-lo))), x)
	}
	return term.Add(c64(int(lo)), term.ZExt(v, 64))
}

func (x *exec) poolOf(p Ptr) *poolList {
	if l, ok := x.obj(p.obj).cells[p.off].(*poolList); ok {
		return l
	}
	return &poolList{}
}

func (x *exec) kv(p Ptr) *kvList {
	x.nilCheck(p)
	if l, ok := x.obj(p.obj).cells[p.off].(*kvList); ok {
		return l
	}
	return &kvList{}
}

// poolGet implements sync.Pool.Get; pushed reports that the New function was called instead.
func (x *exec) poolGet(p Ptr, newOff int, dst int, adv *Frame) (Value, bool) {
	x.visible()
	l := x.poolOf(p)
	if n := len(l.items); n > 0 {
		v := l.items[n-1]
		x.wobj(p.obj).cells[p.off] = &poolList{append([]Value(nil), l.items[:n-1]...)}
		x.acquire(p)
		return v, false
	}
	fn, _ := x.obj(p.obj).cells[p.off+newOff].(*Closure)
	if fn == nil {
		return Iface{}, false
	}
	return x.invoke(fn, nil, nil, dst, adv)
}

func (x *exec) observe(name string, s Slice) {
	for i := 0; i < s.len; i++ {
		iv := x.iface(x.obj(s.obj).cells[s.off+i])
		o := obsRec{name: name}
		switch v := iv.v.(type) {
		case nil:
			o.raw = "nil"
		case *term.Term:
			o.v = []*term.Term{v}
		case Str:
			if v.Opq {
				unsup("observation of a formatted string")
			}
			o.raw = "str"
			for k := 0; k < v.Len(); k++ {
				o.v = append(o.v, v.At(k))
			}
		case Slice:
			o.raw = "slice"
			for k := 0; k < v.len; k++ {
				o.v = append(o.v, x.term(x.obj(v.obj).cells[v.off+k]))
			}
		default:
			o.raw = "non-nil"
		}
		x.st.obs = append(x.st.obs, o)
	}
}

func (x *exec) sprintf(a []Value) Value {
	f := x.str(a[0])
	if f.B != nil || f.Opq {
		return Str{S: "<formatted>", Opq: true}
	}
	s := x.slice(a[1])
	var args []any
	plain := true
	ivs := make([]Iface, s.len)
	for i := range ivs {
		ivs[i] = x.iface(x.obj(s.obj).cells[s.off+i])
		nv, ok := x.native(ivs[i])
		plain = plain && ok
		args = append(args, nv)
	}
	if plain {
		return Str{S: fmt.Sprintf(f.S, args...)}
	}
	opq := Str{S: f.S, Opq: true}
	var out []*term.Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, term.Const(8, uint64(s[i])))
		}
	}
	k := 0
	for q := f.S; q != ""; {
		if q[0] != '%' {
			lit(q[:1])
			q = q[1:]
			continue
		}
		n := 1
		for n < len(q) && strings.IndexByte("+-# 0123456789.", q[n]) >= 0 {
			n++
		}
		if n >= len(q) {
			return opq
		}
		verb, flags, whole := q[n], q[1:n], q[:n+1]
		q = q[n+1:]
		if verb == '%' && flags == "" {
			lit("%")
			continue
		}
		if verb >= 0x80 || k >= len(ivs) {
			return opq
		}
		iv := ivs[k]
		if nv, ok := x.native(iv); ok {
			lit(fmt.Sprintf(whole, nv))
			k++
			continue
		}
		k++
		var bs []*term.Term
		if iv.t == nil || hasText(iv.t) {
			return opq
		}
		switch v := iv.v.(type) {
		case Str:
			if v.Opq {
				return opq
			}
			for i := 0; i < v.Len(); i++ {
				bs = append(bs, v.At(i))
			}
		case Slice:
			st, ok := under(iv.t).(*types.Slice)
			if !ok || !isByte(st.Elem()) {
				return opq
			}
			bs = x.bytesOf(v)
		case *term.Term:
			b, ok := under(iv.t).(*types.Basic)
			if !ok || b.Info()&types.IsUnsigned == 0 || verb != 'x' && verb != 'X' {
				return opq
			}
			// only a zero-padded width that every value fits has a fixed length
			if len(flags) < 2 || flags[0] != '0' {
				return opq
			}
			w, err := strconv.Atoi(flags[1:])
			if err != nil || w < int(v.W)/4 {
				return opq
			}
			for i := w; i > int(v.W)/4; i-- {
				lit("0")
			}
			for sh := int(v.W) - 4; sh >= 0; sh -= 4 {
				out = append(out, hexDigit(term.Extract(v, uint64(sh), 4), verb == 'X'))
			}
			continue
		default:
			return opq
		}
		if flags != "" && flags != " " {
			return opq
		}
		switch verb {
		case 's', 'v':
			if _, isB := iv.v.(Slice); isB && verb == 'v' || flags != "" {
				return opq
			}
			out = append(out, bs...)
		case 'x', 'X':
			for i, b := range bs {
				if i > 0 && flags == " " {
					lit(" ")
				}
				out = append(out, hexDigit(term.Extract(b, 4, 4), verb == 'X'), hexDigit(term.Extract(b, 0, 4), verb == 'X'))
			}
		default:
			return opq
		}
	}
	if k != len(ivs) {
		return opq
	}
	return mkStr(out)
}

// hexDigit is the ASCII digit of a 4-bit value.
func hexDigit(n *term.Term, upper bool) *term.Term {
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	n = term.ZExt(n, 8)
	return term.Ite(term.Ult(n, term.Const(8, 10)), term.Add(n, term.Const(8, '0')), term.Add(n, term.Const(8, a)))
}

// hasText tells whether values of type t format themselves.
func hasText(t types.Type) bool {
	for _, n := range []string{"Error", "String", "Format"} {
		if o, _, _ := types.LookupFieldOrMethod(t, false, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func (x *exec) native(iv Iface) (any, bool) {
	if iv.t == nil {
		return nil, true
	}
	if hasText(iv.t) {
		return nil, false
	}
	switch v := iv.v.(type) {
	case *term.Term:
		if !v.IsConst() {
			return nil, false
		}
		switch b := under(iv.t).(*types.Basic); b.Kind() {
		case types.Bool:
			return v.IsTrue(), true
		case types.Int:
			return int(v.SVal()), true
		case types.Int8:
			return int8(v.SVal()), true
		case types.Int16:
			return int16(v.SVal()), true
		case types.Int32:
			return int32(v.SVal()), true
		case types.Int64:
			return v.SVal(), true
		case types.Uint:
			return uint(v.Val), true
		case types.Uint8:
			return uint8(v.Val), true
		case types.Uint16:
			return uint16(v.Val), true
		case types.Uint32:
			return uint32(v.Val), true
		default:
			return v.Val, true
		}
	case float64:
		return v, true
	case Str:
		if v.B != nil || v.Opq {
			return nil, false
		}
		return v.S, true
	case Slice:
		st, ok := under(iv.t).(*types.Slice)
		if !ok || !isByte(st.Elem()) {
			return nil, false
		}
		var r []byte
		for _, t := range x.bytesOf(v) {
			if !t.IsConst() {
				return nil, false
			}
			r = append(r, byte(t.Val))
		}
		return r, true
	}
	return nil, false
}

// asAssign(err error, target any) stores err in *target when its dynamic type fits.
func (x *exec) asAssign(a []Value) Value {
	e := x.iface(a[0])
	t := x.iface(a[1])
	pt, ok := under(t.t).(*types.Pointer)
	if !ok {
		unsup("errors.As target")
	}
	el := pt.Elem()
	if it, isI := under(el).(*types.Interface); isI {
		if !x.implements(e.t, it) {
			return term.False
		}
		x.store(x.ptr(t.v), e, el)
		return term.True
	}
	if !types.Identical(e.t, el) {
		return term.False
	}
	x.store(x.ptr(t.v), e.v, el)
	return term.True
}

var _ = strings.Contains
var _ = solver.Sat

// fixedCell is one basic value of a type with a fixed-size encoding.
type fixedCell struct {
	cell, size  int
	t           types.Type
	bool, blank bool
}

func fixedCells(t types.Type) ([]fixedCell, bool) {
	switch u := under(t).(type) {
	case *types.Struct:
		r := []fixedCell{}
		for i := 0; i < u.NumFields(); i++ {
			f, ok := fixedCells(u.Field(i).Type())
			if !ok {
				return nil, false
			}
			o := fieldOff(t, i)
			for _, c := range f {
				c.cell += o
				c.blank = c.blank || u.Field(i).Name() == "_"
				r = append(r, c)
			}
		}
		return r, true
	case *types.Array:
		r := []fixedCell{}
		e, ok := fixedCells(u.Elem())
		if !ok {
			return nil, false
		}
		for i := 0; i < int(u.Len()); i++ {
			for _, c := range e {
				c.cell += i * cellsOf(u.Elem())
				r = append(r, c)
			}
		}
		return r, true
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return []fixedCell{{size: 1, t: t, bool: true}}, true
		case types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32, types.Int64, types.Uint64:
			return []fixedCell{{size: int(sizes.Sizeof(u)), t: t}}, true
		}
	}
	return nil, false
}
