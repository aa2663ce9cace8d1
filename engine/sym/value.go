// Package sym is a symbolic executor over go/ssa.
package sym

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

// Value is one of
//
//	*term.Term  integers (W=8..64) and booleans (W=0)
//	float64     (concrete only)
//	Str, Ptr, Slice, Iface, *Closure, MapRef, ChanRef
//	Agg         flattened cells of a struct or array
//	Tuple       multiple results
//	Poison      unknown value from a best-effort package initialiser
//	engine-private values stored in cells of modelled std types
type Value interface{}

type Agg []Value
type Tuple []Value

type Poison struct{ Why string }

// Str is an immutable string: concrete (B==nil) or with symbolic bytes.
type Str struct {
	S   string
	B   []*term.Term
	Opq bool // content is not meaningful (formatted symbolic data)
}

func (s Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}
func (s Str) At(i int) *term.Term {
	if s.B != nil {
		return s.B[i]
	}
	return term.Const(8, uint64(s.S[i]))
}
func mkStr(b []*term.Term) Str {
	buf := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return Str{B: b}
		}
		buf[i] = byte(t.Val)
	}
	return Str{S: string(buf)}
}

type symOff struct {
	idx    *term.Term // 64 bit, known < n
	stride int
	n      int
}

// Ptr addresses cell off (+ sym.idx*sym.stride) of an object. obj 0 is nil.
type Ptr struct {
	obj int
	off int
	sym *symOff
}

type Slice struct {
	obj           int
	off, len, cap int // off in cells; len, cap in elements
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	blt  *ssa.Builtin
}

type MapRef struct{ id int }
type ChanRef struct{ id int }

// engine-private cell contents
type poolList struct{ items []Value }
type kvList struct{ ents []mapEnt }

type mapEnt struct{ k, v Value }
type mapData struct{ ents []mapEnt }

type chanData struct {
	cap    int
	buf    []Value
	closed bool
	vc     vclock // released clock
}

type ownTok struct{ _ int }

// Object is a heap object; it may be written only by the state owning its token.
type Object struct {
	cells []Value
	m     *mapData
	ch    *chanData
	owner *ownTok
	shad  []shadow
}

var sizes = types.SizesFor("gc", "amd64")

var (
	cellMu    sync.RWMutex
	cellCache = map[types.Type]int{}
	zeroCache = map[types.Type][]Value{}
)

func under(t types.Type) types.Type { return t.Underlying() }

func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func cellsOf(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Struct:
		cellMu.RLock()
		n, ok := cellCache[t]
		cellMu.RUnlock()
		if ok {
			return n
		}
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += cellsOf(u.Field(i).Type())
		}
		cellMu.Lock()
		cellCache[t] = n
		cellMu.Unlock()
		return n
	case *types.Array:
		return int(u.Len()) * cellsOf(u.Elem())
	}
	return 1
}

func fieldOff(t types.Type, f int) int {
	u := under(t).(*types.Struct)
	n := 0
	for i := 0; i < f; i++ {
		n += cellsOf(u.Field(i).Type())
	}
	return n
}

func zeroCells(t types.Type) []Value {
	cellMu.RLock()
	z, ok := zeroCache[t]
	cellMu.RUnlock()
	if ok {
		return z
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			z = append(z, zeroCells(u.Field(i).Type())...)
		}
	case *types.Array:
		e := zeroCells(u.Elem())
		z = make([]Value, 0, int(u.Len())*len(e))
		for i := 0; i < int(u.Len()); i++ {
			z = append(z, e...)
		}
	default:
		z = []Value{zeroScalar(t)}
	}
	cellMu.Lock()
	zeroCache[t] = z
	cellMu.Unlock()
	return z
}

func zeroVal(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = zeroVal(tt.At(i).Type())
		}
		return r
	}
	if isAgg(t) {
		return Agg(zeroCells(t))
	}
	return zeroScalar(t)
}

func zeroScalar(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return term.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	panic(fmt.Sprintf("zero of %s", t))
}

// intInfo: width (0 for bool) and signedness of an integer or boolean type.
func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return Poison{"const of " + t.String()}
	}
	if w, _, ok := intInfo(t); ok {
		if w == 0 {
			return term.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return term.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return term.Const(w, u)
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return Str{S: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{S: string(rune(i))}
	}
	if b.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	return Poison{"const of " + t.String()}
}

func f2i(f float64, w uint8, signed bool) *term.Term {
	if signed {
		return term.Const(w, uint64(int64(f)))
	}
	if f >= math.MaxInt64 {
		return term.Const(w, uint64(f))
	}
	return term.Const(w, uint64(int64(f)))
}

// Go allocator size classes, to reproduce append's capacity growth.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int, noscan bool) int {
	if n <= 32768-8 || noscan && n <= 32768 {
		req := n
		if !noscan && n > 512 {
			req += 8 // malloc header
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - n)
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen int, elem types.Type) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	es := int(sizes.Sizeof(elem))
	if es == 0 {
		return newLen
	}
	return roundup(nc*es, noPointers(elem)) / es
}

func noPointers(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0 && u.Kind() != types.UnsafePointer
	case *types.Array:
		return noPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}
