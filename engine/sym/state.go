package sym

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"verifengine/solver"
	"verifengine/term"
)

type vclock []uint32

type shadow struct {
	wg    int // last writer goroutine +1
	wc    uint32
	reads vclock
	ar    vclock // atomic reads
	aw    vclock // atomic writes
}

type deferred struct {
	fn   *Closure
	inv  *ssa.Function
	args []Value
}

type panicRec struct {
	val       Iface
	recovered bool
	msg       string
	site      string
}

// Frame is one activation record.
type Frame struct {
	fn       *cfunc
	block    int
	pc       int
	regs     []Value
	defers   []deferred
	dst      int
	unwind   *panicRec // this frame is unwinding because of a panic
	deferFor *panicRec // set when this frame is a deferred call run by a panic
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type waitKind uint8

const (
	wNone waitKind = iota
	wMutex
	wRLock
	wWLock
	wWG
	wSleep
	wRecv
	wSend
	wSelect
	wQuiesce
	wForever
	wCond
)

type wait struct {
	kind  waitKind
	p     Ptr
	until *term.Term
	ch    int
	val   Value
	sel   []selCase
}

type selCase struct {
	ch   int
	send bool
	val  Value
}

// Goroutine is one thread of the interpreted program.
type Goroutine struct {
	id        int
	frames    []*Frame
	status    gstatus
	w         wait
	woken     bool // result of the blocking operation was delivered
	schedDone bool // the scheduling choice for the current instruction is made
	wcount    bool // counted as a waiting writer
	vc        vclock
	goSite    string
}

type timer struct {
	seq    int
	when   *term.Term
	period *term.Term
	ch     int
	fn     *Closure
	obj    int // timer object
}

type obsRec struct {
	name string
	v    []*term.Term
	raw  string
}

type rng struct{ lo, hi uint64 }

// State is one symbolic execution path.
type State struct {
	base    bool
	token   *ownTok
	heap    []*Object
	over    map[int]*Object
	gs      []*Goroutine
	cur     int
	timers  []timer
	tseq    int
	now     *term.Term
	pc      []*term.Term
	known   map[*term.Term]bool
	ranges  map[*term.Term]rng
	model   solver.Model
	ev      *term.Evaluator // memo for model; reset whenever model changes
	vars    []*term.Term
	counts  map[string]int
	obs     []obsRec
	covers  []string
	steps   int
	depth   int
	inter   bool // interleaving mode
	preempt int  // remaining preemptions
	syncVC  map[Ptr]vclock
	maxStep int
	trail   []string
}

func newState() *State {
	return &State{token: &ownTok{}, heap: []*Object{nil}, over: map[int]*Object{}, now: term.Const(64, 0),
		known: map[*term.Term]bool{}, ranges: map[*term.Term]rng{}, model: solver.Model{}, counts: map[string]int{}, maxStep: 3000000}
}

func (s *State) clone() *State {
	n := *s
	n.ev = nil
	n.token = &ownTok{}
	s.token = &ownTok{}
	n.heap = append(make([]*Object, 0, len(s.heap)+16), s.heap...)
	n.over = make(map[int]*Object, len(s.over))
	for k, v := range s.over {
		n.over[k] = v
	}
	n.gs = make([]*Goroutine, len(s.gs))
	for i, g := range s.gs {
		n.gs[i] = g.clone()
	}
	n.timers = append([]timer(nil), s.timers...)
	n.pc = append(make([]*term.Term, 0, len(s.pc)+8), s.pc...)
	n.known = make(map[*term.Term]bool, len(s.known)+4)
	for k, v := range s.known {
		n.known[k] = v
	}
	n.ranges = make(map[*term.Term]rng, len(s.ranges))
	for k, v := range s.ranges {
		n.ranges[k] = v
	}
	// models are replaced, never mutated
	n.vars = append([]*term.Term(nil), s.vars...)
	n.counts = make(map[string]int, len(s.counts))
	for k, v := range s.counts {
		n.counts[k] = v
	}
	n.obs = append([]obsRec(nil), s.obs...)
	n.covers = append([]string(nil), s.covers...)
	n.trail = append([]string(nil), s.trail...)
	if s.syncVC != nil {
		n.syncVC = make(map[Ptr]vclock, len(s.syncVC))
		for k, v := range s.syncVC {
			n.syncVC[k] = v
		}
	}
	return &n
}

func (g *Goroutine) clone() *Goroutine {
	n := *g
	n.frames = make([]*Frame, len(g.frames))
	for i, f := range g.frames {
		nf := *f
		nf.regs = append([]Value(nil), f.regs...)
		nf.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &nf
	}
	// panicRec identity must be preserved within the clone
	m := map[*panicRec]*panicRec{}
	cp := func(p *panicRec) *panicRec {
		if p == nil {
			return nil
		}
		if q, ok := m[p]; ok {
			return q
		}
		q := *p
		m[p] = &q
		return &q
	}
	for _, f := range n.frames {
		f.unwind = cp(f.unwind)
		f.deferFor = cp(f.deferFor)
	}
	n.vc = append(vclock(nil), g.vc...)
	return &n
}

func (x *exec) newObj(n int) (int, *Object) {
	o := &Object{cells: make([]Value, n)}
	return x.addObj(o), o
}

func (x *exec) addObj(o *Object) int {
	st := x.st
	o.owner = st.token
	if st.base {
		b := *x.p.base.Load()
		b = append(b, o)
		x.p.base.Store(&b)
		return -len(b)
	}
	st.heap = append(st.heap, o)
	return len(st.heap) - 1
}

// obj returns the object for reading.
func (x *exec) obj(id int) *Object {
	st := x.st
	if id > 0 {
		return st.heap[id]
	}
	if !st.base {
		if o, ok := st.over[id]; ok {
			return o
		}
	}
	return (*x.p.base.Load())[-id-1]
}

// wobj returns the object for writing.
func (x *exec) wobj(id int) *Object {
	st := x.st
	if id > 0 {
		o := st.heap[id]
		if o.owner != st.token {
			o = o.copyFor(st.token)
			st.heap[id] = o
		}
		return o
	}
	if st.base {
		return (*x.p.base.Load())[-id-1]
	}
	if o, ok := st.over[id]; ok {
		if o.owner != st.token {
			o = o.copyFor(st.token)
			st.over[id] = o
		}
		return o
	}
	o := (*x.p.base.Load())[-id-1].copyFor(st.token)
	st.over[id] = o
	return o
}

func (o *Object) copyFor(t *ownTok) *Object {
	n := &Object{owner: t, cells: append([]Value(nil), o.cells...)}
	if o.m != nil {
		n.m = &mapData{ents: append([]mapEnt(nil), o.m.ents...)}
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), o.ch.buf...)
		n.ch = &c
	}
	if o.shad != nil {
		n.shad = append([]shadow(nil), o.shad...)
	}
	return n
}

// newVar creates the k-th variable of the given name. The counter is advanced by the caller.
func (x *exec) varFor(name string, w uint8) *term.Term {
	return term.Var(fmt.Sprintf("%s#%d", name, x.st.counts[name]), w)
}

func (x *exec) commitVar(name string, v *term.Term) {
	x.st.counts[name]++
	x.st.vars = append(x.st.vars, v)
}
