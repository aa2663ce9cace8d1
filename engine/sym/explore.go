package sym

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/solver"
	"verifengine/term"
)

// Violation is a candidate counterexample.
type Violation struct {
	Kind   string // assert, panic, deadlock, race, steplimit
	ID     string
	Msg    string
	Where  string
	Vector map[string]uint64
	Trail  []string
}

// Witness is a concrete input of a completed path with the predicted observations.
type Witness struct {
	Vector map[string]uint64
	Obs    []Obs
}

type Obs struct {
	Name string
	V    []uint64
	Raw  string
}

// Result summarises one harness run.
type Result struct {
	Harness    string
	Paths      int64 // completed paths
	Infeasible int64
	Steps      int64
	Asserts    int64 // assertion obligations discharged (solver or constant)
	AssertsSym int64 // ... of which needed symbolic reasoning
	Forks      int64
	Covers     map[string]int64
	Incomplete map[string]int64 // reason -> count
	Violations []Violation
	Witnesses  []Witness
	MaxDepth   int64
	Dropped    int64
	Wall       time.Duration
	TimedOut   bool
}

// Machine explores all paths of one harness.
type Machine struct {
	P       *Program
	Workers int
	Budget  time.Duration
	Grace   time.Duration // exploration goes on for this long after the first counterexample
	WitMax  int
	Debug   bool
	Tier    int
	MaxViol int

	mu    sync.Mutex
	cond  *sync.Cond
	queue []*State
	busy  int
	stop  int32

	res     Result
	witSeen int64
	violKey map[string]int
	halt    func()
	graceT  *time.Timer
}

func (m *Machine) Run(fn *ssa.Function) *Result {
	t0 := time.Now()
	m.cond = sync.NewCond(&m.mu)
	m.res = Result{Harness: fn.Name(), Covers: map[string]int64{}, Incomplete: map[string]int64{}}
	m.violKey = map[string]int{}
	if m.MaxViol == 0 {
		m.MaxViol = 6
	}
	st := newState()
	g := &Goroutine{}
	st.gs = []*Goroutine{g}
	x0 := &exec{m: m, p: m.P, st: st, g: g}
	x0.push(m.P.compile(fn), nil, nil, -1)
	m.queue = []*State{st}
	cut := solver.Arm()
	defer cut()
	m.halt = func() {
		atomic.StoreInt32(&m.stop, 1)
		cut()
		m.mu.Lock()
		m.res.TimedOut = true
		m.cond.Broadcast()
		m.mu.Unlock()
	}
	stopT := time.AfterFunc(m.Budget, m.halt)
	defer stopT.Stop()
	var wg sync.WaitGroup
	for i := 0; i < m.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m.worker(i)
		}(i)
	}
	wg.Wait()
	if m.graceT != nil {
		m.graceT.Stop()
	}
	m.res.Dropped = int64(len(m.queue))
	m.queue = nil
	m.res.Wall = time.Since(t0)
	return &m.res
}

func (m *Machine) worker(i int) {
	x := &exec{m: m, p: m.P, sol: solver.New(), wid: i}
	defer x.sol.Close()
	for {
		m.mu.Lock()
		for len(m.queue) == 0 && m.busy > 0 && atomic.LoadInt32(&m.stop) == 0 {
			m.cond.Wait()
		}
		if len(m.queue) == 0 || atomic.LoadInt32(&m.stop) != 0 {
			m.cond.Broadcast()
			m.mu.Unlock()
			return
		}
		st := m.queue[len(m.queue)-1]
		m.queue = m.queue[:len(m.queue)-1]
		m.busy++
		m.mu.Unlock()
		s0 := x.steps
		x.g, x.f, x.ci = nil, nil, nil
		x.run(st)
		m.mu.Lock()
		m.res.Steps += x.steps - s0
		m.busy--
		if m.busy == 0 && len(m.queue) == 0 {
			m.cond.Broadcast()
		}
		m.mu.Unlock()
	}
}

func (m *Machine) enqueue(st *State) {
	m.mu.Lock()
	m.queue = append(m.queue, st)
	m.res.Forks++
	m.cond.Signal()
	m.mu.Unlock()
}

// fork splits the current path on c; true when the path ended.
func (x *exec) fork(c *term.Term) bool {
	if x.lenient {
		return !x.skipPoison("symbolic branch in initialiser")
	}
	st := x.st
	v := x.eval(c) == 1
	other := c
	if v {
		other = term.BNot(c)
	}
	res, mod := x.satWith(other)
	switch res {
	case solver.Unsat:
		st.known[c] = v
		return false
	case solver.Unknown:
		x.m.note("solver unknown on a branch")
		st.assume(c, v, nil)
		return false
	}
	s2 := st.clone()
	s2.assume(c, !v, mod)
	st.assume(c, v, nil)
	st.depth++
	s2.depth++
	x.m.enqueue(s2)
	return false
}

func (m *Machine) note(reason string) {
	m.mu.Lock()
	m.res.Incomplete[reason]++
	m.mu.Unlock()
}

// assume records the outcome of a branch; mod (if any) assigns the variables of the relevant slice.
func (s *State) assume(c *term.Term, v bool, mod solver.Model) {
	s.known[c] = v
	k := c
	if !v {
		k = term.BNot(c)
	}
	s.addConj(k)
	if mod != nil {
		n := make(solver.Model, len(s.model)+len(mod))
		for a, b := range s.model {
			n[a] = b
		}
		for a, b := range mod {
			n[a] = b
		}
		s.model = n
		s.ev = nil
	}
}

func (s *State) addConj(k *term.Term) {
	if k.Op == term.OBAnd {
		s.addConj(k.A[0])
		s.addConj(k.A[1])
		return
	}
	if k.IsConst() {
		return
	}
	if v, ok := s.known[k]; ok && v && inPC(s.pc, k) {
		return
	}
	s.known[k] = true
	s.pc = append(s.pc, k)
}

func inPC(pc []*term.Term, k *term.Term) bool {
	for i := len(pc) - 1; i >= 0 && i > len(pc)-8; i-- {
		if pc[i] == k {
			return true
		}
	}
	return false
}

// slice returns the constraints transitively sharing variables with c.
func (s *State) slice(c *term.Term) []*term.Term {
	vs := map[*term.Term]bool{}
	for _, v := range term.Vars(c) {
		vs[v] = true
	}
	used := make([]bool, len(s.pc))
	var out []*term.Term
	for changed := true; changed; {
		changed = false
		for i, p := range s.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range term.Vars(p) {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range term.Vars(p) {
					vs[v] = true
				}
			}
		}
	}
	return out
}

type cacheEnt struct {
	r solver.Result
	m solver.Model
}

var (
	qMu    sync.RWMutex
	qCache = map[string]cacheEnt{}
)

// ResetCache drops memoised solver answers (between harnesses).
func ResetCache() {
	qMu.Lock()
	qCache = map[string]cacheEnt{}
	qMu.Unlock()
}

// satWith decides pc ∧ c (using only the relevant part of pc, which is satisfiable as a whole).
// dumpDir receives the queries no solver could decide (debugging).
var dumpDir = os.Getenv("VSYM_DUMP")

func (x *exec) satWith(c *term.Term) (solver.Result, solver.Model) {
	if c.IsConst() {
		if c.IsTrue() {
			return solver.Sat, nil
		}
		return solver.Unsat, nil
	}
	as := append(x.st.slice(c), c)
	ids := make([]uint32, len(as))
	for i, a := range as {
		ids[i] = a.ID
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 4*len(ids))
	for i, id := range ids {
		binary.LittleEndian.PutUint32(kb[4*i:], id)
	}
	key := string(kb)
	qMu.RLock()
	e, ok := qCache[key]
	qMu.RUnlock()
	if ok {
		atomic.AddInt64(&solver.S.CacheHits, 1)
		return e.r, e.m
	}
	if term.Heavy(c) {
		if d := term.SimplifyUnder(as[:len(as)-1], c); d.IsFalse() {
			atomic.AddInt64(&solver.S.Linear, 1)
			qMu.Lock()
			qCache[key] = cacheEnt{solver.Unsat, nil}
			qMu.Unlock()
			return solver.Unsat, nil
		}
	}
	if val, ok := term.SumDecides(as[:len(as)-1], c); ok && !val {
		atomic.AddInt64(&solver.S.Linear, 1)
		qMu.Lock()
		qCache[key] = cacheEnt{solver.Unsat, nil}
		qMu.Unlock()
		return solver.Unsat, nil
	}
	r, mod := x.sol.Check(as)
	if r == solver.Unknown && dumpDir != "" {
		os.WriteFile(fmt.Sprintf("%s/unknown%d.smt2", dumpDir, c.ID), []byte(solver.Script(as, "(check-sat)", nil)), 0o644)
	}
	qMu.Lock()
	qCache[key] = cacheEnt{r, mod}
	qMu.Unlock()
	return r, mod
}

func (x *exec) vector(mod solver.Model) map[string]uint64 {
	vec := map[string]uint64{}
	for _, v := range x.st.vars {
		if val, ok := mod[v]; ok {
			vec[v.Name] = val
		} else {
			vec[v.Name] = x.st.model[v]
		}
	}
	return vec
}

func (x *exec) violationModel(kind, id, msg string, mod solver.Model) {
	m := x.m
	m.mu.Lock()
	defer m.mu.Unlock()
	key := kind + "|" + id
	if kind != "assert" {
		key += msg
	}
	m.violKey[key]++
	if m.violKey[key] > 3 || len(m.res.Violations) >= 40 {
		m.res.Incomplete["further counterexamples of a reported violation"]++
		return
	}
	if len(m.res.Violations) == 0 && m.Grace > 0 {
		m.graceT = time.AfterFunc(m.Grace, m.halt)
	}
	m.res.Violations = append(m.res.Violations, Violation{Kind: kind, ID: id, Msg: msg, Where: x.where(), Vector: x.vector(mod), Trail: append([]string(nil), x.st.trail...)})
}

func (x *exec) violation(kind, msg string) { x.violationModel(kind, kind, msg, nil) }

// assertTerm discharges an assertion obligation; the path continues where it holds.
func (x *exec) assertTerm(c *term.Term, id string) {
	m := x.m
	atomic.AddInt64(&m.res.Asserts, 1)
	if c.IsTrue() {
		return
	}
	if v, ok := x.st.known[c]; ok && v {
		return
	}
	if c.Op == term.OBAnd {
		// each conjunct on its own
		atomic.AddInt64(&m.res.Asserts, -1)
		x.assertTerm(c.A[0], id)
		x.assertTerm(c.A[1], id)
		return
	}
	atomic.AddInt64(&m.res.AssertsSym, 1)
	neg := term.BNot(c)
	if x.eval(c) == 0 {
		x.violationModel("assert", id, id, nil)
	} else {
		res, mod := x.satWith(neg)
		switch res {
		case solver.Sat:
			x.violationModel("assert", id, id, mod)
		case solver.Unknown:
			m.note("solver unknown on assertion " + id)
		case solver.Unsat:
			x.st.known[c] = true
			return
		}
	}
	// continue with the assertion assumed
	x.assumeTerm(c)
}

func (x *exec) assumeTerm(c *term.Term) {
	if c.IsTrue() {
		return
	}
	if v, ok := x.st.known[c]; ok {
		if v {
			return
		}
		panic(pathEnd{"infeasible"})
	}
	if c.IsFalse() {
		panic(pathEnd{"infeasible"})
	}
	if x.eval(c) == 1 {
		x.st.assume(c, true, nil)
		return
	}
	res, mod := x.satWith(c)
	switch res {
	case solver.Unsat:
		panic(pathEnd{"infeasible"})
	case solver.Unknown:
		panic(pathEnd{"solver unknown on an assumption"})
	}
	x.st.assume(c, true, mod)
}

func (x *exec) deadlock() {
	if x.st.gs[0].status == gDone {
		x.finish("done", "")
		return
	}
	msg := ""
	for _, g := range x.st.gs {
		if g.status == gBlocked && len(g.frames) > 0 {
			x.g = g
			x.f = g.frames[len(g.frames)-1]
			msg += fmt.Sprintf("[goroutine %d blocked at %s] ", g.id, x.where())
		}
	}
	x.finish("deadlock", msg)
}

// finish ends the current path.
func (x *exec) finish(why, msg string) {
	m := x.m
	st := x.st
	if m == nil {
		if x.lenient || why == "done" {
			return
		}
		panic("initialisation failed: " + why + " " + msg)
	}
	switch why {
	case "panic", "deadlock":
		x.violation(why, msg)
	case "steplimit":
		x.violation(why, "step limit exceeded at "+x.where())
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if int64(st.depth) > m.res.MaxDepth {
		m.res.MaxDepth = int64(st.depth)
	}
	switch why {
	case "done", "panic", "deadlock", "race", "steplimit", "stop":
		m.res.Paths++
		for _, c := range st.covers {
			m.res.Covers[c]++
		}
	case "infeasible":
		m.res.Infeasible++
	case "unsupported":
		m.res.Incomplete["unsupported: "+msg]++
	default:
		m.res.Incomplete[why]++
	}
	if why == "done" && m.WitMax > 0 {
		m.witSeen++
		// reservoir with a deterministic pattern: keep a spread over the exploration
		w := -1
		if len(m.res.Witnesses) < m.WitMax {
			m.res.Witnesses = append(m.res.Witnesses, Witness{})
			w = len(m.res.Witnesses) - 1
		} else if h := (uint64(m.witSeen) * 0x9E3779B97F4A7C15) >> 20; h%uint64(m.witSeen) < uint64(m.WitMax) {
			w = int(h % uint64(m.WitMax))
		}
		if w >= 0 {
			wi := Witness{Vector: x.vector(nil)}
			ev := term.NewEvaluator(st.model)
			for _, o := range st.obs {
				ob := Obs{Name: o.name, Raw: o.raw}
				for _, t := range o.v {
					ob.V = append(ob.V, ev.Eval(t))
				}
				wi.Obs = append(wi.Obs, ob)
			}
			m.res.Witnesses[w] = wi
		}
	}
}

// ---- globals and package initialisation ----

const (
	initNone int32 = iota
	initRunning
	initDone
)

func (x *exec) global(g *ssa.Global) int {
	if id, ok := x.p.glob.Load(g); ok {
		x.ensureInit(g)
		return id.(int)
	}
	locked := x.lockInit()
	v, ok := x.p.glob.Load(g)
	if !ok {
		o := &Object{cells: append([]Value(nil), zeroCells(g.Type().(*types.Pointer).Elem())...)}
		b := append(*x.p.base.Load(), o)
		x.p.base.Store(&b)
		v = -len(b)
		x.p.glob.Store(g, v)
	}
	x.unlockInit(locked)
	x.ensureInit(g)
	return v.(int)
}

func (x *exec) lockInit() bool {
	if x.st != nil && x.st.base {
		return false
	}
	x.p.initMu.Lock()
	return true
}
func (x *exec) unlockInit(l bool) {
	if l {
		x.p.initMu.Unlock()
	}
}

func (x *exec) ensureInit(g *ssa.Global) {
	pkg := g.Pkg
	sv, ok := x.p.initSt.Load(pkg)
	if ok && atomic.LoadInt32(sv.(*int32)) == initDone {
		return
	}
	locked := x.lockInit()
	defer x.unlockInit(locked)
	sv, _ = x.p.initSt.LoadOrStore(pkg, new(int32))
	s := sv.(*int32)
	if atomic.LoadInt32(s) != initNone {
		return // running (by this thread) or done
	}
	atomic.StoreInt32(s, initRunning)
	x.p.runInit(pkg, !x.p.strictP[pkg.Pkg.Path()])
	atomic.StoreInt32(s, initDone)
}

// runInit executes a package's variable initialisers in the base heap.
func (p *Program) runInit(pkg *ssa.Package, lenient bool) {
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	st := newState()
	st.base = true
	st.maxStep = 20000000
	g := &Goroutine{}
	st.gs = []*Goroutine{g}
	x := &exec{p: p, st: st, g: g, lenient: lenient}
	defer func() {
		if r := recover(); r != nil {
			if !lenient {
				panic(fmt.Sprintf("init of %s: %v", pkg.Pkg.Path(), r))
			}
		}
	}()
	x.push(p.compile(fn), nil, nil, -1)
	x.run(st)
}

// InitStrict runs the initialisers of the packages under test and the harness.
func (p *Program) InitStrict(order []string) {
	for _, path := range order {
		sp := p.byPath[path]
		if sp == nil {
			continue
		}
		sv, _ := p.initSt.LoadOrStore(sp, new(int32))
		s := sv.(*int32)
		if atomic.LoadInt32(s) != initNone {
			continue
		}
		atomic.StoreInt32(s, initRunning)
		p.runInit(sp, false)
		atomic.StoreInt32(s, initDone)
	}
}
