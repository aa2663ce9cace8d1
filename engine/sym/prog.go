package sym

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type opKind uint8

const (
	opReg opKind = iota
	opConst
	opGlobal
	opNone
)

type operand struct {
	kind opKind
	idx  int
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	ops []operand
	dst int
	aux int // precomputed cell offset / size
}

type cblock struct {
	nphi   int
	instrs []cinstr
}

type cfunc struct {
	fn     *ssa.Function
	name   string
	nregs  int
	blocks []cblock
	in     intrinsic
	strict bool // package under test or harness
	seen   atomic.Bool
	instrN int

	regOnce sync.Once
	regions []*region
}

// Program is the loaded SSA program plus caches shared by all workers.
type Program struct {
	prog    *ssa.Program
	byPath  map[string]*ssa.Package
	funcs   sync.Map // *ssa.Function -> *cfunc
	methods sync.Map // methKey -> *ssa.Function
	redir   map[string]*ssa.Function
	noIntr  bool
	uniq    map[string]int // interned values (unique.Make)
	rtErr   types.Type     // runtime.errorString
	strictP map[string]bool

	base    atomic.Pointer[[]*Object] // base heap; object id -(i+1)
	nbase   int
	initMu  sync.Mutex
	glob    sync.Map // *ssa.Global -> int
	initSt  sync.Map // *ssa.Package -> *int32 state
	Lenient []string // notes from best-effort initialisers
}

const (
	pathModbus = "github.com/things-go/go-modbus"
	pathSerial = "github.com/goburrow/serial"
)

// Load type-checks and builds SSA for patterns in dir.
func Load(dir string, overlay map[string][]byte, env []string, patterns ...string) (*Program, []*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, Env: env}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, byPath: map[string]*ssa.Package{}, redir: map[string]*ssa.Function{}, uniq: map[string]int{}, strictP: map[string]bool{}}
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}
	empty := []*Object{}
	p.base.Store(&empty)
	rt := p.byPath["runtime"]
	if rt == nil {
		return nil, nil, fmt.Errorf("runtime package not loaded")
	}
	p.rtErr = rt.Type("errorString").Type()
	for path := range p.byPath {
		if path == pathModbus || path == pathSerial || strings.HasPrefix(path, "verifharness") {
			p.strictP[path] = true
		}
	}
	return p, pk, nil
}

// Redirect makes calls of the named function execute fn of the model package instead.
func (p *Program) Redirect(pkg string, table map[string]string) error {
	mp := p.byPath[pkg]
	if mp == nil {
		return fmt.Errorf("model package %s not loaded", pkg)
	}
	for from, to := range table {
		f := mp.Func(to)
		if f == nil {
			return fmt.Errorf("model function %s missing", to)
		}
		p.redir[from] = f
	}
	return nil
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.byPath[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func fnPkgPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// compile translates fn's SSA into operand-resolved form.
func (p *Program) compile(fn *ssa.Function) *cfunc {
	if c, ok := p.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn, name: fnName(fn)}
	if !p.noIntr {
		c.in = intrinsics[c.name]
	}
	path := fnPkgPath(fn)
	c.strict = p.strictP[path]
	if c.in == nil {
		if r := p.redir[c.name]; r != nil {
			// the model itself may call the original
			c2 := p.compile(r)
			c = &cfunc{fn: r, name: c.name, nregs: c2.nregs, blocks: c2.blocks, in: c2.in}
			act, _ := p.funcs.LoadOrStore(fn, c)
			return act.(*cfunc)
		}
	}
	if c.in == nil && len(fn.Blocks) > 0 {
		slots := map[ssa.Value]int{}
		n := 0
		add := func(v ssa.Value) { slots[v] = n; n++ }
		for _, v := range fn.Params {
			add(v)
		}
		for _, v := range fn.FreeVars {
			add(v)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					add(v)
				}
			}
		}
		c.nregs = n
		c.blocks = make([]cblock, len(fn.Blocks))
		for i, b := range fn.Blocks {
			cb := &c.blocks[i]
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				ci := cinstr{ins: ins, dst: -1}
				if v, ok := ins.(ssa.Value); ok {
					ci.dst = slots[v]
				}
				for _, op := range ins.Operands(nil) {
					ci.ops = append(ci.ops, mkOperand(*op, slots))
				}
				switch x := ins.(type) {
				case *ssa.Phi:
					cb.nphi++
				case *ssa.FieldAddr:
					ci.aux = fieldOff(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
				case *ssa.Field:
					ci.aux = fieldOff(x.X.Type(), x.Field)
				case *ssa.IndexAddr:
					switch u := under(x.X.Type()).(type) {
					case *types.Slice:
						ci.aux = cellsOf(u.Elem())
					case *types.Pointer:
						ci.aux = cellsOf(under(u.Elem()).(*types.Array).Elem())
					}
				}
				cb.instrs = append(cb.instrs, ci)
				c.instrN++
			}
		}
	}
	act, _ := p.funcs.LoadOrStore(fn, c)
	return act.(*cfunc)
}

func mkOperand(v ssa.Value, slots map[ssa.Value]int) operand {
	switch v := v.(type) {
	case nil:
		return operand{kind: opNone}
	case *ssa.Const:
		return operand{kind: opConst, v: constVal(v)}
	case *ssa.Global:
		return operand{kind: opGlobal, g: v}
	case *ssa.Function:
		return operand{kind: opConst, v: &Closure{fn: v}}
	case *ssa.Builtin:
		return operand{kind: opConst, v: &Closure{blt: v}}
	}
	i, ok := slots[v]
	if !ok {
		return operand{kind: opConst, v: Poison{"operand " + v.String()}}
	}
	return operand{kind: opReg, idx: i}
}

type methKey struct {
	t types.Type
	n string
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f != nil {
		p.methods.Store(k, f)
	}
	return f
}

// FuncsEncoded lists functions of the package under test that were executed.
func (p *Program) FuncsEncoded(pkg string) []string {
	var out []string
	p.funcs.Range(func(_, v any) bool {
		c := v.(*cfunc)
		if c.seen.Load() && fnPkgPath(c.fn) == pkg && c.fn.Synthetic == "" {
			out = append(out, strings.TrimPrefix(c.fn.RelString(nil), pkg+"."))
		}
		return true
	})
	return out
}

const modelPkg = "verifharness/vmodel"

var rawFuncs sync.Map

// compileSrc compiles fn's own source although an intrinsic exists for it.
func (p *Program) compileSrc(fn *ssa.Function) *cfunc {
	if c, ok := srcFuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	q := &Program{prog: p.prog, strictP: p.strictP, uniq: p.uniq, noIntr: true}
	c := q.compile(fn)
	srcFuncs.Store(fn, c)
	return c
}

var srcFuncs sync.Map

// compileRaw compiles fn ignoring redirections (used for calls made by a model function).
func (p *Program) compileRaw(fn *ssa.Function) *cfunc {
	if c, ok := rawFuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	q := &Program{prog: p.prog, strictP: p.strictP, uniq: p.uniq}
	c := q.compile(fn)
	rawFuncs.Store(fn, c)
	return c
}
