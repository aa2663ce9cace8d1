// Command vsym decides one property: it executes the property's harnesses symbolically over the
// current source of /repo and replays what it finds against the real build.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verifengine/solver"
	"verifengine/sym"
)

var (
	verif    = "/verif"
	prop     = flag.String("prop", "", "property id")
	only     = flag.String("only", "", "run only harnesses matching this regexp")
	first    = flag.Bool("first", false, "stop after the first harness with a violation")
	thorough = flag.Bool("thorough", false, "thorough tier")
	debugF   = flag.Bool("debug", false, "engine debugging")
	budgetF  = flag.Int("budget", 0, "seconds of exploration per harness")
	workersF = flag.Int("workers", 0, "worker count")
	noReplay = flag.Bool("noreplay", false, "skip native validation")
	verbose  = flag.Bool("verbose", false, "print more")
)

type harness struct {
	name   string
	fn     *ssa.Function
	res    *sym.Result
	covers []string
}

type job struct {
	harness string
	vector  map[string]uint64
	sched   int
	race    bool
	timeout time.Duration
}

type obs struct {
	Name string   `json:"name"`
	V    []uint64 `json:"v"`
	Raw  string   `json:"raw"`
}

type report struct {
	Outcome string   `json:"outcome"`
	ID      string   `json:"id"`
	Msg     string   `json:"msg"`
	Obs     []obs    `json:"obs"`
	Covers  []string `json:"covers"`
}

func die(f string, a ...any) {
	fmt.Printf("vsym: "+f+"\n", a...)
	os.Exit(2)
}

func goenv(name string) string {
	out, err := exec.Command("go", "env", name).Output()
	if err != nil {
		die("go env: %v", err)
	}
	return strings.TrimSpace(string(out))
}

func main() {
	flag.Parse()
	if e := os.Getenv("VERIF_ROOT"); e != "" {
		verif = e
	}
	t0 := time.Now()
	tier := 0
	if *thorough || os.Getenv("VERIF_TIER") == "thorough" {
		tier = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "vsym")
	if err != nil {
		die("%v", err)
	}
	code := run(tier, seed, tmp, t0)
	os.RemoveAll(tmp)
	os.Exit(code)
}

var harnRe = regexp.MustCompile(`^([A-Z][0-9]{2,3})_\w+$`)

func childEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
}

func run(tier, seed int, tmp string, t0 time.Time) int {
	hdir := filepath.Join(verif, "harness")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	goroot := goenv("GOROOT")

	// environment overlays shared by the symbolic and the native build
	files := netOverlay(goroot)
	// registry of harnesses for the native build
	names := scanHarnesses(filepath.Join(hdir, "props"))
	var reg bytes.Buffer
	reg.WriteString("package props\n\n// Registry maps harness names to functions.\nvar Registry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&reg, "\t%q: %s,\n", n, n)
	}
	reg.WriteString("}\n")
	files[filepath.Join(hdir, "props", "zz_registry.go")] = reg.Bytes()
	nat := map[string][]byte{}
	for k, b := range files {
		nat[k] = b
	}
	syncOverlay(goroot, nat)

	nb := &native{tmp: tmp, hdir: hdir, files: nat}
	if !*noReplay {
		nb.start()
		defer nb.wait()
	}

	p, pk, err := sym.Load(hdir, files, childEnv(), "./props")
	if err != nil {
		// the code under test does not build
		die("cannot load the code: %v", err)
	}
	if err := p.Redirect("verifharness/vmodel", sym.Redirects); err != nil {
		die("%v", err)
	}
	loadT := time.Since(t0)
	p.InitStrict([]string{"github.com/goburrow/serial", "github.com/things-go/go-modbus", "verifharness/v", "verifharness/vmodel", "verifharness/env", "verifharness/props"})

	var hs []*harness
	onlyRe := regexp.MustCompile(*only)
	for _, n := range names {
		m := harnRe.FindStringSubmatch(n)
		if m == nil || m[1] != *prop || !onlyRe.MatchString(n) {
			continue
		}
		fn := p.Func("verifharness/props", n)
		if fn == nil {
			die("harness %s not found", n)
		}
		hs = append(hs, &harness{name: n, fn: fn, covers: coversOf(fn)})
	}
	if len(hs) == 0 {
		die("no harness for property %s", *prop)
	}
	total := 420 * time.Second
	per := 120 * time.Second
	if tier == 1 {
		total = 3 * 3600 * time.Second
		per = 1800 * time.Second
	}
	if *budgetF > 0 {
		per = time.Duration(*budgetF) * time.Second
	}
	workers := runtime.NumCPU()
	if *workersF > 0 {
		workers = *workersF
	}
	startX := time.Now()
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	var bad []found
	notes := []string{}
	validated, mismatched := 0, 0
	var samples []any
	for _, h := range hs {
		if *first && len(bad) > 0 {
			h.res = &sym.Result{Harness: h.name, TimedOut: true}
			continue
		}
		left := total - time.Since(startX)
		b := per
		if left < b {
			b = left
		}
		if len(bad) > 0 && b > 40*time.Second && tier == 0 {
			b = 40 * time.Second // the property is refuted already
		}
		if b < time.Second {
			notes = append(notes, "harness "+h.name+" not explored: time budget exhausted")
			h.res = &sym.Result{Harness: h.name, TimedOut: true}
			continue
		}
		sym.ResetCache()
		m := &sym.Machine{P: p, Workers: workers, Budget: b, WitMax: 6, Debug: *debugF, Tier: tier, Grace: 15 * time.Second}
		if tier == 1 {
			m.WitMax = 24
			m.Grace = 5 * time.Minute
		}
		h.res = m.Run(h.fn)
		r := h.res
		fmt.Printf("[%s] paths=%d infeasible=%d steps=%d forks=%d asserts=%d (symbolic %d) maxdepth=%d wall=%.1fs%s\n", h.name, r.Paths, r.Infeasible, r.Steps, r.Forks, r.Asserts, r.AssertsSym, r.MaxDepth, r.Wall.Seconds(), map[bool]string{true: " TIMEOUT"}[r.TimedOut])
		for k, n := range r.Incomplete {
			notes = append(notes, fmt.Sprintf("%s: %s (x%d)", h.name, k, n))
		}
		if r.TimedOut || r.Dropped > 0 {
			notes = append(notes, fmt.Sprintf("%s: exploration stopped at the time budget with %d open paths; bound reduced", h.name, r.Dropped))
		}
		if *noReplay {
			for _, v := range r.Violations {
				fmt.Printf("  candidate %s %q %s at %s\n    %v\n", v.Kind, v.ID, v.Msg, v.Where, vecString(v.Vector))
			}
			continue
		}
		// confirm counterexamples on the real code
		same := map[string]int{}
		for _, v := range r.Violations {
			key := v.Kind + "|" + v.ID
			if same[key] > 0 {
				continue
			}
			ok, rep, how := nb.confirm(h.name, v, tier)
			if !ok {
				notes = append(notes, fmt.Sprintf("%s: counterexample for %q (%s at %s) did not reproduce natively (%s); not reported. vector %s", h.name, v.ID, v.Msg, v.Where, rep.Outcome+" "+rep.ID, vecString(v.Vector)))
				continue
			}
			f := found{h.name, v, rep, how}
			if known.match(*prop, f) == "" {
				same[key]++
			}
			bad = append(bad, f)
		}
		// validate the encoding on completed paths
		va, mi, ss := nb.validate(h.name, r.Witnesses, tier)
		validated += va
		for _, s := range ss {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
		for _, m := range mi {
			mismatched++
			notes = append(notes, m)
		}
		// witnesses that fail natively are real violations the encoding missed
	}

	// vacuity: every cover point of a fully explored harness must be reached
	vac := []string{}
	for _, h := range hs {
		if h.res.TimedOut || h.res.Dropped > 0 || len(h.res.Incomplete) > 0 {
			continue
		}
		for _, c := range h.covers {
			if h.res.Covers[c] == 0 {
				vac = append(vac, h.name+": "+c)
			}
		}
		if h.res.Paths == 0 {
			vac = append(vac, h.name+": no completed path")
		}
	}

	exit := 0
	nviol := 0
	for _, f := range bad {
		if k := known.match(*prop, f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			continue
		}
		nviol++
		path := saveReplay(nviol, tier, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("  harness %s: %s %q %s\n  at %s\n  input %s\n  native: %s %s %s (%s)\n", f.harness, f.v.Kind, f.v.ID, f.v.Msg, f.v.Where, vecString(f.v.Vector), f.rep.Outcome, f.rep.ID, firstLine(f.rep.Msg), f.how)
		if *verbose {
			fmt.Println(strings.Join(f.v.Trail, "\n"))
		}
		exit = 1
	}
	for _, n := range notes {
		fmt.Println("NOTE:", n)
	}
	if len(vac) > 0 && exit == 0 {
		for _, s := range vac {
			fmt.Println("VACUOUS:", s)
		}
		exit = 2
	}
	writeEvidence(hs, p, tier, seed, nviol, validated, mismatched, samples, notes, vac, t0, loadT)
	fmt.Printf("property=%s tier=%s exit=%d load=%.1fs wall=%.1fs queries=%d cachehits=%d solver=%.1fs validated=%d\n", *prop, map[int]string{0: "quick", 1: "thorough"}[tier], exit, loadT.Seconds(), time.Since(t0).Seconds(), solver.S.Queries, solver.S.CacheHits, float64(solver.S.Nanos)/1e9, validated)
	_ = pk
	return exit
}

type found struct {
	harness string
	v       sym.Violation
	rep     report
	how     string
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func vecString(m map[string]uint64) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return natLess(ks[i], ks[j]) })
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d", k, m[k])
		if sb.Len() > 1500 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}

func natLess(a, b string) bool {
	ia, ib := strings.LastIndexByte(a, '#'), strings.LastIndexByte(b, '#')
	if ia > 0 && ib > 0 && a[:ia] == b[:ib] {
		x, _ := strconv.Atoi(a[ia+1:])
		y, _ := strconv.Atoi(b[ib+1:])
		return x < y
	}
	return a < b
}

func saveReplay(n, tier int, f found) string {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("replay_%s_%d.json", *prop, n))
	b, _ := json.MarshalIndent(map[string]any{
		"property": *prop, "harness": f.harness, "tier": tier, "kind": f.v.Kind, "id": f.v.ID, "msg": f.v.Msg,
		"where": f.v.Where, "vector": f.v.Vector, "trail": f.v.Trail, "native": f.rep, "how": f.how,
	}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// scanHarnesses lists the harness functions declared in dir.
func scanHarnesses(dir string) []string {
	es, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	re := regexp.MustCompile(`(?m)^func ([A-Z][0-9]{2,3}_\w+)\(\) \{`)
	var out []string
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			out = append(out, m[1])
		}
	}
	sort.Strings(out)
	return out
}

// coversOf collects the constant cover ids reachable from fn within the harness package.
func coversOf(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	ids := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.String() == "verifharness/v.Cover" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						ids[strings.Trim(k.Value.ExactString(), `"`)] = true
					}
				}
				if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "verifharness/props" {
					walk(callee)
				}
			}
		}
	}
	walk(fn)
	var out []string
	for k := range ids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func replaceOnce(file string, src []byte, old, new string) []byte {
	if bytes.Count(src, []byte(old)) != 1 {
		die("overlay: anchor not found exactly once in %s: %q", file, old)
	}
	return bytes.Replace(src, []byte(old), []byte(new), 1)
}

// netOverlay patches package net so that dialing and listening can be answered by the harness.
func netOverlay(goroot string) map[string][]byte {
	f := filepath.Join(goroot, "src/net/dial.go")
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	b = replaceOnce(f, b, "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
		"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif VerifDial != nil {\n\t\treturn VerifDial(d, network, address)\n\t}\n")
	b = replaceOnce(f, b, "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
		"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif VerifListen != nil {\n\t\treturn VerifListen(network, address)\n\t}\n")
	b = append(b, "\n// Hooks installed by the verification harness.\nvar (\n\tVerifDial   func(d *Dialer, network, address string) (Conn, error)\n\tVerifListen func(network, address string) (Listener, error)\n)\n"...)
	files := map[string][]byte{f: b}
	tlsOverlay(goroot, files)
	return files
}

// tlsOverlay patches package crypto/tls so that the harness can stand in for the protocol: it
// decides how a handshake ends, and the records are the plain bytes.
func tlsOverlay(goroot string, files map[string][]byte) {
	f := filepath.Join(goroot, "src/crypto/tls/conn.go")
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	hook := func(head, body string) {
		b = replaceOnce(f, b, head, head+"\tif VerifHandshake != nil {\n"+body+"\t}\n")
	}
	io := "\t\tif err := c.verifHandshake(context.Background()); err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\tVerifIO(c.conn, 1)\n\t\tdefer VerifIO(c.conn, -1)\n"
	hook("func (c *Conn) Read(b []byte) (int, error) {\n", io+"\t\treturn c.conn.Read(b)\n")
	hook("func (c *Conn) Write(b []byte) (int, error) {\n", io+"\t\treturn c.conn.Write(b)\n")
	hook("func (c *Conn) Close() error {\n", "\t\treturn c.conn.Close()\n")
	hook("func (c *Conn) CloseWrite() error {\n", "\t\treturn nil\n")
	hook("func (c *Conn) HandshakeContext(ctx context.Context) error {\n", "\t\treturn c.verifHandshake(ctx)\n")
	b = append(b, `
// Hooks installed by the verification harness.
var (
	VerifHandshake func(ctx context.Context, raw net.Conn, isClient bool, config *Config) error
	VerifIO        func(raw net.Conn, d int)
)

func (c *Conn) verifHandshake(ctx context.Context) error {
	c.handshakeMutex.Lock()
	defer c.handshakeMutex.Unlock()
	if c.handshakeErr != nil {
		return c.handshakeErr
	}
	if c.isHandshakeComplete.Load() {
		return nil
	}
	if err := VerifHandshake(ctx, c.conn, c.isClient, c.config); err != nil {
		c.handshakeErr = err
		return err
	}
	c.isHandshakeComplete.Store(true)
	return nil
}
`...)
	files[f] = b
}

// syncOverlay patches package sync (native build only) with scheduling hooks.
func syncOverlay(goroot string, files map[string][]byte) {
	f := filepath.Join(goroot, "src/sync/mutex.go")
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	b = replaceOnce(f, b, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif VerifHook != nil {\n\t\tVerifHook(func() bool {\n\t\t\tif m.mu.TryLock() {\n\t\t\t\tm.mu.Unlock()\n\t\t\t\treturn true\n\t\t\t}\n\t\t\treturn false\n\t\t})\n\t}\n")
	un := "\tif VerifUnlocked != nil {\n\t\tdefer VerifUnlocked()\n\t}\n"
	b = replaceOnce(f, b, "func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n"+un)
	b = append(b, "\n// VerifUnlocked is called after every release.\nvar VerifUnlocked func()\n"...)
	b = append(b, "\n// VerifHook is called before lock acquisitions; installed by the verification harness.\nvar VerifHook func(enabled func() bool)\n"...)
	files[f] = b
	f = filepath.Join(goroot, "src/sync/rwmutex.go")
	b, err = os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	hook := "\tif VerifHook != nil {\n\t\tVerifHook(func() bool { return rw.verifFree(%s) })\n\t}\n"
	b = replaceOnce(f, b, "func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n"+fmt.Sprintf(hook, "true"))
	b = replaceOnce(f, b, "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n"+fmt.Sprintf(hook, "false"))
	b = replaceOnce(f, b, "func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n"+un)
	b = replaceOnce(f, b, "func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n"+un)
	b = append(b, "\nfunc (rw *RWMutex) verifFree(w bool) bool {\n\tn := rw.readerCount.Load()\n\tif w {\n\t\treturn n == 0\n\t}\n\treturn n >= 0\n}\n"...)
	files[f] = b
	// further scheduling points
	for name, fns := range map[string][]string{
		"waitgroup.go": {"func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Wait() {\n"},
		"map.go": {"func (m *Map) Load(key any) (value any, ok bool) {\n", "func (m *Map) Store(key, value any) {\n",
			"func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {\n", "func (m *Map) Delete(key any) {\n",
			"func (m *Map) Range(f func(key, value any) bool) {\n", "func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {\n"},
		"once.go": {"func (o *Once) Do(f func()) {\n"},
		"pool.go": {"func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"},
	} {
		f := filepath.Join(goroot, "src/sync", name)
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		// taken and released while the goroutine is pinned
		b = bytes.ReplaceAll(b, []byte("allPoolsMu.Lock()"), []byte("allPoolsMu.mu.Lock()"))
		b = bytes.ReplaceAll(b, []byte("allPoolsMu.Unlock()"), []byte("allPoolsMu.mu.Unlock()"))
		for _, fn := range fns {
			if bytes.Count(b, []byte(fn)) == 1 {
				b = bytes.Replace(b, []byte(fn), []byte(fn+"\tif VerifHook != nil {\n\t\tVerifHook(nil)\n\t}\n"), 1)
			}
		}
		files[f] = b
	}
}

// ---- native replay ----

type native struct {
	tmp, hdir string
	files     map[string][]byte
	once      sync.Once
	done      chan struct{}
	err       error
	bin       string
	raceOnce  sync.Once
	raceBin   string
	raceErr   error
	overlay   string
	n         int
	mu        sync.Mutex
}

func (nb *native) start() {
	nb.done = make(chan struct{})
	rep := map[string]string{}
	i := 0
	for k, b := range nb.files {
		f := filepath.Join(nb.tmp, fmt.Sprintf("ov%d.go.txt", i))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			die("%v", err)
		}
		rep[k] = f
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	nb.overlay = filepath.Join(nb.tmp, "overlay.json")
	os.WriteFile(nb.overlay, j, 0o644)
	go func() {
		defer close(nb.done)
		nb.bin = filepath.Join(nb.tmp, "props.test")
		nb.err = nb.build(nb.bin, false)
	}()
}

func (nb *native) build(out string, race bool) error {
	args := []string{"test", "-c", "-vet=off", "-overlay", nb.overlay, "-o", out}
	env := childEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./props")
	cmd := exec.Command("go", args...)
	cmd.Dir = nb.hdir
	cmd.Env = env
	o, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, o)
	}
	return nil
}

func (nb *native) wait() {
	if nb.done != nil {
		<-nb.done
	}
}

func (nb *native) race() (string, error) {
	nb.raceOnce.Do(func() {
		nb.raceBin = filepath.Join(nb.tmp, "props.race.test")
		nb.raceErr = nb.build(nb.raceBin, true)
	})
	return nb.raceBin, nb.raceErr
}

func (nb *native) exec(j job, tier int) report {
	nb.wait()
	if nb.err != nil {
		die("%v", nb.err)
	}
	bin := nb.bin
	if j.race {
		b, err := nb.race()
		if err != nil {
			return report{Outcome: "norace", Msg: err.Error()}
		}
		bin = b
	}
	nb.mu.Lock()
	nb.n++
	vf := filepath.Join(nb.tmp, fmt.Sprintf("vec%d.json", nb.n))
	nb.mu.Unlock()
	b, _ := json.Marshal(j.vector)
	os.WriteFile(vf, b, 0o644)
	defer os.Remove(vf)
	if j.timeout == 0 {
		j.timeout = 20 * time.Second
	}
	cmd := exec.Command(bin, "-test.run", "^TestReplay$", "-test.timeout", "0")
	cmd.Dir = nb.tmp
	cmd.Env = append(os.Environ(), "VERIF_HARNESS="+j.harness, "VERIF_VECTOR="+vf, "VERIF_TIERN="+strconv.Itoa(tier), "GOTRACEBACK=single")
	if j.sched != 0 {
		cmd.Env = append(cmd.Env, "VERIF_SCHED="+strconv.Itoa(j.sched))
	}
	if j.race {
		cmd.Env = append(cmd.Env, "VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return report{Outcome: "error", Msg: err.Error()}
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case <-ch:
	case <-time.After(j.timeout):
		cmd.Process.Kill()
		<-ch
		return report{Outcome: "hang", Msg: "no result within " + j.timeout.String()}
	}
	s := out.String()
	if i := strings.LastIndex(s, "VREPORT "); i >= 0 {
		var r report
		l := s[i+8:]
		if k := strings.IndexByte(l, '\n'); k >= 0 {
			l = l[:k]
		}
		if json.Unmarshal([]byte(l), &r) == nil {
			return r
		}
	}
	switch {
	case strings.Contains(s, "DATA RACE"):
		return report{Outcome: "race", Msg: clip(s)}
	case strings.Contains(s, "deadlock: all goroutines in bubble are blocked") || strings.Contains(s, "all goroutines are asleep") || strings.Contains(s, "deadlock: main bubble goroutine"):
		return report{Outcome: "deadlock", Msg: clip(s)}
	case strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: "):
		i := strings.Index(s, "panic: ")
		if i < 0 {
			i = strings.Index(s, "fatal error: ")
		}
		return report{Outcome: "panic", Msg: clip(s[i:])}
	}
	return report{Outcome: "error", Msg: clip(s)}
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// confirm replays a candidate counterexample against the real code.
func (nb *native) confirm(h string, v sym.Violation, tier int) (bool, report, string) {
	isBad := func(r report) bool {
		switch r.Outcome {
		case "assert", "panic", "race":
			return true
		case "deadlock", "hang":
			return v.Kind != "race"
		}
		return false
	}
	hasSched := false
	for k := range v.Vector {
		if strings.HasPrefix(k, "sched#") {
			hasSched = true
		}
	}
	if v.Kind != "race" {
		r := nb.exec(job{harness: h, vector: v.Vector}, tier)
		if isBad(r) {
			return true, r, "direct replay"
		}
		if !hasSched {
			return false, r, ""
		}
		// search for the schedule natively with the controlled scheduler
		return nb.search(1500*(1+3*tier), isBad, "controlled schedule", func(s int) report {
			return nb.exec(job{harness: h, vector: v.Vector, sched: s, timeout: 10 * time.Second}, tier)
		})
	}
	return nb.search(240*(1+3*tier), isBad, "race detector run", func(s int) report {
		return nb.exec(job{harness: h, vector: v.Vector, race: true, sched: s, timeout: 8 * time.Second}, tier)
	})
}

// search tries seeds in parallel until a run is bad.
func (nb *native) search(max int, isBad func(report) bool, how string, try func(s int) report) (bool, report, string) {
	var mu sync.Mutex
	var hit, last *report
	next, seed := 0, 0
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if hit != nil || next >= max {
					mu.Unlock()
					return
				}
				next++
				s := next
				mu.Unlock()
				r := try(s)
				mu.Lock()
				last = &r
				if isBad(r) && hit == nil {
					hit, seed = &r, s
				}
				if r.Outcome == "norace" {
					next = max
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if hit != nil {
		return true, *hit, fmt.Sprintf("%s, seed %d", how, seed)
	}
	return false, *last, ""
}

func (nb *native) validate(h string, ws []sym.Witness, tier int) (ok int, bad []string, samples []any) {
	type res struct {
		ok  bool
		msg string
		s   any
	}
	out := make([]res, len(ws))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, w := range ws {
		if w.Vector == nil {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, w sym.Witness) {
			defer wg.Done()
			defer func() { <-sem }()
			for k := range w.Vector {
				if strings.HasPrefix(k, "sched#") {
					out[i] = res{msg: "skip"}
					return
				}
			}
			r := nb.exec(job{harness: h, vector: w.Vector}, tier)
			if r.Outcome != "ok" {
				out[i] = res{msg: fmt.Sprintf("%s: encoding predicts success but the real run ended with %s %s %s; input %s", h, r.Outcome, r.ID, firstLine(r.Msg), vecString(w.Vector))}
				return
			}
			if d := diffObs(w.Obs, r.Obs); d != "" {
				out[i] = res{msg: fmt.Sprintf("%s: encoding and real run differ: %s; input %s", h, d, vecString(w.Vector))}
				return
			}
			out[i] = res{ok: true, s: map[string]any{"harness": h, "input": vecString(w.Vector), "observed": len(r.Obs)}}
		}(i, w)
	}
	wg.Wait()
	for _, r := range out {
		if r.ok {
			ok++
			if len(samples) < 3 {
				samples = append(samples, r.s)
			}
		} else if r.msg != "" && r.msg != "skip" {
			bad = append(bad, r.msg)
		}
	}
	return
}

func diffObs(a []sym.Obs, b []obs) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations predicted, %d made", len(a), len(b))
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Raw != b[i].Raw || len(a[i].V) != len(b[i].V) {
			return fmt.Sprintf("observation %d: predicted %v, got %v", i, a[i], b[i])
		}
		for k := range a[i].V {
			if a[i].V[k] != b[i].V[k] {
				return fmt.Sprintf("observation %d (%s): predicted %v, got %v", i, a[i].Name, a[i].V, b[i].V)
			}
		}
	}
	return ""
}

// ---- known findings ----

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Harness  string `json:"harness"`
		ID       string `json:"id"`
		Where    string `json:"where"`
		What     string `json:"what"`
	} `json:"findings"`
}

func loadKnown(path string) *knownFile {
	k := &knownFile{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	if err := json.Unmarshal(b, k); err != nil {
		die("%s: %v", path, err)
	}
	return k
}

func (k *knownFile) match(prop string, f found) string {
	for _, e := range k.Findings {
		if e.Property == prop && (e.Harness == "" || e.Harness == f.harness) && (e.ID == "" || e.ID == f.v.ID) && (e.Where == "" || strings.Contains(f.v.Where, e.Where)) {
			return e.What
		}
	}
	return ""
}

// ---- evidence ----

func writeEvidence(hs []*harness, p *sym.Program, tier, seed, nviol, validated, mismatched int, samples []any, notes, vac []string, t0 time.Time, loadT time.Duration) {
	var paths, steps, asserts, assertsSym, infeas int64
	hl := []any{}
	complete := true
	var obsSamples []any
	for _, h := range hs {
		r := h.res
		paths += r.Paths
		infeas += r.Infeasible
		steps += r.Steps
		asserts += r.Asserts
		assertsSym += r.AssertsSym
		done := !r.TimedOut && r.Dropped == 0 && len(r.Incomplete) == 0
		if !done {
			complete = false
		}
		hl = append(hl, map[string]any{
			"harness": h.name, "paths": r.Paths, "ssa_instructions": r.Steps, "assertions": r.Asserts, "assertions_needing_solver": r.AssertsSym,
			"covers": r.Covers, "complete_within_bounds": done, "wall_s": round(r.Wall.Seconds()),
		})
		for i, w := range r.Witnesses {
			if i < 2 && len(obsSamples) < 10 {
				obsSamples = append(obsSamples, map[string]any{"harness": h.name, "path_input": vecString(w.Vector)})
			}
		}
	}
	if len(samples) == 0 {
		samples = obsSamples
	}
	b, _ := os.ReadFile(filepath.Join(verif, "bounds.json"))
	var bounds map[string]struct {
		Bounds      string   `json:"bounds"`
		Assumptions []string `json:"assumptions"`
	}
	json.Unmarshal(b, &bounds)
	fe := p.FuncsEncoded("github.com/things-go/go-modbus")
	sort.Strings(fe)
	asm := append([]string{
		"environment (net.Conn, net.Listener, dialing, serial ports, clock) is modelled in Go under /verif/harness/env; its behaviour is part of the claim",
		"fmt formatting, package log and reflection fall-backs are modelled as listed in engine/sym/intrinsics.go",
	}, bounds[*prop].Assumptions...)
	ev := map[string]any{
		"property": *prop, "tier": map[int]string{0: "quick", 1: "thorough"}[tier], "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated,
			"samples": samples, "harnesses": hl, "functions_encoded": fe, "bounds": bounds[*prop].Bounds,
			"assertions_discharged": asserts, "assertions_needing_solver": assertsSym, "infeasible_paths_cut": infeas,
			"solver_queries": solver.S.Queries, "solver_cache_hits": solver.S.CacheHits, "solver_seconds": round(float64(solver.S.Nanos) / 1e9),
			"encoding_mismatches": mismatched, "exhaustive_within_bounds": complete, "notes": notes, "vacuous": vac,
			"load_seconds": round(loadT.Seconds()),
			"explanation":  "states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically",
		},
		"assumptions": asm,
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  nviol,
	}
	out, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", *prop+".json"), append(out, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

var _ = packages.NeedName
var _ types.Type
