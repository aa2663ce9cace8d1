// Package solver drives SMT solvers over pipes.
package solver

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifengine/term"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Model map[*term.Term]uint64

// Stats are process-wide counters.
type Stats struct {
	Queries, NSat, NUnsat, NUnknown, Fallback, CacheHits int64
	Linear                                               int64 // refuted by linear reasoning over GF(2)
	CrossChecked, CrossDisagree, CrossUnknown            int64
	Errors                                               int64
	Nanos                                                int64
}

var S Stats

// CrossEvery: every N-th query is also decided by a second solver (0 = never).
var CrossEvery int64

// Timeouts.
var (
	QuickMs    = 8000
	FallbackMs = 60000
)

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	ndef    int
	timeout int
}

func New() *Solver { return &Solver{} }

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:6000")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[uint32]bool{}
	s.ndef = 0
	s.timeout = 0
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// define emits definitions of t (post-order, iterative).
func define(w io.Writer, defined map[uint32]bool, t *term.Term) int {
	n := 0
	type fr struct {
		t *term.Term
		i int
	}
	if t.Op == term.OConst || defined[t.ID] {
		return 0
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.i < int(f.t.N) {
			a := f.t.A[f.i]
			f.i++
			if a.Op != term.OConst && !defined[a.ID] {
				stack = append(stack, fr{a, 0})
			}
			continue
		}
		x := f.t
		stack = stack[:len(stack)-1]
		if defined[x.ID] {
			continue
		}
		defined[x.ID] = true
		n++
		if x.Op == term.OVar {
			fmt.Fprintf(w, "(declare-const %s %s)\n", term.Ref(x), term.Sort(x.W))
		} else {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.ID, term.Sort(x.W), term.Body(x))
		}
	}
	return n
}

func varsOf(as []*term.Term) []*term.Term {
	seen := map[*term.Term]bool{}
	var out []*term.Term
	for _, a := range as {
		for _, v := range term.Vars(a) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

// Check decides the conjunction of as. A model assigns every variable occurring in as.
func (s *Solver) Check(as []*term.Term) (Result, Model) {
	t0 := time.Now()
	n := atomic.AddInt64(&S.Queries, 1)
	r, m := s.check(as)
	if r == Unknown {
		atomic.AddInt64(&S.Fallback, 1)
		r, m = fallback(as)
	}
	if CrossEvery > 0 && n%CrossEvery == 0 && r != Unknown {
		cross(as, r)
	}
	atomic.AddInt64(&S.Nanos, int64(time.Since(t0)))
	switch r {
	case Sat:
		atomic.AddInt64(&S.NSat, 1)
		// Every model is re-checked against the terms by our own evaluator.
		ev := term.NewEvaluator(m)
		for _, a := range as {
			if ev.Eval(a) != 1 {
				atomic.AddInt64(&S.Errors, 1)
				return Unknown, nil
			}
		}
	case Unsat:
		atomic.AddInt64(&S.NUnsat, 1)
	default:
		atomic.AddInt64(&S.NUnknown, 1)
	}
	return r, m
}

func (s *Solver) check(as []*term.Term) (Result, Model) {
	if s.cmd == nil || s.ndef > 150000 {
		s.Close()
		if err := s.start(); err != nil {
			atomic.AddInt64(&S.Errors, 1)
			return Unknown, nil
		}
	}
	for _, a := range as {
		s.ndef += define(s.in, s.defined, a)
	}
	if s.timeout != QuickMs {
		s.timeout = QuickMs
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", QuickMs)
	}
	fmt.Fprintln(s.in, "(push)")
	for _, a := range as {
		fmt.Fprintf(s.in, "(assert %s)\n", term.Ref(a))
	}
	fmt.Fprintln(s.in, "(check-sat)")
	if s.in.Flush() != nil {
		s.Close()
		return Unknown, nil
	}
	// watchdog: z3's own timeout is soft
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(QuickMs)*time.Millisecond*2+5*time.Second, func() { proc.Kill() })
	defer wd.Stop()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		fmt.Fprintln(s.in, "(pop)")
		return Unsat, nil
	case "sat":
		vs := varsOf(as)
		m := Model{}
		if len(vs) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range vs {
				fmt.Fprint(s.in, term.Ref(v), " ")
			}
			fmt.Fprintln(s.in, "))")
			s.in.Flush()
			txt, err := readSexp(s.out)
			if err != nil {
				s.Close()
				return Unknown, nil
			}
			if err := parseValues(txt, vs, m); err != nil {
				atomic.AddInt64(&S.Errors, 1)
				s.Close()
				return Unknown, nil
			}
		}
		fmt.Fprintln(s.in, "(pop)")
		return Sat, m
	case "unknown", "timeout":
		fmt.Fprintln(s.in, "(pop)")
		return Unknown, nil
	}
	// "(error" or anything else is inconclusive.
	atomic.AddInt64(&S.Errors, 1)
	s.Close()
	return Unknown, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((name val) ...) given in the order of vs.
func parseValues(txt string, vs []*term.Term, m Model) error {
	rest := txt
	for _, v := range vs {
		name := term.Ref(v)
		i := strings.Index(rest, name)
		n := len(name)
		if i < 0 { // solvers may drop the bars of simple symbols
			name = strings.Trim(name, "|")
			i = strings.Index(rest, name)
			n = len(name)
		}
		if i < 0 {
			return fmt.Errorf("no value for %s", name)
		}
		rest = rest[i+n:]
		j := strings.IndexByte(rest, ')')
		val := strings.TrimSpace(rest[:j])
		rest = rest[j:]
		var u uint64
		var err error
		switch {
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		case strings.HasPrefix(val, "#x"):
			u, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, err = strconv.ParseUint(val[2:], 2, 64)
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			u, err = strconv.ParseUint(f[0], 10, 64)
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		if err != nil {
			return err
		}
		m[v] = u
	}
	return nil
}

// Script renders a stand-alone SMT-LIB2 problem.
func Script(as []*term.Term, check string, vs []*term.Term) string {
	var b bytes.Buffer
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	d := map[uint32]bool{}
	for _, a := range as {
		define(&b, d, a)
	}
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", term.Ref(a))
	}
	b.WriteString(check + "\n")
	if len(vs) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vs {
			b.WriteString(term.Ref(v) + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

func oneShot(ctx context.Context, script string, vs []*term.Term, prog string, args ...string) (Result, Model) {
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	txt := string(out)
	line, rest, _ := strings.Cut(txt, "\n")
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := Model{}
		if len(vs) > 0 {
			if err := parseValues(rest, vs, m); err != nil {
				return Unknown, nil
			}
		}
		return Sat, m
	}
	return Unknown, nil
}

var fbSem = make(chan struct{}, 3)

var (
	stopMu  sync.Mutex
	stopCtx = context.Background()
)

// Arm makes the function it returns cut short every slow query that starts from now on.
func Arm() (stop func()) {
	ctx, cancel := context.WithCancel(context.Background())
	stopMu.Lock()
	stopCtx = ctx
	stopMu.Unlock()
	return cancel
}

// fallback races a non-incremental z3 and cvc5 on a stand-alone script.
func fallback(as []*term.Term) (Result, Model) {
	stopMu.Lock()
	parent := stopCtx
	stopMu.Unlock()
	select {
	case fbSem <- struct{}{}:
	case <-parent.Done():
		return Unknown, nil
	}
	defer func() { <-fbSem }()
	vs := varsOf(as)
	ctx, cancel := context.WithTimeout(parent, time.Duration(FallbackMs)*time.Millisecond)
	defer cancel()
	type rm struct {
		r Result
		m Model
	}
	ch := make(chan rm, 2)
	var wg sync.WaitGroup
	run := func(script, prog string, args ...string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, m := oneShot(ctx, script, vs, prog, args...)
			ch <- rm{r, m}
		}()
	}
	run(Script(as, "(check-sat)", vs), "z3-new", "-in", "-smt2", "-memory:6000")
	run(Script(as, "(check-sat)", vs), "cvc5", "--lang=smt2", "--produce-models", "-q")
	res := rm{Unknown, nil}
	for i := 0; i < 2; i++ {
		x := <-ch
		if x.r != Unknown {
			res = x
			cancel()
			break
		}
	}
	return res.r, res.m
}

func cross(as []*term.Term, want Result) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	r, _ := oneShot(ctx, Script(as, "(check-sat)", nil), nil, "cvc5", "--lang=smt2", "-q")
	atomic.AddInt64(&S.CrossChecked, 1)
	switch {
	case r == Unknown:
		atomic.AddInt64(&S.CrossUnknown, 1)
	case r != want:
		atomic.AddInt64(&S.CrossDisagree, 1)
	}
}
