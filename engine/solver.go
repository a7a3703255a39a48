package main

// SMT solver back end: one persistent z3 process per worker. Every query is
// self-contained (push; assert the independent slice; check; pop), so a crash
// or timeout never contaminates a later query.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	tb       *TB
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	defined  map[int32]bool // term ids defined in the live process
	declared map[uint64]bool
	queries  int64
	hits     int64
	fallback int64
	unknowns int64
	xchecks  int64 // queries re-decided by a second solver
	xdis     int64
	solveT   time.Duration
	sinceRst int
	cache    map[string]cacheEnt
	varsets  map[int32][]int32
	divs     map[int32]bool
	errs     []string
	tmo      int // ms
	xevery   int64
	deadline time.Time
}

type cacheEnt struct {
	r SatRes
	m Model
}

func NewSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, cache: map[string]cacheEnt{}, varsets: map[int32][]int32{}, divs: map[int32]bool{}, tmo: 4000}
	return s
}

func (s *Solver) start() {
	s.stop()
	s.cmd = exec.Command(mainSolver, "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.w = bufio.NewWriterSize(s.in, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.defined = map[int32]bool{}
	s.declared = map[uint64]bool{}
	s.sinceRst = 0
	fmt.Fprintf(s.w, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.tmo)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// vset returns the sorted variable keys of t.
func (s *Solver) vset(t *Term) []int32 {
	if t.vars == -1 {
		return nil
	}
	if v, ok := s.varsets[t.id]; ok {
		return v
	}
	var r []int32
	if t.vars >= 0 {
		r = []int32{t.vars}
	} else {
		seen := map[int32]bool{}
		visited := map[int32]bool{}
		var rec func(*Term)
		rec = func(x *Term) {
			if x == nil || x.vars == -1 || visited[x.id] {
				return
			}
			visited[x.id] = true
			if x.vars >= 0 {
				seen[x.vars] = true
				return
			}
			if vs, ok := s.varsets[x.id]; ok {
				for _, v := range vs {
					seen[v] = true
				}
				return
			}
			rec(x.a)
			rec(x.b)
			rec(x.c)
		}
		rec(t)
		for v := range seen {
			r = append(r, v)
		}
		sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	}
	s.varsets[t.id] = r
	return r
}

// hasDiv reports a wide division or remainder in t: bit-blasting those is slow,
// so they get a short time limit and then an integer encoding.
func (s *Solver) hasDiv(t *Term) bool {
	if t == nil || t.vars == -1 {
		return false
	}
	if v, ok := s.divs[t.id]; ok {
		return v
	}
	r := false
	switch t.op {
	case OBUdiv, OBSdiv, OBUrem, OBSrem:
		r = t.w >= 32
	}
	r = r || s.hasDiv(t.a) || s.hasDiv(t.b) || s.hasDiv(t.c)
	s.divs[t.id] = r
	return r
}

// limit changes the time limit of the running solver (0: the default).
func (s *Solver) limit(ms int) {
	if s.cmd == nil {
		s.start()
	}
	if ms == 0 {
		ms = s.tmo
	}
	fmt.Fprintf(s.w, "(set-option :timeout %d)\n", ms)
}

// slice returns the constraints of pc transitively sharing variables with q.
func (s *Solver) slice(pc []*Term, q *Term) []*Term {
	need := map[int32]bool{}
	for _, v := range s.vset(q) {
		need[v] = true
	}
	in := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if in[i] {
				continue
			}
			vs := s.vset(c)
			hit := false
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				out = append(out, c)
				for _, v := range vs {
					if !need[v] {
						need[v] = true
						changed = true
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (s *Solver) emitDefs(sb io.Writer, t *Term, defined map[int32]bool, declared map[uint64]bool) {
	switch t.op {
	case OConst:
		return
	case OVar:
		if !declared[t.val] {
			declared[t.val] = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		}
		return
	}
	if defined[t.id] {
		return
	}
	// iterative to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		default:
			if !defined[f.t.id] {
				defined[f.t.id] = true
				fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", f.t.ref(), sortName(f.t.w), f.t.body())
			}
			st = st[:len(st)-1]
			continue
		}
		f.i++
		if ch == nil {
			continue
		}
		if ch.op == OConst || ch.op == OVar {
			s.emitDefs(sb, ch, defined, declared)
		} else if !defined[ch.id] {
			st = append(st, fr{ch, 0})
		}
	}
}

// Check decides sat(pc-slice ∧ q). On Sat the model covers the slice's variables.
func (s *Solver) Check(pc []*Term, q *Term) (SatRes, Model) {
	if q.isC() && q.val == 0 {
		return Unsat, nil
	}
	sl := s.slice(pc, q)
	var kb strings.Builder
	kb.Grow(len(sl)*6 + 8)
	var nb [4]byte
	put := func(id int32) {
		nb[0], nb[1], nb[2], nb[3] = byte(id), byte(id>>8), byte(id>>16), byte(id>>24)
		kb.Write(nb[:])
	}
	put(q.id)
	for _, c := range sl {
		put(c.id)
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.hits++
		return e.r, e.m
	}
	t0 := time.Now()
	div := s.hasDiv(q)
	for _, c := range sl {
		div = div || s.hasDiv(c)
	}
	if div {
		s.limit(1500)
	}
	r, m := s.query(sl, q)
	s.queries++
	if div {
		s.limit(0)
	}
	if r == Unknown && div {
		s.fallback++
		r, m = s.intQuery(sl, q, 20)
		if r == Unknown {
			r, m = s.fresh(sl, q, "cvc5int", 20)
		}
	}
	if r == Unknown {
		s.fallback++
		r, m = s.fresh(sl, q, "z3", 20)
		if r == Unknown {
			r, m = s.fresh(sl, q, "cvc5", 20)
		}
		if r == Unknown {
			s.unknowns++
			if d := os.Getenv("GOSYM_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, os.Getpid(), s.queries), []byte(s.script(sl, q, true)), 0644)
			}
		}
	} else if s.xevery > 0 && s.queries%s.xevery == 0 {
		r2, _ := s.fresh(sl, q, "z3", 10)
		if r2 != Unknown {
			s.xchecks++
			if r2 != r {
				s.xdis++
				s.errs = append(s.errs, "solver disagreement")
				r = Unknown
			}
		}
	}
	if d := os.Getenv("GOSYM_SLOW"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(fmt.Sprintf("%s/s%d_%d_%d.smt2", d, int(time.Since(t0).Seconds()), os.Getpid(), q.id), []byte(s.script(sl, q, true)), 0644)
	}
	s.solveT += time.Since(t0)
	if len(s.cache) > 400000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) varsOf(sl []*Term, q *Term) []int32 {
	vs := map[int32]bool{}
	for _, c := range sl {
		for _, v := range s.vset(c) {
			vs[v] = true
		}
	}
	for _, v := range s.vset(q) {
		vs[v] = true
	}
	var r []int32
	for v := range vs {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func vref(v int32) string { return fmt.Sprintf("v%d_%d", uint32(v)>>8, v&0xff) }

func (s *Solver) query(sl []*Term, q *Term) (SatRes, Model) {
	if s.cmd == nil || s.sinceRst > 20000 || len(s.defined) > 300000 {
		s.start()
	}
	s.sinceRst++
	for _, c := range sl {
		s.emitDefs(s.w, c, s.defined, s.declared)
	}
	s.emitDefs(s.w, q, s.defined, s.declared)
	s.w.WriteString("(push)\n")
	for _, c := range sl {
		fmt.Fprintf(s.w, "(assert %s)\n", c.ref())
	}
	fmt.Fprintf(s.w, "(assert %s)\n(check-sat)\n", q.ref())
	if err := s.w.Flush(); err != nil {
		s.stop()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.stop()
		return Unknown, nil
	}
	var r SatRes
	var m Model
	switch line {
	case "sat":
		r = Sat
		vs := s.varsOf(sl, q)
		m = Model{}
		if len(vs) > 0 {
			s.w.WriteString("(get-value (")
			for _, v := range vs {
				s.w.WriteString(vref(v))
				s.w.WriteByte(' ')
			}
			s.w.WriteString("))\n")
			s.w.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseValues(txt, m) {
				s.errs = append(s.errs, "get-value: "+txt)
				s.stop()
				return Unknown, nil
			}
		}
	case "unsat":
		r = Unsat
	case "unknown":
		r = Unknown
	default:
		s.errs = append(s.errs, line)
		s.stop()
		return Unknown, nil
	}
	s.w.WriteString("(pop)\n")
	if r == Sat && !s.validate(sl, q, m) {
		s.errs = append(s.errs, "model does not satisfy query")
		return Unknown, nil
	}
	return r, m
}

// validate re-evaluates the query under the model with the term evaluator
// (this also differentially tests the term simplifier / SMT printer).
func (s *Solver) validate(sl []*Term, q *Term, m Model) bool {
	s.tb.gen++
	if s.tb.eval(q, m) == 0 {
		return false
	}
	for _, c := range sl {
		if s.tb.eval(c, m) == 0 {
			return false
		}
	}
	return true
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, m Model) bool {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); i++ {
		n := f[i]
		if n == "error" {
			return false
		}
		if n[0] != 'v' {
			return false
		}
		us := strings.IndexByte(n, '_')
		if us < 0 {
			return false
		}
		a, e1 := strconv.Atoi(n[1:us])
		w, e2 := strconv.Atoi(n[us+1:])
		if e1 != nil || e2 != nil {
			return false
		}
		val := f[i+1]
		i++
		var v uint64
		var err error
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		case val == "_":
			// (_ bv5 8)
			v, err = strconv.ParseUint(strings.TrimPrefix(f[i+1], "bv"), 10, 64)
			i += 2
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[uint64(a)<<8|uint64(w)] = v
	}
	return true
}

// script renders a stand-alone SMT-LIB2 script for a query.
func (s *Solver) script(sl []*Term, q *Term, model bool) string {
	var sb strings.Builder
	def, decl := map[int32]bool{}, map[uint64]bool{}
	for _, c := range sl {
		s.emitDefs(&sb, c, def, decl)
	}
	s.emitDefs(&sb, q, def, decl)
	for _, c := range sl {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", q.ref())
	if model {
		vs := s.varsOf(sl, q)
		if len(vs) > 0 {
			sb.WriteString("(get-value (")
			for _, v := range vs {
				sb.WriteString(vref(v) + " ")
			}
			sb.WriteString("))\n")
		}
	}
	return sb.String()
}

// fresh decides the query in a separate one-shot process of the named solver.
func (s *Solver) fresh(sl []*Term, q *Term, which string, secs int) (SatRes, Model) {
	sc := s.script(sl, q, true)
	var cmd *exec.Cmd
	if which == "cvc5" || which == "cvc5int" {
		if strings.Contains(sc, "fp.to_ieee_bv") {
			return Unknown, nil
		}
		cmd = exec.Command("cvc5", "--lang=smt2", "--produce-models", "--tlimit="+strconv.Itoa(secs*1000))
		if which == "cvc5int" {
			cmd.Args = append(cmd.Args, "--solve-bv-as-int=sum")
		}
		sc = "(set-logic ALL)\n" + sc
	} else {
		cmd = exec.Command(which, "-in", "-smt2", "-T:"+strconv.Itoa(secs))
	}
	cmd.Stdin = strings.NewReader(sc)
	out, _ := cmd.Output()
	txt := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		m := Model{}
		rest := strings.TrimSpace(txt[3:])
		if rest != "" && !parseValues(rest, m) {
			return Unknown, nil
		}
		if !s.validate(sl, q, m) {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

var mainSolver = func() string {
	if s := os.Getenv("GOSYM_Z3"); s != "" {
		return s
	}
	return "z3-new"
}()
