package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Decision struct {
	taken  bool
	forced bool
	val    uint64
}

type Item struct {
	prefix []Decision
	model  Model
}

type Engine struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	pkgs     map[string]*ssa.Package
	fset     *token.FileSet
	repoPath string
	repoDir  string
	mu       sync.Mutex
	notes    map[string]int
	fncache  sync.Map
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) fnByName(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	if f, ok := e.fncache.Load(k); ok {
		return f.(*ssa.Function)
	}
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package " + pkg + " not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + k})
	}
	e.fncache.Store(k, f)
	return f
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package " + pkg + " not loaded"})
	}
	t := p.Type(name)
	if t == nil {
		panic(unsupported{"no type " + pkg + "." + name})
	}
	return t.Type()
}

func (e *Engine) rtErrType() types.Type { return e.namedType("runtime", "plainError") }

// Cand is a candidate violation (or a sampled path) to replay natively.
type Cand struct {
	Harness string
	Kind    string // assert, panic, budget, depth, hugealloc, sample, inconclusive
	Label   string
	Detail  string
	Vals    []uint64
	Obs     []string
}

type Worker struct {
	eng     *Engine
	tb      *TB
	sol     *Solver
	lay     *layouts
	byteLay *Layout
	cfs     map[*ssa.Function]*CF
	globals map[*ssa.Global]*Obj
	inited  map[*ssa.Package]bool
	meths   map[mkey]*ssa.Function
	impls   map[ikey]bool
	strs    map[string]Val
	cover   map[*CF]int64

	epoch     int32
	initing   int
	nobj      int
	undoLog   []undo
	depth     int
	steps     int64
	stepLimit int64
	rstack    []Val
	rp        int

	mergedFrom *cblk
	cur        *Frame
	curCI      *cins

	// path
	pc     []*Term
	known  map[int32]bool
	model  Model
	prefix []Decision
	di     int
	dec    []Decision
	nd     []*Term
	nfresh int
	obs    []obsv
	pools  map[poolKey]*poolState
	side   map[string]any // per-path side tables of stubs
	race   *raceState
	poolND bool
	rtypes *typeutil.Map // reflect types
	run_   *Run
	incon  string
	reach  map[string]bool
	fixed  map[int32]uint64 // variables pinned to a constant
	smemo  map[int32]*Term
	dom    map[int32]*byteSet // values left for bytes by single-byte conditions
	wide   []*Term            // the other conditions
	tsets  map[int32]byteSet
	ndom   int64
}

type obsv struct {
	label string
	v     Val
	w     uint16
	str   bool
}

type poolKey struct {
	o *Obj
	i uint64
}

type poolState struct {
	priv  Val
	items []Val
}

// Run is one harness exploration.
type Run struct {
	eng     *Engine
	harness *ssa.Function
	name    string
	opt     Opts

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []*Item
	active  int
	stopped atomic.Bool

	paths, okPaths, assumed int64
	discharged              int64
	asserts                 map[string]int64
	incon                   map[string]int64
	inconN                  int64
	dropped                 int64
	cands                   []*Cand
	candSeen                map[string]int
	onCand                  func(*Cand)
	samples                 []*Cand
	reach                   map[string]int64
	cover                   map[string]int64
	coverInstr              map[string]int
	queries, hits, domN     int64
	fallback, unknowns      int64
	xchecks, xdis           int64
	solveT                  time.Duration
	steps                   int64
	solverErrs              []string
	forks                   map[string]int64
	maxPC                   int
	timedOut                bool
	wall                    time.Duration
}

type Opts struct {
	Workers   int
	StepLimit int64
	Wall      time.Duration
	MaxSample int
	MaxPaths  int64
	XEvery    int64
	Debug     bool
	Extra     map[string]bool
}

func newWorker(e *Engine) *Worker {
	w := &Worker{eng: e, tb: NewTB(), lay: &layouts{m: map[types.Type]*Layout{}}, cfs: map[*ssa.Function]*CF{}, globals: map[*ssa.Global]*Obj{},
		inited: map[*ssa.Package]bool{}, meths: map[mkey]*ssa.Function{}, impls: map[ikey]bool{}, strs: map[string]Val{}, tsets: map[int32]byteSet{}, cover: map[*CF]int64{}}
	w.byteLay = w.lay.of(types.Typ[types.Uint8])
	w.sol = NewSolver(w.tb)
	w.rstack = make([]Val, 1<<16)
	w.stepLimit = 1 << 40
	return w
}

func (w *Worker) resetTerms() {
	w.sol.stop()
	old := w.sol
	w.tb = NewTB()
	w.tsets = map[int32]byteSet{}
	w.sol = NewSolver(w.tb)
	w.sol.queries, w.sol.hits, w.sol.fallback, w.sol.unknowns, w.sol.solveT = old.queries, old.hits, old.fallback, old.unknowns, old.solveT
	w.sol.errs, w.sol.xchecks, w.sol.xdis, w.sol.xevery = old.errs, old.xchecks, old.xdis, old.xevery
}

func (w *Worker) add(c *Term) {
	if c.isC() {
		return
	}
	if c.op == OAnd {
		w.known[c.id] = true
		w.add(c.a)
		w.add(c.b)
		return
	}
	w.pc = append(w.pc, c)
	w.learn(c)
	if c.op == OEq && c.a.op == OVar && c.b.isC() {
		w.pin(int32(c.a.val), c.b.val)
	}
	if c.vars >= 0 && c.vars&0xff == 8 {
		set := w.tset(c)
		if d := w.dom[c.vars]; d != nil {
			set = set.and(*d)
		}
		w.dom[c.vars] = &set
		if v, ok := set.single(); ok {
			w.pin(c.vars, v)
		}
	} else {
		w.wide = append(w.wide, c)
	}
}

// byteSet is a set of byte values.
type byteSet [4]uint64

func (a byteSet) and(b byteSet) byteSet {
	return byteSet{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}

// tset is the set of values of its only (8 bit) variable that satisfy t.
func (w *Worker) tset(t *Term) byteSet {
	if s, ok := w.tsets[t.id]; ok {
		return s
	}
	var s byteSet
	m := Model{}
	for i := uint64(0); i < 256; i++ {
		m[uint64(t.vars)] = i
		if w.tb.Eval(t, m) != 0 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	w.tsets[t.id] = s
	return s
}

// feas decides whether the path condition together with q is satisfiable.
// Conditions on one byte are decided on its value set where that is
// conclusive; everything else goes to the SMT solver.
func (w *Worker) feas(q *Term) (SatRes, Model) {
	if w.run_.opt.Debug {
		n := w.sol.queries
		defer func() {
			if w.sol.queries != n {
				w.run_.noteFork("Q " + w.where() + fmt.Sprintf(" vars=%d", len(w.sol.vset(q))))
			}
		}()
	}
	if q.vars < 0 || q.vars&0xff != 8 {
		if v, ok := w.byRange(q); ok && !v {
			w.ndom++
			return Unsat, nil
		}
		return w.sol.Check(w.pc, q)
	}
	set := w.tset(q)
	if d := w.dom[q.vars]; d != nil {
		set = set.and(*d)
	}
	if set == (byteSet{}) {
		w.ndom++
		if w.sol.xevery > 0 && w.ndom%w.sol.xevery == 0 {
			w.sol.xchecks++
			if r, _ := w.sol.Check(w.pc, q); r == Sat {
				w.sol.xdis++
				w.sol.errs = append(w.sol.errs, "byte domain disagreement")
			}
		}
		return Unsat, nil
	}
	var rel []*Term
	for _, c := range w.wide {
		for _, v := range w.sol.vset(c) {
			if v == q.vars {
				rel = append(rel, c)
				break
			}
		}
	}
	k := uint64(q.vars)
	old, had := w.model[k]
	var found bool
	var val uint64
	for i := uint64(0); i < 256 && !found; i++ {
		if set[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		found = true
		val = i
		if len(rel) > 0 {
			w.model[k] = i
			for _, c := range rel {
				if w.tb.Eval(c, w.model) == 0 {
					found = false
					break
				}
			}
		}
	}
	if len(rel) > 0 {
		if had {
			w.model[k] = old
		} else {
			delete(w.model, k)
		}
	}
	if found {
		w.ndom++
		return Sat, Model{k: val}
	}
	return w.sol.Check(w.pc, q)
}

func (w *Worker) learn(c *Term) {
	if c.op == ONot {
		w.known[c.a.id] = false
		return
	}
	w.known[c.id] = true
	if c.op == OAnd {
		w.learn(c.a)
		w.learn(c.b)
	}
}

func (w *Worker) lookupKnown(c *Term) (bool, bool) {
	if c.op == ONot {
		v, ok := w.known[c.a.id]
		return !v, ok
	}
	v, ok := w.known[c.id]
	return v, ok
}

func (w *Worker) branch(c *Term) bool {
	c = w.subst(c)
	if c.isC() {
		return c.val != 0
	}
	if v, ok := w.lookupKnown(c); ok {
		return v
	}
	if w.initing > 0 {
		w.unsup("symbolic branch during init")
	}
	if w.di < len(w.prefix) {
		d := w.prefix[w.di]
		w.di++
		w.dec = append(w.dec, d)
		cc := c
		if !d.taken {
			cc = w.tb.Not(c)
		}
		if d.forced {
			w.learn(cc)
		} else {
			w.add(cc)
		}
		return d.taken
	}
	s := w.tb.Eval(c, w.model) != 0
	mine, other := c, w.tb.Not(c)
	if !s {
		mine, other = other, mine
	}
	r, m := w.feas(other)
	d := Decision{taken: s}
	switch r {
	case Sat:
		w.fork(Decision{taken: !s}, m)
		w.add(mine)
	case Unsat:
		d.forced = true
		w.learn(mine)
	default:
		w.noteIncon("solver unknown on branch")
		w.add(mine)
	}
	w.dec = append(w.dec, d)
	return s
}

func (w *Worker) fork(d Decision, m Model) {
	p := make([]Decision, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	nm := make(Model, len(w.model)+len(m))
	for k, v := range w.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	if w.run_.opt.Debug {
		w.run_.noteFork(w.where())
	}
	w.run_.push(&Item{p, nm})
}

func (r *Run) push(it *Item) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (w *Worker) noteIncon(s string) {
	if w.incon == "" {
		w.incon = s
	}
}

// concretize forks over the values of a symbolic scalar.
func (w *Worker) concretize(v Val, wd uint16) uint64 {
	if v.R == nil {
		return v.N
	}
	t := w.subst(w.tm(v, wd))
	if t.isC() {
		return t.val
	}
	if w.initing > 0 {
		w.unsup("symbolic value during init")
	}
	for n := 0; ; n++ {
		if n > 700 {
			w.end("unsupported", "concretization fan-out over 700 values")
		}
		if w.di < len(w.prefix) {
			d := w.prefix[w.di]
			w.di++
			w.dec = append(w.dec, d)
			c := w.tb.Eq(t, w.tb.Const(wd, d.val))
			if d.taken {
				if d.forced {
					w.learn(c)
				} else {
					w.add(c)
				}
				return d.val
			}
			w.add(w.tb.Not(c))
			continue
		}
		val := w.tb.Eval(t, w.model)
		c := w.tb.Eq(t, w.tb.Const(wd, val))
		if c.isC() {
			return val
		}
		r, m := w.feas(w.tb.Not(c))
		d := Decision{taken: true, val: val}
		switch r {
		case Sat:
			w.fork(Decision{taken: false, val: val}, m)
			w.add(c)
		case Unsat:
			d.forced = true
			w.learn(c)
		default:
			w.noteIncon("solver unknown on concretization")
			w.add(c)
		}
		w.dec = append(w.dec, d)
		return val
	}
}

func (w *Worker) assume(c *Term) {
	c = w.subst(c)
	if c.isC() {
		if c.val == 0 {
			w.end("assume", "")
		}
		return
	}
	if v, ok := w.lookupKnown(c); ok {
		if !v {
			w.end("assume", "")
		}
		return
	}
	if w.tb.Eval(c, w.model) != 0 {
		w.add(c)
		return
	}
	r, m := w.feas(c)
	switch r {
	case Sat:
		nm := make(Model, len(w.model)+len(m))
		for k, v := range w.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		w.model = nm
		w.add(c)
	case Unsat:
		w.end("assume", "")
	default:
		w.noteIncon("solver unknown on assume")
		w.end("unsupported", "solver unknown on assume")
	}
}

// fresh makes an internal variable whose value under the current model is val.
func (w *Worker) fresh(wd uint16, val uint64) *Term {
	n := 1<<20 + w.nfresh
	w.nfresh++
	t := w.tb.Var(n, wd)
	if _, ok := w.model[t.val]; !ok {
		w.model[t.val] = val & mask(wd)
	}
	return t
}

func (w *Worker) nondet(wd uint16) *Term {
	t := w.tb.Var(len(w.nd), wd)
	w.nd = append(w.nd, t)
	return t
}

func (w *Worker) vals(m Model) []uint64 {
	out := make([]uint64, len(w.nd))
	for i, t := range w.nd {
		if v, ok := m[t.val]; ok {
			out[i] = v
		} else {
			out[i] = w.model[t.val]
		}
	}
	return out
}

func (w *Worker) assert(c *Term, label, detail string) {
	if c.isC() && c.val != 0 {
		w.run_.noteAssert(label, true)
		return
	}
	if w.di < len(w.prefix) {
		// already decided by the path this one was forked from
		if c.isC() {
			w.end("violated", label)
		}
		w.assumeAfterAssert(c)
		return
	}
	if v, ok := w.lookupKnown(c); ok && v {
		w.run_.noteAssert(label, true)
		return
	}
	if c.isC() {
		w.run_.addCand(&Cand{Harness: w.run_.name, Kind: "assert", Label: label, Detail: detail, Vals: w.vals(nil)})
		w.end("violated", label)
	}
	r, m := w.sol.Check(w.pc, w.tb.Not(c))
	switch r {
	case Unsat:
		w.run_.noteAssert(label, false)
		w.learn(c)
	case Sat:
		w.run_.addCand(&Cand{Harness: w.run_.name, Kind: "assert", Label: label, Detail: detail, Vals: w.vals(m)})
		w.assumeAfterAssert(c)
	default:
		w.noteIncon("solver unknown on assertion " + label)
		w.assumeAfterAssert(c)
	}
}

func (w *Worker) assumeAfterAssert(c *Term) { w.assume(c) }

func (r *Run) noteAssert(label string, trivial bool) {
	r.mu.Lock()
	r.asserts[label]++
	if !trivial {
		r.discharged++
	}
	r.mu.Unlock()
}

func (r *Run) addCand(c *Cand) {
	r.mu.Lock()
	k := c.Kind + "|" + c.Label
	r.candSeen[k]++
	n := r.candSeen[k]
	if n <= 12 {
		r.cands = append(r.cands, c)
	}
	r.mu.Unlock()
	if n <= 12 && r.onCand != nil {
		r.onCand(c)
	}
}

func (w *Worker) resetPath(it *Item) {
	for i := len(w.undoLog) - 1; i >= 0; i-- {
		u := w.undoLog[i]
		u.o.put(u.i, u.v)
	}
	w.undoLog = w.undoLog[:0]
	w.epoch++
	if w.epoch == 0 {
		w.epoch = 1
	}
	w.pc = w.pc[:0]
	w.known = map[int32]bool{}
	w.dom = map[int32]*byteSet{}
	w.fixed = map[int32]uint64{}
	w.smemo = nil
	w.wide = w.wide[:0]
	w.model = it.model
	w.prefix = it.prefix
	w.di = 0
	w.dec = w.dec[:0]
	w.nd = w.nd[:0]
	w.nfresh = 0
	w.obs = w.obs[:0]
	w.pools = map[poolKey]*poolState{}
	w.side = map[string]any{}
	w.poolND = false
	w.race = nil
	w.depth = 0
	w.steps = 0
	w.rp = 0
	w.nobj = 0
	w.incon = ""
	w.reach = map[string]bool{}
	w.initing = 0
}

// runPath executes the harness once along a decision prefix.
func (w *Worker) runPath(r *Run, it *Item) {
	w.resetPath(it)
	w.run_ = r
	end := pathEnd{kind: "ok"}
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch p := x.(type) {
			case pathEnd:
				end = p
			case unsupported:
				end = pathEnd{"unsupported", p.msg}
				if r.opt.Debug {
					end.msg += " at " + w.where()
				}
			case *goPanic:
				end = pathEnd{"panic", p.msg + " in " + p.pos}
			case runtime.Error:
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				end = pathEnd{"unsupported", "engine: " + p.Error() + "\n" + string(buf)}
			default:
				if s, ok := x.(string); ok {
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					end = pathEnd{"unsupported", "engine: " + s + "\n" + string(buf)}
					return
				}
				panic(x)
			}
		}()
		w.callFn(r.harness, nil, nil, nil)
	}()
	w.initing = 0
	vals := w.vals(nil)
	switch end.kind {
	case "panic":
		r.addCand(&Cand{Harness: r.name, Kind: "panic", Label: end.msg, Vals: vals})
	case "budget", "depth", "hugealloc":
		r.addCand(&Cand{Harness: r.name, Kind: end.kind, Label: end.msg, Vals: vals})
		w.noteIncon(end.kind + ": " + end.msg)
	case "unsupported":
		w.noteIncon("unsupported: " + end.msg)
	}
	r.mu.Lock()
	r.paths++
	r.steps += w.steps
	if len(w.pc) > r.maxPC {
		r.maxPC = len(w.pc)
	}
	switch end.kind {
	case "ok":
		r.okPaths++
	case "assume":
		r.assumed++
	}
	for k := range w.reach {
		r.reach[k]++
	}
	if w.incon != "" {
		r.inconN++
		r.incon[w.incon]++
	}
	take := false
	if end.kind == "ok" || w.incon != "" {
		take = len(r.samples) < r.opt.MaxSample
		if !take && w.incon == "" {
			// reservoir by path number (deterministic enough; coverage only)
			i := int((r.paths * 2654435761) % int64(r.opt.MaxSample*8+1))
			if i < len(r.samples) {
				take = true
				r.samples[i] = r.samples[len(r.samples)-1]
				r.samples = r.samples[:len(r.samples)-1]
			}
		}
	}
	if take {
		k := "sample"
		if w.incon != "" {
			k = "inconclusive"
		}
		c := &Cand{Harness: r.name, Kind: k, Label: w.incon, Vals: vals}
		if end.kind == "ok" {
			for _, o := range w.obs {
				c.Obs = append(c.Obs, w.showObs(o))
			}
		}
		r.samples = append(r.samples, c)
	}
	r.mu.Unlock()
	if len(w.tb.terms) > 3000000 {
		w.resetTerms()
		w.known = map[int32]bool{}
	}
}

func (w *Worker) showObs(o obsv) string {
	if o.str {
		var sb strings.Builder
		for _, b := range w.bytesVals(o.v) {
			fmt.Fprintf(&sb, "%02x", w.tb.Eval(w.tm(b, 8), w.model))
		}
		return o.label + "=" + sb.String()
	}
	return fmt.Sprintf("%s=%d", o.label, w.tb.Eval(w.tm(o.v, o.w), w.model))
}

func (r *Run) explore() {
	if r.cond == nil {
		r.cond = sync.NewCond(&r.mu)
		r.asserts, r.incon, r.candSeen = map[string]int64{}, map[string]int64{}, map[string]int{}
		r.reach, r.cover, r.coverInstr = map[string]int64{}, map[string]int64{}, map[string]int{}
		r.stack = []*Item{{nil, Model{}}}
	} else {
		// take up again where the time ran out
		r.stopped.Store(false)
		r.timedOut = false
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(r.opt.Wall):
			r.mu.Lock()
			if r.active > 0 || len(r.stack) > 0 {
				r.timedOut = true
			}
			r.stopped.Store(true)
			r.mu.Unlock()
			r.cond.Broadcast()
		}
	}()
	for i := 0; i < r.opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *Worker
			for {
				r.mu.Lock()
				for len(r.stack) == 0 && r.active > 0 && !r.stopped.Load() {
					r.cond.Wait()
				}
				if len(r.stack) == 0 || r.stopped.Load() {
					r.mu.Unlock()
					r.cond.Broadcast()
					break
				}
				it := r.stack[len(r.stack)-1]
				r.stack = r.stack[:len(r.stack)-1]
				r.active++
				r.mu.Unlock()
				if w == nil {
					w = newWorker(r.eng)
					w.stepLimit = r.opt.StepLimit
					w.sol.xevery = r.opt.XEvery
				}
				w.runPath(r, it)
				r.mu.Lock()
				r.active--
				if r.opt.MaxPaths > 0 && r.paths > r.opt.MaxPaths {
					r.stopped.Store(true)
					r.timedOut = true
				}
				idle := r.active == 0 && len(r.stack) == 0
				r.mu.Unlock()
				if idle {
					r.cond.Broadcast()
				}
			}
			if w != nil {
				r.mu.Lock()
				r.queries += w.sol.queries
				r.hits += w.sol.hits
				r.domN += w.ndom
				r.fallback += w.sol.fallback
				r.unknowns += w.sol.unknowns
				r.xchecks += w.sol.xchecks
				r.xdis += w.sol.xdis
				r.solveT += w.sol.solveT
				r.solverErrs = append(r.solverErrs, w.sol.errs...)
				for cf, n := range w.cover {
					r.cover[cf.name] += n
					r.coverInstr[cf.name] = cf.ninstr
					covNote(cf)
				}
				r.mu.Unlock()
				w.sol.stop()
			}
		}()
	}
	wg.Wait()
	close(done)
	r.dropped = int64(len(r.stack))
	if r.dropped == 0 {
		r.timedOut = false // the paths under way were finished
	}
	r.wall += time.Since(t0)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (w *Worker) where() string {
	if w.cur == nil {
		return "?"
	}
	s := w.cur.cf.name
	if w.curCI != nil {
		p := w.eng.fset.Position(w.curCI.pos)
		if !p.IsValid() && w.curCI.blk != nil {
			for i := len(w.curCI.blk.ins) - 1; i >= 0; i-- {
				if q := w.eng.fset.Position(w.curCI.blk.ins[i].pos); q.IsValid() {
					p = q
					break
				}
			}
		}
		s += fmt.Sprintf(":%d", p.Line)
	}
	return s
}

func (r *Run) noteFork(s string) {
	r.mu.Lock()
	r.forks[s]++
	r.mu.Unlock()
}
