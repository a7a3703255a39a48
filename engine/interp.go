package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opk uint8

const (
	okNone opk = iota
	okReg
	okConst
	okGlobal
	okFree
)

type opnd struct {
	k opk
	i int
	v Val
	g *ssa.Global
}

type cins struct {
	ins  ssa.Instruction
	dst  int
	ops  []opnd
	lay  *Layout
	typ  types.Type
	n    int
	blk  *cblk // for If merging
	pos  token.Pos
	aux  any
	pure bool
}

type cblk struct {
	b     *ssa.BasicBlock
	phis  []*cins
	ins   []*cins
	succs []*cblk
	preds []*cblk
	idx   int
	pure  bool // all non-terminator instrs are pure
	seen  bool
	term  int // 0 other,1 if,2 jump
}

type CF struct {
	fn     *ssa.Function
	nreg   int
	params []int
	blks   []*cblk
	rec    *cblk
	defers bool
	intr   func(w *Worker, fr *Frame, args []Val) Val
	pre    func(w *Worker, args []Val) (Val, bool)
	name   string
	repo   bool
	ninstr int
}

type Frame struct {
	cf       *CF
	regs     []Val
	binds    []Val
	defers   []deferred
	panicing *goPanic
	caller   *Frame
	recovrd  bool
	result   Val
}

type deferred struct {
	fv   Val
	cc   *ssa.CallCommon
	args []Val
}

type goPanic struct {
	v   Val
	msg string
	rt  bool
	pos string
}

type pathEnd struct {
	kind string // ok, assume, unsupported, budget, violation, hugealloc, depth
	msg  string
}

func (w *Worker) end(kind, msg string) { panic(pathEnd{kind, msg}) }

func (w *Worker) unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (w *Worker) compile(fn *ssa.Function) *CF {
	if cf, ok := w.cfs[fn]; ok {
		return cf
	}
	cf := &CF{fn: fn, name: fn.String()}
	w.cfs[fn] = cf
	org := fn
	if fn.Origin() != nil {
		org = fn.Origin()
	}
	if h, ok := intrinsics[cf.name]; ok {
		cf.intr = h
		return cf
	}
	if org != fn {
		if h, ok := intrinsics[org.String()]; ok {
			cf.intr = h
			return cf
		}
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Name(), "v") {
		if h, ok := harnessFns[fn.Name()]; ok && fn.Pkg.Pkg.Path() == w.eng.repoPath {
			cf.intr = h
			return cf
		}
	}
	if fn.Blocks == nil {
		return cf
	}
	cf.pre = shortcuts[cf.name]
	if p := fn.Package(); p != nil && p.Pkg.Path() == w.eng.repoPath {
		pos := w.eng.fset.Position(fn.Pos())
		cf.repo = !strings.Contains(pos.Filename, "zz_verif")
	} else if fn.Parent() != nil {
		pos := w.eng.fset.Position(fn.Pos())
		cf.repo = strings.HasPrefix(pos.Filename, w.eng.repoDir) && !strings.Contains(pos.Filename, "zz_verif")
	}
	reg := map[ssa.Value]int{}
	for _, p := range fn.Params {
		reg[p] = cf.nreg
		cf.params = append(cf.params, cf.nreg)
		cf.nreg++
	}
	fv := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		fv[f] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = cf.nreg
				cf.nreg++
			}
		}
	}
	bm := map[*ssa.BasicBlock]*cblk{}
	for _, b := range fn.Blocks {
		cb := &cblk{b: b, idx: b.Index}
		bm[b] = cb
		cf.blks = append(cf.blks, cb)
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{k: okConst, v: w.constVal(x)}
		case *ssa.Global:
			return opnd{k: okGlobal, g: x}
		case *ssa.Function:
			return opnd{k: okConst, v: Val{R: &FuncV{fn: x}}}
		case *ssa.Builtin:
			return opnd{k: okConst, v: Val{R: &FuncV{bi: x}}}
		case *ssa.FreeVar:
			return opnd{k: okFree, i: fv[x]}
		}
		i, ok := reg[v]
		if !ok {
			w.unsup("operand %T", v)
		}
		return opnd{k: okReg, i: i}
	}
	for _, b := range fn.Blocks {
		cb := bm[b]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, bm[s])
		}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, bm[p])
		}
		cb.pure = true
		for _, in := range b.Instrs {
			ci := &cins{ins: in, dst: -1, pos: in.Pos()}
			cf.ninstr++
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			var rands []*ssa.Value
			for _, r := range in.Operands(rands) {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, opnd{})
				} else {
					ci.ops = append(ci.ops, op(*r))
				}
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				cb.phis = append(cb.phis, ci)
				ci.lay = w.lay.of(x.Type())
				continue
			case *ssa.Alloc:
				ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.UnOp:
				if x.Op == token.MUL {
					ci.typ = x.Type()
					ci.lay = w.lay.of(ci.typ)
				}
				ci.pure = x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR
			case *ssa.BinOp:
				ci.pure = true
				switch x.Op {
				case token.QUO, token.REM:
					ci.pure = false
				case token.SHL, token.SHR:
					ci.pure = false
				}
				if bt, ok := x.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					ci.pure = false
				}
			case *ssa.Convert:
				a, ok1 := x.X.Type().Underlying().(*types.Basic)
				b, ok2 := x.Type().Underlying().(*types.Basic)
				ci.pure = ok1 && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0
			case *ssa.ChangeType:
				ci.pure = true
			case *ssa.Store:
				ci.typ = x.Val.Type()
				ci.lay = w.lay.of(ci.typ)
			case *ssa.Defer:
				cf.defers = true
			case *ssa.FieldAddr:
				st := x.X.Type().Underlying().(*types.Pointer).Elem()
				ci.n = w.lay.of(st).fields[x.Field]
			case *ssa.Field:
				l := w.lay.of(x.X.Type())
				ci.n = l.fields[x.Field]
				ci.lay = w.lay.of(x.Type())
			case *ssa.IndexAddr:
				switch t := x.X.Type().Underlying().(type) {
				case *types.Slice:
					ci.lay = w.lay.of(t.Elem())
					ci.n = -1
				case *types.Pointer:
					at := t.Elem().Underlying().(*types.Array)
					ci.lay = w.lay.of(at.Elem())
					ci.n = int(at.Len())
				}
			case *ssa.If:
				cb.term = 1
				ci.blk = cb
			case *ssa.Jump:
				cb.term = 2
				ci.blk = cb
			case *ssa.Return:
			}
			if cb.term == 0 {
				if !ci.pure {
					cb.pure = false
				}
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		cf.rec = bm[fn.Recover]
	}
	return cf
}

func (w *Worker) constVal(c *ssa.Const) Val {
	t := c.Type().Underlying()
	if c.Value == nil {
		if tp, ok := t.(*types.Tuple); ok {
			_ = tp
			return Val{R: []Val{}}
		}
		return w.zero(c.Type())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{N: b2u(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return w.strConst(constant.StringVal(c.Value))
			}
			return w.strConst(string(rune(c.Int64())))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if b.Kind() == types.Float32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				return Val{N: uint64(math.Float32bits(f32))}
			}
			return Val{N: math.Float64bits(f)}
		case b.Info()&types.IsInteger != 0:
			wd := basicWidth(b)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Val{N: uint64(i) & mask(wd)}
			}
			u, _ := constant.Uint64Val(v)
			return Val{N: u & mask(wd)}
		case b.Info()&types.IsComplex != 0:
			return w.zero(c.Type())
		}
	}
	w.unsup("const %v", c)
	return Val{}
}

func (w *Worker) g(fr *Frame, o *opnd) Val {
	switch o.k {
	case okReg:
		return fr.regs[o.i]
	case okConst:
		return o.v
	case okFree:
		return fr.binds[o.i]
	case okGlobal:
		return Val{R: w.globalObj(o.g)}
	}
	return Val{}
}

func (w *Worker) globalObj(g *ssa.Global) *Obj {
	if o, ok := w.globals[g]; ok {
		return o
	}
	if g.Pkg != nil {
		w.ensureInit(g.Pkg)
	}
	if o, ok := w.globals[g]; ok {
		return o
	}
	sv := w.epoch
	w.epoch = 0
	o := w.newObjT(g.Type().Underlying().(*types.Pointer).Elem())
	w.epoch = sv
	w.globals[g] = o
	return o
}

// ensureInit runs a package's initialisation (concretely, outside path state).
func (w *Worker) ensureInit(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, have := w.globals[g]; !have {
				sv := w.epoch
				w.epoch = 0
				func() {
					defer func() { recover() }()
					w.globals[g] = w.newObjT(g.Type().Underlying().(*types.Pointer).Elem())
				}()
				w.epoch = sv
			}
		}
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	sv, svi, svs, svd := w.epoch, w.initing, w.steps, w.depth
	w.epoch = 0
	w.initing++
	defer func() {
		w.epoch, w.initing, w.steps, w.depth = sv, svi, svs, svd
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, pathEnd, *goPanic:
				w.eng.note(fmt.Sprintf("init of %s: %v", p.Pkg.Path(), r))
			default:
				panic(r)
			}
		}
	}()
	w.callFn(fn, nil, nil, nil)
}

func (w *Worker) callFn(fn *ssa.Function, args []Val, binds []Val, caller *Frame) Val {
	cf := w.compile(fn)
	if cf.intr != nil {
		return cf.intr(w, caller, args)
	}
	if cf.pre != nil {
		if v, ok := cf.pre(w, args); ok {
			return v
		}
	}
	if cf.blks == nil {
		w.unsup("no body: %s", cf.name)
	}
	if w.initing > 0 {
		// imported packages are initialised lazily, on first use of a global
		if fn.Name() == "init" && fn.Synthetic != "" && caller != nil && caller.cf.fn.Name() == "init" && caller.cf.fn.Synthetic != "" {
			return Val{}
		}
	}
	if cf.repo {
		w.cover[cf]++
	}
	w.depth++
	if w.depth > 4000 {
		w.end("depth", "call depth exceeded in "+cf.name)
	}
	fr := &Frame{cf: cf, binds: binds, caller: caller}
	svCur, svCI := w.cur, w.curCI
	fr.regs = w.allocRegs(cf.nreg)
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	var r Val
	if cf.defers {
		r = w.runDefer(fr)
	} else {
		r = w.run(fr, cf.blks[0])
	}
	w.freeRegs(fr.regs)
	w.depth--
	w.cur, w.curCI = svCur, svCI
	return r
}

func (w *Worker) allocRegs(n int) []Val {
	if w.rp+n > len(w.rstack) {
		if w.rp == 0 || n > 1<<16 || len(w.rstack) > 1<<22 {
			return make([]Val, n)
		}
		// allocate separate chunk; frames keep their own slices
		return make([]Val, n)
	}
	s := w.rstack[w.rp : w.rp+n : w.rp+n]
	w.rp += n
	for i := range s {
		s[i] = Val{}
	}
	return s
}

func (w *Worker) freeRegs(s []Val) {
	n := len(s)
	if n > 0 && w.rp >= n && &w.rstack[w.rp-n] == &s[0] {
		w.rp -= n
	}
}

// runDefer runs a function with deferred calls, handling panics.
func (w *Worker) runDefer(fr *Frame) (res Val) {
	depth, rp := w.depth, w.rp
	p := func() (gp *goPanic) {
		defer func() {
			if r := recover(); r != nil {
				if g, ok := r.(*goPanic); ok {
					gp = g
					return
				}
				panic(r)
			}
		}()
		res = w.run(fr, fr.cf.blks[0])
		return nil
	}()
	if p == nil {
		return res
	}
	w.depth, w.rp = depth, rp
	fr.panicing = p
	w.runDefers(fr)
	if fr.panicing != nil {
		panic(fr.panicing)
	}
	if fr.cf.rec != nil {
		return w.run(fr, fr.cf.rec)
	}
	return w.zeroResults(fr.cf.fn)
}

func (w *Worker) zeroResults(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Val{}
	case 1:
		return w.zero(rs.At(0).Type())
	}
	out := make([]Val, rs.Len())
	for i := range out {
		out[i] = w.zero(rs.At(i).Type())
	}
	return Val{R: out}
}

func (w *Worker) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if g, ok := r.(*goPanic); ok {
						fr.panicing = g
						return
					}
					panic(r)
				}
			}()
			w.callVal(d.fv, d.args, fr, d.cc)
		}()
	}
}

func (w *Worker) rtPanic(fr *Frame, ci *cins, f string, a ...any) {
	g := &goPanic{msg: "runtime error: " + fmt.Sprintf(f, a...), rt: true}
	if fr != nil {
		g.pos = fr.cf.name
		if ci != nil {
			p := w.eng.fset.Position(ci.pos)
			g.pos += fmt.Sprintf(" (%s:%d)", shortFile(p.Filename), p.Line)
		}
	}
	panic(g)
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// callVal calls a function value.
func (w *Worker) callVal(f Val, args []Val, fr *Frame, cc *ssa.CallCommon) Val {
	fv, ok := f.R.(*FuncV)
	if !ok || fv == nil {
		w.rtPanic(fr, nil, "invalid memory address or nil pointer dereference (nil func)")
	}
	if fv.nat != nil {
		return fv.nat(w, args)
	}
	if fv.bi != nil {
		return w.builtin(fr, nil, fv.bi, args, cc)
	}
	return w.callFn(fv.fn, args, fv.binds, fr)
}

func (w *Worker) methodOf(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	w.eng.mu.Lock()
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	w.eng.mu.Unlock()
	w.meths[k] = f
	return f
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) invoke(fr *Frame, ci *cins, recv Val, m *types.Func, args []Val) Val {
	iv, _ := recv.R.(*IfaceV)
	if iv == nil {
		w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference (method call on nil interface)")
	}
	if h, ok := opaqueMethods[typeName(iv.t)+"."+m.Name()]; ok {
		return h(w, fr, append([]Val{iv.v}, args...))
	}
	f := w.methodOf(iv.t, m)
	if f == nil {
		w.unsup("method %s of %v", m.Name(), iv.t)
	}
	return w.callFn(f, append([]Val{iv.v}, args...), nil, fr)
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }

// run interprets blocks until return.
func (w *Worker) run(fr *Frame, blk *cblk) Val {
	var prev *cblk
	var tmp []Val
	w.cur = fr
	for {
		// phis
		if len(blk.phis) > 0 && prev != nil {
			e := -1
			for i, p := range blk.preds {
				if p == prev {
					e = i
					break
				}
			}
			if len(blk.phis) == 1 {
				ph := blk.phis[0]
				fr.regs[ph.dst] = w.g(fr, &ph.ops[e])
			} else {
				tmp = tmp[:0]
				for _, ph := range blk.phis {
					tmp = append(tmp, w.g(fr, &ph.ops[e]))
				}
				for i, ph := range blk.phis {
					fr.regs[ph.dst] = tmp[i]
				}
			}
		}
	again:
		blk.seen = true
		w.steps += int64(len(blk.ins)) + 1
		if w.steps > w.stepLimit {
			w.end("budget", "step budget in "+fr.cf.name)
		}
		var next *cblk
		for _, ci := range blk.ins {
			w.curCI = ci
			switch x := ci.ins.(type) {
			case *ssa.If:
				c := w.g(fr, &ci.ops[0])
				if c.R == nil {
					if c.N != 0 {
						next = blk.succs[0]
					} else {
						next = blk.succs[1]
					}
				} else {
					var jb *cblk
					next, jb = w.symIf(fr, blk, c.R.(*Term))
					if jb != nil { // phis of jb already set
						prev = nil
						blk = jb
						goto again
					}
					if w.mergedFrom != nil {
						blk = w.mergedFrom
					}
				}
			case *ssa.Jump:
				next = blk.succs[0]
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					return Val{}
				case 1:
					return w.g(fr, &ci.ops[0])
				}
				out := make([]Val, len(ci.ops))
				for i := range ci.ops {
					out[i] = w.g(fr, &ci.ops[i])
				}
				return Val{R: out}
			case *ssa.RunDefers:
				w.runDefers(fr)
				if fr.panicing != nil {
					panic(fr.panicing)
				}
			case *ssa.Panic:
				v := w.g(fr, &ci.ops[0])
				g := &goPanic{v: v, msg: "panic: " + w.showIface(v), pos: fr.cf.name}
				p := w.eng.fset.Position(x.Pos())
				g.pos += fmt.Sprintf(" (%s:%d)", shortFile(p.Filename), p.Line)
				panic(g)
			default:
				if w.initing > 0 && fr.cf.fn.Synthetic != "" && fr.cf.fn.Name() == "init" {
					w.execInit(fr, ci)
				} else {
					w.exec(fr, ci)
				}
			}
		}
		prev = blk
		blk = next
		if blk == nil {
			w.unsup("block without terminator")
		}
	}
}

// poison is the value of an initialiser outside the executor's reach; using it
// ends the path as unsupported.
type poison struct{ why string }

// execInit executes one instruction of a package initialiser; one that cannot be
// executed leaves a poisoned value and the rest goes on.
func (w *Worker) execInit(fr *Frame, ci *cins) {
	depth, cur := w.depth, w.cur
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			w.depth, w.cur = depth, cur
			w.eng.note(fmt.Sprintf("initialiser of %s not executed: %s", fr.cf.fn.Pkg.Pkg.Path(), u.msg))
			if ci.dst >= 0 && ci.dst < len(fr.regs) {
				fr.regs[ci.dst] = Val{R: &poison{u.msg}}
			}
		}
	}()
	w.exec(fr, ci)
}

func (w *Worker) showIface(v Val) string {
	iv, _ := v.R.(*IfaceV)
	if iv == nil {
		return "nil"
	}
	if b, ok := iv.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := w.concStr(iv.v); ok {
			return s
		}
	}
	return typeName(iv.t)
}

// symIf decides a branch on a symbolic condition. It first folds chains of
// side-effect-free tests sharing a target and two-armed pure diamonds into a
// single condition, then asks the path engine to choose a side.
func (w *Worker) symIf(fr *Frame, blk *cblk, c *Term) (next *cblk, joined *cblk) {
	w.mergedFrom = nil
	T, F := blk.succs[0], blk.succs[1]
	from := blk // block the phi edges are taken from
	nophi := func(b *cblk) bool { return len(b.phis) == 0 }
	fromT, fromF := from, from
	for k := 0; k < 64; k++ {
		// short-circuit chains
		if F != blk && F.term == 1 && F.pure && len(F.preds) == 1 && nophi(F) && (F.succs[0] == T || F.succs[1] == T) && w.phiSame(fr, T, fromT, F) {
			c2 := w.evalPure(fr, F)
			if c2 == nil {
				break
			}
			if F.succs[0] == T {
				c = w.tb.Or(c, c2)
				fromF = F
				F = F.succs[1]
			} else {
				c = w.tb.Or(c, w.tb.Not(c2))
				fromF = F
				F = F.succs[0]
			}
			continue
		}
		if T != blk && T.term == 1 && T.pure && len(T.preds) == 1 && nophi(T) && (T.succs[0] == F || T.succs[1] == F) && w.phiSame(fr, F, fromF, T) {
			c2 := w.evalPure(fr, T)
			if c2 == nil {
				break
			}
			if T.succs[1] == F {
				c = w.tb.And(c, c2)
				fromT = T
				T = T.succs[0]
			} else {
				c = w.tb.And(c, w.tb.Not(c2))
				fromT = T
				T = T.succs[1]
			}
			continue
		}
		break
	}
	// diamonds
	if !c.isC() {
		tArm := T.term == 2 && T.pure && len(T.preds) == 1 && nophi(T)
		fArm := F.term == 2 && F.pure && len(F.preds) == 1 && nophi(F)
		var J, jt, jf *cblk
		switch {
		case tArm && T.succs[0] == F && !(fArm && false):
			J, jt, jf = F, T, fromF
		case fArm && F.succs[0] == T:
			J, jt, jf = T, fromT, F
		case tArm && fArm && T.succs[0] == F.succs[0]:
			J, jt, jf = T.succs[0], T, F
		case T == F:
			J, jt, jf = T, fromT, fromF
		}
		if J != nil && len(J.phis) > 0 && len(J.phis) <= 4 && w.scalarPhis(J) {
			et, ef := predIdx(J, jt), predIdx(J, jf)
			if et >= 0 && ef >= 0 && et != ef {
				if jt == T {
					w.evalPure(fr, T)
				}
				if jf == F {
					w.evalPure(fr, F)
				}
				vals := make([]Val, len(J.phis))
				ok := true
				for i, ph := range J.phis {
					a, b := w.g(fr, &ph.ops[et]), w.g(fr, &ph.ops[ef])
					lf := ph.lay.leaves[0]
					if !scalarVal(a) || !scalarVal(b) {
						ok = false
						break
					}
					vals[i] = w.fromT(w.tb.Ite(c, w.tm(a, lf.w), w.tm(b, lf.w)))
				}
				if ok {
					for i, ph := range J.phis {
						fr.regs[ph.dst] = vals[i]
					}
					w.steps += 4
					if w.steps > w.stepLimit {
						w.end("budget", "step budget in "+fr.cf.name)
					}
					return nil, J
				}
			}
		}
	}
	if w.branch(c) {
		w.mergedFrom = fromT
		return T, nil
	}
	w.mergedFrom = fromF
	return F, nil
}

func scalarVal(v Val) bool {
	if v.R == nil {
		return true
	}
	_, ok := v.R.(*Term)
	return ok
}

func (w *Worker) scalarPhis(b *cblk) bool {
	for _, p := range b.phis {
		if !p.lay.scalar || p.lay.leaves[0].k != LInt && p.lay.leaves[0].k != LBool || p.lay.leaves[0].w > 32 {
			return false
		}
	}
	return true
}

func predIdx(b, p *cblk) int {
	r := -1
	for i, q := range b.preds {
		if q == p {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// phiSame reports whether block b's phis take the same value from both preds.
func (w *Worker) phiSame(fr *Frame, b, p, q *cblk) bool {
	if len(b.phis) == 0 {
		return true
	}
	i, j := predIdx(b, p), predIdx(b, q)
	if i < 0 || j < 0 {
		return false
	}
	for _, ph := range b.phis {
		x, y := &ph.ops[i], &ph.ops[j]
		if x.k != y.k || x.i != y.i || x.g != y.g {
			return false
		}
		if x.k == okConst && (x.v.N != y.v.N || x.v.M != y.v.M || x.v.R != nil || y.v.R != nil) {
			return false
		}
	}
	return true
}

// evalPure executes a pure block's instructions and returns its If condition.
func (w *Worker) evalPure(fr *Frame, b *cblk) *Term {
	for _, ci := range b.ins {
		switch ci.ins.(type) {
		case *ssa.If:
			v := w.g(fr, &ci.ops[0])
			return w.tm(v, 0)
		case *ssa.Jump:
			return nil
		}
		w.exec(fr, ci)
	}
	return nil
}
