package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (w *Worker) exec(fr *Frame, ci *cins) {
	switch x := ci.ins.(type) {
	case *ssa.BinOp:
		fr.regs[ci.dst] = w.binop(fr, ci, x.Op, x.X.Type(), x.Y.Type(), w.g(fr, &ci.ops[0]), w.g(fr, &ci.ops[1]))
	case *ssa.UnOp:
		a := w.g(fr, &ci.ops[0])
		switch x.Op {
		case token.MUL:
			o := a.obj()
			if o == nil {
				w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference")
			}
			fr.regs[ci.dst] = w.load(o, int(a.N), ci.lay, ci.typ)
		case token.NOT:
			fr.regs[ci.dst] = w.fromT(w.tb.Not(w.tm(a, 0)))
		case token.SUB:
			b := x.X.Type().Underlying().(*types.Basic)
			wd := basicWidth(b)
			if b.Info()&types.IsFloat != 0 {
				fr.regs[ci.dst] = w.fromT(w.tb.Bin(OBXor, w.tm(a, wd), w.tb.Const(wd, 1<<(wd-1))))
			} else if a.R == nil {
				fr.regs[ci.dst] = Val{N: -a.N & mask(wd)}
			} else {
				fr.regs[ci.dst] = w.fromT(w.tb.Neg(w.tm(a, wd)))
			}
		case token.XOR:
			wd := basicWidth(x.X.Type().Underlying().(*types.Basic))
			if a.R == nil {
				fr.regs[ci.dst] = Val{N: ^a.N & mask(wd)}
			} else {
				fr.regs[ci.dst] = w.fromT(w.tb.BNot(w.tm(a, wd)))
			}
		default:
			w.unsup("unop %v", x.Op)
		}
	case *ssa.FieldAddr:
		a := w.g(fr, &ci.ops[0])
		if a.R == nil {
			w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference")
		}
		a.N += uint64(ci.n)
		fr.regs[ci.dst] = a
	case *ssa.IndexAddr:
		a := w.g(fr, &ci.ops[0])
		iv := w.g(fr, &ci.ops[1])
		n := ci.n
		if n < 0 {
			n = slen(a)
		} else if a.R == nil {
			w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference")
		}
		i := w.index(fr, ci, iv, x.Index.Type(), n, a, ci.lay, x)
		if i < 0 { // deferred symbolic load pointer
			return
		}
		fr.regs[ci.dst] = Val{R: a.R, N: a.N + uint64(i*ci.lay.n)}
	case *ssa.Store:
		p := w.g(fr, &ci.ops[0])
		v := w.g(fr, &ci.ops[1])
		o := p.obj()
		if o == nil {
			w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference")
		}
		w.store(o, int(p.N), ci.lay, v)
	case *ssa.Alloc:
		fr.regs[ci.dst] = Val{R: w.newObjT(ci.typ)}
	case *ssa.Call:
		r := w.call(fr, ci, &x.Call)
		fr.regs[ci.dst] = r
	case *ssa.Extract:
		t := w.g(fr, &ci.ops[0])
		ts, ok := t.R.([]Val)
		if !ok {
			w.unsup("extract from %T", t.R)
		}
		fr.regs[ci.dst] = ts[x.Index]
	case *ssa.Convert:
		fr.regs[ci.dst] = w.convert(fr, ci, w.g(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = w.convert(fr, ci, w.g(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.regs[ci.dst] = w.g(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = w.g(fr, &ci.ops[0])
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Val{R: &IfaceV{t: x.X.Type(), v: w.g(fr, &ci.ops[0])}}
	case *ssa.Slice:
		fr.regs[ci.dst] = w.slice(fr, ci, x)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln := w.intArg(fr, w.g(fr, &ci.ops[0]), x.Len.Type())
		cp := w.intArg(fr, w.g(fr, &ci.ops[1]), x.Cap.Type())
		if ln < 0 {
			w.rtPanic(fr, ci, "makeslice: len out of range")
		}
		if cp < ln {
			w.rtPanic(fr, ci, "makeslice: cap out of range")
		}
		lay := w.lay.of(et)
		if cp > 1<<24 {
			w.end("hugealloc", fmt.Sprintf("make([]%v, %d)", et, cp))
		}
		fr.regs[ci.dst] = mkSlice(w.newObj(lay, int(cp), nil), 0, int(ln), int(cp))
	case *ssa.Field:
		a := w.g(fr, &ci.ops[0]).R.([]Val)
		if ci.lay.scalar {
			fr.regs[ci.dst] = a[ci.n]
		} else {
			fr.regs[ci.dst] = Val{R: a[ci.n : ci.n+ci.lay.n : ci.n+ci.lay.n]}
		}
	case *ssa.Index:
		a := w.g(fr, &ci.ops[0])
		iv := w.g(fr, &ci.ops[1])
		switch t := x.X.Type().Underlying().(type) {
		case *types.Basic: // string
			fr.regs[ci.dst] = w.strIndex(fr, ci, a, iv, x.Index.Type())
		case *types.Array:
			vs := a.R.([]Val)
			lay := w.lay.of(t.Elem())
			i := w.index(fr, ci, iv, x.Index.Type(), int(t.Len()), Val{}, lay, nil)
			if lay.scalar {
				fr.regs[ci.dst] = vs[i]
			} else {
				fr.regs[ci.dst] = Val{R: vs[i*lay.n : (i+1)*lay.n]}
			}
		default:
			w.unsup("index %v", t)
		}
	case *ssa.Lookup:
		a := w.g(fr, &ci.ops[0])
		k := w.g(fr, &ci.ops[1])
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			fr.regs[ci.dst] = w.strIndex(fr, ci, a, k, x.Index.Type())
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		var v Val
		found := false
		if m, ok := a.R.(*MapV); ok && m != nil {
			if i := w.mapFind(m, k); i >= 0 {
				v, found = m.vals[i], true
			}
		}
		if !found {
			v = w.zero(mt.Elem())
		}
		if x.CommaOk {
			fr.regs[ci.dst] = Val{R: []Val{v, {N: b2u(found)}}}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		a := w.g(fr, &ci.ops[0])
		m, _ := a.R.(*MapV)
		if m == nil {
			panic(&goPanic{msg: "assignment to entry in nil map", rt: true, pos: fr.cf.name})
		}
		w.mapSet(m, w.g(fr, &ci.ops[1]), w.g(fr, &ci.ops[2]))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		fr.regs[ci.dst] = Val{R: &MapV{kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}, epoch: w.epoch}}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		b := make([]Val, len(x.Bindings))
		for i := range b {
			b[i] = w.g(fr, &ci.ops[i+1])
		}
		fr.regs[ci.dst] = Val{R: &FuncV{fn: fn, binds: b}}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = w.typeAssert(fr, ci, x)
	case *ssa.Range:
		a := w.g(fr, &ci.ops[0])
		fr.regs[ci.dst] = Val{R: &rangeIter{v: a}}
	case *ssa.Next:
		it := w.g(fr, &ci.ops[0]).R.(*rangeIter)
		fr.regs[ci.dst] = w.next(fr, it, x)
	case *ssa.Defer:
		d := deferred{cc: &x.Call}
		if x.Call.IsInvoke() {
			recv := w.g(fr, &ci.ops[0])
			m := x.Call.Method
			var args []Val
			for i := range x.Call.Args {
				args = append(args, w.g(fr, &ci.ops[i+1]))
			}
			d.fv = Val{R: &FuncV{nat: func(w *Worker, _ []Val) Val { return w.invoke(fr, ci, recv, m, args) }}}
		} else {
			d.fv = w.g(fr, &ci.ops[0])
			for i := range x.Call.Args {
				d.args = append(d.args, w.g(fr, &ci.ops[i+1]))
			}
		}
		fr.defers = append(fr.defers, d)
	case *ssa.SliceToArrayPointer:
		a := w.g(fr, &ci.ops[0])
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int(at.Len()) > slen(a) {
			w.rtPanic(fr, ci, "cannot convert slice with length %d to array or pointer to array with length %d", slen(a), at.Len())
		}
		fr.regs[ci.dst] = Val{R: a.R, N: a.N}
	case *ssa.DebugRef:
	default:
		w.unsup("instruction %T in %s", ci.ins, fr.cf.name)
	}
}

type rangeIter struct {
	v   Val
	pos int
}

func (w *Worker) next(fr *Frame, it *rangeIter, x *ssa.Next) Val {
	if x.IsString {
		n := slen(it.v)
		if it.pos >= n {
			return Val{R: []Val{{N: 0}, {}, {}}}
		}
		i := it.pos
		b := w.byteAt(it.v, i)
		if b.R == nil && b.N < 0x80 {
			it.pos++
			return Val{R: []Val{{N: 1}, {N: uint64(i)}, {N: b.N}}}
		}
		if b.R != nil && w.branch(w.tb.Cmp(OUlt, w.tm(b, 8), w.tb.Const(8, 0x80))) {
			it.pos++
			return Val{R: []Val{{N: 1}, {N: uint64(i)}, w.fromT(w.tb.Zext(w.tm(b, 8), 32))}}
		}
		fn := w.eng.fnByName("unicode/utf8", "DecodeRuneInString")
		r := w.callFn(fn, []Val{mkStr(it.v.obj(), int(it.v.N)+i, n-i)}, nil, fr).R.([]Val)
		sz := w.concretize(r[1], 64)
		it.pos += int(sz)
		return Val{R: []Val{{N: 1}, {N: uint64(i)}, r[0]}}
	}
	m, _ := it.v.R.(*MapV)
	if m != nil {
		for it.pos < len(m.keys) {
			i := it.pos
			it.pos++
			if !m.dead[i] {
				return Val{R: []Val{{N: 1}, m.keys[i], m.vals[i]}}
			}
		}
	}
	return Val{R: []Val{{N: 0}, {}, {}}}
}

func (w *Worker) mapKeyStr(m *MapV, k Val) (string, bool) {
	switch u := m.kt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := w.concStr(k)
			return "s" + s, ok
		}
		if k.R == nil {
			return fmt.Sprintf("n%d", k.N), true
		}
	case *types.Interface:
		iv, _ := k.R.(*IfaceV)
		if iv == nil {
			return "nil", true
		}
		if b, ok := iv.t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 {
				s, ok := w.concStr(iv.v)
				return "s" + typeName(iv.t) + s, ok
			}
			if iv.v.R == nil {
				return fmt.Sprintf("n%s:%d", typeName(iv.t), iv.v.N), true
			}
		}
	case *types.Pointer:
		if o := k.obj(); o != nil {
			return fmt.Sprintf("p%p+%d", o, k.N), true
		}
		return "nil", true
	}
	return "", false
}

func (w *Worker) mapFind(m *MapV, k Val) int {
	if w.race != nil && m != nil {
		w.raceAcc(m, 0, false)
	}
	if m.epoch == 0 && w.epoch != 0 && false {
		w.unsup("init-time map access")
	}
	s, ok := w.mapKeyStr(m, k)
	if ok {
		if i, have := m.idx[s]; have && !m.dead[i] {
			return i
		}
	}
	if ok {
		// could still equal a symbolic key
		for i := range m.keys {
			if m.dead[i] {
				continue
			}
			if _, c := w.mapKeyStr(m, m.keys[i]); c {
				continue
			}
			if w.isTrue(w.eqVal(m.kt, m.keys[i], k)) {
				return i
			}
		}
		return -1
	}
	for i := range m.keys {
		if !m.dead[i] && w.isTrue(w.eqVal(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapV, k, v Val) {
	if w.race != nil {
		w.raceAcc(m, 0, true)
	}
	if m.epoch == 0 && w.epoch != 0 {
		w.unsup("write to init-time map")
	}
	if i := w.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if s, ok := w.mapKeyStr(m, k); ok {
		m.idx[s] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
}

func (w *Worker) mapDelete(m *MapV, k Val) {
	if w.race != nil {
		w.raceAcc(m, 0, true)
	}
	if m == nil {
		return
	}
	if m.epoch == 0 && w.epoch != 0 {
		w.unsup("write to init-time map")
	}
	if i := w.mapFind(m, k); i >= 0 {
		m.dead[i] = true
		m.n--
		if s, ok := w.mapKeyStr(m, k); ok {
			delete(m.idx, s)
		}
	}
}

// isTrue forks on a boolean value.
func (w *Worker) isTrue(t *Term) bool {
	if t.isC() {
		return t.val != 0
	}
	return w.branch(t)
}

func (w *Worker) intArg(fr *Frame, v Val, t types.Type) int64 {
	b := t.Underlying().(*types.Basic)
	wd := basicWidth(b)
	n := w.concretize(v, wd)
	if isSigned(t) || b.Kind() == types.UntypedInt {
		return sx(n, wd)
	}
	if n > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(n)
}

// index checks bounds (forking a panicking path) and returns a concrete index.
// When used for a load through a constant-content table it may instead build an
// ite term: handled in IndexAddr by allocating a one-cell object.
func (w *Worker) index(fr *Frame, ci *cins, iv Val, it types.Type, n int, base Val, lay *Layout, ia *ssa.IndexAddr) int {
	b := it.Underlying().(*types.Basic)
	wd := basicWidth(b)
	signed := b.Info()&types.IsUnsigned == 0
	if iv.R == nil {
		var i int64
		if signed {
			i = sx(iv.N, wd)
		} else {
			i = int64(iv.N)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fr, ci, "index out of range [%d] with length %d", i, n)
		}
		return int(i)
	}
	t := w.tm(iv, wd)
	ext := t
	if wd < 64 {
		if signed {
			ext = w.tb.Sext(t, 64)
		} else {
			ext = w.tb.Zext(t, 64)
		}
	}
	inb := w.tb.Cmp(OUlt, ext, w.tb.Const(64, uint64(n)))
	if !w.isTrue(inb) {
		w.rtPanic(fr, ci, "index out of range [symbolic] with length %d", n)
	}
	if ia != nil && w.onlyLoaded(ia) && lay.scalar && lay.leaves[0].k <= LBool && n <= 4096 {
		// table load as ite chain over runs of equal values
		o := base.obj()
		lf := lay.leaves[0]
		if !(o.byt && lay.allByte) && o.leaf(int(base.N)) != lf {
			goto conc
		}
		r := w.tableTerm(func(k int) *Term { return w.tm(o.get(int(base.N)+k), lf.w) }, n, ext, lf.w)
		no := w.newObj(lay, 1, nil)
		no.put(0, w.fromT(r))
		fr.regs[ci.dst] = Val{R: no}
		return -1
	}
conc:
	return int(w.concretize(w.fromT(ext), 64))
}

// strIndex loads one byte of a string; a symbolic index becomes a table term.
func (w *Worker) strIndex(fr *Frame, ci *cins, a, iv Val, it types.Type) Val {
	n := slen(a)
	if iv.R == nil || n > 256 {
		return w.byteAt(a, w.index(fr, ci, iv, it, n, a, w.byteLay, nil))
	}
	b := it.Underlying().(*types.Basic)
	wd := basicWidth(b)
	ext := w.tm(iv, wd)
	if wd < 64 {
		if b.Info()&types.IsUnsigned == 0 {
			ext = w.tb.Sext(ext, 64)
		} else {
			ext = w.tb.Zext(ext, 64)
		}
	}
	if !w.isTrue(w.tb.Cmp(OUlt, ext, w.tb.Const(64, uint64(n)))) {
		w.rtPanic(fr, ci, "index out of range [symbolic] with length %d", n)
	}
	return w.fromT(w.tableTerm(func(k int) *Term { return w.tm(w.byteAt(a, k), 8) }, n, ext, 8))
}

// tableTerm is element idx (below n) of a table: an ite chain over runs of
// equal or consecutive values.
func (w *Worker) tableTerm(get func(int) *Term, n int, idx *Term, wd uint16) *Term {
	tb := w.tb
	type run struct {
		lo, hi int
		v      *Term
		inc    bool
	}
	var runs []run
	for k := 0; k < n; k++ {
		v := get(k)
		if len(runs) > 0 {
			l := &runs[len(runs)-1]
			if !l.inc && v == l.v {
				l.hi = k
				continue
			}
			if v.op == OConst && l.v.op == OConst && wd >= 8 && v.val == (l.v.val+uint64(k-l.lo))&mask(wd) && (l.inc || l.lo == l.hi) {
				l.hi, l.inc = k, true
				continue
			}
		}
		runs = append(runs, run{lo: k, hi: k, v: v})
	}
	var r *Term
	for i := len(runs) - 1; i >= 0; i-- {
		v := runs[i].v
		if runs[i].inc && runs[i].hi > runs[i].lo {
			x := idx
			if wd < 64 {
				x = tb.Extract(idx, wd-1, 0)
			}
			v = tb.Bin(OBAdd, x, tb.Const(wd, (v.val-uint64(runs[i].lo))&mask(wd)))
		}
		if r == nil {
			r = v
			continue
		}
		r = tb.Ite(tb.Cmp(OUle, idx, tb.Const(64, uint64(runs[i].hi))), v, r)
	}
	return r
}

func (w *Worker) onlyLoaded(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

func (w *Worker) call(fr *Frame, ci *cins, cc *ssa.CallCommon) Val {
	if cc.IsInvoke() {
		recv := w.g(fr, &ci.ops[0])
		args := make([]Val, len(cc.Args))
		for i := range args {
			args[i] = w.g(fr, &ci.ops[i+1])
		}
		return w.invoke(fr, ci, recv, cc.Method, args)
	}
	args := make([]Val, len(cc.Args))
	for i := range args {
		args[i] = w.g(fr, &ci.ops[i+1])
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		return w.callFn(f, args, nil, fr)
	case *ssa.Builtin:
		return w.builtin(fr, ci, f, args, cc)
	}
	f := w.g(fr, &ci.ops[0])
	if f.R == nil {
		w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference (nil func call)")
	}
	return w.callVal(f, args, fr, cc)
}

func (w *Worker) slice(fr *Frame, ci *cins, x *ssa.Slice) Val {
	a := w.g(fr, &ci.ops[0])
	opt := func(v ssa.Value, o *opnd, def int) int {
		if v == nil {
			return def
		}
		n := w.boundIdx(fr, w.g(fr, o), v.Type())
		if n > math.MaxInt32 || n < math.MinInt32 {
			if n < 0 {
				return -1
			}
			return math.MaxInt32
		}
		return int(n)
	}
	// operand order: X, Low, High, Max
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		n := slen(a)
		lo := 0
		hi := n
		hi = w.symBound(fr, ci, x.High, &ci.ops[2], n, n)
		lo = w.symBound(fr, ci, x.Low, &ci.ops[1], 0, hi)
		if hi < 0 || hi > n {
			w.rtPanic(fr, ci, "slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fr, ci, "slice bounds out of range [%d:%d]", lo, hi)
		}
		if lo == hi {
			return Val{}
		}
		return mkStr(a.obj(), int(a.N)+lo, hi-lo)
	case *types.Slice:
		lay := w.lay.of(t.Elem())
		n, c := slen(a), scap(a)
		max := opt(x.Max, &ci.ops[3], c)
		hi := w.symBound(fr, ci, x.High, &ci.ops[2], n, max)
		lo := w.symBound(fr, ci, x.Low, &ci.ops[1], 0, hi)
		if max < 0 || max > c {
			w.rtPanic(fr, ci, "slice bounds out of range [::%d] with capacity %d", max, c)
		}
		if hi < 0 || hi > max {
			w.rtPanic(fr, ci, "slice bounds out of range [:%d] with capacity %d", hi, max)
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fr, ci, "slice bounds out of range [%d:%d]", lo, hi)
		}
		if a.R == nil {
			return a
		}
		return mkSlice(a.obj(), int(a.N)+lo*lay.n, hi-lo, max-lo)
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		lay := w.lay.of(at.Elem())
		c := int(at.Len())
		if a.R == nil {
			w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference")
		}
		max := opt(x.Max, &ci.ops[3], c)
		hi := w.symBound(fr, ci, x.High, &ci.ops[2], c, max)
		lo := w.symBound(fr, ci, x.Low, &ci.ops[1], 0, hi)
		if max < 0 || max > c || hi < 0 || hi > max || lo < 0 || lo > hi {
			w.rtPanic(fr, ci, "slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, c)
		}
		return mkSlice(a.obj(), int(a.N)+lo*lay.n, hi-lo, max-lo)
	}
	w.unsup("slice of %v", x.X.Type())
	return Val{}
}

func (w *Worker) boundIdx(fr *Frame, v Val, t types.Type) int64 { return w.intArg(fr, v, t) }

// symBound evaluates a slice bound; for a symbolic bound first fork the
// out-of-range side as a panic so that concretization only enumerates valid values.
func (w *Worker) symBound(fr *Frame, ci *cins, sv ssa.Value, o *opnd, def int, limit int) int {
	if sv == nil {
		return def
	}
	v := w.g(fr, o)
	b := sv.Type().Underlying().(*types.Basic)
	wd := basicWidth(b)
	if v.R != nil {
		t := w.tm(v, wd)
		if wd < 64 {
			if isSigned(sv.Type()) {
				t = w.tb.Sext(t, 64)
			} else {
				t = w.tb.Zext(t, 64)
			}
		}
		if !w.isTrue(w.tb.Cmp(OUle, t, w.tb.Const(64, uint64(limit)))) {
			w.rtPanic(fr, ci, "slice bounds out of range [symbolic] with limit %d", limit)
		}
	}
	n := w.intArg(fr, v, sv.Type())
	if n < 0 {
		return -1
	}
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	return int(n)
}

func (w *Worker) typeAssert(fr *Frame, ci *cins, x *ssa.TypeAssert) Val {
	v := w.g(fr, &ci.ops[0])
	iv, _ := v.R.(*IfaceV)
	ok := false
	var res Val
	if iv != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = w.implements(iv.t, it)
			res = v
		} else {
			ok = types.Identical(iv.t, x.AssertedType)
			res = iv.v
		}
	}
	if !ok {
		if !x.CommaOk {
			w.rtPanic(fr, ci, "interface conversion: interface is %v, not %v", ifT(iv), x.AssertedType)
		}
		res = w.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Val{R: []Val{res, {N: b2u(ok)}}}
	}
	return res
}

func ifT(iv *IfaceV) any {
	if iv == nil {
		return "nil"
	}
	return iv.t
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if r, ok := w.impls[k]; ok {
		return r
	}
	w.eng.mu.Lock()
	r := types.Implements(t, it)
	w.eng.mu.Unlock()
	w.impls[k] = r
	return r
}

type ikey struct {
	t  types.Type
	it *types.Interface
}

// eqStr gives the equality term of two strings / byte sequences.
func (w *Worker) eqStr(a, b Val) *Term {
	n := slen(a)
	if n != slen(b) {
		return w.tb.False
	}
	if n == 0 || a.R == b.R && a.N == b.N {
		return w.tb.True
	}
	oa, ob := a.obj(), b.obj()
	if oa.byt && ob.byt && oa.t == nil && ob.t == nil {
		return w.tb.Bool(string(oa.b[a.N:a.N+uint64(n)]) == string(ob.b[b.N:b.N+uint64(n)]))
	}
	// concrete mismatch first
	r := w.tb.True
	for k := 0; k < n; k++ {
		x, y := oa.get(int(a.N)+k), ob.get(int(b.N)+k)
		if x.R == nil && y.R == nil {
			if x.N != y.N {
				return w.tb.False
			}
			continue
		}
		e := w.tb.Eq(w.tm(x, 8), w.tm(y, 8))
		if e == w.tb.False {
			return e
		}
		r = w.tb.And(r, e)
	}
	return r
}

// ltStr gives the term a < b (lexicographic, bytes).
func (w *Worker) ltStr(a, b Val) *Term {
	na, nb := slen(a), slen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := w.tb.Bool(na < nb)
	for k := n - 1; k >= 0; k-- {
		x, y := w.tm(w.byteAt(a, k), 8), w.tm(w.byteAt(b, k), 8)
		r = w.tb.Or(w.tb.Cmp(OUlt, x, y), w.tb.And(w.tb.Eq(x, y), r))
	}
	return r
}

func (w *Worker) eqVal(t types.Type, a, b Val) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.eqStr(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return w.tb.FCmp(OFEq, w.tm(a, basicWidth(u)), w.tm(b, basicWidth(u)))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return w.tb.Bool(a.R == b.R && a.N == b.N)
		}
		if a.R == nil && b.R == nil {
			return w.tb.Bool(a.N == b.N)
		}
		if !scalarVal(a) || !scalarVal(b) { // uintptr holding a pointer
			return w.tb.Bool(a.R == b.R && a.N == b.N)
		}
		wd := basicWidth(u)
		return w.tb.Eq(w.tm(a, wd), w.tm(b, wd))
	case *types.Pointer, *types.Chan:
		return w.tb.Bool(a.R == b.R && a.N == b.N)
	case *types.Map:
		return w.tb.Bool(a.R == b.R)
	case *types.Slice:
		return w.tb.Bool(a.R == nil && b.R == nil)
	case *types.Signature:
		return w.tb.Bool(a.R == nil && b.R == nil)
	case *types.Interface:
		x, _ := a.R.(*IfaceV)
		y, _ := b.R.(*IfaceV)
		if x == nil || y == nil {
			return w.tb.Bool(x == y)
		}
		if !types.Identical(x.t, y.t) {
			return w.tb.False
		}
		if !types.Comparable(x.t) {
			panic(&goPanic{msg: "runtime error: comparing uncomparable type " + typeName(x.t), rt: true})
		}
		return w.eqVal(x.t, x.v, y.v)
	case *types.Struct:
		va, vb := a.R.([]Val), b.R.([]Val)
		lay := w.lay.of(t)
		r := w.tb.True
		for i := 0; i < u.NumFields(); i++ {
			fl := w.lay.of(u.Field(i).Type())
			var x, y Val
			if fl.scalar {
				x, y = va[lay.fields[i]], vb[lay.fields[i]]
			} else {
				o := lay.fields[i]
				x, y = Val{R: va[o : o+fl.n]}, Val{R: vb[o : o+fl.n]}
			}
			r = w.tb.And(r, w.eqVal(u.Field(i).Type(), x, y))
		}
		return r
	case *types.Array:
		va, vb := a.R.([]Val), b.R.([]Val)
		el := w.lay.of(u.Elem())
		r := w.tb.True
		for i := 0; i < int(u.Len()); i++ {
			var x, y Val
			if el.scalar {
				x, y = va[i], vb[i]
			} else {
				x, y = Val{R: va[i*el.n : (i+1)*el.n]}, Val{R: vb[i*el.n : (i+1)*el.n]}
			}
			r = w.tb.And(r, w.eqVal(u.Elem(), x, y))
		}
		return r
	}
	w.unsup("== on %v", t)
	return nil
}

func (w *Worker) binop(fr *Frame, ci *cins, op token.Token, t, ty types.Type, a, b Val) Val {
	switch op {
	case token.EQL, token.NEQ:
		// interface vs concrete mixing is resolved by go/ssa (MakeInterface)
		r := w.eqVal(t, a, b)
		if op == token.NEQ {
			r = w.tb.Not(r)
		}
		return w.fromT(r)
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		w.unsup("binop %v on %v", op, t)
	}
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return w.concat(a, b)
		case token.LSS:
			return w.fromT(w.ltStr(a, b))
		case token.GTR:
			return w.fromT(w.ltStr(b, a))
		case token.LEQ:
			return w.fromT(w.tb.Not(w.ltStr(b, a)))
		case token.GEQ:
			return w.fromT(w.tb.Not(w.ltStr(a, b)))
		}
	}
	if bt.Info()&types.IsBoolean != 0 {
		x, y := w.tm(a, 0), w.tm(b, 0)
		switch op {
		case token.AND, token.LAND:
			return w.fromT(w.tb.And(x, y))
		case token.OR, token.LOR:
			return w.fromT(w.tb.Or(x, y))
		}
	}
	wd := basicWidth(bt)
	if bt.Info()&types.IsFloat != 0 {
		x, y := w.tm(a, wd), w.tm(b, wd)
		switch op {
		case token.ADD:
			return w.fromT(w.tb.FBin(OFAdd, x, y))
		case token.SUB:
			return w.fromT(w.tb.FBin(OFSub, x, y))
		case token.MUL:
			return w.fromT(w.tb.FBin(OFMul, x, y))
		case token.QUO:
			return w.fromT(w.tb.FBin(OFDiv, x, y))
		case token.LSS:
			return w.fromT(w.tb.FCmp(OFLt, x, y))
		case token.LEQ:
			return w.fromT(w.tb.FCmp(OFLe, x, y))
		case token.GTR:
			return w.fromT(w.tb.FCmp(OFLt, y, x))
		case token.GEQ:
			return w.fromT(w.tb.FCmp(OFLe, y, x))
		}
	}
	if wd == 0 {
		w.unsup("binop %v on %v", op, t)
	}
	signed := bt.Info()&types.IsUnsigned == 0
	if op == token.SHL || op == token.SHR {
		sb := ty.Underlying().(*types.Basic)
		sw := basicWidth(sb)
		ssigned := sb.Info()&types.IsUnsigned == 0
		if b.R == nil {
			n := b.N
			if ssigned && sx(n, sw) < 0 {
				w.rtPanic(fr, ci, "negative shift amount")
			}
			if n > uint64(wd) {
				n = uint64(wd)
			}
			b = Val{N: n}
		} else {
			bt := w.tm(b, sw)
			if ssigned && !w.isTrue(w.tb.Not(w.tb.Cmp(OSlt, bt, w.tb.Const(sw, 0)))) {
				w.rtPanic(fr, ci, "negative shift amount")
			}
			switch {
			case sw < wd:
				bt = w.tb.Zext(bt, wd)
			case sw > wd:
				big := w.tb.Not(w.tb.Cmp(OUlt, bt, w.tb.Const(sw, uint64(wd))))
				bt = w.tb.Ite(big, w.tb.Const(wd, uint64(wd)), w.tb.Extract(bt, wd-1, 0))
			}
			b = w.fromT(bt)
		}
		o := OBShl
		if op == token.SHR {
			o = OBLshr
			if signed {
				o = OBAshr
			}
		}
		if a.R == nil && b.R == nil {
			return Val{N: cbin(o, wd, a.N, b.N)}
		}
		return w.fromT(w.tb.Bin(o, w.tm(a, wd), w.tm(b, wd)))
	}
	if !scalarVal(a) || !scalarVal(b) {
		// uintptr arithmetic on pointers: only x^0, x+0
		if bt.Kind() == types.Uintptr && b.R == nil && b.N == 0 {
			return a
		}
		w.unsup("pointer arithmetic")
	}
	var o Op
	switch op {
	case token.ADD:
		o = OBAdd
	case token.SUB:
		o = OBSub
	case token.MUL:
		o = OBMul
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		if a.R == nil && b.R == nil {
			return Val{N: a.N &^ b.N & mask(wd)}
		}
		return w.fromT(w.tb.Bin(OBAnd, w.tm(a, wd), w.tb.BNot(w.tm(b, wd))))
	case token.QUO, token.REM:
		if b.R == nil {
			if b.N == 0 {
				w.rtPanic(fr, ci, "integer divide by zero")
			}
		} else if w.isTrue(w.tb.Eq(w.tm(b, wd), w.tb.Const(wd, 0))) {
			w.rtPanic(fr, ci, "integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			o = OBSdiv
		case op == token.QUO:
			o = OBUdiv
		case signed:
			o = OBSrem
		default:
			o = OBUrem
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		strict := op == token.LSS || op == token.GTR
		if a.R == nil && b.R == nil {
			var r bool
			switch {
			case signed && strict:
				r = sx(a.N, wd) < sx(b.N, wd)
			case signed:
				r = sx(a.N, wd) <= sx(b.N, wd)
			case strict:
				r = a.N < b.N
			default:
				r = a.N <= b.N
			}
			return Val{N: b2u(r)}
		}
		o = OUle
		switch {
		case signed && strict:
			o = OSlt
		case signed:
			o = OSle
		case strict:
			o = OUlt
		}
		return w.fromT(w.tb.Cmp(o, w.tm(a, wd), w.tm(b, wd)))
	default:
		w.unsup("binop %v", op)
	}
	if a.R == nil && b.R == nil {
		return Val{N: cbin(o, wd, a.N, b.N)}
	}
	return w.fromT(w.tb.Bin(o, w.tm(a, wd), w.tm(b, wd)))
}

func (w *Worker) concat(a, b Val) Val {
	na, nb := slen(a), slen(b)
	if na == 0 {
		return b
	}
	if nb == 0 {
		return a
	}
	o := w.newObj(w.byteLay, na+nb, nil)
	w.copyCells(o, 0, a.obj(), int(a.N), na)
	w.copyCells(o, na, b.obj(), int(b.N), nb)
	return mkStr(o, 0, na+nb)
}

func (w *Worker) convert(fr *Frame, ci *cins, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	// pointers
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	if fok && fb.Kind() == types.UnsafePointer {
		return v
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if !scalarVal(v) {
				return v
			}
			fw, tw := basicWidth(fb), basicWidth(tb)
			if v.R == nil {
				if tw > fw && fi&types.IsUnsigned == 0 {
					return Val{N: uint64(sx(v.N, fw)) & mask(tw)}
				}
				return Val{N: v.N & mask(tw)}
			}
			t := w.tm(v, fw)
			switch {
			case tw < fw:
				t = w.tb.Extract(t, tw-1, 0)
			case tw > fw && fi&types.IsUnsigned == 0:
				t = w.tb.Sext(t, tw)
			case tw > fw:
				t = w.tb.Zext(t, tw)
			}
			return w.fromT(t)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			o := OSItoF
			if fi&types.IsUnsigned != 0 {
				o = OUItoF
			}
			return w.fromT(w.tb.Cvt(o, w.tm(v, basicWidth(fb)), basicWidth(tb)))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return w.f2i(v, basicWidth(fb), tb)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return w.fromT(w.tb.Cvt(OFCvt, w.tm(v, basicWidth(fb)), basicWidth(tb)))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			wd := basicWidth(fb)
			if v.R == nil {
				r := rune(sx(v.N, wd))
				if int64(r) != sx(v.N, wd) {
					r = 0xfffd
				}
				return w.newStr(string(r))
			}
			t := w.tm(v, wd)
			if wd < 32 {
				if isSigned(from) {
					t = w.tb.Sext(t, 32)
				} else {
					t = w.tb.Zext(t, 32)
				}
			} else if wd > 32 {
				if !w.isTrue(w.tb.Cmp(OUlt, t, w.tb.Const(wd, 0x110000))) {
					return w.newStr("\uFFFD")
				}
				t = w.tb.Extract(t, 31, 0)
			}
			fn := w.eng.fnByName("unicode/utf8", "AppendRune")
			s := w.callFn(fn, []Val{{}, w.fromT(t)}, nil, fr)
			return Val{R: s.R, N: s.N, M: s.M & 0xffffffff}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if st, ok := tu.(*types.Slice); ok {
			eb := st.Elem().Underlying().(*types.Basic)
			n := slen(v)
			if eb.Kind() == types.Uint8 {
				if n == 0 {
					return mkSlice(w.newObj(w.byteLay, 0, nil), 0, 0, 0)
				}
				o := w.newObj(w.byteLay, n, nil)
				w.copyCells(o, 0, v.obj(), int(v.N), n)
				return mkSlice(o, 0, n, n)
			}
			// []rune
			var rs []Val
			for i := 0; i < n; {
				fn := w.eng.fnByName("unicode/utf8", "DecodeRuneInString")
				r := w.callFn(fn, []Val{mkStr(v.obj(), int(v.N)+i, n-i)}, nil, fr).R.([]Val)
				rs = append(rs, r[0])
				i += int(w.concretize(r[1], 64))
			}
			o := w.newObj(w.lay.of(st.Elem()), len(rs), nil)
			for i, r := range rs {
				o.put(i, r)
			}
			return mkSlice(o, 0, len(rs), len(rs))
		}
	}
	if st, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		eb := st.Elem().Underlying().(*types.Basic)
		n := slen(v)
		if eb.Kind() == types.Uint8 {
			if n == 0 {
				return Val{}
			}
			o := w.newObj(w.byteLay, n, nil)
			w.copyCells(o, 0, v.obj(), int(v.N), n)
			return mkStr(o, 0, n)
		}
		var acc Val
		for i := 0; i < n; i++ {
			acc = w.concat(acc, w.convert(fr, ci, v.obj().get(int(v.N)+i), st.Elem(), types.Typ[types.String]))
		}
		return acc
	}
	w.unsup("convert %v to %v", from, to)
	return Val{}
}

// f2i: float to int truncation. Out-of-range values are implementation
// defined in Go; amd64 gives the "integer indefinite" value, which we model
// for 64-bit signed targets and route the narrower ones through 64 bits.
func (w *Worker) f2i(v Val, fw uint16, tb *types.Basic) Val {
	tw := basicWidth(tb)
	if v.R == nil {
		f := fval(v.N, fw)
		switch tb.Kind() {
		case types.Int, types.Int64:
			return Val{N: uint64(int64(f))}
		case types.Int32:
			return Val{N: uint64(uint32(int32(f)))}
		case types.Int16:
			return Val{N: uint64(uint16(int16(f)))}
		case types.Int8:
			return Val{N: uint64(uint8(int8(f)))}
		case types.Uint, types.Uint64, types.Uintptr:
			return Val{N: uint64(f)}
		case types.Uint32:
			return Val{N: uint64(uint32(f))}
		case types.Uint16:
			return Val{N: uint64(uint16(f))}
		case types.Uint8:
			return Val{N: uint64(uint8(f))}
		}
	}
	t := w.tm(v, fw)
	d := t
	if fw == 32 {
		d = w.tb.Cvt(OFCvt, t, 64)
	}
	lim := w.tb.Const(64, math.Float64bits(9223372036854775808.0))
	nlim := w.tb.Const(64, math.Float64bits(-9223372036854775808.0))
	if tb.Info()&types.IsUnsigned != 0 && tw == 64 {
		ok := w.tb.And(w.tb.FCmp(OFLe, w.tb.Const(64, 0), d), w.tb.FCmp(OFLt, d, w.tb.Const(64, math.Float64bits(18446744073709551616.0))))
		if !w.isTrue(ok) {
			w.end("unsupported", "out-of-range float to uint64 conversion")
		}
		return w.fromT(w.tb.Cvt(OFtoUI, d, 64))
	}
	in := w.tb.And(w.tb.FCmp(OFLe, nlim, d), w.tb.FCmp(OFLt, d, lim))
	var r *Term
	if w.isTrue(in) {
		r = w.tb.Cvt(OFtoSI, d, 64)
	} else {
		r = w.tb.Const(64, 1<<63)
	}
	if tw < 64 {
		r = w.tb.Extract(r, tw-1, 0)
	}
	return w.fromT(r)
}

func (w *Worker) builtin(fr *Frame, ci *cins, b *ssa.Builtin, args []Val, cc *ssa.CallCommon) Val {
	switch b.Name() {
	case "len":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if m, ok := args[0].R.(*MapV); ok && m != nil {
				return Val{N: uint64(m.n)}
			}
			return Val{}
		case *types.Array:
			return Val{N: uint64(t.Len())}
		case *types.Pointer:
			return Val{N: uint64(t.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			w.unsup("len(chan)")
		}
		return Val{N: uint64(slen(args[0]))}
	case "cap":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Array:
			return Val{N: uint64(t.Len())}
		case *types.Pointer:
			return Val{N: uint64(t.Elem().Underlying().(*types.Array).Len())}
		}
		return Val{N: uint64(scap(args[0]))}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		return w.appendSlice(w.lay.of(st.Elem()), args[0], args[1])
	case "copy":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		lay := w.lay.of(st.Elem())
		n := slen(args[0])
		if m := slen(args[1]); m < n {
			n = m
		}
		if n > 0 {
			w.copyCells(args[0].obj(), int(args[0].N), args[1].obj(), int(args[1].N), n*lay.n)
		}
		return Val{N: uint64(n)}
	case "panic":
		panic(&goPanic{v: args[0], msg: "panic: " + w.showIface(args[0])})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		c := fr.caller
		if c != nil && c.panicing != nil {
			p := c.panicing
			c.panicing = nil
			if p.v.R != nil {
				return p.v
			}
			return Val{R: &IfaceV{t: w.eng.rtErrType(), v: w.newStr(p.msg)}}
		}
		return Val{}
	case "delete":
		m, _ := args[0].R.(*MapV)
		w.mapDelete(m, args[1])
		return Val{}
	case "clear":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if m, _ := args[0].R.(*MapV); m != nil {
				for i := range m.dead {
					m.dead[i] = true
				}
				m.n = 0
				m.idx = map[string]int{}
			}
		case *types.Slice:
			lay := w.lay.of(t.Elem())
			o := args[0].obj()
			for i := 0; i < slen(args[0])*lay.n; i++ {
				w.set(o, int(args[0].N)+i, Val{})
			}
		}
		return Val{}
	case "min", "max":
		t := cc.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := w.binop(fr, ci, op, t, t, a, r)
			bt := t.Underlying().(*types.Basic)
			if bt.Info()&types.IsInteger == 0 {
				w.unsup("min/max on %v", t)
			}
			wd := basicWidth(bt)
			r = w.fromT(w.tb.Ite(w.tm(c, 0), w.tm(a, wd), w.tm(r, wd)))
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			w.rtPanic(fr, ci, "invalid memory address or nil pointer dereference (value method on nil pointer)")
		}
		return args[0]
	case "print", "println":
		return Val{}
	case "String": // unsafe.String(ptr, len)
		n := int(w.intArg(fr, args[1], cc.Args[1].Type()))
		if n == 0 {
			return Val{}
		}
		return mkStr(args[0].obj(), int(args[0].N), n)
	case "StringData", "SliceData":
		return Val{R: args[0].R, N: args[0].N}
	case "Slice": // unsafe.Slice
		n := int(w.intArg(fr, args[1], cc.Args[1].Type()))
		if args[0].R == nil {
			return Val{}
		}
		return mkSlice(args[0].obj(), int(args[0].N), n, n)
	case "Add":
		n := int(w.intArg(fr, args[1], cc.Args[1].Type()))
		o := args[0].obj()
		if n == 0 {
			return args[0]
		}
		// translate byte offset to cells
		bo := o.boff(int(args[0].N)) + int64(n)
		for k := 0; k < o.ncells(); k++ {
			if o.boff(k) == bo {
				return Val{R: o, N: uint64(k)}
			}
		}
		w.unsup("unsafe.Add outside cells")
	}
	w.unsup("builtin %s", b.Name())
	return Val{}
}

func (w *Worker) appendSlice(lay *Layout, a, b Val) Val {
	n, m := slen(a), slen(b)
	if m == 0 {
		return a
	}
	if n+m <= scap(a) {
		w.copyCells(a.obj(), int(a.N)+n*lay.n, b.obj(), int(b.N), m*lay.n)
		return mkSlice(a.obj(), int(a.N), n+m, scap(a))
	}
	c := growCap(scap(a), n+m, lay.size)
	o := w.newObj(lay, c, nil)
	if n > 0 {
		w.copyCells(o, 0, a.obj(), int(a.N), n*lay.n)
	}
	w.copyCells(o, n*lay.n, b.obj(), int(b.N), m*lay.n)
	return mkSlice(o, 0, n+m, c)
}

// growCap follows runtime.nextslicecap and rounds to malloc size classes.
func growCap(old, need int, esz int64) int {
	c := old
	double := old + old
	if need > double {
		c = need
	} else if old < 256 {
		c = double
	} else {
		for c < need {
			c += (c + 3*256) >> 2
		}
	}
	if esz == 0 {
		return need
	}
	b := int64(c) * esz
	return int(roundSize(b) / esz)
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}
