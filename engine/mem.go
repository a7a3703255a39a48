package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is a register or cell value.
//
//	scalar : R nil -> concrete N ; R *Term -> symbolic
//	pointer: R *Obj, N cell index (nil pointer: R nil, N 0)
//	string : R *Obj, N offset, M length
//	slice  : R *Obj, N cell offset, M len | cap<<32 (nil slice: R nil)
//	iface  : R *IfaceV ; func: R *FuncV ; map: R *MapV ; chan: R *ChanV
//	struct/array: R []Val (leaves) ; tuple: R []Val
type Val struct {
	N uint64
	M uint64
	R any
}

type Obj struct {
	lay   *Layout
	n     int
	cells []Val
	b     []byte
	t     []*Term
	epoch int32
	byt   bool
	id    int
	typ   types.Type
}

type IfaceV struct {
	t types.Type
	v Val
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	bi    *ssa.Builtin
	nat   func(w *Worker, args []Val) Val // native (reflect makefunc etc.)
	recv  Val
}

type MapV struct {
	kt, vt types.Type
	keys   []Val
	vals   []Val
	dead   []bool
	idx    map[string]int // concrete scalar/string keys
	epoch  int32
	n      int
}

func (v Val) term() *Term {
	if v.R == nil {
		return nil
	}
	t, _ := v.R.(*Term)
	return t
}

func (w *Worker) newObj(lay *Layout, n int, typ types.Type) *Obj {
	o := &Obj{lay: lay, n: n, epoch: w.epoch, typ: typ}
	w.nobj++
	o.id = w.nobj
	if lay.n == 1 && lay.allByte {
		o.byt = true
		o.b = make([]byte, n)
	} else {
		total := n * lay.n
		if total > 1<<24 {
			w.end("hugealloc", fmt.Sprintf("%d cells", total))
		}
		o.cells = make([]Val, total)
	}
	return o
}

// newObjT allocates for a type; arrays become objects of their elements.
func (w *Worker) newObjT(t types.Type) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok {
		return w.newObj(w.lay.of(a.Elem()), int(a.Len()), t)
	}
	return w.newObj(w.lay.of(t), 1, t)
}

type undo struct {
	o *Obj
	i int
	v Val
}

func (o *Obj) ncells() int {
	if o.byt {
		return len(o.b)
	}
	return len(o.cells)
}

func (o *Obj) leaf(i int) Leaf {
	if o.lay.n == 1 {
		return o.lay.leaves[0]
	}
	return o.lay.leaves[i%o.lay.n]
}

func (o *Obj) get(i int) Val {
	if o.byt {
		if o.t != nil {
			if t := o.t[i]; t != nil {
				return Val{R: t}
			}
		}
		return Val{N: uint64(o.b[i])}
	}
	return o.cells[i]
}

func (w *Worker) set(o *Obj, i int, v Val) {
	if w.race != nil {
		w.raceAcc(o, uint64(i), true)
	}
	if o.epoch == 0 && w.epoch != 0 {
		w.undoLog = append(w.undoLog, undo{o, i, o.get(i)})
	}
	o.put(i, v)
}

func (o *Obj) put(i int, v Val) {
	if o.byt {
		if v.R != nil {
			t, ok := v.R.(*Term)
			if !ok {
				panic(unsupported{"non-scalar store to byte object"})
			}
			if o.t == nil {
				o.t = make([]*Term, len(o.b))
			}
			o.t[i] = t
			return
		}
		o.b[i] = byte(v.N)
		if o.t != nil {
			o.t[i] = nil
		}
		return
	}
	o.cells[i] = v
}

func (o *Obj) boff(i int) int64 {
	if o.lay.n == 1 {
		return int64(i) * o.lay.size
	}
	return int64(i/o.lay.n)*o.lay.size + o.lay.boff[i%o.lay.n]
}

// load reads a value of layout lay at cell i.
func (w *Worker) load(o *Obj, i int, lay *Layout, t types.Type) Val {
	if w.race != nil {
		w.raceRange(o, i, lay.n, false)
	}
	if lay.scalar {
		if i < 0 || i >= o.ncells() {
			if lay.n == 0 {
				return Val{R: []Val{}}
			}
			panic(unsupported{"load outside object"})
		}
		lf := o.leaf(i)
		want := lay.leaves[0]
		if lf == want {
			v := o.get(i)
			if p, bad := v.R.(*poison); bad {
				panic(unsupported{"variable whose initialiser was not executed: " + p.why})
			}
			return v
		}
		return w.reinterpLoad(o, i, want)
	}
	out := make([]Val, lay.n)
	if i+lay.n > o.ncells() {
		panic(unsupported{"aggregate load outside object"})
	}
	if o.byt && lay.allByte {
		for k := range out {
			out[k] = o.get(i + k)
		}
		return Val{R: out}
	}
	if o.lay.n == lay.n && o.lay == lay || w.sameLeaves(o, i, lay) {
		copy(out, o.cells[i:i+lay.n])
		return Val{R: out}
	}
	panic(unsupported{"aggregate reinterpretation load"})
}

func (w *Worker) sameLeaves(o *Obj, i int, lay *Layout) bool {
	if o.byt {
		return lay.allByte
	}
	for k := 0; k < lay.n; k++ {
		if o.leaf(i+k) != lay.leaves[k] {
			return false
		}
	}
	return true
}

func (w *Worker) reinterpLoad(o *Obj, i int, want Leaf) Val {
	lf := o.leaf(i)
	if lf.k == LInt && want.k == LInt {
		if lf.w < want.w {
			n := int(want.w / lf.w)
			if i+n > o.ncells() || o.boff(i+n-1)-o.boff(i) != int64(n-1)*int64(lf.w/8) {
				panic(unsupported{"reinterpreting load crosses object"})
			}
			conc := true
			var acc uint64
			for k := 0; k < n; k++ {
				c := o.get(i + k)
				if c.R != nil {
					conc = false
					break
				}
				acc |= c.N << (uint(k) * uint(lf.w))
			}
			if conc {
				return Val{N: acc}
			}
			var r *Term
			for k := n - 1; k >= 0; k-- {
				c := w.tm(o.get(i+k), lf.w)
				if r == nil {
					r = c
				} else {
					r = w.tb.Concat(r, c)
				}
			}
			return w.fromT(r)
		}
		// low part of a wider cell
		c := o.get(i)
		if c.R == nil {
			return Val{N: c.N & mask(want.w)}
		}
		return w.fromT(w.tb.Extract(w.tm(c, lf.w), want.w-1, 0))
	}
	if lf.k == LInt && want.k == LBool {
		c := w.reinterpLoadSame(o, i)
		return w.fromT(w.tb.Not(w.tb.Eq(w.tm(c, lf.w), w.tb.Const(lf.w, 0))))
	}
	if lf.k == LSlice && want.k == LStr {
		v := o.get(i)
		return Val{R: v.R, N: v.N, M: v.M & 0xffffffff}
	}
	if lf.k == LStr && want.k == LSlice {
		v := o.get(i)
		return Val{R: v.R, N: v.N, M: v.M | v.M<<32}
	}
	if lf.k == LPtr && want.k == LInt || lf.k == LInt && want.k == LPtr {
		return o.get(i)
	}
	panic(unsupported{fmt.Sprintf("reinterpret %v as %v", lf, want)})
}

func (w *Worker) reinterpLoadSame(o *Obj, i int) Val { return o.get(i) }

func (w *Worker) store(o *Obj, i int, lay *Layout, v Val) {
	if lay.scalar {
		if i < 0 || i >= o.ncells() {
			panic(unsupported{"store outside object"})
		}
		lf := o.leaf(i)
		want := lay.leaves[0]
		if lf == want {
			w.set(o, i, v)
			return
		}
		if lf.k == LInt && want.k == LInt && lf.w < want.w {
			n := int(want.w / lf.w)
			if i+n > o.ncells() {
				panic(unsupported{"reinterpreting store crosses object"})
			}
			for k := 0; k < n; k++ {
				if v.R == nil {
					w.set(o, i+k, Val{N: (v.N >> (uint(k) * uint(lf.w))) & mask(lf.w)})
				} else {
					w.set(o, i+k, w.fromT(w.tb.Extract(w.tm(v, want.w), uint16(k+1)*lf.w-1, uint16(k)*lf.w)))
				}
			}
			return
		}
		if lf.k == LInt && want.k == LInt { // low part of a wider cell
			c := o.get(i)
			hi := w.tb.Extract(w.tm(c, lf.w), lf.w-1, want.w)
			w.set(o, i, w.fromT(w.tb.Concat(hi, w.tm(v, want.w))))
			return
		}
		if lf.k == LInt && want.k == LBool {
			w.set(o, i, w.fromT(w.tb.Ite(w.tm(v, 0), w.tb.Const(lf.w, 1), w.tb.Const(lf.w, 0))))
			return
		}
		panic(unsupported{fmt.Sprintf("reinterpreting store %v as %v", lf, want)})
	}
	vs := v.R.([]Val)
	if i+lay.n > o.ncells() {
		panic(unsupported{"aggregate store outside object"})
	}
	if !w.sameLeaves(o, i, lay) {
		panic(unsupported{"aggregate reinterpretation store"})
	}
	for k := 0; k < lay.n; k++ {
		w.set(o, i+k, vs[k])
	}
}

func (w *Worker) zero(t types.Type) Val {
	lay := w.lay.of(t)
	if lay.scalar {
		return Val{}
	}
	return Val{R: make([]Val, lay.n)}
}

// tm gives the term of a scalar value of width wd.
func (w *Worker) tm(v Val, wd uint16) *Term {
	if v.R == nil {
		return w.tb.Const(wd, v.N)
	}
	t, ok := v.R.(*Term)
	if !ok {
		panic(unsupported{"pointer used as integer"})
	}
	return t
}

func (w *Worker) fromT(t *Term) Val {
	if t.op == OConst {
		return Val{N: t.val}
	}
	return Val{R: t}
}

// copyCells copies n cells (memmove semantics).
func (w *Worker) copyCells(d *Obj, di int, s *Obj, si int, n int) {
	if n == 0 {
		return
	}
	if di < 0 || si < 0 || di+n > d.ncells() || si+n > s.ncells() {
		panic(unsupported{"copy outside object"})
	}
	if w.race != nil {
		w.raceRange(s, si, n, false)
		w.raceRange(d, di, n, true)
	}
	if d.byt && s.byt {
		if d.epoch == 0 && w.epoch != 0 {
			for k := 0; k < n; k++ {
				w.undoLog = append(w.undoLog, undo{d, di + k, d.get(di + k)})
			}
		}
		copy(d.b[di:di+n], s.b[si:si+n])
		if s.t != nil {
			if d.t == nil {
				d.t = make([]*Term, len(d.b))
			}
			copy(d.t[di:di+n], s.t[si:si+n])
		} else if d.t != nil {
			for k := di; k < di+n; k++ {
				d.t[k] = nil
			}
		}
		return
	}
	tmp := make([]Val, n)
	for k := range tmp {
		tmp[k] = s.get(si + k)
	}
	for k := range tmp {
		w.set(d, di+k, tmp[k])
	}
}

func slen(v Val) int { return int(uint32(v.M)) }
func scap(v Val) int { return int(v.M >> 32) }

func mkSlice(o *Obj, off, n, c int) Val {
	return Val{R: o, N: uint64(off), M: uint64(uint32(n)) | uint64(c)<<32}
}

func mkStr(o *Obj, off, n int) Val { return Val{R: o, N: uint64(off), M: uint64(n)} }

// strConst interns a program constant (never written, so shared by all paths).
func (w *Worker) strConst(s string) Val {
	if s == "" {
		return Val{}
	}
	if v, ok := w.strs[s]; ok {
		return v
	}
	o := &Obj{lay: w.byteLay, n: len(s), b: []byte(s), byt: true}
	v := mkStr(o, 0, len(s))
	w.strs[s] = v
	return v
}

func (w *Worker) newStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return mkStr(&Obj{lay: w.byteLay, n: len(s), b: []byte(s), byt: true, epoch: w.epoch}, 0, len(s))
}

func (v Val) obj() *Obj {
	if v.R == nil {
		return nil
	}
	o, ok := v.R.(*Obj)
	if !ok {
		panic(unsupported{fmt.Sprintf("not an object pointer: %T", v.R)})
	}
	return o
}

// concStr returns the concrete content of a string/[]byte value if it has no symbolic byte.
func (w *Worker) concStr(v Val) (string, bool) {
	n := slen(v)
	if n == 0 {
		return "", true
	}
	o := v.obj()
	i := int(v.N)
	if !o.byt {
		b := make([]byte, n)
		for k := 0; k < n; k++ {
			c := o.cells[i+k]
			if c.R != nil {
				return "", false
			}
			b[k] = byte(c.N)
		}
		return string(b), true
	}
	if o.t != nil {
		for k := i; k < i+n; k++ {
			if o.t[k] != nil {
				return "", false
			}
		}
	}
	return string(o.b[i : i+n]), true
}

func (w *Worker) byteAt(v Val, k int) Val {
	if w.race != nil {
		w.raceAcc(v.obj(), v.N+uint64(k), false)
	}
	return v.obj().get(int(v.N) + k)
}

// bytesTerms returns per-byte values.
func (w *Worker) bytesVals(v Val) []Val {
	n := slen(v)
	r := make([]Val, n)
	if n == 0 {
		return r
	}
	o := v.obj()
	for k := range r {
		r[k] = o.get(int(v.N) + k)
	}
	return r
}

func (w *Worker) mkBytes(vs []Val) *Obj {
	o := w.newObj(w.byteLay, len(vs), nil)
	for k, v := range vs {
		o.put(k, v)
	}
	return o
}
