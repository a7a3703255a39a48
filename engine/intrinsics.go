package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

type intr = func(w *Worker, fr *Frame, args []Val) Val

var intrinsics = map[string]intr{}
var harnessFns = map[string]intr{}
var opaqueMethods = map[string]intr{}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "reflect": true, "internal/poll": true, "internal/reflectlite": true,
	"internal/godebug": true, "internal/testlog": true, "encoding/json": true, "fmt": true, "sync": true, "crypto": true, "context": true, "net": true, "internal/syscall/unix": true, "log": true, "testing": true,
	"math/rand": true, "internal/oserror": false, "time": false}

func ret(vs ...Val) Val { return Val{R: vs} }

func nop(w *Worker, fr *Frame, a []Val) Val { return Val{} }

func identity(w *Worker, fr *Frame, a []Val) Val { return a[0] }

// seqIndex finds needle in hay (both byte sequences), forking per position.
func (w *Worker) seqIndex(hay, needle Val) int {
	n, m := slen(hay), slen(needle)
	if m == 0 {
		return 0
	}
	if hs, ok := w.concStr(hay); ok {
		if ns, ok := w.concStr(needle); ok {
			return strings.Index(hs, ns)
		}
	}
	for i := 0; i+m <= n; i++ {
		sub := mkStr(hay.obj(), int(hay.N)+i, m)
		if w.isTrue(w.eqStr(sub, Val{R: needle.R, N: needle.N, M: uint64(m)})) {
			return i
		}
	}
	return -1
}

func (w *Worker) byteIndex(hay Val, c Val) int {
	n := slen(hay)
	if n == 0 {
		return -1
	}
	o := hay.obj()
	ct := w.tm(c, 8)
	for i := 0; i < n; i++ {
		x := o.get(int(hay.N) + i)
		if x.R == nil && c.R == nil {
			if x.N == c.N {
				return i
			}
			continue
		}
		if w.isTrue(w.tb.Eq(w.tm(x, 8), ct)) {
			return i
		}
	}
	return -1
}

func (w *Worker) lastByteIndex(hay Val, c Val) int {
	n := slen(hay)
	for i := n - 1; i >= 0; i-- {
		if w.isTrue(w.tb.Eq(w.tm(w.byteAt(hay, i), 8), w.tm(c, 8))) {
			return i
		}
	}
	return -1
}

// tableIndex looks a symbolic byte up in a constant text: a position chosen by
// the byte, without one path per position.
func (w *Worker) tableIndex(s, b Val) (Val, bool) {
	n := slen(s)
	if b.R == nil || n == 0 || n > 128 {
		return Val{}, false
	}
	var cs []byte
	for i := 0; i < n; i++ {
		x := w.byteAt(s, i)
		if x.R != nil {
			return Val{}, false
		}
		cs = append(cs, byte(x.N))
	}
	r := w.tb.Const(64, ^uint64(0))
	for i := n - 1; i >= 0; i-- {
		r = w.tb.Ite(w.tb.Eq(w.tm(b, 8), w.tb.Const(8, uint64(cs[i]))), w.tb.Const(64, uint64(i)), r)
	}
	return w.fromT(r), true
}

func vint(i int) Val { return Val{N: uint64(int64(i))} }

func asStr(v Val) Val { return Val{R: v.R, N: v.N, M: v.M & 0xffffffff} }

func init() {
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val {
			if v, ok := w.tableIndex(a[0], a[1]); ok {
				return v
			}
			return vint(w.byteIndex(a[0], a[1]))
		}
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val { return vint(w.lastByteIndex(a[0], a[1])) }
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val { return vint(w.seqIndex(a[0], a[1])) }
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val {
			c := 0
			for i := 0; i < slen(a[0]); i++ {
				if w.isTrue(w.tb.Eq(w.tm(w.byteAt(a[0], i), 8), w.tm(a[1], 8))) {
					c++
				}
			}
			return vint(c)
		}
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val { return w.fromT(w.eqStr(asStr(a[0]), asStr(a[1]))) }
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare", "internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val {
			x, y := asStr(a[0]), asStr(a[1])
			lt, eq := w.ltStr(x, y), w.eqStr(x, y)
			c := func(i int) *Term { return w.tb.Const(64, uint64(int64(i))) }
			return w.fromT(w.tb.Ite(eq, c(0), w.tb.Ite(lt, c(-1), c(1))))
		}
	}
	intrinsics["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *Frame, a []Val) Val {
		n := int(int64(w.concretize(a[0], 64)))
		if n > 1<<24 {
			w.end("hugealloc", fmt.Sprint(n))
		}
		return mkSlice(w.newObj(w.byteLay, int(roundSize(int64(n))), nil), 0, n, int(roundSize(int64(n))))
	}
	intrinsics["internal/abi.NoEscape"] = identity
	intrinsics["internal/abi.Escape"] = identity
	intrinsics["strings.noescape"] = identity
	intrinsics["(*strings.Builder).copyCheck"] = nop
	intrinsics["internal/stringslite.Clone"] = func(w *Worker, fr *Frame, a []Val) Val {
		if slen(a[0]) == 0 {
			return Val{}
		}
		o := w.newObj(w.byteLay, slen(a[0]), nil)
		w.copyCells(o, 0, a[0].obj(), int(a[0].N), slen(a[0]))
		return mkStr(o, 0, slen(a[0]))
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/msan.Read", "internal/asan.Read", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "fmt.Println", "fmt.Printf", "fmt.Print"} {
		intrinsics[n] = nop
	}
	intrinsics["(*internal/godebug.Setting).Value"] = nop
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val {
			w.raceAcquire(a[0].R, a[0].N)
			return Val{}
		}
	}
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"} {
		intrinsics[n] = func(w *Worker, fr *Frame, a []Val) Val {
			w.raceRelease(a[0].R, a[0].N)
			return Val{}
		}
	}
	intrinsics["(*sync.Once).Do"] = func(w *Worker, fr *Frame, a []Val) Val {
		k := fmt.Sprintf("once:%p:%d", a[0].R, a[0].N)
		if w.side[k] != nil {
			w.raceAcquire(a[0].R, a[0].N)
			return Val{}
		}
		w.side[k] = true
		w.callVal(a[1], nil, fr, nil)
		w.raceRelease(a[0].R, a[0].N)
		return Val{}
	}
	intrinsics["(*sync.Once).doSlow"] = intrinsics["(*sync.Once).Do"]
	// sync.Pool as one goroutine without GC observes it: a private slot first,
	// then the most recently Put item; or, in nondeterministic mode, any stored item or a miss.
	intrinsics["(*sync.Pool).Get"] = func(w *Worker, fr *Frame, a []Val) Val {
		if a[0].R == nil {
			w.rtPanic(fr, nil, "invalid memory address or nil pointer dereference")
		}
		ps := w.pools[poolKey{a[0].obj(), a[0].N}]
		if ps != nil && ps.priv.R != nil && !w.poolND {
			v := ps.priv
			ps.priv = Val{}
			w.raceItem(v, false)
			return v
		}
		if ps != nil && len(ps.items) > 0 {
			i := len(ps.items) - 1
			if w.poolND {
				c := w.nondet(8)
				w.assume(w.tb.Cmp(OUle, c, w.tb.Const(8, uint64(len(ps.items)))))
				k := int(w.concretize(w.fromT(c), 8))
				i = len(ps.items) - 1 - k // 0: most recent ... len: miss
			}
			if i >= 0 {
				v := ps.items[i]
				ps.items = append(append([]Val{}, ps.items[:i]...), ps.items[i+1:]...)
				w.raceItem(v, false)
				return v
			}
		}
		lay := w.lay.of(w.eng.namedType("sync", "Pool"))
		f := a[0].obj().get(int(a[0].N) + lay.fields[len(lay.fields)-1])
		if f.R == nil {
			return Val{}
		}
		return w.callVal(f, nil, fr, nil)
	}
	intrinsics["(*sync.Pool).Put"] = func(w *Worker, fr *Frame, a []Val) Val {
		if a[1].R == nil {
			return Val{}
		}
		k := poolKey{a[0].obj(), a[0].N}
		ps := w.pools[k]
		if ps == nil {
			ps = &poolState{}
			w.pools[k] = ps
		}
		w.raceItem(a[1], true)
		if ps.priv.R == nil && !w.poolND {
			ps.priv = a[1]
			return Val{}
		}
		ps.items = append(ps.items, a[1])
		return Val{}
	}
	for _, ty := range []struct {
		n string
		w uint16
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		wd := ty.w
		cell := func(w *Worker, p Val) (*Obj, int) {
			o := p.obj()
			if o == nil {
				w.rtPanic(nil, nil, "invalid memory address or nil pointer dereference")
			}
			return o, int(p.N)
		}
		intrinsics["sync/atomic.Load"+ty.n] = func(w *Worker, fr *Frame, a []Val) Val { o, i := cell(w, a[0]); return o.get(i) }
		intrinsics["sync/atomic.Store"+ty.n] = func(w *Worker, fr *Frame, a []Val) Val {
			o, i := cell(w, a[0])
			w.set(o, i, a[1])
			return Val{}
		}
		intrinsics["sync/atomic.Swap"+ty.n] = func(w *Worker, fr *Frame, a []Val) Val {
			o, i := cell(w, a[0])
			v := o.get(i)
			w.set(o, i, a[1])
			return v
		}
		if wd != 0 {
			intrinsics["sync/atomic.Add"+ty.n] = func(w *Worker, fr *Frame, a []Val) Val {
				o, i := cell(w, a[0])
				v := w.fromT(w.tb.Bin(OBAdd, w.tm(o.get(i), wd), w.tm(a[1], wd)))
				w.set(o, i, v)
				return v
			}
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty.n] = func(w *Worker, fr *Frame, a []Val) Val {
			o, i := cell(w, a[0])
			v := o.get(i)
			var eq bool
			if scalarVal(v) && scalarVal(a[1]) && wd != 0 {
				eq = w.isTrue(w.tb.Eq(w.tm(v, wd), w.tm(a[1], wd)))
			} else {
				eq = v.R == a[1].R && v.N == a[1].N
			}
			if eq {
				w.set(o, i, a[2])
			}
			return Val{N: b2u(eq)}
		}
	}
	intrinsics["math.Float64bits"] = identity
	intrinsics["math.Float64frombits"] = identity
	intrinsics["math.Float32bits"] = identity
	intrinsics["math.Float32frombits"] = identity
	conc1 := func(name string, f func(float64) float64) {
		intrinsics["math."+name] = func(w *Worker, fr *Frame, a []Val) Val {
			if a[0].R != nil {
				w.unsup("math.%s on a symbolic float", name)
			}
			return Val{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	conc1("Floor", math.Floor)
	conc1("Ceil", math.Ceil)
	conc1("Trunc", math.Trunc)
	conc1("Round", math.Round)
	conc1("Sqrt", math.Sqrt)
	intrinsics["math.Modf"] = func(w *Worker, fr *Frame, a []Val) Val {
		if a[0].R != nil {
			w.unsup("math.Modf on a symbolic float")
		}
		x, y := math.Modf(math.Float64frombits(a[0].N))
		return ret(Val{N: math.Float64bits(x)}, Val{N: math.Float64bits(y)})
	}

	// fmt
	intrinsics["fmt.Errorf"] = func(w *Worker, fr *Frame, a []Val) Val {
		s, ok := w.sprintf(a[0], a[1])
		if !ok {
			if v, ok := w.sprintfSym(fr, a[0], a[1]); ok {
				return w.mkErrorV(v)
			}
			s = "<formatted error>"
		}
		return w.mkError(s)
	}
	intrinsics["fmt.Sprintf"] = func(w *Worker, fr *Frame, a []Val) Val {
		s, ok := w.sprintf(a[0], a[1])
		if !ok {
			if v, ok := w.sprintfSym(fr, a[0], a[1]); ok {
				return v
			}
			w.unsup("fmt.Sprintf on symbolic or structured arguments")
		}
		return w.newStr(s)
	}
	sprint := func(ln bool) intr {
		return func(w *Worker, fr *Frame, a []Val) Val {
			args, ok := w.goArgs(a[0])
			if !ok {
				w.unsup("fmt.Sprint on symbolic or structured arguments")
			}
			if ln {
				return w.newStr(fmt.Sprintln(args...))
			}
			return w.newStr(fmt.Sprint(args...))
		}
	}
	intrinsics["fmt.Sprint"] = sprint(false)
	intrinsics["fmt.Sprintln"] = sprint(true)

	// strconv on symbolic values
	intrinsics["strconv.AppendInt"] = func(w *Worker, fr *Frame, a []Val) Val {
		s := w.fmtInt(a[1], true, int(w.concretize(a[2], 64)))
		return w.appendSlice(w.byteLay, a[0], s)
	}
	intrinsics["strconv.AppendUint"] = func(w *Worker, fr *Frame, a []Val) Val {
		s := w.fmtInt(a[1], false, int(w.concretize(a[2], 64)))
		return w.appendSlice(w.byteLay, a[0], s)
	}
	intrinsics["strconv.FormatInt"] = func(w *Worker, fr *Frame, a []Val) Val {
		return w.fmtInt(a[0], true, int(w.concretize(a[1], 64)))
	}
	intrinsics["strconv.FormatUint"] = func(w *Worker, fr *Frame, a []Val) Val {
		return w.fmtInt(a[0], false, int(w.concretize(a[1], 64)))
	}
	intrinsics["strconv.Itoa"] = func(w *Worker, fr *Frame, a []Val) Val { return w.fmtInt(a[0], true, 10) }
	intrinsics["internal/strconv.FormatInt"] = intrinsics["strconv.FormatInt"]
	intrinsics["internal/strconv.FormatUint"] = intrinsics["strconv.FormatUint"]
	intrinsics["internal/strconv.AppendInt"] = intrinsics["strconv.AppendInt"]
	intrinsics["internal/strconv.AppendUint"] = intrinsics["strconv.AppendUint"]
	intrinsics["internal/strconv.Itoa"] = intrinsics["strconv.Itoa"]
	intrinsics["strconv.FormatFloat"] = func(w *Worker, fr *Frame, a []Val) Val {
		return w.fmtFloat(a[0], byte(w.concretize(a[1], 8)), int(int64(w.concretize(a[2], 64))), int(w.concretize(a[3], 64)))
	}
	intrinsics["strconv.AppendFloat"] = func(w *Worker, fr *Frame, a []Val) Val {
		s := w.fmtFloat(a[1], byte(w.concretize(a[2], 8)), int(int64(w.concretize(a[3], 64))), int(w.concretize(a[4], 64)))
		return w.appendSlice(w.byteLay, a[0], s)
	}
	intrinsics["strconv.ParseFloat"] = func(w *Worker, fr *Frame, a []Val) Val {
		return w.parseFloat(a[0], int(w.concretize(a[1], 64)))
	}
	intrinsics["errors.New"] = func(w *Worker, fr *Frame, a []Val) Val { return w.mkErrorV(a[0]) }

	// harness vocabulary
	nd := func(wd uint16) intr {
		return func(w *Worker, fr *Frame, a []Val) Val { return Val{R: w.nondet(wd)} }
	}
	harnessFns["vxByte"] = nd(8)
	harnessFns["vxU16"] = nd(16)
	harnessFns["vxU32"] = nd(32)
	harnessFns["vxU64"] = nd(64)
	harnessFns["vxI64"] = nd(64)
	harnessFns["vxI32"] = nd(32)
	harnessFns["vxF64"] = nd(64)
	harnessFns["vxF32"] = nd(32)
	harnessFns["vxBool"] = nd(0)
	harnessFns["vxBytes"] = func(w *Worker, fr *Frame, a []Val) Val {
		n := int(w.concretize(a[0], 64))
		o := w.newObj(w.byteLay, n, nil)
		for i := 0; i < n; i++ {
			o.put(i, Val{R: w.nondet(8)})
		}
		return mkSlice(o, 0, n, n)
	}
	harnessFns["vxChoose"] = func(w *Worker, fr *Frame, a []Val) Val {
		n := w.concretize(a[0], 64)
		t := w.nondet(32)
		w.assume(w.tb.Cmp(OUlt, t, w.tb.Const(32, n)))
		return Val{N: w.concretize(Val{R: t}, 32)}
	}
	harnessFns["vxAssume"] = func(w *Worker, fr *Frame, a []Val) Val { w.assume(w.tm(a[0], 0)); return Val{} }
	harnessFns["vxAssert"] = func(w *Worker, fr *Frame, a []Val) Val {
		l, _ := w.concStr(a[1])
		w.assert(w.tm(a[0], 0), l, "")
		return Val{}
	}
	harnessFns["vxReach"] = func(w *Worker, fr *Frame, a []Val) Val {
		l, _ := w.concStr(a[0])
		w.reach[l] = true
		return Val{}
	}
	harnessFns["vxObs"] = func(w *Worker, fr *Frame, a []Val) Val {
		l, _ := w.concStr(a[0])
		w.obs = append(w.obs, obsv{label: l, v: a[1], w: 64})
		return Val{}
	}
	harnessFns["vxObsStr"] = func(w *Worker, fr *Frame, a []Val) Val {
		l, _ := w.concStr(a[0])
		// snapshot
		n := slen(a[1])
		v := Val{}
		if n > 0 {
			v = mkStr(w.mkBytes(w.bytesVals(a[1])), 0, n)
		}
		w.obs = append(w.obs, obsv{label: l, v: v, str: true})
		return Val{}
	}
	harnessFns["vxPoolNondet"] = func(w *Worker, fr *Frame, a []Val) Val { w.poolND = true; return Val{} }
	harnessFns["vxEq"] = func(w *Worker, fr *Frame, a []Val) Val { // byte-sequence equality as one term
		return w.fromT(w.eqStr(asStr(a[0]), asStr(a[1])))
	}
	harnessFns["vxAnd"] = func(w *Worker, fr *Frame, a []Val) Val { return w.fromT(w.tb.And(w.tm(a[0], 0), w.tm(a[1], 0))) }
	harnessFns["vxOr"] = func(w *Worker, fr *Frame, a []Val) Val { return w.fromT(w.tb.Or(w.tm(a[0], 0), w.tm(a[1], 0))) }
	harnessFns["vxIn"] = func(w *Worker, fr *Frame, a []Val) Val { // byte in set
		s, _ := w.concStr(a[1])
		r := w.tb.False
		for i := 0; i < len(s); i++ {
			r = w.tb.Or(r, w.tb.Eq(w.tm(a[0], 8), w.tb.Const(8, uint64(s[i]))))
		}
		return w.fromT(r)
	}
	harnessFns["vxRange"] = func(w *Worker, fr *Frame, a []Val) Val { // lo <= b <= hi
		b := w.tm(a[0], 8)
		return w.fromT(w.tb.And(w.tb.Cmp(OUle, w.tm(a[1], 8), b), w.tb.Cmp(OUle, b, w.tm(a[2], 8))))
	}
	harnessFns["vxSymbolic"] = func(w *Worker, fr *Frame, a []Val) Val { return Val{N: 1} }
}

func (w *Worker) mkError(s string) Val { return w.mkErrorV(w.newStr(s)) }

func (w *Worker) mkErrorV(s Val) Val {
	t := w.eng.namedType("errors", "errorString")
	o := w.newObjT(t)
	o.put(0, asStr(s))
	return Val{R: &IfaceV{t: types.NewPointer(t), v: Val{R: o}}}
}

// goArgs converts a concrete []interface{} of basic values to Go values.
func (w *Worker) goArgs(sl Val) ([]any, bool) {
	var out []any
	n := slen(sl)
	for i := 0; i < n; i++ {
		c := sl.obj().get(int(sl.N) + i)
		iv, _ := c.R.(*IfaceV)
		if iv == nil {
			out = append(out, nil)
			continue
		}
		b, ok := iv.t.Underlying().(*types.Basic)
		if !ok {
			if types.Implements(iv.t, errIface) || hasMethod(iv.t, "String") {
				return nil, false
			}
			return nil, false
		}
		if hasMethod(iv.t, "String") || hasMethod(iv.t, "Error") {
			return nil, false
		}
		if b.Info()&types.IsString != 0 {
			s, ok := w.concStr(iv.v)
			if !ok {
				return nil, false
			}
			out = append(out, s)
			continue
		}
		if iv.v.R != nil {
			return nil, false
		}
		n := iv.v.N
		switch b.Kind() {
		case types.Bool:
			out = append(out, n != 0)
		case types.Int:
			out = append(out, int(n))
		case types.Int8:
			out = append(out, int8(n))
		case types.Int16:
			out = append(out, int16(n))
		case types.Int32:
			out = append(out, int32(n))
		case types.Int64:
			out = append(out, int64(n))
		case types.Uint:
			out = append(out, uint(n))
		case types.Uint8:
			out = append(out, uint8(n))
		case types.Uint16:
			out = append(out, uint16(n))
		case types.Uint32:
			out = append(out, uint32(n))
		case types.Uint64:
			out = append(out, n)
		case types.Float64:
			out = append(out, math.Float64frombits(n))
		case types.Float32:
			out = append(out, math.Float32frombits(uint32(n)))
		default:
			return nil, false
		}
	}
	return out, true
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func hasMethod(t types.Type, n string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return true
		}
	}
	return false
}

func (w *Worker) sprintf(f, args Val) (string, bool) {
	fs, ok := w.concStr(f)
	if !ok {
		return "", false
	}
	a, ok := w.goArgs(args)
	if !ok {
		return "", false
	}
	return fmt.Sprintf(fs, a...), true
}

// sprintfSym handles the plain verbs %s, %v and %d on symbolic strings, byte
// slices and integers and on values with a String or Error method.
func (w *Worker) sprintfSym(fr *Frame, f, args Val) (Val, bool) {
	fs, ok := w.concStr(f)
	if !ok {
		return Val{}, false
	}
	out := Val{}
	next := 0
	for fs != "" {
		i := strings.IndexByte(fs, '%')
		if i < 0 {
			return w.concat(out, w.newStr(fs)), next == slen(args)
		}
		out = w.concat(out, w.newStr(fs[:i]))
		if i+1 >= len(fs) {
			return Val{}, false
		}
		verb := fs[i+1]
		fs = fs[i+2:]
		if verb == '%' {
			out = w.concat(out, w.newStr("%"))
			continue
		}
		if !strings.ContainsRune("svdw", rune(verb)) || next >= slen(args) {
			return Val{}, false
		}
		c := args.obj().get(int(args.N) + next)
		next++
		iv, _ := c.R.(*IfaceV)
		if iv == nil {
			return Val{}, false
		}
		v, ok := w.fmtArg(fr, iv, verb)
		if !ok {
			return Val{}, false
		}
		out = w.concat(out, v)
	}
	return out, next == slen(args)
}

func (w *Worker) fmtArg(fr *Frame, iv *IfaceV, verb byte) (Val, bool) {
	if verb != 'd' {
		for _, n := range []string{"Error", "String"} {
			ms := types.NewMethodSet(iv.t)
			for i := 0; i < ms.Len(); i++ {
				m, ok := ms.At(i).Obj().(*types.Func)
				if !ok || m.Name() != n {
					continue
				}
				sg := m.Type().(*types.Signature)
				if sg.Params().Len() != 0 || sg.Results().Len() != 1 || sg.Results().At(0).Type() != types.Typ[types.String] {
					continue
				}
				fn := w.methodOf(iv.t, m)
				if fn == nil {
					return Val{}, false
				}
				return asStr(w.callFn(fn, []Val{iv.v}, nil, fr)), true
			}
		}
	}
	switch t := iv.t.Underlying().(type) {
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 's' {
			o := w.newObj(w.byteLay, slen(iv.v), nil)
			if slen(iv.v) == 0 {
				return Val{}, true
			}
			w.copyCells(o, 0, iv.v.obj(), int(iv.v.N), slen(iv.v))
			return mkStr(o, 0, slen(iv.v)), true
		}
	case *types.Basic:
		if t.Info()&types.IsString != 0 && verb != 'd' {
			return asStr(iv.v), true
		}
		if t.Info()&types.IsInteger != 0 && verb != 's' && t.Kind() != types.Uintptr {
			bits := uint16(8 * types.SizesFor("gc", "amd64").Sizeof(t))
			x := w.tm(iv.v, bits)
			signed := t.Info()&types.IsUnsigned == 0
			if bits < 64 {
				if signed {
					x = w.tb.Sext(x, 64)
				} else {
					x = w.tb.Zext(x, 64)
				}
			}
			return w.fmtInt(w.fromT(x), signed, 10), true
		}
	}
	return Val{}, false
}

// fmtInt renders a (possibly symbolic) 64-bit integer in decimal: the digit
// count is forked, the digits are fresh variables tied to the value by a
// Horner sum, the same shape a decimal parser computes.
func (w *Worker) fmtInt(v Val, signed bool, base int) Val {
	if v.R == nil {
		if signed {
			return w.newStr(strconv.FormatInt(int64(v.N), base))
		}
		return w.newStr(strconv.FormatUint(v.N, base))
	}
	if base != 10 {
		w.unsup("FormatInt base %d on symbolic", base)
	}
	t := w.tm(v, 64)
	key := fmt.Sprintf("itoa:%v:%d", signed, t.id)
	if r, ok := w.side[key]; ok {
		return r.(Val)
	}
	neg := false
	if signed && w.isTrue(w.tb.Cmp(OSlt, t, w.tb.Const(64, 0))) {
		neg = true
		t = w.tb.Neg(t)
	}
	nd := 1
	lim := uint64(10)
	for nd < 20 {
		if w.isTrue(w.tb.Cmp(OUlt, t, w.tb.Const(64, lim))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		lim *= 10
	}
	val := w.tb.Eval(t, w.model)
	txt := fmt.Sprintf("%0*d", nd, val)
	if len(txt) > nd {
		txt = txt[len(txt)-nd:]
	}
	var out []Val
	if neg {
		out = append(out, Val{N: '-'})
	}
	var sum *Term
	for i := 0; i < nd; i++ {
		d := w.fresh(8, uint64(txt[i]))
		w.assumeDef(w.tb.Cmp(OUle, w.tb.Const(8, '0'), d))
		w.assumeDef(w.tb.Cmp(OUle, d, w.tb.Const(8, '9')))
		dv := w.tb.Zext(w.tb.Bin(OBSub, d, w.tb.Const(8, '0')), 64)
		if sum == nil {
			sum = dv
		} else {
			sum = w.tb.Bin(OBAdd, w.tb.Bin(OBMul, sum, w.tb.Const(64, 10)), dv)
		}
		out = append(out, Val{R: d})
	}
	w.assumeDef(w.tb.Eq(sum, t))
	r := mkStr(w.mkBytes(out), 0, len(out))
	w.side[key] = r
	return r
}

// assumeDef adds a defining constraint of fresh variables (satisfied by construction).
func (w *Worker) assumeDef(c *Term) { w.assume(c) }
