package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/types/typeutil"
)

// A model of package reflect over the interpreter's own values. A reflect.Type is
// a *reflect.rtype whose object stands for one go/types type; a reflect.Value keeps
// its three words: the type, the value (or, when indirect, a pointer to it), flags.

const (
	rvIndirect = 1 // the second word points at the value, which is addressable
	rvRO       = 2 // reached through an unexported field
)

type rval struct {
	t types.Type
	v Val
	f uint64
}

func (w *Worker) rtype(t types.Type) Val {
	if w.rtypes == nil {
		w.rtypes = &typeutil.Map{}
	}
	if o, ok := w.rtypes.At(t).(*Obj); ok {
		return Val{R: o}
	}
	o := &Obj{lay: w.byteLay, byt: true, typ: t}
	w.rtypes.Set(t, o)
	return Val{R: o}
}

func (w *Worker) rtypeIface(t types.Type) Val {
	return Val{R: &IfaceV{t: types.NewPointer(w.eng.namedType("reflect", "rtype")), v: w.rtype(t)}}
}

// typeArg reads a reflect.Type argument.
func (w *Worker) typeArg(fr *Frame, v Val) types.Type {
	iv, _ := v.R.(*IfaceV)
	if iv == nil {
		w.rtPanic(fr, nil, "reflect: nil type")
	}
	return iv.v.obj().typ
}

func (w *Worker) rpack(r rval) Val {
	if r.t == nil {
		return Val{R: make([]Val, 3)}
	}
	return Val{R: []Val{w.rtype(r.t), r.v, {N: r.f}}}
}

func (w *Worker) runpack(v Val) rval {
	c := v.R.([]Val)
	if c[0].R == nil {
		return rval{}
	}
	return rval{c[0].obj().typ, c[1], c[2].N}
}

func (w *Worker) rget(r rval) Val {
	if r.f&rvIndirect == 0 {
		return r.v
	}
	return w.load(r.v.obj(), int(r.v.N), w.lay.of(r.t), r.t)
}

const (
	rkInvalid = iota
	rkBool
	rkInt
	rkInt8
	rkInt16
	rkInt32
	rkInt64
	rkUint
	rkUint8
	rkUint16
	rkUint32
	rkUint64
	rkUintptr
	rkFloat32
	rkFloat64
	rkComplex64
	rkComplex128
	rkArray
	rkChan
	rkFunc
	rkInterface
	rkMap
	rkPtr
	rkSlice
	rkString
	rkStruct
	rkUnsafePointer
)

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func kindOf(t types.Type) int {
	if t == nil {
		return rkInvalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return rkBool
		case types.Int:
			return rkInt
		case types.Int8:
			return rkInt8
		case types.Int16:
			return rkInt16
		case types.Int32:
			return rkInt32
		case types.Int64:
			return rkInt64
		case types.Uint:
			return rkUint
		case types.Uint8:
			return rkUint8
		case types.Uint16:
			return rkUint16
		case types.Uint32:
			return rkUint32
		case types.Uint64:
			return rkUint64
		case types.Uintptr:
			return rkUintptr
		case types.Float32:
			return rkFloat32
		case types.Float64:
			return rkFloat64
		case types.Complex64:
			return rkComplex64
		case types.Complex128:
			return rkComplex128
		case types.String:
			return rkString
		case types.UnsafePointer:
			return rkUnsafePointer
		}
	case *types.Array:
		return rkArray
	case *types.Chan:
		return rkChan
	case *types.Signature:
		return rkFunc
	case *types.Interface:
		return rkInterface
	case *types.Map:
		return rkMap
	case *types.Pointer:
		return rkPtr
	case *types.Slice:
		return rkSlice
	case *types.Struct:
		return rkStruct
	}
	panic(unsupported{fmt.Sprintf("reflect kind of %v", t)})
}

func (w *Worker) rbad(fr *Frame, m string, r rval) {
	k := kindOf(r.t)
	if k == rkInvalid {
		w.rtPanic(fr, nil, "reflect: call of reflect.Value.%s on zero Value", m)
	}
	w.rtPanic(fr, nil, "reflect: call of reflect.Value.%s on %s Value", m, kindNames[k])
}

// part takes cells [i, i+n) of an aggregate as a value of layout lay.
func part(v Val, i int, lay *Layout) Val {
	c := v.R.([]Val)
	if lay.scalar {
		return c[i]
	}
	return Val{R: append([]Val{}, c[i:i+lay.n]...)}
}

func (w *Worker) rfield(fr *Frame, r rval, i int) rval {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		w.rbad(fr, "Field", r)
	}
	if i < 0 || i >= st.NumFields() {
		w.rtPanic(fr, nil, "reflect: Field index out of range")
	}
	f := st.Field(i)
	lay := w.lay.of(r.t)
	out := rval{t: f.Type(), f: r.f}
	if !f.Exported() {
		out.f |= rvRO
	}
	if r.f&rvIndirect != 0 {
		out.v = Val{R: r.v.R, N: r.v.N + uint64(lay.fields[i])}
	} else {
		out.v = part(r.v, lay.fields[i], w.lay.of(f.Type()))
	}
	return out
}

func (w *Worker) rindex(fr *Frame, r rval, i int) rval {
	switch u := r.t.Underlying().(type) {
	case *types.Slice:
		s := w.rget(r)
		if i < 0 || i >= slen(s) {
			w.rtPanic(fr, nil, "reflect: slice index out of range")
		}
		return rval{u.Elem(), Val{R: s.R, N: s.N + uint64(i*w.lay.of(u.Elem()).n)}, r.f&rvRO | rvIndirect}
	case *types.Array:
		if i < 0 || i >= int(u.Len()) {
			w.rtPanic(fr, nil, "reflect: array index out of range")
		}
		lay := w.lay.of(u.Elem())
		if r.f&rvIndirect != 0 {
			return rval{u.Elem(), Val{R: r.v.R, N: r.v.N + uint64(i*lay.n)}, r.f}
		}
		return rval{u.Elem(), part(r.v, i*lay.n, lay), r.f}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s := w.rget(r)
			if i < 0 || i >= slen(s) {
				w.rtPanic(fr, nil, "reflect: string index out of range")
			}
			return rval{types.Typ[types.Uint8], s.obj().get(int(s.N) + i), r.f & rvRO}
		}
	}
	w.rbad(fr, "Index", r)
	return rval{}
}

func (w *Worker) relem(fr *Frame, r rval) rval {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := w.rget(r)
		if p.R == nil {
			return rval{}
		}
		return rval{u.Elem(), p, r.f&rvRO | rvIndirect}
	case *types.Interface:
		iv, _ := w.rget(r).R.(*IfaceV)
		if iv == nil {
			return rval{}
		}
		return rval{iv.t, iv.v, r.f & rvRO}
	}
	w.rbad(fr, "Elem", r)
	return rval{}
}

// rassign converts x for storing into type t.
func (w *Worker) rassign(fr *Frame, x rval, t types.Type, what string) Val {
	if x.t == nil {
		w.rtPanic(fr, nil, "reflect: call of %s on zero Value", what)
	}
	if x.f&rvRO != 0 {
		w.rtPanic(fr, nil, "reflect: %s using value obtained using unexported field", what)
	}
	v := w.rget(x)
	if it, ok := t.Underlying().(*types.Interface); ok {
		if kindOf(x.t) == rkInterface {
			return v
		}
		if w.implements(x.t, it) {
			return Val{R: &IfaceV{t: x.t, v: v}}
		}
	} else if types.Identical(x.t, t) || types.AssignableTo(x.t, t) {
		return v
	}
	w.rtPanic(fr, nil, "%s: value of type %v is not assignable to type %v", what, x.t, t)
	return Val{}
}

func (w *Worker) rset(fr *Frame, m string, r rval, v Val) {
	if r.t == nil {
		w.rbad(fr, m, r)
	}
	if r.f&rvRO != 0 {
		w.rtPanic(fr, nil, "reflect: reflect.Value.%s using value obtained using unexported field", m)
	}
	if r.f&rvIndirect == 0 {
		w.rtPanic(fr, nil, "reflect: reflect.Value.%s using unaddressable value", m)
	}
	w.store(r.v.obj(), int(r.v.N), w.lay.of(r.t), v)
}

func (w *Worker) rinterface(fr *Frame, r rval) Val {
	if r.t == nil {
		w.rbad(fr, "Interface", r)
	}
	if r.f&rvRO != 0 {
		w.rtPanic(fr, nil, "reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	if kindOf(r.t) == rkInterface {
		return w.rget(r)
	}
	return Val{R: &IfaceV{t: r.t, v: w.rget(r)}}
}

func (w *Worker) makeSliceOf(fr *Frame, t types.Type, n, c int) Val {
	u, ok := t.Underlying().(*types.Slice)
	if !ok {
		w.rtPanic(fr, nil, "reflect.MakeSlice of non-slice type")
	}
	if n < 0 || c < n {
		w.rtPanic(fr, nil, "reflect.MakeSlice: bad length")
	}
	return mkSlice(w.newObj(w.lay.of(u.Elem()), c, t), 0, n, c)
}

// rappend copies m elements of src after the n of s, growing it.
func (w *Worker) rappend(fr *Frame, t types.Type, s Val, add int) Val {
	u := t.Underlying().(*types.Slice)
	lay := w.lay.of(u.Elem())
	n := slen(s)
	if n+add <= scap(s) {
		return mkSlice(s.obj(), int(s.N), n+add, scap(s))
	}
	o := w.newObj(lay, n+add, t)
	if n > 0 {
		w.copyCells(o, 0, s.obj(), int(s.N), n*lay.n)
	}
	return mkSlice(o, 0, n+add, n+add)
}

func (w *Worker) newMap(t types.Type) Val {
	m := t.Underlying().(*types.Map)
	return Val{R: &MapV{kt: m.Key(), vt: m.Elem(), idx: map[string]int{}, epoch: w.epoch}}
}

func (w *Worker) rliveKeys(v Val) []int {
	var out []int
	if m, _ := v.R.(*MapV); m != nil {
		for i := range m.keys {
			if !m.dead[i] {
				out = append(out, i)
			}
		}
	}
	return out
}

func (w *Worker) structField(t *types.Struct, i int) Val {
	ft := w.eng.namedType("reflect", "StructField")
	lay := w.lay.of(ft)
	out := make([]Val, lay.n)
	f := t.Field(i)
	st := ft.Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		c := &out[lay.fields[k]]
		switch st.Field(k).Name() {
		case "Name":
			*c = w.newStr(f.Name())
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				*c = w.newStr(f.Pkg().Path())
			}
		case "Type":
			*c = w.rtypeIface(f.Type())
		case "Tag":
			*c = w.newStr(t.Tag(i))
		case "Anonymous":
			*c = Val{N: b2u(f.Anonymous())}
		case "Index":
			o := w.newObj(w.lay.of(types.Typ[types.Int]), 1, nil)
			o.put(0, Val{N: uint64(i)})
			*c = mkSlice(o, 0, 1, 1)
		}
	}
	return Val{R: out}
}

func (w *Worker) cint(v Val) int { return int(int64(w.concretize(v, 64))) }

func (w *Worker) syncMap(p Val) *MapV {
	if p.R == nil {
		w.rtPanic(nil, nil, "invalid memory address or nil pointer dereference")
	}
	k := fmt.Sprintf("syncmap:%p+%d", p.obj(), p.N)
	if m, ok := w.side[k].(*MapV); ok {
		return m
	}
	any := types.NewInterfaceType(nil, nil)
	m := &MapV{kt: any, vt: any, idx: map[string]int{}, epoch: w.epoch}
	w.side[k] = m
	return m
}

func init() {
	fn := func(name string, f intr) { intrinsics["reflect."+name] = f }
	vm := func(name string, f func(w *Worker, fr *Frame, r rval, a []Val) Val) {
		intrinsics["(reflect.Value)."+name] = func(w *Worker, fr *Frame, a []Val) Val {
			return f(w, fr, w.runpack(a[0]), a[1:])
		}
	}
	tm := func(name string, f func(w *Worker, fr *Frame, t types.Type, a []Val) Val) {
		opaqueMethods["*reflect.rtype."+name] = func(w *Worker, fr *Frame, a []Val) Val {
			return f(w, fr, a[0].obj().typ, a[1:])
		}
	}
	valueOf := func(w *Worker, v Val) rval {
		iv, _ := v.R.(*IfaceV)
		if iv == nil {
			return rval{}
		}
		return rval{t: iv.t, v: iv.v}
	}
	// functions
	fn("TypeOf", func(w *Worker, fr *Frame, a []Val) Val {
		r := valueOf(w, a[0])
		if r.t == nil {
			return Val{}
		}
		return w.rtypeIface(r.t)
	})
	fn("ValueOf", func(w *Worker, fr *Frame, a []Val) Val { return w.rpack(valueOf(w, a[0])) })
	for _, n := range []string{"PtrTo", "PointerTo"} {
		fn(n, func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewPointer(w.typeArg(fr, a[0]))) })
	}
	fn("SliceOf", func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewSlice(w.typeArg(fr, a[0]))) })
	fn("Indirect", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.runpack(a[0])
		if kindOf(r.t) != rkPtr {
			return a[0]
		}
		return w.rpack(w.relem(fr, r))
	})
	fn("New", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.typeArg(fr, a[0])
		return w.rpack(rval{t: types.NewPointer(t), v: Val{R: w.newObjT(t)}})
	})
	fn("Zero", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.typeArg(fr, a[0])
		return w.rpack(rval{t: t, v: w.zero(t)})
	})
	fn("MakeSlice", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.typeArg(fr, a[0])
		return w.rpack(rval{t: t, v: w.makeSliceOf(fr, t, w.cint(a[1]), w.cint(a[2]))})
	})
	for _, n := range []string{"MakeMap", "MakeMapWithSize"} {
		fn(n, func(w *Worker, fr *Frame, a []Val) Val {
			t := w.typeArg(fr, a[0])
			return w.rpack(rval{t: t, v: w.newMap(t)})
		})
	}
	fn("AppendSlice", func(w *Worker, fr *Frame, a []Val) Val {
		s, x := w.runpack(a[0]), w.runpack(a[1])
		if kindOf(s.t) != rkSlice {
			w.rbad(fr, "AppendSlice", s)
		}
		sv, xv := w.rget(s), w.rget(x)
		n, m := slen(sv), slen(xv)
		out := w.rappend(fr, s.t, sv, m)
		if m > 0 {
			k := w.lay.of(s.t.Underlying().(*types.Slice).Elem()).n
			w.copyCells(out.obj(), int(out.N)+n*k, xv.obj(), int(xv.N), m*k)
		}
		return w.rpack(rval{t: s.t, v: out, f: s.f & rvRO})
	})
	fn("Append", func(w *Worker, fr *Frame, a []Val) Val {
		s := w.runpack(a[0])
		if kindOf(s.t) != rkSlice {
			w.rbad(fr, "Append", s)
		}
		sv := w.rget(s)
		n, m := slen(sv), slen(a[1])
		out := w.rappend(fr, s.t, sv, m)
		et := s.t.Underlying().(*types.Slice).Elem()
		lay := w.lay.of(et)
		for i := 0; i < m; i++ {
			x := w.runpack(Val{R: a[1].obj().cells[int(a[1].N)+3*i : int(a[1].N)+3*i+3]})
			w.store(out.obj(), int(out.N)+(n+i)*lay.n, lay, w.rassign(fr, x, et, "reflect.Append"))
		}
		return w.rpack(rval{t: s.t, v: out, f: s.f & rvRO})
	})
	fn("Copy", func(w *Worker, fr *Frame, a []Val) Val {
		d, s := w.runpack(a[0]), w.runpack(a[1])
		if kindOf(d.t) != rkSlice || kindOf(s.t) != rkSlice {
			w.unsup("reflect.Copy of arrays")
		}
		dv, sv := w.rget(d), w.rget(s)
		n := slen(dv)
		if slen(sv) < n {
			n = slen(sv)
		}
		if n > 0 {
			k := w.lay.of(d.t.Underlying().(*types.Slice).Elem()).n
			w.copyCells(dv.obj(), int(dv.N), sv.obj(), int(sv.N), n*k)
		}
		return vint(n)
	})
	// reflect.Type
	tm("Kind", func(w *Worker, fr *Frame, t types.Type, a []Val) Val { return vint(kindOf(t)) })
	tm("Elem", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return w.rtypeIface(e.Elem())
		}
		w.rtPanic(fr, nil, "reflect: Elem of invalid type %v", t)
		return Val{}
	})
	tm("Key", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			w.rtPanic(fr, nil, "reflect: Key of non-map type %v", t)
		}
		return w.rtypeIface(m.Key())
	})
	tm("Len", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		m, ok := t.Underlying().(*types.Array)
		if !ok {
			w.rtPanic(fr, nil, "reflect: Len of non-array type %v", t)
		}
		return vint(int(m.Len()))
	})
	tm("NumField", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			w.rtPanic(fr, nil, "reflect: NumField of non-struct type %v", t)
		}
		return vint(st.NumFields())
	})
	tm("Field", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		st, ok := t.Underlying().(*types.Struct)
		i := w.cint(a[0])
		if !ok || i < 0 || i >= st.NumFields() {
			w.rtPanic(fr, nil, "reflect: Field index out of bounds")
		}
		return w.structField(st, i)
	})
	tm("FieldByName", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			w.rtPanic(fr, nil, "reflect: FieldByName of non-struct type %v", t)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Anonymous() {
				w.unsup("FieldByName with embedded fields")
			}
			if w.isTrue(w.eqStr(w.newStr(st.Field(i).Name()), a[0])) {
				return ret(w.structField(st, i), Val{N: 1})
			}
		}
		return ret(w.zero(w.eng.namedType("reflect", "StructField")), Val{})
	})
	tm("Implements", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		it, ok := w.typeArg(fr, a[0]).Underlying().(*types.Interface)
		if !ok {
			w.rtPanic(fr, nil, "reflect: non-interface type passed to Type.Implements")
		}
		return Val{N: b2u(w.implements(t, it))}
	})
	tm("AssignableTo", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		return Val{N: b2u(types.AssignableTo(t, w.typeArg(fr, a[0])))}
	})
	tm("ConvertibleTo", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		return Val{N: b2u(types.ConvertibleTo(t, w.typeArg(fr, a[0])))}
	})
	tm("Comparable", func(w *Worker, fr *Frame, t types.Type, a []Val) Val { return Val{N: b2u(types.Comparable(t))} })
	tm("Size", func(w *Worker, fr *Frame, t types.Type, a []Val) Val { return vint(int(stdSizes.Sizeof(t))) })
	tm("Bits", func(w *Worker, fr *Frame, t types.Type, a []Val) Val { return vint(int(stdSizes.Sizeof(t)) * 8) })
	tm("Name", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return w.newStr(n.Obj().Name())
		case *types.Basic:
			return w.newStr(n.Name())
		}
		return Val{}
	})
	tm("String", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		return w.newStr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	tm("PkgPath", func(w *Worker, fr *Frame, t types.Type, a []Val) Val {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return w.newStr(n.Obj().Pkg().Path())
		}
		return Val{}
	})
	// reflect.Value
	vm("IsValid", func(w *Worker, fr *Frame, r rval, a []Val) Val { return Val{N: b2u(r.t != nil)} })
	vm("Kind", func(w *Worker, fr *Frame, r rval, a []Val) Val { return vint(kindOf(r.t)) })
	vm("Type", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if r.t == nil {
			w.rbad(fr, "Type", r)
		}
		return w.rtypeIface(r.t)
	})
	need := func(w *Worker, fr *Frame, m string, r rval) {
		if r.t == nil {
			w.rbad(fr, m, r)
		}
	}
	vm("Elem", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		need(w, fr, "Elem", r)
		return w.rpack(w.relem(fr, r))
	})
	vm("Field", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		need(w, fr, "Field", r)
		return w.rpack(w.rfield(fr, r, w.cint(a[0])))
	})
	vm("FieldByName", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.rbad(fr, "FieldByName", r)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Anonymous() {
				w.unsup("FieldByName with embedded fields")
			}
			if w.isTrue(w.eqStr(w.newStr(st.Field(i).Name()), a[0])) {
				return w.rpack(w.rfield(fr, r, i))
			}
		}
		return w.rpack(rval{})
	})
	vm("NumField", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		need(w, fr, "NumField", r)
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.rbad(fr, "NumField", r)
		}
		return vint(st.NumFields())
	})
	vm("Index", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		need(w, fr, "Index", r)
		return w.rpack(w.rindex(fr, r, w.cint(a[0])))
	})
	vm("Len", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		switch kindOf(r.t) {
		case rkSlice, rkString:
			return vint(slen(w.rget(r)))
		case rkArray:
			return vint(int(r.t.Underlying().(*types.Array).Len()))
		case rkMap:
			return vint(len(w.rliveKeys(w.rget(r))))
		}
		w.rbad(fr, "Len", r)
		return Val{}
	})
	vm("Cap", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		switch kindOf(r.t) {
		case rkSlice:
			return vint(scap(w.rget(r)))
		case rkArray:
			return vint(int(r.t.Underlying().(*types.Array).Len()))
		}
		w.rbad(fr, "Cap", r)
		return Val{}
	})
	vm("Slice", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		i, j := w.cint(a[0]), w.cint(a[1])
		switch kindOf(r.t) {
		case rkSlice:
			s := w.rget(r)
			if i < 0 || j < i || j > scap(s) {
				w.rtPanic(fr, nil, "reflect.Value.Slice: slice index out of bounds")
			}
			if s.R == nil {
				return w.rpack(rval{t: r.t, f: r.f & rvRO})
			}
			k := w.lay.of(r.t.Underlying().(*types.Slice).Elem()).n
			return w.rpack(rval{t: r.t, v: mkSlice(s.obj(), int(s.N)+i*k, j-i, scap(s)-i), f: r.f & rvRO})
		case rkString:
			s := w.rget(r)
			if i < 0 || j < i || j > slen(s) {
				w.rtPanic(fr, nil, "reflect.Value.Slice: string slice index out of bounds")
			}
			if i == j {
				return w.rpack(rval{t: r.t, f: r.f & rvRO})
			}
			return w.rpack(rval{t: r.t, v: mkStr(s.obj(), int(s.N)+i, j-i), f: r.f & rvRO})
		case rkArray:
			w.unsup("reflect.Value.Slice of an array")
		}
		w.rbad(fr, "Slice", r)
		return Val{}
	})
	vm("Set", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		need(w, fr, "Set", r)
		w.rset(fr, "Set", r, w.rassign(fr, w.runpack(a[0]), r.t, "reflect.Set"))
		return Val{}
	})
	scalarSet := func(name string, lo, hi int, conv func(w *Worker, k int, v Val) Val) {
		vm(name, func(w *Worker, fr *Frame, r rval, a []Val) Val {
			k := kindOf(r.t)
			if k == rkInvalid || r.f&rvIndirect == 0 || r.f&rvRO != 0 {
				w.rset(fr, name, r, Val{}) // panics
			}
			if k < lo || k > hi {
				w.rbad(fr, name, r)
			}
			w.rset(fr, name, r, conv(w, k, a[0]))
			return Val{}
		})
	}
	width := func(k int) uint16 {
		switch k {
		case rkInt8, rkUint8:
			return 8
		case rkInt16, rkUint16:
			return 16
		case rkInt32, rkUint32, rkFloat32:
			return 32
		}
		return 64
	}
	narrow := func(w *Worker, k int, v Val) Val {
		if n := width(k); n < 64 {
			return w.fromT(w.tb.Extract(w.tm(v, 64), n-1, 0))
		}
		return v
	}
	same := func(w *Worker, k int, v Val) Val { return v }
	scalarSet("SetInt", rkInt, rkInt64, narrow)
	scalarSet("SetUint", rkUint, rkUintptr, narrow)
	scalarSet("SetBool", rkBool, rkBool, same)
	scalarSet("SetString", rkString, rkString, same)
	scalarSet("SetFloat", rkFloat32, rkFloat64, func(w *Worker, k int, v Val) Val {
		if k == rkFloat32 {
			return w.fromT(w.tb.Cvt(OFCvt, w.tm(v, 64), 32))
		}
		return v
	})
	vm("SetBytes", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkSlice || kindOf(r.t.Underlying().(*types.Slice).Elem()) != rkUint8 {
			w.rbad(fr, "SetBytes", r)
		}
		w.rset(fr, "SetBytes", r, a[0])
		return Val{}
	})
	vm("SetLen", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkSlice {
			w.rbad(fr, "SetLen", r)
		}
		s, n := w.rget(r), w.cint(a[0])
		if n < 0 || n > scap(s) {
			w.rtPanic(fr, nil, "reflect: slice length out of range in SetLen")
		}
		if s.R != nil {
			s = mkSlice(s.obj(), int(s.N), n, scap(s))
		}
		w.rset(fr, "SetLen", r, s)
		return Val{}
	})
	vm("Int", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		k := kindOf(r.t)
		if k < rkInt || k > rkInt64 {
			w.rbad(fr, "Int", r)
		}
		return w.fromT(w.tb.Sext(w.tm(w.rget(r), width(k)), 64))
	})
	vm("Uint", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		k := kindOf(r.t)
		if k < rkUint || k > rkUintptr {
			w.rbad(fr, "Uint", r)
		}
		return w.fromT(w.tb.Zext(w.tm(w.rget(r), width(k)), 64))
	})
	vm("Float", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		switch kindOf(r.t) {
		case rkFloat64:
			return w.rget(r)
		case rkFloat32:
			return w.fromT(w.tb.Cvt(OFCvt, w.tm(w.rget(r), 32), 64))
		}
		w.rbad(fr, "Float", r)
		return Val{}
	})
	vm("Bool", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkBool {
			w.rbad(fr, "Bool", r)
		}
		return w.rget(r)
	})
	vm("String", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if r.t == nil {
			return w.newStr("<invalid Value>")
		}
		if kindOf(r.t) == rkString {
			return w.rget(r)
		}
		return w.newStr("<" + types.TypeString(r.t, func(p *types.Package) string { return p.Name() }) + " Value>")
	})
	vm("Bytes", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkSlice || kindOf(r.t.Underlying().(*types.Slice).Elem()) != rkUint8 {
			w.rbad(fr, "Bytes", r)
		}
		return w.rget(r)
	})
	vm("IsNil", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		switch kindOf(r.t) {
		case rkPtr, rkMap, rkSlice, rkInterface, rkFunc, rkChan, rkUnsafePointer:
			return Val{N: b2u(w.rget(r).R == nil)}
		}
		w.rbad(fr, "IsNil", r)
		return Val{}
	})
	vm("IsZero", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		need(w, fr, "IsZero", r)
		switch k := kindOf(r.t); {
		case k == rkSlice || k == rkMap || k == rkFunc || k == rkInterface:
			return Val{N: b2u(w.rget(r).R == nil)}
		case k >= rkFloat32 && k <= rkArray || k == rkStruct:
			w.unsup("reflect.Value.IsZero of %v", r.t)
		}
		return w.fromT(w.eqVal(r.t, w.rget(r), w.zero(r.t)))
	})
	vm("CanInterface", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if r.t == nil {
			w.rtPanic(fr, nil, "reflect: call of reflect.Value.CanInterface on zero Value")
		}
		return Val{N: b2u(r.f&rvRO == 0)}
	})
	vm("CanSet", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		return Val{N: b2u(r.f&(rvRO|rvIndirect) == rvIndirect)}
	})
	vm("CanAddr", func(w *Worker, fr *Frame, r rval, a []Val) Val { return Val{N: b2u(r.f&rvIndirect != 0)} })
	vm("Addr", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if r.f&rvIndirect == 0 {
			w.rtPanic(fr, nil, "reflect.Value.Addr of unaddressable value")
		}
		return w.rpack(rval{t: types.NewPointer(r.t), v: r.v, f: r.f & rvRO})
	})
	vm("Interface", func(w *Worker, fr *Frame, r rval, a []Val) Val { return w.rinterface(fr, r) })
	valSlice := func(w *Worker, rs []rval) Val {
		lay := w.lay.of(w.eng.namedType("reflect", "Value"))
		o := w.newObj(lay, len(rs), nil)
		for i, r := range rs {
			for k, c := range w.rpack(r).R.([]Val) {
				o.put(i*lay.n+k, c)
			}
		}
		return mkSlice(o, 0, len(rs), len(rs))
	}
	vm("MapKeys", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkMap {
			w.rbad(fr, "MapKeys", r)
		}
		mv := w.rget(r)
		var ks []rval
		for _, i := range w.rliveKeys(mv) {
			m := mv.R.(*MapV)
			ks = append(ks, rval{t: m.kt, v: m.keys[i], f: r.f & rvRO})
		}
		return valSlice(w, ks)
	})
	vm("MapIndex", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkMap {
			w.rbad(fr, "MapIndex", r)
		}
		m, _ := w.rget(r).R.(*MapV)
		mt := r.t.Underlying().(*types.Map)
		k := w.runpack(a[0])
		k.f &^= rvRO
		kv := w.rassign(fr, k, mt.Key(), "reflect.Value.MapIndex")
		if m == nil {
			return w.rpack(rval{})
		}
		i := w.mapFind(m, kv)
		if i < 0 {
			return w.rpack(rval{})
		}
		return w.rpack(rval{t: mt.Elem(), v: m.vals[i], f: r.f & rvRO})
	})
	vm("SetMapIndex", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkMap {
			w.rbad(fr, "SetMapIndex", r)
		}
		m, _ := w.rget(r).R.(*MapV)
		mt := r.t.Underlying().(*types.Map)
		kv := w.rassign(fr, w.runpack(a[0]), mt.Key(), "reflect.Value.SetMapIndex")
		x := w.runpack(a[1])
		if m == nil {
			w.rtPanic(fr, nil, "assignment to entry in nil map")
		}
		if x.t == nil {
			w.mapDelete(m, kv)
		} else {
			w.mapSet(m, kv, w.rassign(fr, x, mt.Elem(), "reflect.Value.SetMapIndex"))
		}
		return Val{}
	})
	type mapIter struct {
		m    *MapV
		ro   uint64
		left []int
		cur  int
	}
	vm("MapRange", func(w *Worker, fr *Frame, r rval, a []Val) Val {
		if kindOf(r.t) != rkMap {
			w.rbad(fr, "MapRange", r)
		}
		o := w.newObjT(w.eng.namedType("reflect", "MapIter"))
		mv := w.rget(r)
		m, _ := mv.R.(*MapV)
		w.side[fmt.Sprintf("mapiter:%p", o)] = &mapIter{m: m, ro: r.f & rvRO, left: w.rliveKeys(mv), cur: -1}
		return Val{R: o}
	})
	iter := func(name string, f func(w *Worker, fr *Frame, it *mapIter) Val) {
		intrinsics["(*reflect.MapIter)."+name] = func(w *Worker, fr *Frame, a []Val) Val {
			it, ok := w.side[fmt.Sprintf("mapiter:%p", a[0].obj())].(*mapIter)
			if !ok {
				w.unsup("reflect.MapIter without MapRange")
			}
			return f(w, fr, it)
		}
	}
	iter("Next", func(w *Worker, fr *Frame, it *mapIter) Val {
		for len(it.left) > 0 {
			it.cur, it.left = it.left[0], it.left[1:]
			if !it.m.dead[it.cur] {
				return Val{N: 1}
			}
		}
		it.cur = -1
		return Val{}
	})
	iter("Key", func(w *Worker, fr *Frame, it *mapIter) Val {
		if it.cur < 0 {
			w.rtPanic(fr, nil, "MapIter.Key called before Next")
		}
		return w.rpack(rval{t: it.m.kt, v: it.m.keys[it.cur], f: it.ro})
	})
	iter("Value", func(w *Worker, fr *Frame, it *mapIter) Val {
		if it.cur < 0 {
			w.rtPanic(fr, nil, "MapIter.Value called before Next")
		}
		return w.rpack(rval{t: it.m.vt, v: it.m.vals[it.cur], f: it.ro})
	})
	// sync.Map, as one goroutine sees it
	sm := func(name string, f func(w *Worker, fr *Frame, m *MapV, a []Val) Val) {
		intrinsics["(*sync.Map)."+name] = func(w *Worker, fr *Frame, a []Val) Val { return f(w, fr, w.syncMap(a[0]), a[1:]) }
	}
	sm("Load", func(w *Worker, fr *Frame, m *MapV, a []Val) Val {
		if i := w.mapFind(m, a[0]); i >= 0 {
			return ret(m.vals[i], Val{N: 1})
		}
		return ret(Val{}, Val{})
	})
	sm("Store", func(w *Worker, fr *Frame, m *MapV, a []Val) Val { w.mapSet(m, a[0], a[1]); return Val{} })
	sm("Delete", func(w *Worker, fr *Frame, m *MapV, a []Val) Val { w.mapDelete(m, a[0]); return Val{} })
	sm("LoadOrStore", func(w *Worker, fr *Frame, m *MapV, a []Val) Val {
		if i := w.mapFind(m, a[0]); i >= 0 {
			return ret(m.vals[i], Val{N: 1})
		}
		w.mapSet(m, a[0], a[1])
		return ret(a[1], Val{})
	})
	sm("Range", func(w *Worker, fr *Frame, m *MapV, a []Val) Val {
		for _, i := range w.rliveKeys(Val{R: m}) {
			if !w.isTrue(w.tm(w.callVal(a[0], []Val{m.keys[i], m.vals[i]}, fr, nil), 0)) {
				break
			}
		}
		return Val{}
	})
}
