package main

import (
	"fmt"
	"go/types"
)

// Memory is flattened into cells: every Go type is a list of leaves; scalars,
// pointers, string/slice headers, interfaces, maps and funcs are one cell each,
// structs and arrays are the concatenation of their parts.

type LK uint8

const (
	LInt LK = iota // ints and floats (bit patterns) of width w
	LBool
	LPtr
	LSlice
	LStr
	LIface
	LMap
	LChan
	LFunc
)

type Leaf struct {
	k LK
	w uint16
}

type Layout struct {
	n       int
	size    int64
	leaves  []Leaf
	boff    []int64
	fields  []int // struct: cell offset of each field
	allByte bool
	scalar  bool // single non-aggregate leaf
}

var stdSizes = types.SizesFor("gc", "amd64")

type layouts struct {
	m map[types.Type]*Layout
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func (l *layouts) of(t types.Type) *Layout {
	if x, ok := l.m[t]; ok {
		return x
	}
	x := l.build(t)
	l.m[t] = x
	return x
}

func basicWidth(b *types.Basic) uint16 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return 0
}

func (l *layouts) build(t types.Type) *Layout {
	one := func(k LK, w uint16) *Layout {
		return &Layout{n: 1, size: stdSizes.Sizeof(t), leaves: []Leaf{{k, w}}, boff: []int64{0}, allByte: k == LInt && w == 8, scalar: true}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return &Layout{n: 1, size: 8, leaves: []Leaf{{LPtr, 0}}, boff: []int64{0}, scalar: true}
		case u.Info()&types.IsString != 0:
			return &Layout{n: 1, size: 16, leaves: []Leaf{{LStr, 0}}, boff: []int64{0}, scalar: true}
		case u.Info()&types.IsBoolean != 0:
			return &Layout{n: 1, size: 1, leaves: []Leaf{{LBool, 0}}, boff: []int64{0}, scalar: true}
		case u.Info()&types.IsComplex != 0:
			// two float cells; no arithmetic supported
			w := uint16(64)
			if u.Kind() == types.Complex64 {
				w = 32
			}
			return &Layout{n: 2, size: int64(w / 4), leaves: []Leaf{{LInt, w}, {LInt, w}}, boff: []int64{0, int64(w / 8)}}
		}
		if w := basicWidth(u); w != 0 {
			return &Layout{n: 1, size: int64(w / 8), leaves: []Leaf{{LInt, w}}, boff: []int64{0}, allByte: w == 8, scalar: true}
		}
	case *types.Pointer:
		return one(LPtr, 0)
	case *types.Slice:
		return one(LSlice, 0)
	case *types.Interface:
		return one(LIface, 0)
	case *types.Map:
		return one(LMap, 0)
	case *types.Chan:
		return one(LChan, 0)
	case *types.Signature:
		return one(LFunc, 0)
	case *types.Struct:
		r := &Layout{size: stdSizes.Sizeof(t), allByte: true}
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := stdSizes.Offsetsof(fs)
		for i, f := range fs {
			fl := l.of(f.Type())
			r.fields = append(r.fields, r.n)
			r.leaves = append(r.leaves, fl.leaves...)
			for _, o := range fl.boff {
				r.boff = append(r.boff, offs[i]+o)
			}
			r.n += fl.n
			r.allByte = r.allByte && fl.allByte
		}
		if r.n == 0 {
			r.allByte = false
		}
		return r
	case *types.Array:
		el := l.of(u.Elem())
		n := int(u.Len())
		if n*el.n > 1<<21 {
			panic(unsupported{fmt.Sprintf("array too large %v", t)})
		}
		r := &Layout{n: n * el.n, size: stdSizes.Sizeof(t), allByte: el.allByte && n > 0}
		r.leaves = make([]Leaf, 0, r.n)
		r.boff = make([]int64, 0, r.n)
		for i := 0; i < n; i++ {
			r.leaves = append(r.leaves, el.leaves...)
			for _, o := range el.boff {
				r.boff = append(r.boff, int64(i)*el.size+o)
			}
		}
		return r
	case *types.Tuple:
		return &Layout{}
	}
	panic(unsupported{fmt.Sprintf("layout of %v", t)})
}
