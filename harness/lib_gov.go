package dxsvalue

import "time"

// Go values with symbolic content, paired with the reference tree they denote.

type gvInt int16
type gvUint uint32
type gvStr string
type gvBool bool
type gvF32 float32
type gvF64 float64

func gvFloat64() float64 {
	f := vxF64()
	vxAssume(f == f)
	return f
}

func gvFloat32() float32 {
	f := vxF32()
	vxAssume(f == f)
	return f
}

// gvTime is an instant with a whole number of milliseconds, 1971 to 2099.
func gvTime() (time.Time, *vxNode) {
	s := vxI64()
	vxAssume(vxAnd(s >= 31536000, s <= 4070908800))
	ms := vxI64()
	vxAssume(vxAnd(ms >= 0, ms <= 999))
	return vxZoned(time.Unix(s, ms*1000000)), &vxNode{k: nkTime, i: s, bits: uint64(ms * 1000000)}
}

func gvB(b bool) *vxNode {
	if b {
		return nKind(nkTrue)
	}
	return nKind(nkFalse)
}

func gvD(f float64) *vxNode { return &vxNode{k: nkDouble, bits: vxF64bits(f)} }
func gvF(f float32) *vxNode { return &vxNode{k: nkFloat, bits: uint64(vxF32bits(f))} }
func gvBin(b []byte) *vxNode {
	return &vxNode{k: nkBinary, s: string(b)}
}

const gvKinds = 15

// gvScalar makes a value of the i-th scalar type, directly or behind a pointer.
func gvScalar(i int, ptr bool) (interface{}, *vxNode) {
	switch i {
	case 0:
		x := int(vxI64())
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 1:
		x := int8(vxByte())
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 2:
		x := int16(vxU16())
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 3:
		x := vxI32()
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 4:
		x := vxI64()
		if ptr {
			return &x, nInt(x)
		}
		return x, nInt(x)
	case 5:
		x := uint(vxU64())
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 6:
		x := vxByte()
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 7:
		x := vxU16()
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 8:
		x := vxU32()
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 9:
		x := vxU64()
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 10:
		x := gvFloat32()
		if ptr {
			return &x, gvF(x)
		}
		return x, gvF(x)
	case 11:
		x := gvFloat64()
		if ptr {
			return &x, gvD(x)
		}
		return x, gvD(x)
	case 12:
		x := vxStr(vxChoose(3 + 2*vxTier()))
		if ptr {
			return &x, nStr(x)
		}
		return x, nStr(x)
	case 13:
		x := vxBool()
		if ptr {
			return &x, gvB(x)
		}
		return x, gvB(x)
	}
	x := vxBytes(vxChoose(3 + 2*vxTier()))
	if ptr {
		return &x, gvBin(x)
	}
	return x, gvBin(x)
}

// gvNamed makes a value of a named scalar type.
func gvNamed(i int, ptr bool) (interface{}, *vxNode) {
	switch i {
	case 0:
		x := gvInt(vxU16())
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 1:
		x := gvUint(vxU32())
		if ptr {
			return &x, nInt(int64(x))
		}
		return x, nInt(int64(x))
	case 2:
		x := gvStr(vxStr(vxChoose(3)))
		if ptr {
			return &x, nStr(string(x))
		}
		return x, nStr(string(x))
	case 3:
		x := gvBool(vxBool())
		if ptr {
			return &x, gvB(bool(x))
		}
		return x, gvB(bool(x))
	case 4:
		x := gvF32(gvFloat32())
		if ptr {
			return &x, gvF(float32(x))
		}
		return x, gvF(float32(x))
	}
	x := gvF64(gvFloat64())
	if ptr {
		return &x, gvD(float64(x))
	}
	return x, gvD(float64(x))
}

// gvNil makes a nil: the nil interface or a nil pointer.
func gvNil(i int) interface{} {
	switch i {
	case 0:
		return nil
	case 1:
		return (*int)(nil)
	case 2:
		return (*string)(nil)
	case 3:
		return (*bool)(nil)
	case 4:
		return (*time.Time)(nil)
	case 5:
		return (*float64)(nil)
	case 6:
		return (*uint8)(nil)
	case 7:
		return (*[]byte)(nil)
	case 8:
		return (*map[string]interface{})(nil)
	case 9:
		return (*gvInt)(nil)
	case 10:
		return (*[]string)(nil)
	}
	return (*DxValue)(nil)
}

// gvFew is an element for containers of interface values.
func gvFew() (interface{}, *vxNode) {
	switch vxChoose(5) {
	case 0:
		return nil, nKind(nkNull)
	case 1:
		x := vxI64()
		return x, nInt(x)
	case 2:
		x := vxStr(vxChoose(2))
		return x, nStr(x)
	case 3:
		x := vxU16()
		return &x, nInt(int64(x))
	}
	x := vxBool()
	return x, gvB(x)
}

// gvHas asserts that v reads back as n; members are looked up by name.
func gvHas(v *DxValue, n *vxNode, l string) {
	vxAssert(v != nil, l+": value present")
	switch n.k {
	case nkObject:
		vxAssert(v.DataType == VT_Object, l+": kind object")
		vxAssert(v.Count() == len(n.kids), l+": member count")
		for i := range n.kids {
			gvHas(v.ValueByName(n.keys[i]), n.kids[i], l)
		}
	case nkArray:
		vxAssert(v.DataType == VT_Array, l+": kind array")
		vxAssert(v.Count() == len(n.kids), l+": element count")
		for i := range n.kids {
			gvHas(v.ValueByIndex(i), n.kids[i], l)
		}
	default:
		vxHas(v, n, l)
	}
}

const gvWidths = 15

// gvMapOf makes a map, by value or by pointer, of the i-th scalar type.
func gvMapOf(i int, ptr bool, k string) (interface{}, *vxNode) {
	switch i {
	case 0:
		a := int(vxI64())
		m := map[string]int{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 1:
		a := int8(vxByte())
		m := map[string]int8{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 2:
		a := int16(vxU16())
		m := map[string]int16{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 3:
		a := vxI32()
		m := map[string]int32{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 4:
		a := vxI64()
		m := map[string]int64{k: a}
		if ptr {
			return &m, nObj1(k, nInt(a))
		}
		return m, nObj1(k, nInt(a))
	case 5:
		a := uint(vxU64())
		m := map[string]uint{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 6:
		a := vxByte()
		m := map[string]uint8{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 7:
		a := vxU16()
		m := map[string]uint16{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 8:
		a := vxU32()
		m := map[string]uint32{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 9:
		a := vxU64()
		m := map[string]uint64{k: a}
		if ptr {
			return &m, nObj1(k, nInt(int64(a)))
		}
		return m, nObj1(k, nInt(int64(a)))
	case 10:
		a := gvFloat32()
		m := map[string]float32{k: a}
		if ptr {
			return &m, nObj1(k, gvF(a))
		}
		return m, nObj1(k, gvF(a))
	case 11:
		a := gvFloat64()
		m := map[string]float64{k: a}
		if ptr {
			return &m, nObj1(k, gvD(a))
		}
		return m, nObj1(k, gvD(a))
	case 12:
		a := vxStr(1)
		m := map[string]string{k: a}
		if ptr {
			return &m, nObj1(k, nStr(a))
		}
		return m, nObj1(k, nStr(a))
	case 13:
		a := vxBool()
		m := map[string]bool{k: a}
		if ptr {
			return &m, nObj1(k, gvB(a))
		}
		return m, nObj1(k, gvB(a))
	case 14:
		a := vxBytes(1)
		m := map[string][]byte{k: a}
		if ptr {
			return &m, nObj1(k, gvBin(a))
		}
		return m, nObj1(k, gvBin(a))
	}
	return nil, nil
}

// gvSliceOf makes a slice, by value or by pointer, of the i-th scalar type.
func gvSliceOf(i int, ptr bool) (interface{}, *vxNode) {
	switch i {
	case 0:
		a, b := int(vxI64()), int(vxI64())
		s := []int{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 1:
		a, b := int8(vxByte()), int8(vxByte())
		s := []int8{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 2:
		a, b := int16(vxU16()), int16(vxU16())
		s := []int16{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 3:
		a, b := vxI32(), vxI32()
		s := []int32{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 4:
		a, b := vxI64(), vxI64()
		s := []int64{a, b}
		if ptr {
			return &s, nArr(nInt(a), nInt(b))
		}
		return s, nArr(nInt(a), nInt(b))
	case 5:
		a, b := uint(vxU64()), uint(vxU64())
		s := []uint{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 6:
		s := [][]uint16{{vxU16()}}
		if ptr {
			return &s, nArr(nArr(nInt(int64(s[0][0]))))
		}
		return s, nArr(nArr(nInt(int64(s[0][0]))))
	case 7:
		a, b := vxU16(), vxU16()
		s := []uint16{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 8:
		a, b := vxU32(), vxU32()
		s := []uint32{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 9:
		a, b := vxU64(), vxU64()
		s := []uint64{a, b}
		if ptr {
			return &s, nArr(nInt(int64(a)), nInt(int64(b)))
		}
		return s, nArr(nInt(int64(a)), nInt(int64(b)))
	case 10:
		a, b := gvFloat32(), gvFloat32()
		s := []float32{a, b}
		if ptr {
			return &s, nArr(gvF(a), gvF(b))
		}
		return s, nArr(gvF(a), gvF(b))
	case 11:
		a, b := gvFloat64(), gvFloat64()
		s := []float64{a, b}
		if ptr {
			return &s, nArr(gvD(a), gvD(b))
		}
		return s, nArr(gvD(a), gvD(b))
	case 12:
		a, b := vxStr(1), vxStr(1)
		s := []string{a, b}
		if ptr {
			return &s, nArr(nStr(a), nStr(b))
		}
		return s, nArr(nStr(a), nStr(b))
	case 13:
		a, b := vxBool(), vxBool()
		s := []bool{a, b}
		if ptr {
			return &s, nArr(gvB(a), gvB(b))
		}
		return s, nArr(gvB(a), gvB(b))
	case 14:
		a, b := vxBytes(1), vxBytes(1)
		s := [][]byte{a, b}
		if ptr {
			return &s, nArr(gvBin(a), gvBin(b))
		}
		return s, nArr(gvBin(a), gvBin(b))
	}
	return nil, nil
}

// vxZoned is the instant in some location: the local one, UTC, or one at any
// whole number of seconds east or west of it.
func vxZoned(t time.Time) time.Time {
	switch vxChoose(3) {
	case 0:
		return t
	case 1:
		return t.UTC()
	}
	off := vxI32()
	vxAssume(vxAnd(off > -64800, off < 64800))
	return t.In(time.FixedZone("zone", int(off)))
}
