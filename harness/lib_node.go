package dxsvalue

import "time"

// A reference value tree, independent of the library's own representation.

const (
	nkObject = iota
	nkArray
	nkString
	nkInt
	nkFloat
	nkDouble
	nkBinary
	nkExt
	nkNull
	nkTrue
	nkFalse
	nkTime
	nkNan
	nkInf
	nkTimeMs
)

type vxNode struct {
	k    int
	i    int64
	bits uint64
	s    string
	ext  byte
	keys []string
	kids []*vxNode
}

func nStr(s string) *vxNode        { return &vxNode{k: nkString, s: s} }
func nInt(i int64) *vxNode         { return &vxNode{k: nkInt, i: i} }
func nKind(k int) *vxNode          { return &vxNode{k: k} }
func nArr(kids ...*vxNode) *vxNode { return &vxNode{k: nkArray, kids: kids} }
func nObj1(k string, v *vxNode) *vxNode {
	return &vxNode{k: nkObject, keys: []string{k}, kids: []*vxNode{v}}
}
func nObj2(k1 string, v1 *vxNode, k2 string, v2 *vxNode) *vxNode {
	return &vxNode{k: nkObject, keys: []string{k1, k2}, kids: []*vxNode{v1, v2}}
}

func vxStr(n int) string { return string(vxBytes(n)) }

// vxScalarOf makes a scalar with symbolic content; strings and binaries have
// the given length.
func vxScalarOf(k, slen int) *vxNode {
	switch k {
	case nkString:
		return nStr(vxStr(slen))
	case nkInt:
		return nInt(vxI64())
	case nkFloat:
		return &vxNode{k: k, bits: uint64(vxU32())}
	case nkDouble:
		return &vxNode{k: k, bits: vxU64()}
	case nkBinary:
		return &vxNode{k: k, s: vxStr(slen)}
	case nkExt:
		return &vxNode{k: k, s: vxStr(slen), ext: vxByte()}
	}
	return &vxNode{k: k}
}

// vxScalar picks the kind of scalar (string, int, float, double, binary, ext,
// null, true, false) and leaves its content symbolic.
func vxScalar(maxlen int) *vxNode {
	k := nkString + vxChoose(9)
	l := 0
	if k == nkString || k == nkBinary || k == nkExt {
		l = vxChoose(maxlen + 1)
	}
	return vxScalarOf(k, l)
}

// vxFewScalar picks among fewer kinds (string, int, null, true).
func vxFewScalar(maxlen int) *vxNode {
	switch vxChoose(4) {
	case 0:
		return nStr(vxStr(vxChoose(maxlen + 1)))
	case 1:
		return nInt(vxI64())
	case 2:
		return nKind(nkNull)
	}
	return nKind(nkTrue)
}

// vxStore writes node n into key k (object) or the end (array) of p with the setters.
func vxPut(p *DxValue, key string, n *vxNode) {
	isObj := p.DataType == VT_Object
	var t *DxValue
	mk := func(tp ValueType) *DxValue {
		if isObj {
			return p.SetKey(key, tp)
		}
		return p.SetIndex(p.Count(), tp)
	}
	switch n.k {
	case nkString:
		if isObj {
			p.SetKeyString(key, n.s)
		} else {
			p.SetIndexString(p.Count(), n.s)
		}
	case nkInt:
		if isObj {
			p.SetKeyInt(key, n.i)
		} else {
			p.SetIndexInt(p.Count(), n.i)
		}
	case nkFloat:
		f := vxF32frombits(uint32(n.bits))
		if isObj {
			p.SetKeyFloat(key, f)
		} else {
			p.SetIndexFloat(p.Count(), f)
		}
	case nkDouble:
		f := vxF64frombits(n.bits)
		if isObj {
			p.SetKeyDouble(key, f)
		} else {
			p.SetIndexDouble(p.Count(), f)
		}
	case nkTrue, nkFalse:
		if isObj {
			p.SetKeyBool(key, n.k == nkTrue)
		} else {
			p.SetIndexBool(p.Count(), n.k == nkTrue)
		}
	case nkNull:
		mk(VT_NULL)
	case nkNan, nkInf:
		if isObj {
			p.SetKeyValue(key, vxBuild(n))
		} else {
			p.SetIndexValue(p.Count(), vxBuild(n))
		}
	case nkTime:
		mk(VT_DateTime).SetTime(time.Unix(n.i, int64(n.bits)))
	case nkBinary:
		mk(VT_Binary).SetBinary([]byte(n.s), true)
	case nkExt:
		t = mk(VT_ExBinary)
		t.SetExtType(n.ext)
		t.SetBinary([]byte(n.s), true)
	case nkObject:
		t = mk(VT_Object)
		for i := range n.kids {
			vxPut(t, n.keys[i], n.kids[i])
		}
	case nkArray:
		t = mk(VT_Array)
		for i := range n.kids {
			vxPut(t, "", n.kids[i])
		}
	}
}

// vxBuild makes the value for n through the public API.
func vxBuild(n *vxNode) *DxValue {
	var v *DxValue
	switch n.k {
	case nkObject:
		v = NewValue(VT_Object)
		for i := range n.kids {
			vxPut(v, n.keys[i], n.kids[i])
		}
	case nkArray:
		v = NewValue(VT_Array)
		for i := range n.kids {
			vxPut(v, "", n.kids[i])
		}
	case nkString:
		v = NewValue(VT_String)
		v.SetString(n.s)
	case nkInt:
		v = NewValue(VT_Int)
		v.SetInt(n.i)
	case nkFloat:
		v = NewValue(VT_Float)
		v.SetFloat(vxF32frombits(uint32(n.bits)))
	case nkDouble:
		v = NewValue(VT_Double)
		v.SetDouble(vxF64frombits(n.bits))
	case nkBinary:
		v = NewValue(VT_Binary)
		v.SetBinary([]byte(n.s), true)
	case nkExt:
		v = NewValue(VT_ExBinary)
		v.SetExtType(n.ext)
		v.SetBinary([]byte(n.s), true)
	case nkNull:
		v = NewValue(VT_NULL)
	case nkTrue:
		v = NewValue(VT_True)
	case nkFalse:
		v = NewValue(VT_False)
	case nkNan:
		v = NewValue(VT_NAN)
	case nkInf:
		v = NewValue(VT_INF)
	case nkTime:
		v = NewValue(VT_DateTime)
		v.SetTime(time.Unix(n.i, int64(n.bits)))
	}
	return v
}

// vxHas asserts that v reads back as n through the public accessors.
func vxHas(v *DxValue, n *vxNode, l string) {
	vxAssert(v != nil, l+": value present")
	vxAssert(v.Type() == v.DataType, l+": type")
	switch n.k {
	case nkObject:
		vxAssert(v.DataType == VT_Object, l+": kind object")
		vxAssert(v.Count() == len(n.kids), l+": member count")
		for i := range n.kids {
			k, x := v.Items(i)
			vxAssert(vxEq(k, n.keys[i]), l+": key")
			vxHas(x, n.kids[i], l)
		}
	case nkArray:
		vxAssert(v.DataType == VT_Array, l+": kind array")
		vxAssert(v.Count() == len(n.kids), l+": element count")
		for i := range n.kids {
			vxHas(v.ValueByIndex(i), n.kids[i], l)
		}
	case nkString:
		vxAssert(v.DataType == VT_String || v.DataType == VT_RawString, l+": kind string")
		vxAssert(vxEq(v.String(), n.s), l+": string content")
	case nkInt:
		vxAssert(v.DataType == VT_Int, l+": kind int")
		vxAssert(v.Int() == n.i, l+": int content")
	case nkFloat:
		vxAssert(v.DataType == VT_Float, l+": kind float")
		vxAssert(uint64(vxF32bits(v.Float())) == n.bits, l+": float content")
	case nkDouble:
		vxAssert(v.DataType == VT_Double, l+": kind double")
		vxAssert(vxF64bits(v.Double()) == n.bits, l+": double content")
	case nkBinary:
		vxAssert(v.DataType == VT_Binary, l+": kind binary")
		vxAssert(v.BinLen() == len(n.s), l+": binary length")
		vxAssert(vxEq(string(v.Binary()), n.s), l+": binary content")
	case nkExt:
		vxAssert(v.DataType == VT_ExBinary, l+": kind ext")
		vxAssert(v.BinExtType() == n.ext, l+": ext type")
		vxAssert(v.BinLen() == len(n.s), l+": ext length")
		vxAssert(vxEq(string(v.Binary()), n.s), l+": ext content")
	case nkNull:
		vxAssert(v.DataType == VT_NULL, l+": kind null")
	case nkTrue:
		vxAssert(v.DataType == VT_True, l+": kind true")
		vxAssert(v.Bool(), l+": true")
	case nkFalse:
		vxAssert(v.DataType == VT_False, l+": kind false")
		vxAssert(!v.Bool(), l+": false")
	case nkTime:
		vxAssert(v.DataType == VT_DateTime, l+": kind time")
		vxNear(v, n.i, n.bits, l)
	case nkTimeMs:
		vxAssert(v.DataType == VT_DateTime, l+": kind time")
		t := v.GoTime()
		d := t.Unix()*1000 + int64(t.Nanosecond())/1000000 - n.i
		vxAssert(vxAnd(d >= -2, d <= 2), l+": instant")
	case nkNan:
		vxAssert(v.DataType == VT_NAN || v.DataType == VT_Double && v.Double() != v.Double(), l+": nan")
	case nkInf:
		vxAssert(v.DataType == VT_INF || v.DataType == VT_Double && vxF64bits(v.Double()) == 0x7ff0000000000000, l+": inf")
	}
}

// vxTree picks a small tree: a scalar, or containers nested at most two deep.
func vxTree(maxlen int) *vxNode {
	switch vxChoose(9) {
	case 0:
		return vxScalar(maxlen)
	case 1:
		return nArr()
	case 2:
		return &vxNode{k: nkObject}
	case 3:
		return nArr(vxScalar(maxlen))
	case 4:
		return nObj1(vxStr(vxChoose(maxlen+1)), vxScalar(maxlen))
	case 5:
		return nArr(vxFewScalar(1), vxScalar(1))
	case 6:
		k1, k2 := vxStr(vxChoose(maxlen+1)), vxStr(vxChoose(maxlen+1))
		vxAssume(!vxEq(k1, k2))
		return nObj2(k1, vxFewScalar(1), k2, vxFewScalar(1))
	case 7:
		return nObj1(vxStr(1), nArr(vxFewScalar(1), nObj1(vxStr(1), vxScalar(1)), vxFewScalar(0)))
	}
	return nArr(nObj1(vxStr(1), vxFewScalar(1)), nArr(nArr(vxScalar(1)), &vxNode{k: nkObject}), vxFewScalar(0))
}

// vxPattern is a string of n bytes whose first, middle and last bytes are symbolic.
func vxPattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	if n > 0 {
		b[0] = vxByte()
		b[n-1] = vxByte()
	}
	if n > 2 {
		b[n/2] = vxByte()
	}
	return string(b)
}

// vxNear asserts that v is the given instant, to the precision of the library's
// date type (a float64 count of days: about a millisecond).
func vxNear(v *DxValue, sec int64, ns uint64, l string) {
	t := v.GoTime()
	ds, d := t.Unix()-sec, int64(t.Nanosecond())-int64(ns)
	near := func(x int64) bool { return vxAnd(x >= -501000, x <= 501000) }
	vxAssert(vxOr(vxAnd(ds == 0, near(d)), vxOr(vxAnd(ds == 1, near(d+1000000000)), vxAnd(ds == -1, near(d-1000000000)))), l+": instant")
}

// vxBuildNF builds a tree that holds nan/inf constants (stored as members).
func vxBuildNF(n *vxNode) *DxValue {
	switch n.k {
	case nkArray:
		v := NewValue(VT_Array)
		for i := range n.kids {
			v.SetIndexValue(i, vxBuildNF(n.kids[i]))
		}
		return v
	case nkObject:
		v := NewValue(VT_Object)
		for i := range n.kids {
			v.SetKeyValue(n.keys[i], vxBuildNF(n.kids[i]))
		}
		return v
	}
	return vxBuild(n)
}

// vxConst is one of the shared constants, or another fixed scalar.
func vxConst() *vxNode {
	return nKind([]int{nkNull, nkTrue, nkFalse, nkNan, nkInf}[vxChoose(5)])
}

// vxOdd is a leaf of a kind that vxScalar leaves out.
func vxOdd() *vxNode {
	switch vxChoose(4) {
	case 0:
		return nKind(nkNan)
	case 1:
		return nKind(nkInf)
	case 2:
		return &vxNode{k: nkTime, i: 1600000000, bits: 123000000}
	}
	return &vxNode{k: nkTime, i: []int64{-86400, 951782400, 4102444799}[vxChoose(3)]}
}
