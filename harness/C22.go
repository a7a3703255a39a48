package dxsvalue

import "time"

// Storing Go values gives the value tree they denote.

// c22put stores x at the root, under a new name or at the end of an array and
// checks it, and that what was there before is untouched.
func c22put(x interface{}, n *vxNode) {
	z := vxI64()
	switch vxChoose(5) {
	case 0:
		var v *DxValue
		switch vxChoose(5) {
		case 0:
			v = NewValue(VT_Int)
		case 1:
			v = vxBuild(nArr(nInt(z), nInt(2)))
		case 2:
			v = vxBuild(nObj1("z", nInt(z)))
		case 3:
			v = vxBuild(nStr("old"))
		case 4:
			v = NewValue(VT_Binary)
			v.SetBinary([]byte{1, 2, 3}, true)
		}
		v.SetValue(x)
		vxReach("stored")
		gvHas(v, n, "stored")
	case 1:
		v := vxBuild(nObj1("z", nInt(z)))
		v.SetKeyvalue("new", x, v.ValueCache())
		vxReach("stored")
		vxAssert(v.Count() == 2, "one member more")
		gvHas(v.ValueByName("new"), n, "stored under a name")
		vxHas(v.ValueByName("z"), nInt(z), "other member")
	case 2:
		v := vxBuild(nArr(nInt(z)))
		v.SetIndexvalue(1, x, v.ValueCache())
		vxReach("stored")
		vxAssert(v.Count() == 2, "one element more")
		gvHas(v.ValueByIndex(1), n, "stored at an index")
		vxHas(v.ValueByIndex(0), nInt(z), "other element")
	case 3:
		v := vxBuild(nObj2("k", c22old(), "z", nInt(z)))
		v.SetKeyvalue("k", x, v.ValueCache())
		vxReach("stored")
		vxAssert(v.Count() == 2, "member replaced")
		gvHas(v.ValueByName("k"), n, "stored over a scalar member")
		vxHas(v.ValueByName("z"), nInt(z), "other member")
	case 4:
		v := vxBuild(nArr(c22old(), nInt(z)))
		v.SetIndexvalue(0, x, v.ValueCache())
		vxReach("stored")
		vxAssert(v.Count() == 2, "element replaced")
		gvHas(v.ValueByIndex(0), n, "stored over a scalar element")
		vxHas(v.ValueByIndex(1), nInt(z), "other element")
	}
}

// c22old is a scalar that is replaced.
func c22old() *vxNode {
	switch vxChoose(4) {
	case 0:
		return nInt(7)
	case 1:
		return nStr("old")
	case 2:
		return nKind(nkTrue)
	}
	return nKind(nkNull)
}

func vhC22_scalars() {
	x, n := gvScalar(vxChoose(gvKinds), vxBool())
	c22put(x, n)
}

func vhC22_named() {
	x, n := gvNamed(vxChoose(6), vxBool())
	c22put(x, n)
}

func vhC22_nil() {
	c22put(gvNil(vxChoose(12)), nKind(nkNull))
}

func vhC22_time() {
	t, n := gvTime()
	if vxBool() {
		c22put(&t, n)
	} else {
		c22put(t, n)
	}
}

func vhC22_maps() {
	k := vxStr(vxChoose(2))
	k2 := vxStr(1)
	vxAssume(!vxEq(k, k2))
	two := func(a, b *vxNode) *vxNode { return nObj2(k, a, k2, b) }
	switch vxChoose(13) {
	case 0:
		c22put(map[string]interface{}(nil), &vxNode{k: nkObject})
	case 1:
		x, n := gvFew()
		y, m := gvFew()
		mp := map[string]interface{}{k: x, k2: y}
		if vxBool() {
			c22put(&mp, two(n, m))
		} else {
			c22put(mp, two(n, m))
		}
	case 2:
		a, b := vxStr(1), vxStr(1)
		mp := map[string]string{k: a, k2: b}
		if vxBool() {
			c22put(&mp, two(nStr(a), nStr(b)))
		} else {
			c22put(mp, two(nStr(a), nStr(b)))
		}
	case 3:
		a, b := vxI64(), vxI64()
		mp := map[string]int{k: int(a), k2: int(b)}
		if vxBool() {
			c22put(&mp, two(nInt(a), nInt(b)))
		} else {
			c22put(mp, two(nInt(a), nInt(b)))
		}
	case 4:
		a, b := vxBool(), vxBool()
		c22put(map[string]bool{k: a, k2: b}, two(gvB(a), gvB(b)))
	case 5:
		a, b := vxByte(), vxByte()
		c22put(map[string]uint8{k: a, k2: b}, two(nInt(int64(a)), nInt(int64(b))))
	case 6:
		a, b := gvFloat32(), gvFloat32()
		c22put(map[string]float32{k: a, k2: b}, two(gvF(a), gvF(b)))
	case 7:
		a := vxI32()
		c22put(map[string]*int32{k: &a, k2: nil}, two(nInt(int64(a)), nKind(nkNull)))
	case 8:
		a, b := vxStr(1), vxBytes(2)
		mp := map[string]map[string][]byte{k: {a: b}, k2: nil}
		c22put(mp, two(nObj1(a, gvBin(b)), &vxNode{k: nkObject}))
	case 9:
		a := gvStr(vxStr(1))
		mp := map[gvStr]gvStr{gvStr(k): a}
		if vxBool() {
			c22put(&mp, nObj1(k, nStr(string(a))))
		} else {
			c22put(mp, nObj1(k, nStr(string(a))))
		}
	case 10:
		a, b := vxI64(), gvFloat64()
		c22put(map[string][]int64{k: {a}, k2: {}}, two(nArr(nInt(a)), nArr()))
		_ = b
	case 11:
		mp := map[string]int64{}
		if vxBool() {
			c22put(&mp, &vxNode{k: nkObject})
		} else {
			c22put(mp, &vxNode{k: nkObject})
		}
	case 12:
		b := gvFloat64()
		c22put(map[string]float64{k: b}, nObj1(k, gvD(b)))
	}
}

func vhC22_slices() {
	switch vxChoose(14) {
	case 0:
		x, n := gvFew()
		y, m := gvFew()
		s := []interface{}{x, y}
		if vxBool() {
			c22put(&s, nArr(n, m))
		} else {
			c22put(s, nArr(n, m))
		}
	case 1:
		a, b := vxStr(1), vxStr(vxChoose(2))
		s := []string{a, b}
		if vxBool() {
			c22put(&s, nArr(nStr(a), nStr(b)))
		} else {
			c22put(s, nArr(nStr(a), nStr(b)))
		}
	case 2:
		a, b := vxI32(), vxI32()
		c22put([]int32{a, b}, nArr(nInt(int64(a)), nInt(int64(b))))
	case 3:
		a, b := vxU16(), vxU16()
		s := []uint16{a, b}
		c22put(&s, nArr(nInt(int64(a)), nInt(int64(b))))
	case 4:
		a, b := vxBool(), vxBool()
		c22put([]bool{a, b}, nArr(gvB(a), gvB(b)))
	case 5:
		a := gvFloat64()
		c22put([]float64{a}, nArr(gvD(a)))
	case 6:
		a, b := vxI64(), vxI64()
		c22put([][]int64{{a}, {}, nil, {b, 1}}, nArr(nArr(nInt(a)), nArr(), nArr(), nArr(nInt(b), nInt(1))))
	case 7:
		a := vxI64()
		p := &a
		c22put([]*int64{nil, p, nil}, nArr(nKind(nkNull), nInt(a), nKind(nkNull)))
	case 8:
		a, k := vxI64(), vxStr(1)
		c22put([]map[string]int{{k: int(a)}, {}}, nArr(nObj1(k, nInt(a)), &vxNode{k: nkObject}))
	case 9:
		a, b := vxBytes(1), vxBytes(2)
		c22put([][]byte{a, nil, b}, nArr(gvBin(a), gvBin(nil), gvBin(b)))
	case 10:
		t, n := gvTime()
		c22put([]time.Time{t}, nArr(n))
	case 11:
		a, b := vxStr(1), vxStr(1)
		c22put([]gvStr{gvStr(a), gvStr(b)}, nArr(nStr(a), nStr(b)))
	case 12:
		switch vxChoose(3) {
		case 0:
			c22put([]string(nil), nArr())
		case 1:
			c22put([]interface{}{}, nArr())
		case 2:
			c22put([]int16{}, nArr())
		}
	case 13:
		x, n := gvFew()
		k := vxStr(1)
		c22put([]interface{}{map[string]interface{}{k: []interface{}{x, nil}}, []string{k}},
			nArr(nObj1(k, nArr(n, nKind(nkNull))), nArr(nStr(k))))
	}
}

type c22Inner struct {
	U8  uint8
	Str gvStr
}

type c22Nums struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	B   bool
	S   string
	N   gvUint
}

type c22Ptrs struct {
	I  *int
	U  *uint16
	S  *string
	B  *bool
	F  *float64
	T  *time.Time
	In *c22Inner
	By *[]byte
	L  *[]string
	X  interface{}
	M  *map[string]int
}

type c22Parts struct {
	In  c22Inner
	L   []string
	N   []uint32
	Ins []c22Inner
	Pi  []*c22Inner
	M   map[string]uint64
	A   map[string]interface{}
	By  []byte
	T   time.Time
	X   interface{}
	E   []int
}

func c22nums() (*c22Nums, *vxNode) {
	s := &c22Nums{I: int(vxI64()), I8: int8(vxByte()), I16: int16(vxU16()), I32: vxI32(), I64: vxI64(),
		U: uint(vxU64()), U8: vxByte(), U16: vxU16(), U32: vxU32(), U64: vxU64(),
		F32: gvFloat32(), F64: gvFloat64(), B: vxBool(), S: vxStr(vxChoose(3)), N: gvUint(vxU32())}
	return s, &vxNode{k: nkObject,
		keys: []string{"I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F32", "F64", "B", "S", "N"},
		kids: []*vxNode{nInt(int64(s.I)), nInt(int64(s.I8)), nInt(int64(s.I16)), nInt(int64(s.I32)), nInt(s.I64),
			nInt(int64(s.U)), nInt(int64(s.U8)), nInt(int64(s.U16)), nInt(int64(s.U32)), nInt(int64(s.U64)),
			gvF(s.F32), gvD(s.F64), gvB(s.B), nStr(s.S), nInt(int64(s.N))}}
}

func vhC22_fields() {
	s, n := c22nums()
	if vxBool() {
		c22put(s, n)
	} else {
		c22put(*s, n)
	}
}

func c22in() (c22Inner, *vxNode) {
	s := c22Inner{U8: vxByte(), Str: gvStr(vxStr(1))}
	return s, nObj2("U8", nInt(int64(s.U8)), "Str", nStr(string(s.Str)))
}

// vhC22_pointers: one pointer field at a time is set, the others are nil.
func vhC22_pointers() {
	s := c22Ptrs{}
	n := &vxNode{k: nkObject, keys: []string{"I", "U", "S", "B", "F", "T", "In", "By", "L", "X", "M"}}
	for range n.keys {
		n.kids = append(n.kids, nKind(nkNull))
	}
	c := vxChoose(len(n.keys) + 1)
	switch c {
	case 0:
		x := int(vxI64())
		s.I = &x
		n.kids[c] = nInt(int64(x))
	case 1:
		x := vxU16()
		s.U = &x
		n.kids[c] = nInt(int64(x))
	case 2:
		x := vxStr(2)
		s.S = &x
		n.kids[c] = nStr(x)
	case 3:
		x := vxBool()
		s.B = &x
		n.kids[c] = gvB(x)
	case 4:
		x := gvFloat64()
		s.F = &x
		n.kids[c] = gvD(x)
	case 5:
		x, m := gvTime()
		s.T = &x
		n.kids[c] = m
	case 6:
		x, m := c22in()
		s.In = &x
		n.kids[c] = m
	case 7:
		x := vxBytes(2)
		s.By = &x
		n.kids[c] = gvBin(x)
	case 8:
		x := []string{vxStr(1)}
		s.L = &x
		n.kids[c] = nArr(nStr(x[0]))
	case 9:
		s.X, n.kids[c] = gvFew()
	case 10:
		k, a := vxStr(1), vxI64()
		x := map[string]int{k: int(a)}
		s.M = &x
		n.kids[c] = nObj1(k, nInt(a))
	}
	c22put(s, n)
}

func vhC22_parts() {
	s := c22Parts{}
	n := &vxNode{k: nkObject, keys: []string{"In", "L", "N", "Ins", "Pi", "M", "A", "By", "T", "X", "E"}}
	in, mi := c22in()
	i2, m2 := c22in()
	s.In = in
	s.L = []string{vxStr(1), "q"}
	s.N = []uint32{vxU32()}
	s.Ins = []c22Inner{i2, in}
	s.Pi = []*c22Inner{nil, &i2}
	k := vxStr(1)
	s.M = map[string]uint64{k: vxU64()}
	x, mx := gvFew()
	s.A = map[string]interface{}{k: x}
	s.By = vxBytes(2)
	t, mt := gvTime()
	s.T = t
	s.X = i2
	n.kids = []*vxNode{mi, nArr(nStr(s.L[0]), nStr("q")), nArr(nInt(int64(s.N[0]))), nArr(m2, mi),
		nArr(nKind(nkNull), m2), nObj1(k, nInt(int64(s.M[k]))), nObj1(k, mx), gvBin(s.By), mt, m2, nArr()}
	c22put(s, n)
}

type c22Enc struct {
	A int32
}

func (e c22Enc) EncodeToDxValue(d *DxValue) {
	d.Reset(VT_Array)
	d.SetIndexInt(0, int64(e.A))
}

type c22Holder struct {
	E c22Enc
	Z int8
}

// vhC22_marshaler: a type with its own encoding is stored as it encodes itself.
func vhC22_marshaler() {
	e := c22Enc{vxI32()}
	n := nArr(nInt(int64(e.A)))
	switch vxChoose(5) {
	case 0:
		c22put(e, n)
	case 1:
		c22put(&e, n)
	case 2:
		h := c22Holder{E: e, Z: int8(vxByte())}
		c22put(h, nObj2("E", n, "Z", nInt(int64(h.Z))))
	case 3:
		c22put([]c22Enc{e}, nArr(n))
	case 4:
		k := vxStr(1)
		c22put(map[string]c22Enc{k: e}, nObj1(k, n))
	}
}

// vhC22_copies: a byte slice is copied, wherever it is stored and whatever it
// is stored in.
func vhC22_copies() {
	b := vxBytes(2)
	n := gvBin([]byte{b[0], b[1]})
	var x interface{}
	switch vxChoose(9) {
	case 0:
		x = b
	case 1:
		x = &b
	case 2:
		x, n = []interface{}{b}, nArr(n)
	case 3:
		x, n = []interface{}{&b}, nArr(n)
	case 4:
		x, n = map[string]interface{}{"m": b}, nObj1("m", n)
	case 5:
		x, n = map[string][]byte{"m": b}, nObj1("m", n)
	case 6:
		x, n = [][]byte{b}, nArr(n)
	case 7:
		x, n = c22Box{b}, nObj1("X", n)
	case 8:
		x, n = &c22Box{&b}, nObj1("X", n)
	}
	v := NewValue(VT_Int)
	switch vxChoose(5) {
	case 0:
		v.SetValue(x)
	case 1:
		v.SetBinary([]byte{1}, true)
		v.SetValue(x)
	case 2:
		v.SetKeyvalue("k", x, v.ValueCache())
		n = nObj1("k", n)
	case 3:
		v.SetIndexvalue(0, x, v.ValueCache())
		n = nArr(n)
	case 4:
		v.Reset(VT_Array)
		v.SetIndexInt(0, 3)
		v.SetIndexvalue(0, x, v.ValueCache())
		n = nArr(n)
	}
	b[0]++
	b[1]--
	vxReach("copied")
	vxHas(v, n, "stored")
}

type c22Box struct {
	X interface{}
}

// vhC22_widths: maps and slices of every scalar type, at every place and inside
// generic containers.
func vhC22_widths() {
	var x interface{}
	var n *vxNode
	i, ptr := vxChoose(gvWidths), vxBool()
	if vxBool() {
		x, n = gvMapOf(i, ptr, vxStr(1))
	} else {
		x, n = gvSliceOf(i, ptr)
	}
	switch vxChoose(4) {
	case 1:
		x, n = []interface{}{x}, nArr(n)
	case 2:
		x, n = map[string]interface{}{"w": x}, nObj1("w", n)
	case 3:
		x, n = c22Box{x}, nObj1("X", n)
	}
	c22put(x, n)
}

type c22When struct {
	T *time.Time
	M map[string]time.Time
	X interface{}
}

// vhC22_times: times as members of typed maps, behind pointers, in generic
// containers and in structs.
func vhC22_times() {
	t, n := gvTime()
	k := vxStr(1)
	var x interface{}
	var w *vxNode
	switch vxChoose(9) {
	case 0:
		x, w = map[string]time.Time{k: t}, nObj1(k, n)
	case 1:
		vxAssume(k != "z")
		x, w = map[string]*time.Time{k: &t, "z": nil}, nObj2(k, n, "z", nKind(nkNull))
	case 2:
		x, w = []*time.Time{nil, &t}, nArr(nKind(nkNull), n)
	case 3:
		x, w = []interface{}{t, &t, 1}, nArr(n, n, nInt(1))
	case 4:
		vxAssume(k != "z")
		x, w = map[string]interface{}{k: t, "z": &t}, nObj2(k, n, "z", n)
	case 5:
		x, w = c22Box{t}, nObj1("X", n)
	case 6:
		x, w = c22Box{&t}, nObj1("X", n)
	case 7:
		c := c22When{T: &t, M: map[string]time.Time{k: t}}
		x, w = c, &vxNode{k: nkObject, keys: []string{"T", "M", "X"}, kids: []*vxNode{n, nObj1(k, n), nKind(nkNull)}}
	case 8:
		c := c22When{X: []time.Time{t}}
		x, w = &c, &vxNode{k: nkObject, keys: []string{"T", "M", "X"}, kids: []*vxNode{nKind(nkNull), &vxNode{k: nkObject}, nArr(n)}}
	}
	c22put(x, w)
}

// vhC22_values: a value itself, alone and inside generic containers.
func vhC22_values() {
	n := nObj2("a", vxScalar(1), "l", nArr(vxFewScalar(1), nStr("s")))
	if vxBool() {
		n = vxScalar(1)
	}
	d := vxBuild(n)
	var x interface{} = d
	w := n
	switch vxChoose(5) {
	case 1:
		x, w = *d, n
	case 2:
		x, w = []interface{}{d, "e"}, nArr(n, nStr("e"))
	case 3:
		x, w = map[string]interface{}{"m": d}, nObj1("m", n)
	case 4:
		x, w = c22Box{d}, nObj1("X", n)
	}
	c22put(x, w)
	vxHas(d, n, "stored value itself")
}
