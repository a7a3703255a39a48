package dxsvalue

import "time"

// Converting values into Go destinations.

func c26sameTime(a, b time.Time) bool {
	d := (a.Unix()-b.Unix())*1000 + int64(a.Nanosecond())/1000000 - int64(b.Nanosecond())/1000000
	return vxAnd(d >= -2, d <= 2)
}

// vhC26_scalars: a scalar stored and converted back into its own type.
func vhC26_scalars() {
	x, _ := gvScalar(vxChoose(gvKinds), false)
	v := NewValue(VT_Int)
	v.SetValue(x)
	ok, same := false, false
	switch g := x.(type) {
	case int:
		o := int(vxI64())
		ok = v.ToStdValue(&o, false)
		same = o == g
	case int8:
		o := int8(vxByte())
		ok = v.ToStdValue(&o, false)
		same = o == g
	case int16:
		o := int16(vxU16())
		ok = v.ToStdValue(&o, false)
		same = o == g
	case int32:
		o := vxI32()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case int64:
		o := vxI64()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case uint:
		o := uint(vxU64())
		ok = v.ToStdValue(&o, false)
		same = o == g
	case uint8:
		o := vxByte()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case uint16:
		o := vxU16()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case uint32:
		o := vxU32()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case uint64:
		o := vxU64()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case float32:
		o := float32(1.5)
		ok = v.ToStdValue(&o, false)
		same = o == g
	case float64:
		o := 1.5
		ok = v.ToStdValue(&o, false)
		same = o == g
	case string:
		o := "old"
		ok = v.ToStdValue(&o, false)
		same = vxEq(o, g)
	case bool:
		o := vxBool()
		ok = v.ToStdValue(&o, false)
		same = o == g
	case []byte:
		o := []byte{7, 7, 7}
		ok = v.ToStdValue(&o, false)
		same = vxEq(string(o), string(g))
	}
	vxReach("converted")
	vxAssert(ok, "conversion succeeds")
	vxAssert(same, "same value back")
}

func vhC26_time() {
	t, _ := gvTime()
	v := NewValue(VT_Int)
	v.SetValue(t)
	o := time.Unix(0, 0)
	vxReach("converted")
	vxAssert(v.ToStdValue(&o, false), "conversion succeeds")
	vxAssert(c26sameTime(t, o), "same instant back")
	// inside structs and slices
	s := c26Times{T: t, L: []time.Time{t, time.Unix(1000000000, 0)}}
	v.SetValue(s)
	r := c26Times{}
	vxAssert(v.ToStdValue(&r, false), "struct with times")
	vxAssert(c26sameTime(t, r.T), "time field")
	vxAssert(len(r.L) == 2, "time slice length")
	vxAssert(c26sameTime(t, r.L[0]), "time in a slice")
	vxAssert(c26sameTime(time.Unix(1000000000, 0), r.L[1]), "second time in a slice")
}

type c26Times struct {
	T time.Time
	L []time.Time
}

// c26same compares a converted interface value with the reference tree.
func c26same(x interface{}, n *vxNode, l string) {
	switch n.k {
	case nkObject:
		m, ok := x.(map[string]interface{})
		vxAssert(ok, l+": map")
		vxAssert(len(m) == len(n.kids), l+": map size")
		for i := range n.kids {
			e, ok := m[n.keys[i]]
			vxAssert(ok, l+": key")
			c26same(e, n.kids[i], l)
		}
	case nkArray:
		s, ok := x.([]interface{})
		vxAssert(ok, l+": slice")
		vxAssert(len(s) == len(n.kids), l+": slice length")
		for i := range n.kids {
			c26same(s[i], n.kids[i], l)
		}
	case nkString:
		s, ok := x.(string)
		vxAssert(ok, l+": string")
		vxAssert(vxEq(s, n.s), l+": string content")
	case nkInt:
		i, ok := x.(int64)
		vxAssert(ok, l+": int64")
		vxAssert(i == n.i, l+": int content")
	case nkFloat:
		f, ok := x.(float32)
		vxAssert(ok, l+": float32")
		vxAssert(uint64(vxF32bits(f)) == n.bits, l+": float32 content")
	case nkDouble:
		f, ok := x.(float64)
		vxAssert(ok, l+": float64")
		vxAssert(vxF64bits(f) == n.bits, l+": float64 content")
	case nkBinary, nkExt:
		b, ok := x.([]byte)
		vxAssert(ok, l+": bytes")
		vxAssert(vxEq(string(b), n.s), l+": bytes content")
	case nkTrue, nkFalse:
		b, ok := x.(bool)
		vxAssert(ok, l+": bool")
		vxAssert(b == (n.k == nkTrue), l+": bool content")
	case nkNull:
		vxAssert(x == nil, l+": nil")
	}
}

func c26children(n *vxNode) *vxNode {
	if n.k == nkObject {
		return n
	}
	if n.k == nkArray {
		return n
	}
	return nObj1("k", n)
}

// vhC26_maps: objects and arrays converted into generic maps and slices.
func vhC26_maps() {
	n := c26children(vxTree(1))
	v := vxBuild(n)
	if n.k == nkObject {
		m := map[string]interface{}{}
		vxReach("converted")
		vxAssert(v.ToStdValue(m, vxBool()), "conversion succeeds")
		c26same(m, n, "generic map")
	} else {
		s := make([]interface{}, len(n.kids))
		vxReach("converted")
		vxAssert(v.ToStdValue(s, vxBool()), "conversion succeeds")
		c26same(s, n, "generic slice")
	}
	vxHas(v, n, "source unchanged")
}

// vhC26_strings: string maps and slices.
func vhC26_strings() {
	a, b := vxStr(vxChoose(3)), vxStr(vxChoose(2))
	k, k2 := vxStr(1), vxStr(vxChoose(2))
	vxAssume(!vxEq(k, k2))
	vxReach("converted")
	if vxBool() {
		v := vxBuild(nObj2(k, nStr(a), k2, nStr(b)))
		m := map[string]string{}
		vxAssert(v.ToStdValue(m, false), "conversion succeeds")
		vxAssert(len(m) == 2, "map size")
		x, ok := m[k]
		vxAssert(vxAnd(ok, vxEq(x, a)), "first member")
		x, ok = m[k2]
		vxAssert(vxAnd(ok, vxEq(x, b)), "second member")
		return
	}
	v := vxBuild(nArr(nStr(a), nStr(b)))
	s := make([]string, 2)
	vxAssert(v.ToStdValue(s, false), "conversion succeeds")
	vxAssert(vxAnd(vxEq(s[0], a), vxEq(s[1], b)), "elements")
}

// vhC26_slices: arrays of any length into slices that may hold anything before.
func vhC26_slices() {
	n := vxChoose(4)
	was := vxChoose(4)
	spare := vxChoose(2) * 2
	v := NewValue(VT_Array)
	switch vxChoose(9 + 6) {
	case 9:
		c26ints(n, was, spare)
	case 10:
		in := make([]uint64, n)
		for i := range in {
			in[i] = vxU64()
		}
		v.SetValue(in)
		out := make([]uint64, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "uint64 element")
		}
	case 11:
		in := make([]uint, n)
		for i := range in {
			in[i] = uint(vxU64())
		}
		v.SetValue(in)
		out := make([]uint, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "uint element")
		}
	case 12:
		in := make([]uint32, n)
		for i := range in {
			in[i] = vxU32()
		}
		v.SetValue(in)
		out := make([]uint32, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "uint32 element")
		}
	case 13:
		in := make([]int, n)
		for i := range in {
			in[i] = int(vxI64())
		}
		v.SetValue(in)
		out := make([]int, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "int element")
		}
	case 14:
		in := make([]gvStr, n)
		for i := range in {
			in[i] = gvStr(vxStr(1))
		}
		v.SetValue(in)
		out := make([]gvStr, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(vxEq(string(out[i]), string(in[i])), "named element")
		}
	case 0:
		in := make([]int64, n)
		for i := range in {
			in[i] = vxI64()
		}
		v.SetValue(in)
		out := make([]int64, was, was+spare)
		vxReach("converted")
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "int64 element")
		}
	case 1:
		in := make([]uint16, n)
		for i := range in {
			in[i] = vxU16()
		}
		v.SetValue(in)
		out := make([]uint16, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "uint16 element")
		}
	case 2:
		in := make([]string, n)
		for i := range in {
			in[i] = vxStr(1)
		}
		v.SetValue(in)
		out := make([]string, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(vxEq(out[i], in[i]), "string element")
		}
	case 3:
		in := make([]bool, n)
		for i := range in {
			in[i] = vxBool()
		}
		v.SetValue(in)
		out := make([]bool, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "bool element")
		}
	case 4:
		in := make([]float64, n)
		for i := range in {
			in[i] = gvFloat64()
		}
		v.SetValue(in)
		out := make([]float64, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "float64 element")
		}
	case 5:
		in := make([]float32, n)
		for i := range in {
			in[i] = gvFloat32()
		}
		v.SetValue(in)
		out := make([]float32, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "float32 element")
		}
	case 6:
		in := make([][]int8, n)
		for i := range in {
			in[i] = make([]int8, i)
			for j := range in[i] {
				in[i][j] = int8(vxByte())
			}
		}
		v.SetValue(in)
		out := make([][]int8, was, was+spare)
		for i := range out {
			out[i] = make([]int8, 1, 2)
		}
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(len(out[i]) == i, "inner length")
			for j := range in[i] {
				vxAssert(out[i][j] == in[i][j], "inner element")
			}
		}
	case 7:
		in := make([][]byte, n)
		for i := range in {
			in[i] = vxBytes(i)
		}
		v.SetValue(in)
		out := make([][]byte, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(vxEq(string(out[i]), string(in[i])), "bytes element")
		}
	case 8:
		in := make([]c26Pair, n)
		for i := range in {
			in[i] = c26Pair{vxStr(1), vxI32()}
		}
		v.SetValue(in)
		out := make([]c26Pair, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(vxAnd(vxEq(out[i].Name, in[i].Name), out[i].Num == in[i].Num), "struct element")
		}
	}
}

type c26Pair struct {
	Name string
	Num  int32
}

type c26All struct {
	I    int
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	U    uint
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	F32  float32
	F64  float64
	B    bool
	S    string
	N    gvUint
	NS   gvStr
	By   []byte
	P    c26Pair
	L    []string
	LL   [][]uint32
	Ps   []c26Pair
	priv int
}

// vhC26_structs: a struct stored and converted back into a used struct.
func vhC26_structs() {
	s := c26All{I: int(vxI64()), I8: int8(vxByte()), I16: int16(vxU16()), I32: vxI32(), I64: vxI64(),
		U: uint(vxU64()), U8: vxByte(), U16: vxU16(), U32: vxU32(), U64: vxU64(),
		F32: gvFloat32(), F64: gvFloat64(), B: vxBool(), S: vxStr(vxChoose(2)), N: gvUint(vxU32()),
		NS: gvStr(vxStr(1)), By: vxBytes(vxChoose(3)), P: c26Pair{vxStr(1), vxI32()},
		LL: [][]uint32{{vxU32()}, {}, {3, vxU32()}}, Ps: []c26Pair{{"x", vxI32()}, {vxStr(1), 5}}}
	s.L = make([]string, vxChoose(3))
	for i := range s.L {
		s.L[i] = vxStr(1)
	}
	v := NewValue(VT_Int)
	if vxBool() {
		v.SetValue(&s)
	} else {
		v.SetValue(s)
	}
	r := c26All{}
	if vxBool() {
		r = c26All{I: 9, U64: 9, F64: 9, B: true, S: "old", By: []byte{1, 2, 3}, P: c26Pair{"old", 1},
			L: []string{"a", "b", "c"}, LL: [][]uint32{{1, 2}}, Ps: make([]c26Pair, 1, 4)}
	}
	vxReach("converted")
	vxAssert(v.ToStdValue(&r, vxBool()), "conversion succeeds")
	vxAssert(vxAnd(vxAnd(r.I == s.I, r.I8 == s.I8), vxAnd(r.I16 == s.I16, vxAnd(r.I32 == s.I32, r.I64 == s.I64))), "signed fields")
	vxAssert(vxAnd(vxAnd(r.U == s.U, r.U8 == s.U8), vxAnd(r.U16 == s.U16, vxAnd(r.U32 == s.U32, r.U64 == s.U64))), "unsigned fields")
	vxAssert(vxAnd(r.F32 == s.F32, r.F64 == s.F64), "float fields")
	vxAssert(vxAnd(r.B == s.B, vxEq(r.S, s.S)), "bool and string fields")
	vxAssert(vxAnd(r.N == s.N, vxEq(string(r.NS), string(s.NS))), "named fields")
	vxAssert(vxEq(string(r.By), string(s.By)), "bytes field")
	vxAssert(vxAnd(vxEq(r.P.Name, s.P.Name), r.P.Num == s.P.Num), "nested struct")
	vxAssert(len(r.L) == len(s.L), "slice field length")
	for i := range s.L {
		vxAssert(vxEq(r.L[i], s.L[i]), "slice field element")
	}
	vxAssert(len(r.LL) == 3 && len(r.LL[0]) == 1 && len(r.LL[1]) == 0 && len(r.LL[2]) == 2, "nested slice lengths")
	vxAssert(vxAnd(r.LL[0][0] == s.LL[0][0], vxAnd(r.LL[2][0] == 3, r.LL[2][1] == s.LL[2][1])), "nested slice elements")
	vxAssert(len(r.Ps) == 2, "struct slice length")
	vxAssert(vxAnd(r.Ps[0].Num == s.Ps[0].Num, vxEq(r.Ps[1].Name, s.Ps[1].Name)), "struct slice elements")
	vxAssert(vxAnd(vxEq(r.Ps[0].Name, "x"), r.Ps[1].Num == 5), "struct slice elements")
}

// vhC26_names: members are matched to fields by name, exactly or ignoring case;
// members without field and fields without member are left alone.
func vhC26_names() {
	k := vxStr(vxChoose(4))
	for i := 0; i < len(k); i++ {
		vxAssume(k[i] < 0x80)
	}
	fold := vxBool()
	v := vxBuild(nObj2(k, nInt(5), "other", nStr("x")))
	r := c26Names{1, 2, 3}
	vxReach("converted")
	vxAssert(v.ToStdValue(&r, fold), "conversion succeeds")
	hit := func(name string) bool {
		if len(k) != len(name) {
			return false
		}
		ok := true
		for i := 0; i < len(k); i++ {
			c := k[i]
			same := c == name[i]
			if fold {
				same = vxOr(same, c^0x20 == name[i])
			}
			ok = vxAnd(ok, same)
		}
		return ok
	}
	if hit("Ab") {
		vxAssert(r.Ab == 5, "matched field")
	} else {
		vxAssert(r.Ab == 1, "unmatched field")
	}
	if hit("Cde") {
		vxAssert(r.Cde == 5, "matched field")
	} else {
		vxAssert(r.Cde == 2, "unmatched field")
	}
	vxAssert(r.priv == 3, "unexported field")
}

type c26Names struct {
	Ab   int
	Cde  int
	priv int
}

type c26Dec struct {
	n    int
	kind ValueType
}

func (d *c26Dec) DecodeFromDxValue(v *DxValue) {
	d.n++
	d.kind = v.DataType
}

func c26few() *vxNode {
	switch vxChoose(10) {
	case 0:
		return nKind(nkNull)
	case 1:
		return nKind(nkTrue)
	case 2:
		return nKind(nkFalse)
	case 3:
		return nStr("a")
	case 4:
		return nStr("")
	case 5:
		return nInt(-7)
	case 6:
		return nArr()
	case 7:
		return &vxNode{k: nkObject}
	case 8:
		return &vxNode{k: nkDouble, bits: 0x3ff8000000000000}
	}
	return &vxNode{k: nkBinary, s: vxStr(1)}
}

// vhC26_any: any value into any destination neither panics nor changes the
// value; a destination of the wrong shape is refused.
func vhC26_any() {
	c := vxChoose(8)
	var n *vxNode
	if c >= 3 && c <= 5 {
		n = c26few()
		switch vxChoose(5) {
		case 0:
			n = nArr(n, c26few())
		case 1:
			n = nObj2("Name", n, "Num", c26few())
		case 2:
			n = nArr(nObj1("num", n))
		case 3:
			n = nObj1("Name", nArr(n))
		}
	} else {
		n = vxTree(1)
	}
	v := vxBuild(n)
	vxReach("converted")
	ok := false
	switch c {
	case 0:
		var d c26Dec
		ok = v.ToStdValue(&d, false)
		vxAssert(vxAnd(ok, vxAnd(d.n == 1, d.kind == v.DataType)), "own decoder is called once")
	case 1:
		s := make([]interface{}, 1)
		ok = v.ToStdValue(s, false)
		vxAssert(ok == (n.k == nkArray), "slices take arrays only")
	case 2:
		ok = v.ToStdValue(map[string]interface{}{}, false)
		vxAssert(ok == (n.k == nkObject), "maps take objects only")
	case 3:
		r := c26Pair{"a", 1}
		ok = v.ToStdValue(&r, true)
		vxAssert(ok == (n.k == nkObject), "structs take objects only")
	case 4:
		var s []c26Pair
		ok = v.ToStdValue(&s, false)
		vxAssert(ok == (n.k == nkArray), "struct slices take arrays only")
		if ok {
			vxAssert(len(s) == len(n.kids), "length")
		}
	case 5:
		ok = v.ToStdValue(map[string]string{}, false)
		vxAssert(ok == (n.k == nkObject), "string maps take objects only")
	case 6:
		ok = v.ToStdValue(5, false) || v.ToStdValue("x", true) || v.ToStdValue(nil, true) || v.ToStdValue(c26Pair{}, true) || v.ToStdValue([]byte{1}, false)
		vxAssert(!ok, "values that cannot be set are refused")
	case 7:
		var b []byte
		vxAssert(v.ToStdValue(&b, false), "bytes")
		if n.k == nkBinary || n.k == nkExt {
			vxAssert(vxEq(string(b), n.s), "bytes content")
		} else {
			vxAssert(len(b) == 0, "no bytes")
		}
	}
	vxHas(v, n, "source unchanged")
}

// vhC26_raw: text decoded on demand is converted decoded, whatever was read before.
func vhC26_raw() {
	v, n := vxRaw()
	b := n.kids[1]
	vxReach("converted")
	switch vxChoose(6) {
	case 0:
		m := map[string]string{}
		vxAssert(v.ToStdValue(m, vxBool()), "conversion succeeds")
		vxAssert(len(m) == 2, "map size")
		x, ok := m[n.keys[0]]
		vxAssert(vxAnd(ok, vxEq(x, n.kids[0].s)), "string map member")
	case 1:
		m := map[string]interface{}{}
		vxAssert(v.ToStdValue(m, vxBool()), "conversion succeeds")
		c26same(m, n, "generic map")
	case 2:
		w := NewValue(VT_Array)
		w.SetIndexValue(0, v.Clone(false))
		s := make([]interface{}, 1)
		vxAssert(w.ToStdValue(s, vxBool()), "conversion succeeds")
		c26same(s[0], n, "generic map in a generic slice")
	case 3:
		s := make([]interface{}, 2)
		vxAssert(v.ValueByName("b").ToStdValue(s, vxBool()), "conversion succeeds")
		c26same(s, b, "generic slice")
	case 4:
		x := "old"
		vxAssert(v.ValueByIndex(0).ToStdValue(&x, vxBool()), "conversion succeeds")
		vxAssert(vxEq(x, n.kids[0].s), "string")
	case 5:
		w := NewValue(VT_Object)
		w.SetKeyValue("Name", v.ValueByIndex(0))
		w.SetKeyValue("L", b2v(v))
		r := c26Text{L: []string{"old", "older", "oldest"}}
		vxAssert(w.ToStdValue(&r, vxBool()), "conversion succeeds")
		vxAssert(vxEq(r.Name, n.kids[0].s), "string field")
		vxAssert(len(r.L) == 1 && vxEq(r.L[0], b.kids[0].s), "strings field")
		l := make([]string, 1)
		vxAssert(w.ValueByName("L").ToStdValue(l, false), "conversion succeeds")
		vxAssert(vxEq(l[0], b.kids[0].s), "string slice")
	}
	vxHas(v, n, "source unchanged")
}

// b2v is an array of the first element of v's second member.
func b2v(v *DxValue) *DxValue {
	a := NewValue(VT_Array)
	a.SetIndexValue(0, v.ValueByIndex(1).ValueByIndex(0).Clone(false))
	return a
}

type c26Text struct {
	Name string
	L    []string
}

type c26Nest struct {
	Ab  c26Names
	Cds []c26Names
	Ll  [][]c26Names
	De  c26Mid
}

type c26Mid struct {
	Ab c26Names
	Ee []c26Names
}

// vhC26_nestedNames: names are matched the same way at every depth.
func vhC26_nestedNames() {
	c, d := vxByte(), vxByte()
	vxAssume(vxOr(c == 'C', c == 'c'))
	vxAssume(vxOr(d == 'D', d == 'd'))
	name := string([]byte{c, d, 'e'})
	x := vxI32()
	leaf := nObj1(name, nInt(int64(x)))
	want := func(up string, low string) string {
		if vxBool() {
			return up
		}
		return low
	}
	fold := vxBool()
	outer := ""
	var n *vxNode
	r := c26Nest{}
	k := vxChoose(5)
	switch k {
	case 0:
		outer = want("Ab", "aB")
		n = nObj1(outer, leaf)
	case 1:
		outer = want("Cds", "cds")
		n = nObj1(outer, nArr(nObj1("Ab", nInt(1)), leaf))
	case 2:
		outer = want("Ll", "LL")
		n = nObj1(outer, nArr(nArr(), nArr(leaf)))
	case 3:
		outer = want("De", "dE")
		n = nObj1(outer, nObj1("Ab", leaf))
	case 4:
		outer = want("De", "de")
		n = nObj1(outer, nObj1("Ee", nArr(leaf)))
	}
	v := vxBuild(n)
	vxReach("converted")
	vxAssert(v.ToStdValue(&r, fold), "conversion succeeds")
	if !fold {
		exact := outer == []string{"Ab", "Cds", "Ll", "De", "De"}[k]
		if !exact {
			vxAssert(r.Ab.Cde == 0 && len(r.Cds) == 0 && len(r.Ll) == 0 && r.De.Ab.Cde == 0 && len(r.De.Ee) == 0, "outer name does not match")
			return
		}
	}
	got := 0
	switch k {
	case 0:
		got = r.Ab.Cde
	case 1:
		vxAssert(len(r.Cds) == 2, "length")
		vxAssert(r.Cds[0].Ab == 1 && r.Cds[0].Cde == 0, "first element")
		got = r.Cds[1].Cde
	case 2:
		vxAssert(len(r.Ll) == 2 && len(r.Ll[0]) == 0 && len(r.Ll[1]) == 1, "lengths")
		got = r.Ll[1][0].Cde
	case 3:
		got = r.De.Ab.Cde
	case 4:
		vxAssert(len(r.De.Ee) == 1, "length")
		got = r.De.Ee[0].Cde
	}
	if vxOr(fold, vxAnd(c == 'C', d == 'd')) {
		vxAssert(got == int(x), "matched inner name")
	} else {
		vxAssert(got == 0, "unmatched inner name")
	}
}

// vhC26_big: larger trees into generic containers.
func vhC26_big() {
	n := vxBig(true)
	v := vxBuild(n)
	vxReach("built")
	if n.k == nkObject {
		m := map[string]interface{}{}
		vxAssert(v.ToStdValue(m, false), "conversion succeeds")
		c26same(m, n, "generic map")
	} else {
		s := make([]interface{}, len(n.kids))
		vxAssert(v.ToStdValue(s, false), "conversion succeeds")
		c26same(s, n, "generic slice")
	}
	vxHas(v, n, "source unchanged")
}

// c26ints: narrower signed elements.
func c26ints(n, was, spare int) {
	v := NewValue(VT_Array)
	if vxBool() {
		in := make([]int32, n)
		for i := range in {
			in[i] = vxI32()
		}
		v.SetValue(in)
		out := make([]int32, was, was+spare)
		vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
		vxAssert(len(out) == n, "length")
		for i := range in {
			vxAssert(out[i] == in[i], "int32 element")
		}
		return
	}
	in := make([]int16, n)
	for i := range in {
		in[i] = int16(vxU16())
	}
	v.SetValue(in)
	out := make([]int16, was, was+spare)
	vxAssert(v.ToStdValue(&out, false), "conversion succeeds")
	vxAssert(len(out) == n, "length")
	for i := range in {
		vxAssert(out[i] == in[i], "int16 element")
	}
}

// vhC26_times: times in generic maps and slices, in typed ones and behind the
// path of nested containers.
func vhC26_times() {
	t, _ := gvTime()
	v := NewValue(VT_Object)
	v.SetKeyTime("t", t)
	v.SetKeyInt("i", 5)
	l := v.SetKey("l", VT_Array)
	l.SetIndexTime(0, t)
	l.SetIndex(1, VT_Object).SetKeyTime("u", t)
	m := map[string]interface{}{}
	vxReach("converted")
	vxAssert(v.ToStdValue(m, vxBool()), "converted")
	vxAssert(len(m) == 3, "members")
	x, ok := m["t"].(time.Time)
	vxAssert(ok, "time member")
	vxAssert(c26sameTime(x, t), "instant of the member")
	s, ok := m["l"].([]interface{})
	vxAssert(ok && len(s) == 2, "array member")
	x, ok = s[0].(time.Time)
	vxAssert(ok, "time element")
	vxAssert(c26sameTime(x, t), "instant of the element")
	o, ok := s[1].(map[string]interface{})
	vxAssert(ok && len(o) == 1, "object element")
	x, ok = o["u"].(time.Time)
	vxAssert(ok, "nested time")
	vxAssert(c26sameTime(x, t), "instant of the nested member")
	g := make([]interface{}, 2)
	vxAssert(l.ToStdValue(g, false), "slice converted")
	x, ok = g[0].(time.Time)
	vxAssert(ok, "time element of a slice")
	vxAssert(c26sameTime(x, t), "instant in a slice")
	vxAssert(!v.ToStdValue(make([]string, 1), false), "an object is no list of strings")
}

// vhC26_given: lists and maps that are there already are filled as far as they
// reach, whatever their length, and keep what the value does not have.
func vhC26_given() {
	n := nArr()
	for i := vxChoose(4); i > 0; i-- {
		n.kids = append(n.kids, vxFewScalar(1))
	}
	m := vxChoose(4)
	vxReach("given")
	switch vxChoose(3) {
	case 0:
		v := vxBuild(n)
		s := make([]interface{}, m)
		for i := range s {
			s[i] = "old"
		}
		vxAssert(v.ToStdValue(s, vxBool()), "generic list filled")
		for i := range s {
			if i < len(n.kids) {
				c26same(s[i], n.kids[i], "element of the given list")
			} else {
				vxAssert(s[i] == "old", "element beyond the array kept")
			}
		}
		vxHas(v, n, "source unchanged")
	case 1:
		for i := range n.kids {
			n.kids[i] = nStr(vxStr(1))
		}
		v := vxBuild(n)
		s := make([]string, m)
		for i := range s {
			s[i] = "old"
		}
		vxAssert(v.ToStdValue(s, vxBool()), "string list filled")
		for i := range s {
			if i < len(n.kids) {
				vxAssert(vxEq(s[i], n.kids[i].s), "text of the given list")
			} else {
				vxAssert(s[i] == "old", "text beyond the array kept")
			}
		}
		vxHas(v, n, "source unchanged")
	case 2:
		names := []string{"a", "b", "c"}
		o := &vxNode{k: nkObject}
		for i := range n.kids {
			o.keys = append(o.keys, names[i])
			o.kids = append(o.kids, n.kids[i])
		}
		v := vxBuild(o)
		g := map[string]interface{}{"z": "old", "b": "old"}
		vxAssert(v.ToStdValue(g, vxBool()), "map filled")
		vxAssert(g["z"] == "old", "other entry kept")
		for i := range n.kids {
			x, ok := g[names[i]]
			vxAssert(ok, "entry")
			c26same(x, n.kids[i], "entry of the given map")
		}
		if len(n.kids) < 2 {
			vxAssert(g["b"] == "old", "entry without a member kept")
		}
	}
}

// vhC26_refused: a destination of another shape is refused and left alone.
func vhC26_refused() {
	n := nObj1("A", nInt(1))
	k := vxChoose(3)
	if k == 1 {
		n = nArr(nInt(1), nStr(vxStr(1)))
	} else if k == 2 {
		n = vxFewScalar(1)
	}
	v := vxBuild(n)
	ok := true
	kept := true
	switch vxChoose(6) {
	case 0:
		d := map[string]interface{}{"A": "old"}
		vxAssume(k != 0)
		ok = v.ToStdValue(d, vxBool())
		kept = len(d) == 1 && d["A"] == "old"
	case 1:
		d := map[string]string{"A": "old"}
		vxAssume(k != 0)
		ok = v.ToStdValue(d, vxBool())
		kept = len(d) == 1 && d["A"] == "old"
	case 2:
		d := []interface{}{"old"}
		vxAssume(k != 1)
		ok = v.ToStdValue(d, vxBool())
		kept = d[0] == "old"
	case 3:
		d := []string{"old"}
		vxAssume(k != 1)
		ok = v.ToStdValue(d, vxBool())
		kept = d[0] == "old"
	case 4:
		d := []int16{7}
		vxAssume(k != 1)
		ok = v.ToStdValue(&d, vxBool())
		kept = len(d) == 1 && d[0] == 7
	case 5:
		d := c26Pair{}
		vxAssume(k != 0)
		was := d
		ok = v.ToStdValue(&d, vxBool())
		kept = d == was
	}
	vxReach("asked")
	vxAssert(!ok, "refused")
	vxAssert(kept, "destination left alone")
	vxHas(v, n, "source unchanged")
}
