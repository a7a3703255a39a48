package dxsvalue

import "time"

// Loading into an existing value equals parsing into a new one.

// c12old is a value with earlier content of any kind.
func c12old() *DxValue {
	switch vxChoose(12) {
	case 0:
		return vxBuild(nObj2("a", nInt(1), "b", nArr(nKind(nkTrue))))
	case 1:
		return vxBuild(nArr(nStr("x"), nObj1("y", nInt(2))))
	case 2:
		return vxBuild(nStr("old"))
	case 3:
		return vxBuild(nInt(vxI64()))
	case 4:
		return vxBuild(vxScalarOf(nkDouble, 0))
	case 5:
		v := NewValue(VT_DateTime)
		v.SetTime(time.Unix(1600000000, 0))
		return v
	case 6:
		return vxBuild(&vxNode{k: nkBinary, s: "old"})
	case 7:
		return vxBuild(&vxNode{k: nkExt, s: "old", ext: 5})
	case 8:
		v, _ := NewValueFromJson([]byte(`{"o\u0041":["\u0042",{"x\n":1}]}`), vxBool(), false)
		if vxBool() {
			v.Find("oA")
		}
		return v
	case 9:
		// loaded earlier, with an error
		v := NewObject(vxBool())
		v.LoadFromJson([]byte(`{"a":[1,{"b":2}],"c`), false)
		return v
	case 10:
		v, _ := NewValueFromBson(vxBuild(nObj2("q", nArr(nInt(1)), "w", &vxNode{k: nkBinary, s: "zz"})).ToBson(nil), vxBool(), false)
		return v
	}
	v := NewObject(true)
	c := v.ValueCache()
	v.SetKeyCached("a", VT_Array, c).SetIndexCached(0, VT_Int, c).SetInt(vxI64())
	v.SetKeyCached("b", VT_Object, c).SetKeyCached("c", VT_String, c).SetString("x")
	return v
}

// c12same asserts that a and b read the same.
func c12same(a, b *DxValue, l string) {
	vxAssert((a == nil) == (b == nil), l+": both present")
	if a == nil {
		return
	}
	vxAssert(a.DataType == b.DataType, l+": kind")
	vxAssert(a.Count() == b.Count(), l+": count")
	switch a.DataType {
	case VT_Object, VT_Array:
		for i := 0; i < a.Count(); i++ {
			k1, x := a.Items(i)
			k2, y := b.Items(i)
			vxAssert(vxEq(k1, k2), l+": key")
			c12same(x, y, l)
			if a.DataType == VT_Object {
				vxAssert(b.ValueByName(k1) != nil, l+": lookup")
			}
		}
	case VT_String, VT_RawString:
		vxAssert(vxEq(a.String(), b.String()), l+": text")
	case VT_Int:
		vxAssert(a.Int() == b.Int(), l+": int")
	case VT_Float, VT_Double, VT_DateTime:
		vxAssert(vxF64bits(a.Double()) == vxF64bits(b.Double()), l+": double")
	}
	vxAssert(a.ExtType == b.ExtType, l+": subtype")
	vxAssert(a.BinExtType() == b.BinExtType(), l+": extension type")
	vxAssert(vxEq(string(a.Binary()), string(b.Binary())), l+": binary")
	vxAssert(a.ReadOnly() == b.ReadOnly(), l+": read only")
}

func c12run(b []byte, format int) {
	share := vxBool()
	v := c12old()
	var e1, e2 error
	var n *DxValue
	switch format {
	case 0:
		e1 = v.LoadFromMsgPack(b, share)
		n, e2 = NewValueFromMsgPack(b, false, share)
	case 1:
		e1 = v.LoadFromBson(b, share)
		n, e2 = NewValueFromBson(b, false, share)
	case 2:
		e1 = v.LoadFromJson(b, share)
		n, e2 = NewValueFromJson(b, false, share)
	}
	vxReach("loaded")
	vxAssert((e1 == nil) == (e2 == nil), "same acceptance")
	if e2 == nil {
		if !n.ReadOnly() {
			c12same(v, n, "loaded")
		} else {
			vxAssert(v.DataType == n.DataType && v.Count() == 0, "loaded constant")
		}
		// and it behaves like one when changed afterwards
		if n.DataType == VT_Object {
			v.SetKeyInt("zz", 7)
			n.SetKeyInt("zz", 7)
			c12same(v, n, "changed")
		}
	}
}

func vhC12_msgpack_bytes() {
	b := vxBytes(1 + vxChoose(3+2*vxTier()))
	c12run(b, 0)
}

func vhC12_msgpack_tree() {
	var n *vxNode
	switch vxChoose(4) {
	case 0:
		n = vxScalar(2)
	case 1:
		n = nArr(vxScalar(1), nStr(vxStr(1)))
	case 2:
		n = nObj2(vxStr(1), vxScalar(1), "kk", nArr(nInt(vxI64())))
	case 3:
		n = nObj1("o", nObj1(vxStr(1), nArr(nArr(nKind(nkNull)))))
	}
	c12run(Value2MsgPack(vxBuild(n), nil), 0)
}

// every timestamp form at the root
func vhC12_msgpack_time() {
	switch vxChoose(3) {
	case 0:
		c12run([]byte("\xd6\xff\x5f\x5e\x10"+vxStr(1)), 0)
	case 1:
		c12run([]byte("\xd7\xff\x77\x35\x94\x00\x5f\x5e\x10"+vxStr(1)), 0)
	case 2:
		c12run([]byte("\xc7\x0c\xff\x1d\xcd\x65\x00\x00\x00\x00\x00\x5f\x5e\x10"+vxStr(1)), 0)
	}
}

func vhC12_bson() {
	tps := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 19, 0x7f, 0xff}
	tp := tps[vxChoose(len(tps))]
	key := vxStr(1)
	var val []byte
	switch tp {
	case 1, 9, 17, 18:
		val = vxBytes(8)
		if tp == 9 {
			val[5], val[6], val[7] = 1, 0, 0
		}
	case 2:
		val = append(bsPut32(nil, 2), append(vxBytes(1), 0)...)
	case 3:
		val = bsWrap(bsElem(16, key, vxBytes(4)))
	case 4:
		val = bsWrap(bsElem(16, "0", vxBytes(4)))
	case 5:
		val = append(append(bsPut32(nil, 2), vxByte()), vxBytes(2)...)
	case 7:
		val = vxBytes(12)
	case 8:
		val = []byte{vxByte() & 1}
	case 16:
		val = vxBytes(4)
	case 19:
		val = vxBytes(16)
	}
	b := bsWrap(bsElem(tp, key, val))
	if vxBool() {
		// cut somewhere
		b = b[:vxChoose(len(b)-1)+1]
	}
	c12run(b, 1)
}

func vhC12_json_bytes() {
	b := vxBytes(1 + vxChoose(3+2*vxTier()))
	ws := true
	for i := range b {
		ws = vxAnd(ws, vxIn(b[i], " \t\r\n"))
	}
	vxAssume(!ws)
	c12run(b, 2)
}

func vhC12_json_docs() {
	c := vxByte()
	s := string([]byte{c})
	docs := []string{
		`{"` + s + `":1}`, `{"a":"` + s + `"}`, `["` + s + `",{"\u0041":null}]`, `"\u0041` + s + `"`,
		` [1,` + s + `] `, `[true` + s + `,false]`, `tru` + s, `nul` + s, `na` + s, `fals` + s, `-` + s, `1` + s + `2`,
		`{"a":1` + s, `{"a"` + s + `1}`, `[1]` + s, `"x"` + s, `{"a":{"b":[` + s + `]}}`, `{}` + s, `[` + s + `]`, `in` + s, `-in` + s, `9223372036854775808`,
	}
	c12run([]byte(docs[vxChoose(len(docs))]), 2)
}

// vhC12_big: larger documents over smaller and larger earlier content.
func vhC12_big() {
	n := vxBig(true)
	form := vxChoose(3)
	if n.k != nkObject && form == 1 {
		n = nObj1("r", n)
	}
	var old *DxValue
	switch vxChoose(4) {
	case 0:
		old = NewObject(vxBool())
	case 1:
		old = vxBuild(vxWideOf(30, vxBool(), false))
	case 2:
		var err error
		old, err = NewValueFromMsgPack(Value2MsgPack(vxBuild(vxWideOf(30, vxBool(), false)), nil), true, false)
		vxAssert(err == nil, "decodes")
	case 3:
		var err error
		old, err = NewValueFromJson([]byte(vxJSONText(vxDeepOf(9, true), " ")), true, false)
		vxAssert(err == nil, "parses")
	}
	var err error
	switch form {
	case 0:
		err = old.LoadFromMsgPack(Value2MsgPack(vxBuild(n), nil), vxBool())
	case 1:
		err = old.LoadFromBson(vxBuild(n).ToBson(nil), vxBool())
	case 2:
		err = old.LoadFromJson([]byte(vxJSONText(n, "")), vxBool())
	}
	vxReach("loaded")
	vxAssert(err == nil, "loads")
	jSame(jNodeOf(old), n, "loaded value")
	vxAgree(old, n, "loaded object")
}
