package dxsvalue

import "time"

// The shared constants never change, whatever is done to a tree that holds them.

// c19tree makes a tree with constant k as its member "c" and element 0 of "l".
func c19tree(k int) *DxValue {
	var v *DxValue
	var err error
	switch vxChoose(5) {
	case 0:
		doc := []string{"null", "true", "false", "nan", "inf"}[k]
		v, err = NewValueFromJson([]byte(`{"c":`+doc+`,"l":[`+doc+`]}`), vxBool(), false)
		if k >= 3 && (err != nil || v == nil) {
			vxAssume(false)
		}
		vxAssert(err == nil, "parses")
	case 1:
		vxAssume(k < 3)
		code := string([]byte{[]byte{0xc0, 0xc3, 0xc2}[k]})
		v, err = NewValueFromMsgPack([]byte("\x82\xa1c"+code+"\xa1l\x91"+code), vxBool(), false)
		vxAssert(err == nil, "decodes")
	case 2:
		vxAssume(k < 3)
		el := [][]byte{{}, {1}, {0}}[k]
		tp := []byte{10, 8, 8}[k]
		b := bsWrap(append(bsElem(tp, "c", el), bsElem(4, "l", bsWrap(bsElem(tp, "0", el)))...))
		v, err = NewValueFromBson(b, vxBool(), false)
		vxAssert(err == nil, "decodes")
	case 3:
		t := []ValueType{VT_NULL, VT_True, VT_False, VT_NAN, VT_INF}[k]
		v = NewValue(VT_Object)
		v.SetKey("c", t)
		v.SetKey("l", VT_Array).SetIndex(0, t)
	case 4:
		v = NewObject(vxBool())
		n := []int{nkNull, nkTrue, nkFalse, nkNan, nkInf}[k]
		v.SetKeyValue("c", vxBuild(nKind(n)))
		a := NewArray(vxBool())
		a.SetIndexValue(0, vxBuild(nKind(n)))
		v.SetKeyValue("l", a)
	}
	return v
}

// c19op does something to x, a member of v.
func c19op(x, v *DxValue) {
	switch vxChoose(24) {
	case 0:
		x.SetInt(vxI64())
	case 1:
		x.SetDouble(vxF64frombits(vxU64()))
	case 2:
		x.SetFloat(vxF32frombits(vxU32()))
	case 3:
		x.SetString(vxStr(1))
	case 4:
		x.SetBool(vxBool())
	case 5:
		x.SetTime(time.Unix(1600000000, 0))
	case 6:
		x.SetBinary([]byte("b"), vxBool())
	case 7:
		x.SetExtType(vxByte())
	case 8:
		x.Reset(ValueType(vxChoose(15)))
	case 9:
		x.Clear()
	case 10:
		x.LoadFromJson([]byte(`{"a":1}`), false)
	case 11:
		x.LoadFromMsgPack([]byte("\x81\xa1a\x01"), false)
	case 12:
		x.LoadFromBson(bsWrap(bsElem(10, "a", nil)), false)
	case 13:
		x.CopyFrom(vxBuild(nObj1("a", nInt(1))), nil)
	case 14:
		x.AddFrom(vxBuild(nObj1("a", nInt(1))), nil)
	case 15:
		x.AddFrom(vxBuild(nArr(nInt(1))), nil)
	case 16:
		x.MergeWith(vxBuild(nObj1("a", nInt(1))), nil)
	case 17:
		x.SetKeyInt("a", 1)
	case 18:
		x.SetIndexInt(0, 1)
	case 19:
		x.ForcePath(VT_Int, "a", "b")
	case 20:
		x.RemoveKey("a")
		x.RemoveIndex(0)
		x.ExtractValue("a")
	case 21:
		FreeValue(x)
	case 22:
		x.InsertValue(0, VT_Int)
	case 23:
		x.Clone(vxBool()).SetInt(1)
	}
}

// c19parent does something to the tree around the constants.
func c19parent(v *DxValue) {
	l := v.ValueByName("l")
	switch vxChoose(16) {
	case 0:
		v.SetKeyInt("c", vxI64())
		l.SetIndexInt(0, vxI64())
	case 1:
		v.SetKeyString("c", "s")
		l.SetIndexString(0, "s")
	case 2:
		v.SetKeyBool("c", vxBool())
		l.SetIndexBool(0, vxBool())
	case 3:
		v.SetKey("c", ValueType(vxChoose(15)))
		l.SetIndex(0, ValueType(vxChoose(15)))
	case 4:
		v.SetKeyDouble("c", 1.5)
		l.SetIndexDouble(0, 1.5)
	case 5:
		v.SetKeyFloat("c", 1.5)
		l.SetIndexFloat(0, 1.5)
	case 6:
		v.SetKeyTime("c", time.Unix(1600000000, 0))
		l.SetIndexTime(0, time.Unix(1600000000, 0))
	case 7:
		v.ForcePath(VT_String, "c", "d", "e").SetString("x")
	case 8:
		v.ForcePath(VT_String, "l", "0", "e")
	case 9:
		v.MergeWith(vxBuild(nObj2("c", nInt(1), "l", nArr(nInt(2)))), nil)
	case 10:
		v.MergeWith(vxBuild(nObj2("c", nObj1("x", nInt(1)), "l", nArr(nInt(2)))), func(p string, a, b *DxValue) MergeOp { return MO_Replace })
	case 11:
		v.Clear()
	case 12:
		v.Reset(VT_Array)
		v.SetIndexInt(0, 1)
	case 13:
		FreeValue(v)
		NewCacheValue(VT_Int).SetInt(vxI64())
	case 14:
		c := v.Clone(vxBool())
		c.SetKeyInt("c", vxI64())
		c.ValueByName("l").SetIndexInt(0, vxI64())
	case 15:
		x := v.ExtractValue("c")
		x.SetInt(vxI64())
		l.InsertValue(0, VT_Int).SetInt(1)
		l.RemoveIndex(1)
	}
}

// c19check asserts that all five constants read as themselves.
func c19check(l string) {
	txt := []string{"null", "true", "false", "", ""}
	for i, t := range []ValueType{VT_NULL, VT_True, VT_False, VT_NAN, VT_INF} {
		for _, x := range []*DxValue{NewValue(t), NewCacheValue(t)} {
			vxAssert(x.DataType == t, l+": kind")
			if i < 3 {
				vxAssert(x.String() == txt[i], l+": text")
				vxAssert(string(Value2Json(x, JSE_OnlyAnsiChar, false, nil)) == txt[i], l+": json")
				vxAssert(string(Value2FormatJson(x, JSE_OnlyAnsiChar, false, nil)) == txt[i], l+": formatted json")
				enc := Value2MsgPack(x, nil)
				vxAssert(len(enc) == 1 && enc[0] == []byte{0xc0, 0xc3, 0xc2}[i], l+": msgpack")
				vxAssert(x.Bool() == (i == 1), l+": bool")
				vxAssert(x.Int() == int64(i&1), l+": int")
				vxAssert(x.Double() == float64(i&1), l+": double")
			} else {
				vxHas(x, nKind(nkNan+i-3), l)
			}
			vxAssert(x.Count() == 0, l+": no members")
			vxAssert(x.ValueByName("a") == nil && x.ValueByIndex(0) == nil, l+": no member")
			vxAssert(x.Binary() == nil && x.BinExtType() == 0, l+": no binary")
			vxAssert(x.Equal(NewValue(t)), l+": equal to itself")
		}
	}
	v, err := NewValueFromJson([]byte(`[null,true,false]`), false, false)
	vxAssert(err == nil, l+": parses")
	vxHas(v, nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse)), l+": parsed")
	d, err := NewValueFromMsgPack([]byte("\x93\xc0\xc3\xc2"), false, false)
	vxAssert(err == nil, l+": decodes")
	vxHas(d, nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse)), l+": decoded")
}

func vhC19_member() {
	k := vxChoose(5)
	v := c19tree(k)
	other := vxBuildNF(nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse), nKind(nkNan), nKind(nkInf)))
	vxReach("tree")
	var x *DxValue
	if vxBool() {
		x = v.ValueByName("c")
	} else {
		x = v.ValueByName("l").ValueByIndex(0)
	}
	vxAssert(x != nil, "member")
	c19op(x, v)
	c19check("constants")
	vxHas(other, nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse), nKind(nkNan), nKind(nkInf)), "other tree")
}

func vhC19_parent() {
	k := vxChoose(5)
	v := c19tree(k)
	other := vxBuildNF(nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse), nKind(nkNan), nKind(nkInf)))
	vxReach("tree")
	c19parent(v)
	c19check("constants")
	vxHas(other, nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse), nKind(nkNan), nKind(nkInf)), "other tree")
}

// c19child makes a child of the constant x, in one of the ways that return it.
func c19child(x *DxValue, how int) *DxValue {
	switch how {
	case 0:
		return x.SetKey("k", VT_Int)
	case 1:
		return x.SetIndex(0, VT_Int)
	case 2:
		return x.InsertValue(0, VT_Int)
	case 3:
		return x.Append(VT_Int)
	case 4:
		return x.ForcePath(VT_Int, "k")
	case 5:
		return x.ForcePath(VT_Int, "0", "k")
	case 6:
		return x.SetKeyCached("k", VT_Int, nil)
	}
	return x.SetIndexCached(0, VT_Int, nil)
}

// vhC19_hidden: nothing done to the constant of one tree can be found through
// the constant of another, not even what later operations on it return.
func vhC19_hidden() {
	k := vxChoose(5)
	x, y := c19tree(k).ValueByName("c"), c19tree(k).ValueByName("l").ValueByIndex(0)
	a := vxI64()
	mine := NewValue(VT_Int)
	mine.SetInt(a)
	vxReach("constants")
	switch vxChoose(5) {
	case 0:
		m := c19child(x, vxChoose(8))
		m.SetInt(a)
		mine = m
	case 1:
		x.SetKeyValue("k", mine)
	case 2:
		x.SetIndexValue(0, mine)
	case 3:
		x.SetKeyvalue("k", map[string]interface{}{"z": a}, nil)
		x.SetIndexvalue(0, "text", nil)
	case 4:
		x.SetValue(map[string]interface{}{"k": a})
		x.SetValue([]interface{}{a})
		x.CopyFrom(vxBuild(nObj1("k", nInt(a))), nil)
		x.AddFrom(vxBuild(nArr(nInt(a))), nil)
	}
	c := c19child(y, vxChoose(8))
	vxAssert(c != mine, "a child of its own")
	vxHas(c, nInt(0), "fresh child")
	c.SetInt(vxI64())
	vxHas(mine, nInt(a), "first child")
	c19check("constants")
}
