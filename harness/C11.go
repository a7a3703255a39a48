package dxsvalue

import "time"

// A value never shows traces of earlier values.

// c11dirty creates a cached value with content of any kind.
func c11dirty() *DxValue {
	var v *DxValue
	switch vxChoose(15) {
	case 13:
		v, _ = NewValueFromYaml([]byte("a: &x one\nb: *x\nl:\n- p\n- q: r\n"), true)
	case 14:
		v, _ = NewValueFromYaml([]byte("<<: &x\n  m: one\nc: &y\n  d: two\ne:\n  <<: *y\n"), true)
	case 0:
		v, _ = NewValueFromJson([]byte(`{"a\u0041":["b\u0042",{"x\n":1.5,"":true}],"z":-7}`), true, vxBool())
	case 1:
		v, _ = NewValueFromJson([]byte(`["\u0041",{"k":null},[2,3,[4]]]`), true, false)
		v.ValueByIndex(0).String()
	case 2:
		v, _ = NewValueFromMsgPack([]byte("\x83\xa1a\xc7\x03\x05xyz\xa1b\xc4\x02bb\xa1c\x93\xcb\x3f\xf8\x00\x00\x00\x00\x00\x00\x07\xa1s"), true, vxBool())
	case 3:
		v, _ = NewValueFromMsgPack([]byte("\xd6\xff\x5f\x5e\x10\x01"), true, false)
	case 4:
		oid := bsElem(7, "o", []byte("twelve bytes"))
		v, _ = NewValueFromBson(bsWrap(append(oid, bsElem(17, "t", []byte("8 bytes!"))...)), true, false)
	case 5:
		v = NewObject(true)
		c := v.ValueCache()
		v.SetKeyCached("old", VT_Array, c).SetIndexCached(0, VT_Object, c).SetKeyCached("deep", VT_String, c).SetString(vxStr(1))
		v.SetKeyCached("n", VT_Int, c).SetInt(vxI64())
	case 6:
		v = NewArray(true)
		c := v.ValueCache()
		for i := 0; i < 9; i++ {
			v.SetIndexCached(i, VT_String, c).SetString("old")
		}
		v.SetIndexCached(3, VT_Double, c).SetDouble(1e300)
	case 7:
		v = NewCacheValue(VT_String)
		v.SetString("old")
	case 8:
		v = NewCacheValue(VT_Int)
		v.SetInt(vxI64())
	case 9:
		v = NewCacheValue(VT_ExBinary)
		v.SetExtType(9)
		v.SetBinary([]byte("old"), vxBool())
	case 10:
		v = NewCacheValue(VT_DateTime)
		v.SetTime(time.Unix(1600000000, 0))
	case 11:
		v = NewCacheValue(VT_Binary)
		v.SetBinary([]byte("old"), vxBool())
		v.ExtType = 7
	case 12:
		src := vxBuild(nObj2("c", nArr(nStr("old"), nInt(3)), "d", &vxNode{k: nkBinary, s: "b"}))
		v = src.Clone(true)
	}
	return v
}

// c11fail makes a parse that fails midway, with a cache.
func c11fail() {
	switch vxChoose(7) {
	case 6:
		NewValueFromYaml([]byte("a: &x one\nl:\n- p: &y\n    q: r\n  \tb"), true)
	case 0:
		NewValueFromJson([]byte(`{"a\u0041":["b",{"x`), true, false)
	case 1:
		NewValueFromJson([]byte(`["a\u0041",1,}`), true, false)
	case 2:
		NewValueFromMsgPack([]byte("\x83\xa1a\xc4\x02bb\xa1c\x93\x01"), true, false)
	case 3:
		b := bsWrap(append(bsElem(16, "a", []byte{1, 2, 3, 4}), bsElem(4, "l", bsWrap(bsElem(8, "0", []byte{1})))...))
		b[len(b)-3] = 0x55
		NewValueFromBson(b, true, false)
	case 4:
		v := NewObject(true)
		v.LoadFromJson([]byte(`{"a":[1,2,{"b":`), false)
		FreeValue(v)
	case 5:
		NewValueFromMsgPack([]byte("\x92\xa3abc\xd4"), true, true)
	}
}

// c11history is one earlier step.
func c11history() {
	switch vxChoose(4) {
	case 0:
		v := c11dirty()
		if vxBool() {
			vxTouch(v)
		}
		FreeValue(v)
	case 1:
		c11fail()
	case 2:
		v := c11dirty()
		v.Clear()
		FreeValue(v)
	case 3:
		v := c11dirty()
		v.Reset(VT_Array)
		FreeValue(v)
	}
}

// c11fresh asserts that v reads as the zero value of tp.
func c11fresh(v *DxValue, tp ValueType, l string) {
	vxAssert(v.DataType == tp, l+": kind")
	vxAssert(v.Count() == 0, l+": no members")
	vxAssert(v.BinLen() == 0 && len(v.Binary()) == 0, l+": no binary")
	vxAssert(v.BinExtType() == 0 && v.ExtType == 0, l+": no extension type")
	vxAssert(v.ValueByIndex(0) == nil && v.ValueByName("old") == nil && v.ValueByName("a") == nil, l+": no member")
	vxAssert(v.KeyNameByIndex(0) == "", l+": no key")
	if tp != VT_DateTime && tp != VT_Object && tp != VT_Array {
		vxAssert(v.Int() == 0 && v.Double() == 0 && v.Float() == 0, l+": zero")
		vxAssert(!v.Bool(), l+": false")
	}
	switch tp {
	case VT_String, VT_RawString, VT_ExBinary:
		vxAssert(v.String() == "", l+": empty text")
	case VT_Int, VT_Float, VT_Double:
		vxAssert(v.String() == "0", l+": zero text")
	case VT_DateTime:
		vxAssert(v.DateTime() == 0, l+": zero time")
	case VT_Object:
		v.SetKeyString("a\\u0041", "x")
		vxHas(v, nObj1("a\\u0041", nStr("x")), l+": first member")
		v.Clear()
		vxAssert(v.Count() == 0, l+": cleared")
	}
	// whatever it becomes next starts empty
	n := vxNode{}
	switch vxChoose(3) {
	case 0:
		v.Reset(VT_Object)
		n.k = nkObject
		vxHas(v, &n, l+": reset to object")
		v.SetKeyInt("q", 1)
		vxHas(v, nObj1("q", nInt(1)), l+": reset to object, set")
	case 1:
		v.Reset(VT_Array)
		n.k = nkArray
		vxHas(v, &n, l+": reset to array")
		v.SetIndexInt(0, 1)
		vxHas(v, nArr(nInt(1)), l+": reset to array, set")
	case 2:
		v.Reset(VT_Int)
		vxHas(v, nInt(0), l+": reset to int")
	}
}

func c11tp() ValueType {
	return []ValueType{VT_Object, VT_Array, VT_String, VT_RawString, VT_Int, VT_Float, VT_Double, VT_DateTime, VT_Binary, VT_ExBinary}[vxChoose(10)]
}

func c11steps() int {
	return 1 + vxTier()
}

func vhC11_create() {
	for i := 0; i < c11steps(); i++ {
		c11history()
	}
	tp := c11tp()
	var v *DxValue
	switch vxChoose(3) {
	case 0:
		v = NewCacheValue(tp)
	case 1:
		v = NewValue(tp)
	case 2:
		o := NewObject(true)
		v = o.SetKeyCached("m", tp, o.ValueCache())
		vxAssert(v == o.ValueByName("m"), "the created member")
	}
	vxReach("created")
	c11fresh(v, tp, "fresh")
}

// vhC11_reset: any value reset to any type reads as that type's zero value.
func vhC11_reset() {
	v := c11dirty()
	if v.Count() > 0 && vxBool() {
		v = v.ValueByIndex(0)
	}
	if v == nil || v.ReadOnly() {
		return
	}
	tp := c11tp()
	vxReach("dirty")
	v.Reset(tp)
	c11fresh(v, tp, "reset")
}

// vhC11_retype: the typed setters leave nothing of the old content either.
func vhC11_retype() {
	v := c11dirty()
	vxReach("dirty")
	switch vxChoose(4) {
	case 0:
		v.SetInt(5)
		vxHas(v, nInt(5), "set")
		v.Reset(VT_Object)
	case 1:
		v.SetString("s")
		vxHas(v, nStr("s"), "set")
		v.Reset(VT_Object)
	case 2:
		v.SetBool(true)
		vxHas(v, nKind(nkTrue), "set")
	case 3:
		v.Clear()
	}
	vxAssert(v.Count() == 0, "no members")
	vxAssert(v.BinLen() == 0 && v.BinExtType() == 0 && v.ExtType == 0, "no binary")
}

// c11parse parses a document with symbolic content, in any format.
func c11parse() (*DxValue, *vxNode) {
	cache := vxBool()
	c := vxByte()
	vxAssume(vxRange(c, 'A', 'Z'))
	s := string([]byte{c})
	switch vxChoose(7) {
	case 6:
		// escaped keys in every container
		n := nObj2("o\n", nObj1(s+"\t", nInt(1)), "l", nArr(nObj1("c\n", nObj1(s+"\"", nStr("\n"))), nArr(nObj1("A", nInt(2)))))
		v, err := NewValueFromJson([]byte(`{"o\n":{"`+s+`\t":1},"l":[{"c\n":{"`+s+`\"":"\n"}},[{"\u0041":2}]]}`), cache, vxBool())
		vxAssert(err == nil, "parses")
		return v, n
	case 5:
		// what looks like an alias is text unless this document defines it
		n := nObj2("b"+s, nStr("*x"), "l", nArr(nStr("*y"), nObj1("k", nStr(s))))
		v, err := NewValueFromYaml([]byte("b"+s+": *x\nl:\n- *y\n- k: "+s+"\n"), cache)
		vxAssert(err == nil, "parses")
		return v, n
	case 0:
		n := &vxNode{k: nkObject, keys: []string{s, "l", "e", "b\n"}}
		n.kids = []*vxNode{nInt(1), nArr(nStr(s), &vxNode{k: nkObject}, nArr()), nStr(""), nKind(nkFalse)}
		v, err := NewValueFromJson([]byte(`{"`+s+`":1,"l":["`+s+`",{},[]],"e":"","b\n":false}`), cache, vxBool())
		vxAssert(err == nil, "parses")
		return v, n
	case 1:
		// text that looks escaped is plain in MessagePack
		n := nObj2(s+`\u0041`, nStr(`\n`+s), "x", nArr(&vxNode{k: nkBinary, s: s}, &vxNode{k: nkExt, s: s, ext: 3}, &vxNode{k: nkFloat, bits: uint64(vxU32())}, nInt(vxI64())))
		v, err := NewValueFromMsgPack(Value2MsgPack(vxBuild(n), nil), cache, vxBool())
		vxAssert(err == nil, "decodes")
		return v, n
	case 2:
		n := nObj2(s+`\u0041`, nStr(`\n`+s), "x", nArr(&vxNode{k: nkBinary, s: s}, nKind(nkNull), nInt(vxI64())))
		v, err := NewValueFromBson(vxBuild(n).ToBson(nil), cache, vxBool())
		vxAssert(err == nil, "decodes")
		return v, n
	case 3:
		n := vxScalar(1)
		v, err := NewValueFromMsgPack(Value2MsgPack(vxBuild(n), nil), cache, false)
		vxAssert(err == nil, "decodes")
		return v, n
	}
	n := nObj2(s, nArr(nStr(s)), "y", &vxNode{k: nkObject})
	return vxBuild(n).Clone(true), n
}

func vhC11_parse() {
	for i := 0; i < c11steps(); i++ {
		c11history()
	}
	v, n := c11parse()
	vxReach("parsed")
	vxHas(v, n, "parsed")
	enc := Value2MsgPack(v, nil)
	vxAssert(vxEq(string(enc), string(Value2MsgPack(vxBuild(n), nil))), "encodes like a new one")
}

// vhC11_load: loading again and again into one value.
func vhC11_load() {
	v := c11dirty()
	docs := []string{`{"a":[1,"\u0041",{"b":null}],"c":{}}`, `["x\n",{"q":2},[]]`, `{"w":"`, `5`, `"\u0042"`, `{}`}
	refs := []*vxNode{nObj2("a", nArr(nInt(1), nStr("A"), nObj1("b", nKind(nkNull))), "c", &vxNode{k: nkObject}), nArr(nStr("x\n"), nObj1("q", nInt(2)), nArr()), nil, nInt(5), nStr("B"), &vxNode{k: nkObject}}
	vxReach("dirty")
	for i := 0; i < 2+vxTier(); i++ {
		k := vxChoose(len(docs))
		err := v.LoadFromJson([]byte(docs[k]), vxBool())
		vxAssert((err == nil) == (refs[k] != nil), "loads")
		if err == nil {
			vxHas(v, refs[k], "loaded")
		}
	}
}

// vhC11_two: values taken from the pool one after the other are apart.
func vhC11_two() {
	if vxTier() == 1 {
		c11history()
	}
	a, n := c11parse()
	b, m := c11parse()
	vxReach("both")
	vxHas(a, n, "first")
	vxHas(b, m, "second")
	FreeValue(a)
	x := NewObject(true)
	x.SetKeyCached("new", VT_Int, x.ValueCache()).SetInt(vxI64())
	vxHas(b, m, "second after freeing the first")
}

// vhC11_big: recycled storage of larger trees.
func vhC11_big() {
	n := vxBig(true)
	for i := 0; i < 1+vxTier(); i++ {
		old, err := NewValueFromMsgPack(Value2MsgPack(vxBuild(c11old()), nil), true, false)
		vxAssert(err == nil, "decodes")
		switch vxChoose(3) {
		case 0:
			FreeValue(old)
		case 1:
			old.Clear()
		case 2:
			old.Reset(VT_Object)
			FreeValue(old)
		}
	}
	v, err := NewValueFromJson([]byte(vxJSONText(n, "")), true, vxBool())
	vxAssert(err == nil, "parses")
	vxReach("parsed")
	jSame(jNodeOf(v), n, "content")
	vxAgree(v, jNodeOf(v), "enumeration")
	c := v.ValueCache()
	w := NewArray(false)
	if c != nil {
		for i := 0; i < 40; i++ {
			w.SetIndexCached(i, VT_Int, c)
		}
		for i := 0; i < 40; i++ {
			vxAssert(w.IntByIndex(i, -1) == 0, "new cached integers are zero")
		}
	}
	jSame(jNodeOf(v), n, "content afterwards")
}

func c11old() *vxNode {
	switch vxChoose(4) {
	case 0:
		return vxDeepOf(13, false)
	case 1:
		return vxWideOf(12, true, false)
	case 2:
		return vxWideOf(70, false, false)
	}
	return vxWideOf(40, true, false)
}
