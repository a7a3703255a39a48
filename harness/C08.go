package dxsvalue

// JSON written by the library parses back to the same value.

// c08write picks one of the writers.
func c08write(v *DxValue) []byte {
	style := JSE_OnlyAnsiChar
	if vxBool() {
		style = JSE_AllEscape
	}
	switch vxChoose(5) {
	case 0:
		return Value2Json(v, style, false, nil)
	case 1:
		return Value2FormatJson(v, style, false, nil)
	case 2:
		return v.ToJson(false, style, true, nil)
	case 3:
		return v.ToJson(true, style, true, make([]byte, 0, 3))
	}
	if v.DataType == VT_Object || v.DataType == VT_Array {
		return []byte(v.String())
	}
	return Value2Json(v, style, false, []byte{})
}

func c08check(v *DxValue, n *vxNode) {
	out := c08write(v)
	vxReach("written")
	got, st := jsonRead(out)
	vxAssert(st == jOK, "output is a valid document")
	jSame(got, n, "reference reading of the output")
	w, err := NewValueFromJson(out, false, false)
	vxAssert(err == nil, "output parses")
	jSame(jNodeOf(w), n, "library reading of the output")
	jSame(jNodeOf(v), n, "written value unchanged")
}

func vhC08_string() {
	n := nStr(jStr(9))
	c08check(vxBuild(n), n)
}

func vhC08_key() {
	n := nObj1(jStr(9), nInt(1))
	c08check(vxBuild(n), n)
}

func vhC08_int() {
	n := nInt(vxI64())
	switch vxChoose(3) {
	case 1:
		n = nArr(n)
	case 2:
		n = nObj1("k", n)
	}
	v := vxBuild(n)
	out := Value2Json(v, JSE_OnlyAnsiChar, false, nil)
	vxReach("written")
	got, st := jsonRead(out)
	vxAssert(st == jOK, "output is a valid document")
	jSame(got, n, "reference reading of the output")
	w, err := NewValueFromJson(out, false, false)
	vxAssert(err == nil, "output parses")
	jSame(jNodeOf(w), n, "library reading of the output")
}

func vhC08_double() {
	fs := []float64{0, 1, -1, 0.5, -0.25, 0.1, 1e15, 1e21, 1e22, 1e23, 123456789.125, -1e300, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993, 4611686018427387904, 9223372036854775808, -9223372036854775808, 18446744073709551616, 0.30000000000000004, 3.4028234663852886e38, 1.401298464324817e-45, 100, 1e6, 65536.5, 4.35, 1234567890123456789}
	n := &vxNode{k: nkDouble, bits: vxF64bits(fs[vxChoose(len(fs))])}
	if vxBool() {
		n.bits |= 1 << 63
	}
	switch vxChoose(3) {
	case 1:
		n = nArr(n)
	case 2:
		n = nObj1("k", n)
	}
	c08check(vxBuild(n), n)
}

func vhC08_float() {
	fs := []float32{0, 1, -1, 0.5, 0.1, 1e15, 1e22, 123456.125, -1e30, 1e-7, 1.401298464324817e-45, 3.4028234663852886e38, 16777216, 9223372036854775808, 4.35}
	n := &vxNode{k: nkFloat, bits: uint64(vxF32bits(fs[vxChoose(len(fs))]))}
	if vxBool() {
		n = nArr(n)
	}
	c08check(vxBuild(n), n)
}

// doubles with symbolic digits
func vhC08_decimal() {
	d := func() string {
		s := vxStr(1)
		vxAssume(vxRange(s[0], '0', '9'))
		return s
	}
	t := []string{d() + "." + d(), "-" + d() + "." + d(), d() + d() + "." + d() + d()}[vxChoose(3)]
	v, err := NewValueFromJson([]byte("["+t+"]"), false, false)
	vxAssert(err == nil, "decimal parses")
	n := nArr(&vxNode{k: nkDouble, bits: vxF64bits(v.ValueByIndex(0).Double())})
	c08check(v, n)
}

func c08scalar() *vxNode {
	switch vxChoose(6) {
	case 0:
		return nStr(jStr(3 + 2*vxTier()))
	case 1:
		return nInt(int64(int8(vxByte())))
	case 2:
		return &vxNode{k: nkDouble, bits: vxF64bits(-2.5)}
	case 3:
		return nKind(nkNull)
	case 4:
		return nKind(nkTrue)
	}
	return nKind(nkFalse)
}

// nested trees
func vhC08_tree() {
	k := jStr(1 + 2*vxTier())
	var n *vxNode
	switch vxChoose(9) {
	case 0:
		n = c08scalar()
	case 1:
		n = nArr()
	case 2:
		n = &vxNode{k: nkObject}
	case 3:
		n = nArr(c08scalar(), c08scalar())
	case 4:
		k2 := jStr(1)
		vxAssume(!vxEq(k, k2))
		n = nObj2(k, c08scalar(), k2, nKind(nkNull))
	case 5:
		n = nObj1(k, nArr(nKind(nkTrue), nObj1("in", c08scalar()), nArr()))
	case 6:
		n = nArr(nObj1(k, nStr(jStr(1))), nArr(nArr(c08scalar()), &vxNode{k: nkObject}), nInt(7))
	case 7:
		n = nObj2("o", nObj2("p", nObj1(k, nArr(nArr(nInt(1)), nInt(2))), "q", nInt(3)), "r", c08scalar())
	case 8:
		n = nArr(nArr(), nArr(nArr(), nArr()), &vxNode{k: nkObject}, nObj1(k, &vxNode{k: nkObject}))
	}
	c08check(vxBuild(n), n)
}

// values parsed from a document, read in between or not, and partly changed
func vhC08_parsed() {
	s := vxStr(vxChoose(4 + vxTier()))
	t := `"` + s + `"`
	_, st := jsonRead([]byte(t))
	vxAssume(st == jOK)
	doc := []string{t, `[` + t + `,{"a":` + t + `}]`, `{` + t + `:1}`, `{` + t + `:{"z":` + t + `}}`}[vxChoose(4)]
	n, st := jsonRead([]byte(doc))
	vxAssume(st == jOK)
	v, err := NewValueFromJson([]byte(doc), vxBool(), false)
	vxAssert(err == nil, "document parses")
	switch vxChoose(3) {
	case 1:
		jNodeOf(v)
	case 2:
		if n.k == nkObject && !vxEq(n.keys[0], "new") {
			v.SetKeyString("new", "\\n")
			n.keys = append(n.keys, "new")
			n.kids = append(n.kids, nStr("\\n"))
		} else if n.k == nkArray {
			v.SetIndexString(0, "\\n")
			n.kids[0] = nStr("\\n")
		}
	}
	c08check(v, n)
}

// long strings and wide containers
func vhC08_long() {
	l := []int{31, 63, 64, 255, 256, 257, 300}[vxChoose(7)]
	b := make([]byte, l)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	c := vxByte()
	vxAssume(c < 0x80)
	b[0], b[l/2], b[l-1] = c, c, '"'
	n := nObj2(string(b), nStr(string(b)), "e", nArr())
	for i := 0; i < l/31; i++ {
		n.kids[1].kids = append(n.kids[1].kids, nInt(int64(i)))
	}
	c08check(vxBuild(n), n)
}

// vhC08_big: many members, many levels.
func vhC08_big() {
	n := vxBig(true)
	v := vxBuild(n)
	if vxBool() {
		var err error
		v, err = NewValueFromJson([]byte(vxJSONText(n, "")), vxBool(), false)
		vxAssert(err == nil, "parses")
	}
	c08check(v, n)
}

// vhC08_marshal: Marshal writes a value as its JSON text, and Unmarshal loads it.
func vhC08_marshal() {
	var n *vxNode
	switch vxChoose(4) {
	case 0:
		n = c08scalar()
	case 1:
		n = nArr(c08scalar(), nArr())
	case 2:
		n = nObj2(jStr(3), c08scalar(), "b\n", nObj1("c", nKind(nkNull)))
	case 3:
		n = &vxNode{k: nkObject}
	}
	v := vxBuild(n)
	var doc []byte
	var err error
	if vxBool() {
		doc, err = Marshal(v)
	} else {
		doc, err = Marshal(*v)
	}
	vxReach("marshalled")
	vxAssert(err == nil, "no error")
	got, st := jsonRead(doc)
	vxAssert(st == jOK, "a valid document")
	jSame(got, n, "reference reading")
	x := vxBuild([]*vxNode{nArr(nInt(7)), nObj1("b\n", nInt(1)), nStr("x")}[vxChoose(3)])
	vxAssert(Unmarshal(doc, x) == nil, "unmarshals")
	jSame(jNodeOf(x), n, "back")
	jSame(jNodeOf(v), n, "source unchanged")
	vxAssert(Unmarshal([]byte("[1,"), x) != nil, "a cut document is refused")
}

// vhC08_plain: text that needs no escaping is written as it is by every style.
func vhC08_plain() {
	c := func() string {
		b := vxByte()
		vxAssume(vxAnd(vxRange(b, 0x20, 0x7e), vxAnd(b != '"', b != '\\')))
		return string([]byte{b})
	}
	k, s := c(), c()
	n := nObj2(k, nStr(s+"x"), "second", nArr(nStr("y"+s), nInt(vxI64()), nObj1(s+"k", nKind(nkTrue))))
	v := vxBuild(n)
	vxAssume(k != "s")
	if vxBool() {
		var err error
		v, err = NewValueFromJson([]byte(`{"`+k+`":"`+s+`x","\u0073econd":["y`+s+`",5,{"`+s+`k":true}]}`), vxBool(), false)
		vxAssert(err == nil, "parses")
		n.kids[1].kids[1] = nInt(5)
	}
	out := v.ToJson(vxBool(), JSE_NoEscape, false, nil)
	vxReach("written")
	got, st := jsonRead(out)
	vxAssert(st == jOK, "output is a valid document")
	jSame(got, n, "reference reading of the output")
	jSame(jNodeOf(v), n, "written value unchanged")
}

// vhC08_absent: members and elements without a value are written as null.
func vhC08_absent() {
	v := NewValue(VT_Object)
	i := vxI64()
	v.SetKeyInt("a", i)
	n := nObj1("a", nInt(i))
	k := vxStr(1)
	vxAssume(vxRange(k[0], 'b', 'k'))
	v.SetKeyValue(k, nil)
	n.keys, n.kids = append(n.keys, k), append(n.kids, nKind(nkNull))
	l := v.SetKey("l", VT_Array)
	l.SetIndexValue(0, nil)
	l.SetIndexInt(1, 7)
	l.SetIndexValue(2, nil)
	n.keys, n.kids = append(n.keys, "l"), append(n.kids, nArr(nKind(nkNull), nInt(7), nKind(nkNull)))
	vxReach("built")
	switch vxChoose(5) {
	case 0:
		got, st := jsonRead(v.ToJson(vxBool(), JSE_OnlyAnsiChar, vxBool(), nil))
		vxAssert(st == jOK, "output is a valid document")
		jSame(got, n, "written")
	case 1:
		w, err := NewValueFromMsgPack(Value2MsgPack(v, nil), true, false)
		vxAssert(err == nil, "decodes from MessagePack")
		vxHas(w, n, "through MessagePack")
	case 2:
		w, err := NewValueFromBson(v.ToBson(nil), true, false)
		vxAssert(err == nil, "decodes from BSON")
		vxHas(w, n, "through BSON")
	case 3:
		l.SetIndex(0, VT_Int).SetInt(3)
		v.SetKey(k, VT_String).SetString("s")
		vxHas(v, &vxNode{k: nkObject, keys: n.keys, kids: []*vxNode{n.kids[0], nStr("s"), nArr(nInt(3), nInt(7), l8(l))}}, "filled")
	case 4:
		vxAssert(v.ValueByName(k) == nil, "no value")
		vxAssert(v.AsInt(k, 4) == 4, "default")
		vxAssert(l.IntByIndex(0, 4) == 4, "default of the element")
	}
}

// l8 sets the last element, so that it can be compared.
func l8(l *DxValue) *vxNode {
	l.SetIndex(2, VT_Int).SetInt(9)
	return nInt(9)
}

// vhC08_ids: ObjectIDs and decimals from BSON are written as the documents that
// stand for them, wherever they are.
func vhC08_ids() {
	hex := func(b []byte) string {
		d := "0123456789ABCDEF"
		var r []byte
		for _, c := range b {
			r = append(r, d[c>>4], d[c&15])
		}
		return string(r)
	}
	oid := append([]byte{vxByte()}, "welve bytes"...)
	dec := append([]byte("sixteen bytes .."[:15]), vxByte())
	doc := bsElem(7, "o", oid)
	doc = append(doc, bsElem(19, "d", dec)...)
	doc = append(doc, bsElem(4, "l", bsWrap(bsElem(7, "0", oid)))...)
	v, err := NewValueFromBson(bsWrap(doc), vxBool(), vxBool())
	vxAssert(err == nil, "decodes")
	n := &vxNode{k: nkObject, keys: []string{"o", "d", "l"}, kids: []*vxNode{
		nObj1("$oid", nStr(hex(oid))), nObj1("Decimal128", nStr(hex(dec))), nArr(nObj1("$oid", nStr(hex(oid))))}}
	vxReach("decoded")
	if vxBool() {
		got, st := jsonRead([]byte(v.ValueByName("o").String()))
		vxAssert(st == jOK, "text is a valid document")
		jSame(got, n.kids[0], "text of the id")
		got, st = jsonRead([]byte(v.ValueByName("d").String()))
		vxAssert(st == jOK, "text of the decimal is a valid document")
		jSame(got, n.kids[1], "text of the decimal")
		return
	}
	got, st := jsonRead(v.ToJson(vxBool(), JSE_OnlyAnsiChar, vxBool(), nil))
	vxAssert(st == jOK, "output is a valid document")
	jSame(got, n, "written")
}
