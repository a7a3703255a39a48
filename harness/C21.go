package dxsvalue

// Decoded values do not alias the input; encoders append.

func c21tree() *vxNode {
	switch vxChoose(5) {
	case 0:
		return nObj2("k"+vxStr(1), nStr(vxStr(2)), "b", &vxNode{k: nkBinary, s: vxStr(2)})
	case 1:
		return nObj1("k", nArr(nStr(vxStr(1)), nObj1("q", vxScalarOf(nkExt, 2)), nInt(vxI64())))
	case 2:
		return nObj2("d", vxScalarOf(nkDouble, 0), "t", nKind(nkTrue))
	case 3:
		return nObj1(vxStr(1), vxScalar(1))
	}
	return nObj1("empty", &vxNode{k: nkObject})
}

func c21wipe(b []byte) {
	x := vxByte()
	for i := range b {
		b[i] ^= x
	}
}

func vhC21_msgpack() {
	n := c21tree()
	in := Value2MsgPack(vxBuild(n), nil)
	var v *DxValue
	var err error
	if vxBool() {
		v, err = NewValueFromMsgPack(in, vxBool(), false)
	} else {
		v = NewValue(VT_Array)
		err = v.LoadFromMsgPack(in, false)
	}
	vxAssert(err == nil, "decodes")
	vxReach("decoded")
	if vxBool() {
		vxHas(v, n, "before")
	}
	c21wipe(in)
	vxHas(v, n, "after overwriting the input")
}

func c21bsonTree() *vxNode {
	key := vxStr(1)
	vxAssume(key[0] != 0)
	switch vxChoose(3) {
	case 0:
		return nObj2("k"+key, nStr(vxStr(2)), "b", &vxNode{k: nkBinary, s: vxStr(2)})
	case 1:
		return nObj1(key, nArr(nStr(vxStr(1)), nObj1("q", nStr(vxStr(1))), nInt(vxI64())))
	}
	return nObj2("d", vxScalarOf(nkDouble, 0), key+"t", nKind(nkTrue))
}

func vhC21_bson() {
	n := c21bsonTree()
	in := vxBuild(n).ToBson(nil)
	var v *DxValue
	var err error
	if vxBool() {
		v, err = NewValueFromBson(in, vxBool(), false)
	} else {
		v = NewValue(VT_Array)
		err = v.LoadFromBson(in, false)
	}
	vxAssert(err == nil, "decodes")
	vxReach("decoded")
	c21wipe(in)
	vxHas(v, n, "after overwriting the input")
}

func vhC21_json() {
	c, d := vxByte(), vxByte()
	vxAssume(vxAnd(vxRange(c, 0x20, 0x7e), vxAnd(c != '"', c != '\\')))
	vxAssume(vxRange(d, '0', '9'))
	pl, es := string([]byte{c}), string([]byte{d - '0' + 0x60})
	in := []byte(`{"k` + pl + `":"` + pl + `v","\u006` + string([]byte{d}) + `x":"a\u006` + string([]byte{d}) + `b","l":["` + pl + `",2.5,` + string([]byte{d}) + `,null],"":""}`)
	n := &vxNode{k: nkObject, keys: []string{"k" + pl, es + "x", "l", ""}}
	n.kids = []*vxNode{nStr(pl + "v"), nStr("a" + es + "b"), nArr(nStr(pl), &vxNode{k: nkDouble, bits: vxF64bits(2.5)}, nInt(int64(d-'0')), nKind(nkNull)), nStr("")}
	var v *DxValue
	var err error
	if vxBool() {
		v, err = NewValueFromJson(in, vxBool(), false)
	} else {
		v = NewValue(VT_Array)
		err = v.LoadFromJson(in, false)
	}
	vxAssert(err == nil, "parses")
	vxReach("decoded")
	c21wipe(in)
	vxHas(v, n, "after overwriting the input")
}

// c21enc encodes v onto dst with one of the encoders.
func c21enc(which int, v *DxValue, dst []byte) []byte {
	switch which {
	case 0:
		return Value2MsgPack(v, dst)
	case 1:
		return v.ToMsgPack(dst)
	case 2:
		r, err := Value2Bson(v, dst)
		vxAssert(err == nil, "encodes")
		return r
	case 3:
		return v.ToBson(dst)
	case 4:
		return Value2Json(v, JSE_OnlyAnsiChar, false, dst)
	case 5:
		return Value2FormatJson(v, JSE_AllEscape, true, dst)
	case 6:
		return v.ToJson(true, JSE_OnlyAnsiChar, true, dst)
	}
	return v.ToJson(false, JSE_AllEscape, false, dst)
}

func c21append(v *DxValue, n *vxNode) {
	which := vxChoose(8)
	plen := vxChoose(3)
	pre := vxBytes(plen)
	spare := []int{0, 1, 3, 64}[vxChoose(4)]
	dst := make([]byte, plen, plen+spare)
	copy(dst, pre)
	r := c21enc(which, v, dst)
	vxReach("encoded")
	vxAssert(len(r) >= plen && vxEq(string(r[:plen]), string(pre)), "existing bytes stay")
	vxAssert(vxEq(string(dst), string(pre)), "existing bytes stay in place")
	got := string(r[plen:])
	one := c21enc(which, v, nil)
	vxAssert(vxEq(string(one), got), "the same bytes on every call")
	vxHas(v, n, "unchanged by encoding")
	if vxBool() {
		// changing the output does not change the value, nor the other way around
		for i := range one {
			one[i] ^= 0xff
		}
		vxHas(v, n, "value after changing the output")
	} else {
		b := v.ValueByName("b")
		if b != nil {
			x := b.Binary()
			for i := range x {
				x[i] ^= 0xff
			}
		}
		v.SetKeyString("k", "changed")
		v.Clear()
		v.SetKeyString("other", "content")
		vxAssert(vxEq(string(one), got), "output after changing the value")
		vxAssert(vxEq(string(r[plen:]), got), "output after changing the value")
	}
}

func c21small() *vxNode {
	a := vxByte()
	vxAssume(vxRange(a, 'a', 'z'))
	s := string([]byte{a})
	switch vxChoose(4) {
	case 0:
		return nObj2("k"+s, nStr(s+s), "b", &vxNode{k: nkBinary, s: vxStr(2)})
	case 1:
		return nObj1(s, nArr(nStr(s), nObj1("q", nInt(int64(a))), nKind(nkNull), nKind(nkFalse)))
	case 2:
		return nObj2("d", &vxNode{k: nkDouble, bits: vxF64bits(1.5)}, s+"t", nKind(nkTrue))
	}
	return &vxNode{k: nkObject}
}

func vhC21_append() {
	n := c21small()
	c21append(vxBuild(n), n)
}

// vhC21_parsed: encoding a value that was just parsed, with its escapes undecoded.
func vhC21_parsed() {
	d := vxByte()
	vxAssume(vxRange(d, '1', '9'))
	es := string([]byte{d - '0' + 0x60})
	v, err := NewValueFromJson([]byte(`{"\u006`+string([]byte{d})+`":"\u006`+string([]byte{d})+`\n","l":["\""]}`), vxBool(), vxBool())
	vxAssert(err == nil, "parses")
	c21append(v, nObj2(es, nStr(es+"\n"), "l", nArr(nStr("\""))))
}

// c21same compares two trees that were decoded from the same bytes.
func c21same(a, b *DxValue, l string) {
	vxAssert(a != nil && b != nil, l+": present")
	text := func(v *DxValue) bool { return v.DataType == VT_String || v.DataType == VT_RawString }
	vxAssert(a.DataType == b.DataType || text(a) && text(b), l+": kind")
	vxAssert(vxAnd(a.ExtType == b.ExtType, a.BinExtType() == b.BinExtType()), l+": extension type")
	switch a.DataType {
	case VT_Object, VT_Array:
		vxAssert(a.Count() == b.Count(), l+": count")
		for i := 0; i < a.Count(); i++ {
			k, x := a.Items(i)
			q, y := b.Items(i)
			if a.DataType == VT_Object {
				vxAssert(vxEq(k, q), l+": key")
			}
			c21same(x, y, l)
		}
	case VT_String, VT_RawString:
		vxAssert(vxEq(a.String(), b.String()), l+": text")
	case VT_Binary, VT_ExBinary:
		vxAssert(vxEq(string(a.Binary()), string(b.Binary())), l+": bytes")
	case VT_Int:
		vxAssert(a.Int() == b.Int(), l+": integer")
	case VT_Float:
		vxAssert(vxF32bits(a.Float()) == vxF32bits(b.Float()), l+": float")
	case VT_Double, VT_DateTime:
		vxAssert(vxF64bits(a.Double()) == vxF64bits(b.Double()), l+": double")
	}
}

// c21twice decodes the same bytes twice and overwrites the input of one.
func c21twice(in []byte, dec func(b []byte, cached, load bool) (*DxValue, error)) {
	other := append([]byte(nil), in...)
	cached, load, read := vxBool(), vxBool(), vxBool()
	v, err := dec(in, cached, load)
	w, err2 := dec(other, cached, load)
	vxAssert((err == nil) == (err2 == nil), "the same verdict twice")
	if err != nil {
		return
	}
	vxReach("decoded")
	if read {
		vxTouch(v)
	}
	c21wipe(in)
	c21same(v, w, "after overwriting the input")
}

func c21json(b []byte, cached, load bool) (*DxValue, error) {
	if load {
		v := NewValue(VT_Array)
		return v, v.LoadFromJson(b, false)
	}
	return NewValueFromJson(b, cached, false)
}

func vhC21_jsonFree() {
	n := 1 + vxChoose(3+vxTier())
	s := vxStr(n)
	switch vxChoose(4) {
	case 0:
		c21twice([]byte(`["`+s+`"]`), c21json)
	case 1:
		c21twice([]byte(`{"`+s+`":1}`), c21json)
	case 2:
		c21twice([]byte(`{"a":"x","b":["`+s+`",2]}`), c21json)
	case 3:
		c21twice([]byte(`["q`+s+`z"]`), c21json)
	}
}

func vhC21_msgpackFree() {
	n := vxChoose(3)
	s := string(vxBytes(n))
	hdr := []string{"\xa0", "\xd9", "\xda\x00", "\xdb\x00\x00\x00", "\xc4", "\xc5\x00", "\xc6\x00\x00\x00", "\xc7", "\xc8\x00", "\xc9\x00\x00\x00"}
	k := vxChoose(len(hdr) + 3)
	var x []byte
	switch {
	case k == 0:
		x = append([]byte{0xa0 + byte(n)}, s...)
	case k < 7:
		x = append(append([]byte(hdr[k]), byte(n)), s...)
	case k < 10:
		x = append(append(append([]byte(hdr[k]), byte(n)), vxByte()&0x7f), s...)
	default:
		m := []int{1, 2, 4}[k-10]
		x = append([]byte{0xd4 + byte(k-10), 5}, vxBytes(m)...)
	}
	var in []byte
	switch vxChoose(4) {
	case 0:
		in = x
	case 1:
		in = append([]byte{0x92, 0xa1, 'q'}, x...)
	case 2:
		in = append([]byte{0x81, 0xa1, 'k'}, x...)
	case 3: // as a key
		if k > 3 {
			return
		}
		in = append(append([]byte{0x82, 0xa1, 'q', 1}, x...), 0x91, 0xa1, 'v')
	}
	c21twice(in, func(b []byte, cached, load bool) (*DxValue, error) {
		if load {
			v := NewValue(VT_Array)
			return v, v.LoadFromMsgPack(b, false)
		}
		return NewValueFromMsgPack(b, cached, false)
	})
}

func vhC21_bsonFree() {
	key := vxStr(vxChoose(3))
	for i := 0; i < len(key); i++ {
		vxAssume(key[i] != 0)
	}
	tp := []byte{1, 2, 5, 7, 8, 9, 10, 16, 17, 18, 19}[vxChoose(11)]
	var val []byte
	n := vxChoose(3)
	switch tp {
	case 1, 9, 17, 18:
		val = vxBytes(8)
		if tp == 9 {
			val[3], val[4], val[5], val[6], val[7] = 1, 1, 0, 0, 0
		}
	case 2:
		val = append(append([]byte{byte(n + 1), 0, 0, 0}, vxBytes(n)...), 0)
	case 5:
		val = append([]byte{byte(n), 0, 0, 0, vxByte()}, vxBytes(n)...)
	case 7:
		val = append([]byte("0123456789"), vxBytes(2)...)
	case 8:
		val = []byte{byte(vxChoose(2))}
	case 16:
		val = vxBytes(4)
	case 19:
		val = append([]byte("0123456789abcd"), vxBytes(2)...)
	}
	e := bsElem(tp, key, val)
	var in []byte
	switch vxChoose(3) {
	case 0:
		in = bsWrap(e)
	case 1:
		in = bsWrap(append(bsElem(10, "other", nil), bsElem(3, "d", bsWrap(e))...))
	case 2:
		in = bsWrap(bsElem(4, "l", bsWrap(bsElem(tp, "0", val))))
	}
	c21twice(in, func(b []byte, cached, load bool) (*DxValue, error) {
		if load {
			v := NewValue(VT_Array)
			return v, v.LoadFromBson(b, false)
		}
		return NewValueFromBson(b, cached, false)
	})
}

func vhC21_yamlFree() {
	n := 1 + vxChoose(2+vxTier())
	s := vxStr(n)
	for i := 0; i < n; i++ {
		vxAssume(vxRange(s[i], 0x20, 0x7e))
	}
	var doc string
	switch vxChoose(5) {
	case 0:
		doc = "k: " + s + "\nl: x\n"
	case 1:
		doc = "l:\n- p" + s + "\n- q\n"
	case 2:
		doc = "q" + s + "r: 1\n"
	case 3:
		doc = "a: &x v" + s + "\nb: *x\n"
	case 4:
		doc = "a: &x\n  k: z" + s + "\nb:\n  <<: *x\n"
	}
	c21twice([]byte(doc), func(b []byte, cached, load bool) (*DxValue, error) {
		if load {
			v := NewValue(VT_Array)
			return v, v.LoadFromYaml(b)
		}
		return NewValueFromYaml(b, cached)
	})
}

// vhC21_big: larger documents keep their content when the input is overwritten.
func vhC21_big() {
	n := vxBig(true)
	if n.k != nkObject {
		n = nObj1("r", n)
	}
	var b []byte
	var v *DxValue
	var err error
	f := vxChoose(3)
	switch f {
	case 0:
		b = Value2MsgPack(vxBuild(n), nil)
		v, err = NewValueFromMsgPack(b, vxBool(), false)
	case 1:
		b = vxBuild(n).ToBson(nil)
		v, err = NewValueFromBson(b, vxBool(), false)
	case 2:
		b = []byte(vxJSONText(n, ""))
		v, err = NewValueFromJson(b, vxBool(), false)
	}
	vxAssert(err == nil, "decodes")
	x := vxByte()
	for i := range b {
		b[i] = x
	}
	vxReach("overwritten")
	jSame(jNodeOf(v), n, "content")
}
