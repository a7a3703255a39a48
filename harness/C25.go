package dxsvalue

// Values keep their meaning from one format to another.

func c25nul(n *vxNode) bool {
	for i := range n.kids {
		if n.k == nkObject {
			for j := 0; j < len(n.keys[i]); j++ {
				if n.keys[i][j] == 0 {
					return true
				}
			}
		}
		if c25nul(n.kids[i]) {
			return true
		}
	}
	return false
}

// c25touch reads the value in one of several ways, or not at all.
func c25touch(v *DxValue, n *vxNode) {
	switch vxChoose(6) {
	case 1:
		jNodeOf(v)
	case 2:
		if n.k == nkObject && len(n.keys) > 0 {
			v.ValueByName(n.keys[0])
		}
	case 3:
		v.ValueByName("nothere\\")
	case 4:
		_ = v.String()
	case 5:
		v.Visit(func(k string, x *DxValue) bool { _ = x.String(); return true })
	}
}

// c25out writes v in each format that can hold it and reads it with the reference.
func c25out(v *DxValue, n *vxNode) {
	vxReach("read")
	c25touch(v, n)
	switch vxChoose(3) {
	case 0:
		out := v.ToMsgPack(nil)
		got, p, ok := mpDec(out, 0)
		vxAssert(ok && p == len(out), "MsgPack output is well-formed")
		jSame(got, n, "as MsgPack")
		vxReach("msgpack")
	case 1:
		if n.k != nkObject || c25nul(n) {
			return
		}
		out := v.ToBson(nil)
		got, p, ok := bsDoc(out, 0, len(out), false)
		vxAssert(ok && p == len(out), "BSON output is well-formed")
		jSame(got, n, "as BSON")
		vxReach("bson")
	case 2:
		if c25bin(n) {
			return
		}
		out := v.ToJson(vxBool(), JSE_OnlyAnsiChar, false, nil)
		got, st := jsonRead(out)
		vxAssert(st == jOK, "JSON output is a document")
		jSame(got, n, "as JSON")
		vxReach("json")
	}
}

// c25bin reports content that JSON has no notation for.
func c25bin(n *vxNode) bool {
	for i := range n.kids {
		if c25bin(n.kids[i]) {
			return true
		}
	}
	return n.k == nkBinary
}

func c25json(doc string) {
	n, st := jsonRead([]byte(doc))
	vxAssume(st == jOK)
	v, err := NewValueFromJson([]byte(doc), vxBool(), vxBool())
	vxAssert(err == nil, "document parses")
	c25out(v, n)
}

// free bytes of a JSON string, as string and key at several places
func vhC25_json() {
	s := `"` + vxStr(vxChoose(3+vxTier())) + `"`
	switch vxChoose(5) {
	case 0:
		c25json(`[` + s + `,1]`)
	case 1:
		c25json(`{` + s + `:2,"x":{}}`)
	case 2:
		c25json(`{"a":{` + s + `:[` + s + `]}}`)
	case 3:
		c25json(`[[{"q":{` + s + `:null}}]]`)
	case 4:
		c25json(s)
	}
}

// every two-character escape and symbolic \u escapes
func vhC25_escape() {
	e := vxByte()
	vxAssume(vxIn(e, `"\/bfnrt`))
	d := vxByte()
	vxAssume(vxOr(vxRange(d, '0', '9'), vxRange(d, 'a', 'f')))
	s := []string{`"\` + string([]byte{e}) + `"`, `"x\u00` + string([]byte{d}) + `1"`, `"\u` + string([]byte{d}) + `041\t"`, `"\ud83d\ude0` + string([]byte{d}) + `"`}[vxChoose(4)]
	switch vxChoose(3) {
	case 0:
		c25json(`{` + s + `:` + s + `}`)
	case 1:
		c25json(`{"o":{"p":[` + s + `]},` + s + `:{` + s + `:false}}`)
	case 2:
		c25json(`[` + s + `,{"k":` + s + `}]`)
	}
}

// numbers of a JSON document
func vhC25_number() {
	d := vxStr(1)
	vxAssume(vxRange(d[0], '0', '9'))
	t := []string{"1" + d, "-" + d, "92233720368547758" + "0" + d, "1" + d + ".5", "-0." + d, d + "e3", "1e300", "12345678901234567890", "-0"}[vxChoose(9)]
	c25json(`{"n":[` + t + `]}`)
}

func c25scalar() *vxNode {
	switch vxChoose(8) {
	case 0:
		return nStr(jStr(4 + vxTier()))
	case 1:
		return nInt(int64(int16(vxU16())))
	case 2:
		return &vxNode{k: nkDouble, bits: vxF64bits(-0.125)}
	case 3:
		return &vxNode{k: nkFloat, bits: uint64(vxF32bits(1e10))}
	case 4:
		return nKind(nkNull)
	case 5:
		return nKind(nkTrue)
	case 6:
		return nKind(nkFalse)
	}
	return &vxNode{k: nkBinary, s: vxStr(vxChoose(3))}
}

func c25tree() *vxNode {
	switch vxChoose(4) {
	case 0:
		return nObj1(jStr(9), c25scalar())
	case 1:
		return nObj2("a", nArr(c25scalar(), nObj1("b", nKind(nkNull))), "c", &vxNode{k: nkObject})
	case 2:
		return nObj1("w", nObj1(jStr(3), nArr(nArr(nInt(5)), c25scalar())))
	}
	return nObj2(jStr(1), nStr(jStr(1)), "longer key", nArr())
}

// decoded from MessagePack
func vhC25_msgpack() {
	n := c25tree()
	if vxBool() {
		n = nArr(n.kids[0], nKind(nkTrue))
	}
	v, err := NewValueFromMsgPack(Value2MsgPack(vxBuild(n), nil), vxBool(), false)
	vxAssert(err == nil, "MsgPack decodes")
	c25out(v, n)
}

// decoded from BSON
func vhC25_bson() {
	n := c25tree()
	vxAssume(!c25nul(n))
	v, err := NewValueFromBson(vxBuild(n).ToBson(nil), vxBool(), false)
	vxAssert(err == nil, "BSON decodes")
	c25out(v, n)
}

// chains of three formats
func vhC25_chain() {
	doc := `{"k` + []string{`\u00e9`, `\\`, `\n`, `\/`, `%41`, ``}[vxChoose(6)] + `":["` + []string{`\"`, `\ud83d\ude00`, `\t`, `é`}[vxChoose(4)] + vxStr(1) + `",{"n":[1,2.5]}]}`
	n, st := jsonRead([]byte(doc))
	vxAssume(st == jOK)
	v, err := NewValueFromJson([]byte(doc), false, false)
	vxAssert(err == nil, "document parses")
	for i := 0; i < 2; i++ {
		switch vxChoose(3) {
		case 0:
			v, err = NewValueFromMsgPack(v.ToMsgPack(nil), vxBool(), false)
		case 1:
			v, err = NewValueFromBson(v.ToBson(nil), false, false)
		case 2:
			v, err = NewValueFromJson(v.ToJson(vxBool(), JSE_AllEscape, false, nil), false, true)
		}
		vxAssert(err == nil, "intermediate form reads")
	}
	c25out(v, n)
}

// vhC25_raw: text that is decoded lazily, or looks escaped once decoded.
func vhC25_raw() {
	v, n := vxRaw()
	c25out(v, n)
}

// vhC25_big: larger documents in every format.
func vhC25_big() {
	n := vxBig(true)
	if n.k != nkObject {
		n = nObj1("r", n)
	}
	v, err := NewValueFromJson([]byte(vxJSONText(n, "")), vxBool(), vxBool())
	vxAssert(err == nil, "parses")
	if vxBool() {
		jSame(jNodeOf(v), n, "read before")
	}
	for i := 0; i < 2; i++ {
		switch vxChoose(3) {
		case 0:
			v, err = NewValueFromMsgPack(Value2MsgPack(v, nil), false, false)
		case 1:
			v, err = NewValueFromBson(v.ToBson(nil), false, false)
		case 2:
			v, err = NewValueFromJson(Value2Json(v, JSE_OnlyAnsiChar, false, nil), false, false)
		}
		vxAssert(err == nil, "converts")
	}
	vxReach("converted")
	jSame(jNodeOf(v), n, "content")
}
