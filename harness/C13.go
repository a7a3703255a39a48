package dxsvalue

// Objects behave as insertion-ordered maps under every short sequence of operations.

func c13start(n *vxNode, parsed bool) *DxValue {
	if !parsed {
		var v *DxValue
		switch vxChoose(4 + vxTier()) {
		case 3:
			k1, k2 := vxStr(1), "x"+vxStr(1)
			vxAssume(vxAnd(k1[0] != 0, k2[1] != 0))
			src := NewValue(VT_Object)
			src.SetKeyInt(k1, 5)
			src.SetKeyString(k2, "s")
			vxMSet(n, k1, nInt(5))
			vxMSet(n, k2, nStr("s"))
			var err error
			if vxBool() {
				v, err = NewValueFromMsgPack(Value2MsgPack(src, nil), vxBool(), false)
			} else {
				v, err = NewValueFromBson(src.ToBson(nil), vxBool(), false)
			}
			vxAssert(err == nil, "decodes")
		case 0:
			v = NewValue(VT_Object)
		case 1:
			v = NewObject(true)
		case 4:
			v = NewObject(false)
		case 2:
			v = NewValue(VT_Object)
			k := vxStr(1)
			v.SetKeyInt(k, 77)
			vxMSet(n, k, nInt(77))
		}
		return v
	}
	// parsed from JSON: the second key holds an escape
	k1, k2 := vxByte(), vxByte()
	vxAssume(vxAnd(vxRange(k1, 0x20, 0x7e), vxAnd(k1 != '"', k1 != '\\')))
	var doc, name2 string
	switch vxChoose(3) {
	case 0:
		vxAssume(vxIn(k2, `"\/`))
		doc, name2 = "\\"+string([]byte{k2}), string([]byte{k2})
	case 1:
		vxAssume(vxRange(k2, '0', '9'))
		doc, name2 = "\\u006"+string([]byte{k2}), string([]byte{k2 - '0' + 0x60})
	case 2:
		vxAssume(vxRange(k2, '1', '9'))
		doc, name2 = "x\\u004"+string([]byte{k2}), "x"+string([]byte{k2 - '0' + 0x40})
	}
	vxAssume(!vxEq(string([]byte{k1}), name2))
	v, err := NewValueFromJson([]byte(`{"`+string([]byte{k1})+`":1,"`+doc+`":2}`), vxBool(), vxBool())
	vxAssert(err == nil, "parses")
	vxMSet(n, string([]byte{k1}), nInt(1))
	vxMSet(n, name2, nInt(2))
	if vxBool() {
		vxTouch(v)
	}
	return v
}

func c13key() string {
	switch vxChoose(3) {
	case 0:
		return ""
	case 1:
		return vxStr(1)
	}
	return "x" + vxStr(1)
}

// c13op applies one operation to v and to its reference.
func c13op(v *DxValue, n *vxNode, k string) {
	i := vxFind(n, k)
	switch vxChoose(9) {
	case 0:
		x := nInt(vxI64())
		v.SetKeyInt(k, x.i)
		vxMSet(n, k, x)
	case 1:
		x := nStr(vxStr(1))
		v.SetKeyString(k, x.s)
		vxMSet(n, k, x)
	case 2:
		if vxBool() {
			v.SetKeyBool(k, true)
			vxMSet(n, k, nKind(nkTrue))
		} else {
			v.SetKeyBool(k, false)
			vxMSet(n, k, nKind(nkFalse))
		}
	case 3:
		x := nArr(nInt(vxI64()))
		v.SetKeyValue(k, vxBuild(x))
		vxMSet(n, k, x)
	case 4:
		// get or create a nested object
		x := vxI64()
		o := v.SetKey(k, VT_Object)
		vxAssert(o != nil && o == v.ValueByName(k), "the set value is the member")
		o.SetKeyInt("q", x)
		if i >= 0 && n.kids[i].k == nkObject {
			vxMSet(n.kids[i], "q", nInt(x))
		} else {
			vxMSet(n, k, nObj1("q", nInt(x)))
		}
	case 5:
		v.RemoveKey(k)
		if i >= 0 {
			vxMDel(n, i)
		}
	case 6:
		x := v.ExtractValue(k)
		if i >= 0 {
			vxHas(x, n.kids[i], "extracted")
			vxMDel(n, i)
		} else {
			vxAssert(x == nil, "nothing to extract")
		}
	case 7:
		x := v.ValueByName(k)
		if i >= 0 {
			vxHas(x, n.kids[i], "found")
		} else {
			vxAssert(x == nil, "not found")
		}
	case 8:
		v.Clear()
		n.keys, n.kids = nil, nil
	}
}

func vhC13_ops() {
	n := &vxNode{k: nkObject}
	v := c13start(n, false)
	steps := 3
	if vxTier() == 0 && len(n.kids) > 0 {
		steps = 2
	}
	for s := 0; s < steps; s++ {
		c13op(v, n, c13key())
	}
	vxReach("done")
	vxAgree(v, n, "object")
}

func vhC13_parsed() {
	n := &vxNode{k: nkObject}
	v := c13start(n, true)
	steps := 2
	if vxTier() == 1 {
		steps = 3
	}
	for s := 0; s < steps; s++ {
		c13op(v, n, c13key())
	}
	vxReach("done")
	vxAgree(v, n, "object")
}

// vhC13_grow: growth past every internal capacity keeps members and order, and
// removal from each position deletes exactly that member.
func vhC13_grow() {
	n := &vxNode{k: nkObject}
	v := NewObject(vxBool())
	cnt := []int{7, 8, 9, 16, 17, 33, 65, 130, 257}[vxChoose(9)]
	base := vxI64()
	for i := 0; i < cnt; i++ {
		k := "k" + vxUtoa(uint64(i))
		v.SetKeyInt(k, base+int64(i))
		vxMSet(n, k, nInt(base+int64(i)))
	}
	p := []int{0, 1, cnt / 2, cnt - 2, cnt - 1}[vxChoose(5)]
	k := "k" + vxUtoa(uint64(p))
	if vxBool() {
		v.RemoveKey(k)
	} else {
		vxAssert(v.ExtractValue(k) != nil, "extracted")
	}
	vxMDel(n, p)
	v.SetKeyInt("new", base)
	vxMSet(n, "new", nInt(base))
	v.SetKeyInt("k3", base)
	vxMSet(n, "k3", nInt(base))
	vxReach("grown")
	vxAgree(v, n, "object")
}

// vhC13_ignorecase: with the option on, names that differ in ASCII case are one key.
func vhC13_ignorecase() {
	IgnoreCase = true
	defer func() { IgnoreCase = false }()
	a, b, c := vxByte(), vxByte(), vxByte()
	vxAssume(vxAnd(a < 0x80, vxAnd(b < 0x80, c < 0x80)))
	low := func(x byte) byte {
		if x >= 'A' && x <= 'Z' {
			return x + 32
		}
		return x
	}
	la, lb, lc := low(a), low(b), low(c)
	vxAssume(la != lb)
	v := NewValue(VT_Object)
	v.SetKeyInt("k"+string([]byte{a}), 1)
	v.SetKeyInt("k"+string([]byte{b}), 2)
	name := "K" + string([]byte{c})
	vxReach("built")
	want := 0
	if lc == la {
		want = 1
	} else if lc == lb {
		want = 2
	}
	vxAssert(v.AsInt(name, 0) == want, "lookup ignores case")
	switch vxChoose(3) {
	case 0:
		v.SetKeyInt(name, 3)
		if want == 0 {
			vxAssert(v.Count() == 3, "a new member")
		} else {
			vxAssert(v.Count() == 2, "no second member")
			vxAssert(v.IntByIndex(want-1, 0) == 3, "overwritten in place")
		}
	case 1:
		v.RemoveKey(name)
		if want == 0 {
			vxAssert(v.Count() == 2, "nothing removed")
		} else {
			vxAssert(v.Count() == 1, "one removed")
			vxAssert(v.IntByIndex(0, 0) == 3-want, "the other stays")
		}
	case 2:
		x := v.ExtractValue(name)
		vxAssert((x != nil) == (want != 0), "extracts")
		if x != nil {
			vxAssert(x.Int() == int64(want), "the right one")
			vxAssert(v.Count() == 1, "one extracted")
		}
	}
}

// vhC13_raw: lookups, changes and removals whatever has been decoded so far.
func vhC13_raw() {
	v, n := vxRaw()
	k := n.keys[0]
	vxReach("made")
	switch vxChoose(7) {
	case 0:
		vxHas(v.ValueByName(k), n.kids[0], "member")
	case 1:
		v.SetKeyInt(k, 7)
		vxMSet(n, k, nInt(7))
	case 2:
		v.RemoveKey(k)
		vxMDel(n, 0)
	case 3:
		x := v.ExtractValue(k)
		vxHas(x, n.kids[0], "extracted")
		vxMDel(n, 0)
	case 4:
		v.SetKeyString(`q\n`, `w\t`)
		vxMSet(n, `q\n`, nStr(`w\t`))
	case 5:
		v.SetKeyValue("c", vxBuild(nStr(`\u0041`)))
		vxMSet(n, "c", nStr(`\u0041`))
	case 6:
		o := v.ValueByName("b").ValueByIndex(1)
		m := n.kids[1].kids[1]
		o.SetKeyInt(m.keys[0], 8)
		vxMSet(m, m.keys[0], nInt(8))
		o.SetKeyInt(`\\`, 9)
		vxMSet(m, `\\`, nInt(9))
	}
	vxAgree(v, n, "object")
}

// vhC13_first: whatever reads or changes a parsed object first, and wherever
// the object is, its members are those of the document.
func vhC13_first() {
	v, n := vxRaw()
	if vxBool() {
		v, n = v.ValueByIndex(1).ValueByIndex(1), n.kids[1].kids[1]
	}
	i := vxChoose(len(n.keys))
	vxReach("made")
	switch vxChoose(9) {
	case 0:
		vxAssert(vxEq(v.KeyNameByIndex(i), n.keys[i]), "name by index")
	case 1:
		k, _ := v.Items(i)
		vxAssert(vxEq(k, n.keys[i]), "item")
	case 2:
		j := 0
		v.Visit(func(k string, x *DxValue) bool {
			vxAssert(vxEq(k, n.keys[j]), "visited name")
			j++
			return vxBool()
		})
	case 3:
		vxHas(v.ValueByName(n.keys[i]), n.kids[i], "found")
	case 4:
		vxHas(v.ExtractValue(n.keys[i]), n.kids[i], "extracted")
		vxMDel(n, i)
	case 5:
		v.RemoveKey(n.keys[i])
		vxMDel(n, i)
	case 6:
		x := vxI64()
		v.SetKeyInt(n.keys[i], x)
		n.kids[i] = nInt(x)
	case 7:
		v.SetKeyValue(n.keys[i], NewValue(VT_INF))
		n.kids[i] = nKind(nkInf)
	case 8:
		v.SetKeyString(`\`, "new")
		vxMSet(n, `\`, nStr("new"))
	}
	vxAgree(v, n, "object")
}

// vhC13_odd: members that are shared constants or times are replaced and
// removed like others.
func vhC13_odd() {
	n := nObj2("a", vxConst(), "b", vxOdd())
	v := vxBuild(n)
	c13op(v, n, []string{"a", "b", "c"}[vxChoose(3)])
	vxReach("done")
	vxAgree(v, n, "object")
}
