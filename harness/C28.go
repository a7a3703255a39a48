package dxsvalue

// With IgnoreCase on, an object is a map whose keys are compared without
// regard to the case of ASCII letters.

func c28eqb(a, b byte) bool {
	return vxOr(a == b, vxAnd(a^b == 0x20, vxRange(a|0x20, 'a', 'z')))
}

func c28eq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = vxAnd(r, c28eqb(a[i], b[i]))
	}
	return r
}

func c28find(n *vxNode, k string) int {
	for i := range n.keys {
		if c28eq(n.keys[i], k) {
			return i
		}
	}
	return -1
}

// c28put is the reference for setting a key: an existing one keeps its spelling.
func c28put(n *vxNode, k string, x *vxNode) {
	if i := c28find(n, k); i >= 0 {
		n.kids[i] = x
		return
	}
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, x)
}

func c28ascii() byte {
	b := vxByte()
	vxAssume(vxAnd(vxRange(b, 0x20, 0x7e), vxAnd(b != '"', b != '\\')))
	return b
}

func c28name() string {
	switch vxChoose(3) {
	case 0:
		return string([]byte{c28ascii()})
	case 1:
		return "Ab" + string([]byte{c28ascii()})
	}
	return ""
}

// c28start is an object with two names that differ by more than case.
func c28start() (*DxValue, *vxNode) {
	a, b := c28ascii(), c28ascii()
	vxAssume(!c28eqb(a, b))
	k1, k2 := string([]byte{a}), string([]byte{b})
	if vxBool() {
		k1, k2 = "aB"+k1, "AB"+k2
	}
	n := nObj2(k1, nInt(1), k2, nStr("two"))
	var v *DxValue
	var err error
	switch vxChoose(4) {
	case 0:
		v = vxBuild(n)
	case 1:
		v, err = NewValueFromJson([]byte(`{"`+k1+`":1,"`+k2+`":"two"}`), vxBool(), false)
	case 2:
		// the escaped name decodes to one with a letter in it
		k2 = "\tZ" + k2
		n.keys[1] = k2
		v, err = NewValueFromJson([]byte(`{"`+k1+`":1,"\t\u005a`+k2[2:]+`":"two"}`), false, vxBool())
	case 3:
		v, err = NewValueFromMsgPack(Value2MsgPack(vxBuild(n), nil), vxBool(), false)
	}
	vxAssert(err == nil, "start")
	return v, n
}

func c28op(v *DxValue, n *vxNode, k string) {
	i := c28find(n, k)
	switch vxChoose(8) {
	case 0:
		x := nInt(vxI64())
		v.SetKeyInt(k, x.i)
		c28put(n, k, x)
	case 1:
		v.SetKeyString(k, "s")
		c28put(n, k, nStr("s"))
	case 2:
		v.SetKeyBool(k, true)
		c28put(n, k, nKind(nkTrue))
	case 3:
		x := nArr(nInt(3))
		v.SetKeyValue(k, vxBuild(x))
		c28put(n, k, x)
	case 4:
		v.SetKeyvalue(k, 1.5, nil)
		c28put(n, k, &vxNode{k: nkDouble, bits: vxF64bits(1.5)})
	case 5:
		v.RemoveKey(k)
		if i >= 0 {
			vxMDel(n, i)
		}
	case 6:
		x := v.ExtractValue(k)
		if i >= 0 {
			vxHas(x, n.kids[i], "extracted")
			vxMDel(n, i)
		} else {
			vxAssert(x == nil, "nothing to extract")
		}
	case 7:
		x, y, z := v.ValueByName(k), v.Find(k), v.ValueByPath(k)
		vxAssert(x == y && y == z, "every lookup gives the same")
		if i >= 0 {
			vxHas(x, n.kids[i], "found")
			vxAssert(v.StringByName(k, "none") == x.String(), "by name")
			vxAssert(v.AsString(k, "none") == x.String(), "as string")
			vxAssert(v.StringByPath("none", k) == x.String(), "by path")
		} else {
			vxAssert(x == nil, "not found")
			vxAssert(v.AsInt(k, 77) == 77, "default")
			vxAssert(v.IntByPath(78, k) == 78, "default by path")
		}
	}
}

func vhC28_ops() {
	IgnoreCase = true
	defer func() { IgnoreCase = false }()
	v, n := c28start()
	c28op(v, n, c28name())
	vxReach("one")
	vxHas(v, n, "after one")
	for i := vxChoose(2 + vxTier()); i > 0; i-- {
		c28op(v, n, c28name())
		vxHas(v, n, "after more")
	}
}

// vhC28_path: two levels, each found without regard to case, and created once.
func vhC28_path() {
	IgnoreCase = true
	defer func() { IgnoreCase = false }()
	a, b := c28ascii(), c28ascii()
	n := nObj2("id", nInt(9), "o"+string([]byte{a}), nObj1("p"+string([]byte{b}), nInt(5)))
	v := vxBuild(n)
	p, q := "O"+string([]byte{c28ascii()}), "P"+string([]byte{c28ascii()})
	vxReach("built")
	hit1 := c28eq(p, n.keys[1])
	hit2 := hit1 && c28eq(q, n.kids[1].keys[0])
	switch vxChoose(3) {
	case 0:
		vxAssert((v.ValueByPath(p, q) != nil) == hit2, "path")
		want := int64(-1)
		if hit2 {
			want = 5
		}
		vxAssert(v.IntByPath(-1, p, q) == want, "by path")
	case 1:
		x := v.ForcePath(VT_Int, p, q)
		x.SetInt(7)
		if hit1 {
			c28put(n.kids[1], q, nInt(7))
		} else {
			c28put(n, p, nObj1(q, nInt(7)))
		}
	case 2:
		o := v.SetKey(p, VT_Object)
		o.SetKeyString(q, "z")
		if hit1 {
			c28put(n.kids[1], q, nStr("z"))
		} else {
			c28put(n, p, nObj1(q, nStr("z")))
		}
	}
	vxHas(v, n, "after")
}

// vhC28_merge: members of the same name but for its case are merged, not added.
func vhC28_merge() {
	IgnoreCase = true
	defer func() { IgnoreCase = false }()
	k1, k2, k3 := "x"+string([]byte{c28ascii()}), "y"+string([]byte{c28ascii()}), "w"
	j1, j2 := "X"+string([]byte{c28ascii()}), "Y"+string([]byte{c28ascii()})
	n := &vxNode{k: nkObject, keys: []string{k1, k2, k3}, kids: []*vxNode{nInt(1), nObj1("m", nStr("a")), nKind(nkTrue)}}
	m := nObj2(j1, nInt(2), j2, nObj2("M", nStr("b"), "z", nInt(0)))
	v, x := vxBuild(n), vxBuild(m)
	replace := vxBool()
	vxReach("built")
	calls := 0
	v.MergeWith(x, func(path string, oldv, newv *DxValue) MergeOp {
		calls++
		if replace {
			return MO_Replace
		}
		return MO_Normal
	})
	want := 0
	if c28eq(k1, j1) {
		want++
		if replace {
			n.kids[0] = nInt(2)
		} else {
			n.kids[0] = nArr(nInt(1), nInt(2))
		}
	} else {
		c28put(n, j1, nInt(2))
	}
	if c28eq(k2, j2) {
		want++
		if replace {
			n.kids[1] = vxClone(m.kids[1])
		} else {
			want++
			n.kids[1] = nObj2("m", nArr(nStr("a"), nStr("b")), "z", nInt(0))
		}
	} else {
		c28put(n, j2, vxClone(m.kids[1]))
	}
	vxAssert(calls == want, "asked about each member in both")
	vxHas(v, n, "merged")
	vxHas(x, m, "source")
}

// vhC28_off: with the option off again, case matters.
func vhC28_off() {
	IgnoreCase = true
	v, n := c28start()
	v.ValueByName("q")
	IgnoreCase = false
	k := c28name()
	vxReach("off")
	v.SetKeyInt(k, 5)
	vxMSet(n, k, nInt(5))
	vxHas(v, n, "case matters")
}
