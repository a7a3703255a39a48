package dxsvalue

// Copies are equal to their source and independent of it.

func c17tree() *vxNode {
	switch vxChoose(4 + vxTier()) {
	case 0:
		return vxScalar(1)
	case 1:
		return nArr(vxScalar(1))
	case 2:
		return nObj2(vxStr(1), nArr(nInt(vxI64()), vxScalarOf(nkBinary, 1)), "bb", nObj1("c", nStr(vxStr(1))))
	case 3:
		return nArr(nObj1("a", nArr(vxScalarOf(nkExt, 1))), nKind(nkTrue), &vxNode{k: nkObject})
	}
	return vxTree(1)
}

// c17src picks a source: its reference and its value, built or parsed.
func c17src() (*vxNode, *DxValue) {
	switch vxChoose(6) {
	case 5:
		v, n := vxRaw()
		return n, v
	case 0:
		n := c17tree()
		return n, vxBuild(n)
	case 1:
		// parsed from JSON, with escapes not yet decoded
		c := vxByte()
		vxAssume(vxRange(c, '1', '9'))
		s := string([]byte{c - '0' + 0x40})
		v, err := NewValueFromJson([]byte(`{"k\u004`+string([]byte{c})+`":"v\u004`+string([]byte{c})+`","b":[true,null,{"x\n":false}]}`), vxBool(), vxBool())
		vxAssert(err == nil, "parses")
		return nObj2("k"+s, nStr("v"+s), "b", nArr(nKind(nkTrue), nKind(nkNull), nObj1("x\n", nKind(nkFalse)))), v
	case 2:
		n := c17tree()
		v, err := NewValueFromMsgPack(Value2MsgPack(vxBuild(n), nil), true, vxBool())
		vxAssert(err == nil, "decodes")
		return n, v
	case 3:
		n := nArr(nObj1("a", nArr(vxScalarOf(nkExt, 1))), vxScalarOf(nkBinary, 2))
		return n, vxBuild(n)
	}
	// a tree built in a cache
	n := nObj2("a", nArr(nInt(vxI64())), "b", nObj1("c", nStr(vxStr(1))))
	v := NewObject(true)
	c := v.ValueCache()
	v.SetKeyCached("a", VT_Array, c).SetIndexCached(0, VT_Int, c).SetInt(n.kids[0].kids[0].i)
	v.SetKeyCached("b", VT_Object, c).SetKeyCached("c", VT_String, c).SetString(n.kids[1].kids[0].s)
	return n, v
}

// c17change changes something somewhere in v.
func c17change(v *DxValue, depth int) {
	if v == nil {
		return
	}
	switch v.DataType {
	case VT_Object, VT_Array:
		if v.Count() > 0 && depth > 0 && vxBool() {
			c17change(v.ValueByIndex(vxChoose(v.Count())), depth-1)
			return
		}
		switch vxChoose(8) {
		case 0:
			v.Clear()
		case 1:
			v.Reset(VT_Int)
			v.SetInt(vxI64())
		case 2:
			if v.DataType == VT_Object {
				v.SetKeyInt("new", vxI64())
			} else {
				v.SetIndexInt(v.Count(), vxI64())
			}
		case 3:
			if v.Count() > 0 {
				if v.DataType == VT_Object {
					v.SetKeyString(v.KeyNameByIndex(0), "changed")
				} else {
					v.SetIndexString(0, "changed")
				}
			}
		case 4:
			if v.Count() > 0 {
				if v.DataType == VT_Object {
					v.RemoveKey(v.KeyNameByIndex(0))
				} else {
					v.RemoveIndex(0)
				}
			}
		case 5:
			v.LoadFromJson([]byte(`[{"zz":"\u0041"},"yy"]`), false)
		case 6:
			if v.DataType == VT_Array {
				v.InsertValue(0, VT_Int).SetInt(vxI64())
			} else {
				v.ForcePath(VT_Int, "p", "q").SetInt(vxI64())
			}
		case 7:
			o := vxBuild(nObj2("new", nInt(1), "a", nInt(2)))
			if v.DataType == VT_Array {
				o = vxBuild(nArr(nInt(vxI64())))
			}
			v.MergeWith(o, nil)
		}
	case VT_Binary, VT_ExBinary:
		switch vxChoose(3) {
		case 0:
			b := v.Binary()
			for i := range b {
				b[i] ^= 0x55
			}
		case 1:
			v.SetExtType(v.BinExtType() + 1)
		case 2:
			v.SetBinary([]byte("other"), true)
		}
	default:
		switch vxChoose(5) {
		case 0:
			v.SetInt(vxI64())
		case 1:
			v.SetString("changed")
		case 2:
			v.SetBool(vxBool())
		case 3:
			v.Reset(VT_Object)
		case 4:
			v.Clear()
		}
	}
}

// c17apart asserts that v and c, both n, are independent.
func c17apart(v, c *DxValue, n *vxNode, l string) {
	vxHas(v, n, l+": source")
	vxHas(c, n, l+": copy")
	vxAssert(v.Equal(c), l+": equal")
	vxReach("copied")
	if n.k >= nkNull && n.k <= nkFalse {
		return
	}
	depth := 1 + vxTier()
	switch vxChoose(4) {
	case 0:
		c17change(c, depth)
		vxHas(v, n, l+": source after a change of the copy")
	case 1:
		c17change(v, depth)
		vxHas(c, n, l+": copy after a change of the source")
	case 2:
		FreeValue(c)
		vxBuild(nObj1("k", nArr(nInt(1))))
		NewValueFromJson([]byte(`{"z":["y",{"x":1}],"w":2.5}`), true, false)
		vxHas(v, n, l+": source after freeing the copy")
	case 3:
		FreeValue(v)
		NewValueFromJson([]byte(`{"z":["y",{"x":1}],"w":2.5}`), true, false)
		vxHas(c, n, l+": copy after freeing the source")
	}
}

func vhC17_clone() {
	n, v := c17src()
	c17apart(v, v.Clone(vxBool()), n, "clone")
}

// vhC17_leaves: the shared constants and times as the value itself, as members
// and as elements; a copy of them is changed without the source noticing.
func vhC17_leaves() {
	var l *vxNode
	if vxBool() {
		l = vxConst()
	} else {
		l = vxOdd()
	}
	n := l
	switch vxChoose(4) {
	case 0:
		n = nObj2("a", l, "b", nArr(l))
	case 1:
		n = nArr(l, nObj1("k", l), l)
	case 2:
		n = nObj1("t", nObj1("a", l))
	}
	v := vxBuild(n)
	var w *DxValue
	switch vxChoose(4) {
	case 0:
		w = v.Clone(vxBool())
	case 1:
		w = c17target()
		w.CopyFrom(v, nil)
	case 2:
		vxAssume(n.k <= nkArray)
		w = NewValue(v.DataType)
		w.AddFrom(v, nil)
	case 3:
		vxAssume(n.k <= nkArray)
		w = NewObject(true)
		w.CopyFrom(v, w.ValueCache())
	}
	vxHas(v, n, "source")
	vxHas(w, n, "copy")
	vxReach("copied")
	if n.k > nkArray {
		return
	}
	a, b := v, w
	if vxBool() {
		a, b = w, v
	}
	c17change(a, 2)
	vxHas(b, n, "other side")
	vxHas(vxBuild(nArr(nKind(nkTrue), nKind(nkFalse), nKind(nkNull), nKind(nkNan), nKind(nkInf))),
		nArr(nKind(nkTrue), nKind(nkFalse), nKind(nkNull), nKind(nkNan), nKind(nkInf)), "constants")
}

// c17target is a target with earlier content.
func c17target() *DxValue {
	switch vxChoose(5) {
	case 0:
		return NewValue(VT_Object)
	case 1:
		return vxBuild(nObj2("a", nStr("old"), "z", nArr(nInt(1))))
	case 2:
		return vxBuild(nArr(nKind(nkTrue), nStr("old")))
	case 3:
		v, _ := NewValueFromJson([]byte(`{"o\u0041":"\u0042"}`), vxBool(), false)
		return v
	}
	return vxBuild(&vxNode{k: nkExt, s: "old", ext: 7})
}

func vhC17_copyfrom() {
	n, v := c17src()
	c := c17target()
	c.CopyFrom(v, nil)
	if n.k >= nkNull && n.k <= nkFalse {
		vxReach("copied")
		vxHas(c, n, "copy of a constant")
		return
	}
	c17apart(v, c, n, "copy")
}

func vhC17_copyfrom_cache() {
	n, v := c17src()
	vxAssume(n.k == nkObject || n.k == nkArray)
	c := NewObject(true)
	c.CopyFrom(v, c.ValueCache())
	vxHas(v, n, "source")
	vxHas(c, n, "copy")
	vxReach("copied")
	c17change(v, 1)
	vxHas(c, n, "copy after a change of the source")
}

// vhC17_addfrom: the members the target lacks are added, as copies.
func vhC17_addfrom() {
	n, v := c17src()
	vxAssume(n.k == nkObject || n.k == nkArray)
	var t *DxValue
	var tn *vxNode
	if n.k == nkObject {
		switch vxChoose(3) {
		case 0:
			tn = &vxNode{k: nkObject}
			t = NewObject(vxBool())
		case 1:
			tn = nObj2(vxStr(1), nInt(1), "zz", nStr("old"))
			t = vxBuild(tn)
		case 2:
			tn = nObj1("b", nStr("A"))
			t, _ = NewValueFromJson([]byte(`{"\u0062":"\u0041"}`), vxBool(), false)
		}
	} else {
		tn = nArr(vxFewScalar(1))
		t = vxBuild(tn)
	}
	r := vxClone(tn)
	if n.k == nkArray {
		r.kids = append(r.kids, n.kids...)
	} else {
		for i := range n.keys {
			if vxFind(tn, n.keys[i]) < 0 {
				r.keys = append(r.keys, n.keys[i])
				r.kids = append(r.kids, n.kids[i])
			}
		}
	}
	t.AddFrom(v, nil)
	vxReach("added")
	vxHas(t, r, "target")
	vxHas(v, n, "source")
	switch vxChoose(3) {
	case 0:
		c17change(v, 2)
		vxHas(t, r, "target after a change of the source")
	case 1:
		c17change(t, 2)
		vxHas(v, n, "source after a change of the target")
	case 2:
		FreeValue(v)
		NewValueFromJson([]byte(`{"z":["y",{"x":1}],"w":2.5}`), true, false)
		vxHas(t, r, "target after freeing the source")
	}
}

// vhC17_big: copies of larger trees, changed on one side at some place.
func vhC17_big() {
	n := vxBig(false)
	v := vxBuild(n)
	mode := vxChoose(6)
	if mode == 1 || mode == 2 || mode == 5 {
		var err error
		v, err = NewValueFromMsgPack(Value2MsgPack(v, nil), true, false)
		vxAssert(err == nil, "decodes")
	}
	var w *DxValue
	switch mode {
	case 0, 1:
		w = v.Clone(mode == 1)
	case 2, 3:
		w = NewObject(mode == 2)
		w.CopyFrom(v, w.ValueCache())
	default:
		w = NewValue(v.DataType)
		w.AddFrom(v, w.ValueCache())
	}
	vxReach("copied")
	vxHas(w, n, "copy")
	a, b := v, w
	if vxBool() {
		a, b = w, v
	}
	m := vxBigChange(a, n)
	vxHas(b, n, "other side")
	if m != nil {
		vxHas(a, m, "changed side")
		return
	}
	FreeValue(a)
	x, err := NewValueFromMsgPack([]byte{0x93, 1, 0x91, 2, 0xa1, 'q'}, true, false)
	vxAssert(err == nil && x.Count() == 3, "reuse")
	vxHas(b, n, "other side after reuse")
}
