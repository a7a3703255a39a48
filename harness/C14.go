package dxsvalue

// Arrays behave as lists under every short sequence of operations; every index
// is an unconstrained 64-bit integer.

func c14start(n *vxNode) *DxValue {
	var v *DxValue
	switch vxChoose(6) {
	case 0:
		v = NewValue(VT_Array)
	case 1:
		v = NewArray(true)
	case 2:
		v = NewValue(VT_Array)
		x := vxI64()
		v.SetIndexInt(0, x)
		v.SetIndexString(1, "s")
		n.kids = []*vxNode{nInt(x), nStr("s")}
	case 3:
		var err error
		v, err = NewValueFromJson([]byte(`[null,"a",{"b":true}]`), vxBool(), false)
		vxAssert(err == nil, "parses")
		n.kids = []*vxNode{nKind(nkNull), nStr("a"), nObj1("b", nKind(nkTrue))}
	case 4:
		var err error
		v, err = NewValueFromMsgPack([]byte{0x92, 0xc3, 5}, vxBool(), false)
		vxAssert(err == nil, "parses")
		n.kids = []*vxNode{nKind(nkTrue), nInt(5)}
	case 5:
		n.kids = []*vxNode{vxConst(), vxOdd()}
		v = vxBuild(n)
	}
	return v
}

// c14at is the position idx denotes in n, or -1.
func c14at(n *vxNode, idx int) int {
	for i := range n.kids {
		if idx == i {
			return i
		}
	}
	return -1
}

func c14set(n *vxNode, idx int, x *vxNode) {
	if i := c14at(n, idx); i >= 0 {
		n.kids[i] = x
	} else {
		n.kids = append(n.kids, x)
	}
}

func c14op(v *DxValue, n *vxNode) {
	idx := int(vxI64())
	switch vxChoose(11) {
	case 0:
		x := vxI64()
		v.SetIndexInt(idx, x)
		c14set(n, idx, nInt(x))
	case 1:
		s := vxStr(1)
		v.SetIndexString(idx, s)
		c14set(n, idx, nStr(s))
	case 2:
		if vxBool() {
			v.SetIndexBool(idx, true)
			c14set(n, idx, nKind(nkTrue))
		} else {
			v.SetIndexBool(idx, false)
			c14set(n, idx, nKind(nkFalse))
		}
	case 3:
		x := nObj1("k", nInt(vxI64()))
		v.SetIndexValue(idx, vxBuild(x))
		c14set(n, idx, x)
	case 4:
		// get or create a nested array
		x := vxI64()
		a := v.SetIndex(idx, VT_Array)
		a.SetIndexInt(-1, x)
		if i := c14at(n, idx); i >= 0 && n.kids[i].k == nkArray {
			n.kids[i].kids = append(n.kids[i].kids, nInt(x))
		} else {
			c14set(n, idx, nArr(nInt(x)))
		}
	case 5:
		x := vxI64()
		v.Append(VT_Int).SetInt(x)
		n.kids = append(n.kids, nInt(x))
	case 6:
		x := vxI64()
		v.InsertValue(idx, VT_Int).SetInt(x)
		i := c14at(n, idx)
		if i < 0 && idx < 0 {
			i = 0
		} else if i < 0 {
			i = len(n.kids)
		}
		vxMIns(n, i, nInt(x))
	case 7:
		v.RemoveIndex(idx)
		if i := c14at(n, idx); i >= 0 {
			vxMDel(n, i)
		}
	case 8:
		x := v.ValueByIndex(idx)
		if i := c14at(n, idx); i >= 0 {
			vxHas(x, n.kids[i], "read")
		} else {
			vxAssert(x == nil, "no element")
			vxAssert(v.IntByIndex(idx, 42) == 42, "int default")
			vxAssert(v.StringByIndex(idx, "dflt") == "dflt", "string default")
			vxAssert(v.BoolByIndex(idx, true), "bool default")
			vxAssert(v.DoubleByIndex(idx, 1.5) == 1.5, "double default")
			vxAssert(v.FloatByIndex(idx, 2.5) == 2.5, "float default")
		}
	case 9:
		v.Clear()
		n.kids = nil
	case 10:
		if vxBool() {
			v.SetIndex(idx, VT_NULL)
		} else {
			v.SetIndexValue(idx, NewValue(VT_NULL))
		}
		c14set(n, idx, nKind(nkNull))
	}
}

func vhC14_ops() {
	n := nArr()
	v := c14start(n)
	steps := 2
	if vxTier() == 1 || len(n.kids) == 0 {
		steps = 3
	}
	for s := 0; s < steps; s++ {
		c14op(v, n)
	}
	vxReach("done")
	vxAgree(v, n, "array")
}

// vhC14_grow: growth past every internal capacity, then an insertion and a
// removal at a symbolic place.
func vhC14_grow() {
	n := nArr()
	v := NewArray(vxBool())
	cnt := []int{7, 8, 9, 16, 17, 33, 65, 130, 257, 1025}[vxChoose(10)]
	base := vxI64()
	for i := 0; i < cnt; i++ {
		v.SetIndexInt(i, base+int64(i))
		n.kids = append(n.kids, nInt(base+int64(i)))
	}
	p := []int{0, 1, cnt / 2, cnt - 1, cnt, cnt + 1}[vxChoose(6)]
	v.InsertValue(p, VT_String).SetString("new")
	if p > cnt {
		p = cnt
	}
	vxMIns(n, p, nStr("new"))
	q := []int{0, 1, cnt / 2, cnt - 1, cnt}[vxChoose(5)]
	v.RemoveIndex(q)
	vxMDel(n, q)
	vxReach("grown")
	vxAgree(v, n, "array")
}

// vhC14_raw: elements that are decoded lazily.
func vhC14_raw() {
	v, n := vxRaw()
	v, n = v.ValueByName("b"), n.kids[1]
	vxReach("made")
	switch vxChoose(6) {
	case 0:
		v.SetIndexString(0, `\n`)
		n.kids[0] = nStr(`\n`)
	case 1:
		v.SetIndexInt(0, 3)
		n.kids[0] = nInt(3)
	case 2:
		v.RemoveIndex(0)
		n.kids = n.kids[1:]
	case 3:
		v.InsertValue(0, VT_String).SetString(`\\`)
		n.kids = []*vxNode{nStr(`\\`), n.kids[0], n.kids[1]}
	case 4:
		v.SetIndexValue(1, v.ValueByIndex(0))
		n.kids[1] = n.kids[0]
	case 5:
		v.Append(VT_String).SetString(`\t`)
		n.kids = append(n.kids, nStr(`\t`))
	}
	vxHas(v, n, "array")
}
