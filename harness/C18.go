package dxsvalue

// Equality is content equality.

func c18num(n *vxNode) float64 {
	switch n.k {
	case nkInt:
		return float64(n.i)
	case nkFloat:
		return float64(vxF32frombits(uint32(n.bits)))
	}
	return vxF64frombits(n.bits)
}

// c18eq is the reference: same kind and content, numbers of different kinds by value.
func c18eq(a, b *vxNode) bool {
	if a.k != b.k {
		if vxAnd(a.k >= nkInt && a.k <= nkDouble, b.k >= nkInt && b.k <= nkDouble) {
			return c18num(a) == c18num(b)
		}
		return false
	}
	r := true
	switch a.k {
	case nkObject, nkArray:
		if len(a.kids) != len(b.kids) {
			return false
		}
		for i := range a.kids {
			if a.k == nkObject {
				r = vxAnd(r, vxEq(a.keys[i], b.keys[i]))
			}
			r = vxAnd(r, c18eq(a.kids[i], b.kids[i]))
		}
	case nkString, nkBinary:
		return vxEq(a.s, b.s)
	case nkExt:
		return vxAnd(a.ext == b.ext, vxEq(a.s, b.s))
	case nkInt:
		return a.i == b.i
	case nkFloat, nkDouble:
		return a.bits == b.bits
	case nkTime:
		return vxAnd(a.i == b.i, a.bits == b.bits)
	}
	return r
}

func c18check(v, x *DxValue, n, m *vxNode) {
	want := c18eq(n, m)
	vxReach("compared")
	vxAssert(v.Equal(x) == want, "equal exactly when the content is")
	vxAssert(x.Equal(v) == want, "symmetric")
	vxAssert(v.Equal(v), "reflexive")
	vxHas(v, n, "left unchanged")
	vxHas(x, m, "right unchanged")
}

func vhC18_scalars() {
	n, m := vxScalar(2), vxScalar(2)
	c18check(vxBuild(n), vxBuild(m), n, m)
}

// vhC18_leaves: the shared constants and times against every kind of leaf, alone
// and inside containers.
func vhC18_leaves() {
	leaf := func(all bool) *vxNode {
		switch vxChoose(3) {
		case 0:
			return vxConst()
		case 1:
			return vxOdd()
		}
		if all {
			return vxScalar(1)
		}
		return nArr()
	}
	n, m := leaf(true), leaf(false)
	if vxBool() {
		n, m = m, n
	}
	switch vxChoose(3) {
	case 0:
		n, m = nObj2("a", nInt(1), "b", n), nObj2("a", nInt(1), "b", m)
	case 1:
		n, m = nArr(n, nStr("x")), nArr(m, nStr("x"))
	}
	c18check(vxBuild(n), vxBuild(m), n, m)
}

// vhC18_trees: a tree against an equally shaped one with other content, and
// against trees of other shapes.
func vhC18_trees() {
	shape := func(i int) *vxNode {
		switch i {
		case 0:
			return &vxNode{k: nkObject}
		case 1:
			return nArr()
		case 2:
			return nArr(vxScalar(1))
		case 3:
			return nObj1(vxStr(vxChoose(2)), vxScalar(1))
		case 4:
			return nArr(vxFewScalar(1), vxFewScalar(1))
		case 5:
			k1, k2 := vxStr(1), vxStr(1)
			vxAssume(!vxEq(k1, k2))
			return nObj2(k1, vxFewScalar(0), k2, nInt(vxI64()))
		case 6:
			return nObj1(vxStr(1), nArr(nObj1(vxStr(1), nInt(vxI64())), nStr(vxStr(1))))
		case 7:
			return nArr(nArr(nInt(vxI64())), nArr())
		}
		return nArr(nArr(), nArr(nInt(vxI64())))
	}
	i := vxChoose(9)
	j := i
	if vxBool() {
		j = vxChoose(9)
	}
	n, m := shape(i), shape(j)
	c18check(vxBuild(n), vxBuild(m), n, m)
}

// vhC18_parsed: values parsed from JSON are equal to values with the same
// decoded content.
func vhC18_parsed() {
	c, d := vxByte(), vxByte()
	vxAssume(vxRange(c, '0', '9'))
	vxAssume(vxAnd(vxRange(d, 0x20, 0x7e), vxAnd(d != '"', d != '\\')))
	esc := string([]byte{c - '0' + 0x60})
	plain := string([]byte{d})
	var doc1, doc2 string
	var n, m *vxNode
	switch vxChoose(4) {
	case 0:
		doc1, n = `"\u006`+string([]byte{c})+`"`, nStr(esc)
		doc2, m = `"`+plain+`"`, nStr(plain)
	case 1:
		doc1, n = `{"\u006`+string([]byte{c})+`":1}`, nObj1(esc, nInt(1))
		doc2, m = `{"`+plain+`":1}`, nObj1(plain, nInt(1))
	case 2:
		doc1, n = `["\u006`+string([]byte{c})+`",true]`, nArr(nStr(esc), nKind(nkTrue))
		doc2, m = `["`+plain+`",true]`, nArr(nStr(plain), nKind(nkTrue))
	case 3:
		doc1, n = `{"a":"\n","b":null}`, nObj2("a", nStr("\n"), "b", nKind(nkNull))
		doc2, m = `{"a":"\u000a","b":null}`, nObj2("a", nStr("\n"), "b", nKind(nkNull))
	}
	v, err := NewValueFromJson([]byte(doc1), vxBool(), false)
	vxAssert(err == nil, "parses")
	var x *DxValue
	if vxBool() {
		x = vxBuild(m)
	} else {
		x, err = NewValueFromJson([]byte(doc2), false, vxBool())
		vxAssert(err == nil, "parses")
	}
	if vxBool() {
		// reading first makes no difference
		vxHas(v, n, "before")
	}
	c18check(v, x, n, m)
}

// vhC18_trans: equality is transitive on values of one kind.
func vhC18_trans() {
	k := nkString + vxChoose(6)
	a, b, c := vxBuild(vxScalarOf(k, 1)), vxBuild(vxScalarOf(k, 1)), vxBuild(vxScalarOf(k, 1))
	vxReach("built")
	if a.Equal(b) && b.Equal(c) {
		vxAssert(a.Equal(c), "transitive")
	}
}

// vhC18_nil: comparing with nothing.
func vhC18_nil() {
	v := vxBuild(vxTree(1))
	var none *DxValue
	vxReach("built")
	vxAssert(!v.Equal(nil), "not equal to nil")
	vxAssert(!none.Equal(v), "nil is not equal to it")
	vxAssert(none.Equal(nil), "nil equals nil")
}

// vhC18_raw: how far a value is decoded makes no difference.
func vhC18_raw() {
	v, n := vxRaw()
	x, m := vxRaw()
	vxReach("made")
	c18check(v, x, n, m)
}

// vhC18_big: larger trees that are the same, or differ in one place.
func vhC18_big() {
	n := vxBig(false)
	v, x := vxBuild(n), vxBuild(n)
	if vxBool() {
		var err error
		x, err = NewValueFromMsgPack(Value2MsgPack(x, nil), vxBool(), false)
		vxAssert(err == nil, "decodes")
	}
	m := vxBigChange(x, n)
	if m == nil {
		m = n
	}
	c18check(v, x, n, m)
}

// vhC18_long: long content that differs in one byte, wherever it is.
func vhC18_long() {
	l := []int{8, 16, 17, 33, 64, 300, 9, 12, 32, 65, 129, 257, 1025, 5000}[vxChoose(6+8*vxTier())]
	b, c := make([]byte, l), make([]byte, l)
	for j := range b {
		b[j] = byte('A' + (j*7+j/26)%26)
		c[j] = b[j]
	}
	at := []int{0, 1, l / 2, l - 2, l - 1}[vxChoose(5)]
	b[at], c[at] = vxByte(), vxByte()
	make1 := func(s string) *vxNode { return nStr(s) }
	switch vxChoose(5) {
	case 1:
		make1 = func(s string) *vxNode { return &vxNode{k: nkBinary, s: s} }
	case 2:
		make1 = func(s string) *vxNode { return &vxNode{k: nkExt, s: s, ext: 9} }
	case 3:
		make1 = func(s string) *vxNode { return nObj1(s, nInt(1)) }
	case 4:
		make1 = func(s string) *vxNode { return nObj2("a", nKind(nkTrue), "b", nArr(nInt(2), nStr(s))) }
	}
	n, m := make1(string(b)), make1(string(c))
	c18check(vxBuild(n), vxBuild(m), n, m)
}
