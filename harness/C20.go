package dxsvalue

// Merging is a union that keeps the target.

type c20conf struct {
	path   string
	oldk   int
	newk   int
	policy int
}

func c20pol(p int) MergeOp {
	switch p {
	case 0:
		return MO_Custom
	case 1:
		return MO_Replace
	}
	return MO_Normal
}

// c20policy decides what the callback answers: by depth, so that one merge can
// see different answers.
func c20policy(pol []int, path string) int {
	d := 0
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			d++
		}
	}
	if d > 1 {
		d = 1
	}
	return pol[d]
}

func c20eq(a, b *vxNode) bool { return c20same(a, b) }

func c20same(a, b *vxNode) bool {
	if a.k != b.k {
		return false
	}
	r := true
	switch a.k {
	case nkObject, nkArray:
		if len(a.kids) != len(b.kids) {
			return false
		}
		for i := range a.kids {
			if a.k == nkObject {
				r = vxAnd(r, vxEq(a.keys[i], b.keys[i]))
			}
			r = vxAnd(r, c20same(a.kids[i], b.kids[i]))
		}
		return r
	case nkString, nkBinary:
		return vxEq(a.s, b.s)
	case nkExt:
		return vxAnd(a.ext == b.ext, vxEq(a.s, b.s))
	case nkInt:
		return a.i == b.i
	case nkFloat, nkDouble:
		return a.bits == b.bits
	case nkTime:
		return vxAnd(a.i == b.i, a.bits == b.bits)
	}
	return true
}

// c20merge is the reference; it changes t and appends the conflicts to out.
func c20merge(parent string, t, s *vxNode, pol []int, out []c20conf) []c20conf {
	if t.k == nkArray {
		had := len(t.kids)
		for _, x := range s.kids {
			found := false
			for _, y := range t.kids[:had] {
				if c20eq(x, y) {
					found = true
					break
				}
			}
			if !found {
				t.kids = append(t.kids, vxClone(x))
			}
		}
		return out
	}
	for i, k := range s.keys {
		p := vxFind(t, k)
		if p < 0 {
			t.keys = append(t.keys, k)
			t.kids = append(t.kids, vxClone(s.kids[i]))
			continue
		}
		path := k
		if parent != "" {
			path = parent + "/" + k
		}
		o, n := t.kids[p], s.kids[i]
		op := c20policy(pol, path)
		out = append(out, c20conf{path, o.k, n.k, op})
		switch {
		case op == 1:
			t.kids[p] = vxClone(n)
		case op == 0:
		case o.k <= nkArray:
			if o.k == n.k {
				out = c20merge(path, o, n, pol, out)
			}
		default:
			t.kids[p] = nArr(o, vxClone(n))
		}
	}
	return out
}

func c20kind(v *DxValue) int {
	switch v.DataType {
	case VT_Object:
		return nkObject
	case VT_Array:
		return nkArray
	case VT_String, VT_RawString:
		return nkString
	case VT_Int:
		return nkInt
	case VT_Binary:
		return nkBinary
	case VT_NULL:
		return nkNull
	case VT_True:
		return nkTrue
	case VT_False:
		return nkFalse
	case VT_Float:
		return nkFloat
	case VT_Double:
		return nkDouble
	case VT_DateTime:
		return nkTime
	case VT_ExBinary:
		return nkExt
	case VT_NAN:
		return nkNan
	case VT_INF:
		return nkInf
	}
	return -1
}

// c20run merges s into t (values of m into v) and checks everything.
func c20run(v, x *DxValue, t, s *vxNode) {
	src := vxClone(s)
	mode := vxChoose(4)
	if mode == 3 {
		// no callback: everything is merged
		c20merge("", t, s, []int{2, 2}, nil)
		v.MergeWith(x, nil)
	} else {
		pol := []int{mode, vxChoose(3)}
		want := c20merge("", t, s, pol, nil)
		n := 0
		v.MergeWith(x, func(path string, o, w *DxValue) MergeOp {
			vxAssert(n < len(want), "no more conflicts than there are")
			vxAssert(vxEq(path, want[n].path), "conflict path")
			vxAssert(c20kind(o) == want[n].oldk, "conflict target member")
			vxAssert(c20kind(w) == want[n].newk, "conflict source member")
			n++
			return c20pol(want[n-1].policy)
		})
		vxAssert(n == len(want), "one call per conflict")
	}
	vxReach("merged")
	vxHas(v, t, "target")
	vxHas(x, src, "source")
	// the two sides are independent
	if vxBool() {
		c20scramble(x)
		vxHas(v, t, "target after changing the source")
	} else {
		c20scramble(v)
		vxHas(x, src, "source after changing the target")
	}
}

// c20scramble changes every part of v.
func c20scramble(v *DxValue) {
	for i := 0; i < v.Count(); i++ {
		c20scramble(v.ValueByIndex(i))
	}
	switch v.DataType {
	case VT_Object:
		v.SetKeyInt("scrambled", 1)
		v.RemoveKey(v.KeyNameByIndex(0))
	case VT_Array:
		v.SetIndexInt(v.Count(), 99)
		v.RemoveIndex(0)
	case VT_Binary:
		b := v.Binary()
		for i := range b {
			b[i]++
		}
	case VT_String, VT_RawString:
		v.SetString("scrambled")
	case VT_Int:
		v.SetInt(v.Int() + 1)
	default:
		v.SetBool(false)
	}
}

func c20val(nest int) *vxNode {
	switch vxChoose(4 + nest*2) {
	case 0:
		return nInt(vxI64())
	case 1:
		return nStr(vxStr(1))
	case 2:
		return nKind(nkTrue)
	case 3:
		return &vxNode{k: nkBinary, s: vxStr(1)}
	case 4:
		return nArr(nInt(vxI64()), nStr("s"))
	}
	return nObj1(vxStr(1), nInt(vxI64()))
}

// vhC20_flat: one and two members with symbolic keys on each side.
func vhC20_flat() {
	t := nObj1(vxStr(1), c20val(1))
	k1, k2 := vxStr(1), vxStr(1)
	vxAssume(!vxEq(k1, k2))
	var s *vxNode
	if vxBool() {
		s = nObj2(k1, c20val(1), k2, nInt(5))
	} else {
		s = nObj2(k1, nInt(5), k2, c20val(0))
	}
	c20run(vxBuild(t), vxBuild(s), t, s)
}

// vhC20_deep: objects in objects, and arrays in them.
func vhC20_deep() {
	a, b := vxStr(1), vxStr(1)
	t := nObj2("o", nObj2(a, c20val(0), "zz", nObj1("i", nInt(vxI64()))), "l", nArr(nInt(1)))
	s := nObj2("l", nArr(nInt(vxI64()), nInt(2)), "o", nObj2(b, c20val(0), "zz", nObj1("i", nStr(vxStr(1)))))
	c20run(vxBuild(t), vxBuild(s), t, s)
}

// vhC20_array: arrays are united.
func vhC20_array() {
	e := func() *vxNode {
		switch vxChoose(4) {
		case 0:
			return nInt(vxI64())
		case 1:
			return nStr(vxStr(1))
		case 2:
			return nArr(nInt(vxI64()))
		}
		return nObj1(vxStr(1), nKind(nkNull))
	}
	t := nArr(e(), e())
	s := nArr(e(), e())
	c20run(vxBuild(t), vxBuild(s), t, s)
}

// vhC20_parsed: parsed JSON, with escapes in keys and values.
func vhC20_parsed() {
	c, d := vxByte(), vxByte()
	vxAssume(vxAnd(vxRange(c, '1', '9'), vxRange(d, 'a', 'i')))
	esc := string([]byte{c - '0' + 0x60})
	v, err := NewValueFromJson([]byte(`{"\u006`+string([]byte{c})+`":"\u006`+string([]byte{c})+`","l":["\u006`+string([]byte{c})+`"]}`), vxBool(), false)
	vxAssert(err == nil, "parses")
	t := nObj2(esc, nStr(esc), "l", nArr(nStr(esc)))
	s := nObj2(string([]byte{d}), nStr("x"), "l", nArr(nStr(string([]byte{d}))))
	x := vxBuild(s)
	if vxBool() {
		v, x, t, s = x, v, s, t
	}
	c20run(v, x, t, s)
}

// vhC20_kinds: values of different kinds, or no value, merge to nothing.
func vhC20_kinds() {
	n, m := vxScalar(1), nObj1(vxStr(1), nInt(1))
	if vxBool() {
		m = nArr(nInt(1))
	}
	v, x := vxBuild(n), vxBuild(m)
	vxReach("built")
	switch vxChoose(4) {
	case 0:
		v.MergeWith(x, nil)
	case 1:
		x.MergeWith(v, nil)
	case 2:
		x.MergeWith(nil, nil)
	case 3:
		o := nArr(nInt(2))
		if m.k == nkArray {
			o = nObj1("a", nInt(2))
		}
		x.MergeWith(vxBuild(o), nil)
	}
	vxHas(v, n, "unchanged")
	vxHas(x, m, "unchanged")
}

// vhC20_leaves: the shared constants, times and every kind of number as members
// and as elements, alone on one side or on both.
func vhC20_leaves() {
	leaf := func() *vxNode {
		switch vxChoose(6) {
		case 0:
			return vxConst()
		case 1:
			return &vxNode{k: nkTime, i: 1600000000, bits: 123000000}
		case 2:
			return &vxNode{k: nkFloat, bits: 0x3fc00000}
		case 3:
			return &vxNode{k: nkDouble, bits: 0x4004000000000000}
		case 4:
			return &vxNode{k: nkExt, s: "e", ext: 5}
		}
		return nStr("")
	}
	a, b := leaf(), leaf()
	var t, s *vxNode
	switch vxChoose(4) {
	case 0:
		t, s = nObj2("a", a, "c", nInt(1)), nObj2("b", nInt(2), "a", b)
	case 1:
		t, s = nObj1("o", nObj1("a", a)), nObj1("o", nObj2("z", b, "a", b))
	case 2:
		t, s = nArr(a, nInt(9)), nArr(b, a)
	case 3:
		t, s = nObj1("l", nArr(a)), nObj1("l", nArr(nInt(7), b))
	}
	c20run(vxBuild(t), vxBuild(s), t, s)
}

// vhC20_raw: merging values whose text is decoded to different extents.
func vhC20_raw() {
	v, t := vxRaw()
	var x *DxValue
	var s *vxNode
	if vxTier() > 0 {
		x, s = vxRaw()
	} else {
		s = nObj2(t.keys[0], nStr(`\\`), "b", nArr(nStr(`\t1`)))
		x = vxBuild(s)
	}
	if vxBool() {
		v, x, t, s = x, v, s, t
	}
	c20run(v, x, t, s)
}

// vhC20_big: wide objects and arrays that overlap in part.
func vhC20_big() {
	var t, s *vxNode
	c := []int{20, 65}[vxChoose(2)]
	switch vxChoose(3) {
	case 0:
		t, s = &vxNode{k: nkObject}, &vxNode{k: nkObject}
		for i := 0; i < c; i++ {
			t.keys, t.kids = append(t.keys, vxLongKey(i)+vxUtoa(uint64(i))), append(t.kids, vxLeaf(i*3, true))
			j := i*2 + 1
			s.keys, s.kids = append(s.keys, vxLongKey(j)+vxUtoa(uint64(j))), append(s.kids, vxLeaf(j*3, true))
		}
		t.kids[c-1] = nInt(vxI64())
		s.kids[c-1] = nInt(vxI64())
		s.kids[c/4] = nStr("x")
	case 1:
		t, s = nArr(), nArr()
		for i := 0; i < c; i++ {
			t.kids = append(t.kids, nInt(int64(i)))
			s.kids = append(s.kids, nInt(int64(2*i+1)))
		}
		t.kids[c-1] = nInt(vxI64())
		s.kids[c/2] = nStr("5")
		t, s = nObj2("p", t, "q", nInt(1)), nObj2("q", nInt(2), "p", s)
	case 2:
		t, s = nObj1("x", nInt(vxI64())), nObj1("y", nInt(vxI64()))
		for i := 0; i < 9; i++ {
			t, s = nObj2("a"+vxUtoa(uint64(i)), t, "t", nInt(1)), nObj2("s", nInt(2), "a"+vxUtoa(uint64(i)), s)
		}
	}
	c20run(vxBuild(t), vxBuild(s), t, s)
}
