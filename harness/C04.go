package dxsvalue

// BSON round trip: decode(encode(doc)) reads back as doc.

// c04want is the tree as BSON gives it back: 32 bit floats become doubles.
func c04want(n *vxNode) *vxNode {
	if n.k == nkFloat {
		return &vxNode{k: nkDouble, bits: vxF64bits(float64(vxF32frombits(uint32(n.bits))))}
	}
	r := &vxNode{k: n.k, i: n.i, bits: n.bits, s: n.s, ext: n.ext, keys: n.keys}
	for i := range n.kids {
		r.kids = append(r.kids, c04want(n.kids[i]))
	}
	return r
}

func c04rt(n *vxNode) {
	v := vxBuildNF(n)
	var enc []byte
	if vxBool() {
		var err error
		enc, err = Value2Bson(v, nil)
		vxAssert(err == nil, "encodes")
	} else {
		enc = v.ToBson(nil)
	}
	vxReach("encoded")
	vxAssert(len(enc) >= 5 && int(bsLE(enc, 0, 4)) == len(enc), "length field")
	mode := vxChoose(4)
	d, err := NewValueFromBson(enc, mode&1 == 1, mode&2 == 2)
	vxAssert(err == nil, "own output decodes")
	vxHas(d, c04want(n), "round trip")
	vxHas(v, n, "source after encoding")
}

func vhC04_tree() { c04rt(c04tree(2)) }

// long payloads and many elements
func vhC04_lengths() {
	lens := []int{3, 11, 12, 13, 15, 16, 17, 127, 128, 255, 256, 65535, 65536}
	l := lens[vxChoose(len(lens))]
	var n *vxNode
	switch vxChoose(3) {
	case 0:
		n = nObj2("a", nStr(vxPattern(l)), "b", nInt(vxI64()))
	case 1:
		n = nObj2("a", &vxNode{k: nkBinary, s: vxPattern(l)}, "b", nInt(vxI64()))
	case 2:
		s := vxPattern(l)
		vxAssume(vxAnd(s[0] != 0, vxAnd(s[l/2] != 0, s[l-1] != 0)))
		n = nObj1(s, nInt(vxI64()))
	}
	c04rt(n)
}

func vhC04_counts() {
	cnts := []int{9, 10, 11, 99, 100, 101, 999, 1000, 1001, 10001}
	c := cnts[vxChoose(len(cnts))]
	n := nArr()
	for i := 0; i < c; i++ {
		n.kids = append(n.kids, nInt(int64(i)))
	}
	n.kids[c-1] = nInt(vxI64())
	c04rt(nObj2("x", n, "y", nStr(vxStr(1))))
}

// the decoder's own kinds survive: object ids, decimals, timestamps, sub-typed
// binaries are written back byte for byte
func vhC04_special() {
	var e []byte
	switch vxChoose(5) {
	case 0:
		e = bsElem(0x07, "a", vxBytes(12))
	case 1:
		e = bsElem(0x13, "a", vxBytes(16))
	case 2:
		e = bsElem(0x11, "a", vxBytes(8))
	case 3:
		sub := vxByte()
		vxAssume(sub != 2) // the old form is written back in the current one
		l := vxChoose(3)
		e = bsElem(0x05, "a", append(append(bsPut32(nil, l), sub), vxBytes(l)...))
	case 4:
		e = bsElem(0x0a, "a", nil)
	}
	e = append(e, bsElem(0x10, "b", vxBytes(4))...)
	doc := bsWrap(e)
	switch vxChoose(3) {
	case 1:
		doc = bsWrap(bsElem(0x03, "o", doc))
	case 2:
		doc = bsWrap(bsElem(0x04, "o", bsWrap(bsElem(0x03, "0", doc))))
	}
	v, err := NewValueFromBson(doc, vxBool(), vxBool())
	vxAssert(err == nil, "decodes")
	if vxBool() {
		v = v.Clone(vxBool())
	}
	vxReach("decoded")
	vxAssert(vxEq(string(v.ToBson(nil)), string(doc)), "written back byte for byte")
}

// NaN and infinity constants
func vhC04_nonfinite() {
	n := nKind(nkNan + vxChoose(2))
	if vxBool() {
		c04rt(nObj2("a", n, "b", nInt(vxI64())))
	} else {
		c04rt(nObj1("a", nArr(n, nStr(vxStr(1)))))
	}
}

// vhC04_big: many members of every kind, many levels.
func vhC04_big() {
	n := vxBig(false)
	if n.k != nkObject {
		n = nObj2("a", n, "z", nInt(vxI64()))
	}
	if vxHasExt(n) {
		for i := range n.kids {
			if n.kids[i].k == nkExt {
				n.kids[i] = nKind(nkNull)
			} else if n.kids[i].k == nkArray {
				for j := range n.kids[i].kids {
					if n.kids[i].kids[j].k == nkExt {
						n.kids[i].kids[j] = nKind(nkNull)
					}
				}
			}
		}
	}
	c04rt(n)
}

func vxHasExt(n *vxNode) bool {
	if n.k == nkExt {
		return true
	}
	for i := range n.kids {
		if vxHasExt(n.kids[i]) {
			return true
		}
	}
	return false
}

// vhC04_roots: an array as the root is the document of its elements under their
// numbers; scalars are no documents.
func vhC04_roots() {
	k := vxStr(1)
	vxAssume(k[0] != 0)
	a, b := vxFewScalar(1), nObj1(k, vxScalarOf(nkDouble, 0))
	n := nArr(a, b, nStr("c"))
	v := vxBuild(n)
	pre := []byte("pre")
	enc, err := Value2Bson(v, pre[:3:3])
	vxReach("encoded")
	vxAssert(err == nil, "encodes")
	vxAssert(len(enc) > 3 && string(enc[:3]) == "pre", "appended")
	vxAssert(int(bsLE(enc, 3, 4)) == len(enc)-3, "length field")
	vxAssert(vxEq(string(enc[3:]), string(v.ToBson(nil))), "both writers")
	d, err := NewValueFromBson(enc[3:], vxBool(), vxBool())
	vxAssert(err == nil, "own output decodes")
	vxHas(d, &vxNode{k: nkObject, keys: []string{"0", "1", "2"}, kids: []*vxNode{c04want(a), c04want(b), nStr("c")}}, "elements under their numbers")
	s, err := Value2Bson(vxBuild(a), nil)
	vxAssert(err != nil && s == nil, "a scalar is no document")
}
