package dxsvalue

// MsgPack round trip: decode(encode(v)) reads back as v.

func c01rt(n *vxNode) {
	v := vxBuild(n)
	enc := Value2MsgPack(v, nil)
	vxReach("encoded")
	vxObs("len", uint64(len(enc)))
	mode := vxChoose(4)
	d, err := NewValueFromMsgPack(enc, mode&1 == 1, mode&2 == 2)
	vxAssert(err == nil, "own output decodes")
	vxHas(d, n, "round trip")
	vxHas(v, n, "source after encoding")
}

func vhC01_tree() { c01rt(vxTree(2)) }

// length boundaries of every length-prefixed form
func vhC01_lengths() {
	lens := []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 65535, 65536}
	l := lens[vxChoose(len(lens))]
	var n *vxNode
	switch vxChoose(5) {
	case 0:
		n = nStr(vxPattern(l))
	case 1:
		n = &vxNode{k: nkBinary, s: vxPattern(l)}
	case 2:
		n = &vxNode{k: nkExt, s: vxPattern(l), ext: vxByte()}
		vxAssume(!(n.ext == 0xff && (l == 4 || l == 8 || l == 12)))
	case 3:
		n = nObj1(vxPattern(l), nInt(vxI64()))
	case 4:
		n = nArr(nStr(vxPattern(l)), nInt(int64(vxByte())))
	}
	v := vxBuild(n)
	enc := Value2MsgPack(v, nil)
	vxReach("encoded")
	d, err := NewValueFromMsgPack(enc, false, false)
	vxAssert(err == nil, "own output decodes")
	vxHas(d, n, "round trip")
}

// element count boundaries
func vhC01_counts() {
	cnts := []int{14, 15, 16, 17, 31, 32, 33, 255, 256, 257}
	c := cnts[vxChoose(len(cnts))]
	n := &vxNode{}
	if vxBool() {
		n.k = nkArray
		for i := 0; i < c; i++ {
			n.kids = append(n.kids, nInt(int64(i)))
		}
	} else {
		n.k = nkObject
		for i := 0; i < c; i++ {
			n.keys = append(n.keys, string([]byte{'k', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)}))
			n.kids = append(n.kids, nInt(int64(i)))
		}
	}
	n.kids[c-1] = nInt(vxI64())
	v := vxBuild(n)
	enc := Value2MsgPack(v, nil)
	vxReach("encoded")
	d, err := NewValueFromMsgPack(enc, vxBool(), false)
	vxAssert(err == nil, "own output decodes")
	vxHas(d, n, "round trip")
}

// vhC01_many: the counts at which arrays and maps change to 32-bit length fields.
func vhC01_many() {
	c := []int{65535, 65536, 65537}[vxChoose(3)]
	obj := vxBool()
	var b []byte
	for i := 0; i < c; i++ {
		if obj {
			b = append(b, '"', byte('a'+i%26), '"', ':')
		}
		b = append(b, '0'+byte(i%10), ',')
	}
	x := vxByte()
	vxAssume(vxRange(x, '0', '9'))
	b[len(b)-2] = x
	doc := string(b[:len(b)-1])
	if obj {
		doc = "{" + doc + "}"
	} else {
		doc = "[" + doc + "]"
	}
	v, err := NewValueFromJson([]byte(doc), false, false)
	vxAssert(err == nil && v.Count() == c, "parses")
	enc := Value2MsgPack(v, nil)
	vxReach("encoded")
	var head []byte
	switch {
	case c < 65536 && obj:
		head = []byte{0xde, byte(c >> 8), byte(c)}
	case c < 65536:
		head = []byte{0xdc, byte(c >> 8), byte(c)}
	case obj:
		head = []byte{0xdf, 0, 1, byte(c >> 8), byte(c)}
	default:
		head = []byte{0xdd, 0, 1, byte(c >> 8), byte(c)}
	}
	el := 1
	if obj {
		el = 3
	}
	vxAssert(len(enc) == len(head)+c*el, "length")
	vxAssert(vxEq(string(enc[:len(head)]), string(head)), "header")
	vxAssert(enc[len(enc)-1] == x-'0', "last element")
	if !obj {
		d, err := NewValueFromMsgPack(enc, vxBool(), vxBool())
		vxAssert(err == nil && d != nil && d.DataType == VT_Array && d.Count() == c, "own output decodes")
		vxAssert(d.IntByIndex(c-1, -1) == int(x-'0'), "last element after decoding")
		vxAssert(d.IntByIndex(c/2, -1) == c/2%10, "middle element after decoding")
	}
}

// NaN and infinity constants survive as non-finite doubles
func vhC01_nonfinite() {
	n := nKind(nkNan + vxChoose(2))
	var w *vxNode
	switch vxChoose(3) {
	case 0:
		w = n
	case 1:
		w = nArr(n, nInt(vxI64()))
	case 2:
		w = nObj2("a", n, "b", nStr(vxStr(1)))
	}
	v := vxBuildNF(w)
	d, err := NewValueFromMsgPack(Value2MsgPack(v, nil), vxBool(), false)
	vxReach("decoded")
	vxAssert(err == nil, "own output decodes")
	vxHas(d, w, "round trip")
}

// vhC01_big: many members of every kind, many levels.
func vhC01_big() { c01rt(vxBig(false)) }
