package dxsvalue

// BSON decoding agrees with the specification on every input.

func c05cmp(b []byte, mode int) {
	// first: it returns, with a value or an error
	d, err := NewValueFromBson(b, mode&1 == 1, mode&2 == 2)
	vxReach("returned")
	vxAssert((d != nil) != (err != nil), "value or error")
	n, _, ok := bsDoc(b, 0, len(b), false)
	if !ok {
		vxReach("malformed")
		vxAssert(err != nil, "malformed input is an error")
		return
	}
	vxReach("well-formed")
	vxAssert(err == nil, "well-formed input is accepted")
	vxHas(d, n, "decoded")
}

// every byte string up to the bound
func vhC05_free() {
	max := 9
	if vxTier() == 1 {
		max = 12
	}
	b := vxBytes(vxChoose(max + 1))
	bsSplit(b, 0, max)
	c05cmp(b, vxChoose(2))
}

// one element of any type, whole, truncated by one byte, or followed by one more
func vhC05_elem() {
	types := []byte{0x01, 0x06, 0x07, 0x08, 0x0a, 0x10, 0x11, 0x12, 0x13, 0x7f, 0xff}
	sizes := []int{8, 0, 12, 1, 0, 4, 8, 8, 16, 0, 0}
	i := vxChoose(len(types) + 1)
	var e []byte
	if i == len(types) {
		tp := vxByte()
		for j := range types {
			vxAssume(tp != types[j])
		}
		vxAssume(!vxRange(tp, 2, 5))
		vxAssume(tp != 9)
		e = append([]byte{tp, 'k', 0}, vxBytes(vxChoose(4))...)
	} else {
		l := sizes[i] - 1 + vxChoose(3)
		if l < 0 {
			l = 0
		}
		e = append([]byte{types[i], 'k', 0}, vxBytes(l)...)
	}
	c05cmp(bsWrap(e), vxChoose(4))
}

// strings and binaries: length field, terminator, sub type and content symbolic
func vhC05_text() {
	tp := []byte{0x02, 0x05}[vxChoose(2)]
	l := vxChoose(8)
	if tp == 5 {
		l += vxChoose(3)
	}
	body := vxBytes(l)
	bsSplit(body, 0, l)
	e := append([]byte{tp, 'k', 0}, body...)
	c05cmp(bsWrap(e), vxChoose(2)*2)
}

// dates, whole and truncated, with something after them
func vhC05_date() {
	ms := vxI64()
	vxAssume(vxAnd(ms >= -2208988800000, ms < 6942758400000))
	e := []byte{9, 'k', 0}
	l := 7 + vxChoose(2)
	for i := 0; i < l; i++ {
		e = append(e, byte(ms>>uint(8*i)))
	}
	if vxBool() {
		e = append(e, 0x0a, 'z', 0)
	}
	c05cmp(bsWrap(e), vxChoose(4))
}

// wide bodies
func vhC05_wide() {
	tp := []byte{0x02, 0x05, 0x07, 0x13}[vxChoose(4)]
	l := 11 + vxChoose(6)
	if tp == 2 || tp == 5 {
		l = 8 + vxChoose(3)
	}
	body := vxBytes(l)
	if tp == 2 || tp == 5 {
		bsSplit(body, 0, l)
	}
	e := append([]byte{tp, 'k', 0}, body...)
	c05cmp(bsWrap(e), vxChoose(2)*2)
}

// nested documents and arrays with symbolic length fields and bodies
func vhC05_nested() {
	tp := byte(0x03 + vxChoose(2))
	inner := vxBytes(4)
	inner = append(inner, []byte{0x10, 0x0a, 0x08, 0x02}[vxChoose(4)], '0', 0)
	inner = append(inner, vxBytes(vxChoose(7))...)
	bsSplit(inner, 0, len(inner)+2)
	e := append([]byte{tp, 'k', 0}, inner...)
	c05cmp(bsWrap(e), vxChoose(2))
}

// two elements after each other: the second is found where the first ends
func vhC05_pair() {
	mk := func(k string) []byte {
		switch vxChoose(8) {
		case 0:
			return bsElem(0x01, k, vxBytes(8))
		case 1:
			l := vxChoose(3)
			return bsElem(0x02, k, append(append(bsPut32(nil, l+1), vxBytes(l)...), 0))
		case 2:
			l := vxChoose(3)
			return bsElem(0x05, k, append(append(bsPut32(nil, l), vxByte()), vxBytes(l)...))
		case 3:
			return bsElem(0x08, k, vxBytes(1))
		case 4:
			return bsElem(0x10, k, vxBytes(4))
		case 5:
			return bsElem(0x12, k, vxBytes(8))
		case 6:
			return bsElem(0x03, k, bsWrap(bsElem(0x10, c04key(1), vxBytes(4))))
		}
		return bsElem(0x04, k, bsWrap(append(bsElem(0x0a, "0", nil), bsElem(0x10, "1", vxBytes(4))...)))
	}
	e := append(mk(c04key(1)), mk("z")...)
	c05cmp(bsWrap(e), vxChoose(4))
}

// every proper prefix of a document is an error
func vhC05_prefix() {
	doc := vxBuild(c04tree(1)).ToBson(nil)
	cut := vxChoose(len(doc))
	d, err := NewValueFromBson(doc[:cut], false, false)
	vxReach("cut")
	vxAssert(err != nil && d == nil, "truncated document is an error")
}

// vhC05_bigprefix: prefixes of larger documents.
func vhC05_bigprefix() {
	enc := vxBuild(nObj1("d", vxWideOf([]int{12, 40}[vxChoose(2)], vxBool(), true))).ToBson(nil)
	cut := vxCut(len(enc))
	v, err := NewValueFromBson(enc[:cut:cut], vxBool(), false)
	vxReach("decoded")
	vxAssert(v == nil && err != nil, "proper prefix is an error")
}
