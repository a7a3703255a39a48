package dxsvalue

// MsgPack decoding agrees with the format specification on every input.

func c02cmp(b []byte, mode int) {
	n, _, ok := mpDec(b, 0)
	d, err := NewValueFromMsgPack(b, mode&1 == 1, mode&2 == 2)
	if !ok {
		vxReach("rejected by the specification")
		vxAssert(err != nil, "malformed input is an error")
		vxAssert(d == nil, "no value with an error")
		return
	}
	vxReach("accepted by the specification")
	vxAssert(err == nil, "well-formed input is accepted")
	vxHas(d, n, "decoded")
}

// every byte string up to the bound
func vhC02_free() {
	max := 4
	if vxTier() == 1 {
		max = 5
	}
	b := vxBytes(vxChoose(max + 1))
	c02cmp(b, vxChoose(4))
}

// every header with a wide body: scalars, length fields of 1, 2, 4 bytes
func vhC02_wide() {
	heads := []byte{0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xce, 0xcf, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xa5, 0xbf}
	h := heads[vxChoose(len(heads))]
	l := 5 + vxChoose(5)
	if h == 0xd8 || h == 0xbf {
		l = 15 + vxChoose(3)*8
	}
	b := append([]byte{h}, vxBytes(l)...)
	c02cmp(b, vxChoose(4))
}

// 96 bit timestamps
func vhC02_time96() {
	b := append([]byte{0xc7, 12}, vxBytes(12+vxChoose(3))...)
	c02cmp(b, vxChoose(4))
}

// containers with 16 and 32 bit counts around few elements
func vhC02_counts() {
	var b []byte
	switch vxChoose(4) {
	case 0:
		b = append([]byte{0xdc}, vxBytes(2)...)
	case 1:
		b = append([]byte{0xdd}, vxBytes(4)...)
	case 2:
		b = append([]byte{0xde}, vxBytes(2)...)
	case 3:
		b = append([]byte{0xdf}, vxBytes(4)...)
	}
	if b[0] < 0xde {
		b = append(b, vxBytes(vxChoose(3))...)
	} else {
		for i := vxChoose(3); i > 0; i-- {
			b = append(b, 0xa1, vxByte(), vxByte())
		}
	}
	c02cmp(b, 0)
}

// nested containers holding wide scalars
func vhC02_nested() {
	wide := func() []byte {
		switch vxChoose(4) {
		case 0:
			return append([]byte{0xd3}, vxBytes(8)...)
		case 1:
			return append([]byte{0xcb}, vxBytes(8)...)
		case 2:
			return append([]byte{0xd9, 2}, vxBytes(2)...)
		}
		c := vxByte() // one byte values; longer forms shift the rest: see free
		vxAssume(vxOr(vxOr(c < 0x81, c == 0x90), vxOr(c == 0xa0, vxOr(vxRange(c, 0xc0, 0xc3), c >= 0xe0))))
		return []byte{c}
	}
	var b []byte
	switch vxChoose(4) {
	case 0:
		b = append([]byte{0x92}, append(wide(), wide()...)...)
	case 1:
		b = append([]byte{0x82, 0xa1, vxByte()}, wide()...)
		b = append(append(b, 0xa1, vxByte()), wide()...)
	case 2:
		b = append([]byte{0x92, 0x81, 0xa1, vxByte()}, wide()...)
		b = append(b, 0x91, vxByte())
	case 3:
		b = append([]byte{0x81, 0xa1, vxByte(), 0x92, 0x80}, wide()...)
	}
	c02cmp(b, vxChoose(2))
}

// vhC02_codes: the exported classification of first bytes is the specification's.
func vhC02_codes() {
	b := vxByte()
	c := MsgPackCode(b)
	vxReach("classified")
	vxAssert(c.IsFixedNum() == vxOr(b < 0x80, b >= 0xe0), "fixed number")
	vxAssert(c.IsInt() == vxOr(vxOr(b < 0x80, b >= 0xe0), vxRange(b, 0xcc, 0xd3)), "integer")
	vxAssert(c.IsFixedStr() == vxRange(b, 0xa0, 0xbf), "fixed string")
	vxAssert(c.IsStr() == vxOr(vxRange(b, 0xa0, 0xbf), vxRange(b, 0xd9, 0xdb)), "string")
	vxAssert(c.IsBin() == vxRange(b, 0xc4, 0xc6), "binary")
	vxAssert(c.IsArray() == vxOr(vxRange(b, 0x90, 0x9f), vxRange(b, 0xdc, 0xdd)), "array")
	vxAssert(c.IsMap() == vxOr(vxRange(b, 0x80, 0x8f), vxRange(b, 0xde, 0xdf)), "map")
	vxAssert(c.IsExt() == vxOr(vxRange(b, 0xc7, 0xc9), vxRange(b, 0xd4, 0xd8)), "ext")
	t := vxByte()
	if !c.IsTime(t) {
		vxAssert(!vxAnd(t == 0xff, vxOr(b == 0xd6, vxOr(b == 0xd7, b == 0xc7))), "time")
	} else {
		vxAssert(vxAnd(t == 0xff, c.IsExt()), "time is an ext of type -1")
	}
}
