package dxsvalue

// A reference MessagePack reader written from the specification. It accepts
// one value at b[p:] and reports where it ends. Maps must have string keys
// (the library's documented restriction); a repeated key keeps its last value.

func mpBE(b []byte, p, n int) uint64 {
	var r uint64
	for i := 0; i < n; i++ {
		r = r<<8 | uint64(b[p+i])
	}
	return r
}

func mpTake(b []byte, p int, n uint64) (string, int, bool) {
	if n > uint64(len(b)-p) {
		return "", p, false
	}
	return string(b[p : p+int(n)]), p + int(n), true
}

// mpLen reads an n byte length field.
func mpLen(b []byte, p, n int) (uint64, int, bool) {
	if len(b)-p < n {
		return 0, p, false
	}
	return mpBE(b, p, n), p + n, true
}

func mpExt(b []byte, p int, n uint64) (*vxNode, int, bool) {
	if len(b)-p < 1 {
		return nil, p, false
	}
	tp := b[p]
	s, q, ok := mpTake(b, p+1, n)
	if !ok {
		return nil, p, false
	}
	return &vxNode{k: nkExt, ext: tp, s: s}, q, true
}

// mpTimeOf turns a timestamp extension into an instant.
func mpTimeOf(n *vxNode, code byte) *vxNode {
	if n.ext != 0xff {
		return n
	}
	b := []byte(n.s)
	var sec int64
	var ns uint64
	switch {
	case code == 0xd6:
		sec = int64(mpBE(b, 0, 4))
	case code == 0xd7:
		x := mpBE(b, 0, 8)
		sec = int64(x & 0x3ffffffff)
		ns = x >> 34
	case code == 0xc7 && len(b) == 12:
		ns = mpBE(b, 0, 4)
		sec = int64(mpBE(b, 4, 8))
	default:
		return n
	}
	vxAssume(ns < 1000000000)
	// -2208988800 = 1900-01-01, 6942758400 = 2190-01-01
	vxAssume(vxAnd(sec >= -2208988800, sec < 6942758400))
	return &vxNode{k: nkTime, i: sec, bits: ns}
}

func mpArr(b []byte, p int, n uint64) (*vxNode, int, bool) {
	r := &vxNode{k: nkArray}
	for i := uint64(0); i < n; i++ {
		e, q, ok := mpDec(b, p)
		if !ok {
			return nil, p, false
		}
		r.kids = append(r.kids, e)
		p = q
	}
	return r, p, true
}

func mpMap(b []byte, p int, n uint64) (*vxNode, int, bool) {
	r := &vxNode{k: nkObject}
	for i := uint64(0); i < n; i++ {
		k, q, ok := mpDec(b, p)
		if ok {
			// binary keys: accepted or not, out of scope
			vxAssume(k.k != nkBinary)
		}
		if !ok || k.k != nkString {
			return nil, p, false
		}
		e, q, ok := mpDec(b, q)
		if !ok {
			return nil, p, false
		}
		p = q
		seen := false
		for j := range r.keys {
			if vxEq(r.keys[j], k.s) {
				r.kids[j] = e
				seen = true
				break
			}
		}
		if !seen {
			r.keys = append(r.keys, k.s)
			r.kids = append(r.kids, e)
		}
	}
	return r, p, true
}

func mpStrN(b []byte, p, w, kind int) (*vxNode, int, bool) {
	n, q, ok := mpLen(b, p, w)
	if !ok {
		return nil, p, false
	}
	s, q, ok := mpTake(b, q, n)
	if !ok {
		return nil, p, false
	}
	return &vxNode{k: kind, s: s}, q, true
}

func mpInt(b []byte, p, w int, signed bool) (*vxNode, int, bool) {
	u, q, ok := mpLen(b, p, w)
	if !ok {
		return nil, p, false
	}
	if signed {
		sh := uint(64 - 8*w)
		return nInt(int64(u<<sh) >> sh), q, true
	}
	if w == 8 {
		vxAssume(u < 1<<63)
	}
	return nInt(int64(u)), q, true
}

func mpDec(b []byte, p int) (*vxNode, int, bool) {
	if p >= len(b) {
		return nil, p, false
	}
	c := b[p]
	p++
	switch {
	case c < 0x80:
		return nInt(int64(c)), p, true
	case c < 0x90:
		return mpMap(b, p, uint64(c&15))
	case c < 0xa0:
		return mpArr(b, p, uint64(c&15))
	case c < 0xc0:
		s, q, ok := mpTake(b, p, uint64(c&31))
		return nStr(s), q, ok
	case c >= 0xe0:
		return nInt(int64(int8(c))), p, true
	}
	switch c {
	case 0xc0:
		return nKind(nkNull), p, true
	case 0xc2:
		return nKind(nkFalse), p, true
	case 0xc3:
		return nKind(nkTrue), p, true
	case 0xc4:
		return mpStrN(b, p, 1, nkBinary)
	case 0xc5:
		return mpStrN(b, p, 2, nkBinary)
	case 0xc6:
		return mpStrN(b, p, 4, nkBinary)
	case 0xc7, 0xc8, 0xc9:
		w := 1
		if c == 0xc8 {
			w = 2
		} else if c == 0xc9 {
			w = 4
		}
		n, q, ok := mpLen(b, p, w)
		if !ok {
			return nil, p, false
		}
		e, q, ok := mpExt(b, q, n)
		if !ok {
			return nil, p, false
		}
		return mpTimeOf(e, c), q, true
	case 0xca:
		u, q, ok := mpLen(b, p, 4)
		return &vxNode{k: nkFloat, bits: u}, q, ok
	case 0xcb:
		u, q, ok := mpLen(b, p, 8)
		return &vxNode{k: nkDouble, bits: u}, q, ok
	case 0xcc:
		return mpInt(b, p, 1, false)
	case 0xcd:
		return mpInt(b, p, 2, false)
	case 0xce:
		return mpInt(b, p, 4, false)
	case 0xcf:
		return mpInt(b, p, 8, false)
	case 0xd0:
		return mpInt(b, p, 1, true)
	case 0xd1:
		return mpInt(b, p, 2, true)
	case 0xd2:
		return mpInt(b, p, 4, true)
	case 0xd3:
		return mpInt(b, p, 8, true)
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		w := uint64(1)
		switch c {
		case 0xd5:
			w = 2
		case 0xd6:
			w = 4
		case 0xd7:
			w = 8
		case 0xd8:
			w = 16
		}
		e, q, ok := mpExt(b, p, w)
		if !ok {
			return nil, p, false
		}
		return mpTimeOf(e, c), q, true
	case 0xd9:
		return mpStrN(b, p, 1, nkString)
	case 0xda:
		return mpStrN(b, p, 2, nkString)
	case 0xdb:
		return mpStrN(b, p, 4, nkString)
	case 0xdc, 0xdd, 0xde, 0xdf:
		w := 2
		if c == 0xdd || c == 0xdf {
			w = 4
		}
		n, q, ok := mpLen(b, p, w)
		if !ok {
			return nil, p, false
		}
		if c <= 0xdd {
			return mpArr(b, q, n)
		}
		return mpMap(b, q, n)
	}
	return nil, p, false
}
