package dxsvalue

// A reference BSON reader written from the specification (bsonspec.org), for
// the element types the library supports. ok is false for malformed input.
// Object ids and decimals are binaries, timestamps are their 64 bits, undefined
// and the min and max keys are null.

func bsLE(b []byte, p, n int) uint64 {
	var r uint64
	for i := n - 1; i >= 0; i-- {
		r = r<<8 | uint64(b[p+i])
	}
	return r
}

// bsDoc reads one document that starts at b[p] and must end before end.
// It returns the index after it.
func bsDoc(b []byte, p, end int, arr bool) (*vxNode, int, bool) {
	if end-p < 5 {
		return nil, p, false
	}
	n := bsLE(b, p, 4)
	if n < 5 || n > uint64(end-p) {
		return nil, p, false
	}
	stop := p + int(n) - 1
	if b[stop] != 0 {
		return nil, p, false
	}
	r := &vxNode{k: nkObject}
	if arr {
		r.k = nkArray
	}
	p += 4
	for p < stop {
		tp := b[p]
		p++
		ks := p
		for p < stop && b[p] != 0 {
			p++
		}
		if p >= stop {
			return nil, p, false
		}
		key := string(b[ks:p])
		p++
		e, q, ok := bsVal(tp, b, p, stop)
		if !ok {
			return nil, p, false
		}
		p = q
		if arr {
			// element names of an array are its indexes in order
			vxAssume(vxEq(key, vxUtoa(uint64(len(r.kids)))))
		} else {
			for j := range r.keys {
				vxAssume(!vxEq(r.keys[j], key))
			}
		}
		r.keys = append(r.keys, key)
		r.kids = append(r.kids, e)
	}
	return r, stop + 1, true
}

func bsVal(tp byte, b []byte, p, end int) (*vxNode, int, bool) {
	need := func(n int) bool { return end-p >= n }
	switch tp {
	case 0x01:
		if !need(8) {
			return nil, p, false
		}
		return &vxNode{k: nkDouble, bits: bsLE(b, p, 8)}, p + 8, true
	case 0x02:
		if !need(4) {
			return nil, p, false
		}
		n := bsLE(b, p, 4)
		p += 4
		if n < 1 || n > uint64(end-p) || b[p+int(n)-1] != 0 {
			return nil, p, false
		}
		return nStr(string(b[p : p+int(n)-1])), p + int(n), true
	case 0x03:
		return bsDoc(b, p, end, false)
	case 0x04:
		return bsDoc(b, p, end, true)
	case 0x05:
		if !need(5) {
			return nil, p, false
		}
		n := bsLE(b, p, 4)
		sub := b[p+4]
		p += 5
		if n > uint64(end-p) {
			return nil, p, false
		}
		s := string(b[p : p+int(n)])
		p += int(n)
		switch sub {
		case 0:
			return &vxNode{k: nkBinary, s: s}, p, true
		case 2:
			if n < 4 || bsLE([]byte(s), 0, 4) != n-4 {
				return nil, p, false
			}
			return &vxNode{k: nkBinary, s: s[4:]}, p, true
		}
		return &vxNode{k: nkExt, ext: sub, s: s}, p, true
	case 0x06, 0x0a, 0x7f, 0xff:
		return nKind(nkNull), p, true
	case 0x07:
		if !need(12) {
			return nil, p, false
		}
		return &vxNode{k: nkBinary, s: string(b[p : p+12])}, p + 12, true
	case 0x08:
		if !need(1) {
			return nil, p, false
		}
		vxAssume(b[p] < 2)
		if b[p] == 1 {
			return nKind(nkTrue), p + 1, true
		}
		return nKind(nkFalse), p + 1, true
	case 0x09:
		if !need(8) {
			return nil, p, false
		}
		ms := int64(bsLE(b, p, 8))
		vxAssume(vxAnd(ms >= -2208988800000, ms < 6942758400000))
		return &vxNode{k: nkTimeMs, i: ms}, p + 8, true
	case 0x10:
		if !need(4) {
			return nil, p, false
		}
		return nInt(int64(int32(uint32(bsLE(b, p, 4))))), p + 4, true
	case 0x11, 0x12:
		if !need(8) {
			return nil, p, false
		}
		return nInt(int64(bsLE(b, p, 8))), p + 8, true
	case 0x13:
		if !need(16) {
			return nil, p, false
		}
		return &vxNode{k: nkBinary, s: string(b[p : p+16])}, p + 16, true
	}
	return nil, p, false
}

// bsSplit distinguishes the small values of the length field at b[p], so that
// each is explored on its own; larger ones stay together.
func bsSplit(b []byte, p, max int) {
	if p+4 > len(b) {
		return
	}
	n := bsLE(b, p, 4)
	for i := 0; i <= max; i++ {
		if n == uint64(i) {
			return
		}
	}
}

func bsPut32(b []byte, n int) []byte {
	return append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
}

// bsWrap makes a document of the given elements.
func bsWrap(elems []byte) []byte {
	b := bsPut32(nil, len(elems)+5)
	b = append(b, elems...)
	return append(b, 0)
}

func bsElem(tp byte, key string, val []byte) []byte {
	b := append([]byte{tp}, key...)
	b = append(b, 0)
	return append(b, val...)
}

func c04key(n int) string {
	s := vxStr(n)
	for i := 0; i < n; i++ {
		vxAssume(s[i] != 0)
	}
	return s
}

// c04scalar picks a scalar BSON can represent.
func c04scalar(maxlen int) *vxNode {
	k := []int{nkString, nkInt, nkFloat, nkDouble, nkBinary, nkNull, nkTrue, nkFalse}[vxChoose(8)]
	l := 0
	if k == nkString || k == nkBinary {
		l = vxChoose(maxlen + 1)
	}
	return vxScalarOf(k, l)
}

func c04tree(maxlen int) *vxNode {
	switch vxChoose(7) {
	case 0:
		return &vxNode{k: nkObject}
	case 1:
		return nObj1(c04key(vxChoose(maxlen+1)), c04scalar(maxlen))
	case 2:
		k1, k2 := c04key(vxChoose(2)), c04key(1+vxChoose(maxlen))
		vxAssume(!vxEq(k1, k2))
		return nObj2(k1, c04scalar(1), k2, vxFewScalar(1))
	case 3:
		return nObj1(c04key(1), nArr(vxFewScalar(1), nObj1(c04key(1), c04scalar(1)), vxFewScalar(0)))
	case 4:
		return nObj2("a", nObj1(c04key(1), nArr()), "b", nObj1(c04key(1), nObj1(c04key(0), c04scalar(1))))
	case 5:
		return nObj2("a", nArr(nArr(c04scalar(1)), &vxNode{k: nkObject}, c04scalar(0)), "b", vxFewScalar(0))
	}
	return nObj2("a", &vxNode{k: nkObject}, "b", nArr(nArr(), nObj1(c04key(1), vxFewScalar(1))))
}
