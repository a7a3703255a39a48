package dxsvalue

import "strconv"

// A reference JSON reader written from RFC 8259. Besides the value it reports
// whether the text is a document (jOK), is structurally malformed and must be
// rejected (jBad), or departs from the RFC in a way for which no claim is made
// (jUnknown: NaN and infinity words, numbers outside the grammar or the double
// range, raw control characters, unknown escapes, lone surrogates, invalid
// UTF-8, repeated keys, the library's date notation).

const (
	jOK = iota
	jBad
	jUnknown
)

type jReader struct {
	b       []byte
	p       int
	unknown bool
}

func jIsWS(c byte) bool { return vxIn(c, " \t\r\n") }

func (r *jReader) ws() {
	for r.p < len(r.b) && jIsWS(r.b[r.p]) {
		r.p++
	}
}

func (r *jReader) word(w string) bool {
	if len(r.b)-r.p < len(w) {
		return false
	}
	if !vxEq(string(r.b[r.p:r.p+len(w)]), w) {
		return false
	}
	r.p += len(w)
	return true
}

// jsonRead reads the whole text.
func jsonRead(b []byte) (*vxNode, int) {
	r := &jReader{b: b}
	r.ws()
	n, ok := r.value()
	if ok {
		r.ws()
		if r.p != len(r.b) {
			ok = false
		}
	}
	if r.unknown {
		return nil, jUnknown
	}
	if !ok {
		return nil, jBad
	}
	return n, jOK
}

func (r *jReader) value() (*vxNode, bool) {
	if r.p >= len(r.b) {
		return nil, false
	}
	c := r.b[r.p]
	switch {
	case c == '{':
		r.p++
		return r.object()
	case c == '[':
		r.p++
		return r.array()
	case c == '"':
		r.p++
		s, ok := r.str()
		if vxOr(len(s) > 5 && s[:5] == "Date(", len(s) > 6 && s[:6] == "/Date(") {
			r.unknown = true
		}
		return nStr(s), ok
	case c == 't':
		return nKind(nkTrue), r.word("true")
	case c == 'f':
		return nKind(nkFalse), r.word("false")
	case c == 'n':
		if r.word("null") {
			return nKind(nkNull), true
		}
		if r.word("nan") {
			r.unknown = true
		}
		return nil, false
	case vxRange(c, '0', '9'), c == '-':
		return r.number()
	case vxIn(c, "+.eEiIN"):
		r.unknown = true
	}
	return nil, false
}

func (r *jReader) object() (*vxNode, bool) {
	n := &vxNode{k: nkObject}
	r.ws()
	if r.p < len(r.b) && r.b[r.p] == '}' {
		r.p++
		return n, true
	}
	for {
		r.ws()
		if r.p >= len(r.b) || r.b[r.p] != '"' {
			return nil, false
		}
		r.p++
		k, ok := r.str()
		if !ok {
			return nil, false
		}
		for i := range n.keys {
			if vxEq(n.keys[i], k) {
				r.unknown = true
			}
		}
		r.ws()
		if r.p >= len(r.b) || r.b[r.p] != ':' {
			return nil, false
		}
		r.p++
		r.ws()
		v, ok := r.value()
		if !ok {
			return nil, false
		}
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, v)
		r.ws()
		if r.p >= len(r.b) {
			return nil, false
		}
		c := r.b[r.p]
		r.p++
		if c == '}' {
			return n, true
		}
		if c != ',' {
			return nil, false
		}
	}
}

func (r *jReader) array() (*vxNode, bool) {
	n := nArr()
	r.ws()
	if r.p < len(r.b) && r.b[r.p] == ']' {
		r.p++
		return n, true
	}
	for {
		r.ws()
		v, ok := r.value()
		if !ok {
			return nil, false
		}
		n.kids = append(n.kids, v)
		r.ws()
		if r.p >= len(r.b) {
			return nil, false
		}
		c := r.b[r.p]
		r.p++
		if c == ']' {
			return n, true
		}
		if c != ',' {
			return nil, false
		}
	}
}

// number reads a run of number characters. Runs that are no RFC number are
// accepted or not: no claim.
func (r *jReader) number() (*vxNode, bool) {
	s := r.p
	for r.p < len(r.b) && vxOr(vxRange(r.b[r.p], '0', '9'), vxIn(r.b[r.p], "+-.eE")) {
		r.p++
	}
	t := r.b[s:r.p]
	i := 0
	neg := false
	if t[0] == '-' {
		neg = true
		i++
		if i == len(t) {
			// "-" alone, or the start of -inf
			r.unknown = true
			return nil, false
		}
	}
	digits := func() int {
		n := 0
		for i < len(t) && vxRange(t[i], '0', '9') {
			i++
			n++
		}
		return n
	}
	d0 := i
	nd := digits()
	if nd == 0 || nd > 1 && t[d0] == '0' {
		r.unknown = true
		return nil, true
	}
	if i == len(t) && nd <= 19 {
		var acc uint64
		for _, c := range t[d0:] {
			acc = acc*10 + uint64(c-'0')
		}
		if neg && acc <= 1<<63 {
			return nInt(-int64(acc)), true
		}
		if !neg && acc < 1<<63 {
			return nInt(int64(acc)), true
		}
	}
	if i < len(t) && t[i] == '.' {
		i++
		if digits() == 0 {
			r.unknown = true
			return nil, true
		}
	}
	if i < len(t) && vxIn(t[i], "eE") {
		i++
		if i < len(t) && vxIn(t[i], "+-") {
			i++
		}
		if digits() == 0 {
			r.unknown = true
			return nil, true
		}
	}
	if i < len(t) {
		r.unknown = true
		return nil, true
	}
	f, err := strconv.ParseFloat(string(t), 64)
	if err != nil {
		r.unknown = true
		return nil, true
	}
	return &vxNode{k: nkDouble, bits: vxF64bits(f)}, true
}

func jHex(b []byte) (uint32, bool) {
	if len(b) < 4 {
		return 0, false
	}
	var u uint32
	for i := 0; i < 4; i++ {
		c := b[i]
		switch {
		case vxRange(c, '0', '9'):
			u = u<<4 | uint32(c-'0')
		case vxRange(c, 'a', 'f'):
			u = u<<4 | uint32(c-'a'+10)
		case vxRange(c, 'A', 'F'):
			u = u<<4 | uint32(c-'A'+10)
		default:
			return 0, false
		}
	}
	return u, true
}

func jUTF8(out []byte, u uint32) []byte {
	switch {
	case u < 0x80:
		return append(out, byte(u))
	case u < 0x800:
		return append(out, 0xc0|byte(u>>6), 0x80|byte(u&63))
	case u < 0x10000:
		return append(out, 0xe0|byte(u>>12), 0x80|byte(u>>6&63), 0x80|byte(u&63))
	}
	return append(out, 0xf0|byte(u>>18), 0x80|byte(u>>12&63), 0x80|byte(u>>6&63), 0x80|byte(u&63))
}

// jSeq is the length of the valid UTF-8 sequence at the start of b, 0 if none.
func jSeq(b []byte) int {
	cont := func(n int) bool {
		if len(b) < n {
			return false
		}
		ok := true
		for i := 2; i < n; i++ {
			ok = vxAnd(ok, vxRange(b[i], 0x80, 0xbf))
		}
		return ok
	}
	c := b[0]
	switch {
	case c < 0x80:
		return 1
	case c < 0xc2 || c > 0xf4:
		return 0
	case c < 0xe0:
		if cont(2) && vxRange(b[1], 0x80, 0xbf) {
			return 2
		}
	case c < 0xf0:
		if cont(3) {
			lo, hi := byte(0x80), byte(0xbf)
			if c == 0xe0 {
				lo = 0xa0
			} else if c == 0xed {
				hi = 0x9f
			}
			if vxRange(b[1], lo, hi) {
				return 3
			}
		}
	default:
		if cont(4) {
			lo, hi := byte(0x80), byte(0xbf)
			if c == 0xf0 {
				lo = 0x90
			} else if c == 0xf4 {
				hi = 0x8f
			}
			if vxRange(b[1], lo, hi) {
				return 4
			}
		}
	}
	return 0
}

// str reads a string after its opening quote.
func (r *jReader) str() (string, bool) {
	var out []byte
	for r.p < len(r.b) {
		c := r.b[r.p]
		switch {
		case c == '"':
			r.p++
			return string(out), true
		case c == '\\':
			r.p++
			if r.p >= len(r.b) {
				return "", false
			}
			e := r.b[r.p]
			r.p++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'u':
				u, ok := jHex(r.b[r.p:])
				if !ok {
					r.unknown = true
					continue
				}
				r.p += 4
				if u >= 0xd800 && u < 0xe000 {
					if u >= 0xdc00 || len(r.b)-r.p < 6 || r.b[r.p] != '\\' || r.b[r.p+1] != 'u' {
						r.unknown = true
						continue
					}
					lo, ok := jHex(r.b[r.p+2:])
					if !ok || lo < 0xdc00 || lo >= 0xe000 {
						r.unknown = true
						continue
					}
					r.p += 6
					u = 0x10000 + (u-0xd800)<<10 + (lo - 0xdc00)
				}
				out = jUTF8(out, u)
			default:
				r.unknown = true
			}
		case c < 0x20:
			r.unknown = true
			r.p++
		case c < 0x80:
			out = append(out, c)
			r.p++
		default:
			n := jSeq(r.b[r.p:])
			if n == 0 {
				r.unknown = true
				n = 1
			}
			out = append(out, r.b[r.p:r.p+n]...)
			r.p += n
		}
	}
	return "", false
}

// jStr is a valid UTF-8 string of one of n shapes (at most 9).
func jStr(n int) string {
	seq := func(l int) string {
		s := vxStr(l)
		vxAssume(jSeq([]byte(s)) == l)
		return s
	}
	switch vxChoose(n) {
	case 0:
		return seq(1)
	case 1:
		return ""
	case 2:
		return seq(2)
	case 3:
		return seq(3)
	case 4:
		return seq(4)
	case 5:
		return seq(1) + seq(1)
	case 6:
		return seq(1) + seq(2) + "x"
	case 7:
		return seq(4) + seq(1)
	}
	return "\\" + seq(1) + "u0041"
}

// jSame asserts that two trees are the same JSON value: numbers by value.
func jSame(got, n *vxNode, l string) {
	switch n.k {
	case nkDouble, nkFloat:
		f := vxF64frombits(n.bits)
		if n.k == nkFloat {
			f = float64(vxF32frombits(uint32(n.bits)))
		}
		if got.k == nkInt {
			vxAssert(float64(got.i) == f, l+": number")
		} else if got.k == nkFloat {
			vxAssert(float64(vxF32frombits(uint32(got.bits))) == f, l+": number")
		} else {
			vxAssert(got.k == nkDouble, l+": number kind")
			vxAssert(vxF64frombits(got.bits) == f, l+": number")
		}
		return
	}
	vxAssert(got.k == n.k, l+": kind")
	vxAssert(len(got.kids) == len(n.kids), l+": count")
	switch n.k {
	case nkString, nkBinary:
		vxAssert(vxEq(got.s, n.s), l+": string")
	case nkInt:
		vxAssert(got.i == n.i, l+": integer")
	}
	for i := range n.kids {
		if n.k == nkObject {
			vxAssert(vxEq(got.keys[i], n.keys[i]), l+": key")
		}
		jSame(got.kids[i], n.kids[i], l)
	}
}

// jNodeOf reads a library value into a reference tree.
func jNodeOf(v *DxValue) *vxNode {
	switch v.DataType {
	case VT_Object:
		n := &vxNode{k: nkObject}
		for i := 0; i < v.Count(); i++ {
			k, x := v.Items(i)
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, jNodeOf(x))
		}
		return n
	case VT_Array:
		n := nArr()
		for i := 0; i < v.Count(); i++ {
			n.kids = append(n.kids, jNodeOf(v.ValueByIndex(i)))
		}
		return n
	case VT_String, VT_RawString:
		return nStr(v.String())
	case VT_Int:
		return nInt(v.Int())
	case VT_Double:
		return &vxNode{k: nkDouble, bits: vxF64bits(v.Double())}
	case VT_Float:
		return &vxNode{k: nkDouble, bits: vxF64bits(float64(v.Float()))}
	case VT_True:
		return nKind(nkTrue)
	case VT_False:
		return nKind(nkFalse)
	case VT_NULL:
		return nKind(nkNull)
	}
	return nKind(nkNan)
}
