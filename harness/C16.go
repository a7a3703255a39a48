package dxsvalue

import (
	"strconv"
	"time"
)

// Scalars read back what was set, over every previous content.

// c16prev is a value with earlier content of any kind.
func c16prev() *DxValue {
	switch vxChoose(12) {
	case 0:
		return vxBuild(nObj2("a", nInt(1), "b", nArr()))
	case 1:
		return vxBuild(nArr(nStr("x"), nInt(2)))
	case 2:
		return vxBuild(nStr(vxStr(1)))
	case 3:
		v, _ := NewValueFromJson([]byte(`"a\n"`), false, false)
		return v
	case 4:
		return vxBuild(nInt(vxI64()))
	case 5:
		return vxBuild(vxScalarOf(nkFloat, 0))
	case 6:
		return vxBuild(vxScalarOf(nkDouble, 0))
	case 7:
		v := NewValue(VT_DateTime)
		v.SetTime(time.Unix(1600000000, 0))
		return v
	case 8:
		return vxBuild(vxScalarOf(nkBinary, 2))
	case 9:
		return vxBuild(vxScalarOf(nkExt, 2))
	case 10:
		v := NewValue(VT_Int)
		v.Reset(VT_NULL)
		return v
	}
	v := NewValue(VT_Int)
	v.SetInt(vxI64())
	v.SetBool(vxBool())
	return v
}

// c16set sets a scalar on v and returns what it should now be.
func c16set(v *DxValue) *vxNode {
	switch vxChoose(7) {
	case 0:
		n := nInt(vxI64())
		v.SetInt(n.i)
		return n
	case 1:
		n := vxScalarOf(nkFloat, 0)
		v.SetFloat(vxF32frombits(uint32(n.bits)))
		return n
	case 2:
		n := vxScalarOf(nkDouble, 0)
		if v.DataType == VT_DateTime {
			// SetDouble on a time keeps it a time
			v.Reset(VT_Double)
		}
		v.SetDouble(vxF64frombits(n.bits))
		return n
	case 3:
		n := nStr(vxStr(vxChoose(3)))
		v.SetString(n.s)
		return n
	case 4:
		v.SetBool(true)
		return nKind(nkTrue)
	case 5:
		v.SetBool(false)
		return nKind(nkFalse)
	}
	n := vxScalarOf(nkBinary, vxChoose(3))
	v.Reset(VT_Binary)
	b := []byte(n.s)
	if vxBool() {
		v.SetBinary(b, true)
		// a copy was asked for: the caller's buffer is free again
		for i := range b {
			b[i] = 'z'
		}
	} else {
		v.SetBinary(b, false)
	}
	return n
}

// c16clean asserts that nothing but n is visible through the other accessors.
func c16clean(v *DxValue, n *vxNode, l string) {
	vxHas(v, n, l)
	vxAssert(v.Count() == 0, l+": no members")
	vxAssert(v.ValueByName("a") == nil, l+": no member")
	vxAssert(v.ValueByIndex(0) == nil, l+": no element")
	if n.k != nkBinary && n.k != nkExt {
		vxAssert(v.BinLen() == 0 && v.Binary() == nil, l+": no binary")
	}
	if n.k != nkExt {
		vxAssert(v.BinExtType() == 0, l+": no extension type")
	}
	if n.k == nkBinary || n.k == nkNull {
		vxAssert(v.Int() == 0, l+": no number")
		vxAssert(v.Double() == 0, l+": no double")
		vxAssert(v.Float() == 0, l+": no float")
		vxAssert(!v.Bool(), l+": no bool")
	}
	enc := Value2MsgPack(v, nil)
	d, err := NewValueFromMsgPack(enc, false, false)
	vxAssert(err == nil, l+": encodes")
	vxHas(d, n, l+", encoded")
}

func vhC16_set() {
	v := c16prev()
	n := c16set(v)
	vxReach("set")
	c16clean(v, n, "set")
}

// vhC16_twice: set, set again, reset to a container and refill.
func vhC16_twice() {
	v := NewValue(VT_Int)
	c16set(v)
	c16clean(v, c16set(v), "set twice")
	vxReach("set")
	x := vxI64()
	if vxBool() {
		v.Reset(VT_Object)
		vxAssert(v.Count() == 0, "empty object")
		v.SetKeyInt("a", x)
		vxHas(v, nObj1("a", nInt(x)), "object again")
	} else {
		v.Reset(VT_Array)
		vxAssert(v.Count() == 0, "empty array")
		v.SetIndexInt(0, x)
		vxHas(v, nArr(nInt(x)), "array again")
	}
}

// vhC16_members: setting by key and by index over a member of any kind.
func vhC16_members() {
	o, a := NewValue(VT_Object), NewValue(VT_Array)
	o.SetKeyInt("first", 1)
	a.SetIndexInt(0, 1)
	if vxBool() {
		n := vxScalar(1)
		vxPut(o, "k", n)
		vxPut(a, "", n)
	} else if vxBool() {
		n := vxOdd()
		vxPut(o, "k", n)
		vxPut(a, "", n)
	} else if vxBool() {
		o.SetKey("k", VT_Object).SetKeyInt("x", 1)
		a.SetIndex(1, VT_Array).SetIndexInt(0, 1)
	}
	var n *vxNode
	switch vxChoose(6) {
	case 0:
		n = nInt(vxI64())
		o.SetKeyInt("k", n.i)
		a.SetIndexInt(1, n.i)
	case 1:
		n = vxScalarOf(nkFloat, 0)
		o.SetKeyFloat("k", vxF32frombits(uint32(n.bits)))
		a.SetIndexFloat(1, vxF32frombits(uint32(n.bits)))
	case 2:
		n = vxScalarOf(nkDouble, 0)
		o.SetKeyDouble("k", vxF64frombits(n.bits))
		a.SetIndexDouble(1, vxF64frombits(n.bits))
	case 3:
		n = nStr(vxStr(vxChoose(3)))
		o.SetKeyString("k", n.s)
		a.SetIndexString(1, n.s)
	case 4:
		n = nKind(nkTrue)
		o.SetKeyBool("k", true)
		a.SetIndexBool(1, true)
	case 5:
		n = nKind(nkFalse)
		o.SetKeyBool("k", false)
		a.SetIndexBool(1, false)
	}
	vxReach("set")
	c16clean(o.ValueByName("k"), n, "by key")
	c16clean(a.ValueByIndex(1), n, "by index")
	vxHas(o, nObj2("first", nInt(1), "k", n), "object")
	vxHas(a, nArr(nInt(1), n), "array")
}

// vhC16_int: conversions of an integer.
func vhC16_int() {
	v := NewValue(VT_Int)
	i := vxI64()
	v.SetInt(i)
	vxReach("set")
	vxAssert(v.Double() == float64(i), "as double")
	vxAssert(v.Float() == float32(i), "as float")
	vxAssert(v.Bool() == (i > 0), "as bool")
	vxAssert(v.Duration(7) == time.Duration(i), "as duration")
	s := v.String()
	vxAssert(vxEq(s, strconv.FormatInt(i, 10)), "as text")
	// text that spells an integer reads as that integer
	t := NewValue(VT_String)
	t.SetString(s)
	vxAssert(t.Int() == i, "text as integer")
}

// vhC16_float: conversions of floats.
func vhC16_float() {
	if vxBool() {
		f := vxF64()
		v := NewValue(VT_Double)
		v.SetDouble(f)
		vxReach("double")
		vxAssert(vxF32bits(v.Float()) == vxF32bits(float32(f)), "as float")
		vxAssert(v.Bool() == (f > 0), "as bool")
		if f > -9e18 && f < 9e18 {
			vxAssert(v.Int() == int64(f), "as integer")
		}
	} else {
		f := vxF32()
		v := NewValue(VT_Float)
		v.SetFloat(f)
		vxReach("float")
		vxAssert(vxF64bits(v.Double()) == vxF64bits(float64(f)), "as double")
		vxAssert(v.Bool() == (f > 0), "as bool")
		if f > -9e18 && f < 9e18 {
			vxAssert(v.Int() == int64(f), "as integer")
		}
	}
}

// vhC16_floattext: the text of a float parses back to it.
func vhC16_floattext() {
	f := vxF64()
	vxAssume(f == f)
	v := NewValue(VT_Double)
	v.SetDouble(f)
	g, err := strconv.ParseFloat(v.String(), 64)
	vxReach("text")
	vxAssert(err == nil, "parses")
	vxAssert(vxF64bits(g) == vxF64bits(f), "double text")
	h := vxF32()
	vxAssume(h == h)
	w := NewValue(VT_Float)
	w.SetFloat(h)
	g, err = strconv.ParseFloat(w.String(), 64)
	vxAssert(err == nil, "parses")
	vxAssert(vxF32bits(float32(g)) == vxF32bits(h), "float text")
}

// vhC16_text: conversions of short text, set or parsed from JSON.
func vhC16_text() {
	s := vxStr(vxChoose(5))
	v := NewValue(VT_String)
	v.SetString(s)
	vxReach("set")
	// an optional minus sign and digits
	neg, num, ok := false, int64(0), true
	for i := 0; i < len(s); i++ {
		if i == 0 && s[i] == '-' && len(s) > 1 {
			neg = true
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			ok = false
			break
		}
		num = num*10 + int64(s[i]-'0')
	}
	if neg {
		num = -num
	}
	if ok && len(s) > 0 {
		vxAssert(v.Int() == num, "digits as integer")
		vxAssert(v.Double() == float64(num), "digits as double")
		vxAssert(v.Float() == float32(num), "digits as float")
	} else {
		vxAssert(v.Int() == 0, "other text as integer")
	}
	isTrue := len(s) == 4 && (s[0]|32) == 't' && (s[1]|32) == 'r' && (s[2]|32) == 'u' && (s[3]|32) == 'e'
	vxAssert(v.Bool() == isTrue, "text as bool")
	vxHas(v, nStr(s), "unchanged")
}

// vhC16_raw: text of any state of decoding reads as its decoded content, and
// is replaced by whatever is set.
func vhC16_raw() {
	v, n := vxRaw()
	x, s := v.ValueByIndex(0), n.kids[0].s
	if vxBool() {
		x, s = v.ValueByName("b").ValueByIndex(0), n.kids[1].kids[0].s
	}
	vxReach("made")
	switch vxChoose(4) {
	case 0:
		vxAssert(vxEq(x.String(), s), "text")
		vxAssert(vxEq(x.String(), s), "text again")
		vxAssert(x.Int() == 0 && x.Double() == 0 && !x.Bool(), "no number")
		vxHas(x, nStr(s), "unchanged")
	case 1:
		x.SetString(`\u0041`)
		vxHas(x, nStr(`\u0041`), "set text")
	case 2:
		x.SetInt(4)
		vxHas(x, nInt(4), "set int")
	case 3:
		w, err := NewValueFromJson([]byte(`["-1\u0032","tr\u0075e","1\u002e5","\u0030x"]`), vxBool(), false)
		vxAssert(err == nil, "parses")
		vxAssert(w.ValueByIndex(0).Int() == -12 && w.IntByIndex(0, 0) == -12, "int of text")
		vxAssert(w.ValueByIndex(1).Bool() && w.BoolByIndex(1, false), "bool of text")
		vxAssert(w.ValueByIndex(2).Double() == 1.5 && w.ValueByIndex(2).Float() == 1.5, "double of text")
	}
}

// vhC16_others: conversions of the constants, of durations in text and of text
// that is no time.
func vhC16_others() {
	k := vxChoose(5)
	v := NewValue([]ValueType{VT_NULL, VT_True, VT_False, VT_NAN, VT_INF}[k])
	var one int64
	if k == 1 {
		one = 1
	}
	vxReach("constants")
	if k < 3 {
		vxAssert(v.Int() == one, "as integer")
		vxAssert(v.Double() == float64(one), "as double")
		vxAssert(v.Float() == float32(one), "as float")
		vxAssert(v.Bool() == (k == 1), "as bool")
	}
	vxAssert(v.Duration(11) == 11, "no duration")
	c := vxByte()
	vxAssume(vxRange(c, '0', '9'))
	n := time.Duration(c - '0')
	t := NewValue(VT_String)
	d := time.Duration(-5)
	switch vxChoose(5) {
	case 0:
		t.SetString(string([]byte{c}) + "s")
		d = n * time.Second
	case 1:
		t.SetString("1h" + string([]byte{c}) + "m")
		d = time.Hour + n*time.Minute
	case 2:
		t.SetString("-" + string([]byte{c}) + "ms")
		d = -n * time.Millisecond
	case 3:
		t.SetString("x" + string([]byte{c}))
	case 4:
		t.SetString(string([]byte{c}) + "parsecs")
	}
	vxAssert(t.Duration(-5) == d, "text as duration")
	if vxBool() {
		w, err := NewValueFromJson([]byte(`"`+t.String()+`"`), vxBool(), false)
		vxAssert(err == nil, "parses")
		vxAssert(w.Duration(-5) == d, "parsed text as duration")
	}
}

// vhC16_replace: a value put into something that is no container makes it one.
func vhC16_replace() {
	v := c16prev()
	n := vxFewScalar(1)
	k := vxStr(1)
	switch vxChoose(2) {
	case 0:
		vxAssume(v.DataType != VT_Object && v.DataType != VT_Array)
		v.SetKeyValue(k, vxBuild(n))
		vxReach("set")
		vxHas(v, nObj1(k, n), "member")
		v.SetIndexValue(5, vxBuild(n))
		vxHas(v, nArr(n), "element")
	case 1:
		vxAssume(v.DataType != VT_Array)
		v.SetIndexValue(int(vxI64()), vxBuild(n))
		vxReach("set")
		vxHas(v, nArr(n), "element")
		v.Reset(VT_Int)
		v.SetKeyValue(k, vxBuild(n))
		vxHas(v, nObj1(k, n), "member")
	}
}
