package dxsvalue

import "time"

// Instants: what is set reads back, directly and through MessagePack and BSON.

func c24instant() (int64, int64, time.Time) {
	sec, ns := vxI64(), vxI64()
	vxAssume(vxAnd(sec >= -2208988800, sec < 6942758400))
	vxAssume(vxAnd(ns >= 0, ns < 1000000000))
	return sec, ns, vxZoned(time.Unix(sec, ns))
}

// vhC24_set: every setter, over every previous type.
func vhC24_set() {
	sec, ns, t := c24instant()
	var v *DxValue
	switch vxChoose(4) {
	case 0:
		prev := []ValueType{VT_Object, VT_Array, VT_String, VT_Int, VT_Float, VT_Double, VT_DateTime, VT_Binary, VT_ExBinary}
		v = NewValue(prev[vxChoose(len(prev))])
		if vxBool() {
			v.SetInt(7)
		}
		v.SetTime(t)
	case 1:
		o := NewValue(VT_Object)
		if vxBool() {
			o.SetKeyDouble("k", 1.5)
		}
		o.SetKeyTime("k", t)
		v = o.ValueByName("k")
		d := o.TimeByName("k", time.Time{})
		vxAssert(d.Unix() == v.GoTime().Unix(), "by name")
		d = o.GoTimeByPath(time.Time{}, "k")
		vxAssert(d.Unix() == v.GoTime().Unix(), "by path")
	case 2:
		o := NewValue(VT_Array)
		if vxBool() {
			o.SetIndexBool(0, true)
		}
		o.SetIndexTime(0, t)
		v = o.ValueByIndex(0)
	case 3:
		o := NewValue(VT_DateTime)
		o.SetTime(t)
		v = NewValue(VT_Double)
		v.SetDelphiTime(o.DateTime())
	}
	vxReach("set")
	vxHas(v, &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "set")
	vxHas(v.Clone(vxBool()), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "clone")
}

func c24wrap(t time.Time) (*DxValue, func(*DxValue) *DxValue) {
	o := NewValue(VT_Object)
	switch vxChoose(3) {
	case 0:
		o.SetKeyTime("k", t)
		return o, func(v *DxValue) *DxValue { return v.ValueByPath("k") }
	case 1:
		o.SetKey("a", VT_Array).SetIndexTime(0, t)
		return o, func(v *DxValue) *DxValue { return v.ValueByPath("a", "0") }
	}
	o.SetKeyString("x", "y")
	o.SetKey("o", VT_Object).SetKeyTime("k", t)
	return o, func(v *DxValue) *DxValue { return v.ValueByPath("o", "k") }
}

func vhC24_msgpack() {
	sec, ns, t := c24instant()
	v, get := c24wrap(t)
	enc := Value2MsgPack(v, nil)
	vxReach("encoded")
	d, err := NewValueFromMsgPack(enc, vxBool(), vxBool())
	vxAssert(err == nil, "decodes")
	vxHas(get(d), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "round trip")
	vxHas(get(v), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "source")
	l := NewValue(VT_Double)
	vxAssert(l.LoadFromMsgPack(enc, false) == nil, "loads")
	vxHas(get(l), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "load")
}

func vhC24_bson() {
	sec, ns, t := c24instant()
	v, get := c24wrap(t)
	enc := v.ToBson(nil)
	vxReach("encoded")
	d, err := NewValueFromBson(enc, vxBool(), vxBool())
	vxAssert(err == nil, "decodes")
	vxHas(get(d), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "round trip")
	vxHas(get(v), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "source")
}

// c24near is an instant within ten seconds of one of several dates; the offset
// and the nanoseconds are symbolic.
func c24near(far bool) (int64, int64, time.Time) {
	base := []int64{1700000000, 951782390, 86399990, 4102444790, 5000000000, 1077926390, 1230767990, 63072000}
	ns := vxI64()
	vxAssume(vxAnd(ns >= 0, ns < 999000000))
	sec := base[vxChoose(4+4*vxTier())]
	if far {
		x := vxByte()
		vxAssume(x < 10)
		sec += int64(x)
	} else {
		sec += int64(vxChoose(10))
	}
	return sec, ns, time.Unix(sec, ns)
}

func c24json(v *DxValue, esc bool) []byte {
	switch vxChoose(3) {
	case 0:
		return Value2Json(v, JSE_AllEscape, esc, nil)
	case 1:
		return Value2FormatJson(v, JSE_OnlyAnsiChar, esc, nil)
	}
	return v.ToJson(vxBool(), JSE_AllEscape, esc, nil)
}

// vhC24_json: the JSON notation for instants, exact to the second.
func vhC24_json() {
	sec, ns, t := c24near(false)
	v, get := c24wrap(t)
	esc := vxBool()
	doc := c24json(v, esc)
	vxReach("written")
	d, err := NewValueFromJson(doc, vxBool(), false)
	vxAssert(err == nil, "parses")
	x := get(d)
	vxAssert(x != nil && (x.DataType == VT_DateTime) == esc, "a time")
	y := x.GoTime()
	vxAssert(esc || y.Nanosecond() == 0, "text has whole seconds")
	z := x.DateTime()
	if !esc {
		x.SetDelphiTime(z)
		vxAssert(x.GoTime().Unix() == sec, "as Delphi time")
	}
	ms := (y.Unix()-sec)*1000 + int64(y.Nanosecond())/1000000
	vxAssert(vxAnd(ms >= 0, ms <= 1001), "the same second")
	vxHas(get(v), &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "source")
}

// vhC24_text: the text of a time shows its second, and reads back as it.
func vhC24_text() {
	sec, ns, t := c24near(true)
	v := NewValue(VT_DateTime)
	v.SetTime(t)
	want := time.Unix(sec, 0).Format("2006-01-02 15:04:05")
	vxReach("set")
	vxAssert(vxEq(v.String(), want), "text")
	vxHas(v, &vxNode{k: nkTime, i: sec, bits: uint64(ns)}, "unchanged")
}

func c24two(n int) string { return string([]byte{'0' + byte(n/10), '0' + byte(n%10)}) }

// vhC24_read: text in any of the three notations reads as its instant.
func vhC24_read() {
	y := []int{1999, 2000, 2038, 2100}[vxChoose(4)]
	mo := []int{1, 2, 9, 12}[vxChoose(4)]
	d := []int{1, 28, 10}[vxChoose(3)]
	h, mi, s := []int{0, 9, 13, 23}[vxChoose(4)], []int{0, 7, 59}[vxChoose(3)], []int{0, 30, 59}[vxChoose(3)]
	sep, mid, end := "-", " ", ""
	switch vxChoose(3) {
	case 1:
		mid, end = "T", "Z"
	case 2:
		sep = "/"
	}
	text := vxUtoa(uint64(y)) + sep + c24two(mo) + sep + c24two(d) + mid + c24two(h) + ":" + c24two(mi) + ":" + c24two(s) + end
	v := NewValue(VT_Object)
	v.SetKeyString("t", text)
	if vxBool() {
		var err error
		v, err = NewValueFromJson(Value2Json(v, JSE_OnlyAnsiChar, false, nil), false, false)
		vxAssert(err == nil, "parses")
	}
	x := v.ValueByName("t")
	want := time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local).Unix()
	vxReach("text")
	switch vxChoose(3) {
	case 0:
		vxAssert(x.GoTime().Unix() == want, "text as time")
	case 1:
		z := x.DateTime()
		x.SetDelphiTime(z)
		vxAssert(x.GoTime().Unix() == want, "text as Delphi time")
	case 2:
		vxAssert(v.TimeByName("t", time.Unix(0, 0)).Unix() == want, "by name")
	}
}
