package dxsvalue

// Values whose text the library decodes lazily, in every state of decoding, and
// text whose decoded form looks escaped again.

// vxTouch reads a value in every way that may decode it in place.
func vxTouch(v *DxValue) {
	if v == nil {
		return
	}
	switch v.DataType {
	case VT_Object, VT_Array:
		for i := 0; i < v.Count(); i++ {
			_, x := v.Items(i)
			_ = v.KeyNameByIndex(i)
			vxTouch(x)
		}
		v.ValueByName("absent")
	case VT_String, VT_RawString:
		_ = v.String()
	}
}

// vxRaw is an object {k: s, "b": [s, {k: s}]} in one of these states.
func vxRaw() (*DxValue, *vxNode) {
	c := vxByte()
	vxAssume(vxRange(c, '1', '9'))
	up := string([]byte{c - '0' + 0x40})
	d := string([]byte{c})
	var doc string
	var n *vxNode
	switch vxChoose(2) {
	case 0:
		doc = `{"k\u004` + d + `":"v\u004` + d + `\n","b":["\"",{"x\n":"\u004` + d + `"}]}`
		n = nObj2("k"+up, nStr("v"+up+"\n"), "b", nArr(nStr("\""), nObj1("x\n", nStr(up))))
	case 1:
		doc = `{"k\\n` + d + `":"v\\u0041","b":["\\t` + d + `",{"x\\n":"\\\\"}]}`
		n = nObj2(`k\n`+d, nStr(`v\u0041`), "b", nArr(nStr(`\t`+d), nObj1(`x\n`, nStr(`\\`))))
	}
	if vxChoose(4) == 3 {
		return vxBuild(n), n
	}
	v, err := NewValueFromJson([]byte(doc), vxBool(), vxBool())
	vxAssert(err == nil, "parses")
	switch vxChoose(3) {
	case 1:
		vxTouch(v)
	case 2:
		_ = v.KeyNameByIndex(0)
	}
	return v, n
}
