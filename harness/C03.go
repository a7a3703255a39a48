package dxsvalue

// MsgPack decoding of arbitrary bytes returns a value or an error, never both
// missing; a proper prefix of a well-formed document is always an error.

func vhC03_decode() {
	max := 4
	if vxTier() == 1 {
		max = 6
	}
	b := vxBytes(vxChoose(max + 1))
	mode := vxChoose(4)
	v, err := NewValueFromMsgPack(b, mode&1 == 1, mode&2 == 2)
	vxReach("returned")
	vxAssert((v != nil) != (err != nil), "value or error")
}

func vhC03_load() {
	max := 4
	if vxTier() == 1 {
		max = 5
	}
	b := vxBytes(vxChoose(max + 1))
	v := NewValue(VT_Object)
	v.SetKeyInt("x", 1)
	err := v.LoadFromMsgPack(b, vxBool())
	vxReach("returned")
	if err == nil {
		// the loaded value is complete: it can be walked and encoded
		vxObs("len", uint64(len(Value2MsgPack(v, nil))))
	} else {
		Value2MsgPack(v, nil)
	}
}

// every proper prefix of an encoded tree is rejected
func vhC03_prefix() {
	enc := Value2MsgPack(vxBuild(vxTree(1)), nil)
	cut := vxChoose(len(enc))
	vxReach("cut")
	v, err := NewValueFromMsgPack(enc[:cut], false, false)
	vxAssert(err != nil, "truncated document is an error")
	vxAssert(v == nil, "no value for a truncated document")
}

// vhC03_bigprefix: prefixes of larger documents.
func vhC03_bigprefix() {
	enc := Value2MsgPack(vxBuild(vxWideOf([]int{12, 40}[vxChoose(2)], vxBool(), false)), nil)
	cut := vxCut(len(enc))
	v, err := NewValueFromMsgPack(enc[:cut:cut], vxBool(), false)
	vxReach("decoded")
	vxAssert(v == nil && err != nil, "proper prefix is an error")
}
