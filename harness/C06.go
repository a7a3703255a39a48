package dxsvalue

// JSON parsing always returns, with a value or an error.

// c06read touches everything that can be read from a value. (The text and the
// conversions of doubles are in C08 and C16.)
func c06read(v *DxValue, depth int) {
	v.Double()
	_ = v.Binary()
	if v.DataType != VT_Double {
		v.Int()
		v.Bool()
		if depth == 0 || v.Count() == 0 {
			_ = v.String()
		}
	}
	for i := 0; i < v.Count(); i++ {
		k, x := v.Items(i)
		v.ValueByName(k)
		_ = v.KeyNameByIndex(i)
		if x != nil && depth > 0 {
			c06read(x, depth-1)
		}
	}
}

func c06run(b []byte) { c06do(b, true) }

func c06do(b []byte, after bool) {
	cached, share := vxBool(), vxBool()
	v, err := NewValueFromJson(b, cached, share)
	vxReach("returned")
	vxAssert((v != nil) != (err != nil), "value or error")
	if err != nil {
		vxReach("rejected")
		vxAssert(len(err.Error()) > 0, "error has a message")
		// the same input into an existing value fails or is empty, and leaves it usable
		w := NewObject(cached)
		w.SetKeyInt("old", 1)
		err = w.LoadFromJson(b, share)
		ws := true
		for i := range b {
			ws = vxAnd(ws, jIsWS(b[i]))
		}
		vxAssert((err == nil) == ws, "load of malformed input is an error")
		if err != nil {
			vxAssert(len(err.Error()) > 0, "load error has a message")
		}
		if after {
			c06after(w)
		}
		return
	}
	vxReach("accepted")
	c06read(v, 4)
	c06write(v)
	w := NewArray(cached)
	vxAssert(w.LoadFromJson(b, share) == nil, "load of accepted input")
	c06read(w, 4)
	if after {
		c06write(w)
	}
}

func c06double(v *DxValue) bool {
	if v == nil {
		return false
	}
	for i := 0; i < v.Count(); i++ {
		if c06double(v.ValueByIndex(i)) {
			return true
		}
	}
	return v.DataType == VT_Double
}

func c06write(v *DxValue) {
	if !c06double(v) {
		if vxBool() {
			v.ToJson(true, JSE_OnlyAnsiChar, false, nil)
		} else {
			Value2Json(v, JSE_AllEscape, true, nil)
		}
	}
	Value2MsgPack(v, nil)
}

// after a failed load: read, encode, reset, load again
func c06after(w *DxValue) {
	switch vxChoose(4) {
	case 0:
		c06read(w, 4)
		c06write(w)
		_ = w.Clone(false)
	case 1:
		w.Reset(VT_Object)
		w.SetKeyInt("n", 2)
		vxHas(w, nObj1("n", nInt(2)), "reset after failure")
	case 2:
		vxAssert(w.LoadFromJson([]byte(`{"n":[2]}`), false) == nil, "load after failure")
		vxHas(w, nObj1("n", nArr(nInt(2))), "loaded after failure")
	case 3:
		w.Clear()
		vxAssert(w.Count() == 0, "clear after failure")
		n, err := NewValueFromJson([]byte(`{"n":[2]}`), true, false)
		vxAssert(err == nil, "parse after failure")
		vxHas(n, nObj1("n", nArr(nInt(2))), "parsed after failure")
	}
}

// every byte string up to the bound
func vhC06_free() {
	c06run(vxBytes(vxChoose(5 + vxTier())))
}

func c06docs() []string {
	return []string{
		`{"a":[1,-2.5e3,"x\n\u0041\ud83d\ude00"],"b":{"c":null,"\"d":true},"e":false}`,
		` [ {} , [ ] , "" , nan , -inf , "\\" ] `,
		"{\r\n  \"key\" : \"/Dat\" ,\t\"n\" : 12345678901234567890 }",
	}
}

// a document with one byte replaced, removed or inserted
func vhC06_mutate() {
	ds := c06docs()
	d := ds[vxChoose(len(ds))]
	at := vxChoose(len(d))
	switch vxChoose(3) {
	case 0:
		c06run([]byte(d[:at] + vxStr(1) + d[at+1:]))
	case 1:
		c06run([]byte(d[:at] + d[at+1:]))
	case 2:
		c06run([]byte(d[:at] + vxStr(1) + d[at:]))
	}
}

// a document cut anywhere, with up to two free bytes after the cut
func vhC06_cut() {
	ds := c06docs()
	d := ds[vxChoose(len(ds))]
	at := vxChoose(len(d) + 1)
	c06run([]byte(d[:at] + vxStr(vxChoose(2+vxTier()))))
}

// free bytes in the places that steer the parser
func vhC06_places() {
	s := vxStr(vxChoose(4 + vxTier()))
	switch vxChoose(6) {
	case 0:
		c06do([]byte(`"`+s), false)
	case 1:
		c06do([]byte(`{"`+s), false)
	case 2:
		c06do([]byte(`{"a":`+s), false)
	case 3:
		c06do([]byte(`[`+s), false)
	case 4:
		c06do([]byte(`[1,`+s), false)
	case 5:
		c06do([]byte(`{"a":1,`+s), false)
	}
}

// free bytes after a backslash
func vhC06_escape() {
	s := vxStr(vxChoose(4 + vxTier()))
	switch vxChoose(3) {
	case 0:
		c06do([]byte(`"\u`+s+`"`), false)
	case 1:
		c06do([]byte(`{"k\`+s+`":"v"}`), false)
	case 2:
		c06do([]byte(`["\`+s), false)
	}
}

// many levels of nesting
func vhC06_deep() {
	o := []string{`[`, `{"a":`, `[[1],`, `[{"b":`}[vxChoose(4)]
	c := []string{`]`, `}`, `]`, `}]`}[vxChoose(4)]
	n := []int{1, 7, 8, 9, 40}[vxChoose(5)]
	d := ""
	for i := 0; i < n; i++ {
		d += o
	}
	d += "0"
	for i := 0; i < n; i++ {
		d += c
	}
	c06run([]byte(d + vxStr(vxChoose(2))))
}
