package dxsvalue

import "time"

// Values that share nothing may be used from different goroutines.

type c27in struct {
	json, esc, mp, bson, yaml, yanch, bad []byte
}

// c27input makes the documents both goroutines read; s is their text.
func c27input(s string) *c27in {
	in := &c27in{}
	in.json = []byte(`{"k":"` + s + `","l":[1,{"m":null},true,2.5]}`)
	in.esc = []byte(`["` + s + `\n",{"x\u0041":"\u0042` + s + `"}]`)
	n := nObj2("k", nStr(s), "l", nArr(nInt(7), &vxNode{k: nkBinary, s: "bin"}, nKind(nkNull)))
	in.mp = Value2MsgPack(vxBuild(n), nil)
	in.bson = vxBuild(n).ToBson(nil)
	in.yaml = []byte("k: " + s + "\nl:\n- a\n- b: c\n")
	in.yanch = []byte("k: &q " + s + "\nl: *q\n")
	in.bad = []byte(`{"k":["` + s + `",}`)
	return in
}

func c27jsonTree(s string) *vxNode {
	return nObj2("k", nStr(s), "l", nArr(nInt(1), nObj1("m", nKind(nkNull)), nKind(nkTrue), &vxNode{k: nkDouble, bits: vxF64bits(2.5)}))
}

const c27scripts = 14

// c27script is what one goroutine does with values of its own: each step uses
// only what its own earlier steps made, apart from the input bytes.
func c27script(k int, in *c27in, s string, me string) []func() {
	var v, u *DxValue
	var out []byte
	switch k {
	case 0: // JSON, cached
		return []func(){
			func() {
				var err error
				v, err = NewValueFromJson(in.json, true, false)
				vxAssert(err == nil, "json parses")
			},
			func() {
				v.SetKeyString("me", me)
				vxAssert(v.StringByName("k", "") == s && v.StringByName("me", "") == me, "json content")
				out = Value2Json(v, JSE_OnlyAnsiChar, false, nil)
			},
			func() {
				vxAssert(vxEq(string(out), `{"k":"`+s+`","l":[1,{"m":null},true,2.5],"me":"`+me+`"}`), "json text")
				FreeValue(v)
			},
		}
	case 1: // JSON with escapes
		return []func(){
			func() {
				var err error
				v, err = NewValueFromJson(in.esc, true, true)
				vxAssert(err == nil, "json parses")
			},
			func() {
				vxHas(v, nArr(nStr(s+"\n"), nObj1("xA", nStr("B"+s))), "escaped json")
				FreeValue(v)
			},
		}
	case 2: // MessagePack
		return []func(){
			func() {
				var err error
				v, err = NewValueFromMsgPack(in.mp, true, false)
				vxAssert(err == nil, "msgpack parses")
			},
			func() {
				vxHas(v, nObj2("k", nStr(s), "l", nArr(nInt(7), &vxNode{k: nkBinary, s: "bin"}, nKind(nkNull))), "msgpack content")
				out = Value2MsgPack(v, nil)
				FreeValue(v)
			},
			func() { vxAssert(vxEq(string(out), string(in.mp)), "msgpack bytes") },
		}
	case 3: // BSON
		return []func(){
			func() {
				var err error
				v, err = NewValueFromBson(in.bson, true, false)
				vxAssert(err == nil, "bson parses")
			},
			func() {
				out = v.ToBson(nil)
				FreeValue(v)
			},
			func() { vxAssert(vxEq(string(out), string(in.bson)), "bson bytes") },
		}
	case 4: // YAML
		return []func(){
			func() {
				var err error
				v, err = NewValueFromYaml(in.yaml, true)
				vxAssert(err == nil, "yaml parses")
			},
			func() {
				vxHas(v, nObj2("k", nStr(s), "l", nArr(nStr("a"), nObj1("b", nStr("c")))), "yaml content")
				FreeValue(v)
			},
		}
	case 5: // YAML with an anchor
		return []func(){
			func() {
				var err error
				v, err = NewValueFromYaml(in.yanch, true)
				vxAssert(err == nil, "yaml parses")
			},
			func() {
				vxHas(v, nObj2("k", nStr(s), "l", nStr(s)), "yaml content")
				FreeValue(v)
			},
		}
	case 6: // the shared constants
		return []func(){
			func() {
				v = NewArray(true)
				for i, tp := range []ValueType{VT_NULL, VT_True, VT_False, VT_NAN, VT_INF} {
					v.SetIndexvalue(i, NewValue(tp), v.ValueCache())
				}
				u = v.Clone(true)
			},
			func() {
				u.SetIndexString(0, me)
				u.SetIndexBool(1, false)
				vxHas(v, nArr(nKind(nkNull), nKind(nkTrue), nKind(nkFalse), nKind(nkNan), nKind(nkInf)), "constants")
				v.ValueByIndex(1).SetInt(5)
				v.RemoveIndex(0)
			},
			func() {
				FreeValue(v)
				FreeValue(u)
				vxHas(NewValue(VT_NULL), nKind(nkNull), "null")
				vxHas(NewValue(VT_True), nKind(nkTrue), "true")
			},
		}
	case 7: // building with a cache
		return []func(){
			func() {
				v = NewObject(true)
				c := v.ValueCache()
				v.SetKeyCached("a", VT_Array, c).SetIndexCached(0, VT_String, c).SetString(me)
			},
			func() {
				v.SetKeyInt("n", 3)
				u = v.Clone(true)
				FreeValue(v)
			},
			func() {
				vxHas(u, nObj2("a", nArr(nStr(me)), "n", nInt(3)), "clone")
				FreeValue(u)
			},
		}
	case 8: // failing parses
		return []func(){
			func() {
				_, err := NewValueFromJson(in.bad, true, false)
				vxAssert(err != nil, "bad json")
			},
			func() {
				_, err := NewValueFromMsgPack(in.mp[:len(in.mp)-1], true, false)
				vxAssert(err != nil, "bad msgpack")
			},
			func() {
				_, err := NewValueFromBson(in.bson[:len(in.bson)-1], true, false)
				vxAssert(err != nil, "bad bson")
				NewValueFromYaml([]byte("a:\n\tb"), true)
			},
		}
	case 9: // reused values
		return []func(){
			func() {
				v = NewObject(true)
				vxAssert(v.LoadFromJson(in.json, false) == nil, "loads")
			},
			func() {
				vxHas(v, c27jsonTree(s), "loaded")
				vxAssert(v.LoadFromJson(in.esc, false) == nil, "loads")
			},
			func() {
				vxHas(v, nArr(nStr(s+"\n"), nObj1("xA", nStr("B"+s))), "loaded again")
				v.Clear()
				FreeValue(v)
			},
		}
	case 10: // merging, copying
		return []func(){
			func() {
				v, _ = NewValueFromJson([]byte(`{"a":{"x":1},"b":2}`), true, false)
				u, _ = NewValueFromJson([]byte(`{"a":{"y":"`+me+`"}}`), true, false)
			},
			func() {
				v.MergeWith(u, nil)
				FreeValue(u)
			},
			func() {
				vxAssert(v.ValueByName("a").StringByName("y", "") == me, "merged")
				FreeValue(v)
			},
		}
	case 11: // Go values
		m := map[string]interface{}{"q": []interface{}{me, 5, nil, true}}
		back := map[string]interface{}{}
		return []func(){
			func() { v = NewValueFrom(m, true) },
			func() {
				vxHas(v, nObj1("q", nArr(nStr(me), nInt(5), nKind(nkNull), nKind(nkTrue))), "from Go")
				v.ToStdValue(back, true)
			},
			func() {
				FreeValue(v)
				l, ok := back["q"].([]interface{})
				vxAssert(ok && len(l) == 4 && l[0] == me, "to Go")
			},
		}
	}
	if k == 12 { // whatever is called on a shared constant leaves it as it is
		return []func(){
			func() {
				for _, tp := range []ValueType{VT_NULL, VT_True, VT_False, VT_NAN, VT_INF} {
					c27constant(NewValue(tp), tp, in, me)
				}
			},
			func() {
				vxHas(NewValue(VT_NULL), nKind(nkNull), "null")
				vxHas(NewValue(VT_True), nKind(nkTrue), "true")
				vxHas(NewValue(VT_False), nKind(nkFalse), "false")
				vxHas(NewValue(VT_NAN), nKind(nkNan), "nan")
				vxHas(NewValue(VT_INF), nKind(nkInf), "inf")
			},
		}
	}
	// text of every kind
	return []func(){
		func() {
			v = NewValue(VT_Double)
			v.SetDouble(1.25)
			vxAssert(v.String() == "1.25", "double text")
			u = NewValue(VT_String)
			u.SetString("a\"" + me + "\xe4\xb8\xad")
		},
		func() {
			out = Value2Json(u, JSE_AllEscape, true, nil)
			vxAssert(v.String() == "1.25", "double text")
		},
		func() {
			w, err := NewValueFromJson(out, false, false)
			vxAssert(err == nil && w.String() == "a\""+me+"\xe4\xb8\xad", "string text")
		},
	}
}

// c27constant calls every mutating method on a value that is shared by all.
func c27constant(c *DxValue, tp ValueType, in *c27in, me string) {
	vxAssert(c.ReadOnly(), "constant")
	c.SetInt(5)
	c.SetFloat(1.5)
	c.SetDouble(2.5)
	c.SetString(me)
	c.SetBool(tp != VT_True)
	c.SetTime(time.Unix(1600000000, 0))
	c.SetDelphiTime(4000)
	c.SetExtType(3)
	c.SetBinary([]byte(me), true)
	c.Reset(VT_Object)
	c.SetValue(me)
	c.SetValue(5)
	c.SetValue(map[string]interface{}{"a": 1})
	c.SetValue(nil)
	c.Clear()
	c.CopyFrom(vxBuild(nArr(nStr(me))), nil)
	c.AddFrom(vxBuild(nArr(nStr(me))), nil)
	c.MergeWith(vxBuild(nObj1("a", nStr(me))), nil)
	c.RemoveKey("a")
	c.RemoveIndex(0)
	c.ExtractValue("a")
	vxAssert(c.LoadFromJson(in.json, false) != nil, "refused")
	vxAssert(c.LoadFromMsgPack(in.mp, false) != nil, "refused")
	vxAssert(c.LoadFromBson(in.bson, false) != nil, "refused")
	vxAssert(c.LoadFromYaml(in.yaml) != nil, "refused")
	c.Clone(false)
	c.Clone(true)
	c.Equal(NewValue(VT_True))
	FreeValue(c)
	vxAssert(c.DataType == tp, "constant kept")
}

// c27prime leaves used caches in the pool.
func c27prime(in *c27in, s string) {
	switch vxChoose(4) {
	case 1:
		v, _ := NewValueFromJson(in.json, true, false)
		FreeValue(v)
	case 2:
		for i := 0; i < 2; i++ {
			NewValueFromJson(in.bad, true, false)
		}
		NewValueFromYaml(in.yaml, false)
	case 3:
		v, _ := NewValueFromMsgPack(in.mp, true, false)
		u, _ := NewValueFromJson(in.esc, true, false)
		FreeValue(v)
		FreeValue(u)
	}
}

func c27text() string {
	c := vxByte()
	vxAssume(vxRange(c, 'a', 'z'))
	return string([]byte{c})
}

func vhC27_pairs() {
	s := c27text()
	in := c27input(s)
	c27prime(in, s)
	k := vxChoose(c27scripts)
	l := k + vxChoose(c27scripts-k)
	a := c27script(k, in, s, "A")
	b := c27script(l, in, s, "B")
	vxReach("ready")
	vxPar(a, b)
	vxReach("both done")
}
