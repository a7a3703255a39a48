package dxsvalue

// YAML parsing always returns, with a value or an error, and leaves nothing behind.

func c09read(v *DxValue, depth int) {
	_ = v.Binary()
	if v.DataType != VT_Double && v.DataType != VT_Float {
		v.Int()
		v.Bool()
		if v.Count() == 0 {
			_ = v.String()
		}
	}
	for i := 0; i < v.Count(); i++ {
		k, x := v.Items(i)
		vxAssert(x != nil, "a member has a value")
		v.ValueByName(k)
		_ = v.KeyNameByIndex(i)
		if depth > 0 {
			c09read(x, depth-1)
		}
	}
}

// c09same: two trees read the same.
func c09same(a, b *DxValue, l string) {
	vxAssert(a != nil && b != nil, l+": present")
	vxAssert(a.DataType == b.DataType, l+": same type")
	switch a.DataType {
	case VT_Object, VT_Array:
		vxAssert(a.Count() == b.Count(), l+": same count")
		for i := 0; i < a.Count(); i++ {
			k, x := a.Items(i)
			q, y := b.Items(i)
			if a.DataType == VT_Object {
				vxAssert(vxEq(k, q), l+": same key")
			}
			c09same(x, y, l)
		}
	case VT_String, VT_RawString:
		vxAssert(vxEq(a.String(), b.String()), l+": same text")
	case VT_Double:
		vxAssert(vxF64bits(a.Double()) == vxF64bits(b.Double()), l+": same number")
	case VT_Int:
		vxAssert(a.Int() == b.Int(), l+": same number")
	}
}

const c09plain = "p:\n- q: 1\n  r: s\n- t\n"

func c09plainHas(v *DxValue, err error, l string) {
	vxAssert(err == nil, l+": no error")
	vxAssert(v.DataType == VT_Object && v.Count() == 1, l+": object with one member")
	p := v.ValueByName("p")
	vxAssert(p != nil && p.DataType == VT_Array && p.Count() == 2, l+": sequence of two")
	e := p.ValueByIndex(0)
	vxAssert(e.DataType == VT_Object && e.Count() == 2 && e.IntByName("q", 0) == 1 && e.StringByName("r", "") == "s", l+": inner mapping")
	vxAssert(p.ValueByIndex(1).String() == "t", l+": last element")
}

func c09run(b []byte) { c09do(b, vxBool()) }

func c09do(b []byte, cached bool) {
	v, err := NewValueFromYaml(b, cached)
	vxReach("returned")
	vxAssert((v != nil) != (err != nil), "value or error")
	if err != nil {
		vxReach("rejected")
		vxAssert(len(err.Error()) > 0, "error has a message")
	} else {
		vxReach("accepted")
		c09read(v, 4)
	}
	// a later parse of another document gives that document
	w, e := NewValueFromYaml([]byte(c09plain), cached)
	c09plainHas(w, e, "next parse")
	// parsing the same text again gives the same
	w, e = NewValueFromYaml(b, cached)
	vxAssert((e == nil) == (err == nil), "same outcome again")
	if err == nil {
		c09same(v, w, "again")
	}
	// loading into an existing value fails in the same cases and leaves it usable
	w = NewObject(cached)
	w.SetKeyInt("old", 1)
	e = w.LoadFromYaml(b)
	vxAssert((e == nil) == (err == nil), "load fails as parsing does")
	c09read(w, 4)
	e = w.LoadFromYaml([]byte(c09plain))
	c09plainHas(w, e, "load after")
}

// every text up to the bound over the bytes that steer the parser
func vhC09_free() {
	n := vxChoose(6 + vxTier())
	b := vxBytes(n)
	for i := range b {
		vxAssume(vxIn(b[i], "a1: -#\n\r\t&*{}[]<.\"\x80"))
	}
	c09run(b)
}

// any bytes at all
func vhC09_bytes() {
	c09run(vxBytes(vxChoose(5 + vxTier())))
}

func c09docs() []string {
	return []string{
		"a: 1\nb:\n  - x\n  - c: d\n    e: &q\n      f: true\n  -\n    - *q\n",
		"# c\r\n- - 1.5\r\n  - [1, 2]\r\n- k: &v w x\r\n  l: *v # d\r\n",
		"x: &b\n  y: z\n  u:\nt:\n  <<: *b\n  s: one\n   two\n",
	}
}

// a document with one byte replaced, removed or inserted
func vhC09_mutate() {
	ds := c09docs()
	d := ds[vxChoose(len(ds))]
	at := vxChoose(len(d))
	switch vxChoose(3) {
	case 0:
		c09run([]byte(d[:at] + vxStr(1) + d[at+1:]))
	case 1:
		c09run([]byte(d[:at] + d[at+1:]))
	case 2:
		c09run([]byte(d[:at] + vxStr(1) + d[at:]))
	}
}

// a document cut anywhere, with up to two free bytes after the cut
func vhC09_cut() {
	ds := c09docs()
	d := ds[vxChoose(len(ds))]
	at := vxChoose(len(d) + 1)
	c09run([]byte(d[:at] + vxStr(vxChoose(2+vxTier()))))
}

func c09char() string {
	c := vxStr(1)
	vxAssume(vxIn(c[0], "x7:-# &*[{"))
	return c
}

func c09line() string {
	switch vxChoose(12) {
	case 0:
		return c09char() + ": 1"
	case 1:
		return "a:"
	case 2:
		return "- " + c09char()
	case 3:
		return "-"
	case 4:
		return "- b:"
	case 5:
		return c09char()
	case 6:
		return "# c"
	case 7:
		return ""
	case 8:
		return "d: &q"
	case 9:
		return "e: *q"
	case 10:
		return "<<: *q"
	}
	return "- - 2"
}

// lines of every kind one after the other, at any indentation
func vhC09_lines() {
	s := "  "[:vxChoose(2)] + c09line()
	end := "\n"
	if vxBool() {
		end = "\r\n"
	}
	if vxTier() > 0 {
		s += end + "  "[:vxChoose(3)]
		switch vxChoose(4) {
		case 0:
			s += "k:"
		case 1:
			s += "- d: &q"
		case 2:
			s += "-"
		case 3:
			s += "y"
		}
	}
	s += end + "   "[:vxChoose(4)] + c09line()
	if vxBool() {
		s += end
	}
	c09do([]byte(s), len(s)%2 == 0)
}
