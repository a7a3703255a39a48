package dxsvalue

// JSON parsing gives the document's meaning.

func c07cmp(b []byte) {
	n, st := jsonRead(b)
	v, err := NewValueFromJson(b, vxBool(), vxBool())
	vxReach("parsed")
	switch st {
	case jBad:
		vxReach("malformed")
		vxAssert(err != nil, "malformed document is rejected")
	case jOK:
		vxReach("document")
		vxAssert(err == nil, "document is accepted")
		vxHas(v, n, "parsed")
		if n.k == nkObject {
			for i := range n.keys {
				vxAssert(v.ValueByName(n.keys[i]) == v.ValueByIndex(i), "parsed: lookup by unescaped key")
			}
		}
	}
}

// every byte string up to the bound
func vhC07_free() {
	c07cmp(vxBytes(vxChoose(6 + 2*vxTier())))
}

func c07(pre string, n int, post string) {
	c07cmp([]byte(pre + vxStr(n) + post))
}

// free bytes inside a string
func vhC07_string() {
	c07(`"`, vxChoose(5+2*vxTier()), `"`)
}

// free bytes inside a key, with other members around it
func vhC07_key() {
	c07(`{"x":1,"`, vxChoose(4+2*vxTier()), `":2}`)
}

// free bytes where an element is
func vhC07_element() {
	c07(`[0,`, vxChoose(4+2*vxTier()), `,"z"]`)
}

// free bytes where a member is
func vhC07_member() {
	c07(`{"k"`, vxChoose(4+2*vxTier()), `}`)
}

// free bytes around a document
func vhC07_around() {
	c07cmp([]byte(vxStr(vxChoose(3)) + `{"a":[]}` + vxStr(vxChoose(3))))
}

// \u escapes with every digit free, alone and in pairs
func vhC07_unicode() {
	hex := func(n int) string {
		s := vxStr(n)
		for i := 0; i < n; i++ {
			c := s[i]
			vxAssume(vxOr(vxRange(c, '0', '9'), vxOr(vxRange(c, 'a', 'f'), vxRange(c, 'A', 'F'))))
		}
		return s
	}
	switch vxChoose(5) {
	case 0:
		c07cmp([]byte(`"\u` + hex(4) + `"`))
	case 1:
		c07cmp([]byte(`{"\u` + hex(4) + `z":0}`))
	case 2:
		c07cmp([]byte(`"\ud` + hex(3) + `\ud` + hex(3) + `"`))
	case 3:
		c07cmp([]byte(`"\u00` + hex(2) + `\n\u00` + hex(2) + `\\"`))
	case 4:
		c07cmp([]byte(`"%u00` + hex(2) + `\/\\u00` + hex(2) + `"`))
	}
}

// UTF-8 of every length, in strings and keys
func vhC07_utf8() {
	l := 2 + vxChoose(3)
	s := vxStr(l)
	vxAssume(jSeq([]byte(s)) == l)
	switch vxChoose(3) {
	case 0:
		c07cmp([]byte(`"` + s + `"`))
	case 1:
		c07cmp([]byte(`{"` + s + `":"` + s + `\t"}`))
	case 2:
		c07cmp([]byte(`"\\` + s + `\""`))
	}
}

// white space between any two tokens
func vhC07_space() {
	toks := []string{`{`, `"a"`, `:`, `[`, `1`, `,`, `-2.5`, `,`, `{`, `}`, `,`, `[`, `]`, `,`, `"s"`, `,`, `null`, `]`, `,`, `"b"`, `:`, `{`, `"c"`, `:`, `true`, `}`, `}`}
	at := vxChoose(len(toks) + 1)
	w := vxStr(1 + vxChoose(2))
	for i := 0; i < len(w); i++ {
		vxAssume(jIsWS(w[i]))
	}
	d := ""
	for i := range toks {
		if i == at {
			d += w
		}
		d += toks[i]
	}
	if at == len(toks) {
		d += w
	}
	c07cmp([]byte(d))
}

// one token dropped, doubled or replaced by another
func vhC07_tokens() {
	toks := []string{`{`, `"a"`, `:`, `[`, `1`, `,`, `"s"`, `,`, `[`, `]`, `]`, `,`, `"b"`, `:`, `{`, `"c"`, `:`, `true`, `}`, `}`}
	at := vxChoose(len(toks))
	how := vxChoose(11)
	repl := []string{`{`, `}`, `[`, `]`, `:`, `,`, `"q"`, `7`, ``}
	d := ""
	for i := range toks {
		if i == at {
			switch {
			case how < len(repl):
				d += repl[how]
			case how == 9:
				d += toks[i] + toks[i]
			case how == 10:
				// cut here
				c07cmp([]byte(d))
				return
			}
			continue
		}
		d += toks[i]
	}
	c07cmp([]byte(d))
}

// integers of 18 and 19 digits and the ends of the range
func vhC07_integer() {
	s := ""
	if vxBool() {
		s = "-"
	}
	switch vxChoose(4) {
	case 0:
		s += "92233720368547758" + c07digits(2)
	case 1:
		s += "1" + c07digits(9)
	case 2:
		s += "9223372036854" + c07digits(5)
	case 3:
		s += []string{"0", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "100000000000000000000", "1000000000000000000"}[vxChoose(8)]
	}
	switch vxChoose(3) {
	case 0:
		c07cmp([]byte(s))
	case 1:
		c07cmp([]byte("[" + s + "]"))
	case 2:
		c07cmp([]byte(`{"n": ` + s + " }"))
	}
}

func c07digits(n int) string {
	s := vxStr(n)
	for i := 0; i < n; i++ {
		vxAssume(vxRange(s[i], '0', '9'))
	}
	return s
}

// doubles
func vhC07_double() {
	list := []string{"0.0", "-0.0", "1.5", "-1.5e3", "1e0", "1E+2", "1e-2", "0e0", "1e300", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "0.1", "9007199254740993.0", "123456789012345678.5", "1e19", "3.4028235e38", "0.30000000000000004", "1.0e1", "-0e-1", "2.5E-5", "10.25", "4.35", "1e22", "1e23", "12345678901234567890", "0.000001", "1e400", "-1e999", "1e-400"}
	s := list[vxChoose(len(list))]
	switch vxChoose(3) {
	case 0:
		c07cmp([]byte(s))
	case 1:
		c07cmp([]byte("[" + s + "]"))
	case 2:
		c07cmp([]byte(`{"n": ` + s + " }"))
	}
}

// strings that end in backslashes
func vhC07_backslash() {
	n := vxChoose(7)
	s := ""
	for i := 0; i < n; i++ {
		s += `\`
	}
	t := vxStr(vxChoose(3))
	switch vxChoose(3) {
	case 0:
		c07cmp([]byte(`["a` + s + `",1` + t + `]`))
	case 1:
		c07cmp([]byte(`{"a` + s + `":"` + t + `"}`))
	case 2:
		c07cmp([]byte(`"` + s + `"` + t))
	}
}

// vhC07_big: larger documents, every prefix of which is refused.
func vhC07_big() {
	n := vxBig(true)
	doc := []byte(vxJSONText(n, []string{"", " ", "\r\n\t"}[vxChoose(3)]))
	v, err := NewValueFromJson(doc, vxBool(), vxBool())
	vxReach("parsed")
	vxAssert(err == nil, "accepted")
	jSame(jNodeOf(v), n, "meaning")
}

func vhC07_bigprefix() {
	n := vxWideOf([]int{12, 25}[vxChoose(2)], vxBool(), true)
	doc := []byte(vxJSONText(n, []string{"", " "}[vxChoose(2)]))
	cut := vxCut(len(doc))
	v, err := NewValueFromJson(doc[:cut:cut], vxBool(), false)
	vxReach("parsed")
	vxAssert(v == nil && err != nil, "proper prefix is refused")
}
