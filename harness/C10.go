package dxsvalue

// Block-style YAML documents mean what they say.

// yDoc writes a reference tree as a block document, choosing the layout.
type yDoc struct {
	s     string
	eol   string
	extra int // lines until a blank or comment line is put in
	rich  int // scalars until the one with arbitrary layout
}

func (d *yDoc) pad(n int) string { return "                                "[:n] }

func (d *yDoc) end() {
	d.s += d.eol
	d.extra--
	if d.extra == 0 {
		switch vxChoose(4) {
		case 0:
			d.s += d.eol
		case 1:
			d.s += "  " + d.eol
		case 2:
			d.s += "# x: y" + d.eol
		case 3:
			d.s += "   #- z" + d.eol
		}
	}
}

// scalar ends a line with a scalar.
func (d *yDoc) scalar(n *vxNode) {
	d.rich--
	if d.rich == 0 {
		d.s += d.pad(1 + vxChoose(2))
		d.s += n.s
		switch vxChoose(4) {
		case 1:
			d.s += "  "
		case 2:
			d.s += " # c: d"
		case 3:
			d.s += "  ## - #e # f"
		}
	} else {
		d.s += " " + n.s
	}
	d.end()
}

// mapping writes members; the first one continues the current line when inline.
func (d *yDoc) mapping(n *vxNode, col int, inline bool) {
	for i := range n.kids {
		if i > 0 || !inline {
			d.s += d.pad(col)
		}
		d.s += n.keys[i] + ":"
		k := n.kids[i]
		switch k.k {
		case nkObject:
			d.end()
			d.mapping(k, col+1+vxChoose(3), false)
		case nkArray:
			d.end()
			d.sequence(k, col+vxChoose(3), false)
		default:
			d.scalar(k)
		}
	}
}

func (d *yDoc) sequence(n *vxNode, col int, inline bool) {
	for i := range n.kids {
		if i > 0 || !inline {
			d.s += d.pad(col)
		}
		d.s += "-"
		k := n.kids[i]
		if k.k != nkObject && k.k != nkArray {
			d.scalar(k)
			continue
		}
		g := vxChoose(3) // spaces after the dash, or a new line
		c := col + 1 + g
		if g == 0 {
			d.end()
			c = col + 1 + vxChoose(2)
		} else {
			d.s += d.pad(g)
		}
		if k.k == nkObject {
			d.mapping(k, c, g != 0)
		} else {
			d.sequence(k, c, g != 0)
		}
	}
}

// yWrite lays the tree out as a whole document.
func yWrite(n *vxNode) string {
	d := &yDoc{eol: "\n"}
	if vxBool() {
		d.eol = "\r\n"
	}
	head := 0
	switch vxChoose(4) {
	case 1:
		d.extra = 1 + vxChoose(4)
	case 2:
		d.rich = 1 + vxChoose(2)
	case 3:
		head = 1 + vxChoose(3)
	}
	if vxTier() > 0 && head == 0 {
		head = vxChoose(4)
	}
	col := 0
	switch head {
	case 1:
		col = 2
	case 2:
		d.s = "---" + d.eol
	case 3:
		d.s = "# c" + d.eol + d.eol
	}
	if n.k == nkObject {
		d.mapping(n, col, false)
	} else {
		d.sequence(n, col, false)
	}
	if vxBool() { // no final line break
		d.s = d.s[:len(d.s)-len(d.eol)]
	}
	return d.s
}

func yLetter() byte {
	c := vxByte()
	vxAssume(vxRange(c, 'g', 'z'))
	return c
}

// yName is a plain word.
func yName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = yLetter()
	}
	return string(b)
}

func yWord() *vxNode { return nStr(yName(1)) }

// Scalars are strings whose text is s; i and k say what the text denotes.
func yInt() *vxNode {
	n := &vxNode{k: nkInt}
	neg := vxBool()
	b := []byte{}
	if neg {
		b = append(b, '-')
	}
	l := 1 + vxChoose(3)
	for j := 0; j < l; j++ {
		c := vxByte()
		vxAssume(vxRange(c, '0', '9'))
		b = append(b, c)
		n.i = n.i*10 + int64(c-'0')
	}
	if neg {
		vxAssume(n.i != 0)
		n.i = -n.i
	}
	n.s = string(b)
	return n
}

func yDigit() *vxNode {
	c := vxByte()
	vxAssume(vxRange(c, '0', '9'))
	return &vxNode{k: nkInt, i: int64(c - '0'), s: string([]byte{c})}
}

func yScalar() *vxNode {
	switch vxChoose(5) {
	case 0:
		return &vxNode{k: nkTrue, s: "true"}
	case 1:
		return &vxNode{k: nkFalse, s: "false"}
	case 2:
		return yInt()
	case 3: // halves are exact
		c := vxByte()
		vxAssume(vxRange(c, '0', '9'))
		return &vxNode{k: nkDouble, i: int64(c-'0')*2 + 1, s: string([]byte{c}) + ".5"}
	}
	return yText()
}

// yText is a plain scalar: a letter, then anything that is neither a key mark, a
// comment nor a line end, and no space last.
func yText() *vxNode {
	b := vxBytes(1 + vxChoose(3))
	vxAssume(vxRange(b[0], 'g', 'z'))
	vxAssume(b[0] != 'i')
	vxAssume(b[0] != 'n')
	for j := 1; j < len(b); j++ {
		vxAssume(vxAnd(b[j] >= ' ', b[j] < 0x7f))
		vxAssume(!vxAnd(b[j-1] == ':', b[j] == ' '))
		vxAssume(!vxAnd(b[j-1] == ' ', b[j] == '#'))
	}
	vxAssume(vxAnd(b[len(b)-1] != ' ', b[len(b)-1] != ':'))
	return nStr(string(b))
}

func yMap(kids ...*vxNode) *vxNode {
	n := &vxNode{k: nkObject, kids: kids}
	for i := range kids {
		k := yName(1)
		for j := 0; j < i; j++ {
			vxAssume(!vxEq(k, n.keys[j]))
		}
		n.keys = append(n.keys, k)
	}
	return n
}

// yHas asserts that v is the tree n.
func yHas(v *DxValue, n *vxNode, l string) {
	vxAssert(v != nil, l+": present")
	switch n.k {
	case nkObject:
		vxAssert(v.DataType == VT_Object, l+": mapping")
		vxAssert(v.Count() == len(n.kids), l+": members")
		for i := range n.kids {
			k, x := v.Items(i)
			vxAssert(vxEq(k, n.keys[i]), l+": key")
			yHas(x, n.kids[i], l)
		}
	case nkArray:
		vxAssert(v.DataType == VT_Array, l+": sequence")
		vxAssert(v.Count() == len(n.kids), l+": elements")
		for i := range n.kids {
			yHas(v.ValueByIndex(i), n.kids[i], l)
		}
	case nkInt:
		vxAssert(v.DataType == VT_Double || v.DataType == VT_Int, l+": number")
		vxAssert(v.Int() == n.i, l+": integer")
		vxAssert(v.Double() == float64(n.i), l+": number content")
	case nkDouble:
		vxAssert(v.DataType == VT_Double, l+": number")
		vxAssert(v.Double() == float64(n.i)/2, l+": fraction")
	default:
		vxHas(v, n, l)
	}
}

func yCheck(s string, n *vxNode) {
	vxObsStr("doc", s)
	vxReach("document")
	if vxBool() {
		v, err := NewValueFromYaml([]byte(s), len(s)%2 == 0)
		vxAssert(err == nil, "parses")
		yHas(v, n, "parsed")
		return
	}
	v := NewObject(false)
	v.SetKeyInt("old", 1)
	vxAssert(v.LoadFromYaml([]byte(s)) == nil, "loads")
	yHas(v, n, "loaded")
}

// every shape, every layout, words as scalars
func vhC10_layout() {
	n := yShape()
	yCheck(yWrite(n), n)
}

func yShape() *vxNode {
	w := yWord
	switch vxChoose(16) {
	case 0:
		return yMap(w())
	case 1:
		return yMap(w(), w())
	case 2:
		return nArr(w(), w())
	case 3:
		return yMap(yMap(w()), w())
	case 4:
		return yMap(yMap(w(), w()), yMap(w()))
	case 5:
		return yMap(nArr(w(), w()), w())
	case 6:
		return yMap(w(), nArr(w()))
	case 7:
		return nArr(yMap(w(), w()), w())
	case 8:
		return nArr(yMap(w()), yMap(w()))
	case 9:
		return nArr(nArr(w(), w()), w())
	case 10:
		return yMap(yMap(yMap(w())), w())
	case 11:
		return nArr(yMap(yMap(w()), w()), w())
	case 12:
		return yMap(nArr(yMap(w(), w()), yMap(w())), w())
	case 13:
		return yMap(yMap(nArr(w()), w()), w())
	case 14:
		return nArr(nArr(nArr(w()), w()), w())
	}
	return nArr(yMap(nArr(w(), w()), w()), nArr(yMap(w())))
}

// every kind of scalar in every kind of place
func vhC10_scalar() {
	x := yScalar()
	var n *vxNode
	switch vxChoose(5) {
	case 0:
		n = yMap(x)
	case 1:
		n = nArr(x, yWord())
	case 2:
		n = yMap(yMap(x), x)
	case 3:
		n = nArr(yMap(yWord(), x))
	case 4:
		n = yMap(nArr(yWord(), x), yWord())
	}
	yCheck(yWrite(n), n)
}

// anchored scalars and containers, used again by alias and merge
func vhC10_alias() {
	k1, k2, k3, q := yName(1), yName(1), yName(1), yName(1+vxChoose(2))
	vxAssume(!vxEq(k1, k2))
	vxAssume(!vxEq(k1, k3))
	vxAssume(!vxEq(k2, k3))
	x, y := yText(), yDigit()
	eol := "\n"
	if vxBool() {
		eol = "\r\n"
	}
	pad := "   "[:1+vxChoose(3)]
	s := ""
	var n *vxNode
	o := func(k string, v *vxNode, more ...*vxNode) *vxNode {
		r := nObj1(k, v)
		for i := 0; i+1 < len(more); i += 2 {
			r.keys = append(r.keys, more[i].s)
			r.kids = append(r.kids, more[i+1])
		}
		return r
	}
	key := func(k string) *vxNode { return nStr(k) }
	switch vxChoose(8) {
	case 6: // an alias takes the latest definition before it
		k4 := yName(1)
		vxAssume(vxAnd(!vxEq(k4, k1), vxAnd(!vxEq(k4, k2), !vxEq(k4, k3))))
		s = k1 + ": &" + q + " " + x.s + eol + k2 + ": *" + q + eol + k3 + ": &" + q + " " + y.s + eol + k4 + ": *" + q + eol
		n = o(k1, x, key(k2), x, key(k3), y, key(k4), y)
	case 7: // two names
		q2 := ""
		switch vxChoose(3) {
		case 0:
			q2 = yName(2)
		case 1: // one the beginning of the other
			q2 = q + "0"
		case 2: // in another case
			q = "a"
			q2 = "A"
		}
		vxAssume(!vxEq(q, q2))
		s = k1 + ": &" + q + " " + x.s + eol + k2 + ":" + eol + pad + "- &" + q2 + " " + y.s + eol + pad + "- *" + q + eol + pad + "- *" + q2 + eol + k3 + ": *" + q2 + eol
		n = o(k1, x, key(k2), nArr(y, x, y), key(k3), y)
	case 0: // scalar
		s = k1 + ": &" + q + " " + x.s + eol + k2 + ": *" + q + eol + k3 + ": " + y.s + eol
		n = o(k1, x, key(k2), x, key(k3), y)
	case 1: // scalar used in a sequence
		s = k1 + ": &" + q + " " + y.s + eol + k2 + ":" + eol + pad + "- *" + q + eol + pad + "- " + x.s + eol
		n = o(k1, y, key(k2), nArr(y, x))
	case 2: // mapping
		s = k1 + ": &" + q + eol + pad + k3 + ": " + x.s + eol + k2 + ": *" + q + eol
		n = o(k1, o(k3, x), key(k2), o(k3, x))
	case 3: // mapping in a sequence
		s = k1 + ": &" + q + eol + pad + k3 + ": " + y.s + eol + k2 + ":" + eol + pad + "- *" + q + eol + pad + "- " + k1 + ": *" + q + eol
		n = o(k1, o(k3, y), key(k2), nArr(o(k3, y), o(k1, o(k3, y))))
	case 4: // merge before own members
		s = k1 + ": &" + q + eol + pad + k3 + ": " + x.s + eol + pad + k1 + ": " + y.s + eol +
			k2 + ":" + eol + pad + "<<: *" + q + eol + pad + k2 + ": true" + eol
		n = o(k1, o(k3, x, key(k1), y), key(k2), o(k3, x, key(k1), y, key(k2), nKind(nkTrue)))
	case 5: // own members win over merged ones
		s = k1 + ": &" + q + eol + pad + k3 + ": " + x.s + eol + pad + k1 + ": " + y.s + eol
		own := o(k3, nKind(nkTrue), key(k1), y)
		if vxBool() {
			s += k2 + ":" + eol + pad + k3 + ": true" + eol + pad + "<<: *" + q + eol
		} else {
			s += k2 + ":" + eol + pad + "<<: *" + q + eol + pad + k3 + ": true" + eol
		}
		n = o(k1, o(k3, x, key(k1), y), key(k2), own)
	}
	yCheck(s, n)
	if n.kids[1].k == nkObject {
		// a copy, not the same value
		v, err := NewValueFromYaml([]byte(s), false)
		vxAssert(err == nil, "parses again")
		v.ValueByName(k2).SetKeyInt(k3, 77)
		yHas(v.ValueByName(k1), n.kids[0], "anchored value")
	}
}

// values in JSON notation
func vhC10_flow() {
	x := yWord()
	d := vxByte()
	vxAssume(vxRange(d, '0', '9'))
	i := nInt(int64(d - '0'))
	t, s := "", string([]byte{d})
	var n *vxNode
	switch vxChoose(5) {
	case 0:
		t, n = "[]", nArr()
	case 1:
		t, n = "{}", &vxNode{k: nkObject}
	case 2:
		t, n = "["+s+", \""+x.s+"\"]", nArr(i, x)
	case 3:
		t, n = "{\"a\": "+s+", \"b\": [true,null]}", nObj2("a", i, "b", nArr(nKind(nkTrue), nKind(nkNull)))
	case 4:
		t, n = "[{\"a b\":[[\""+x.s+"\"]]}]", nArr(nObj1("a b", nArr(nArr(x))))
	}
	if vxBool() {
		t += " # c"
	}
	k := yName(1)
	if vxBool() {
		yCheck(k+": "+t+"\nb: 1\n", nObj2(k, n, "b", nInt(1)))
	} else {
		yCheck("- "+t+"\n- "+k+": "+t, nArr(n, nObj1(k, n)))
	}
}

// a plain scalar that goes on over several lines
func vhC10_lines() {
	a, b, c := yText(), yName(1+vxChoose(2)), yName(1)
	eol := "\n"
	if vxBool() {
		eol = "\r\n"
	}
	s := "a: " + a.s + eol + "  "[:1+vxChoose(2)] + b + eol
	want := a.s + " " + b
	if vxBool() {
		s += "   "[:1+vxChoose(3)] + c + eol
		want += " " + c
	}
	s += "b: true"
	yCheck(s, nObj2("a", nStr(want), "b", nKind(nkTrue)))
}
