package dxsvalue

// Larger trees: many members of every kind, or many levels, with a few
// symbolic leaves. The structure is fixed per size; what is symbolic is enough
// to tell any two members apart.

// vxLeaf is the i-th leaf of a wide container. Plain leaves are those that JSON
// can express.
func vxLeaf(i int, plain bool) *vxNode {
	switch i % 12 {
	case 0:
		return nInt(int64(i)*7919 - 300)
	case 1:
		b := make([]byte, i%70)
		for j := range b {
			b[j] = byte('a' + (i+j)%26)
		}
		return nStr(string(b))
	case 2:
		return nKind(nkTrue)
	case 3:
		return nKind(nkNull)
	case 4:
		return &vxNode{k: nkDouble, bits: vxF64bits(float64(i) + 0.5)}
	case 5:
		return nArr(nInt(int64(i)), nArr(), nStr("x"))
	case 6:
		return nObj2("id", nInt(int64(-i)), "s", nObj1("t", nStr("y")))
	case 7:
		if plain {
			return nStr("a\\\"\n/\u00e9" + vxUtoa(uint64(i)))
		}
		return &vxNode{k: nkBinary, s: "\x00\xff" + vxUtoa(uint64(i))}
	case 8:
		if plain {
			return nInt(int64(i) << 40)
		}
		return &vxNode{k: nkExt, s: vxUtoa(uint64(i)), ext: byte(i)}
	case 9:
		if plain {
			return nKind(nkFalse)
		}
		return &vxNode{k: nkFloat, bits: uint64(vxF32bits(float32(i) + 0.25))}
	case 10:
		return nKind(nkFalse)
	}
	return &vxNode{k: nkObject}
}

func vxLongKey(i int) string {
	switch i % 13 {
	case 5:
		return ""
	case 7:
		b := make([]byte, 20+i)
		for j := range b {
			b[j] = byte('A' + (i*3+j)%26)
		}
		return string(b)
	}
	return "k" + vxUtoa(uint64(i))
}

// vxDigit is a symbolic integer; one that vxJSONText can write is a single digit.
func vxDigit(plain bool) *vxNode {
	if !plain {
		return nInt(vxI64())
	}
	x := vxByte()
	vxAssume(vxRange(x, '0', '9'))
	return &vxNode{k: nkInt, i: int64(x - '0'), s: string([]byte{x})}
}

// vxWideOf is a container with cnt members.
func vxWideOf(cnt int, obj, plain bool) *vxNode {
	n := nArr()
	if obj {
		n.k = nkObject
	}
	for i := 0; i < cnt; i++ {
		if obj {
			k := vxLongKey(i)
			if k == "" && i != 5 {
				k = "e" + vxUtoa(uint64(i))
			}
			n.keys = append(n.keys, k)
		}
		n.kids = append(n.kids, vxLeaf(i, plain))
	}
	n.kids[cnt-1] = vxDigit(plain)
	n.kids[cnt/2] = nStr("s" + string([]byte{'a' + vxByte()&15}))
	return n
}

// vxDeepOf nests depth containers, objects and arrays by turns, with members
// before and after the nested one.
func vxDeepOf(depth int, plain bool) *vxNode {
	n := vxDigit(plain)
	for i := 0; i < depth; i++ {
		switch i % 3 {
		case 0:
			n = nArr(n, nInt(int64(i)))
		case 1:
			n = nObj2("a", nStr("p"), "b"+vxUtoa(uint64(i)), n)
		case 2:
			n = nArr(nKind(nkTrue), n)
		}
	}
	return n
}

// vxLong is l bytes with one symbolic letter at one of four places.
func vxLong(l int) string {
	b := make([]byte, l)
	for j := range b {
		b[j] = byte('A' + (j*7+j/26)%26)
	}
	at := []int{0, l / 2, l - 1, l - 2}[vxChoose(3+vxTier())]
	b[at] = 'a' + vxByte()&15
	return string(b)
}

// vxLongOf is an object with a long string, binary or key.
func vxLongOf(plain bool) *vxNode {
	l := []int{33, 300, 5000, 2, 15, 16, 31, 32, 63, 64, 65, 127, 128, 256, 1024}[vxChoose(3+12*vxTier())]
	k, x := "s", nStr(vxLong(l))
	switch vxChoose(3) {
	case 1:
		k, x = x.s, nArr(nKind(nkTrue), nInt(4))
	case 2:
		if !plain {
			x.k = nkBinary
		}
	}
	return &vxNode{k: nkObject, keys: []string{"a", k, "n"}, kids: []*vxNode{nInt(3), x, vxDigit(plain)}}
}

// vxBig picks a larger tree; its root is an object or an array.
func vxBig(plain bool) *vxNode {
	switch vxChoose(4) {
	case 0:
		return vxLongOf(plain)
	case 1:
		return vxDeepOf([]int{4, 13, 40, 7}[vxChoose(3+vxTier())], plain)
	}
	cnt := []int{3, 25, 150, 12, 70}[vxChoose(3+2*vxTier())]
	return vxWideOf(cnt, vxBool(), plain)
}

// vxJSONText writes n as JSON text, one or no blank between tokens.
func vxJSONText(n *vxNode, sp string) string {
	switch n.k {
	case nkObject:
		s := "{" + sp
		for i := range n.kids {
			if i > 0 {
				s += "," + sp
			}
			s += vxQuote(n.keys[i]) + sp + ":" + sp + vxJSONText(n.kids[i], sp)
		}
		return s + sp + "}"
	case nkArray:
		s := "[" + sp
		for i := range n.kids {
			if i > 0 {
				s += "," + sp
			}
			s += vxJSONText(n.kids[i], sp)
		}
		return s + sp + "]"
	case nkString:
		return vxQuote(n.s)
	case nkInt:
		if n.s != "" {
			return n.s
		}
		if n.i < 0 {
			return "-" + vxUtoa(uint64(-n.i))
		}
		return vxUtoa(uint64(n.i))
	case nkDouble:
		return vxUtoa(uint64(vxF64frombits(n.bits))) + ".5"
	case nkTrue:
		return "true"
	case nkFalse:
		return "false"
	}
	return "null"
}

func vxQuote(s string) string {
	const hx = "0123456789abcdef"
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n':
			b = append(b, '\\', 'n')
		case c < 0x20:
			b = append(b, '\\', 'u', '0', '0', hx[c>>4], hx[c&15])
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}

// vxBigChange changes one member of v, or gives nil to have it freed.
func vxBigChange(v *DxValue, n *vxNode) *vxNode {
	c := len(n.kids)
	at := []int{0, 1, c / 2, c - 1}[vxChoose(4)]
	if at >= c {
		at = 0
	}
	m := vxClone(n)
	switch vxChoose(4) {
	case 0:
		x := vxI64()
		m.kids[at] = nInt(x)
		if n.k == nkObject {
			v.SetKeyInt(n.keys[at], x)
		} else {
			v.SetIndexInt(at, x)
		}
	case 1:
		if n.k == nkObject {
			v.RemoveKey(n.keys[at])
		} else {
			v.RemoveIndex(at)
		}
		vxMDel(m, at)
	case 2:
		// one level down
		k, x := m.kids[at], v.ValueByIndex(at)
		switch {
		case k.k == nkObject:
			x.SetKeyInt("added", 5)
			vxMSet(k, "added", nInt(5))
		case k.k == nkArray:
			x.SetIndexInt(len(k.kids), 5)
			k.kids = append(k.kids, nInt(5))
		case k.k == nkString:
			x.SetString("changed")
			k.s = "changed"
		case k.k == nkBinary || k.k == nkExt:
			b := x.Binary()
			b[0] ^= 0x55
			bs := []byte(k.s)
			bs[0] ^= 0x55
			k.s = string(bs)
		default:
			return m
		}
	case 3:
		return nil
	}
	return m
}

// vxCut is any number below n.
func vxCut(n int) int {
	c := vxChoose((n+31)/32)*32 + vxChoose(32)
	vxAssume(c < n)
	return c
}
