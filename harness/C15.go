package dxsvalue

import "time"

// Path lookups, defaults and forced paths.

// c15tree is a tree with symbolic one-byte keys.
func c15tree() *vxNode {
	k1, k2, k3, k4 := vxStr(1), vxStr(1), vxStr(1), vxStr(1)
	vxAssume(vxAnd(!vxEq(k1, k4), !vxEq(k2, "l")))
	inner := nObj2(k2, nInt(vxI64()), "l", nArr(nStr(vxStr(1)), nObj1(k3, nKind(nkTrue)), nArr(nInt(7))))
	return nObj2(k1, inner, k4, vxFewScalar(1))
}

// c15step is the member a step leads to, or nil.
func c15step(n *vxNode, s string) *vxNode {
	switch n.k {
	case nkObject:
		if i := vxFind(n, s); i >= 0 {
			return n.kids[i]
		}
	case nkArray:
		if len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
			if i := int(s[0] - '0'); i < len(n.kids) {
				return n.kids[i]
			}
		}
	}
	return nil
}

func c15path(max int) []string {
	var p []string
	for i := 0; i < max; i++ {
		switch vxChoose(3) {
		case 0:
			return p
		case 1:
			p = append(p, vxStr(1))
		case 2:
			p = append(p, "l")
		}
	}
	return p
}

func vhC15_lookup() {
	n := c15tree()
	v := vxBuild(n)
	p := c15path(4)
	vxReach("path")
	x := n
	for i := range p {
		if x = c15step(x, p[i]); x == nil {
			break
		}
	}
	r := v.ValueByPath(p...)
	if x != nil {
		vxHas(r, x, "found")
		if x.k == nkInt {
			vxAssert(v.IntByPath(x.i+1, p...) == x.i, "int by path")
			vxAssert(v.DoubleByPath(0, p...) == float64(x.i), "double by path")
			vxAssert(v.BoolByPath(x.i <= 0, p...) == (x.i > 0), "bool by path")
			vxAssert(v.DurationByPath(time.Duration(x.i+1), p...) == time.Duration(x.i), "duration by path")
		} else if x.k == nkString {
			vxAssert(vxEq(v.StringByPath("default", p...), x.s), "string by path")
		} else if x.k == nkTrue {
			vxAssert(v.BoolByPath(false, p...), "true by path")
			vxAssert(v.IntByPath(9, p...) == 1, "true as int by path")
		} else if x.k == nkNull {
			vxAssert(!v.BoolByPath(true, p...), "null as bool is not the default")
			vxAssert(v.IntByPath(9, p...) == 0, "null as int is not the default")
		}
		return
	}
	vxAssert(r == nil, "missing")
	d := vxI64()
	vxAssert(v.IntByPath(d, p...) == d, "int default")
	vxAssert(v.StringByPath("dflt", p...) == "dflt", "string default")
	vxAssert(v.BoolByPath(true, p...), "bool default")
	vxAssert(!v.BoolByPath(false, p...), "bool default false")
	vxAssert(v.FloatByPath(1.5, p...) == 1.5, "float default")
	vxAssert(v.DoubleByPath(2.5, p...) == 2.5, "double default")
	vxAssert(v.DurationByPath(time.Duration(d), p...) == time.Duration(d), "duration default")
	vxAssert(v.DateTimeByPath(3.5, p...) == 3.5, "date default")
	t := time.Unix(1234567890, 0)
	vxAssert(v.GoTimeByPath(t, p...).Unix() == 1234567890, "time default")
}

// vhC15_names: the by-name and by-index readers return the member, converted,
// and the default only when it is absent.
func vhC15_names() {
	k, q := vxStr(1), vxStr(1)
	x := vxI64()
	d := vxI64()
	v := NewValue(VT_Object)
	v.SetKeyInt("other", 5)
	v.SetKeyInt(k, x)
	has := vxEq(k, q)
	vxReach("built")
	if has {
		vxAssert(v.AsInt64(q, d) == x, "int64")
		vxAssert(v.AsInt(q, int(d)) == int(x), "int")
		vxAssert(v.IntByName(q, int(d)) == int(x), "int by name")
		vxAssert(v.AsBool(q, x <= 0) == (x > 0), "bool")
		vxAssert(v.BoolByName(q, x <= 0) == (x > 0), "bool by name")
		vxAssert(v.AsDouble(q, 0.5) == float64(x), "double")
		vxAssert(v.DoubleByName(q, 0.5) == float64(x), "double by name")
		vxAssert(v.AsFloat(q, 0.5) == float32(x), "float")
		vxAssert(v.FloatByName(q, 0.5) == float32(x), "float by name")
		vxAssert(v.AsDuration(time.Duration(d), q) == time.Duration(x), "duration")
		vxAssert(v.DurationByName(time.Duration(d), q) == time.Duration(x), "duration by name")
		vxAssert(v.IntByIndex(1, 3) == int(x), "int by index")
		vxAssert(v.DoubleByIndex(1, 3) == float64(x), "double by index")
		vxAssert(v.FloatByIndex(1, 3) == float32(x), "float by index")
		vxAssert(v.BoolByIndex(1, x <= 0) == (x > 0), "bool by index")
	} else {
		vxAssert(v.AsInt64(q, d) == d, "int64 default")
		vxAssert(v.AsInt(q, int(d)) == int(d), "int default")
		vxAssert(v.IntByName(q, int(d)) == int(d), "int by name default")
		vxAssert(v.AsBool(q, true), "bool default")
		vxAssert(!v.BoolByName(q, false), "bool by name default")
		vxAssert(v.AsDouble(q, 0.5) == 0.5, "double default")
		vxAssert(v.DoubleByName(q, 0.5) == 0.5, "double by name default")
		vxAssert(v.AsFloat(q, 0.5) == 0.5, "float default")
		vxAssert(v.FloatByName(q, 0.5) == 0.5, "float by name default")
		vxAssert(v.AsDuration(time.Duration(d), q) == time.Duration(d), "duration default")
		vxAssert(v.DurationByName(time.Duration(d), q) == time.Duration(d), "duration by name default")
		vxAssert(v.AsString(q, "dflt") == "dflt", "string default")
		vxAssert(v.StringByName(q, "dflt") == "dflt", "string by name default")
		vxAssert(v.AsDateTime(q, 2.5) == 2.5, "date default")
		vxAssert(v.TimeByName(q, time.Unix(77, 0)).Unix() == 77, "time default")
	}
	s := vxStr(2)
	v.SetKeyString(k, s)
	if has {
		vxAssert(vxEq(v.AsString(q, "dflt"), s), "string")
		vxAssert(vxEq(v.StringByName(q, "dflt"), s), "string by name")
		vxAssert(vxEq(v.StringByIndex(1, "dflt"), s), "string by index")
	}
}

// vhC15_scalar: a lookup through any scalar, or on any scalar, gives the default.
func vhC15_scalar() {
	n := vxScalar(1)
	v := NewValue(VT_Object)
	vxPut(v, "k", n)
	q := vxStr(vxChoose(2))
	vxReach("built")
	vxAssert(v.ValueByPath("k", q) == nil, "through a scalar")
	vxAssert(v.ValueByPath("k", q, q) == nil, "further through a scalar")
	vxAssert(v.AsInt("k2", 8) == 8, "absent")
	m := v.ValueByName("k")
	vxAssert(m.ValueByName(q) == nil, "member of a scalar")
	vxAssert(m.ValueByIndex(0) == nil, "element of a scalar")
	vxAssert(m.Count() == 0, "count of a scalar")
	vxAssert(m.IntByPath(8, q) == 8, "default on a scalar")
	k, x := m.Items(0)
	vxAssert(k == "" && x == nil, "items of a scalar")
	vxAssert(m.ExtractValue(q) == nil, "extract from a scalar")
	m.RemoveKey(q)
	m.RemoveIndex(0)
	m.Visit(func(string, *DxValue) bool { vxAssert(false, "visit of a scalar"); return true })
	vxHas(v, nObj1("k", n), "unchanged")
}

// c15force is the reference for ForcePath; false: the step is out of scope
// (arrays are only stepped through at existing indexes or the end).
func c15force(n *vxNode, p []string, leaf *vxNode) bool {
	for i := range p {
		last := i == len(p)-1
		if n.k == nkArray {
			if len(p[i]) != 1 {
				return false
			}
			d := p[i][0]
			if d < '0' || d > '9' || int(d-'0') > len(n.kids) {
				return false
			}
			j := int(d - '0')
			if j == len(n.kids) {
				n.kids = append(n.kids, nKind(nkNull))
			}
			if last {
				if n.kids[j].k != leaf.k || leaf.k > nkArray {
					n.kids[j] = leaf
				}
				return true
			}
			if n.kids[j].k > nkArray {
				n.kids[j] = &vxNode{k: nkObject}
			}
			n = n.kids[j]
			continue
		}
		j := vxFind(n, p[i])
		if j < 0 {
			j = len(n.kids)
			n.keys = append(n.keys, p[i])
			n.kids = append(n.kids, nKind(nkNull))
		}
		if last {
			if n.kids[j].k != leaf.k || leaf.k > nkArray {
				n.kids[j] = leaf
			}
			return true
		}
		if n.kids[j].k > nkArray {
			n.kids[j] = &vxNode{k: nkObject}
		}
		n = n.kids[j]
	}
	return true
}

func vhC15_force() {
	n := c15tree()
	v := vxBuild(n)
	p := c15path(3)
	vxAssume(len(p) > 0)
	var leaf *vxNode
	var vt ValueType
	switch vxChoose(4) {
	case 0:
		vt, leaf = VT_Object, &vxNode{k: nkObject}
	case 1:
		vt, leaf = VT_Array, nArr()
	case 2:
		vt, leaf = VT_Int, nInt(vxI64())
	case 3:
		vt, leaf = VT_String, nStr(vxStr(1))
	}
	vxAssume(c15force(n, p, leaf))
	r := v.ForcePath(vt, p...)
	vxReach("forced")
	vxAssert(r != nil && r.DataType == vt, "the forced value has the type asked for")
	vxAssert(v.ValueByPath(p...) == r, "the forced value is at the path")
	if vt == VT_Int {
		r.SetInt(leaf.i)
	} else if vt == VT_String {
		r.SetString(leaf.s)
	}
	vxHas(v, n, "after forcing")
}

// vhC15_forceroot: forcing a path on a scalar, empty or JSON-parsed root.
func vhC15_forceroot() {
	var v *DxValue
	switch vxChoose(4) {
	case 0:
		v = NewValue(VT_Int)
		v.SetInt(vxI64())
	case 1:
		v = NewValue(VT_String)
		v.SetString(vxStr(1))
	case 2:
		v = NewObject(true)
	case 3:
		v = NewValue(VT_Binary)
	}
	a, b := vxStr(vxChoose(2)), vxStr(1)
	x := vxI64()
	r := v.ForcePath(VT_Int, a, b)
	vxAssert(r != nil, "value")
	r.SetInt(x)
	vxReach("forced")
	vxHas(v, nObj1(a, nObj1(b, nInt(x))), "forced root")
	// a second path shares the prefix
	c := vxStr(1)
	vxAssume(!vxEq(b, c))
	v.ForcePath(VT_Array, a, c, "d")
	vxHas(v, nObj1(a, nObj2(b, nInt(x), c, nObj1("d", nArr()))), "second path")
	j, err := NewValueFromJson([]byte(`{"q\u0061":{"n":null,"t":true},"z":[]}`), vxBool(), false)
	vxAssert(err == nil, "parses")
	j.ForcePath(VT_Int, "qa", "n", "m").SetInt(x)
	vxHas(j, nObj2("qa", nObj2("n", nObj1("m", nInt(x)), "t", nKind(nkTrue)), "z", nArr()), "parsed tree")
	w, _ := NewValueFromJson([]byte(`{"n":null}`), vxBool(), false)
	vxHas(w, nObj1("n", nKind(nkNull)), "another tree's null")
}

// vhC15_raw: paths and defaults over text that is decoded lazily.
func vhC15_raw() {
	v, n := vxRaw()
	k, s := n.keys[0], n.kids[0].s
	in := n.kids[1].kids[1]
	vxReach("made")
	switch vxChoose(6) {
	case 0:
		vxAssert(vxEq(v.StringByName(k, "d"), s), "string by name")
	case 1:
		vxAssert(vxEq(v.AsString(k, "d"), s), "string")
	case 2:
		vxAssert(vxEq(v.StringByPath("d", "b", "1", in.keys[0]), in.kids[0].s), "string by path")
	case 3:
		vxHas(v.ValueByPath("b", "0"), n.kids[1].kids[0], "value by path")
	case 4:
		vxAssert(vxEq(v.ValueByName("b").StringByIndex(0, "d"), n.kids[1].kids[0].s), "string by index")
	case 5:
		v.ForcePath(VT_Int, "b", "1", in.keys[0]).SetInt(5)
		in.kids[0] = nInt(5)
		v.ForcePath(VT_Int, k).SetInt(6)
		n.kids[0] = nInt(6)
	}
	vxHas(v, n, "after")
}

// vhC15_forcecorners: no step at all, names inside arrays, and constants as the
// start.
func vhC15_forcecorners() {
	a, z := vxStr(1), vxI64()
	switch vxChoose(4) {
	case 0:
		n := nObj2("k", nInt(z), "l", nArr(nInt(1)))
		v := vxBuild(n)
		vxAssert(v.ForcePath(VT_Int) == v, "no step")
		vxReach("forced")
		vxHas(v, n, "unchanged")
	case 1:
		// a name that is no number turns the array into an object
		vxAssume(vxRange(a[0], 'a', 'z'))
		v := vxBuild(nObj2("l", nArr(nInt(1), nInt(2)), "o", nInt(z)))
		r := v.ForcePath(VT_Int, "l", a, "m")
		vxReach("forced")
		r.SetInt(z)
		vxHas(v, nObj2("l", nObj1(a, nObj1("m", nInt(z))), "o", nInt(z)), "object in place of the array")
		vxAssert(v.ValueByPath("l", a, "m") == r, "found")
	case 2:
		// constants on the way are replaced, not changed
		c := vxConst()
		v := vxBuild(nObj2("c", c, "l", nArr(c)))
		v.ForcePath(VT_Int, "c", a, "m").SetInt(z)
		v.ForcePath(VT_Int, "l", "0", a).SetInt(z)
		vxReach("forced")
		vxHas(v, nObj2("c", nObj1(a, nObj1("m", nInt(z))), "l", nArr(nObj1(a, nInt(z)))), "made")
		vxHas(vxBuild(nArr(c)), nArr(c), "constant")
	case 3:
		c := vxConst()
		r := vxBuild(c).ForcePath(VT_Int, a, "m")
		vxReach("forced")
		vxAssert(r != nil && r.DataType == VT_Int, "a value of its own")
		r.SetInt(z)
		vxHas(vxBuild(nArr(c)), nArr(c), "constant")
	}
}

// vhC15_times: times by name and by path, with their defaults.
func vhC15_times() {
	v := NewValue(VT_Object)
	t := time.Unix(1600000000, 0)
	v.SetKeyTime("t", t)
	v.SetKey("l", VT_Array).SetIndexTime(0, t)
	a := vxStr(1)
	d := time.Unix(int64(vxU32()>>4), 0)
	vxReach("set")
	if a == "t" {
		vxAssert(v.TimeByName(a, d).Unix() == t.Unix(), "time")
		vxAssert(v.AsDateTime(a, 3) == v.ValueByName("t").DateTime(), "Delphi time")
	} else if a != "l" {
		vxAssert(v.TimeByName(a, d).Unix() == d.Unix(), "default time")
		vxAssert(v.AsDateTime(a, 3) == 3, "default Delphi time")
	}
	vxAssert(v.GoTimeByPath(d, "l", "0").Unix() == t.Unix(), "by path")
	vxAssert(v.GoTimeByPath(d, "l", a, "x").Unix() == d.Unix(), "default by path")
	vxAssert(v.DateTimeByPath(4, "l", "1") == 4, "default Delphi time by path")
	vxAssert(v.DateTimeByPath(4, "l", "0") == v.ValueByName("t").DateTime(), "Delphi time by path")
}
