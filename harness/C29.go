package dxsvalue

import "reflect"

// Types that convert themselves, and registered converters.

// c29conv is filled by a registered function; its fields have names that the
// ordinary conversion would fill.
type c29conv struct {
	N    int64
	S    string
	Kind ValueType
	Hits int
}

type c29map map[string]int64

// c29self fills itself.
type c29self struct {
	n    int64
	keys int
	hits int
}

func (c *c29self) DecodeFromDxValue(from *DxValue) {
	c.n, c.keys = from.Int(), from.Count()
	c.hits++
}

type c29inner struct {
	C c29conv
	N int
}

type c29dest struct {
	A int
	C c29conv
	L []c29conv
	M c29map
	P *c29self
	Q []*c29self
	I c29inner
	R []c29inner
	Z string
}

func c29register() {
	RegisterTypeMapFunc(reflect.TypeOf(c29conv{}), func(f reflect.Value, v *DxValue) {
		c := f.Addr().Interface().(*c29conv)
		c.N, c.S, c.Kind = v.Int(), v.String(), v.DataType
		c.Hits++
	})
	RegisterTypeMapFunc(reflect.TypeOf(c29map(nil)), func(f reflect.Value, v *DxValue) {
		f.Set(reflect.ValueOf(c29map{"n": v.Int()}))
	})
}

// c29member is a member in the document for a converted place.
func c29member() (*DxValue, *vxNode) {
	n := vxFewScalar(1)
	if vxBool() {
		n = &vxNode{k: nkObject, keys: []string{"N", "S", "Kind", "Hits"}, kids: []*vxNode{nInt(8), n, nInt(1), nInt(5)}}
	}
	return vxBuild(n), n
}

func c29got(c *c29conv, v *DxValue, n *vxNode, l string) {
	vxAssert(c.Hits == 1, l+": converted once")
	vxAssert(c.N == v.Int(), l+": integer")
	vxAssert(vxEq(c.S, v.String()), l+": text")
	vxAssert(c.Kind == v.DataType, l+": kind")
	vxHas(v, n, l+": member unchanged")
}

// vhC29_registered: the registered function decides how its type is filled,
// as a field, an element, and below other structs; nothing else changes.
func vhC29_registered() {
	c29register()
	a := vxI64()
	vxAssume(vxAnd(a > -1000000, a < 1000000))
	x, n := c29member()
	o := NewValue(VT_Object)
	o.SetKeyInt("A", a)
	d := c29dest{A: 1, Z: "old"}
	d.I.N = 7
	switch vxChoose(5) {
	case 0:
		o.SetKeyValue("C", x)
		o.SetKeyString("Z", "new")
		vxReach("field")
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		c29got(&d.C, x, n, "field")
		vxAssert(d.Z == "new", "the other field")
		vxAssert(d.I.C.Hits == 0 && d.I.N == 7, "the others are left alone")
	case 1:
		l := o.SetKey("L", VT_Array)
		l.SetIndexInt(0, a)
		l.SetIndexValue(1, x)
		vxReach("elements")
		d.L = make([]c29conv, vxChoose(2), 2)
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		vxAssert(len(d.L) == 2, "two elements")
		c29got(&d.L[0], l.ValueByIndex(0), nInt(a), "element")
		c29got(&d.L[1], x, n, "element")
		vxAssert(d.Z == "old", "the other field is left alone")
	case 2:
		i := o.SetKey("I", VT_Object)
		i.SetKeyInt("N", a)
		i.SetKeyValue("C", x)
		vxReach("below a struct")
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		vxAssert(int64(d.I.N) == a, "beside it")
		c29got(&d.I.C, x, n, "below a struct")
		vxAssert(d.C.Hits == 0, "only there")
	case 3:
		r := o.SetKey("R", VT_Array)
		r.SetIndex(0, VT_Object).SetKeyInt("N", 3)
		r.SetIndex(1, VT_Object).SetKeyValue("C", x)
		vxReach("below a slice")
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		vxAssert(len(d.R) == 2 && d.R[0].N == 3 && d.R[0].C.Hits == 0, "first")
		c29got(&d.R[1].C, x, n, "below a slice")
	case 4:
		o.SetKeyValue("M", x)
		vxReach("map")
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		vxAssert(len(d.M) == 1 && d.M["n"] == x.Int(), "a map type")
	}
	vxAssert(int64(d.A) == a, "ordinary field")
}

// vhC29_names: which member reaches the converter follows the field's name.
func vhC29_names() {
	c29register()
	b := vxByte()
	vxAssume(b < 0x80)
	fold := vxBool()
	o := NewValue(VT_Object)
	o.SetKeyInt(string([]byte{b}), 5)
	var d c29inner
	vxReach("named")
	vxAssert(o.ToStdValue(&d, fold), "converts")
	hit := 0
	if b == 'C' || fold && b == 'c' {
		hit = 1
	}
	vxAssert(d.C.Hits == hit, "by name")
	if hit == 1 {
		vxAssert(d.C.N == 5, "with the member")
	}
}

// vhC29_self: types with a DecodeFromDxValue method.
func vhC29_self() {
	x, n := c29member()
	if vxBool() {
		n = nObj1("k", nInt(vxI64()))
		x = vxBuild(n)
	}
	want := c29self{x.Int(), x.Count(), 1}
	vxReach("made")
	switch vxChoose(3) {
	case 0:
		var d c29self
		vxAssert(x.ToStdValue(&d, vxBool()), "converts")
		vxAssert(d == want, "itself")
	case 1:
		o := NewValue(VT_Object)
		o.SetKeyValue("P", x)
		o.SetKeyInt("A", 4)
		p := &c29self{}
		d := c29dest{P: p}
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		vxAssert(d.P == p && *p == want, "as a field")
		vxAssert(d.A == 4, "beside it")
	case 2:
		o := NewValue(VT_Object)
		q := o.SetKey("Q", VT_Array)
		q.SetIndexInt(0, 8)
		q.SetIndexValue(1, x)
		d := c29dest{Q: []*c29self{{}, {}, {}}}
		vxAssert(o.ToStdValue(&d, vxBool()), "converts")
		vxAssert(len(d.Q) == 2, "two elements")
		vxAssert(*d.Q[0] == c29self{8, 0, 1}, "first")
		vxAssert(*d.Q[1] == want, "second")
	}
	vxHas(x, n, "member unchanged")
}

// vhC29_none: a nil converter is none, and the latest one counts.
func vhC29_none() {
	o := NewValue(VT_Object)
	x := vxI64()
	vxAssume(vxAnd(x > -1000000, x < 1000000))
	o.SetKey("C", VT_Object).SetKeyInt("N", x)
	type plain struct{ N int }
	type dest struct{ C plain }
	calls := 0
	if vxBool() {
		RegisterTypeMapFunc(reflect.TypeOf(plain{}), func(f reflect.Value, v *DxValue) { calls++ })
	}
	RegisterTypeMapFunc(reflect.TypeOf(plain{}), nil)
	var d dest
	vxReach("registered")
	vxAssert(o.ToStdValue(&d, false), "converts")
	vxAssert(int64(d.C.N) == x && calls == 0, "as if none were registered")
}
