package dxsvalue

// A reference object (insertion-ordered map) and array (list) for operation sequences.

func vxClone(n *vxNode) *vxNode {
	c := *n
	c.keys = append([]string(nil), n.keys...)
	c.kids = nil
	for i := range n.kids {
		c.kids = append(c.kids, vxClone(n.kids[i]))
	}
	return &c
}

// vxFind returns the position of key k in n, or -1.
func vxFind(n *vxNode, k string) int {
	for i := range n.keys {
		if vxEq(n.keys[i], k) {
			return i
		}
	}
	return -1
}

// vxMSet is the reference for "set key k to x".
func vxMSet(n *vxNode, k string, x *vxNode) {
	if i := vxFind(n, k); i >= 0 {
		n.kids[i] = x
		return
	}
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, x)
}

// vxMDel removes position i.
func vxMDel(n *vxNode, i int) {
	if n.k == nkObject {
		n.keys = append(append([]string(nil), n.keys[:i]...), n.keys[i+1:]...)
	}
	n.kids = append(append([]*vxNode(nil), n.kids[:i]...), n.kids[i+1:]...)
}

// vxMIns inserts x at position i of an array.
func vxMIns(n *vxNode, i int, x *vxNode) {
	r := append([]*vxNode(nil), n.kids[:i]...)
	r = append(r, x)
	n.kids = append(r, n.kids[i:]...)
}

// vxAgree checks that every way of enumerating v gives the same members, and
// that they are those of n.
func vxAgree(v *DxValue, n *vxNode, l string) {
	vxHas(v, n, l)
	pos := 0
	v.Visit(func(k string, x *DxValue) bool {
		vxAssert(pos < len(n.kids), l+": visit count")
		if n.k == nkObject {
			vxAssert(vxEq(k, n.keys[pos]), l+": visit key")
			vxAssert(vxEq(v.KeyNameByIndex(pos), n.keys[pos]), l+": key name")
		} else {
			vxAssert(k == "", l+": visit array key")
		}
		vxAssert(v.ValueByIndex(pos) == x, l+": value by index")
		_, y := v.Items(pos)
		vxAssert(y == x, l+": item")
		pos++
		return true
	})
	vxAssert(pos == len(n.kids), l+": visit complete")
	for stop := 0; stop < pos && stop < 4; stop++ {
		calls := 0
		v.Visit(func(string, *DxValue) bool {
			calls++
			return calls <= stop
		})
		vxAssert(calls == stop+1, l+": visit ended by its function")
	}
	if n.k == nkObject {
		for i := range n.keys {
			vxAssert(v.ValueByName(n.keys[i]) == v.ValueByIndex(i), l+": lookup")
			vxAssert(v.Find(n.keys[i]) == v.ValueByIndex(i), l+": find")
		}
	}
	vxAssert(v.ValueByIndex(len(n.kids)) == nil, l+": past the end")
	vxAssert(v.ValueByIndex(-1) == nil, l+": before the start")
	vxAssert(v.KeyNameByIndex(len(n.kids)) == "", l+": key past the end")
}
