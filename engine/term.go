package main

// Hash-consed bit-vector / boolean terms. Width 0 is Bool. Floats are carried
// as their IEEE bit patterns (width 32/64); FP operators take and return bits.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // any,any -> bool
	OIte // bool,x,x
	OUlt
	OUle
	OSlt
	OSle
	OBAdd
	OBSub
	OBMul
	OBUdiv
	OBSdiv
	OBUrem
	OBSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OBNeg
	OBShl
	OBLshr
	OBAshr
	OConcat
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFCvt  // float width change
	OSItoF // signed int -> float (w target)
	OUItoF
	OFtoSI // float -> signed int (w target)
	OFtoUI
)

type Term struct {
	op      Op
	w       uint16
	a, b, c *Term
	val     uint64
	id      int32
	stamp   int32 // eval memo generation
	memo    uint64
	vars    int32 // -1 none, >=0 single var id, -2 many
}

type tkey struct {
	op      Op
	w       uint16
	a, b, c int32
	val     uint64
}

type TB struct {
	tab   map[tkey]*Term
	terms []*Term
	gen   int32
	True  *Term
	False *Term
	vname []string
	vars  []*Term // by var index
}

func NewTB() *TB {
	t := &TB{tab: map[tkey]*Term{}}
	t.True = t.mk(OConst, 0, nil, nil, nil, 1)
	t.False = t.mk(OConst, 0, nil, nil, nil, 0)
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func joinVars(x int32, t *Term) int32 {
	if t == nil || t.vars == -1 {
		return x
	}
	if x == -1 || x == t.vars {
		return t.vars
	}
	return -2
}

func (tb *TB) mk(op Op, w uint16, a, b, c *Term, val uint64) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: int32(len(tb.terms)), vars: -1}
	if op == OVar {
		t.vars = int32(val)
	} else {
		t.vars = joinVars(joinVars(joinVars(-1, a), b), c)
	}
	tb.tab[k] = t
	tb.terms = append(tb.terms, t)
	return t
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (tb *TB) Const(w uint16, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tb.True
		}
		return tb.False
	}
	return tb.mk(OConst, w, nil, nil, nil, v&mask(w))
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

// Var returns variable number n of width w (numbered per path; same number and
// width gives the same term, so re-execution rebuilds identical terms).
func (tb *TB) Var(n int, w uint16) *Term {
	return tb.mk(OVar, w, nil, nil, nil, uint64(n)<<8|uint64(w))
}

func (t *Term) isC() bool { return t.op == OConst }

func (tb *TB) Not(a *Term) *Term {
	if a.isC() {
		return tb.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tb.mk(ONot, 0, a, nil, nil, 0)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isC() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tb.False
	}
	return tb.mk(OAnd, 0, a, b, nil, 0)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isC() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tb.True
	}
	return tb.mk(OOr, 0, a, b, nil, 0)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.val == b.val)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.val != 0 {
				return a
			}
			return tb.Not(a)
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.val))
		case OSext:
			lo := b.val & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.val {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.w, lo))
		case OConcat:
			lw := a.b.w
			return tb.And(tb.Eq(a.a, tb.Const(a.a.w, b.val>>lw)), tb.Eq(a.b, tb.Const(lw, b.val)))
		case OIte:
			if a.b.isC() && a.c.isC() {
				t, e := a.b.val == b.val, a.c.val == b.val
				switch {
				case t && e:
					return tb.True
				case t:
					return a.a
				case e:
					return tb.Not(a.a)
				default:
					return tb.False
				}
			}
			if a.b.isC() || a.c.isC() {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		case OBXor:
			if a.b.isC() {
				return tb.Eq(a.a, tb.Const(a.w, a.b.val^b.val))
			}
		case OBAdd:
			if a.b.isC() {
				return tb.Eq(a.a, tb.Const(a.w, b.val-a.b.val))
			}
		}
	} else if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
		return tb.And(tb.Eq(a.a, b.a), tb.Eq(a.b, b.b))
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Eq(a.a, b.a)
	} else if a.op == OBNeg && b.op == OBNeg {
		return tb.Eq(a.a, b.a)
	} else if a.op == OBNeg && a.a.id > b.id {
		return tb.Eq(a.a, tb.Neg(b))
	} else if b.op == OBNeg && b.a.id > a.id {
		return tb.Eq(b.a, tb.Neg(a))
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return tb.mk(OEq, 0, a, b, nil, 0)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isC() {
			if a.val != 0 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isC() {
			if b.val != 0 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	return tb.mk(OIte, a.w, c, a, b, 0)
}

func (tb *TB) Cmp(op Op, a, b *Term) *Term { // OUlt,OUle,OSlt,OSle
	if a == b {
		return tb.Bool(op == OUle || op == OSle)
	}
	if a.isC() && b.isC() {
		switch op {
		case OUlt:
			return tb.Bool(a.val < b.val)
		case OUle:
			return tb.Bool(a.val <= b.val)
		case OSlt:
			return tb.Bool(sx(a.val, a.w) < sx(b.val, b.w))
		case OSle:
			return tb.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
		}
	}
	// narrow zext/sext comparisons against constants
	if a.op == OZext && b.isC() {
		iw := a.a.w
		if op == OSlt || op == OSle {
			if sx(b.val, b.w) < 0 {
				return tb.False
			}
		}
		if b.val > mask(iw) {
			return tb.True
		}
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return tb.Cmp(nop, a.a, tb.Const(iw, b.val))
	}
	if b.op == OZext && a.isC() {
		iw := b.a.w
		if op == OSlt || op == OSle {
			if sx(a.val, a.w) < 0 {
				return tb.True
			}
		}
		if a.val > mask(iw) {
			return tb.False
		}
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return tb.Cmp(nop, tb.Const(iw, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return tb.Cmp(nop, a.a, b.a)
	}
	if op == OUlt && b.isC() {
		if b.val == 0 {
			return tb.False
		}
		if b.val == 1 {
			return tb.Eq(a, tb.Const(a.w, 0))
		}
	}
	if op == OUle {
		if b.isC() && b.val == mask(b.w) || a.isC() && a.val == 0 {
			return tb.True
		}
		if b.isC() && b.val == 0 {
			return tb.Eq(a, b)
		}
	}
	if op == OUlt && a.isC() && a.val == mask(a.w) {
		return tb.False
	}
	if a.op == OIte && b.isC() && a.b.isC() && a.c.isC() {
		return tb.Ite(a.a, tb.Cmp(op, a.b, b), tb.Cmp(op, a.c, b))
	}
	if b.op == OIte && a.isC() && b.b.isC() && b.c.isC() {
		return tb.Ite(b.a, tb.Cmp(op, a, b.b), tb.Cmp(op, a, b.c))
	}
	return tb.mk(op, 0, a, b, nil, 0)
}

func cbin(op Op, w uint16, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OBAdd:
		return (x + y) & m
	case OBSub:
		return (x - y) & m
	case OBMul:
		return (x * y) & m
	case OBUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OBUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OBSdiv:
		sa, sb := sx(x, w), sx(y, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OBSrem:
		sa, sb := sx(x, w), sx(y, w)
		if sb == 0 {
			return x
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OBLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OBAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("cbin")
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bin %d width %d %d", op, a.w, b.w))
	}
	if a.isC() && b.isC() {
		return tb.Const(w, cbin(op, w, a.val, b.val))
	}
	comm := op == OBAdd || op == OBMul || op == OBAnd || op == OBOr || op == OBXor
	if comm && a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch op {
		case OBAdd, OBSub, OBOr, OBXor, OBShl, OBLshr, OBAshr:
			if b.val == 0 {
				return a
			}
		case OBMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask -> zext(extract)
			if n := bits.TrailingZeros64(^b.val); n > 0 && n < int(w) && b.val == mask(uint16(n)) {
				return tb.Zext(tb.Extract(a, uint16(n-1), 0), w)
			}
		case OBUdiv, OBSdiv:
			if b.val == 1 {
				return a
			}
		}
		if (op == OBShl || op == OBLshr) && b.val >= uint64(w) {
			return tb.Const(w, 0)
		}
		if op == OBAdd && a.op == OBAdd && a.b.isC() {
			return tb.Bin(OBAdd, a.a, tb.Const(w, a.b.val+b.val))
		}
		if op == OBSub {
			return tb.Bin(OBAdd, a, tb.Const(w, -b.val))
		}
		if op == OBLshr {
			// concat(0, extract(hi..k))
			k := uint16(b.val)
			return tb.Zext(tb.Extract(a, w-1, k), w)
		}
		if op == OBShl {
			k := uint16(b.val)
			return tb.Concat(tb.Extract(a, w-1-k, 0), tb.Const(k, 0))
		}
		if op == OBOr && b.val == mask(w) {
			return b
		}
	}
	if a == b {
		switch op {
		case OBSub, OBXor:
			return tb.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if a.isC() && a.val == 0 && (op == OBShl || op == OBLshr || op == OBAshr) {
		return a
	}
	if op == OBOr || op == OBXor || op == OBAdd {
		if r := tb.mergePieces(a, b); r != nil {
			return r
		}
	}
	if comm && !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, w, a, b, nil, 0)
}

type piece struct {
	w uint16
	t *Term // nil = zero
}

// pieces decomposes t (msb first) into zero and non-zero slices.
func pieces(t *Term, out []piece) []piece {
	switch t.op {
	case OConcat:
		return pieces(t.b, pieces(t.a, out))
	case OZext:
		out = append(out, piece{t.w - t.a.w, nil})
		return pieces(t.a, out)
	case OConst:
		if t.val == 0 {
			return append(out, piece{t.w, nil})
		}
	}
	return append(out, piece{t.w, t})
}

func (tb *TB) mergePieces(a, b *Term) *Term {
	if a.op != OConcat && a.op != OZext || b.op != OConcat && b.op != OZext && b.op != OConst {
		return nil
	}
	pa, pb := pieces(a, nil), pieces(b, nil)
	var out []piece
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		x, y := pa[i], pb[j]
		w := x.w
		if y.w < w {
			w = y.w
		}
		if x.t != nil && y.t != nil {
			return nil
		}
		take := func(p *piece) *Term {
			var r *Term
			if p.t != nil {
				r = tb.Extract(p.t, p.w-1, p.w-w)
				if p.w > w {
					p.t = tb.Extract(p.t, p.w-w-1, 0)
				}
			}
			p.w -= w
			return r
		}
		tx, ty := take(&pa[i]), take(&pb[j])
		if tx == nil {
			tx = ty
		}
		out = append(out, piece{w, tx})
		if pa[i].w == 0 {
			i++
		}
		if pb[j].w == 0 {
			j++
		}
	}
	var r *Term
	for _, p := range out {
		t := p.t
		if t == nil {
			t = tb.Const(p.w, 0)
		}
		if r == nil {
			r = t
		} else {
			r = tb.Concat(r, t)
		}
	}
	return r
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isC() {
		return tb.Const(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, a.w, a, nil, nil, 0)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isC() {
		return tb.Const(a.w, -a.val)
	}
	if a.op == OBNeg {
		return a.a
	}
	return tb.mk(OBNeg, a.w, a, nil, nil, 0)
}

func (tb *TB) Extract(a *Term, hi, lo uint16) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tb.Const(w, a.val>>lo)
	case OExtract:
		l0 := uint16(a.val & 0xff)
		return tb.Extract(a.a, hi+l0, lo+l0)
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return tb.Extract(a.a, hi-lw, lo-lw)
		}
		return tb.Concat(tb.Extract(a.a, hi-lw, 0), tb.Extract(a.b, lw-1, lo))
	case OZext:
		iw := a.a.w
		if hi < iw {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= iw {
			return tb.Const(w, 0)
		}
		return tb.Zext(tb.Extract(a.a, iw-1, lo), w)
	case OSext:
		iw := a.a.w
		if hi < iw {
			return tb.Extract(a.a, hi, lo)
		}
		if lo < iw {
			return tb.Sext(tb.Extract(a.a, iw-1, lo), w)
		}
	case OBAshr:
		if a.b.isC() && uint64(hi)+a.b.val < uint64(a.w) {
			return tb.Extract(a.a, hi+uint16(a.b.val), lo+uint16(a.b.val))
		}
	case OBAnd, OBOr, OBXor:
		if a.b.isC() || lo == 0 && w <= 8 {
			return tb.Bin(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
		}
	case OBAdd, OBSub, OBMul:
		if lo == 0 && w <= 32 {
			return tb.Bin(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
		}
	case OIte:
		if a.b.isC() || a.c.isC() {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	}
	return tb.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (tb *TB) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isC() && b.isC() && w <= 64 {
		return tb.Const(w, a.val<<b.w|b.val)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && (a.val&0xff) == (b.val>>8)+1 {
		return tb.Extract(a.a, uint16(a.val>>8), uint16(b.val&0xff))
	}
	if b.op == OConcat { // right-assoc -> left-assoc so extract runs merge
		return tb.Concat(tb.Concat(a, b.a), b.b)
	}
	if a.op == OConcat && a.b.op == OExtract && b.op == OExtract && a.b.a == b.a && (a.b.val&0xff) == (b.val>>8)+1 {
		return tb.Concat(a.a, tb.Extract(b.a, uint16(a.b.val>>8), uint16(b.val&0xff)))
	}
	if a.op == OConcat && a.b.isC() && b.isC() && a.b.w+b.w <= 64 {
		return tb.Concat(a.a, tb.Concat(a.b, b))
	}
	if a.isC() && a.val == 0 {
		return tb.Zext(b, w)
	}
	if a.op == OZext {
		return tb.Zext(tb.Concat(a.a, b), w)
	}
	return tb.mk(OConcat, w, a, b, nil, 0)
}

func (tb *TB) Zext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.Const(w, a.val)
	}
	if a.op == OZext {
		return tb.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return tb.Ite(a.a, tb.Zext(a.b, w), tb.Zext(a.c, w))
	}
	return tb.mk(OZext, w, a, nil, nil, 0)
}

func (tb *TB) Sext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OSext {
		return tb.Sext(a.a, w)
	}
	if a.op == OZext {
		return tb.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return tb.Ite(a.a, tb.Sext(a.b, w), tb.Sext(a.c, w))
	}
	return tb.mk(OSext, w, a, nil, nil, 0)
}

func fval(bits uint64, w uint16) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(bits)))
	}
	return math.Float64frombits(bits)
}

func fbits(f float64, w uint16) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func cfp(op Op, w uint16, x, y uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Const(a.w, cfp(op, a.w, a.val, b.val))
	}
	return tb.mk(op, a.w, a, b, nil, 0)
}

func cfcmp(op Op, w uint16, x, y uint64) bool {
	a, b := fval(x, w), fval(y, w)
	switch op {
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	}
	return a == b
}

func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Bool(cfcmp(op, a.w, a.val, b.val))
	}
	// against zero, a converted signed integer compares as the integer does
	if a.op == OSItoF && b.isC() && b.val == 0 {
		z := tb.Const(a.a.w, 0)
		switch op {
		case OFLt:
			return tb.Cmp(OSlt, a.a, z)
		case OFLe:
			return tb.Cmp(OSle, a.a, z)
		}
		return tb.Eq(a.a, z)
	}
	if b.op == OSItoF && a.isC() && a.val == 0 {
		z := tb.Const(b.a.w, 0)
		switch op {
		case OFLt:
			return tb.Cmp(OSlt, z, b.a)
		case OFLe:
			return tb.Cmp(OSle, z, b.a)
		}
		return tb.Eq(z, b.a)
	}
	// IEEE comparison of bit patterns, as bit-vector arithmetic
	nn := tb.And(tb.notNaN(a), tb.notNaN(b))
	sm := tb.Const(a.w, mask(a.w)>>1)
	ma, mb := tb.Bin(OBAnd, a, sm), tb.Bin(OBAnd, b, sm)
	zero := tb.Eq(tb.Bin(OBOr, ma, mb), tb.Const(a.w, 0))
	eq := tb.Or(tb.Eq(a, b), zero)
	if op == OFEq {
		return tb.And(nn, eq)
	}
	z := tb.Const(a.w, 0)
	sa, sb := tb.Cmp(OSlt, a, z), tb.Cmp(OSlt, b, z)
	lt := tb.Ite(sa, tb.Ite(sb, tb.Cmp(OUlt, mb, ma), tb.Not(zero)), tb.And(tb.Not(sb), tb.Cmp(OUlt, ma, mb)))
	if op == OFLt {
		return tb.And(nn, lt)
	}
	return tb.And(nn, tb.Or(lt, eq))
}

// notNaN says that the bit pattern a is not a NaN.
func (tb *TB) notNaN(a *Term) *Term {
	if a.op == OSItoF || a.op == OUItoF {
		return tb.True
	}
	if a.op == OFCvt {
		return tb.notNaN(a.a)
	}
	inf := uint64(0x7ff0000000000000)
	if a.w == 32 {
		inf = 0x7f800000
	}
	return tb.Cmp(OUle, tb.Bin(OBAnd, a, tb.Const(a.w, mask(a.w)>>1)), tb.Const(a.w, inf))
}

func ccvt(op Op, w uint16, aw uint16, v uint64) uint64 {
	switch op {
	case OFCvt:
		return fbits(fval(v, aw), w)
	case OSItoF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(v, aw))))
		}
		return math.Float64bits(float64(sx(v, aw)))
	case OUItoF:
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFtoSI:
		return uint64(int64(fval(v, aw))) & mask(w)
	case OFtoUI:
		return uint64(fval(v, aw)) & mask(w)
	}
	panic("ccvt")
}

// upper is an upper bound of an unsigned bit-vector term (no wrap-around below it).
func (tb *TB) upper(t *Term) uint64 {
	top := mask(t.w)
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return tb.upper(t.a)
	case OBAdd:
		x, y := tb.upper(t.a), tb.upper(t.b)
		if x <= top-y {
			return x + y
		}
	case OBMul:
		x, y := tb.upper(t.a), tb.upper(t.b)
		if x == 0 || y == 0 {
			return 0
		}
		if x <= top/y {
			return x * y
		}
	case OIte:
		x, y := tb.upper(t.b), tb.upper(t.c)
		if x > y {
			return x
		}
		return y
	}
	return top
}

func (tb *TB) Cvt(op Op, a *Term, w uint16) *Term {
	if a.isC() {
		return tb.Const(w, ccvt(op, w, a.w, a.val))
	}
	if op == OFCvt && a.w == w {
		return a
	}
	if op == OUItoF && a.w == 64 && tb.upper(a) < 1<<63 {
		op = OSItoF
	}
	if op == OSItoF && a.op == OBNeg && a.w == 64 && tb.upper(a.a) < 1<<63 {
		return tb.Ite(tb.Eq(a.a, tb.Const(64, 0)), tb.Const(w, 0), tb.Bin(OBXor, tb.Cvt(OSItoF, a.a, w), tb.Const(w, 1<<(w-1))))
	}
	if op == OFCvt && a.op == OSItoF && w == 32 && a.a.w == 64 && tb.upper(a.a) <= 1<<24 {
		return tb.Cvt(OSItoF, a.a, w)
	}
	// exact: float32(float64(x)) for a 32-bit x (NaN payloads aside)
	if op == OFCvt && a.op == OFCvt && a.w == 64 && w == 32 && a.a.w == 32 {
		// only exact for non-NaN; keep NaN distinction through ite
		return a.a
	}
	return tb.mk(op, w, a, nil, nil, 0)
}

// Model maps variable term val (n<<8|w) to its value; missing means 0.
type Model map[uint64]uint64

func (tb *TB) Eval(t *Term, m Model) uint64 {
	tb.gen++
	return tb.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tb *TB) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.val]
	}
	if t.stamp == tb.gen {
		return t.memo
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - tb.eval(t.a, m)
	case OAnd:
		r = tb.eval(t.a, m)
		if r != 0 {
			r = tb.eval(t.b, m)
		}
	case OOr:
		r = tb.eval(t.a, m)
		if r == 0 {
			r = tb.eval(t.b, m)
		}
	case OIte:
		if tb.eval(t.a, m) != 0 {
			r = tb.eval(t.b, m)
		} else {
			r = tb.eval(t.c, m)
		}
	case OEq:
		r = b2u(tb.eval(t.a, m) == tb.eval(t.b, m))
	case OUlt:
		r = b2u(tb.eval(t.a, m) < tb.eval(t.b, m))
	case OUle:
		r = b2u(tb.eval(t.a, m) <= tb.eval(t.b, m))
	case OSlt:
		r = b2u(sx(tb.eval(t.a, m), t.a.w) < sx(tb.eval(t.b, m), t.a.w))
	case OSle:
		r = b2u(sx(tb.eval(t.a, m), t.a.w) <= sx(tb.eval(t.b, m), t.a.w))
	case OBNot:
		r = ^tb.eval(t.a, m) & mask(t.w)
	case OBNeg:
		r = -tb.eval(t.a, m) & mask(t.w)
	case OConcat:
		r = tb.eval(t.a, m)<<t.b.w | tb.eval(t.b, m)
	case OExtract:
		r = (tb.eval(t.a, m) >> (t.val & 0xff)) & mask(t.w)
	case OZext:
		r = tb.eval(t.a, m)
	case OSext:
		r = uint64(sx(tb.eval(t.a, m), t.a.w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = cfp(t.op, t.w, tb.eval(t.a, m), tb.eval(t.b, m))
	case OFLt, OFLe, OFEq:
		r = b2u(cfcmp(t.op, t.a.w, tb.eval(t.a, m), tb.eval(t.b, m)))
	case OFCvt, OSItoF, OUItoF, OFtoSI, OFtoUI:
		r = ccvt(t.op, t.w, t.a.w, tb.eval(t.a, m))
	default:
		r = cbin(t.op, t.w, tb.eval(t.a, m), tb.eval(t.b, m))
	}
	t.stamp = tb.gen
	t.memo = r
	return r
}

func sortName(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d_%d", t.val>>8, t.val&0xff)
	}
	return fmt.Sprintf("t%d", t.id)
}

var smtOp = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBUdiv: "bvudiv", OBSdiv: "bvsdiv", OBUrem: "bvurem", OBSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OBNeg: "bvneg", OBShl: "bvshl", OBLshr: "bvlshr", OBAshr: "bvashr", OConcat: "concat"}

func fpsort(w uint16) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func tofp(t *Term) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpsort(t.w), t.ref()) }

// body returns the SMT-LIB definition of a non-leaf node. FP results are bit
// patterns obtained with z3's fp.to_ieee_bv.
func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, tofp(t.a), tofp(t.b))
	case OFLt, OFLe, OFEq:
		n := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		return fmt.Sprintf("(%s %s %s)", n, tofp(t.a), tofp(t.b))
	case OFCvt:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpsort(t.w), tofp(t.a))
	case OSItoF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpsort(t.w), t.a.ref())
	case OUItoF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpsort(t.w), t.a.ref())
	case OFtoSI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, tofp(t.a))
	case OFtoUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, tofp(t.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(smtOp[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
