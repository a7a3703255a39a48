package main

import "math/bits"

// Variables whose value the path condition has pinned to one constant are
// replaced by it before a branch, index or assumption is decided.

func (w *Worker) pin(v int32, val uint64) {
	if _, ok := w.fixed[v]; !ok {
		w.fixed[v] = val
		w.smemo = nil
	}
}

func (s byteSet) single() (uint64, bool) {
	n, at := 0, uint64(0)
	for i, x := range s {
		if c := bits.OnesCount64(x); c > 0 {
			n += c
			at = uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return at, n == 1
}

func (w *Worker) subst(t *Term) *Term {
	if len(w.fixed) == 0 || t.vars == -1 {
		return t
	}
	if t.vars >= 0 {
		if _, ok := w.fixed[t.vars]; !ok {
			return t
		}
	} else {
		hit := false
		for _, v := range w.sol.vset(t) {
			if _, ok := w.fixed[v]; ok {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
	}
	if w.smemo == nil {
		w.smemo = map[int32]*Term{}
	}
	return w.sub(t)
}

func (w *Worker) sub(t *Term) *Term {
	if t == nil || t.vars == -1 {
		return t
	}
	if r, ok := w.smemo[t.id]; ok {
		return r
	}
	r := t
	if t.op == OVar {
		if v, ok := w.fixed[int32(t.val)]; ok {
			r = w.tb.Const(t.w, v)
		}
	} else {
		a, b, c := w.sub(t.a), w.sub(t.b), w.sub(t.c)
		if a != t.a || b != t.b || c != t.c {
			r = w.tb.rebuild(t, a, b, c)
		}
	}
	w.smemo[t.id] = r
	return r
}

func (tb *TB) rebuild(t, a, b, c *Term) *Term {
	switch t.op {
	case ONot:
		return tb.Not(a)
	case OAnd:
		return tb.And(a, b)
	case OOr:
		return tb.Or(a, b)
	case OEq:
		return tb.Eq(a, b)
	case OIte:
		return tb.Ite(a, b, c)
	case OUlt, OUle, OSlt, OSle:
		return tb.Cmp(t.op, a, b)
	case OBNot:
		return tb.BNot(a)
	case OBNeg:
		return tb.Neg(a)
	case OConcat:
		return tb.Concat(a, b)
	case OExtract:
		return tb.Extract(a, uint16(t.val>>8), uint16(t.val&0xff))
	case OZext:
		return tb.Zext(a, t.w)
	case OSext:
		return tb.Sext(a, t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		return tb.FBin(t.op, a, b)
	case OFLt, OFLe, OFEq:
		return tb.FCmp(t.op, a, b)
	case OFCvt, OSItoF, OUItoF, OFtoSI, OFtoUI:
		return tb.Cvt(t.op, a, t.w)
	}
	return tb.Bin(t.op, a, b)
}
