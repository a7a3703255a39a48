package main

import "math/bits"

// Unsigned value ranges of terms, from the value sets of the path's bytes. They
// settle the overflow tests of digit loops, on which bit-blasting is hopeless.

type vrange struct{ lo, hi uint64 }

func (w *Worker) rng(t *Term, memo map[int32]vrange) vrange {
	if t.isC() {
		return vrange{t.val, t.val}
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := w.rng1(t, memo)
	memo[t.id] = r
	return r
}

func (w *Worker) rng1(t *Term, memo map[int32]vrange) vrange {
	top := mask(t.w)
	all := vrange{0, top}
	if t.vars >= 0 && t.vars&0xff == 8 && t.op != OVar && t.w <= 64 && t.w > 0 {
		// a function of one byte: exact over its value set
		d := w.dom[t.vars]
		if d == nil {
			if t.w <= 8 {
				return all
			}
		} else {
			m := Model{}
			r := vrange{top, 0}
			for i := uint64(0); i < 256; i++ {
				if d[i>>6]>>(i&63)&1 == 0 {
					continue
				}
				m[uint64(t.vars)] = i
				v := w.tb.Eval(t, m)
				if v < r.lo {
					r.lo = v
				}
				if v > r.hi {
					r.hi = v
				}
			}
			if r.lo <= r.hi {
				return r
			}
			return all
		}
	}
	switch t.op {
	case OVar:
		if t.w == 8 {
			if d := w.dom[int32(t.val)]; d != nil {
				r := vrange{255, 0}
				for i := uint64(0); i < 256; i++ {
					if d[i>>6]>>(i&63)&1 != 0 {
						if i < r.lo {
							r.lo = i
						}
						r.hi = i
					}
				}
				if r.lo <= r.hi {
					return r
				}
			}
		}
	case OZext:
		return w.rng(t.a, memo)
	case OBAdd:
		x, y := w.rng(t.a, memo), w.rng(t.b, memo)
		if x.hi <= top-y.hi {
			return vrange{x.lo + y.lo, x.hi + y.hi}
		}
	case OBSub:
		x, y := w.rng(t.a, memo), w.rng(t.b, memo)
		if x.lo >= y.hi {
			return vrange{x.lo - y.hi, x.hi - y.lo}
		}
	case OBMul:
		x, y := w.rng(t.a, memo), w.rng(t.b, memo)
		if h, l := bits.Mul64(x.hi, y.hi); h == 0 && l <= top {
			return vrange{x.lo * y.lo, l}
		}
	case OBAnd:
		x, y := w.rng(t.a, memo), w.rng(t.b, memo)
		if y.hi < x.hi {
			x.hi = y.hi
		}
		return vrange{0, x.hi}
	case OBLshr:
		if t.b.isC() && t.b.val < 64 {
			x := w.rng(t.a, memo)
			return vrange{x.lo >> t.b.val, x.hi >> t.b.val}
		}
	case OIte:
		x, y := w.rng(t.b, memo), w.rng(t.c, memo)
		if y.lo < x.lo {
			x.lo = y.lo
		}
		if y.hi > x.hi {
			x.hi = y.hi
		}
		return x
	}
	return all
}

// byRange decides a comparison from value ranges: (value, decided).
func (w *Worker) byRange(q *Term) (bool, bool) {
	if q.op == ONot {
		v, ok := w.byRange(q.a)
		return !v, ok
	}
	switch q.op {
	case OUlt, OUle, OSlt, OSle, OEq:
	default:
		return false, false
	}
	if q.a.w == 0 || q.a.w > 64 {
		return false, false
	}
	memo := map[int32]vrange{}
	x, y := w.rng(q.a, memo), w.rng(q.b, memo)
	half := mask(q.a.w)>>1 + 1
	switch q.op {
	case OSlt, OSle:
		if x.hi >= half || y.hi >= half {
			return false, false
		}
	}
	switch q.op {
	case OEq:
		if x.hi < y.lo || y.hi < x.lo {
			return false, true
		}
	case OUlt, OSlt:
		if x.hi < y.lo {
			return true, true
		}
		if x.lo >= y.hi {
			return false, true
		}
		// x+d < x without overflow
		if q.a.op == OBAdd && (q.a.a == q.b || q.a.b == q.b) {
			a, b := w.rng(q.a.a, memo), w.rng(q.a.b, memo)
			if top := mask(q.a.w); a.hi <= top-b.hi {
				return false, true
			}
		}
	case OUle, OSle:
		if x.hi <= y.lo {
			return true, true
		}
		if x.lo > y.hi {
			return false, true
		}
		if q.b.op == OBAdd && (q.b.a == q.a || q.b.b == q.a) {
			a, b := w.rng(q.b.a, memo), w.rng(q.b.b, memo)
			if top := mask(q.b.w); a.hi <= top-b.hi {
				return true, true
			}
		}
	}
	return false, false
}
