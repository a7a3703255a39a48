package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Decimal text of floats. strconv's conversions are taken at their contract:
//   - ParseFloat is a function of the text (same bytes, same float); its syntax
//     check is executed, its value is an uninterpreted finite float;
//   - FormatFloat with the shortest precision gives a text that ParseFloat maps
//     back to the float, of one of a few bounded shapes.

func (w *Worker) strVals(s Val) []Val {
	n := slen(s)
	out := make([]Val, n)
	for i := range out {
		out[i] = s.obj().get(int(s.N) + i)
	}
	return out
}

func textKey(vs []Val) string {
	var sb strings.Builder
	sb.WriteString("ftext:")
	for _, v := range vs {
		sb.WriteString(valKey(v))
		sb.WriteByte(',')
	}
	return sb.String()
}

type ftext struct {
	f   *Term // value as a float64 bit pattern
	err *Term // range error
}

// pick forks over 0..n-1 inside a stub.
func (w *Worker) pick(n int) int {
	t := w.fresh(8, 0)
	w.assume(w.tb.Cmp(OUlt, t, w.tb.Const(8, uint64(n))))
	return int(w.concretize(Val{R: t}, 8))
}

func (w *Worker) fmtFloat(v Val, fm byte, prec, bits int) Val {
	if v.R == nil {
		return w.newStr(strconv.FormatFloat(math.Float64frombits(v.N), fm, prec, bits))
	}
	w.eng.note("stub: strconv.FormatFloat on a symbolic float gives a bounded decimal text that ParseFloat maps back to it")
	tb := w.tb
	t := w.tm(v, 64)
	// the same number gives the same text every time
	memo := fmt.Sprintf("ffmt:%d:%c:%d:%d", t.id, fm, prec, bits)
	if vs, ok := w.side[memo].([]Val); ok {
		return mkStr(w.mkBytes(vs), 0, len(vs))
	}
	if !w.isTrue(tb.notNaN(t)) {
		return w.newStr("NaN")
	}
	neg := w.isTrue(tb.Cmp(OSlt, t, tb.Const(64, 0)))
	if w.isTrue(tb.Eq(tb.Bin(OBAnd, t, tb.Const(64, 1<<63-1)), tb.Const(64, 0x7ff0000000000000))) {
		if neg {
			return w.newStr("-Inf")
		}
		return w.newStr("+Inf")
	}
	exp := false
	shapes := [][2]int{{1, 0}, {3, 0}, {1, 1}, {2, 2}}
	if fm != 'f' {
		if fm != 'e' && fm != 'g' {
			w.unsup("FormatFloat format %c on a symbolic value", fm)
		}
		shapes = [][2]int{{1, 0}, {1, 1}}
		if fm == 'g' {
			shapes = [][2]int{{1, 0}, {3, 0}, {1, 1}, {2, 2}, {1, 0}, {1, 1}}
		}
	}
	k := 0
	if prec >= 0 {
		if prec > 9 {
			w.unsup("FormatFloat with precision %d on a symbolic value", prec)
		}
		shapes = [][2]int{{1, prec}, {2, prec}}
	}
	k = w.pick(len(shapes))
	if fm == 'e' || fm == 'g' && k >= 4 {
		exp = true
	}
	ni, nf := shapes[k][0], shapes[k][1]
	g := t
	if prec >= 0 {
		g = w.fresh(64, tb.Eval(t, w.model))
	} else if bits == 32 {
		g = w.fresh(64, tb.Eval(t, w.model))
		w.assume(tb.Eq(tb.Cvt(OFCvt, g, 32), tb.Cvt(OFCvt, t, 32)))
	}
	var out []Val
	if neg {
		out = append(out, Val{N: '-'})
	}
	digit := func(lo uint64) *Term {
		d := w.fresh(8, lo)
		w.assume(tb.Cmp(OUle, tb.Const(8, lo), d))
		w.assume(tb.Cmp(OUle, d, tb.Const(8, '9')))
		out = append(out, Val{R: d})
		return d
	}
	var sum *Term
	for i := 0; i < ni; i++ {
		lo := uint64('0')
		if i == 0 && ni > 1 {
			lo = '1'
		}
		dv := tb.Zext(tb.Bin(OBSub, digit(lo), tb.Const(8, '0')), 64)
		if sum == nil {
			sum = dv
		} else {
			sum = tb.Bin(OBAdd, tb.Bin(OBMul, sum, tb.Const(64, 10)), dv)
		}
	}
	if nf > 0 {
		out = append(out, Val{N: '.'})
		for i := 0; i < nf; i++ {
			lo := uint64('0')
			if i == nf-1 && prec < 0 {
				lo = '1'
			}
			digit(lo)
		}
	}
	if exp {
		out = append(out, Val{N: 'e'}, Val{N: uint64("+-"[w.pick(2)])})
		digit('0')
		digit('1')
	}
	if nf == 0 && !exp {
		if neg {
			sum = tb.Neg(sum)
		}
		c := tb.Cvt(OSItoF, sum, 64)
		if neg {
			// minus zero keeps its sign
			c = tb.Ite(tb.Eq(sum, tb.Const(64, 0)), tb.Const(64, 1<<63), c)
		}
		w.assume(tb.Eq(c, g))
	}
	w.side[textKey(out)] = ftext{g, tb.False}
	w.side[memo] = out
	return mkStr(w.mkBytes(out), 0, len(out))
}

// floatSyntax checks a text against ParseFloat's decimal grammar, forking on
// the classes of symbolic bytes; it returns the number of exponent digits.
func (w *Worker) floatSyntax(vs []Val) (ok bool, expd int) {
	in := func(v Val, lo, hi byte) bool {
		if v.R == nil {
			return byte(v.N) >= lo && byte(v.N) <= hi
		}
		t := w.tm(v, 8)
		return w.isTrue(w.tb.And(w.tb.Cmp(OUle, w.tb.Const(8, uint64(lo)), t), w.tb.Cmp(OUle, t, w.tb.Const(8, uint64(hi)))))
	}
	is := func(i int, set string) bool {
		if i >= len(vs) {
			return false
		}
		for k := 0; k < len(set); k++ {
			if in(vs[i], set[k], set[k]) {
				return true
			}
		}
		return false
	}
	dig := func(i int) bool { return i < len(vs) && in(vs[i], '0', '9') }
	i := 0
	if is(i, "+-") {
		i++
	}
	if is(i, "iInN") {
		w.unsup("ParseFloat on symbolic text that may spell inf or nan")
	}
	nd := 0
	zero := is(i, "0")
	for dig(i) {
		i++
		nd++
	}
	if nd > 0 && is(i, "_") || zero && nd == 1 && is(i, "xX") {
		w.unsup("ParseFloat on symbolic text with underscore or hexadecimal syntax")
	}
	if is(i, ".") {
		i++
		for dig(i) {
			i++
			nd++
		}
	}
	if nd == 0 {
		return false, 0
	}
	if is(i, "eE") {
		i++
		if is(i, "+-") {
			i++
		}
		for dig(i) {
			i++
			expd++
		}
		if expd == 0 {
			return false, 0
		}
	}
	return i == len(vs), expd
}

func (w *Worker) parseFloat(s Val, bits int) Val {
	if cs, ok := w.concStr(s); ok {
		f, err := strconv.ParseFloat(cs, bits)
		e := Val{}
		if err != nil {
			e = w.mkError(err.Error())
		}
		return ret(Val{N: math.Float64bits(f)}, e)
	}
	w.eng.note("stub: strconv.ParseFloat on symbolic text is an uninterpreted function of the text; its syntax check is executed")
	tb := w.tb
	vs := w.strVals(s)
	key := textKey(vs)
	c, ok := w.side[key].(ftext)
	if !ok {
		syn, expd := w.floatSyntax(vs)
		if !syn {
			return ret(Val{}, w.mkError("strconv.ParseFloat: parsing: invalid syntax"))
		}
		var b []byte
		for _, v := range vs {
			b = append(b, byte(tb.Eval(w.tm(v, 8), w.model)))
		}
		f, err := strconv.ParseFloat(string(b), 64)
		fixed := true
		for i, v := range vs {
			// a free byte that is an exponent sign leaves the value as it is
			if v.R != nil && b[i]|0x20 != 'e' {
				fixed = false
			}
		}
		if fixed {
			e := Val{}
			if err != nil {
				e = w.mkError(err.Error())
			}
			return ret(Val{N: math.Float64bits(f)}, e)
		}
		c.f = w.fresh(64, math.Float64bits(f))
		c.err = tb.False
		if expd > 2 || len(vs) > 200 {
			iv := uint64(0)
			if err != nil {
				iv = 1
			}
			c.err = tb.Eq(w.fresh(8, iv), tb.Const(8, 1))
		}
		// the sign is the text's, the value is finite (infinite when out of range)
		neg := vs[0].R == nil && vs[0].N == '-' || vs[0].R != nil && w.isTrue(tb.Eq(w.tm(vs[0], 8), tb.Const(8, '-')))
		if neg {
			w.assume(tb.Cmp(OSlt, c.f, tb.Const(64, 0)))
		} else {
			w.assume(tb.Cmp(OSle, tb.Const(64, 0), c.f))
		}
		mag := tb.Bin(OBAnd, c.f, tb.Const(64, 1<<63-1))
		inf := tb.Const(64, 0x7ff0000000000000)
		w.assume(tb.Ite(c.err, tb.Eq(mag, inf), tb.Cmp(OUlt, mag, inf)))
		w.side[key] = c
	}
	e := Val{}
	if w.isTrue(c.err) {
		e = w.mkError("strconv.ParseFloat: parsing: value out of range")
	}
	f := c.f
	if bits == 32 {
		f = tb.Cvt(OFCvt, tb.Cvt(OFCvt, f, 32), 64)
	}
	return ret(w.fromT(f), e)
}
