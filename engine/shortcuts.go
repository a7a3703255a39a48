package main

// shortcuts are exact closed forms of library functions for some arguments; the
// function's source is executed for all others.
var shortcuts = map[string]func(w *Worker, a []Val) (Val, bool){}

func init() {
	shortcuts["strings.EqualFold"] = equalFold
	shortcuts["bytes.EqualFold"] = equalFold
}

// equalFold on ASCII text: equal lengths and per-byte equality up to case.
func equalFold(w *Worker, a []Val) (Val, bool) {
	x, y := asStr(a[0]), asStr(a[1])
	cx, okx := w.concStr(x)
	cy, oky := w.concStr(y)
	if okx && oky {
		return Val{}, false
	}
	if !okx && !w.isTrue(w.ascii(x)) {
		if !oky || slen(x) != slen(y) || !isASCII(cy) {
			return Val{}, false
		}
		// as many bytes as the ASCII text has, but fewer runes
		return w.fromT(w.tb.False), true
	}
	if !oky && !w.isTrue(w.ascii(y)) {
		if !okx || slen(x) != slen(y) || !isASCII(cx) {
			return Val{}, false
		}
		return w.fromT(w.tb.False), true
	}
	if okx && !isASCII(cx) || oky && !isASCII(cy) {
		return Val{}, false
	}
	if slen(x) != slen(y) {
		return w.fromT(w.tb.False), true
	}
	tb := w.tb
	r := tb.True
	lower := func(v Val) *Term {
		if v.R == nil {
			c := v.N
			if c >= 'A' && c <= 'Z' {
				c += 32
			}
			return tb.Const(8, c)
		}
		t := w.tm(v, 8)
		up := tb.And(tb.Cmp(OUle, tb.Const(8, 'A'), t), tb.Cmp(OUle, t, tb.Const(8, 'Z')))
		return tb.Ite(up, tb.Bin(OBAdd, t, tb.Const(8, 32)), t)
	}
	for i := 0; i < slen(x); i++ {
		r = tb.And(r, tb.Eq(lower(w.byteAt(x, i)), lower(w.byteAt(y, i))))
	}
	return w.fromT(r), true
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (w *Worker) ascii(s Val) *Term {
	r := w.tb.True
	for i := 0; i < slen(s); i++ {
		v := w.byteAt(s, i)
		if v.R == nil {
			if v.N >= 0x80 {
				return w.tb.False
			}
			continue
		}
		r = w.tb.And(r, w.tb.Cmp(OUlt, w.tm(v, 8), w.tb.Const(8, 0x80)))
	}
	return r
}
