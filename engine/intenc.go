package main

// Integer encoding of bit-vector queries with wide constant divisions (date
// arithmetic). Every term becomes an integer congruent to it modulo 2^width,
// with an interval; reductions are only written where the interval does not
// already exclude an overflow. Path constraints outside the fragment are left
// out, which is sound for unsat; a model is re-checked on the bit-vector query.

import (
	"fmt"
	"math/big"
	"math/bits"
	"os/exec"
	"strings"
)

type iterm struct {
	e      string
	lo, hi *big.Int
}

type intEnc struct {
	s    *Solver
	sb   strings.Builder
	memo map[int32]*iterm
	bmem map[int32]string
	bnd  map[int32][2]*big.Int // signed bounds of terms by id
	vars []*Term
	n    int
	bad  bool
}

func p2(n uint16) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func bstr(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (e *intEnc) def(x string, lo, hi *big.Int) *iterm {
	if len(x) > 24 {
		e.n++
		nm := fmt.Sprintf("i%d", e.n)
		fmt.Fprintf(&e.sb, "(define-fun %s () Int %s)\n", nm, x)
		x = nm
	}
	return &iterm{x, lo, hi}
}

// sN / uN: the signed / unsigned value of t.
func (e *intEnc) sN(t *Term) *iterm {
	r := e.term(t)
	if r == nil {
		return nil
	}
	h := p2(t.w - 1)
	nh := new(big.Int).Neg(h)
	if r.lo.Cmp(nh) >= 0 && r.hi.Cmp(h) < 0 {
		return r
	}
	return e.def(fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", r.e, h, p2(t.w), h), nh, new(big.Int).Sub(h, big.NewInt(1)))
}

func (e *intEnc) uN(t *Term) *iterm {
	r := e.term(t)
	if r == nil {
		return nil
	}
	m := p2(t.w)
	if r.lo.Sign() >= 0 && r.hi.Cmp(m) < 0 {
		return r
	}
	return e.def(fmt.Sprintf("(mod %s %s)", r.e, m), big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1)))
}

func (e *intEnc) fail() *iterm { e.bad = true; return nil }

func (e *intEnc) term(t *Term) *iterm {
	if r, ok := e.memo[t.id]; ok {
		return r
	}
	r := e.term1(t)
	if r != nil {
		if b, ok := e.bnd[t.id]; ok && t.op != OVar {
			// the path condition bounds the signed value
			h := p2(t.w - 1)
			if r.lo.Cmp(new(big.Int).Neg(h)) >= 0 && r.hi.Cmp(h) < 0 {
				lo, hi := r.lo, r.hi
				if b[0].Cmp(lo) > 0 {
					lo = b[0]
				}
				if b[1].Cmp(hi) < 0 {
					hi = b[1]
				}
				r = &iterm{r.e, lo, hi}
			}
		}
	}
	e.memo[t.id] = r
	return r
}

func bmin(a ...*big.Int) *big.Int {
	r := a[0]
	for _, x := range a {
		if x.Cmp(r) < 0 {
			r = x
		}
	}
	return r
}
func bmax(a ...*big.Int) *big.Int {
	r := a[0]
	for _, x := range a {
		if x.Cmp(r) > 0 {
			r = x
		}
	}
	return r
}

func fdiv(a, b *big.Int) *big.Int { // floor, b > 0
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() < 0 {
		q.Sub(q, big.NewInt(1))
	}
	return q
}

func (e *intEnc) term1(t *Term) *iterm {
	switch t.op {
	case OConst:
		v := big.NewInt(sx(t.val, t.w))
		return &iterm{bstr(v), v, v}
	case OVar:
		lo, hi := new(big.Int).Neg(p2(t.w-1)), new(big.Int).Sub(p2(t.w-1), big.NewInt(1))
		if t.w <= 8 {
			lo, hi = big.NewInt(0), new(big.Int).Sub(p2(t.w), big.NewInt(1))
		}
		if b, ok := e.bnd[t.id]; ok && t.w > 8 {
			lo, hi = bmax(lo, b[0]), bmin(hi, b[1])
		}
		nm := vref(int32(t.val))
		fmt.Fprintf(&e.sb, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", nm, bstr(lo), nm, bstr(hi))
		e.vars = append(e.vars, t)
		return &iterm{nm, lo, hi}
	case OBAdd, OBSub:
		a, b := e.term(t.a), e.term(t.b)
		if a == nil || b == nil {
			return e.fail()
		}
		if t.op == OBAdd {
			return e.def("(+ "+a.e+" "+b.e+")", new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi))
		}
		return e.def("(- "+a.e+" "+b.e+")", new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo))
	case OBNeg:
		a := e.term(t.a)
		if a == nil {
			return e.fail()
		}
		return e.def("(- "+a.e+")", new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo))
	case OBMul:
		x, y := t.a, t.b
		if x.isC() {
			x, y = y, x
		}
		if !y.isC() {
			return e.fail()
		}
		a, c := e.term(x), big.NewInt(sx(y.val, y.w))
		if a == nil {
			return e.fail()
		}
		p, q := new(big.Int).Mul(a.lo, c), new(big.Int).Mul(a.hi, c)
		return e.def("(* "+bstr(c)+" "+a.e+")", bmin(p, q), bmax(p, q))
	case OBSdiv, OBSrem:
		if !t.b.isC() || sx(t.b.val, t.w) <= 0 {
			return e.fail()
		}
		a, k := e.sN(t.a), big.NewInt(sx(t.b.val, t.w))
		if a == nil {
			return e.fail()
		}
		var q *iterm
		lo, hi := new(big.Int).Quo(a.lo, k), new(big.Int).Quo(a.hi, k)
		if a.lo.Sign() >= 0 {
			q = e.def(fmt.Sprintf("(div %s %s)", a.e, k), lo, hi)
		} else {
			q = e.def(fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.e, a.e, k, a.e, k), lo, hi)
		}
		if t.op == OBSdiv {
			return q
		}
		k1 := new(big.Int).Sub(k, big.NewInt(1))
		rl, rh := new(big.Int).Neg(k1), k1
		if a.lo.Sign() >= 0 {
			rl = big.NewInt(0)
		}
		if a.hi.Sign() <= 0 {
			rh = big.NewInt(0)
		}
		return e.def(fmt.Sprintf("(- %s (* %s %s))", a.e, k, q.e), rl, rh)
	case OBUdiv, OBUrem:
		if !t.b.isC() || t.b.val == 0 {
			return e.fail()
		}
		a, k := e.uN(t.a), new(big.Int).SetUint64(t.b.val)
		if a == nil {
			return e.fail()
		}
		if t.op == OBUdiv {
			return e.def(fmt.Sprintf("(div %s %s)", a.e, k), fdiv(a.lo, k), fdiv(a.hi, k))
		}
		return e.def(fmt.Sprintf("(mod %s %s)", a.e, k), big.NewInt(0), bmin(a.hi, new(big.Int).Sub(k, big.NewInt(1))))
	case OBShl:
		if !t.b.isC() || t.b.val >= uint64(t.w) {
			return e.fail()
		}
		a, k := e.term(t.a), p2(uint16(t.b.val))
		if a == nil {
			return e.fail()
		}
		return e.def(fmt.Sprintf("(* %s %s)", k, a.e), new(big.Int).Mul(a.lo, k), new(big.Int).Mul(a.hi, k))
	case OBLshr, OBAshr:
		if !t.b.isC() || t.b.val >= uint64(t.w) {
			return e.fail()
		}
		a := e.uN(t.a)
		if t.op == OBAshr {
			a = e.sN(t.a)
		}
		if a == nil {
			return e.fail()
		}
		k := p2(uint16(t.b.val))
		return e.def(fmt.Sprintf("(div %s %s)", a.e, k), fdiv(a.lo, k), fdiv(a.hi, k))
	case OBAnd:
		x, y := t.a, t.b
		if x.isC() {
			x, y = y, x
		}
		if y.isC() && y.val != 0 && y.val&(y.val+1) != 0 {
			// a mask of high bits: clear the low ones
			lo := uint16(bits.TrailingZeros64(y.val))
			if y.val>>lo != mask(t.w-lo) {
				return e.fail()
			}
			a, k := e.uN(x), p2(lo)
			if a == nil {
				return e.fail()
			}
			return e.def(fmt.Sprintf("(* %s (div %s %s))", k, a.e, k), new(big.Int).Mul(k, fdiv(a.lo, k)), new(big.Int).Mul(k, fdiv(a.hi, k)))
		}
		if !y.isC() || y.val&(y.val+1) != 0 {
			return e.fail()
		}
		a := e.term(x)
		if a == nil {
			return e.fail()
		}
		m := new(big.Int).SetUint64(y.val)
		if a.lo.Sign() >= 0 && a.hi.Cmp(m) <= 0 {
			return a
		}
		return e.def(fmt.Sprintf("(mod %s %s)", a.e, new(big.Int).Add(m, big.NewInt(1))), big.NewInt(0), m)
	case OBOr, OBXor:
		// disjoint bits: addition
		x, y := t.a, t.b
		if lowZeros(x) > lowZeros(y) {
			x, y = y, x
		}
		a, b := e.uN(x), e.uN(y)
		if a == nil || b == nil || a.hi.Cmp(p2(lowZeros(y))) >= 0 {
			return e.fail()
		}
		return e.def("(+ "+a.e+" "+b.e+")", new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi))
	case OConcat:
		a, b := e.term(t.a), e.uN(t.b)
		if a == nil || b == nil {
			return e.fail()
		}
		k := p2(t.b.w)
		return e.def(fmt.Sprintf("(+ (* %s %s) %s)", k, a.e, b.e), new(big.Int).Add(new(big.Int).Mul(a.lo, k), b.lo), new(big.Int).Add(new(big.Int).Mul(a.hi, k), b.hi))
	case OExtract:
		lo := uint16(t.val & 0xff)
		if lo == 0 {
			return e.term(t.a)
		}
		a := e.uN(t.a)
		if a == nil {
			return e.fail()
		}
		k := p2(lo)
		return e.def(fmt.Sprintf("(div %s %s)", a.e, k), fdiv(a.lo, k), fdiv(a.hi, k))
	case OZext:
		return e.uN(t.a)
	case OSext:
		return e.sN(t.a)
	case OIte:
		c := e.boolean(t.a)
		a, b := e.term(t.b), e.term(t.c)
		if c == "" || a == nil || b == nil {
			return e.fail()
		}
		return e.def("(ite "+c+" "+a.e+" "+b.e+")", bmin(a.lo, b.lo), bmax(a.hi, b.hi))
	}
	return e.fail()
}

// lowZeros is a number of low bits of t known to be zero.
func lowZeros(t *Term) uint16 {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return t.w
		}
		return uint16(bits.TrailingZeros64(t.val))
	case OConcat:
		if z := lowZeros(t.b); z < t.b.w {
			return z
		}
		return t.b.w + lowZeros(t.a)
	case OBShl:
		if t.b.isC() && t.b.val < uint64(t.w) {
			return uint16(t.b.val)
		}
	}
	return 0
}

func (e *intEnc) boolean(t *Term) string {
	if r, ok := e.bmem[t.id]; ok {
		return r
	}
	r := e.bool1(t)
	if len(r) > 40 {
		e.n++
		nm := fmt.Sprintf("b%d", e.n)
		fmt.Fprintf(&e.sb, "(define-fun %s () Bool %s)\n", nm, r)
		r = nm
	}
	e.bmem[t.id] = r
	return r
}

func (e *intEnc) bool1(t *Term) string {
	two := func(op string) string {
		a, b := e.boolean(t.a), e.boolean(t.b)
		if a == "" || b == "" {
			return ""
		}
		return "(" + op + " " + a + " " + b + ")"
	}
	cmp := func(op string, f func(*Term) *iterm) string {
		a, b := f(t.a), f(t.b)
		if a == nil || b == nil {
			return ""
		}
		return "(" + op + " " + a.e + " " + b.e + ")"
	}
	switch t.op {
	case OConst:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case OVar:
		nm := vref(int32(t.val))
		fmt.Fprintf(&e.sb, "(declare-const %s Bool)\n", nm)
		e.vars = append(e.vars, t)
		return nm
	case ONot:
		a := e.boolean(t.a)
		if a == "" {
			return ""
		}
		return "(not " + a + ")"
	case OAnd:
		return two("and")
	case OOr:
		return two("or")
	case OUlt:
		return cmp("<", e.uN)
	case OUle:
		return cmp("<=", e.uN)
	case OSlt:
		return cmp("<", e.sN)
	case OSle:
		return cmp("<=", e.sN)
	case OEq:
		if t.a.w == 0 {
			return two("=")
		}
		return cmp("=", e.sN)
	case OIte:
		c, a, b := e.boolean(t.a), e.boolean(t.b), e.boolean(t.c)
		if c == "" || a == "" || b == "" {
			return ""
		}
		return "(ite " + c + " " + a + " " + b + ")"
	}
	return ""
}

// learnBound records signed bounds that a constraint puts on a term.
func (e *intEnc) learnBound(c *Term) {
	neg := false
	for c.op == ONot {
		neg = !neg
		c = c.a
	}
	if c.op == OAnd && !neg {
		e.learnBound(c.a)
		e.learnBound(c.b)
		return
	}
	if c.op == OEq && !neg && c.a.op == OExtract && c.b.isC() && c.b.val == 0 && c.a.val>>8 == uint64(c.a.a.w-1) && c.a.val&0xff > 0 {
		x := c.a.a
		lo, hi := big.NewInt(0), new(big.Int).Sub(p2(uint16(c.a.val&0xff)), big.NewInt(1))
		if b, ok := e.bnd[x.id]; ok {
			lo, hi = bmax(lo, b[0]), bmin(hi, b[1])
		}
		e.bnd[x.id] = [2]*big.Int{lo, hi}
		return
	}
	if c.op != OSlt && c.op != OSle {
		return
	}
	a, b, strict := c.a, c.b, c.op == OSlt
	if neg { // not a<b is b<=a
		a, b, strict = b, a, !strict
	}
	one := int64(0)
	if strict {
		one = 1
	}
	set := func(t *Term, lo, hi *big.Int) {
		x, ok := e.bnd[t.id]
		if !ok {
			x = [2]*big.Int{new(big.Int).Neg(p2(t.w - 1)), new(big.Int).Sub(p2(t.w-1), big.NewInt(1))}
		}
		if lo != nil {
			x[0] = bmax(x[0], lo)
		}
		if hi != nil {
			x[1] = bmin(x[1], hi)
		}
		e.bnd[t.id] = x
	}
	if a.isC() && !b.isC() {
		set(b, big.NewInt(sx(a.val, a.w)+one), nil)
	}
	if b.isC() && !a.isC() {
		set(a, nil, big.NewInt(sx(b.val, b.w)-one))
	}
}

func (s *Solver) intQuery(sl []*Term, q *Term, secs int) (SatRes, Model) {
	e := &intEnc{s: s, memo: map[int32]*iterm{}, bmem: map[int32]string{}, bnd: map[int32][2]*big.Int{}}
	for _, c := range sl {
		e.learnBound(c)
	}
	qs := e.boolean(q)
	if qs == "" {
		return Unknown, nil
	}
	var asserts []string
	for _, c := range sl {
		if r := e.boolean(c); r != "" {
			asserts = append(asserts, r)
		}
	}
	var sc strings.Builder
	sc.WriteString(e.sb.String())
	for _, a := range asserts {
		sc.WriteString("(assert " + a + ")\n")
	}
	sc.WriteString("(assert " + qs + ")\n(check-sat)\n")
	if len(e.vars) > 0 {
		sc.WriteString("(get-value (")
		for _, v := range e.vars {
			sc.WriteString(vref(int32(v.val)) + " ")
		}
		sc.WriteString("))\n")
	}
	cmd := exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs))
	cmd.Stdin = strings.NewReader(sc.String())
	out, _ := cmd.Output()
	txt := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		m := Model{}
		f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt[3:]))
		byName := map[string]*Term{}
		for _, v := range e.vars {
			byName[vref(int32(v.val))] = v
		}
		for i := 0; i+1 < len(f); i++ {
			v := byName[f[i]]
			if v == nil {
				return Unknown, nil
			}
			i++
			neg := false
			if f[i] == "-" && i+1 < len(f) {
				neg = true
				i++
			}
			if f[i] == "true" || f[i] == "false" {
				m[v.val] = b2u(f[i] == "true")
				continue
			}
			x, ok := new(big.Int).SetString(f[i], 10)
			if !ok {
				return Unknown, nil
			}
			if neg {
				x.Neg(x)
			}
			m[v.val] = new(big.Int).And(new(big.Int).Add(x, p2(128)), new(big.Int).Sub(p2(64), big.NewInt(1))).Uint64() & mask(v.w)
		}
		if !s.validate(sl, q, m) {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}
