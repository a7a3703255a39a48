package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// Environment contracts. Everything here replaces code outside the repository
// (date arithmetic on floats, the clock, decimal/binary float conversion) by
// its documented contract; each use is listed in the evidence.

const dxlib = "github.com/suiyunonghen/DxCommonLib"

const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)

type timeCell struct{ wall, ext Val }

func (w *Worker) localLoc() Val {
	g := w.eng.pkgs["time"].Var("Local")
	if g == nil {
		return Val{}
	}
	w.ensureInit(g.Pkg)
	return w.globalObj(g).get(0)
}

func (w *Worker) mkTime(wall, ext, loc Val) Val { return Val{R: []Val{wall, ext, loc}} }

func valKey(v Val) string {
	if t := v.term(); t != nil {
		return fmt.Sprintf("t%d", t.id)
	}
	return fmt.Sprintf("c%d", v.N)
}

func goTime(wall, ext uint64) time.Time {
	return time.Unix(int64(ext)-unixToInternal, int64(wall&(1<<30-1))).UTC()
}

var delphiFirst = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)

func time2delphi(t time.Time) float64 {
	if t.IsZero() {
		return 0
	}
	days := t.Sub(delphiFirst) / (time.Hour * 24)
	y, m, d := t.Date()
	nowdate := time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
	times := float64(t.Sub(nowdate)) / float64(time.Hour*24)
	return float64(days) + times
}

func delphi2time(date float64) time.Time {
	mDay := time.Duration(date)
	ms := (date - float64(mDay)) * float64(86400000)
	return delphiFirst.Add(mDay*time.Hour*24 + time.Duration(ms)*time.Millisecond)
}

func (w *Worker) timeOf(t time.Time, loc Val) Val {
	return w.mkTime(Val{N: uint64(t.Nanosecond())}, Val{N: uint64(t.Unix() + unixToInternal)}, loc)
}

// unDelphi gives the instant a double was made from, and the nanoseconds (less
// than a second) that have been added to it since.
func (w *Worker) unDelphi(d Val) (timeCell, uint64, bool) {
	if c, ok := w.side["undelphi:"+valKey(d)]; ok {
		return c.(timeCell), 0, true
	}
	if t := d.term(); t != nil && t.op == OFAdd {
		for i := 0; i < 2; i++ {
			x, k := t.a, t.b
			if i == 1 {
				x, k = k, x
			}
			c, ok := w.side["undelphi:"+valKey(Val{R: x})]
			if !ok || k.op != OConst {
				continue
			}
			ns := math.Round(math.Float64frombits(k.val) * 86400e9)
			if ns >= 0 && ns < 1e9 {
				return c.(timeCell), uint64(ns), true
			}
		}
	}
	return timeCell{}, 0, false
}

// cutMs is what ToTime makes of the instant c plus off nanoseconds: its whole
// milliseconds, up to one microsecond of rounding in the double before that.
func (w *Worker) cutMs(c timeCell, off uint64) timeCell {
	const eps = 1000
	tb := w.tb
	k := func(x uint64) *Term { return tb.Const(32, x) }
	// everything one second later, so that nothing is negative
	n := tb.Bin(OBAdd, tb.Extract(w.tm(c.wall, 64), 31, 0), k(off+1000000000))
	m := tb.Zext(w.fresh(12, tb.Eval(n, w.model)/1000000), 32)
	ms := tb.Bin(OBMul, m, k(1000000))
	w.assumeDef(tb.Cmp(OUle, m, k(3001)))
	w.assumeDef(tb.Cmp(OUle, ms, tb.Bin(OBAdd, n, k(eps))))
	w.assumeDef(tb.Cmp(OUlt, tb.Bin(OBSub, n, k(eps)), tb.Bin(OBAdd, ms, k(1000000))))
	// which second it falls into is decided here, so that it stays concrete
	carry := uint64(0)
	switch lt := func(x uint64) bool { return w.branch(tb.Cmp(OUlt, m, k(x))) }; {
	case lt(1000):
		carry--
	case lt(2000):
	case lt(3000):
		carry = 1
	default:
		carry = 2
	}
	wall := tb.Zext(tb.Bin(OBSub, ms, k((carry+1)*1000000000)), 64)
	ext := tb.Bin(OBAdd, w.tm(c.ext, 64), tb.Const(64, carry))
	return timeCell{w.fromT(wall), w.fromT(ext)}
}

// zoneOffset is the offset of a *time.Location without transitions; Local and
// UTC are the same here (the checks run with TZ=UTC).
func (w *Worker) zoneOffset(loc Val) Val {
	o, ok := loc.R.(*Obj)
	if !ok {
		return Val{}
	}
	z := o.get(int(loc.N) + 1) // Location.zone
	if slen(z) == 0 {
		return Val{}
	}
	if slen(z) != 1 {
		w.unsup("a location with several zones")
	}
	return z.obj().get(int(z.N) + 1) // zone.offset
}

func init() {
	// Time2DelphiTime: an injective encoding of the instant (its inverse is
	// ToTime). The real one is exact to about a microsecond between 1900 and
	// 2190, and it measures the time of day from the local midnight of the date
	// the instant has in its own location: where that date is another one than
	// the local date, the result is a day off.
	intrinsics[dxlib+".Time2DelphiTime"] = func(w *Worker, fr *Frame, a []Val) Val {
		f := a[0].R.([]Val)
		wall, ext, off := f[0], f[1], w.zoneOffset(f[2])
		if wall.R == nil && ext.R == nil && off.R == nil {
			t := goTime(wall.N, ext.N)
			if off.N != 0 {
				t = t.In(time.FixedZone("", int(int64(off.N))))
			}
			return Val{N: math.Float64bits(time2delphi(t))}
		}
		w.eng.note("stub: DxCommonLib.Time2DelphiTime/ToTime are inverse on instants")
		if off.R != nil || off.N != 0 {
			w.eng.note("stub: Time2DelphiTime is a day off where the date in the time's location is not the local one")
			e, o := w.tm(ext, 64), w.tm(off, 64)
			day := w.tb.Const(64, 86400)
			loc := w.tb.Bin(OBAdd, w.tb.Bin(OBUrem, e, day), o)
			sh := w.tb.Ite(w.tb.Cmp(OSlt, loc, w.tb.Const(64, 0)), day,
				w.tb.Ite(w.tb.Cmp(OSle, day, loc), w.tb.Const(64, math.MaxUint64-86399), w.tb.Const(64, 0)))
			ext = w.fromT(w.tb.Bin(OBAdd, e, sh))
		}
		k := "delphi:" + valKey(wall) + ":" + valKey(ext)
		if v, ok := w.side[k]; ok {
			return v.(Val)
		}
		w1, e1 := w.tb.Eval(w.tm(wall, 64), w.model), w.tb.Eval(w.tm(ext, 64), w.model)
		d := w.fresh(64, math.Float64bits(time2delphi(goTime(w1, e1))))
		// finite and not negative for dates after 1899
		v := Val{R: d}
		w.side[k] = v
		w.side["undelphi:"+valKey(v)] = timeCell{wall, ext}
		return v
	}
	intrinsics["("+dxlib+".TDateTime).ToTime"] = func(w *Worker, fr *Frame, a []Val) Val {
		d := a[0]
		loc := w.localLoc()
		if d.R == nil {
			return w.timeOf(delphi2time(math.Float64frombits(d.N)), loc)
		}
		w.eng.note("stub: DxCommonLib.Time2DelphiTime/ToTime are inverse on instants, but for what ToTime cuts off below a millisecond")
		if v, ok := w.side["totime:"+valKey(d)]; ok {
			tc := v.(timeCell)
			return w.mkTime(tc.wall, tc.ext, loc)
		}
		if tc, off, ok := w.unDelphi(d); ok {
			tc = w.cutMs(tc, off)
			w.side["totime:"+valKey(d)] = tc
			return w.mkTime(tc.wall, tc.ext, loc)
		}
		// an unrelated double: some instant, millisecond precision
		t := delphi2time(math.Float64frombits(w.tb.Eval(d.term(), w.model)))
		ms := w.fresh(64, uint64(t.Nanosecond()/1000000))
		ext := w.fresh(64, uint64(t.Unix()+unixToInternal))
		w.assumeDef(w.tb.Cmp(OUlt, ms, w.tb.Const(64, 1000)))
		wall := w.fromT(w.tb.Bin(OBMul, ms, w.tb.Const(64, 1000000)))
		w.side["totime:"+valKey(d)] = timeCell{wall, Val{R: ext}}
		return w.mkTime(wall, Val{R: ext}, loc)
	}
	intrinsics["time.Date"] = func(w *Worker, fr *Frame, a []Val) Val {
		for i := 0; i < 7; i++ {
			if a[i].R != nil {
				w.unsup("time.Date on symbolic fields")
			}
		}
		n := func(i int) int { return int(int64(a[i].N)) }
		return w.timeOf(time.Date(n(0), time.Month(n(1)), n(2), n(3), n(4), n(5), n(6), time.UTC), a[7])
	}
	intrinsics["time.initLocal"] = func(w *Worker, fr *Frame, a []Val) Val {
		w.eng.note("stub: the local time zone is UTC")
		return Val{}
	}
	intrinsics["time.Now"] = func(w *Worker, fr *Frame, a []Val) Val {
		w.eng.note("stub: time.Now is an arbitrary instant between 2020 and 2040")
		s := w.fresh(64, uint64(1700000000+unixToInternal))
		ns := w.fresh(64, 123456789)
		w.assumeDef(w.tb.Cmp(OUlt, ns, w.tb.Const(64, 1000000000)))
		w.assumeDef(w.tb.Cmp(OUle, w.tb.Const(64, uint64(1577836800+unixToInternal)), s))
		w.assumeDef(w.tb.Cmp(OUlt, s, w.tb.Const(64, uint64(2208988800+unixToInternal))))
		return w.mkTime(Val{R: ns}, Val{R: s}, w.localLoc())
	}
}

func init() {
	intrinsics[dxlib+".FastString2Byte"] = func(w *Worker, fr *Frame, a []Val) Val {
		return Val{R: a[0].R, N: a[0].N, M: a[0].M | a[0].M<<32}
	}
	intrinsics[dxlib+".FastByte2String"] = func(w *Worker, fr *Frame, a []Val) Val {
		return Val{R: a[0].R, N: a[0].N, M: a[0].M & 0xffffffff}
	}
}

func init() {
	// ParserJsonTime on a known text "/Date(digits)/": the whole second plus the
	// current time's part of a second. Any other text runs the real code.
	shortcuts[dxlib+".ParserJsonTime"] = func(w *Worker, a []Val) (Val, bool) {
		s, ok := w.concStr(a[0])
		if !ok || !strings.HasPrefix(s, "/Date(") || !strings.HasSuffix(s, ")/") || len(s) < 9 || len(s) > 24 {
			return Val{}, false
		}
		s = s[6 : len(s)-2]
		if strings.Trim(s, "0123456789") != "" {
			return Val{}, false
		}
		sec, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return Val{}, false
		}
		if len(s) > 9 {
			sec /= 1000
		}
		if sec > 6942758400 {
			return Val{}, false
		}
		w.eng.note("stub: ParserJsonTime gives the whole second and any part of it")
		ns := w.fresh(64, 123456789)
		w.assumeDef(w.tb.Cmp(OUlt, ns, w.tb.Const(64, 1000000000)))
		d := w.fresh(64, math.Float64bits(time2delphi(time.Unix(sec, 123456789))))
		// not negative
		w.assumeDef(w.tb.Cmp(OUlt, d, w.tb.Const(64, math.Float64bits(1e6))))
		v := Val{R: d}
		w.side["undelphi:"+valKey(v)] = timeCell{Val{R: ns}, Val{N: uint64(sec + unixToInternal)}}
		return v, true
	}
}
