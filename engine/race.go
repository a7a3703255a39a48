package main

import (
	"fmt"
	"strings"
)

// Happens-before checking of the two goroutines of vxRun. Operations interleave
// as chosen by the path; within it every memory access carries its goroutine's
// vector clock, edges come from the pool, locks, atomics and sync.Map, and two
// accesses of one cell, one a write, unordered by those edges are a data race.

type vclock [2]uint32

func (a *vclock) join(b vclock) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

type raceCell struct {
	w, r   vclock // last write/read epoch of each goroutine (0: none)
	ws, rs [2]string
}

type raceKey struct {
	o any
	i uint64
}

type raceState struct {
	tid   int // 1, 2; 0 outside vxRun
	vc    [2]vclock
	cells map[raceKey]*raceCell
	sync  map[raceKey]*vclock
	hit   string
}

func (w *Worker) raceSite() string {
	s := w.where()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (w *Worker) raceAcc(o any, i uint64, write bool) {
	rs := w.race
	if rs == nil || rs.tid == 0 || rs.hit != "" || w.initing > 0 {
		return
	}
	me := rs.tid - 1
	ot := 1 - me
	k := raceKey{o, i}
	c := rs.cells[k]
	if c == nil {
		c = &raceCell{}
		rs.cells[k] = c
	}
	seen := rs.vc[me][ot]
	if c.w[ot] > seen {
		rs.hit = fmt.Sprintf("%s and write in %s", acc(write)+w.raceSite(), c.ws[ot])
		return
	}
	if write && c.r[ot] > seen {
		rs.hit = fmt.Sprintf("%s and read in %s", acc(write)+w.raceSite(), c.rs[ot])
		return
	}
	e := rs.vc[me][me]
	if write {
		if c.w[me] != e {
			c.w[me], c.ws[me] = e, w.raceSite()
		}
	} else if c.r[me] != e {
		c.r[me], c.rs[me] = e, w.raceSite()
	}
}

func acc(write bool) string {
	if write {
		return "write in "
	}
	return "read in "
}

func (w *Worker) raceRange(o *Obj, i, n int, write bool) {
	for k := 0; k < n; k++ {
		w.raceAcc(o, uint64(i+k), write)
	}
}

// raceRelease: what this goroutine did so far happens before an acquire of k.
func (w *Worker) raceRelease(o any, i uint64) {
	rs := w.race
	if rs == nil || rs.tid == 0 {
		return
	}
	me := rs.tid - 1
	k := raceKey{o, i}
	if rs.sync[k] == nil {
		rs.sync[k] = &vclock{}
	}
	rs.sync[k].join(rs.vc[me])
	rs.vc[me][me]++
}

func (w *Worker) raceAcquire(o any, i uint64) {
	rs := w.race
	if rs == nil || rs.tid == 0 {
		return
	}
	if v := rs.sync[raceKey{o, i}]; v != nil {
		rs.vc[rs.tid-1].join(*v)
	}
}

// raceItem: a Put of an item happens before the Get that returns it.
func (w *Worker) raceItem(v Val, put bool) {
	if w.race == nil {
		return
	}
	iv, ok := v.R.(*IfaceV)
	if !ok {
		return
	}
	o, ok := iv.v.R.(*Obj)
	if !ok {
		return
	}
	if put {
		w.raceRelease(o, 1<<40)
	} else {
		w.raceAcquire(o, 1<<40)
	}
}

// raceSync marks an operation that is its own synchronisation: nothing it does is a data access.
func raceSync(f func(w *Worker, fr *Frame, a []Val) Val) func(w *Worker, fr *Frame, a []Val) Val {
	return func(w *Worker, fr *Frame, a []Val) Val {
		if w.race == nil || w.race.tid == 0 || len(a) == 0 || a[0].R == nil {
			return f(w, fr, a)
		}
		t := w.race.tid
		o, i := a[0].R, a[0].N
		w.raceAcquire(o, i)
		w.race.tid = 0
		r := f(w, fr, a)
		w.race.tid = t
		w.raceRelease(o, i)
		return r
	}
}

// raceWrapSync is applied once all intrinsics are registered.
func raceWrapSync() {
	for n, f := range intrinsics {
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync.Map).") || strings.HasPrefix(n, "internal/runtime/atomic.") {
			intrinsics[n] = raceSync(f)
		}
	}
}

func init() {
	harnessFns["vxRun"] = func(w *Worker, fr *Frame, a []Val) Val {
		rs := &raceState{vc: [2]vclock{{1, 0}, {0, 1}}, cells: map[raceKey]*raceCell{}, sync: map[raceKey]*vclock{}}
		w.race = rs
		defer func() { rs.tid = 0 }()
		idx := [2]int{}
		for s := 0; s < slen(a[0]); s++ {
			b := a[0].obj().get(int(a[0].N) + s)
			t := 1
			if w.isTrue(w.tm(b, 0)) {
				t = 0
			}
			fs := a[1+t]
			f := fs.obj().get(int(fs.N) + idx[t])
			idx[t]++
			rs.tid = t + 1
			w.callVal(f, nil, fr, nil)
			rs.tid = 0
		}
		w.race = nil
		if rs.hit != "" {
			w.run_.addCand(&Cand{Harness: w.run_.name, Kind: "race", Label: "data race: " + rs.hit, Vals: w.vals(nil)})
		}
		return Val{}
	}
}
