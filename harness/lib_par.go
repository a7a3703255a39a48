package dxsvalue

import (
	"os"
	"time"
)

// vxPar runs the steps of a and of b as two goroutines, in every order of steps.
func vxPar(a, b []func()) {
	var order []bool
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		first := j == len(b)
		if i < len(a) && j < len(b) {
			first = vxBool()
		}
		if first {
			i++
		} else {
			j++
		}
		order = append(order, first)
	}
	vxRun(order, a, b)
}

// vxRun runs a and b in two goroutines; order[s] says whether step s is a's.
// Under the race detector time alone orders the steps, so that the schedule
// adds no synchronisation.
func vxRun(order []bool, a, b []func()) {
	const slot = 3 * time.Millisecond
	fs := [2][]func(){a, b}
	sleep := os.Getenv("VERIF_RACE") != ""
	turn := make([]chan struct{}, len(order)+1)
	for i := range turn {
		turn[i] = make(chan struct{})
	}
	done := make(chan interface{}, 2)
	start := time.Now()
	for t := 0; t < 2; t++ {
		go func(t int) {
			defer func() { done <- recover() }()
			k := 0
			for s, first := range order {
				if first != (t == 0) {
					continue
				}
				if sleep {
					time.Sleep(time.Until(start.Add(time.Duration(s+1) * slot)))
				} else {
					<-turn[s]
				}
				fs[t][k]()
				k++
				if !sleep {
					close(turn[s+1])
				}
			}
		}(t)
	}
	close(turn[0])
	for t := 0; t < 2; t++ {
		if x := <-done; x != nil {
			panic(x)
		}
	}
}
