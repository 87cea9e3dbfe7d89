package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"time"
)

// interleave runs the workers one at a time, switching between them at their
// steps as the generator says. A worker that does not come back (it waits for
// a lock another one holds) is left waiting while the others go on.
func interleave(r *rand.Rand, density int, runs []func(step func())) (trace string, switches int) {
	type msg struct {
		id   int
		done bool
	}
	n := len(runs)
	yield := make(chan msg)
	resume := make([]chan int, n)
	for i := range runs {
		resume[i] = make(chan int, 1)
		go func() {
			left := <-resume[i]
			defer func() { yield <- msg{i, true} }()
			runs[i](func() {
				if left > 0 {
					left--
					return
				}
				yield <- msg{i, false}
				left = <-resume[i]
			})
		}()
	}
	ready := make([]int, n)
	for i := range ready {
		ready[i] = i
	}
	h := fnv.New64a()
	alive, busy := n, 0
	last := -1
	for alive > 0 {
		if len(ready) > 0 {
			k := r.Intn(len(ready))
			id := ready[k]
			ready = append(ready[:k], ready[k+1:]...)
			left := 0
			switch density {
			case 0:
			case 1:
				left = r.Intn(4)
			case 2:
				left = r.Intn(60)
			case 3:
				left = r.Intn(3000)
			case 4: // long stretches broken by bursts
				if r.Intn(200) == 0 {
					left = 20000
				}
			}
			if id != last {
				switches++
				if switches < 20000 {
					fmt.Fprint(h, id, left, ";")
				}
			}
			last = id
			resume[id] <- left
			busy++
		}
		limit := 100 * time.Millisecond
		if len(ready) == 0 {
			limit = 5 * time.Minute
		}
		select {
		case m := <-yield:
			busy--
			if m.done {
				alive--
			} else {
				ready = append(ready, m.id)
			}
		case <-time.After(limit):
			if limit > time.Minute {
				panic("the workers are stuck")
			}
		}
	}
	return fmt.Sprintf("%x", h.Sum64()), switches
}
