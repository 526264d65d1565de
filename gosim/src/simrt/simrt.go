// Package simrt is the seam between generated Go code and the simulator: it decides the order of map iteration and
// which goroutine runs.
package simrt

import (
	"fmt"
	"iter"
	"sort"
)

// Err is one entry of the error list.
type Err struct{ Ref, Message string }

// Entry holds the entry points of one generated package.
type Entry struct {
	Parse     func(doc interface{}, ref string, cap uint64) (graph interface{}, errs []Err, empty bool, full bool)
	Serialize func(graph interface{}) (interface{}, error)
}

var Entries = map[string]Entry{}

func Register(name string, entry Entry) { Entries[name] = entry }

// -- order of map iteration ---------------------------------------------------------------------

// Order decides the order of map iteration: 0 is sorted, 1 is reversed, others are seeds.
var Order uint64

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Range iterates over the map in the order chosen by the simulator; it depends only on the seed and the keys.
func Range[K comparable, V any](m map[K]V) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		names := make(map[K]string, len(m))
		for k := range m {
			keys = append(keys, k)
			names[k] = fmt.Sprint(k)
		}
		sort.Slice(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
		if len(keys) > 1 {
			Iterations++
		}
		switch Order {
		case 0:
		case 1:
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		default:
			h := Order
			for _, k := range keys {
				for _, c := range []byte(names[k]) {
					h = mix(h ^ uint64(c))
				}
				h = mix(h)
			}
			for i := len(keys) - 1; i > 0; i-- {
				h = mix(h)
				j := int(h % uint64(i+1))
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Iterations counts the iterations over maps with more than one key.
var Iterations int

// -- goroutines ---------------------------------------------------------------------------------

type thread struct {
	wake chan struct{}
	done bool
}

// Schedule decides the switches: by a seed and a rate, or by the list of (step, thread) of an earlier run.
type Schedule struct {
	Seed uint64   `json:"seed"`
	Rate uint64   `json:"rate"`
	List [][2]int `json:"list"`
}

var (
	active    bool
	threads   []*thread
	cur       int
	Steps     int
	Performed [][2]int
	Places    []int
	plan      Schedule
	rng       uint64
	at        int
	allDone   chan struct{}
	// Stuck is set when no thread can make progress or the run is too long.
	Stuck   string
	waiting []bool
)

const maxSteps = 3000000

// Y is a point where another goroutine may run.
func Y(place int) {
	if active {
		step(place, false)
	}
}

// E is a point where another goroutine may run between the evaluation and the use of a value.
func E[T any](place int, value T) T {
	if active {
		step(place, false)
	}
	return value
}

// Wait is called while a goroutine cannot go on by itself.
func Wait() {
	if !active {
		panic("simulated goroutine waits for ever")
	}
	step(-1, true)
}

func next() uint64 {
	rng = mix(rng)
	return rng
}

func others() []int {
	out := []int{}
	for i, t := range threads {
		if i != cur && !t.done {
			out = append(out, i)
		}
	}
	return out
}

func step(place int, must bool) {
	Steps++
	if Steps > maxSteps {
		give("too many steps")
	}
	to := -1
	if plan.List != nil {
		for at < len(plan.List) && plan.List[at][0] < Steps {
			at++
		}
		if at < len(plan.List) && plan.List[at][0] == Steps {
			to = plan.List[at][1]
			at++
			if to < 0 || to >= len(threads) || threads[to].done || to == cur {
				to = -1
			}
		}
	} else if next()%plan.Rate == 0 {
		if ready := others(); len(ready) > 0 {
			to = ready[next()%uint64(len(ready))]
		}
	}
	if must {
		waiting[cur] = true
		if to < 0 {
			ready := others()
			if len(ready) == 0 {
				give("a goroutine waits for ever")
			}
			to = ready[Steps%len(ready)]
		}
		stuck := true
		for i, t := range threads {
			stuck = stuck && (t.done || waiting[i])
		}
		if stuck {
			rounds++
			if rounds > 1000*len(threads) {
				give("all goroutines wait for each other")
			}
		}
	} else {
		waiting[cur] = false
		rounds = 0
	}
	if to >= 0 {
		Performed = append(Performed, [2]int{Steps, to})
		Places = append(Places, place)
		me := threads[cur]
		cur = to
		threads[to].wake <- struct{}{}
		<-me.wake
	}
}

var rounds int

func give(why string) {
	Stuck = why
	allDone <- struct{}{}
	select {}
}

// Run runs the functions as goroutines of which exactly one at a time makes progress.
func Run(funs []func(), schedule Schedule) {
	threads, cur, Steps, Performed, Places, at, Stuck, rounds = nil, 0, 0, [][2]int{}, []int{}, 0, "", 0
	plan, rng = schedule, schedule.Seed
	if plan.Rate == 0 {
		plan.Rate = 1
	}
	allDone = make(chan struct{})
	waiting = make([]bool, len(funs))
	for range funs {
		threads = append(threads, &thread{wake: make(chan struct{})})
	}
	for i, fun := range funs {
		i, fun := i, fun
		go func() {
			<-threads[i].wake
			fun()
			threads[i].done = true
			ready := others()
			if len(ready) == 0 {
				active = false
				allDone <- struct{}{}
				return
			}
			Steps++
			to := ready[0]
			if plan.List == nil {
				to = ready[next()%uint64(len(ready))]
			} else if at < len(plan.List) && plan.List[at][0] == Steps {
				to = plan.List[at][1]
				at++
				if to < 0 || to >= len(threads) || threads[to].done {
					to = ready[0]
				}
			}
			Performed = append(Performed, [2]int{Steps, to})
			Places = append(Places, -2)
			cur = to
			threads[to].wake <- struct{}{}
		}()
	}
	active = true
	threads[0].wake <- struct{}{}
	<-allDone
	active = false
}
