// Package verifsched is the controlled scheduler that the instrumented copy
// of rodb calls. At most one registered goroutine runs at a time; at every
// point the exploration decides which one goes on. The hand-overs are hidden
// from the race detector (RaceDisable), so that its happens-before relation
// contains only the synchronisation of the code under test.
package verifsched

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	maxThreads = 4
	maxSteps   = 60000
	maxPlan    = 16
)

// Thread states.
const (
	ready    = iota
	waiting  // for a Mutex of this package
	external // blocked somewhere the scheduler does not know
	done
)

type thread struct {
	gid   uint64
	g     uintptr
	ch    chan struct{}
	state int
	on    *gate
}

// gate identifies what a thread waits for.
type gate struct{}

// Choice forces the thread To at the scheduling step Step.
type Choice struct{ Step, To int }

// Step is one scheduling decision of a run.
type Step struct {
	Thread  uint8 // chosen
	Enabled uint8 // bit mask of the threads that could be chosen
	Forced  bool  // the previous thread could not go on
	Place   int32
}

var (
	Places []string

	active   int32
	running  int32 // index of the running thread, -1 while all are blocked outside
	threads  [maxThreads]thread
	nthreads int
	plan     [maxPlan]Choice
	nplan    int
	Steps    [maxSteps]Step
	NSteps   int
	overflow bool
	doneCh   chan struct{}
	deadlock int32
	inside   int32 // a spin lock for the slow paths
)

//go:norace
func lockInside() {
	for !atomic.CompareAndSwapInt32(&inside, 0, 1) {
		runtime.Gosched()
	}
}

//go:norace
func unlockInside() { atomic.StoreInt32(&inside, 0) }

//go:norace
func goid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for i := len("goroutine "); i < n; i++ {
		c := buf[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// getg gives the address of the descriptor of the current goroutine.
func getg() uintptr

//go:norace
func me() int {
	id := getg()
	for i := 0; i < nthreads; i++ {
		if threads[i].g == id && threads[i].state != done {
			return i
		}
	}
	return -1
}

// P is a scheduling point.
//
//go:norace
func P(place int) {
	if atomic.LoadInt32(&active) == 0 {
		return
	}
	raceOff()
	if i := me(); i >= 0 {
		point(i, place)
	}
	raceOn()
}

//go:norace
func point(i, place int) {
	if threads[i].state == external {
		comeBack(i)
	}
	next := decide(i, place, false)
	if next != i && next >= 0 {
		switchTo(i, next)
	}
}

// comeBack makes a thread that was blocked outside schedulable again, and
// waits for its turn.
//
//go:norace
func comeBack(i int) {
	lockInside()
	threads[i].state = ready
	if running < 0 {
		running = int32(i)
		unlockInside()
		return
	}
	unlockInside()
	<-threads[i].ch
}

//go:norace
func enabledMask() uint8 {
	var m uint8
	for k := 0; k < nthreads; k++ {
		if threads[k].state == ready {
			m |= 1 << uint(k)
		}
	}
	return m
}

// decide records a step and gives the thread to run: from is the current
// thread, forced says that it cannot go on.
//
//go:norace
func decide(from, place int, forced bool) int {
	lockInside()
	defer unlockInside()
	return decideLocked(from, place, forced)
}

// decideLocked also says who runs: it is called with the lock, so that a
// thread coming back from outside sees either the decision or its absence.
//
//go:norace
func decideLocked(from, place int, forced bool) int {
	m := enabledMask()
	if m == 0 {
		atomic.StoreInt32(&running, -1)
		return -1
	}
	next := from
	if forced || m&(1<<uint(from)) == 0 {
		for k := 0; k < nthreads; k++ {
			if m&(1<<uint(k)) != 0 {
				next = k
				break
			}
		}
	}
	for k := 0; k < nplan; k++ {
		if plan[k].Step == NSteps && m&(1<<uint(plan[k].To)) != 0 {
			next = plan[k].To
		}
	}
	if NSteps < maxSteps {
		Steps[NSteps] = Step{uint8(next), m, forced, int32(place)}
	} else {
		overflow = true
	}
	NSteps++
	atomic.StoreInt32(&running, int32(next))
	return next
}

//go:norace
func switchTo(from, to int) {
	threads[to].ch <- struct{}{}
	<-threads[from].ch
}

// block is called by the running thread when it waits for a gate. It gives
// true when the thread got what it waits for in the meantime.
//
//go:norace
func block(i int, gp **gate, try func() bool) bool {
	lockInside()
	if threads[i].state == external {
		unlockInside()
		comeBack(i)
		return false
	}
	if *gp == nil {
		*gp = new(gate)
	}
	// Someone who is not scheduled here may have released it.
	raceOn()
	ok := try()
	raceOff()
	if ok {
		unlockInside()
		return true
	}
	threads[i].state = waiting
	threads[i].on = *gp
	next := decideLocked(i, -1, true)
	stuck := next < 0 && allBlocked()
	unlockInside()
	if next >= 0 {
		threads[next].ch <- struct{}{}
	} else if stuck {
		declare()
	}
	<-threads[i].ch
	return false
}

// allBlocked: nothing can be scheduled. It is a deadlock unless a thread
// blocked outside can still come back.
//
//go:norace
func allBlocked() bool {
	for k := 0; k < nthreads; k++ {
		if threads[k].state == external {
			return false
		}
	}
	return true
}

//go:norace
func declare() {
	if atomic.CompareAndSwapInt32(&deadlock, 0, 1) {
		doneCh <- struct{}{}
	}
}

//go:norace
func wake(gp **gate) {
	lockInside()
	g := *gp
	for k := 0; k < nthreads; k++ {
		if g != nil && threads[k].state == waiting && threads[k].on == g {
			threads[k].state = ready
		}
	}
	next := -1
	if running < 0 {
		// The unlocking goroutine is not scheduled here: restart someone.
		next = decideLocked(0, -1, true)
	}
	unlockInside()
	if next >= 0 {
		threads[next].ch <- struct{}{}
	}
}

//go:norace
func finish(i int) {
	lockInside()
	mine := running == int32(i) || running < 0
	threads[i].state = done
	left := 0
	for k := 0; k < nthreads; k++ {
		if threads[k].state != done {
			left++
		}
	}
	next, stuck := -1, false
	if left > 0 && mine {
		next = decideLocked(i, -1, true)
		stuck = next < 0 && allBlocked()
	}
	unlockInside()
	switch {
	case left == 0:
		doneCh <- struct{}{}
	case next >= 0:
		threads[next].ch <- struct{}{}
	case stuck:
		declare()
	}
}

// Run executes the bodies under the plan. It returns whether they deadlocked
// (in which case the process cannot be used any more) and whether some thread
// was blocked outside of the scheduler.
//
//go:norace
func Run(bodies []func(), p []Choice) (dead bool, externals int, stacks string) {
	nthreads = len(bodies)
	nplan = copy(plan[:], p)
	NSteps = 0
	overflow = false
	deadlock = 0
	doneCh = make(chan struct{}, 4)
	started := make(chan struct{}, maxThreads)
	for i := range bodies {
		threads[i] = thread{ch: make(chan struct{}, 1)}
	}
	ended := make([]chan struct{}, len(bodies))
	for i := range bodies {
		ended[i] = make(chan struct{}, 1)
		go threadMain(i, bodies[i], started, ended[i])
	}
	for range bodies {
		<-started
	}
	raceOff()
	atomic.StoreInt32(&active, 1)
	first := decide(0, -1, true)
	threads[first].ch <- struct{}{}
	lastSteps, lastRunning, quiet, idle := -1, int32(-2), 0, 0
	over := false
	timer := time.NewTicker(3 * time.Millisecond)
	for !over {
		select {
		case <-doneCh:
			over = true
		case <-timer.C:
			lockInside()
			s, r := NSteps, running
			unlockInside()
			if s != lastSteps || r != lastRunning {
				lastSteps, lastRunning, quiet, idle = s, r, 0, 0
				continue
			}
			if r >= 0 {
				if !parked(threads[r].gid) {
					quiet = 0
					continue
				}
				if quiet++; quiet < 3 {
					continue
				}
				quiet = 0
				lockInside()
				if NSteps != s || running != r || threads[r].state != ready {
					unlockInside()
					continue
				}
				externals++
				threads[r].state = external
				next := decideLocked(int(r), -1, true)
				unlockInside()
				if next >= 0 {
					threads[next].ch <- struct{}{}
				}
				continue
			}
			// Everybody waits: is it for ever?
			all := true
			for k := 0; k < nthreads; k++ {
				if threads[k].state != done && !parked(threads[k].gid) {
					all = false
				}
			}
			if !all {
				idle = 0
			} else if idle++; idle > 1500 {
				atomic.StoreInt32(&deadlock, 1)
				over = true
			}
		}
	}
	timer.Stop()
	atomic.StoreInt32(&active, 0)
	raceOn()
	if atomic.LoadInt32(&deadlock) != 0 {
		buf := make([]byte, 1<<18)
		return true, externals, string(buf[:runtime.Stack(buf, true)])
	}
	// A synchronisation that the race detector knows: the results can be read.
	for i := range ended {
		<-ended[i]
	}
	return false, externals, ""
}

//go:norace
func threadMain(i int, body func(), started, ended chan struct{}) {
	raceOff()
	threads[i].gid = goid()
	threads[i].g = getg()
	raceOn()
	started <- struct{}{}
	raceOff()
	<-threads[i].ch
	raceOn()
	defer func() {
		ended <- struct{}{}
		raceOff()
		finish(i)
		raceOn()
	}()
	body()
}

// parked says whether a goroutine waits for something (rather than running or
// being in a system call).
//
//go:norace
func parked(gid uint64) bool {
	buf := make([]byte, 1<<18)
	s := string(buf[:runtime.Stack(buf, true)])
	head := "goroutine " + utoa(gid) + " ["
	k := strings.Index(s, head)
	if k < 0 {
		return false
	}
	s = s[k+len(head):]
	if e := strings.IndexAny(s, "],"); e >= 0 {
		s = s[:e]
	}
	switch s {
	case "chan receive", "chan send", "select", "sync.Cond.Wait", "sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait", "semacquire",
		"chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		return true
	}
	return false
}

func utoa(v uint64) string {
	if v == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for v > 0 {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return string(b[i:])
}

// Mutex is a sync.Mutex whose waiting is known to the scheduler.
type Mutex struct {
	m sync.Mutex
	g *gate
}

const (
	placeLock   = -2
	placeUnlock = -3
)

//go:norace
func acquire(try func() bool, slow func(), gp **gate) {
	if atomic.LoadInt32(&active) == 0 {
		slow()
		return
	}
	raceOff()
	i := me()
	if i >= 0 {
		point(i, placeLock)
	}
	raceOn()
	if i < 0 {
		slow()
		return
	}
	for !try() {
		raceOff()
		ok := block(i, gp, try)
		raceOn()
		if ok {
			return
		}
	}
}

//go:norace
func release(gp **gate) {
	if atomic.LoadInt32(&active) == 0 {
		return
	}
	raceOff()
	wake(gp)
	if i := me(); i >= 0 {
		point(i, placeUnlock)
	}
	raceOn()
}

func (m *Mutex) Lock()         { acquire(m.m.TryLock, m.m.Lock, &m.g) }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock() {
	m.m.Unlock()
	release(&m.g)
}

// RWMutex is the same for a sync.RWMutex.
type RWMutex struct {
	m sync.RWMutex
	g *gate
}

func (m *RWMutex) Lock()          { acquire(m.m.TryLock, m.m.Lock, &m.g) }
func (m *RWMutex) RLock()         { acquire(m.m.TryRLock, m.m.RLock, &m.g) }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	release(&m.g)
}
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	release(&m.g)
}
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Order chooses the order of an iteration over a map: it receives the site
// and the sorted keys, and may permute them. nil keeps them sorted.
var Order func(site string, keys []string)

// Keys gives the keys of a map with string keys, in the order to iterate.
func Keys(site string, m interface{}) []string {
	v := reflect.ValueOf(m)
	keys := make([]string, 0, v.Len())
	for _, k := range v.MapKeys() {
		keys = append(keys, k.String())
	}
	sort.Strings(keys)
	if Order != nil && len(keys) > 1 {
		Order(site, keys)
	}
	return keys
}

// KeysAny is Keys for any type of key.
func KeysAny(site string, m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	values := v.MapKeys()
	byText := make(map[string]interface{}, len(values))
	keys := make([]string, 0, len(values))
	for i, k := range values {
		text := fmt.Sprintf("%T %v", k.Interface(), k.Interface())
		switch k.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			text = fmt.Sprintf("%020d", k.Int())
		}
		if _, twice := byText[text]; twice {
			text += fmt.Sprintf(" %d", i)
		}
		byText[text] = k.Interface()
		keys = append(keys, text)
	}
	sort.Strings(keys)
	if Order != nil && len(keys) > 1 {
		Order(site, keys)
	}
	out := make([]interface{}, len(keys))
	for i, k := range keys {
		out[i] = byText[k]
	}
	return out
}
