package pbt

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Budget of one tier
type Budget struct {
	Cases  int // total over all workers
	MaxSec int // soft wall limit of the search (what is left is not run)
}

// Prop is one property
type Prop struct {
	ID          string
	Title       string
	Rule        string // how cases are made, what is non-trivial
	Assumptions []string
	Gen         func(r *R) any // returns a pointer to a scenario
	New         func() any     // empty scenario to unmarshal into
	Run         func(c *C, sc any)
	NoBubble    bool // runs on the real clock and network
	Race        bool // build with the race detector (done by check.sh)
	Workers     int  // 0: 8
	Quick       Budget
	Thorough    Budget
	Extra       map[string]any // extra evidence
	Exhaustive  bool
	Fixed       []any // scenarios run first on every run (regressions); part of the evaluations
}

// Props is the registry
var Props = map[string]*Prop{}

// Register a property
func Register(p *Prop) {
	if Props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	Props[p.ID] = p
}

// IDs of all registered properties
func IDs() []string {
	var out []string
	for id := range Props {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// C is the context of one case
type C struct {
	T          *testing.T
	Bubble     bool
	mu         sync.Mutex
	fail       string
	labels     map[string]int
	nontrivial bool
	cleanups   []func()
	logbuf     []string
	start      time.Time
	stopped    bool
	Tag        any // free for the property
}

type abort struct{}

// Failf records a failure (the first one counts)
func (c *C) Failf(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	c.mu.Lock()
	if c.fail == "" && !c.stopped {
		c.fail = msg
	}
	c.mu.Unlock()
}

// Fatalf records a failure and ends the calling goroutine's part of the case
func (c *C) Fatalf(format string, args ...any) {
	c.Failf(format, args...)
	panic(abort{})
}

// Failed tells
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.fail != ""
}

// FailMsg is the failure
func (c *C) FailMsg() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.fail
}

// Label counts a class of cases
func (c *C) Label(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.labels[s]++
	c.mu.Unlock()
}

// NonTrivial marks the case as non-trivial by the property's rule
func (c *C) NonTrivial() {
	c.mu.Lock()
	c.nontrivial = true
	c.mu.Unlock()
}

// Logf is kept for the replay file
func (c *C) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	if len(c.logbuf) < 200 {
		c.logbuf = append(c.logbuf, fmt.Sprintf("[%v] %s", time.Since(c.start), s))
	}
	c.mu.Unlock()
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "[%v] %s\n", time.Since(c.start), s)
	}
}

// Cleanup registers f to run at the end of the case, last first
func (c *C) Cleanup(f func()) {
	c.mu.Lock()
	c.cleanups = append(c.cleanups, f)
	c.mu.Unlock()
}

// Recover must be deferred in goroutines which may call Fatalf
func (c *C) Recover() {
	if e := recover(); e != nil {
		if _, ok := e.(abort); !ok {
			panic(e)
		}
	}
}

// Go runs f in a goroutine and returns a channel closed when it ends
func (c *C) Go(f func()) <-chan struct{} {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer c.Recover()
		f()
	}()
	return done
}

// Long is the virtual time after which a call that must return counts as hung
const Long = time.Hour

// Do runs f and waits for it up to timeout
func (c *C) Do(timeout time.Duration, f func()) bool {
	return c.WaitDone(c.Go(f), timeout)
}

// MustDo fails the case when f does not return within Long
func (c *C) MustDo(what string, f func()) {
	if !c.Do(Long, f) {
		c.Fatalf("%s did not return", what)
	}
}

// WaitDone waits for a channel up to timeout
func (c *C) WaitDone(ch <-chan struct{}, timeout time.Duration) bool {
	tm := time.NewTimer(timeout)
	defer tm.Stop()
	select {
	case <-ch:
		return true
	case <-tm.C:
		select {
		case <-ch:
			return true
		default:
		}
		return false
	}
}

// Quiesce waits until every other goroutine of the bubble is blocked
func (c *C) Quiesce() {
	if c.Bubble {
		synctest.Wait()
	} else {
		time.Sleep(20 * time.Millisecond)
	}
}

// Sleep d of virtual time, then quiesce
func (c *C) Sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	c.Quiesce()
}

// Now is the time since the start of the case
func (c *C) Now() time.Duration { return time.Since(c.start) }

// Goroutines returns the stacks of goroutines which mention pkg
func Goroutines(pkg string) []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, pkg) {
			out = append(out, g)
		}
	}
	return out
}

// Result of a case
type Result struct {
	Fail       string
	Labels     map[string]int
	NonTrivial bool
	Log        []string
}

// Exec runs one case
func Exec(t *testing.T, p *Prop, sc any) Result {
	c := &C{T: t, Bubble: !p.NoBubble, labels: map[string]int{}, start: time.Now()}
	run := func() {
		defer c.Recover()
		p.Run(c, sc)
	}
	run()
	c.mu.Lock()
	c.stopped = true
	cl := c.cleanups
	c.mu.Unlock()
	for i := len(cl) - 1; i >= 0; i-- {
		cl[i]()
	}
	if c.Bubble {
		synctest.Wait()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return Result{Fail: c.fail, Labels: c.labels, NonTrivial: c.nontrivial, Log: c.logbuf}
}

// Yield is a perturbation point: it gives up the processor now and then, as a
// function of a per-case seed and a counter.
func Yield() {
	if RaceEnabled {
		// the shared counter would order what it must not order
		if rand.IntN(4) == 0 {
			runtime.Gosched()
		}
		return
	}
	k := yieldCtr.Add(1)
	z := (k ^ yieldSeed.Load()) * 0xbf58476d1ce4e5b9
	z ^= z >> 29
	z *= 0x94d049bb133111eb
	z ^= z >> 32
	if z%uint64(yieldMod.Load()) == 0 {
		runtime.Gosched()
	}
}
