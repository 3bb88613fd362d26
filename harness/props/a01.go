package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"

	"github.com/zhiqiangxu/qrpc"
)

// ---- A01: the balancing API

const (
	aOne = iota
	aCallK
	aAll
	aStop
	aStart
	aBreak
	aUnknown
	aKinds
)

const (
	aAnswer = iota
	aPanic
	aDrop // closes the connection unanswered
	aOpen // answers with a stream which is left open for a while
	aBehs
)

type aOp struct {
	Kind  int
	Ep    int
	Delay int // ms before the handler answers
	Ctx   int // ms after which the caller's context ends, 0: never
	Beh   int
	Pay   Pay
	At    int // ms, for concurrent ones
}

type a01 struct {
	N       int
	Weights []int
	Down    []bool // at the start
	Ops     []aOp
	Chaos   [][]aOp // concurrent callers
	Faults  []aOp   // meanwhile
	CloseAt int     // ms within the chaos, 0: afterwards
	Burst   int     // balanced calls at the end
}

func genA01(r *pbt.R) any {
	s := &a01{N: r.Range(1, 4)}
	if r.P(1, 2) {
		for i := 0; i < s.N; i++ {
			s.Weights = append(s.Weights, pbt.Pick(r, 0, 1, 1, 2, 5, r.Intn(20)))
		}
		s.Weights[r.Intn(s.N)] = r.Range(1, 5)
	}
	for i := 0; i < s.N; i++ {
		s.Down = append(s.Down, r.P(1, 4))
	}
	call := func() aOp {
		o := aOp{Kind: r.W(4, 6, 2), Ep: r.Intn(s.N), Pay: Pay{N: r.Len(300), S: uint64(r.Intn(1000))}}
		if r.P(1, 4) {
			o.Delay = r.Range(1, 20)
		}
		if r.P(1, 4) {
			o.Ctx = r.Range(1, 20)
		}
		if r.P(1, 6) {
			o.Beh = r.Intn(aBehs)
		}
		return o
	}
	fault := func() aOp { return aOp{Kind: pbt.Pick(r, aStop, aStart, aStart, aBreak), Ep: r.Intn(s.N)} }
	for n := r.N(2, 25); n > 0; n-- {
		switch r.W(6, 4, 1) {
		case 0:
			s.Ops = append(s.Ops, call())
		case 1:
			s.Ops = append(s.Ops, fault())
		default:
			s.Ops = append(s.Ops, aOp{Kind: aUnknown, Ep: r.Intn(3)})
		}
	}
	if r.P(1, 2) {
		for g := r.Range(2, 6); g > 0; g-- {
			var l []aOp
			for n := r.N(1, 6); n > 0; n-- {
				o := call()
				o.At = r.Intn(8)
				l = append(l, o)
			}
			s.Chaos = append(s.Chaos, l)
		}
		for n := r.Intn(6); n > 0; n-- {
			o := fault()
			o.At = r.Intn(25)
			s.Faults = append(s.Faults, o)
		}
		if r.P(1, 4) {
			s.CloseAt = r.Range(1, 30)
		}
	}
	if r.P(1, 30) {
		s.Burst = 1000
	}
	return s
}

type aCall struct {
	by  []int // endpoints which handled it
	lim bool
}

type aState struct {
	c     *pbt.C
	s     *a01
	w     *World
	mu    sync.Mutex
	calls map[uint64]*aCall
	next  uint64
	srv   []*Srv
	dials []*vnet.Conn
}

func aName(i int) string { return fmt.Sprintf("ep%d", i) }

func (x *aState) start(i int) {
	ep := i
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if len(f.Payload) < 10 {
			x.c.Failf("endpoint %d got a request nobody sent", ep)
			return
		}
		id := binary.BigEndian.Uint64(f.Payload)
		x.mu.Lock()
		cl := x.calls[id]
		if cl != nil {
			cl.by = append(cl.by, ep)
		}
		x.mu.Unlock()
		if cl == nil || f.Cmd != 5 {
			x.c.Failf("endpoint %d got a request nobody sent", ep)
			return
		}
		if d := f.Payload[8]; d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		fl := qrpc.FrameFlag(0)
		switch f.Payload[9] {
		case aPanic:
			panic("planned")
		case aDrop:
			f.Close()
			return
		case aOpen:
			fl = qrpc.StreamFlag
		}
		w.StartWrite(f.RequestID, 6, fl)
		w.WriteBytes(append([]byte{byte(ep)}, f.Payload...))
		w.EndWrite()
	})
	x.srv[i] = x.w.serve(qrpc.ServerBinding{Addr: aName(i), Handler: h})
}

func (x *aState) stop(i int) {
	srv := x.srv[i]
	x.srv[i] = nil
	if !x.c.Do(time.Minute, func() { srv.Shutdown() }) {
		x.c.Fatalf("Shutdown hangs")
	}
}

func (x *aState) payload(o aOp) (uint64, *aCall, []byte) {
	x.mu.Lock()
	x.next++
	id := x.next
	cl := &aCall{}
	x.calls[id] = cl
	x.mu.Unlock()
	b := binary.BigEndian.AppendUint64(nil, id)
	b = append(b, byte(clamp(o.Delay, 0, 200)), byte(clamp(o.Beh, 0, aBehs-1)))
	o.Pay.N = clamp(o.Pay.N, 0, 10000)
	return id, cl, append(b, o.Pay.Bytes()...)
}

// result checks one answer against who handled the call
func (x *aState) result(what string, f *qrpc.Frame, cl *aCall, ep int, b []byte) int {
	if f == nil {
		x.c.Fatalf("%s: neither frame nor error", what)
	}
	if len(f.Payload) == 0 || f.Cmd != 6 || !bytes.Equal(f.Payload[1:], b) {
		x.c.Fatalf("%s: answer of another call: %v %s", what, f.Cmd, short(f.Payload))
	}
	by := int(f.Payload[0])
	if ep >= 0 && by != ep {
		x.c.Fatalf("%s: answered by endpoint %d", what, by)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, e := range cl.by {
		if e == by {
			return by
		}
	}
	x.c.Fatalf("%s: answered by endpoint %d which did not handle it", what, by)
	return 0
}

func (x *aState) ctx(o aOp) (context.Context, func()) {
	if o.Ctx <= 0 {
		return context.Background(), func() {}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(clamp(o.Ctx, 1, 1000))*time.Millisecond+time.Millisecond/2)
	return ctx, cancel
}

func (x *aState) weight(i int) int {
	if len(x.s.Weights) == 0 {
		return 1
	}
	return x.s.Weights[i]
}

// closable tells which endpoints a live connection leads to
func (x *aState) connected() map[int]int {
	out := map[int]int{}
	for i, srv := range x.srv {
		if srv == nil {
			continue
		}
		n := 0
		srv.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { n++; return true })
		if n > 0 {
			out[i] = n
		}
	}
	return out
}

func runA01(c *pbt.C, sc any) {
	s := sc.(*a01)
	s.N = clamp(s.N, 1, 6)
	for len(s.Down) < s.N {
		s.Down = append(s.Down, false)
	}
	if len(s.Weights) > 0 {
		sum := 0
		for i := range s.Weights {
			s.Weights[i] = clamp(s.Weights[i], 0, 100)
		}
		for len(s.Weights) < s.N {
			s.Weights = append(s.Weights, 1)
		}
		s.Weights = s.Weights[:s.N]
		for _, v := range s.Weights {
			sum += v
		}
		if sum == 0 {
			s.Weights[0] = 1
		}
	}
	w := newWorld(c)
	x := &aState{c: c, s: s, w: w, calls: map[uint64]*aCall{}, srv: make([]*Srv, s.N)}
	var eps []string
	for i := 0; i < s.N; i++ {
		eps = append(eps, aName(i))
		if !s.Down[i] {
			x.start(i)
		}
	}
	var o NetOpt
	o.C2S.Buf, o.S2C.Buf = 1<<20, 1<<20
	conf := qrpc.ConnectionConfig{OverlayNetwork: w.overlay(o, func(a, _ *vnet.Conn) {
		x.mu.Lock()
		x.dials = append(x.dials, a)
		x.mu.Unlock()
	})}
	var weights []int
	if len(s.Weights) > 0 {
		weights = append(weights, s.Weights...)
	}
	api := qrpc.NewAPI(eps, conf, weights)
	c.Cleanup(func() { api.Close() })
	eps[0] = "changed by the caller"
	c.Quiesce()
	faults, recovered := 0, false
	wasDown := map[int]bool{}
	for i := range s.Down[:s.N] {
		wasDown[i] = s.Down[i]
	}
	call := func(what string, o aOp) {
		live := x.connected()
		up := map[int]bool{}
		for i, srv := range x.srv {
			up[i] = srv != nil
		}
		id, cl, b := x.payload(o)
		_ = id
		ctx, cancel := x.ctx(o)
		defer cancel()
		t0 := c.Now()
		// how one attempt on a live endpoint ends
		wait := time.Duration(clamp(o.Delay, 0, 200)) * time.Millisecond
		timeout := false
		if o.Ctx > 0 {
			if d := time.Duration(clamp(o.Ctx, 1, 1000))*time.Millisecond + time.Millisecond/2; d < wait {
				wait, timeout = d, true
			}
		}
		bad := o.Beh == aPanic || o.Beh == aDrop
		single := func(what string, ep int, f *qrpc.Frame, err error, by []int) {
			switch {
			case !up[ep]:
				if err == nil || len(by) > 0 {
					c.Fatalf("%s: endpoint is down, got %v, handled by %v", what, err, by)
				}
			case timeout:
				if !errors.Is(err, context.DeadlineExceeded) {
					c.Fatalf("%s: ended with %v instead of the context's error", what, err)
				}
			case bad:
				if err != qrpc.ErrStreamClosed {
					c.Fatalf("%s: ended with %v although it was reset", what, err)
				}
			case err != nil:
				c.Fatalf("%s: %v although the endpoint is up", what, err)
			default:
				x.result(what, f, cl, ep, b)
			}
			if up[ep] {
				n := 0
				for _, e := range by {
					if e == ep {
						n++
					}
				}
				if n != 1 {
					c.Fatalf("%s: handled %d times by endpoint %d (%v)", what, n, ep, by)
				}
			}
			if err == nil && wasDown[ep] {
				recovered = true
			}
		}
		handled := func() []int {
			x.mu.Lock()
			defer x.mu.Unlock()
			return append([]int(nil), cl.by...)
		}
		switch o.Kind {
		case aOne:
			ep := clamp(o.Ep, 0, s.N-1)
			var (
				f   *qrpc.Frame
				err error
			)
			if !c.Do(time.Minute, func() { f, err = api.CallOne(ctx, aName(ep), 5, b) }) {
				c.Fatalf("%s: CallOne hangs", what)
			}
			if d := c.Now() - t0; up[ep] && d != wait || !up[ep] && d != 0 {
				c.Fatalf("%s: CallOne took %v, not %v", what, d, wait)
			}
			by := handled()
			single(fmt.Sprintf("%s: CallOne(%s)", what, aName(ep)), ep, f, err, by)
			for _, e := range by {
				if e != ep {
					c.Fatalf("%s: CallOne of endpoint %d was handled by %v", what, ep, by)
				}
			}
		case aAll:
			var res map[string]*qrpc.APIResult
			if !c.Do(time.Minute, func() { res = api.CallAll(ctx, 5, b) }) {
				c.Fatalf("%s: CallAll hangs", what)
			}
			if len(res) != s.N {
				c.Fatalf("%s: CallAll of %d endpoints has %d results", what, s.N, len(res))
			}
			by := handled()
			for ep := 0; ep < s.N; ep++ {
				r := res[aName(ep)]
				if r == nil {
					c.Fatalf("%s: CallAll has no result of endpoint %d", what, ep)
				}
				var mine []int
				for _, e := range by {
					if e == ep {
						mine = append(mine, e)
					}
				}
				single(fmt.Sprintf("%s: CallAll, endpoint %d", what, ep), ep, r.Frame, r.Err, mine)
			}
		case aCallK:
			var (
				f   *qrpc.Frame
				err error
			)
			if !c.Do(time.Minute, func() { f, err = api.Call(ctx, 5, b) }) {
				c.Fatalf("%s: Call hangs", what)
			}
			by := handled()
			allUp := true
			for i := range up {
				if !up[i] && x.weight(i) > 0 {
					allUp = false
				}
			}
			must := allUp || len(live) > 0
			switch {
			case err == nil:
				x.result(what+": Call", f, cl, -1, b)
				if timeout || bad {
					c.Fatalf("%s: Call succeeded although its handler does not answer", what)
				}
				if wasDown[by[0]] {
					recovered = true
				}
			case must && !timeout && !bad:
				c.Fatalf("%s: Call failed with %v; up: %v, connected: %v", what, err, up, live)
			case timeout && len(by) > 0 && !errors.Is(err, context.DeadlineExceeded):
				c.Fatalf("%s: Call ended with %v instead of the context's error", what, err)
			}
			if bad && !timeout {
				// an attempt which was reset may be repeated elsewhere
				if len(by) > s.N+1 {
					c.Fatalf("%s: Call was handled %d times", what, len(by))
				}
				break
			}
			if len(by) > 1 || must && len(by) == 0 {
				c.Fatalf("%s: Call was handled by %v", what, by)
			}
			if d := c.Now() - t0; len(by) == 1 && d != wait {
				c.Fatalf("%s: Call took %v, not %v", what, d, wait)
			}
			if allUp && x.weight(by[0]) == 0 {
				c.Fatalf("%s: Call was handled by endpoint %d of weight 0", what, by[0])
			}
			if !allUp && err == nil {
				c.Label("balanced with endpoints down")
			}
		}
		// let what was abandoned finish
		c.Sleep(time.Duration(clamp(o.Delay, 0, 200)+1) * time.Millisecond)
		if n := len(handled()); n > 1 && o.Kind == aOne {
			c.Fatalf("%s: handled %d times in the end", what, n)
		}
		for ep, n := range x.connected() {
			if n > 1 {
				c.Fatalf("%s: %d connections to endpoint %d", what, n, ep)
			}
		}
	}
	inject := func(o aOp) {
		ep := clamp(o.Ep, 0, s.N-1)
		switch o.Kind {
		case aStop:
			if x.srv[ep] != nil {
				x.stop(ep)
				wasDown[ep] = true
				faults++
			}
		case aStart:
			if x.srv[ep] == nil {
				x.start(ep)
			}
		case aBreak:
			if x.srv[ep] != nil {
				x.srv[ep].WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.Close(); return true })
				faults++
			}
		}
	}
	for i, o := range s.Ops {
		what := fmt.Sprintf("step %d", i)
		switch k := clamp(o.Kind, 0, aKinds-1); k {
		case aStop, aStart, aBreak:
			inject(o)
			c.Sleep(time.Millisecond)
		case aUnknown:
			name := []string{"nobody", "", "changed by the caller"}[clamp(o.Ep, 0, 2)]
			if _, err := api.CallOne(context.Background(), name, 5, make([]byte, 10)); err != qrpc.ErrEndPointNotExists {
				c.Fatalf("%s: CallOne of an unknown endpoint returns %v", what, err)
			}
		default:
			o.Kind = k
			call(what, o)
		}
	}
	if len(s.Chaos) > 0 {
		t0 := c.Now()
		var waits []<-chan struct{}
		for g, l := range s.Chaos {
			g, l := g, l
			waits = append(waits, c.Go(func() {
				for i, o := range l {
					time.Sleep(time.Duration(clamp(o.At, 0, 100)) * time.Millisecond)
					what := fmt.Sprintf("caller %d, call %d", g, i)
					_, cl, b := x.payload(o)
					ctx, cancel := x.ctx(o)
					start := c.Now()
					check := func(ep int, f *qrpc.Frame, err error) {
						if err == nil {
							x.result(what, f, cl, ep, b)
						}
					}
					limit := time.Duration(clamp(o.Delay, 0, 200)) * time.Millisecond
					switch o.Kind {
					case aOne:
						ep := clamp(o.Ep, 0, s.N-1)
						f, err := api.CallOne(ctx, aName(ep), 5, b)
						check(ep, f, err)
					case aAll:
						res := api.CallAll(ctx, 5, b)
						for ep := 0; ep < s.N; ep++ {
							if r := res[aName(ep)]; r == nil {
								c.Failf("%s: no result of endpoint %d", what, ep)
							} else {
								check(ep, r.Frame, r.Err)
							}
						}
					default:
						f, err := api.Call(ctx, 5, b)
						check(-1, f, err)
						limit *= time.Duration(s.N + 2)
					}
					cancel()
					if d := c.Now() - start; d > limit {
						c.Failf("%s took %v", what, d)
					}
				}
			}))
		}
		closed := false
		type ev struct {
			at int
			o  aOp
		}
		var evs []ev
		for _, o := range s.Faults {
			evs = append(evs, ev{clamp(o.At, 0, 200), o})
		}
		if s.CloseAt > 0 {
			evs = append(evs, ev{clamp(s.CloseAt, 1, 200), aOp{Kind: -1}})
		}
		for len(evs) > 0 {
			m := 0
			for i := range evs {
				if evs[i].at < evs[m].at {
					m = i
				}
			}
			e := evs[m]
			evs = append(evs[:m:m], evs[m+1:]...)
			if d := time.Duration(e.at)*time.Millisecond + t0 - c.Now(); d > 0 {
				time.Sleep(d)
			}
			if e.o.Kind == -1 {
				if err := api.Close(); err != nil {
					c.Fatalf("Close: %v", err)
				}
				closed = true
				continue
			}
			inject(e.o)
		}
		for _, d := range waits {
			if !c.WaitDone(d, time.Minute) {
				c.Fatalf("a concurrent call hangs")
			}
		}
		c.Label("concurrent")
		c.Sleep(time.Second)
		if !closed {
			for ep, n := range x.connected() {
				if n > 1 {
					c.Fatalf("%d connections to endpoint %d after concurrent calls", n, ep)
				}
			}
		} else {
			x.closed(api)
			return
		}
	}
	// all come back and all are used
	for i := 0; i < s.N; i++ {
		if x.srv[i] == nil {
			x.start(i)
		}
	}
	c.Sleep(time.Millisecond)
	call("in the end", aOp{Kind: aAll})
	for i := 0; i < s.N; i++ {
		call("in the end", aOp{Kind: aOne, Ep: i})
	}
	for i := 0; i < 3; i++ {
		call("in the end", aOp{Kind: aCallK})
	}
	if n := clamp(s.Burst, 0, 2000); n >= 1000 {
		got := make([]int, s.N)
		for i := 0; i < n; i++ {
			_, cl, b := x.payload(aOp{})
			if _, err := api.Call(context.Background(), 5, b); err != nil {
				c.Fatalf("Call: %v", err)
			}
			x.mu.Lock()
			got[cl.by[0]]++
			x.mu.Unlock()
		}
		sum := 0
		for i := range got {
			sum += x.weight(i)
		}
		for i := range got {
			want := float64(n) * float64(x.weight(i)) / float64(sum)
			// more than eight standard deviations
			if d := float64(got[i]) - want; d*d > 64*want*(1-float64(x.weight(i))/float64(sum)) {
				c.Fatalf("%d balanced calls by the weights %v were handled by %v", n, s.Weights, got)
			}
		}
		c.Label("distribution")
	}
	if err := api.Close(); err != nil {
		c.Fatalf("Close: %v", err)
	}
	if faults > 0 && recovered {
		c.NonTrivial()
	}
	x.closed(api)
}

// closed checks a closed API
func (x *aState) closed(api qrpc.API) {
	c := x.c
	c.Sleep(time.Second)
	if err := api.Close(); err != qrpc.ErrClosed {
		c.Fatalf("the second Close returns %v", err)
	}
	x.mu.Lock()
	x.calls = map[uint64]*aCall{}
	x.mu.Unlock()
	_, cl, b := x.payload(aOp{})
	if _, err := api.CallOne(context.Background(), aName(0), 5, b); err != qrpc.ErrClosed {
		c.Fatalf("CallOne of a closed api returns %v", err)
	}
	if _, err := api.Call(context.Background(), 5, b); err != qrpc.ErrClosed && err != qrpc.ErrNotActiveConn {
		c.Fatalf("Call of a closed api returns %v", err)
	}
	for ep, r := range api.CallAll(context.Background(), 5, b) {
		if r.Err != qrpc.ErrClosed {
			c.Fatalf("CallAll of a closed api returns %v for %s", r.Err, ep)
		}
	}
	c.Sleep(time.Second)
	if len(cl.by) > 0 {
		c.Fatalf("a call of a closed api was handled")
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for i, d := range x.dials {
		if !d.Closed() {
			c.Fatalf("connection %d of %d of a closed api is open", i, len(x.dials))
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "A01",
		Title: "balancing API",
		Rule:  "generated: up to 4 endpoints with weights, some down at first; histories of single, balanced and fan-out calls with delays, contexts and handlers that panic or drop the connection, interleaved with endpoints stopping, starting and losing connections; then concurrent callers with concurrent faults and Close; sometimes 1000 balanced calls; oracle: a model of which endpoint handles what, who may fail and when each call returns, own answers only, at most one connection per endpoint, shares within eight deviations of the weights, nothing left after Close. Non-trivial: a fault was injected and an endpoint which was down answered again",
		Gen:   genA01, New: func() any { return &a01{} }, Run: runA01,
		Quick:    pbt.Budget{Cases: 25000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 500000, MaxSec: 900},
	})
}
