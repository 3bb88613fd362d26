package props

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"syscall"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- L07: failures of listeners. Everything happens at even ticks, the
// shutdown at an odd one.

const (
	l07Conn    = iota // a client connects
	l07Temp           // accepting fails N times for now
	l07Fatal          // accepting fails N times
	l07Useless        // a connection which the transport cannot use
	l07Die            // the listener is closed by someone else
	l07Mute           // a connection which never says anything, or nothing sensible
	nL07Kinds
)

type l07Ev struct {
	T, B, Kind, N int
}

type l07 struct {
	Tr, N, RCh int
	Evs        []l07Ev
	CloseErr   []int // bindings whose listener reports an error when closed
	Shut       int
	Twice      bool // Shutdown again
	FailListen int  // binding which cannot listen, counted from 1
	Retry      bool
}

func genL07(r *pbt.R) any {
	s := &l07{N: r.N(1, 3), RCh: pbt.Pick(r, 0, 0, 2)}
	if r.P(1, 4) {
		s.Tr = r.Range(1, nTrs-1)
	}
	span := pbt.Pick(r, 20, 1000, 5000)
	for i := r.Len(12); i > 0; i-- {
		s.Evs = append(s.Evs, l07Ev{T: r.Intn(span), B: r.Intn(s.N), Kind: r.W(10, 5, 4, 2, 1, 2), N: pbt.Pick(r, 1, 1, 2, 3, 12)})
	}
	for i := 0; i < s.N; i++ {
		if r.P(1, 5) {
			s.CloseErr = append(s.CloseErr, i)
		}
	}
	s.Shut = r.Intn(2*span + 10)
	s.Twice = r.P(1, 3)
	if r.P(1, 6) {
		s.FailListen = r.Range(1, s.N)
		s.Retry = r.P(2, 3)
	}
	return s
}

// failing is a temporary or fatal error of Accept
type failing struct{ temp bool }

func (f failing) Error() string   { return fmt.Sprintf("accept failed (temporary: %v)", f.temp) }
func (f failing) Timeout() bool   { return false }
func (f failing) Temporary() bool { return f.temp }

// flaky is a listener which fails as planned
type flaky struct {
	c        *pbt.C
	mu       sync.Mutex
	q        []any // net.Conn or error
	notify   chan struct{}
	closed   bool
	closeErr bool
	fails    int
	ls       []*vnet.Listener
}

type hidden struct{ net.Conn }

func (w *World) flaky(addr string) (*flaky, error) {
	f := &flaky{c: w.c, notify: make(chan struct{})}
	for _, a := range []string{addr, addr + "-useless"} {
		l, err := w.net.Listen(a)
		if err != nil {
			return nil, err
		}
		useless := a != addr
		f.ls = append(f.ls, l)
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				if useless {
					nc = hidden{nc}
				}
				f.add(nc)
			}
		}()
	}
	w.c.Cleanup(func() { f.shut() })
	return f, nil
}

func (f *flaky) add(x any) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if nc, ok := x.(net.Conn); ok && f.closed {
		nc.Close()
		return
	}
	f.q = append(f.q, x)
	close(f.notify)
	f.notify = make(chan struct{})
}

func (f *flaky) shut() (again bool) {
	f.mu.Lock()
	if again = f.closed; !again {
		f.closed = true
		for _, x := range f.q {
			if nc, ok := x.(net.Conn); ok {
				nc.Close()
			}
		}
		close(f.notify)
		f.notify = make(chan struct{})
	}
	f.mu.Unlock()
	for _, l := range f.ls {
		l.Close()
	}
	return
}

var errFlakyClose = errors.New("the listener cannot be closed in order")

func (f *flaky) Close() error {
	if f.shut() {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	if f.closeErr {
		return errFlakyClose
	}
	return nil
}

func (f *flaky) Addr() net.Addr { return f.ls[0].Addr() }

func (f *flaky) Accept() (net.Conn, error) {
	for {
		f.mu.Lock()
		if f.closed {
			f.fails++
			n := f.fails
			f.mu.Unlock()
			if n > 3000 {
				f.c.Failf("Accept of a closed listener was called %d times", n)
				time.Sleep(time.Minute)
			}
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(f.q) > 0 {
			x := f.q[0]
			f.q = f.q[1:]
			f.mu.Unlock()
			if err, ok := x.(error); ok {
				return nil, err
			}
			return x.(net.Conn), nil
		}
		ch := f.notify
		f.mu.Unlock()
		<-ch
	}
}

func runL07(c *pbt.C, sc any) {
	s := sc.(*l07)
	w := newWorld(c)
	w.tr = clamp(s.Tr, 0, nTrs-1)
	w.net.QuickAlert = w.tr != trTCP
	n := clamp(s.N, 1, 4)
	if len(s.Evs) > 40 {
		return
	}
	twice := s.Twice
	if w.tr >= trWS && (s.FailListen == 0 || s.Retry) {
		// Close of the http server waits for its accept loop with the server's
		// mutex held, which stops virtual time for whoever wants that too
		n, twice = 1, false
	}
	const tick = time.Millisecond
	var mu sync.Mutex
	ls := make([]*flaky, n)
	closeErr := map[int]bool{}
	for _, i := range s.CloseErr {
		closeErr[i] = true
	}
	failListen := clamp(s.FailListen, 0, n)
	bs := make([]qrpc.ServerBinding, n)
	for i := range bs {
		bs[i].ReadFrameChSize = clamp(s.RCh, 0, 100)
		bs[i].ListenFunc = func(string, string) (net.Listener, error) {
			if failListen == i+1 {
				return nil, syscall.EADDRNOTAVAIL
			}
			l, err := w.flaky(fmt.Sprint("s", i))
			if err != nil {
				return nil, err
			}
			l.closeErr = closeErr[i]
			mu.Lock()
			ls[i] = l
			mu.Unlock()
			return l, nil
		}
		bs[i].Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			wr.StartWrite(f.RequestID, f.Cmd, 0)
			wr.WriteBytes(append([]byte{byte(i)}, f.Payload...))
			wr.EndWrite()
		})
	}
	srv := w.newServer(bs...)
	if failListen > 0 {
		var err error
		c.MustDo("ListenAndServe of a binding which cannot listen", func() { err = srv.ListenAndServe() })
		if !errors.Is(err, syscall.EADDRNOTAVAIL) {
			c.Fatalf("ListenAndServe of a binding which cannot listen: %v", err)
		}
		c.Quiesce()
		for i := range bs {
			if w.net.Listening(fmt.Sprint("s", i)) {
				c.Fatalf("binding %d still listens after binding %d could not", i, failListen-1)
			}
		}
		c.Label("could not listen")
		c.NonTrivial()
		failListen = 0
		if !s.Retry {
			c.MustDo("Shutdown", func() { srv.Shutdown() })
			return
		}
	}
	base := c.Now()
	at := func(t int) time.Duration { return base + time.Duration(t)*tick }
	until := func(t int) {
		if d := at(t) - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	served := time.Duration(-1)
	var serveErr error
	c.Go(func() {
		err := srv.ListenAndServe()
		mu.Lock()
		served, serveErr = c.Now(), err
		mu.Unlock()
	})
	c.Cleanup(func() { c.Go(func() { srv.Shutdown() }); time.Sleep(3 * time.Second) })
	c.Quiesce()
	shutT := 2*clamp(s.Shut, 0, 20000) + 1
	type cl struct {
		b        int
		at       time.Duration
		raw      *vnet.Conn
		answered time.Duration
		err      error
		useless  bool
		mute     bool
		late     bool // answered to the end
	}
	type item struct {
		at   time.Duration
		cost time.Duration
		cl   *cl
		die  bool
	}
	queues := make([][]item, n)
	var order []l07Ev
	for _, e := range s.Evs {
		e.B, e.T, e.N = clamp(e.B, 0, n-1), 2*clamp(e.T, 0, 20000), clamp(e.N, 1, 20)
		if e.T < shutT && e.Kind >= 0 && e.Kind < nL07Kinds {
			order = append(order, e)
		}
	}
	// in the order of time; events at one time are made to differ
	for i := range order {
		for j := i; j > 0 && order[j].T < order[j-1].T; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	var waits []<-chan struct{}
	failures := 0
	for i, e := range order {
		at := at(e.T) + time.Duration(i+1)*time.Microsecond
		sleep := func() {
			if d := at - c.Now(); d > 0 {
				time.Sleep(d)
			}
		}
		it := item{at: at}
		switch e.Kind {
		case l07Conn:
			x := &cl{b: e.B, at: at, answered: -1}
			it.cl = x
			waits = append(waits, c.Go(func() {
				sleep()
				p, far, err := w.dialPeer(srv.addrs[x.b], NetOpt{})
				if err == nil {
					p.read()
					err = p.Send(wire.Frame{ID: 1, Cmd: 9, Payload: []byte("first")})
				}
				mu.Lock()
				x.err = err
				if far != nil {
					x.raw = far
				}
				mu.Unlock()
				if err != nil || !p.WaitN(1, time.Hour) {
					return
				}
				f := p.Frames()[0]
				if f.ID != 1 || f.Cmd != 9 || string(f.Payload) != string([]byte{byte(x.b)})+"first" {
					c.Failf("binding %d answers %v", x.b, f.Frame)
				}
				mu.Lock()
				x.answered = c.Now()
				mu.Unlock()
				// it works to the end
				if d := base + time.Duration(shutT-1)*tick + tick/2 - c.Now(); d > 0 {
					time.Sleep(d)
					p.Send(wire.Frame{ID: 3, Cmd: 9, Payload: []byte("second")})
					if !p.WaitN(2, tick/4) {
						c.Failf("a connection of binding %d is not answered anymore", x.b)
						return
					}
					x.late = true
				}
				p.WaitEnd(time.Hour)
			}))
		case l07Temp, l07Fatal:
			it.cost = time.Second * time.Duration(e.N)
			failures++
			c.Go(func() {
				sleep()
				for k := 0; k < e.N; k++ {
					ls[e.B].add(failing{e.Kind == l07Temp})
				}
			})
		case l07Mute:
			it.cl = &cl{b: e.B, at: at, useless: true, mute: true}
			c.Go(func() {
				sleep()
				a, far, err := w.net.Dial(srv.addrs[e.B], vnet.Opts{}, vnet.Opts{})
				mu.Lock()
				it.cl.err, it.cl.raw = err, far
				mu.Unlock()
				if a != nil {
					c.Cleanup(func() { a.Break(); a.Close() })
					if e.N > 1 {
						a.Write(pbt.Bytes(e.N, uint64(e.T)))
					}
				}
			})
		case l07Useless:
			it.cost = time.Second
			it.cl = &cl{b: e.B, at: at, useless: true}
			failures++
			c.Go(func() {
				sleep()
				a, far, err := w.net.Dial(srv.addrs[e.B]+"-useless", vnet.Opts{}, vnet.Opts{})
				mu.Lock()
				it.cl.err, it.cl.raw = err, far
				mu.Unlock()
				if a != nil {
					c.Cleanup(func() { a.Break(); a.Close() })
				}
			})
		case l07Die:
			it.die = true
			failures++
			c.Go(func() {
				sleep()
				ls[e.B].shut()
			})
		}
		queues[e.B] = append(queues[e.B], it)
	}
	down := []time.Duration{-1}
	if twice {
		down = append(down, -1)
	}
	var downErr error
	for i := range down {
		c.Go(func() {
			until(shutT + 2*i)
			err := srv.Shutdown()
			mu.Lock()
			down[i] = c.Now()
			if i == 0 {
				downErr = err
			}
			mu.Unlock()
		})
	}
	until(shutT)
	c.Sleep(10 * time.Second)
	c.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	shut := at(shutT)
	bad := len(closeErr) > 0
	waited := false
	for b, q := range queues {
		died := time.Duration(1 << 62)
		for _, it := range q {
			if it.die {
				died = min(died, it.at)
				bad = true
			}
		}
		t := base
		for _, it := range q {
			t = max(t, it.at) + it.cost
			x := it.cl
			if x == nil {
				continue
			}
			limit := t + 20*tick
			if it.at > died {
				if x.err == nil && !x.useless {
					c.Fatalf("binding %d: a client connected although the listener is closed", b)
				}
				continue
			}
			if x.useless {
				if x.err != nil || x.raw == nil {
					c.Fatalf("binding %d: %v", b, x.err)
				}
				if !x.raw.Closed() {
					c.Fatalf("binding %d: a connection of no use was left open (it said nothing: %v)", b, x.mute)
				}
				continue
			}
			if limit < shut && limit < died {
				if x.answered < 0 || x.answered > limit {
					c.Fatalf("binding %d: a connection made at %v was answered at %v (%v), accepting had failed until %v at most", b, x.at-base, x.answered-base, x.err, t-base)
				}
				if t > x.at {
					waited = true
				}
			}
			if x.raw != nil && !x.raw.Closed() {
				c.Fatalf("binding %d: a connection is open after the shutdown", b)
			}
		}
	}
	for i, d := range down {
		if t := at(shutT + 2*i); d < 0 || d > t+2*time.Second {
			c.Fatalf("Shutdown at %v returned at %v", t-base, d-base)
		}
	}
	if downErr != nil && !bad {
		c.Fatalf("Shutdown: %v", downErr)
	}
	if served < 0 || served > shut+2*time.Second || served < shut {
		c.Fatalf("ListenAndServe returned at %v, Shutdown was at %v", served-base, shut-base)
	}
	if serveErr == nil || !bad && !errors.Is(serveErr, qrpc.ErrServerClosed) {
		c.Fatalf("ListenAndServe: %v", serveErr)
	}
	for i, a := range srv.addrs {
		if w.net.Listening(a) {
			c.Fatalf("binding %d still listens", i)
		}
	}
	for _, d := range waits {
		if !c.WaitDone(d, pbt.Long) {
			c.Fatalf("a client hangs")
		}
	}
	if bad {
		c.Label("listeners which cannot be closed")
		if failures > 0 || len(order) > 0 {
			c.NonTrivial()
		}
	}
	if waited {
		c.Label("served after failures")
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L07",
		Title: "failing listeners",
		Rule:  "generated: one to three bindings over any transport whose listeners fail at generated times: accepting fails for now or for good, several times in a row, yields a connection without the needed methods or one which says nothing, the listener is closed by someone else, reports an error when it is closed, or cannot be opened (with or without another attempt); clients connect before, between and after that, until a shutdown at a generated time; oracle: every client is answered within a second per failure before it, connections made stay alive, other bindings are not delayed, no busy retry, nothing is left open, Shutdown and ListenAndServe return. Non-trivial: a client waited for failures and was served, a listener could not be closed, or one could not be opened",
		Gen:   genL07, New: func() any { return &l07{} }, Run: runL07,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
