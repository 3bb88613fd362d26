package props

import (
	"errors"
	"net"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- L03: shutdown. Clients act at even ticks, the server's users at odd
// ones, except for the clients which race with the first Shutdown on purpose.

const (
	l03Sleep  = iota // returns after Dur
	l03Ctx           // returns when its context ends
	l03Write         // writes to a client which reads nothing
	l03Ask           // requests something of its client, which never answers
	l03Stream        // reads its stream, which never ends
	nL03Kinds
)

type l03Req struct {
	T, Kind, Dur int
	Block        bool
}

type l03Conn struct {
	Binding, Open int
	Race          bool
	Close         int // by the client, 0: never
	Reqs          []l03Req
}

type l03 struct {
	Mode          int // 0 ListenAndServe, 1 ListenAll then ServeAll, 2 Serve per binding
	N, RCh        int
	Listen, Serve int // ticks
	Shutdowns     []int
	Funcs         []int // OnShutdown at these ticks
	Conns         []l03Conn
}

func genL03(r *pbt.R) any {
	span := pbt.Pick(r, 3, 10, 30)
	s := &l03{Mode: r.Intn(3), N: r.N(1, 3), RCh: pbt.Pick(r, 0, 0, 1, 3)}
	if r.P(1, 4) {
		s.Listen = r.Intn(span)
		s.Serve = s.Listen + r.Intn(span)
	}
	first := r.Intn(2 * span)
	s.Shutdowns = []int{first}
	for i := r.N(0, 3); i > 0; i-- {
		s.Shutdowns = append(s.Shutdowns, first+pbt.Pick(r, 0, r.Intn(span)))
	}
	for i := r.N(0, 4); i > 0; i-- {
		s.Funcs = append(s.Funcs, r.Intn(3*span))
	}
	for i := r.Len(8); i > 0; i-- {
		cn := l03Conn{Binding: r.Intn(s.N), Open: r.Intn(2*span + 4), Race: r.P(1, 4)}
		if r.P(1, 6) {
			cn.Close = 1 + r.Intn(2*span)
		}
		for j := r.N(0, 4); j > 0; j-- {
			cn.Reqs = append(cn.Reqs, l03Req{T: r.Intn(span), Kind: r.W(6, 2, 1, 1, 1), Dur: r.Intn(2 * span), Block: r.P(1, 3)})
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

type l03Run struct {
	start, end time.Duration
	conn, req  int
}

func runL03(c *pbt.C, sc any) {
	s := sc.(*l03)
	n := clamp(s.N, 1, 5)
	if len(s.Shutdowns) == 0 || len(s.Shutdowns) > 20 || len(s.Conns) > 50 || len(s.Funcs) > 50 {
		return
	}
	w := newWorld(c)
	const tick = time.Millisecond
	var mu sync.Mutex
	var runs []*l03Run
	closes := map[string]int{}
	stop := make(chan struct{}) // releases what is left at the end of the case
	c.Cleanup(func() { close(stop) })
	h := qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		ci, ri := int(f.Cmd)>>8, int(f.Cmd)&0xff
		if ci >= len(s.Conns) || ri >= len(s.Conns[ci].Reqs) {
			c.Failf("handler for %v", toWire((*qrpc.Frame)(f)))
			return
		}
		q := s.Conns[ci].Reqs[ri]
		run := &l03Run{start: c.Now(), end: -1, conn: ci, req: ri}
		mu.Lock()
		runs = append(runs, run)
		mu.Unlock()
		defer func() { mu.Lock(); run.end = c.Now(); mu.Unlock() }()
		switch q.Kind {
		case l03Sleep:
			if d := clamp(q.Dur, 0, 1000); d > 0 {
				time.Sleep(time.Duration(2*d) * tick)
			}
		case l03Ctx:
			select {
			case <-f.Context().Done():
			case <-stop:
			}
		case l03Write:
			wr.StartWrite(f.RequestID, f.Cmd, 0)
			wr.WriteBytes(make([]byte, 5000))
			wr.EndWrite()
		case l03Ask:
			_, resp, err := f.ConnectionInfo().Request(7, 0, nil)
			if err == nil {
				resp.GetFrame()
			}
		case l03Stream:
			for {
				if <-f.FrameCh() == nil {
					return
				}
			}
		}
	})
	bs := make([]qrpc.ServerBinding, n)
	for i := range bs {
		bs[i].Handler = h
		bs[i].ReadFrameChSize = clamp(s.RCh, 0, 100)
		bs[i].LifecycleCallbacks.OnClose = func(nc net.Conn) {
			mu.Lock()
			closes[nc.RemoteAddr().String()]++
			mu.Unlock()
		}
	}
	srv := w.newServer(bs...)
	base := c.Now()
	until := func(n int) {
		if d := base + time.Duration(n)*tick - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	odd := func(n int) int { return 2*clamp(n, 0, 1000) + 1 }
	T := odd(s.Shutdowns[0])
	for _, t := range s.Shutdowns {
		T = min(T, odd(t))
	}
	end := T
	listenT := odd(s.Listen)
	serveT := max(odd(s.Serve), listenT)
	end = max(end, serveT)
	// serving
	type served struct {
		at  time.Duration
		err error
	}
	var serves []served
	ret := func(err error) {
		mu.Lock()
		serves = append(serves, served{c.Now(), err})
		mu.Unlock()
	}
	wantServes := 1
	c.Go(func() {
		until(listenT)
		switch s.Mode {
		case 0:
			ret(srv.ListenAndServe())
		case 1:
			if err := srv.ListenAll(); err != nil {
				c.Failf("ListenAll: %v", err)
				return
			}
			until(serveT)
			ret(srv.ServeAll())
		default:
			for i := range bs {
				l, err := w.net.Listen(srv.addrs[i])
				if err != nil {
					c.Failf("listen: %v", err)
					return
				}
				c.Go(func() {
					until(serveT)
					ret(srv.Serve(l, i))
				})
			}
		}
	})
	if s.Mode == 2 {
		wantServes = n
	} else if s.Mode == 0 {
		serveT = listenT
	}
	// clients
	cls := make([]*vnet.Conn, len(s.Conns))
	for i := range s.Conns {
		i, cn := i, &s.Conns[i]
		open := 2 * clamp(cn.Open, 0, 1000)
		if cn.Race {
			open = T
		}
		end = max(end, open)
		if cn.Binding < 0 || cn.Binding >= n {
			return
		}
		cc := make(chan struct{})
		c.Go(func() {
			until(open)
			a, _, err := w.net.Dial(srv.addrs[cn.Binding], vnet.Opts{}, vnet.Opts{Buf: 1000})
			if err != nil {
				if open < T && open > serveT {
					c.Failf("refused before the shutdown: %v", err)
				}
				return
			}
			mu.Lock()
			cls[i] = a
			mu.Unlock()
			c.Cleanup(func() { a.Break(); a.Close() })
			close(cc)
			if cn.Close > 0 && !cn.Race {
				until(open + 2*clamp(cn.Close, 1, 1000))
				a.Close()
			}
		})
		for ri, q := range cn.Reqs {
			ri, q := ri, q
			t := open + 2*clamp(q.T, 0, 1000)
			end = max(end, t+2*clamp(q.Dur, 0, 1000)*len(cn.Reqs))
			c.Go(func() {
				until(t)
				if !c.WaitDone(cc, tick/2) {
					return
				}
				var fl byte
				if !q.Block {
					fl = wire.NB
				}
				if q.Kind == l03Stream {
					fl |= wire.Stream
				}
				mu.Lock()
				defer mu.Unlock()
				cls[i].SetWriteDeadline(time.Now().Add(time.Microsecond))
				cls[i].Write(wire.Encode(wire.Frame{ID: uint64(2*ri + 1), Flags: fl, Cmd: uint32(i<<8 | ri)}))
			})
		}
	}
	// functions
	funcs := make([][]time.Duration, len(s.Funcs))
	for i, t := range s.Funcs {
		i, t := i, odd(t)
		end = max(end, t)
		c.Go(func() {
			until(t)
			srv.OnShutdown(func() {
				mu.Lock()
				funcs[i] = append(funcs[i], c.Now())
				mu.Unlock()
				if i%2 == 1 { // a function may register another one, which runs at once
					nested := 0
					srv.OnShutdown(func() { nested++ })
					if nested != 1 {
						c.Failf("a function registered by a shutdown function ran %d times", nested)
					}
				}
			})
		})
	}
	// shutdowns
	downs := make([]time.Duration, len(s.Shutdowns))
	for i, t := range s.Shutdowns {
		i, t := i, odd(t)
		end = max(end, t)
		downs[i] = -1
		c.Go(func() {
			until(t)
			if err := srv.Shutdown(); err != nil {
				c.Failf("Shutdown: %v", err)
			}
			mu.Lock()
			downs[i] = c.Now()
			mu.Unlock()
		})
	}
	until(end)
	c.Sleep(10 * time.Second)
	c.Quiesce()

	mu.Lock()
	defer mu.Unlock()
	at := func(n int) time.Duration { return base + time.Duration(n)*tick }
	down := at(T)
	last := down
	outlived, early := false, false
	for _, r := range runs {
		q := s.Conns[r.conn].Reqs[r.req]
		if r.end < 0 {
			c.Fatalf("a handler (%+v) did not return after the shutdown", q)
		}
		last = max(last, r.end)
		early = early || r.start < down
		if r.end > down {
			outlived = true
		}
		if q.Kind != l03Sleep && r.end > max(down, r.start)+time.Second && !q.Block {
			c.Fatalf("a handler (%+v) which waits for its connection returned %v after the shutdown", q, r.end-down)
		}
		sent := at(2*s.Conns[r.conn].Open + 2*q.T)
		if s.Conns[r.conn].Race {
			sent = down
			if q.T > 0 {
				sent = down + time.Duration(2*q.T)*tick
			}
		}
		if sent > down && down < r.start && sent > down+time.Second {
			c.Fatalf("a request sent %v after the shutdown was handled", sent-down)
		}
	}
	for i := range downs {
		t := at(odd(s.Shutdowns[i]))
		switch {
		case downs[i] < 0:
			c.Fatalf("Shutdown at %v did not return; serving ended %v", t-base, serves)
		case len(runs) > 0 && downs[i] < last && last > t:
			c.Fatalf("Shutdown at %v returned at %v, a handler ended at %v", t-base, downs[i]-base, last-base)
		case downs[i] > max(last, t)+2*time.Second:
			c.Fatalf("Shutdown at %v returned at %v, the last handler ended at %v", t-base, downs[i]-base, last-base)
		}
	}
	if len(serves) != wantServes {
		c.Fatalf("%d of %d Serve calls returned; shutdown at tick %d, served from %d", len(serves), wantServes, T, serveT)
	}
	for _, v := range serves {
		if !errors.Is(v.err, qrpc.ErrServerClosed) {
			c.Fatalf("serving returned %v", v.err)
		}
		if v.at < down {
			c.Fatalf("serving returned before the shutdown")
		}
		if v.at > max(last, at(serveT))+2*time.Second {
			c.Fatalf("serving returned at %v, shutdown at %v", v.at-base, down-base)
		}
	}
	for i, a := range srv.addrs {
		if w.net.Listening(a) {
			c.Fatalf("binding %d still listens", i)
		}
	}
	known := 0
	for i := range bs {
		srv.WalkConn(i, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { known++; return true })
	}
	if known > 0 {
		c.Fatalf("%d connections left", known)
	}
	for i, a := range cls {
		if a != nil && !a.PeerClosed() {
			c.Fatalf("connection %d was left open (opened at tick %d, race %v; shutdown at %d, served from %d)", i, 2*s.Conns[i].Open, s.Conns[i].Race, T, serveT)
		}
	}
	for a, k := range closes {
		if k != 1 {
			c.Fatalf("close callback of %s ran %d times", a, k)
		}
	}
	for i, ts := range funcs {
		t := at(odd(s.Funcs[i]))
		if len(ts) != 1 {
			c.Fatalf("shutdown function registered at %v ran %d times", t-base, len(ts))
		}
		if ts[0] < down || ts[0] > max(t, down) {
			c.Fatalf("shutdown function registered at %v ran at %v, shutdown at %v", t-base, ts[0]-base, down-base)
		}
	}
	if T <= serveT {
		c.Label("shutdown before serving")
	}
	if outlived {
		c.Label("handlers running at the shutdown")
	}
	if early && len(s.Shutdowns) > 1 {
		c.Label("repeated shutdown")
	}
	if outlived || T <= serveT {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L03",
		Title: "shutdown",
		Rule:  "generated: one to three bindings served in the three documented ways, up to four Shutdown calls before, during and after listening and serving, shutdown functions registered at any time, clients connecting before, after and at the very moment of the shutdown, with handlers that sleep, wait for their context, write to a stuck client, wait for an answer or read an endless stream; oracle: exact virtual times and counts of returns, closes and functions. Non-trivial: handlers were running at the shutdown, or it came before serving",
		Gen:   genL03, New: func() any { return &l03{} }, Run: runL03,
		Quick:    pbt.Budget{Cases: 400000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
