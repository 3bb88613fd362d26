package props

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- L02: the life of a server's connection. The raw client acts at even
// ticks, the server's users at odd ones.

const (
	caReset = iota
	caClientClose
	caClientHalf
	caBadFrame
	caServer   // ConnectionInfo.Close
	caServer3  // by three goroutines at once
	caRequest  // RequestFrame.Close of the latest request
	caInNotify // nothing by itself: a notification closes again
	nCauses
)

type l02Handler struct {
	T, Dur int
	Block  bool
	Panic  bool
	Close  bool // closes the connection before it returns
}

type l02Notify struct {
	T     int
	Again bool // registers another one and closes again from within
}

type l02Cause struct {
	T, Kind int
}

type l02Conn struct {
	Open     int
	Reject   bool
	Bind     bool
	Handlers []l02Handler
	Notifies []l02Notify
	Causes   []l02Cause
}

type l02 struct {
	RCh   int
	Conns []l02Conn
}

func genL02(r *pbt.R) any {
	s := &l02{RCh: pbt.Pick(r, 0, 0, 0, 1, 4)}
	span := pbt.Pick(r, 3, 10, 30)
	for i := r.N(1, 6); i > 0; i-- {
		cn := l02Conn{Open: r.Intn(span), Reject: r.P(1, 8), Bind: r.P(1, 2)}
		for j := r.Len(5); j > 0; j-- {
			cn.Handlers = append(cn.Handlers, l02Handler{T: r.Intn(span), Dur: r.Intn(2 * span), Block: r.P(1, 3), Close: r.P(1, 6), Panic: r.P(1, 6)})
		}
		for j := r.Len(6); j > 0; j-- {
			cn.Notifies = append(cn.Notifies, l02Notify{T: r.Intn(2 * span), Again: r.P(1, 4)})
		}
		for j := r.N(0, 3); j > 0; j-- {
			cn.Causes = append(cn.Causes, l02Cause{T: 1 + r.Intn(span), Kind: r.Intn(nCauses)})
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

type l02Rec struct {
	ci      *qrpc.ConnectionInfo
	nc      net.Conn
	cc      *vnet.Conn
	last    *qrpc.RequestFrame
	cause   time.Duration // the first cause of its end
	own     time.Duration // the first one by the server's user
	notes   map[int][]time.Duration
	regs    map[int]time.Duration
	starts  []time.Duration
	ends    []time.Duration
	ctxs    map[int]time.Duration
	onClose []time.Duration
	closers int
}

func runL02(c *pbt.C, sc any) {
	s := sc.(*l02)
	if len(s.Conns) > 50 {
		s.Conns = s.Conns[:50]
	}
	w := newWorld(c)
	const tick = time.Millisecond
	var mu sync.Mutex
	recs := make([]*l02Rec, len(s.Conns))
	byAddr := map[string]int{}
	base := c.Now()
	until := func(n int) {
		if d := base + time.Duration(n)*tick - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	rec := func(addr string) (int, *l02Rec) {
		mu.Lock()
		defer mu.Unlock()
		i, ok := byAddr[addr]
		if !ok {
			c.Failf("unknown connection %s", addr)
			return 0, &l02Rec{}
		}
		return i, recs[i]
	}
	closing := func(r *l02Rec, own bool) {
		mu.Lock()
		if r.cause < 0 {
			r.cause = c.Now()
		}
		if own && r.own < 0 {
			r.own = c.Now()
		}
		mu.Unlock()
	}
	b := qrpc.ServerBinding{ReadFrameChSize: clamp(s.RCh, 0, 100)}
	b.LifecycleCallbacks.OnAccept = func(nc net.Conn) error {
		i, r := rec(nc.RemoteAddr().String())
		mu.Lock()
		r.nc = nc
		mu.Unlock()
		if s.Conns[i].Reject {
			closing(r, false)
			return errors.New("rejected")
		}
		return nil
	}
	b.LifecycleCallbacks.OnClose = func(nc net.Conn) {
		_, r := rec(nc.RemoteAddr().String())
		mu.Lock()
		defer mu.Unlock()
		r.onClose = append(r.onClose, c.Now())
		if nc != r.nc {
			c.Failf("close callback got another connection")
		}
	}
	b.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		i, r := rec(f.ConnectionInfo().RemoteAddr())
		hi := int(f.Cmd)
		if hi >= len(s.Conns[i].Handlers) {
			c.Failf("handler for %v", toWire((*qrpc.Frame)(f)))
			return
		}
		h := s.Conns[i].Handlers[hi]
		mu.Lock()
		r.last = f
		n := len(r.starts)
		r.starts = append(r.starts, c.Now())
		mu.Unlock()
		context.AfterFunc(f.Context(), func() { mu.Lock(); r.ctxs[n] = c.Now(); mu.Unlock() })
		if d := clamp(h.Dur, 0, 1000); d > 0 {
			time.Sleep(time.Duration(2*d) * tick)
		}
		if h.Close {
			closing(r, true)
			f.Close()
		}
		mu.Lock()
		r.ends = append(r.ends, c.Now())
		mu.Unlock()
		if h.Panic {
			panic("planned")
		}
	})
	srv := w.serve(b)
	base = c.Now()
	end := 0
	for i := range s.Conns {
		i, cn := i, &s.Conns[i]
		r := &l02Rec{cause: -1, own: -1, notes: map[int][]time.Duration{}, regs: map[int]time.Duration{}, ctxs: map[int]time.Duration{}}
		recs[i] = r
		open := 2 * clamp(cn.Open, 0, 1000)
		cc := make(chan struct{})
		end = max(end, open)
		c.Go(func() {
			until(open)
			// the address must be known before the server sees the connection
			mu.Lock()
			a, _, err := w.net.Dial(srv.addrs[0], vnet.Opts{}, vnet.Opts{})
			if err == nil {
				byAddr[a.LocalAddr().String()] = i
				r.cc = a
			}
			mu.Unlock()
			if err != nil {
				c.Failf("dial: %v", err)
				return
			}
			c.Cleanup(func() { a.Close() })
			time.Sleep(tick / 2)
			srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if ci.RemoteAddr() == a.LocalAddr().String() {
					mu.Lock()
					r.ci = ci
					mu.Unlock()
				}
				return true
			})
			if (r.ci == nil) != cn.Reject {
				c.Failf("connection %d: rejected %v, known to the server %v", i, cn.Reject, r.ci != nil)
				return
			}
			if cn.Bind && r.ci != nil {
				r.ci.SetID(fmt.Sprint("id", i))
			}
			close(cc)
		})
		ready := func() bool { return c.WaitDone(cc, time.Minute) && r.ci != nil }
		for hi, h := range cn.Handlers {
			hi, h := hi, h
			t := open + 2 + 2*clamp(h.T, 0, 1000)
			end = max(end, t+2*clamp(h.Dur, 0, 1000)*len(cn.Handlers)) // one at a time at worst
			c.Go(func() {
				if !c.WaitDone(cc, time.Minute) {
					return
				}
				until(t)
				var fl byte
				if !h.Block {
					fl = wire.NB
				}
				r.cc.Write(wire.Encode(wire.Frame{ID: uint64(2*hi + 1), Flags: fl, Cmd: uint32(hi)}))
			})
		}
		for ni, n := range cn.Notifies {
			ni, n := ni, n
			t := open + 1 + 2*clamp(n.T, 0, 1000)
			end = max(end, t)
			c.Go(func() {
				if !ready() {
					return
				}
				until(t)
				mu.Lock()
				r.regs[ni] = c.Now()
				mu.Unlock()
				r.ci.NotifyWhenClose(func() {
					mu.Lock()
					r.notes[ni] = append(r.notes[ni], c.Now())
					mu.Unlock()
					if n.Again {
						mu.Lock()
						r.regs[1000+ni] = c.Now()
						mu.Unlock()
						r.ci.NotifyWhenClose(func() {
							mu.Lock()
							r.notes[1000+ni] = append(r.notes[1000+ni], c.Now())
							mu.Unlock()
						})
						r.ci.Close()
					}
				})
			})
		}
		for _, ca := range cn.Causes {
			ca := ca
			t := open + 2*clamp(ca.T, 1, 1000)
			if ca.Kind >= caServer {
				t++
			}
			end = max(end, t)
			c.Go(func() {
				if !c.WaitDone(cc, time.Minute) {
					return
				}
				until(t)
				if r.ci == nil {
					return
				}
				switch ca.Kind {
				case caReset:
					closing(r, false)
					r.cc.Break()
				case caClientClose:
					closing(r, false)
					r.cc.Close()
				case caClientHalf:
					closing(r, false)
					r.cc.CloseWrite()
				case caBadFrame:
					closing(r, false)
					r.cc.Write([]byte{0, 0, 0, 11, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0})
				case caServer, caServer3:
					closing(r, true)
					n := 1
					if ca.Kind == caServer3 {
						n = 3
					}
					for ; n > 0; n-- {
						c.Go(func() { r.ci.Close(); mu.Lock(); r.closers++; mu.Unlock() })
					}
				case caRequest:
					mu.Lock()
					f := r.last
					mu.Unlock()
					if f != nil {
						closing(r, true)
						f.Close()
					}
				}
			})
		}
	}
	until(end + 4)
	c.Quiesce()
	known := map[string]bool{}
	srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { known[ci.RemoteAddr()] = true; return true })
	mu.Lock()
	defer mu.Unlock()
	for i, r := range recs {
		cn := &s.Conns[i]
		if r.cc == nil {
			c.Fatalf("connection %d never opened", i)
		}
		busy := false
		for _, h := range cn.Handlers {
			busy = busy || h.Block
		}
		alive := r.cause < 0
		if known[r.cc.LocalAddr().String()] != (alive && !cn.Reject) {
			c.Fatalf("connection %d: ended %v, walked %v", i, !alive, !alive)
		}
		if cn.Bind && !cn.Reject {
			if got := srv.GetConnectionInfoByID(0, fmt.Sprint("id", i)); (got == r.ci) != alive || got != nil && got != r.ci {
				c.Fatalf("connection %d: ended %v, found by its id %v", i, !alive, got != nil)
			}
		}
		if len(r.starts) != len(r.ends) {
			c.Fatalf("connection %d: a handler did not return", i)
		}
		if alive {
			if len(r.onClose) > 0 {
				c.Fatalf("connection %d: close callback on an open connection", i)
			}
			for ni, ts := range r.notes {
				if len(ts) > 0 {
					c.Fatalf("connection %d: notification %d of an open connection", i, ni)
				}
			}
			if len(r.starts) != len(cn.Handlers) {
				c.Fatalf("connection %d: %d handlers ran for %d requests", i, len(r.starts), len(cn.Handlers))
			}
			continue
		}
		if cn.Reject {
			if len(r.starts) > 0 || len(r.onClose) != 1 || !r.cc.PeerClosed() {
				c.Fatalf("connection %d was rejected; %d handlers, %d close callbacks, closed %v", i, len(r.starts), len(r.onClose), r.cc.PeerClosed())
			}
			c.Label("rejected")
			continue
		}
		if !r.cc.PeerClosed() {
			c.Fatalf("connection %d: network connection left open", i)
		}
		if len(r.onClose) != 1 {
			c.Fatalf("connection %d: close callback ran %d times", i, len(r.onClose))
		}
		for _, e := range r.ends {
			if e > r.onClose[0] {
				c.Fatalf("connection %d: close callback ran at %v, a handler ended at %v", i, r.onClose[0]-base, e-base)
			}
		}
		T := r.cause
		last := T
		for _, e := range r.ends {
			last = max(last, e)
		}
		if r.onClose[0] > last {
			c.Fatalf("connection %d: closed at %v, last handler done at %v, close callback at %v", i, T-base, last-base, r.onClose[0]-base)
		}
		if r.onClose[0] < T {
			c.Fatalf("connection %d: close callback before the end", i)
		}
		// a reader held up by a blocking handler notices the peer's end late
		limit := T
		if busy {
			limit = last
			if r.own >= 0 {
				limit = min(limit, r.own)
			}
		}
		for ni, at := range r.regs {
			ts := r.notes[ni]
			if len(ts) != 1 {
				c.Fatalf("connection %d: notification %d (registered at %v, end at %v) ran %d times", i, ni, at-base, T-base, len(ts))
			}
			if ts[0] < min(T, at) || ts[0] < T && ni < 1000 {
				c.Fatalf("connection %d: notification %d ran at %v, before the end at %v", i, ni, ts[0]-base, T-base)
			}
			if ts[0] > max(limit, at) {
				c.Fatalf("connection %d: notification %d registered at %v ran at %v, the end was at %v", i, ni, at-base, ts[0]-base, T-base)
			}
			if at > T {
				c.Label("notification registered after the end")
			}
		}
		for n := range r.starts {
			t, ok := r.ctxs[n]
			if !ok {
				c.Fatalf("connection %d: a handler's context was never cancelled", i)
			}
			if t > max(limit, r.starts[n]) {
				c.Fatalf("connection %d: ended at %v, a handler's context at %v", i, T-base, t-base)
			}
		}
		if last > T {
			c.Label("handlers outlived the connection")
		}
		if len(r.regs) > 0 && len(r.starts) > 0 {
			c.NonTrivial()
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L02",
		Title: "server connection lifecycle",
		Rule:  "generated: up to six connections with handlers of generated durations, close notifications registered before and after the end (and from within notifications), and up to three competing causes of the end (by the network, the peer, a malformed frame, the server's user from several goroutines, a handler), rejected connections; oracle: exact counts and virtual times of notifications, contexts, the close callback and the walk. Non-trivial: a connection ended which had handlers and notifications",
		Gen:   genL02, New: func() any { return &l02{} }, Run: runL02,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1500000, MaxSec: 900},
	})
}
