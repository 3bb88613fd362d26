package props

import (
	"bytes"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- L04 and L05: the life of a client. The server is a wire level peer
// which acts at even ticks (and loses connections between ticks), the client's
// users act at odd ones.

const (
	clReq = iota
	clStream
	clPush
	nClOps
)

type clOp struct {
	T, Kind, Size int
	Answer        int // ticks until the answer, negative: never
	Chunks        int // of a streamed request
}

const (
	ctSleep = iota
	ctCtx
	ctAsk
	ctClose
	ctPanic
	ctDrop // closes the connection of its request, half a tick later
	nCtKinds
)

type clTask struct {
	T, Kind, Dur int
}

type clConn struct {
	Cut, CutKind int // ticks after the accept, 0: never
	NoRead       bool
	Stale        bool // answers what the previous connections left unanswered
	Asks, Pushes []clTask
}

type clClose struct {
	T, Where, N int
}

const (
	ccUser = iota
	ccConnect
	ccDisconnect
	nCcWhere
)

type cl struct {
	Reconnect bool
	TickMS    int
	Ch, Delay int
	Seed      int
	Addrs     [][]int // ticks at which the listener goes down, up, down, ...
	Conns     []clConn
	Ops       []clOp
	Closes    []clClose
}

func genCl(r *pbt.R, lossy bool) *cl {
	s := &cl{Reconnect: lossy || r.P(1, 2), TickMS: 1, Ch: pbt.Pick(r, 0, 0, 1, 2, 8), Seed: r.Intn(1000)}
	span := pbt.Pick(r, 4, 12, 40)
	if lossy && r.P(1, 2) {
		s.TickMS = 100
		span = pbt.Pick(r, 20, 80)
	}
	na := 1
	if s.Reconnect {
		na = r.N(1, 4)
	}
	for i := 0; i < na; i++ {
		var a []int
		for t, n := r.Intn(span), r.N(0, 4); n > 0 && s.Reconnect && r.P(2, 3); n-- {
			a = append(a, t)
			t += 1 + r.Intn(span)
		}
		s.Addrs = append(s.Addrs, a)
	}
	if s.Reconnect && r.P(1, 5) {
		s.Delay = 1 + r.Intn(6)
	}
	task := func(subs bool) clTask {
		k := clTask{T: r.Intn(span), Dur: pbt.Pick(r, 0, r.Intn(4), r.Intn(span))}
		if subs {
			k.Kind = r.W(8, 0, 0, 1, 0)
		} else {
			k.Kind = r.W(8, 3, 3, 1, 1, 0)
			if lossy && r.P(1, 12) {
				k.Kind = ctDrop
			}
		}
		return k
	}
	nc := 1
	if s.Reconnect {
		nc = r.N(1, 6)
	}
	for i := 0; i < nc; i++ {
		cn := clConn{Stale: r.P(1, 2), NoRead: r.P(1, 10)}
		if r.P(2, 5) || lossy && r.P(1, 2) {
			cn.Cut, cn.CutKind = 1+r.Intn(span), r.Intn(4)
		}
		if r.P(1, 2) {
			for j := r.N(0, 4); j > 0; j-- {
				cn.Asks = append(cn.Asks, task(false))
			}
		}
		if r.P(1, 4) {
			for j := r.N(0, 3); j > 0; j-- {
				cn.Pushes = append(cn.Pushes, task(true))
			}
		}
		s.Conns = append(s.Conns, cn)
	}
	for j := r.Len(12); j > 0; j-- {
		op := clOp{T: r.Intn(span * (1 + nc/2)), Kind: r.W(6, 3, 1), Size: pbt.Pick(r, 0, r.Intn(20), r.Intn(3000)), Answer: pbt.Pick(r, -1, 0, r.Intn(5), r.Intn(span)), Chunks: r.Intn(4)}
		s.Ops = append(s.Ops, op)
	}
	if !lossy || r.P(1, 4) {
		for j := r.N(0, 3); j > 0; j-- {
			s.Closes = append(s.Closes, clClose{T: r.Intn(span * (1 + nc/2)), Where: r.W(6, 1, 1), N: r.N(1, 3)})
		}
	}
	return s
}

// what the server saw of one connection
type clPeer struct {
	p        *Peer
	accepted time.Duration
	cut      time.Duration
	answers  map[uint64]clAns
}

type clAns struct {
	body []byte
	wait time.Duration
	done bool
}

// one call of a user
type clCall struct {
	start, end time.Duration
	failed     bool // error from a write
	err        error
	frame      []byte
	sw         qrpc.StreamWriter
}

// where and when the server got a call
type clGot struct {
	conn int
	at   time.Duration
	ans  time.Duration // when it was answered, -1: never
	body []byte
}

func runCl(c *pbt.C, sc any) {
	s := sc.(*cl)
	if len(s.Addrs) == 0 || len(s.Addrs) > 8 || len(s.Conns) == 0 || len(s.Conns) > 20 || len(s.Ops) > 100 {
		return
	}
	mrand.Seed(int64(s.Seed))
	w := newWorld(c)
	tick := time.Duration(clamp(s.TickMS, 1, 1000)) * time.Millisecond
	var mu sync.Mutex
	base := c.Now()
	at := func(n int) time.Duration { return base + time.Duration(n)*tick }
	until := func(n int) {
		if d := at(n) - c.Now(); d > 0 {
			time.Sleep(d)
		}
	}
	end := 0
	plan := func(k int) *clConn { // the connections after the planned ones last
		if k >= len(s.Conns) {
			return &clConn{}
		}
		return &s.Conns[k]
	}

	// the server
	var peers []*clPeer
	got := make([][]clGot, len(s.Ops))
	fin := 0 // calls of the final phase
	body := func(conn, op int, b []byte) []byte {
		return append([]byte(fmt.Sprintf("c%do%d ", conn, op)), b...)
	}
	serve := func(k int, cp *clPeer) {
		pl := plan(k)
		t0 := cp.accepted
		after := func(n int, half bool) {
			d := t0 + 2*time.Duration(clamp(n, 0, 10000))*tick - c.Now()
			if half {
				d += tick / 2
			}
			if d > 0 {
				time.Sleep(d)
			}
		}
		for i, a := range pl.Asks {
			i, a := i, a
			c.Go(func() {
				after(a.T, false)
				cp.p.Send(wire.Frame{ID: uint64(2 * (i + 1)), Flags: wire.NB, Cmd: uint32(0x10000 | k<<8 | i)})
			})
		}
		for i, a := range pl.Pushes {
			i, a := i, a
			c.Go(func() {
				after(a.T, false)
				cp.p.Send(wire.Frame{ID: uint64(2*i + 1), Flags: wire.Push, Cmd: uint32(0x20000 | k<<8 | i)})
			})
		}
		if pl.Cut > 0 {
			c.Go(func() {
				after(pl.Cut, true)
				mu.Lock()
				if cp.cut < 0 {
					cp.cut = c.Now()
				}
				mu.Unlock()
				switch pl.CutKind {
				case 0:
					cp.p.conn.Break()
				case 1:
					cp.p.conn.Close()
				case 2:
					cp.p.conn.CloseWrite()
				default:
					cp.p.conn.BreakSoft()
				}
			})
		}
		if pl.Stale {
			mu.Lock()
			for _, o := range peers[:k] {
				for id, a := range o.answers {
					if !a.done {
						cp.p.Send(wire.Frame{ID: id, Cmd: 9, Payload: []byte("stale")})
					}
				}
			}
			mu.Unlock()
		}
		if pl.NoRead {
			return
		}
		cp.p.read()
		streams := map[uint64]*clGot{}
		for n := 0; cp.p.WaitN(n+1, 10*time.Hour); n++ {
			f := cp.p.Frames()[n]
			if f.ID%2 == 0 { // answers of the client's handlers
				continue
			}
			if f.Flags&wire.Rst != 0 || f.Cmd&0x40000 != 0 {
				if f.Cmd&0x40000 != 0 {
					cp.p.Send(wire.Frame{ID: f.ID, Cmd: 5, Payload: []byte("back")})
				}
				continue
			}
			if f.Cmd == 0x30000 {
				mu.Lock()
				fin++
				mu.Unlock()
				cp.p.Send(wire.Frame{ID: f.ID, Cmd: 5, Payload: []byte("fin")})
				continue
			}
			oi := int(f.Cmd)
			if oi >= len(s.Ops) {
				c.Failf("the server got %v", f.Frame)
				continue
			}
			op := s.Ops[oi]
			mu.Lock()
			g := streams[f.ID]
			if g == nil {
				got[oi] = append(got[oi], clGot{conn: k, at: f.At, ans: -1})
				g = &got[oi][len(got[oi])-1]
				streams[f.ID] = g
			}
			g.body = append(g.body, f.Payload...)
			last := f.Flags&wire.Stream == 0 || f.Flags&wire.StreamEnd != 0
			b := body(k, oi, g.body)
			if last && f.Flags&wire.Push == 0 && op.Answer < 0 {
				cp.answers[f.ID] = clAns{body: b}
			}
			mu.Unlock()
			if !last || f.Flags&wire.Push != 0 || op.Answer < 0 {
				continue
			}
			f0 := f
			c.Go(func() {
				// the next even tick, so many later
				n := (int((f0.At-base)/tick)+1)/2*2 + 2*clamp(op.Answer, 0, 10000)
				until(n)
				mu.Lock()
				defer mu.Unlock()
				if cp.cut >= 0 {
					cp.answers[f0.ID] = clAns{body: b}
					return
				}
				g.ans = c.Now()
				var fl byte
				if f0.Flags&wire.Stream != 0 {
					fl = wire.Stream | wire.StreamEnd
				}
				cp.p.Send(wire.Frame{ID: f0.ID, Flags: fl, Cmd: 5, Payload: b})
			})
		}
	}
	ls := make([]*vnet.Listener, len(s.Addrs))
	up := func(i int) {
		l, err := w.net.Listen(fmt.Sprint("a", i))
		if err != nil {
			c.Fatalf("listen: %v", err)
		}
		mu.Lock()
		ls[i] = l
		mu.Unlock()
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				cp := &clPeer{p: w.peer(nc.(*vnet.Conn)), accepted: c.Now(), cut: -1, answers: map[uint64]clAns{}}
				mu.Lock()
				k := len(peers)
				peers = append(peers, cp)
				mu.Unlock()
				c.Go(func() { serve(k, cp) })
			}
		}()
	}
	// times at which an address is down: [from, to) in order
	down := make([][][2]time.Duration, len(s.Addrs))
	for i, ts := range s.Addrs {
		i := i
		up(i)
		t, isUp := 0, true
		for _, x := range ts {
			if !s.Reconnect {
				break
			}
			x = max(clamp(x, 0, 10000), t)
			if x == t && t > 0 {
				continue
			}
			t = x
			end = max(end, 2*t)
			tt, toUp := 2*t, !isUp
			if toUp {
				down[i][len(down[i])-1][1] = at(tt) + tick/4
			} else {
				down[i] = append(down[i], [2]time.Duration{at(tt) + tick/4, -1})
			}
			isUp = !isUp
			c.Go(func() {
				until(tt)
				time.Sleep(tick / 4)
				if toUp {
					up(i)
				} else {
					mu.Lock()
					l := ls[i]
					mu.Unlock()
					l.Close()
				}
			})
		}
	}
	c.Cleanup(func() {
		for _, l := range ls {
			l.Close()
		}
	})

	// the client
	var (
		conn     *qrpc.Connection
		connects []time.Duration
		discs    []time.Duration
		dials    []time.Duration
		handled  = map[string]int{}
		closedAt = time.Duration(-1)
		closeOK  int
		tasks    int
		events   []string
	)
	doClose := func(cn *qrpc.Connection) {
		mu.Lock()
		if closedAt < 0 {
			closedAt = c.Now()
		}
		mu.Unlock()
		err := cn.Close()
		mu.Lock()
		defer mu.Unlock()
		if err == nil {
			closeOK++
		} else if !errors.Is(err, qrpc.ErrConnAlreadyClosed) {
			c.Failf("Close: %v", err)
		}
	}
	conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.Ch, 0, 100)}
	conf.OverlayNetwork = func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
		mu.Lock()
		dials = append(dials, c.Now())
		n := len(dials)
		mu.Unlock()
		if n > 5000 {
			time.Sleep(time.Hour)
		}
		if s.Delay > 0 {
			time.Sleep(time.Duration(2*clamp(s.Delay, 0, 1000)) * tick)
		}
		a, _, err := w.net.Dial(addr, vnet.Opts{Buf: 1000}, vnet.Opts{})
		if err != nil {
			return nil, err
		}
		c.Cleanup(func() { a.Break(); a.Close() })
		return a, nil
	}
	in := func(where int, k int, cn *qrpc.Connection) {
		for _, x := range s.Closes {
			if x.Where == where && clamp(x.T, 0, 10000)%4 == k-1 {
				doClose(cn)
			}
		}
	}
	conf.LifecycleCallbacks.OnConnect = func(cn *qrpc.Connection) {
		mu.Lock()
		connects = append(connects, c.Now())
		events = append(events, "connect")
		k := len(connects)
		mu.Unlock()
		in(ccConnect, k, cn)
	}
	conf.LifecycleCallbacks.OnDisconnect = func(cn *qrpc.Connection) {
		mu.Lock()
		discs = append(discs, c.Now())
		events = append(events, "disconnect")
		k := len(discs)
		mu.Unlock()
		in(ccDisconnect, k, cn)
	}
	closed := func() bool { mu.Lock(); defer mu.Unlock(); return closedAt >= 0 }
	begin := func(key string) func() {
		mu.Lock()
		handled[key]++
		tasks++
		mu.Unlock()
		return func() { mu.Lock(); tasks--; mu.Unlock() }
	}
	conf.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		k, i := int(f.Cmd)>>8&0xff, int(f.Cmd)&0xff
		if f.Cmd>>16 != 1 || i >= len(plan(k).Asks) {
			c.Failf("client handler for %v", toWire((*qrpc.Frame)(f)))
			return
		}
		defer begin(fmt.Sprintf("ask %d.%d", k, i))()
		a := plan(k).Asks[i]
		time.Sleep(time.Duration(2*clamp(a.Dur, 0, 10000)) * tick)
		cn := f.ClientConnectionInfo().CC
		switch a.Kind {
		case ctCtx:
			<-f.Context().Done()
		case ctAsk:
			if _, resp, err := cn.Request(0x40000, 0, nil); err == nil {
				resp.GetFrame()
			}
		case ctClose:
			doClose(cn)
		case ctPanic:
			panic("planned")
		case ctDrop:
			time.Sleep(tick / 2)
			mu.Lock()
			if cp := peers[k]; cp.cut < 0 {
				cp.cut = c.Now()
				c.Label("dropped by a handler")
			}
			mu.Unlock()
			if err := f.Close(); err != nil {
				c.Failf("RequestFrame.Close: %v", err)
			}
			if s.Reconnect && cn.IsClosed() && !closed() {
				c.Failf("a handler closed the connection of its request; the client is closed: %v", cn.IsClosed())
			}
		}
		wr.StartWrite(f.RequestID, 6, 0)
		wr.WriteBytes([]byte(fmt.Sprintf("a%d.%d", k, i)))
		wr.EndWrite()
	})
	sub := func(cn *qrpc.Connection, f *qrpc.Frame) {
		k, i := int(f.Cmd)>>8&0xff, int(f.Cmd)&0xff
		if f.Cmd>>16 != 2 || i >= len(plan(k).Pushes) {
			c.Failf("pushed %v", toWire(f))
			return
		}
		defer begin(fmt.Sprintf("push %d.%d", k, i))()
		a := plan(k).Pushes[i]
		time.Sleep(time.Duration(2*clamp(a.Dur, 0, 10000)) * tick)
		if a.Kind == ctClose {
			doClose(cn)
		}
	}
	w.c.Cleanup(func() {
		if conn != nil {
			conn.Close()
		}
		time.Sleep(10 * time.Second)
	})
	created := make(chan struct{})
	c.Go(func() {
		if s.Reconnect {
			var as []string
			for i := range s.Addrs {
				as = append(as, fmt.Sprint("a", i))
			}
			conn = qrpc.NewConnectionWithReconnect(as, conf, sub)
		} else {
			var err error
			conn, err = qrpc.NewConnection("a0", conf, sub)
			if err != nil {
				c.Failf("NewConnection: %v", err)
				return
			}
		}
		close(created)
	})
	if !c.WaitDone(created, time.Hour) {
		c.Fatalf("the constructor did not return")
	}
	var doneAt, waitAt time.Duration = -1, -1
	c.Go(func() { <-conn.Done(); mu.Lock(); doneAt = c.Now(); mu.Unlock() })
	c.Go(func() { conn.Wait(); mu.Lock(); waitAt = c.Now(); mu.Unlock() })

	// its users
	call := func(f func(*clCall)) *clCall {
		cc := &clCall{start: c.Now(), end: -1}
		f(cc)
		mu.Lock()
		cc.end = c.Now()
		mu.Unlock()
		return cc
	}
	calls := make([]*clCall, len(s.Ops))
	for i, op := range s.Ops {
		i, op := i, op
		t := 2*clamp(op.T, 0, 10000) + 1
		end = max(end, t)
		calls[i] = &clCall{start: -1, end: -1}
		c.Go(func() {
			until(t)
			mu.Lock()
			calls[i].start = c.Now()
			mu.Unlock()
			cc := call(func(cc *clCall) {
				b := pbt.Bytes(clamp(op.Size, 0, 1<<16), uint64(i))
				var resp qrpc.Response
				var err error
				switch op.Kind {
				case clStream:
					var sw qrpc.StreamWriter
					sw, resp, err = conn.StreamRequest(qrpc.Cmd(i), 0, b)
					if err == nil {
						mu.Lock()
						calls[i].sw = sw
						mu.Unlock()
						for k := clamp(op.Chunks, 0, 20); k >= 0; k-- {
							sw.StartWrite(qrpc.Cmd(i))
							sw.WriteBytes([]byte{byte(k)})
							if err = sw.EndWrite(k == 0); err != nil {
								break
							}
						}
					}
				case clPush:
					_, _, err = conn.Request(qrpc.Cmd(i), qrpc.PushFlag, b)
					cc.err, cc.failed = err, err != nil
					return
				default:
					_, resp, err = conn.Request(qrpc.Cmd(i), 0, b)
				}
				if err != nil {
					cc.err, cc.failed = err, true
					return
				}
				f, err := resp.GetFrame()
				if err != nil {
					cc.err = err
					return
				}
				cc.frame = f.Payload
			})
			mu.Lock()
			cc.sw = calls[i].sw
			*calls[i] = *cc
			mu.Unlock()
		})
	}
	for _, x := range s.Closes {
		if x.Where != ccUser {
			continue
		}
		t := 2*clamp(x.T, 0, 10000) + 1
		end = max(end, t)
		for n := clamp(x.N, 1, 5); n > 0; n-- {
			c.Go(func() { until(t); doClose(conn) })
		}
	}
	until(end + 2)
	// everything comes up again; what is planned for the connections happens
	for i := range ls {
		if !w.net.Listening(fmt.Sprint("a", i)) {
			mu.Lock()
			l := ls[i]
			mu.Unlock()
			l.Close()
			up(i)
			if n := len(down[i]); n > 0 && down[i][n-1][1] < 0 {
				down[i][n-1][1] = c.Now()
			}
		}
	}
	upAt := c.Now()
	total := time.Duration(0) // the longest anything planned for a connection can take
	for _, cn := range s.Conns {
		d := time.Duration(clamp(cn.Cut, 0, 10000))
		for _, a := range append(append([]clTask(nil), cn.Asks...), cn.Pushes...) {
			d += time.Duration(clamp(a.T, 0, 10000) + clamp(a.Dur, 0, 10000) + 1)
		}
		total += 2 * d * tick
	}
	retry := time.Duration(len(s.Addrs)) * (2*time.Second + time.Duration(2*clamp(s.Delay, 0, 1000))*tick)
	c.Sleep(time.Duration(len(s.Conns)+1)*retry + total + time.Minute)
	c.Quiesce()
	mu.Lock()
	alive := closedAt < 0
	last := len(peers) - 1
	lasting := alive && last >= 0 && peers[last].cut < 0 && !plan(last).NoRead && (s.Reconnect || last == 0)
	dead := alive && !s.Reconnect && last == 0 && peers[0].cut >= 0
	mu.Unlock()
	if alive && s.Reconnect && len(connects) == 0 {
		c.Fatalf("the client has not connected although every address accepts since %v", c.Now()-upAt)
	}
	if lasting {
		var res []byte
		var err error
		ok := c.Do(time.Minute, func() {
			var resp qrpc.Response
			var f *qrpc.Frame
			if _, resp, err = conn.Request(0x30000, 0, nil); err == nil {
				if f, err = resp.GetFrame(); err == nil {
					res = f.Payload
				}
			}
		})
		if !ok || err != nil || string(res) != "fin" {
			c.Fatalf("a request on a connection which lasts: returned %v, %q %v; connection %d", ok, res, err, last)
		}
		c.Label("request after it all")
	}
	if dead {
		if !conn.IsClosed() {
			c.Fatalf("a lost connection is not closed")
		}
		c.Label("plain connection lost")
	}
	userClosed := !alive
	doClose(conn)
	c.Sleep(time.Minute)
	c.Quiesce()

	// ---- judgement
	mu.Lock()
	defer mu.Unlock()
	T := closedAt
	want := 1
	if !s.Reconnect && len(peers) > 0 && peers[0].cut >= 0 && peers[0].cut < T { // the loss closed it
		T = peers[0].cut
		want = 0
	}
	subs := time.Duration(0)
	for _, cn := range s.Conns {
		for _, a := range cn.Pushes {
			subs += time.Duration(2*clamp(a.Dur, 0, 10000)) * tick
		}
	}
	// a lost plain connection is closed once its handlers have returned
	slow := want == 0 && len(plan(0).Asks) > 0
	if subs == 0 && !slow && closeOK != want || closeOK > 1 {
		c.Fatalf("%d calls of Close succeeded, %d expected", closeOK, want)
	}
	if doneAt < 0 || waitAt < 0 {
		c.Fatalf("closed at %v: Done closed %v, Wait returned %v; %d tasks running", T-base, doneAt >= 0, waitAt >= 0, tasks)
	}
	if slow && (doneAt < T || doneAt > T+total) || subs == 0 && !slow && doneAt != T {
		c.Fatalf("closed at %v, Done at %v", T-base, doneAt-base)
	}
	if tasks != 0 {
		c.Fatalf("%d handlers are still running", tasks)
	}
	for i, e := range events {
		if (e == "connect") != (i%2 == 0) {
			c.Fatalf("callbacks: %v", events)
		}
	}
	if len(connects) != len(discs) {
		c.Fatalf("%d connect and %d disconnect callbacks", len(connects), len(discs))
	}
	for k, cp := range peers {
		if !cp.p.conn.PeerClosed() {
			c.Fatalf("network connection %d was left open", k)
		}
	}
	if len(connects) > len(peers) {
		c.Fatalf("%d connect callbacks for %d connections", len(connects), len(peers))
	}
	for _, d := range dials {
		if d > max(T, doneAt) {
			c.Fatalf("closed at %v, dialled at %v (%d dials)", T-base, d-base, len(dials))
		}
	}
	if n := (len(connects)+1)*(len(s.Addrs)+1) + int((c.Now()-base)/(2*time.Second)) + 2; len(dials) > n {
		c.Fatalf("%d dials for %d connections", len(dials), len(connects))
	}
	if gs := pbt.Goroutines("qrpc"); len(gs) > 0 {
		c.Fatalf("%d goroutines left: %s", len(gs), gs[0])
	}
	for key, n := range handled {
		if n != 1 {
			c.Fatalf("%s was handled %d times", key, n)
		}
	}
	// answers of the client's handlers stay on their connection
	for k, cp := range peers {
		if plan(k).NoRead {
			continue
		}
		if err := cp.p.Bad(); err != nil {
			c.Fatalf("connection %d: %v", k, err)
		}
		seen := map[uint64]bool{}
		for _, f := range cp.p.Frames() {
			if f.ID%2 == 1 {
				continue
			}
			i := int(f.ID)/2 - 1
			if i < 0 || i >= len(plan(k).Asks) || seen[f.ID] {
				c.Fatalf("connection %d: unexpected %v", k, f.Frame)
			}
			seen[f.ID] = true
			if want := fmt.Sprintf("a%d.%d", k, i); f.Flags&wire.Rst == 0 && string(f.Payload) != want {
				c.Fatalf("connection %d got %v for its request %d", k, f.Frame, i)
			}
			c.Label("answered by the client")
		}
	}
	// reconnects
	if s.Reconnect {
		for k := 0; k <= len(discs); k++ {
			from := base
			if k > 0 {
				from = discs[k-1]
			}
			bound := retry + total + 2*tick
			ok := false
			for i := range s.Addrs {
				cov := true
				for _, d := range down[i] {
					if d[0] <= from+bound && (d[1] < 0 || d[1] >= from) {
						cov = false
					}
				}
				ok = ok || cov
			}
			if !ok || from+bound > T {
				continue
			}
			if k >= len(connects) || connects[k] > from+bound {
				c.Fatalf("disconnected at %v, an address accepts all the time; %d connects, closed at %v", from-base, len(connects), T-base)
			}
			if k > 0 {
				c.Label("reconnected")
				c.NonTrivial()
			}
		}
	}
	// calls
	noread := false
	for k := range peers {
		noread = noread || plan(k).NoRead
	}
	pending := 0
	for i, cc := range calls {
		op := s.Ops[i]
		g := got[i]
		if cc.end < 0 {
			c.Fatalf("call %d (%+v) of %v never returned; closed at %v, connects %v, disconnects %v", i, op, cc.start-base, T-base, connects, discs)
		}
		if len(g) > 1 {
			c.Fatalf("call %d was received %d times", i, len(g))
		}
		if cc.end > max(T, cc.start)+5*time.Second {
			c.Fatalf("call %d of %v returned at %v, closed at %v", i, cc.start-base, cc.end-base, T-base)
		}
		if !noread && subs == 0 && cc.end > max(T, cc.start) {
			c.Fatalf("call %d of %v returned at %v, closed at %v", i, cc.start-base, cc.end-base, T-base)
		}
		if cc.start > doneAt && cc.err == nil {
			c.Fatalf("call %d after the close succeeded", i)
		}
		if cc.end >= T && cc.start < T {
			pending++
		}
		if cc.frame != nil {
			if len(g) == 0 || g[0].ans < 0 || !bytes.Equal(cc.frame, body(g[0].conn, i, g[0].body)) {
				c.Fatalf("call %d got %s, the server received it %v", i, short(cc.frame), len(g))
			}
			if cc.end < g[0].ans {
				c.Fatalf("call %d was answered before the server did", i)
			}
		}
		if noread || subs > 0 {
			continue
		}
		// was a connection up all the time?
		for k := 0; k < len(connects) && k < len(discs); k++ {
			if connects[k] >= cc.start || discs[k] <= cc.start {
				continue
			}
			if len(g) == 0 {
				c.Fatalf("call %d of %v: the connection was up from %v to %v, the server got nothing (%v)", i, cc.start-base, connects[k]-base, discs[k]-base, cc.err)
			}
			if g[0].at != cc.start {
				c.Fatalf("call %d of %v arrived at %v", i, cc.start-base, g[0].at-base)
			}
			a := g[0].ans
			switch {
			case op.Kind == clPush:
				if cc.failed {
					c.Fatalf("push %d failed: %v", i, cc.err)
				}
			case a >= 0 && a < discs[k] && a < T:
				if cc.frame == nil || cc.end != a {
					c.Fatalf("call %d of %v was answered at %v and returned %v at %v", i, cc.start-base, a-base, cc.err, cc.end-base)
				}
			case a < 0 || a > discs[k]:
				if cc.err == nil || cc.end != min(discs[k], T) {
					c.Fatalf("call %d of %v was not answered and returned %v at %v, the connection ended at %v", i, cc.start-base, cc.err, cc.end-base, discs[k]-base)
				}
			}
		}
	}
	// and later ones
	if _, _, err := conn.Request(1, 0, nil); err == nil {
		c.Fatalf("Request on a closed connection succeeded")
	}
	if _, _, err := conn.StreamRequest(1, 0, nil); err == nil {
		c.Fatalf("StreamRequest on a closed connection succeeded")
	}
	for i, cc := range calls {
		if cc.sw == nil {
			continue
		}
		sw := cc.sw
		var e1, e2 error
		if !c.Do(time.Minute, func() {
			sw.StartWrite(1)
			e1 = sw.EndWrite(true)
			e2 = conn.ResetFrame(sw.RequestID(), 0)
		}) || e1 == nil || e2 == nil {
			c.Fatalf("stream %d of a closed connection: %v %v", i, e1, e2)
		}
	}
	if err := conn.Close(); !errors.Is(err, qrpc.ErrConnAlreadyClosed) {
		c.Fatalf("second Close: %v", err)
	}
	if pending > 0 && userClosed {
		c.Label("calls pending at the close")
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L04",
		Title: "closing a client",
		Rule:  "generated: plain and reconnecting clients with pending requests, streams and pushes of generated sizes, handlers and subscribers of generated durations, servers which answer late or never, stop reading or lose the connection, and Close by several goroutines at any tick, in handlers, subscribers and callbacks; oracle: exact virtual times of all returns, matched callbacks, closed network connections, no dial after it, no goroutine left. Non-trivial: calls were pending at the close (or a reconnect happened)",
		Gen:   func(r *pbt.R) any { return genCl(r, false) }, New: func() any { return &cl{} }, Run: runCl,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "L05",
		Title: "reconnecting clients",
		Rule:  "generated: reconnecting clients over one to four addresses which go down and up at generated times, connections lost in four ways or closed by a handler, with requests, streams, pushes and handlers in progress, servers which answer old ids on new connections; oracle: bounded time to the next connection, alternating callbacks, every call received at most once and answered exactly where it was received, exact results of calls on connections which are up. Non-trivial: a reconnect happened (or calls were pending at the close)",
		Gen:   func(r *pbt.R) any { return genCl(r, true) }, New: func() any { return &cl{} }, Run: runCl,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
