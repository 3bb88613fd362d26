package props

import (
	"context"
	"fmt"
	"net"
	"strconv"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"

	"github.com/zhiqiangxu/qrpc"
)

// ---- K01: what the library calls may call the library

const (
	cbAccept = iota
	cbClose
	cbKick
	cbSub
	cbMW
	cbHandler
	cbBlock
	cbNotify
	cbWalk
	cbShutdown
	cbConnect
	cbDisconnect
	cbCSub
	cbCHandler
	nCbs
)

var cbNames = []string{"OnAccept", "OnClose", "OnKickCB", "SubFunc of the server", "middleware", "handler", "blocking handler", "close notification", "function of WalkConn", "shutdown function",
	"OnConnect", "OnDisconnect", "subscriber of a client", "handler of a client"}

const (
	aWalk = iota
	aWalkID
	aLookup
	aGetID
	aSetID
	aKill
	aNotify
	aPush
	aRequest
	aWait
	aOnShutdown
	aThrottle
	aBinding
	aHandle
	aTimeout
	aCPoll
	aCRequest
	aCWait
	aCClose
	aCPush
	aCStream
	nActs
)

var actNames = []string{"WalkConn", "WalkConnByID", "GetConnectionInfoByID", "GetID", "SetID", "Close", "NotifyWhenClose", "push", "Request", "Request and GetFrame", "OnShutdown", "SetThrottle", "BindingConfig", "HandleFunc", "SetReadTimeout",
	"IsClosed", "Request", "Request and GetFrame", "Close", "push", "StreamRequest"}

// k01May are the calls each of them may make without waiting for itself: who
// keeps a connection from being read can't wait for an answer on it, and a
// kick can't wait for the end of the kicked connection
var k01May = func() (may [nCbs][]int) {
	quick := []int{aWalk, aWalkID, aLookup, aGetID, aPush, aRequest, aOnShutdown, aThrottle, aBinding, aHandle, aTimeout, aNotify}
	more := append(append([]int(nil), quick...), aSetID, aKill)
	all := append(append([]int(nil), more...), aWait)
	for cb := range may {
		switch cb {
		case cbKick, cbAccept:
			may[cb] = quick
		case cbHandler, cbWalk, cbShutdown:
			may[cb] = all
		case cbConnect, cbDisconnect, cbCHandler:
			may[cb] = []int{aCPoll, aCRequest, aCWait, aCClose, aCPush, aCStream}
		case cbCSub:
			may[cb] = []int{aCPoll, aCRequest, aCClose, aCPush, aCStream}
		default:
			may[cb] = more
		}
	}
	return
}()

type k01Act struct{ Kind, N, Dur int }

const (
	kPushS = iota
	kPushC
	kReq
	kBlock
	kAskC
	kWalk
	kBreak
	kKill
	kKick
	kShutdown
	kDial
	kCClose
	nKinds
)

type k01Trig struct{ T, Kind, Conn int }

type k01 struct {
	Recon    []bool
	Lat      int
	WCh, RCh int
	Acts     [nCbs][]k01Act
	Trigs    []k01Trig
}

func genK01(r *pbt.R) any {
	s := &k01{Lat: pbt.Pick(r, 0, 0, 1, r.Intn(10)), WCh: pbt.Pick(r, 0, 0, 1, 4), RCh: pbt.Pick(r, 0, 0, 1, 4)}
	for n := r.Range(1, 4); n > 0; n-- {
		s.Recon = append(s.Recon, r.P(1, 2))
	}
	p := r.Range(1, 4)
	for cb := range s.Acts {
		if !r.P(p, 5) {
			continue
		}
		for n := r.Range(1, 3); n > 0; n-- {
			k := pbt.Pick(r, k01May[cb]...)
			if k == aCClose && r.P(2, 3) {
				k = aCRequest
			}
			s.Acts[cb] = append(s.Acts[cb], k01Act{Kind: k, N: r.Intn(6), Dur: pbt.Pick(r, 0, 0, 0, r.Intn(10))})
		}
	}
	span := pbt.Pick(r, 1, 4, 30)
	for n := r.N(1, 16); n > 0; n-- {
		s.Trigs = append(s.Trigs, k01Trig{T: r.Intn(span), Conn: r.Intn(len(s.Recon)), Kind: r.W(3, 3, 4, 3, 3, 2, 3, 2, 2, 0, 1, 1)})
	}
	if r.P(1, 4) {
		s.Trigs = append(s.Trigs, k01Trig{T: r.Intn(span), Kind: kShutdown})
	}
	return s
}

func runK01(c *pbt.C, sc any) {
	s := sc.(*k01)
	s.Recon = s.Recon[:min(len(s.Recon), 6)]
	s.Trigs = s.Trigs[:min(len(s.Trigs), 40)]
	if len(s.Recon) == 0 {
		return
	}
	n := len(s.Recon)
	w := newWorld(c)
	var (
		mu      sync.Mutex
		srv     *Srv
		mux     = qrpc.NewServeMux()
		conns   = make([]*qrpc.Connection, n)
		nets    = make([]*vnet.Conn, n)
		infos   = make([]*qrpc.ConnectionInfo, n)
		seen    = map[*qrpc.ConnectionInfo]bool{}
		owned   = map[*qrpc.ConnectionInfo]bool{} // have an id
		running = map[string]int{}
		down    bool
		extra   []*qrpc.Connection
		cmds    = 1000
		used    = map[string]bool{}
	)
	info := func(i int) *qrpc.ConnectionInfo {
		mu.Lock()
		defer mu.Unlock()
		return infos[i%n]
	}
	enter := func(what string) func() {
		mu.Lock()
		running[what]++
		mu.Unlock()
		return func() { mu.Lock(); running[what]--; mu.Unlock() }
	}
	// setID binds an id to a connection which has none
	setID := func(ci *qrpc.ConnectionInfo, k int) {
		mu.Lock()
		had := owned[ci]
		owned[ci] = true
		mu.Unlock()
		if !had {
			ci.SetID(fmt.Sprint("id", k%3))
		}
	}
	var run func(cb int, ci *qrpc.ConnectionInfo, conn *qrpc.Connection)
	act := func(cb int, a k01Act, ci *qrpc.ConnectionInfo, conn *qrpc.Connection) {
		mu.Lock()
		used[fmt.Sprintf("%s in %s", actNames[a.Kind], cbNames[cb])] = true
		mu.Unlock()
		if ci == nil && a.Kind < aCPoll || a.N >= 3 {
			ci = info(a.N)
		}
		switch a.Kind {
		case aWalk:
			srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { x.GetID(); return true })
		case aWalkID:
			srv.WalkConnByID(0, []string{"id0", "id1", "id2"}, func(qrpc.FrameWriter, *qrpc.ConnectionInfo, int) {})
		case aLookup:
			srv.GetConnectionInfoByID(0, "id1")
		case aOnShutdown:
			srv.OnShutdown(func() { srv.OnShutdown(func() { srv.GetPushID() }) })
		case aThrottle:
			srv.SetThrottle(0)
			srv.ClearThrottle(0)
		case aBinding:
			srv.BindingConfig(0)
		case aHandle:
			mu.Lock()
			cmds++
			k := cmds
			mu.Unlock()
			mux.HandleFunc(qrpc.Cmd(k), func(qrpc.FrameWriter, *qrpc.RequestFrame) {})
		case aCPoll:
			conn.IsClosed()
			conn.GetReusedCon()
			conn.ResetFrame(12345, 1)
		case aCRequest:
			conn.Request(2, qrpc.NBFlag, nil)
		case aCWait:
			if _, resp, err := conn.Request(2, qrpc.NBFlag, nil); err == nil {
				resp.GetFrame()
			}
		case aCPush:
			conn.Request(4, qrpc.PushFlag, nil)
		case aCStream:
			if sw, _, err := conn.StreamRequest(2, qrpc.NBFlag, nil); err == nil {
				sw.StartWrite(2)
				sw.EndWrite(true)
			}
		case aCClose:
			conn.Close()
		}
		if ci == nil {
			return
		}
		switch a.Kind {
		case aGetID:
			ci.GetID()
			ci.RemoteAddr()
			ci.Server()
		case aSetID:
			setID(ci, a.N)
		case aKill:
			ci.Close()
		case aNotify:
			ci.NotifyWhenClose(func() { ci.GetID() })
		case aPush:
			wr := ci.GetWriter()
			wr.StartWrite(srv.GetPushID(), 4, qrpc.PushFlag)
			wr.EndWrite()
		case aRequest:
			ci.Request(2, 0, nil)
		case aWait:
			if _, resp, err := ci.Request(2, 0, nil); err == nil {
				resp.GetFrame()
			}
		case aTimeout:
			ci.ReaderConfig().SetReadTimeout(qrpc.ReadNoTimeout)
		}
	}
	run = func(cb int, ci *qrpc.ConnectionInfo, conn *qrpc.Connection) {
		for i, a := range s.Acts[cb] {
			if i > 8 {
				break
			}
			ok := false
			for _, k := range k01May[cb] {
				ok = ok || k == a.Kind
			}
			if !ok || a.N < 0 {
				continue
			}
			done := enter(fmt.Sprintf("%s in %s", actNames[a.Kind], cbNames[cb]))
			act(cb, a, ci, conn)
			done()
			if a.Dur > 0 && cb != cbAccept {
				time.Sleep(time.Duration(clamp(a.Dur, 0, 100)) * time.Millisecond)
			}
		}
	}
	answer := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if ch := f.FrameCh(); ch != nil && f.Flags&qrpc.StreamFlag != 0 && f.Flags&qrpc.StreamEndFlag == 0 {
			for range ch {
			}
		}
		wr.StartWrite(f.RequestID, 3, 0)
		wr.WriteBytes(f.Payload)
		wr.EndWrite()
	}
	// know keeps the latest connection of each client
	know := func(f *qrpc.RequestFrame) *qrpc.ConnectionInfo {
		ci := f.ConnectionInfo()
		i, err := strconv.Atoi(string(f.Payload))
		if err != nil || i < 0 || i >= n {
			return ci
		}
		mu.Lock()
		infos[i] = ci
		first := !seen[ci]
		seen[ci] = true
		mu.Unlock()
		if first {
			ci.NotifyWhenClose(func() { run(cbNotify, ci, nil) })
		}
		return ci
	}
	mw := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) bool {
		run(cbMW, f.ConnectionInfo(), nil)
		return true
	}
	mux.HandleFunc(1, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { know(f); answer(wr, f) })
	mux.HandleFunc(2, answer)
	mux.HandleFunc(10, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { run(cbHandler, know(f), nil); answer(wr, f) }, mw)
	mux.HandleFunc(11, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { run(cbBlock, know(f), nil); answer(wr, f) }, mw)
	srv = w.newServer(qrpc.ServerBinding{Handler: mux, ReadFrameChSize: clamp(s.RCh, 0, 20), WriteFrameChSize: clamp(s.WCh, 0, 20),
		SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
			if f.Cmd == 5 {
				run(cbSub, ci, nil)
			}
		},
		OnKickCB: func(qrpc.FrameWriter) { run(cbKick, nil, nil) },
		LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
			OnAccept: func(net.Conn) error { run(cbAccept, nil, nil); return nil },
			OnClose:  func(net.Conn) { run(cbClose, nil, nil) },
		}})
	srv.start()
	o := NetOpt{}
	o.C2S.Buf, o.S2C.Buf = 1<<20, 1<<20
	o.C2S.Lat, o.S2C.Lat = time.Duration(clamp(s.Lat, 0, 1000))*time.Millisecond, time.Duration(clamp(s.Lat, 0, 1000))*time.Millisecond
	armed := false // callbacks of clients act from here on
	client := func(i int, recon bool) *qrpc.Connection {
		ready := func() bool { mu.Lock(); defer mu.Unlock(); return armed }
		conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 20)}
		conf.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if f.Cmd == 10 {
				run(cbCHandler, nil, f.ClientConnectionInfo().CC)
			}
			answer(wr, f)
		})
		conf.OverlayNetwork = func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
			a, _, err := w.dialFar(addr, o)
			if err != nil {
				return nil, err
			}
			if i >= 0 {
				mu.Lock()
				nets[i] = a
				mu.Unlock()
			}
			c.Cleanup(func() { a.Break(); a.Close() })
			return w.clientEnd(addr, a, nil, nil)
		}
		conf.LifecycleCallbacks.OnConnect = func(cn *qrpc.Connection) {
			if ready() {
				run(cbConnect, nil, cn)
			}
		}
		conf.LifecycleCallbacks.OnDisconnect = func(cn *qrpc.Connection) {
			if ready() {
				run(cbDisconnect, nil, cn)
			}
		}
		sub := func(cn *qrpc.Connection, f *qrpc.Frame) {
			if f.Cmd == 5 {
				run(cbCSub, nil, cn)
			}
		}
		if recon {
			return qrpc.NewConnectionWithReconnect([]string{srv.addrs[0]}, conf, sub)
		}
		conn, err := qrpc.NewConnection(srv.addrs[0], conf, sub)
		if err != nil {
			return nil
		}
		return conn
	}
	hello := func(i int) error {
		_, resp, err := conns[i].Request(1, qrpc.NBFlag, []byte(strconv.Itoa(i)))
		if err == nil {
			_, err = resp.GetFrame()
		}
		return err
	}
	c.Cleanup(func() {
		for _, conn := range append(append([]*qrpc.Connection(nil), conns...), extra...) {
			if conn != nil {
				c.Go(func() { conn.Close() })
			}
		}
		time.Sleep(time.Second)
	})
	for i, recon := range s.Recon {
		if conns[i] = client(i, recon); conns[i] == nil {
			c.Fatalf("connecting fails")
		}
		if !c.Do(time.Hour, func() {
			if err := hello(i); err != nil && !conns[i].IsClosed() {
				c.Failf("a first request: %v", err)
			}
		}) {
			c.Fatalf("a first request is never answered")
		}
	}
	srv.OnShutdown(func() { run(cbShutdown, nil, nil) })
	mu.Lock()
	armed = true
	mu.Unlock()
	var done []<-chan struct{}
	for _, t := range s.Trigs {
		t := t
		done = append(done, c.Go(func() {
			time.Sleep(time.Duration(clamp(t.T, 0, 1000)) * time.Millisecond)
			i := clamp(t.Conn, 0, n-1)
			ci, conn := info(i), conns[i]
			who := []byte(strconv.Itoa(i))
			mu.Lock()
			if t.Kind == kShutdown {
				down = true
			}
			mu.Unlock()
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			switch t.Kind {
			case kPushS:
				conn.Request(5, qrpc.PushFlag, who)
			case kReq, kBlock:
				fl, cmd := qrpc.NBFlag, qrpc.Cmd(10)
				if t.Kind == kBlock {
					fl, cmd = 0, 11
				}
				if _, resp, err := conn.Request(cmd, fl, who); err == nil {
					resp.GetFrameWithContext(ctx)
				}
			case kBreak:
				mu.Lock()
				nc := nets[i]
				mu.Unlock()
				nc.Break()
			case kWalk:
				srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { run(cbWalk, x, nil); return true })
			case kShutdown:
				srv.Shutdown()
			case kDial:
				if x := client(-1, false); x != nil {
					mu.Lock()
					extra = append(extra, x)
					mu.Unlock()
				}
			case kCClose:
				conn.Close()
			}
			if ci == nil {
				return
			}
			switch t.Kind {
			case kPushC:
				wr := ci.GetWriter()
				wr.StartWrite(srv.GetPushID(), 5, qrpc.PushFlag)
				wr.EndWrite()
			case kAskC:
				if _, resp, err := ci.Request(10, 0, nil); err == nil {
					resp.GetFrameWithContext(ctx)
				}
			case kKill:
				ci.Close()
			case kKick:
				setID(ci, t.T)
			}
		}))
	}
	time.Sleep(2 * time.Second)
	c.Sleep(5 * time.Minute)
	mu.Lock()
	for what, k := range running {
		if k > 0 {
			c.Failf("%s never returns", what)
		}
	}
	isDown := down
	for what := range used {
		c.Label("%s", what)
	}
	kinds := len(used)
	mu.Unlock()
	if kinds > 1 {
		c.NonTrivial()
	}
	// all still works
	if !isDown {
		for i := range s.Recon {
			if conns[i].IsClosed() {
				continue
			}
			var err error
			ok := c.Do(10*time.Minute, func() {
				// its connection may be lost meanwhile: an OnConnect may close things
				for k := 0; k < 20; k++ {
					if err = hello(i); err == nil || conns[i].IsClosed() {
						return
					}
					time.Sleep(5 * time.Second)
				}
			})
			if !ok {
				c.Fatalf("a request of client %d afterwards never ends", i)
			}
		}
	}
	for i, conn := range conns {
		c.MustDo(fmt.Sprintf("Close of client %d", i), func() { conn.Close() })
		c.MustDo(fmt.Sprintf("Wait of client %d", i), func() { conn.Wait() })
	}
	for _, conn := range extra {
		conn.Close()
		c.MustDo("Wait", func() { conn.Wait() })
	}
	c.MustDo("Shutdown", func() { srv.Shutdown() })
	for _, d := range done {
		if !c.WaitDone(d, pbt.Long) {
			c.Fatalf("a call never returns")
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "K01",
		Title: "calls from callbacks",
		Rule:  "generated: up to three calls in each of the fourteen kinds of functions which the library calls (handlers, middleware, subscribers, lifecycle callbacks, close notifications, shutdown and walk functions), on the connection they are about or on others, while requests, pushes, walks, kicks, losses, closes and a shutdown go on; oracle: every such call returns, no matter when the connection is lost, clients go on working, and all can be closed. Non-trivial: at least two kinds of calls from within callbacks",
		Gen:   genK01,
		New:   func() any { return &k01{} }, Run: runK01,
		Quick:    pbt.Budget{Cases: 80000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
