package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// ---- D01: data races. The binary of this check is built with the race
// detector. A case is either a scenario of another property, over any
// transport, or a storm: calls into every concurrent part of the API at the
// same few instants.

var d01Subs = []struct {
	id string
	w  int
}{
	{"S01", 4}, {"L01", 4}, {"P01", 4}, {"C01", 3}, {"F01", 2}, {"R01", 3}, {"R02", 1}, {"R03", 1}, {"R04", 2}, {"S02", 2}, {"S03", 3}, {"S04", 3}, {"Z01", 2},
	{"M02", 1}, {"I01", 3}, {"H01", 3}, {"H02", 3}, {"L02", 3}, {"L03", 1}, {"L04", 3}, {"L05", 3}, {"A01", 4}, {"Q01", 1}, {"Q02", 2}, {"Q03", 1}, {"Q04", 3},
	{"Q05", 2}, {"Q06", 2}, {"G02", 3}, {"R05", 2}, {"L08", 3},
}

const (
	dRequest = iota
	dBlocking
	dStream
	dReset
	dClose
	dPoll
	dWalk
	dID
	dBack
	dBackStream
	dKill
	dThrottle
	dServer
	dDial
	dShutdown
	dMux
	dAPI
	dAPIClose
	dCallback
	dHandlerClose
	dPush
	dChannel
	nDKinds
)

type dOp struct {
	T    int
	Conn int
	Kind int
	N    int
}

type dStorm struct {
	Recon  []bool // per connection
	WCh    int
	RCh    int
	Limits bool
	Ops    []dOp
}

type d01 struct {
	Tr    int
	ID    string
	Sc    json.RawMessage
	Storm *dStorm
}

func genD01(r *pbt.R) any {
	s := &d01{}
	if r.P(1, 3) {
		s.Tr = r.Range(1, nTrs-1)
	}
	if r.P(2, 5) {
		st := &dStorm{WCh: pbt.Pick(r, 0, 1, 4), RCh: pbt.Pick(r, 0, 0, 1, 4), Limits: r.P(1, 3)}
		for n := r.Range(1, 4); n > 0; n-- {
			st.Recon = append(st.Recon, r.P(1, 2))
		}
		ws := []int{6, 4, 5, 4, 2, 2, 8, 4, 4, 3, 2, 2, 3, 4, 1, 2, 5, 1, 4, 1, 4, 3}
		last := r.Range(1, 6)
		for n := r.Range(2, 40); n > 0; n-- {
			st.Ops = append(st.Ops, dOp{T: r.Intn(last), Conn: r.Intn(len(st.Recon)), Kind: r.W(ws...), N: r.Intn(6)})
		}
		s.Storm = st
		return s
	}
	var ws []int
	for _, s := range d01Subs {
		ws = append(ws, s.w)
	}
	s.ID = d01Subs[r.W(ws...)].id
	sc, err := json.Marshal(pbt.Props[s.ID].Gen(r))
	if err != nil {
		panic(err)
	}
	s.Sc = sc
	transported := false
	for _, x := range w01Subs {
		transported = transported || x.id == s.ID
	}
	if !transported {
		s.Tr = 0
	}
	return s
}

func runD01(c *pbt.C, sc any) {
	s := sc.(*d01)
	if tr := clamp(s.Tr, 0, nTrs-1); tr > 0 {
		c.Tag = env{tr: tr}
		c.Label("over %s", trNames[tr])
	}
	if s.Storm != nil {
		runStorm(c, s.Storm)
		return
	}
	for _, x := range d01Subs {
		if x.id == s.ID {
			p := pbt.Props[s.ID]
			sub := p.New()
			if err := json.Unmarshal(s.Sc, sub); err != nil {
				return
			}
			c.Label("scenario of %s", s.ID)
			p.Run(c, sub)
			return
		}
	}
}

func runStorm(c *pbt.C, s *dStorm) {
	if len(s.Recon) == 0 {
		return
	}
	if len(s.Recon) > 6 {
		s.Recon = s.Recon[:6]
	}
	if len(s.Ops) > 60 {
		s.Ops = s.Ops[:60]
	}
	w := newWorld(c)
	o := NetOpt{}
	o.C2S.Buf, o.S2C.Buf = 1<<20, 1<<20
	var (
		conns   []*qrpc.Connection
		mu      sync.Mutex
		dialled []*qrpc.Connection
		last    = make([]atomic.Uint64, len(s.Recon))
		bound   = make([]atomic.Bool, len(s.Recon))
		byAddr  sync.Map
	)
	answer := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		defer func() {
			recover()
		}()
		body := append([]byte(nil), f.Payload...)
		for f.FrameCh() != nil {
			g := <-f.FrameCh()
			if g == nil {
				break
			}
			body = append(body, g.Payload...)
		}
		wr.StartWrite(f.RequestID, f.Cmd+1, qrpc.StreamFlag|qrpc.CodecFlag)
		wr.WriteBytes(body)
		if wr.EndWrite() != nil {
			return
		}
		wr.StartWrite(f.RequestID, f.Cmd+1, qrpc.StreamFlag|qrpc.StreamEndFlag)
		wr.EndWrite()
	}
	mux := qrpc.NewServeMux()
	mux.HandleFunc(10, answer)
	mux.HandleFunc(20, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		sw, resp, err := f.StreamInitiator().StreamRequest(30, qrpc.NBFlag, f.Payload)
		if err == nil {
			sw.StartWrite(30)
			sw.EndWrite(true)
			ctx, cancel := context.WithTimeout(f.Context(), time.Second)
			g, err := resp.GetFrameWithContext(ctx)
			cancel()
			if err == nil {
				for range g.FrameCh() {
				}
			} else {
				go func() {
					if g, err := resp.GetFrame(); err == nil {
						for range g.FrameCh() {
						}
					}
				}()
			}
		}
		answer(wr, f)
	})
	mux.HandleFunc(40, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		f.ConnectionInfo().GetID()
		f.Close()
	})
	drain := func(f *qrpc.Frame) {
		go func() {
			for range f.FrameCh() {
			}
		}()
	}
	b := qrpc.ServerBinding{Handler: mux, ReadFrameChSize: clamp(s.RCh, 0, 10), WriteFrameChSize: clamp(s.WCh, 0, 10), Codec: hCodec{},
		SubFunc:            func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { drain(f) },
		LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnAccept: func(net.Conn) error { return nil }, OnClose: func(net.Conn) {}},
	}
	if s.Limits {
		b.MaxInboundInflightStreamPerConn, b.MaxInboundFramePerSecond = 50, 1000
	}
	srv := w.serve(b)
	conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 10), Codec: hCodec{}, Handler: qrpc.HandlerFunc(answer)}
	conf.OverlayNetwork = func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
		a, _, err := w.dialFar(addr, o)
		if err != nil {
			return nil, err
		}
		return w.clientEnd(addr, a, nil, nil)
	}
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { drain(f) }
	dial := func(i int, recon bool) *qrpc.Connection {
		cf := conf
		overlay := cf.OverlayNetwork
		cf.OverlayNetwork = func(addr string, d qrpc.DialConfig) (net.Conn, error) {
			nc, err := overlay(addr, d)
			if err == nil {
				byAddr.Store(nc.LocalAddr().String(), i)
			}
			return nc, err
		}
		if recon {
			cf.LifecycleCallbacks = qrpc.ClientLifecycleCallbacks{OnConnect: func(*qrpc.Connection) {}, OnDisconnect: func(*qrpc.Connection) {}}
			return qrpc.NewConnectionWithReconnect(srv.addrs, cf, sub)
		}
		conn, err := qrpc.NewConnection(srv.addrs[0], cf, sub)
		if err != nil {
			return nil
		}
		return conn
	}
	for i, recon := range s.Recon {
		conn := dial(i, recon)
		if conn == nil {
			c.Fatalf("connect fails")
		}
		conns = append(conns, conn)
	}
	apiConf := conf
	var apiDials int64
	held := w.tr != trTCP
	for _, op := range s.Ops {
		held = held || op.Kind == dThrottle || op.Kind == dShutdown
	}
	apiConf.OverlayNetwork = func(addr string, d qrpc.DialConfig) (net.Conn, error) {
		nc, err := conf.OverlayNetwork(addr, d)
		// not a sleep, since calls wait for it at a lock
		for n := 100 * (atomic.AddInt64(&apiDials, 1) % 3); n > 0; n-- {
			runtime.Gosched()
		}
		return nc, err
	}
	api := qrpc.NewAPI(srv.addrs, apiConf, nil)
	c.Sleep(100 * time.Millisecond)
	base := c.Now()
	find := func(i int) (ci *qrpc.ConnectionInfo) {
		srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
			if k, ok := byAddr.Load(x.RemoteAddr()); ok && k == i {
				ci = x
				return false
			}
			return true
		})
		return
	}
	read := func(resp qrpc.Response, want []byte) {
		f, err := resp.GetFrame()
		if err != nil {
			return
		}
		if f.Flags.IsRst() {
			return
		}
		if !bytes.Equal(f.Payload, want) {
			c.Failf("a request of %s is answered by %s", short(want), short(f.Payload))
		}
		for range f.FrameCh() {
		}
	}
	write := func(sw qrpc.StreamWriter, p []byte, n int) []byte {
		all := append([]byte(nil), p...)
		for k := 0; k <= n; k++ {
			sw.StartWrite(10)
			sw.WriteBytes(p)
			if sw.EndWrite(k == n) != nil {
				break
			}
			all = append(all, p...)
		}
		return all
	}
	var ops []<-chan struct{}
	kinds := map[int]bool{}
	for oi, op := range s.Ops {
		oi, op := oi, op
		i := clamp(op.Conn, 0, len(conns)-1)
		conn := conns[i]
		n := clamp(op.N, 0, 10)
		p := []byte(fmt.Sprintf("%d of %d", oi, i))
		kind := clamp(op.Kind, 0, nDKinds-1)
		kinds[kind] = true
		ops = append(ops, c.Go(func() {
			time.Sleep(time.Duration(clamp(op.T, 0, 100))*time.Millisecond + base - c.Now())
			switch kind {
			case dRequest, dBlocking, dCallback:
				fl := []qrpc.FrameFlag{qrpc.NBFlag, 0, qrpc.NBFlag}[map[int]int{dRequest: 0, dBlocking: 1, dCallback: 2}[kind]]
				cmd := qrpc.Cmd(10)
				if kind == dCallback {
					cmd = 20
				}
				id, resp, err := conn.Request(cmd, fl, p)
				if err == nil {
					last[i].Store(id)
					read(resp, p)
				}
			case dStream:
				sw, resp, err := conn.StreamRequest(10, qrpc.NBFlag, p)
				if err == nil {
					last[i].Store(sw.RequestID())
					read(resp, write(sw, p, n))
				}
			case dReset:
				if id := last[i].Load(); id > 0 {
					conn.ResetFrame(id, 0)
				}
			case dClose:
				conn.Close()
			case dPoll:
				conn.GetReusedCon()
				for k := 0; k <= n; k++ {
					conn.IsClosed()
					select {
					case <-conn.Done():
					default:
					}
					runtime.Gosched()
				}
			case dWalk:
				for k := 0; k <= n; k++ {
					srv.WalkConn(0, func(wr qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
						ci.ReaderConfig().SetReadTimeout(n % 3 * 100)
						ci.GetID()
						ci.RemoteAddr()
						ci.IsClosed()
						ci.NotifyWhenClose(func() {})
						wr.StartWrite(srv.GetPushID(), 5, qrpc.PushFlag)
						wr.WriteBytes(p)
						wr.EndWrite()
						return true
					})
					runtime.Gosched()
				}
			case dID:
				if ci := find(i); ci != nil && bound[i].CompareAndSwap(false, true) {
					ci.SetID(fmt.Sprint("id", n%2)) // some of them are equal
				}
				srv.GetConnectionInfoByID(0, "id0")
				srv.WalkConnByID(0, []string{"id0", "id1"}, func(wr qrpc.FrameWriter, ci *qrpc.ConnectionInfo, _ int) {
					ci.GetID()
					wr.StartWrite(srv.GetPushID(), 5, qrpc.PushFlag)
					wr.EndWrite()
				})
			case dBack:
				if ci := find(i); ci != nil {
					if _, resp, err := ci.Request(10, qrpc.NBFlag, p); err == nil {
						read(resp, p)
					}
				}
			case dBackStream:
				if ci := find(i); ci != nil {
					if sw, resp, err := ci.StreamRequest(10, qrpc.NBFlag, p); err == nil {
						read(resp, write(sw, p, n))
					}
				}
			case dKill:
				if ci := find(i); ci != nil {
					ci.Close()
				}
			case dThrottle:
				srv.SetThrottle(0)
				runtime.Gosched()
				srv.ClearThrottle(0)
			case dServer:
				srv.OnShutdown(func() {})
				srv.BindingConfig(0)
				srv.GetPushID()
			case dDial:
				if x := dial(-1, n%2 == 0); x != nil {
					mu.Lock()
					dialled = append(dialled, x)
					mu.Unlock()
					if _, resp, err := x.Request(10, qrpc.NBFlag, p); err == nil {
						read(resp, p)
					}
				}
			case dShutdown:
				srv.Shutdown()
			case dChannel:
				sd, rc, err := channel.NewTransport(conn).Pipe()
				if err != nil || s.Recon[i] { // End would wait at a lock for a Send which takes time
					break
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				done := make(chan struct{})
				if n%2 == 0 {
					sd.Send(ctx, 10, p, false)
				}
				go func() {
					sd.End()
					close(done)
				}()
				sd.Send(ctx, 10, p, n == 3)
				<-done
				sd.End()
				if n%2 == 0 {
					var m []byte
					for rc.Receive(ctx, nil, &m) == nil {
					}
				}
				cancel()
			case dMux:
				mux.HandleFunc(qrpc.Cmd(1000+oi), answer)
				if _, resp, err := conn.Request(qrpc.Cmd(1000+oi), qrpc.NBFlag, p); err == nil {
					read(resp, p)
				}
			case dAPI:
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				switch n {
				case 0, 3:
					api.Call(ctx, 10, p)
				case 1:
					api.CallAll(ctx, 10, p)
				case 5: // it loses its connection
					if held { // calls would wait at a lock for a dial which takes time
						break
					}
					srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
						if _, ok := byAddr.Load(x.RemoteAddr()); !ok {
							x.NotifyWhenClose(func() {})
							go x.Close()
							return false
						}
						return true
					})
				default:
					api.CallOne(ctx, srv.addrs[0], 10, p)
				}
				cancel()
			case dAPIClose:
				api.Close()
			case dHandlerClose:
				if _, resp, err := conn.Request(40, qrpc.NBFlag, p); err == nil {
					resp.GetFrame()
				}
			case dPush:
				if ci := find(i); ci != nil {
					wr := ci.GetWriter()
					id := srv.GetPushID()
					for k := 0; k <= n; k++ {
						fl := qrpc.PushFlag | qrpc.StreamFlag
						if k == n {
							fl |= qrpc.StreamEndFlag
						}
						wr.StartWrite(id, 5, fl)
						wr.WriteBytes(p)
						if wr.EndWrite() != nil {
							break
						}
					}
				}
			}
		}))
	}
	c.Sleep(3 * time.Second)
	shut := c.Go(func() { srv.Shutdown() })
	if !c.WaitDone(shut, time.Minute) {
		c.Fatalf("Shutdown hangs after the storm")
	}
	mu.Lock()
	all := append(append([]*qrpc.Connection(nil), conns...), dialled...)
	mu.Unlock()
	for _, conn := range all {
		conn := conn
		c.MustDo("Close after the storm", func() { conn.Close() })
	}
	c.MustDo("Close of the API after the storm", func() { api.Close() })
	for i, d := range ops {
		if !c.WaitDone(d, time.Minute) {
			c.Fatalf("operation %d (%v) hangs after its connection and the server are closed", i, s.Ops[i])
		}
	}
	c.Sleep(20 * time.Second)
	if g := pbt.Goroutines("zhiqiangxu/qrpc."); len(g) > 0 {
		c.Fatalf("%d goroutines are left: %s", len(g), g[0])
	}
	c.Label("storm with %d kinds of calls", len(kinds)/4*4)
	if len(kinds) >= 4 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "D01",
		Title: "data races",
		Rule:  "generated, with the race detector on: scenarios of 29 other properties over all transports, and storms of up to 40 calls at the same few instants into connections, connection infos, server, mux and API (requests both ways, streams, resets, pushes, walks, ids, read timeouts, channels, throttle, dials, closes, shutdown); oracle: no data race in which the library makes an access, and the oracles of those properties; after a storm every call has returned and no goroutine is left. Non-trivial: storms of at least four kinds of calls, other scenarios as stated there",
		Race:  true,
		Gen:   genD01, New: func() any { return &d01{} }, Run: runD01,
		Quick:    pbt.Budget{Cases: 8000, MaxSec: 70},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 900},
	})
}
