package props

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"runtime/metrics"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// ---- H01, H02: hostile peers

// hItem is one thing the hostile side does
type hItem struct {
	Gap   int // ms before it
	Kind  int // 0 frame, 1 garbage bytes, 2 part of a frame, 3 a bad size
	ID    int // index into the id pool
	Flags int
	Cmd   int
	Pay   Pay
}

// hAct is one thing the local side does to the hostile connection
type hAct struct {
	T    int
	Kind int // 0 request, 1 stream request, 2 push, 3 streamed push, 4 reset of its last request, 5 another id's reset
	N    int
	Pay  Pay
}

// hBeh is what the handler of a command does
type hBeh struct {
	Kind int
	Dur  int
}

const nBeh = 12

type h01 struct {
	Items  []hItem
	Acts   []hAct
	Beh    []hBeh
	Conns  int // hostile connections
	Chs    int // read frame channel, write frame channel
	Limit  int // in-flight limit
	RTO    int // read timeout in seconds
	Codec  bool
	NoSub  bool
	Deaf   bool // the hostile side reads nothing until the end
	Buf    int
	End    int
	EndAt  int
	Pings  []int
	Local  bool // H02: with a handler
	Recon  bool
	MaxFr  int
	NoRead bool // H02: callers do not read what they are answered
}

func genHItems(r *pbt.R, client bool) (out []hItem) {
	n := r.N(1, 40)
	for i := 0; i < n; i++ {
		it := hItem{ID: r.Intn(6), Cmd: r.Intn(8)}
		if r.P(1, 2) {
			it.Gap = r.Intn(4)
		}
		if r.P(1, 20) {
			it.ID = r.Range(6, 9)
		}
		switch r.W(60, 1, 1, 1) {
		case 0:
			switch r.W(10, 14, 6, 4, 3, 3) {
			case 0:
				it.Flags = pbt.Pick(r, 0, wire.NB, wire.NB, wire.NB)
			case 1:
				it.Flags = wire.Stream | wire.NB
			case 2:
				it.Flags = wire.Stream | wire.StreamEnd | wire.NB
			case 3:
				it.Flags = wire.Rst
			case 4:
				it.Flags = pbt.Pick(r, wire.Stream, wire.Stream|wire.StreamEnd)
			default:
				it.Flags = r.Intn(64)
				if r.P(1, 4) {
					it.Flags = r.Intn(256)
				}
			}
			if client {
				it.Flags &^= wire.NB
				if it.ID%2 == 0 || r.P(1, 12) {
					it.Flags |= wire.NB
				}
			}
			if r.P(1, 6) {
				it.Flags |= wire.Push
			}
			if !r.P(1, 40) {
				it.Flags &^= wire.Codec
			}
			it.Pay = Pay{N: pbt.Pick(r, 0, r.Intn(10), r.Intn(10), r.Intn(300)), S: uint64(i)}
			if r.P(1, 60) {
				it.Pay.N = r.Intn(40000)
			}
		case 1:
			it.Kind = 1
			it.Pay = Pay{N: r.Range(1, 60), S: uint64(r.Intn(1 << 20))}
		case 2:
			it.Kind = 2
			it.Pay = Pay{N: r.Range(1, 60), S: uint64(i)}
			it.Flags = wire.NB
		case 3:
			it.Kind = 3
			it.Pay = Pay{N: pbt.Pick(r, 0, 1, 11, 12, 13, r.Intn(12), 9999999, 10000012, 0x7fffffff, 0xffffffff), S: 1}
		}
		out = append(out, it)
	}
	return
}

func genHActs(r *pbt.R) (out []hAct) {
	for i := r.Intn(6); i > 0; i-- {
		out = append(out, hAct{T: r.Intn(40), Kind: r.W(5, 4, 2, 2, 2, 2), N: r.Intn(5), Pay: Pay{N: r.Intn(50), S: 7}})
	}
	return
}

func genBeh(r *pbt.R) (out []hBeh) {
	for i := 0; i < 8; i++ {
		b := hBeh{Kind: r.Intn(nBeh)}
		if r.P(1, 2) {
			b.Dur = r.Intn(30)
		}
		out = append(out, b)
	}
	return
}

func genH01(r *pbt.R) any {
	s := &h01{Items: genHItems(r, false), Acts: genHActs(r), Beh: genBeh(r), Conns: 1 + r.Intn(2), Chs: r.Intn(4), End: r.Intn(6), EndAt: pbt.Pick(r, 100, r.Intn(60)), MaxFr: pbt.Pick(r, 0, 0, 100, 20000)}
	if r.P(1, 4) {
		s.Limit = r.Range(1, 6)
	}
	if r.P(1, 6) {
		s.RTO = 1 + r.Intn(4)
	}
	s.Codec = r.P(1, 4)
	s.NoSub = r.P(1, 3)
	s.Deaf = r.P(1, 5)
	s.Buf = pbt.Pick(r, 1<<20, r.Range(1, 2000), 64)
	for i := 0; i < 3; i++ {
		s.Pings = append(s.Pings, r.Intn(80))
	}
	return s
}

func genH02(r *pbt.R) any {
	s := genH01(r).(*h01)
	s.Items = genHItems(r, true)
	s.Local = r.P(3, 4)
	s.Recon = r.P(1, 2)
	s.NoRead = r.P(1, 4)
	s.Conns = 1
	s.End = r.Intn(5)
	for i := r.Intn(5); i > 0; i-- {
		s.Acts = append(s.Acts, hAct{T: r.Intn(20), Kind: r.W(5, 5), N: r.Intn(4), Pay: Pay{N: r.Intn(50), S: 7}})
	}
	return s
}

// hID maps the pool to ids; the low ones are those the other side uses itself
func hID(i int, client bool) uint64 {
	switch i = clamp(i, 0, 9); i {
	case 6:
		return 0
	case 7:
		return 1<<63 + 1
	case 8:
		return 1 << 40
	case 9:
		return 1<<64 - 1
	}
	if client {
		return []uint64{2, 3, 4, 5, 6, 7}[i]
	}
	return []uint64{1, 2, 3, 4, 5, 6}[i]
}

func (it hItem) bytes(client bool) []byte {
	f := wire.Frame{ID: hID(it.ID, client), Flags: byte(it.Flags), Cmd: uint32(clamp(it.Cmd, 0, 7)), Payload: Pay{clamp(it.Pay.N, 0, 1<<20), it.Pay.S}.Bytes()}
	switch it.Kind {
	case 1:
		return f.Payload
	case 2:
		b := wire.Encode(f)
		return b[:len(b)/2]
	case 3:
		b := wire.Encode(wire.Frame{ID: f.ID, Flags: f.Flags, Cmd: f.Cmd})
		n := uint32(it.Pay.N)
		b[0], b[1], b[2], b[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
		return b
	}
	return wire.Encode(f)
}

// hCodec fails on some inputs
type hCodec struct{}

func (hCodec) Encode(b []byte) ([]byte, error) { return append([]byte{0x5a}, b...), nil }
func (hCodec) Decode(b []byte) ([]byte, error) {
	if len(b) == 0 || b[0]&1 == 1 {
		return nil, fmt.Errorf("not encoded")
	}
	return b[1:], nil
}

// hState is what both checks count
type hState struct {
	c       *pbt.C
	s       *h01
	mu      sync.Mutex
	running int
	runs    int
	states  map[string]bool
	bad     string
	callers []<-chan struct{}
	names   []string
	writers []qrpc.StreamWriter
}

func (x *hState) enter(f *qrpc.RequestFrame) {
	x.mu.Lock()
	x.running++
	x.runs++
	x.mu.Unlock()
}

func (x *hState) leave() {
	x.mu.Lock()
	x.running--
	x.mu.Unlock()
}

// frame checks that a delivered frame is one the hostile side sent
func (x *hState) frame(f *qrpc.Frame, client bool) {
	for _, it := range x.s.Items {
		if it.Kind != 0 {
			return // anything may follow
		}
		if (x.s.Conns == 1 && hID(it.ID, client) != f.RequestID) || uint32(clamp(it.Cmd, 0, 7)) != uint32(f.Cmd) || byte(it.Flags) != byte(f.Flags) {
			continue
		}
		p := Pay{clamp(it.Pay.N, 0, 1<<20), it.Pay.S}.Bytes()
		if byte(it.Flags)&wire.Codec != 0 && x.s.Codec && len(p) > 0 {
			if d, err := (hCodec{}).Decode(p); err == nil && bytes.Equal(d, f.Payload) {
				return
			}
			continue
		}
		if bytes.Equal(p, f.Payload) {
			return
		}
	}
	x.c.Failf("a frame was delivered which nobody sent: id %d flags %x cmd %d %s", f.RequestID, f.Flags, f.Cmd, short(f.Payload))
}

func (x *hState) readAll(f *qrpc.Frame, limit time.Duration, client bool) {
	tm := time.NewTimer(limit)
	defer tm.Stop()
	for {
		select {
		case g := <-f.FrameCh():
			if g == nil {
				return
			}
			x.frame(g, client)
		case <-f.Context().Done():
			return
		case <-tm.C:
			return
		}
	}
}

func (x *hState) handler(client bool) qrpc.HandlerFunc {
	return func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		x.enter(f)
		defer x.leave()
		x.frame((*qrpc.Frame)(f), client)
		b := hBeh{}
		if n := int(f.Cmd) & 0xff; n < len(x.s.Beh) {
			b = x.s.Beh[n]
		}
		dur := time.Duration(clamp(b.Dur, 0, 1000)) * time.Millisecond
		wr := func(cmd qrpc.Cmd, fl qrpc.FrameFlag, p []byte) {
			w.StartWrite(f.RequestID, cmd, fl)
			w.WriteBytes(p)
			w.EndWrite()
		}
		switch clamp(b.Kind, 0, nBeh-1) {
		case 0:
			time.Sleep(dur)
			wr(100, 0, f.Payload)
		case 1: // read it all
			x.readAll((*qrpc.Frame)(f), time.Second, client)
			wr(100, 0, nil)
		case 2: // nothing
			time.Sleep(dur)
		case 3:
			time.Sleep(dur)
			panic("planned")
		case 4: // streamed answer while reading
			wr(100, qrpc.StreamFlag, []byte("a"))
			x.readAll((*qrpc.Frame)(f), dur, client)
			wr(100, qrpc.StreamFlag, []byte("b"))
			wr(100, qrpc.StreamFlag|qrpc.StreamEndFlag, nil)
		case 5: // reset
			time.Sleep(dur)
			w.ResetFrame(f.RequestID, 3)
			wr(100, 0, nil)
		case 6:
			select {
			case <-f.Context().Done():
			case <-time.After(time.Second):
			}
			wr(100, 0, nil)
		case 7: // closes the connection
			time.Sleep(dur)
			if client {
				break
			}
			f.Close()
		case 8: // calls back
			var cl hCaller
			if client {
				cl = f.ClientConnectionInfo().CC
			} else {
				cl = hServerCaller{f.ConnectionInfo()}
			}
			id, resp, err := cl.Request(7, qrpc.NBFlag, f.Payload)
			if err == nil {
				ctx, cancel := context.WithTimeout(f.Context(), dur+time.Millisecond)
				g, err := resp.GetFrameWithContext(ctx)
				cancel()
				// a response is read, however late, or reset
				go func() {
					if err != nil {
						g, err = resp.GetFrame()
					}
					if err == nil {
						for range g.FrameCh() {
						}
					}
				}()
				if dur%2 == 1 {
					cl.ResetFrame(id, 0)
				}
			}
			wr(100, 0, nil)
		case 9: // an answer in which the stream is left open
			wr(100, qrpc.StreamFlag, []byte("a"))
			time.Sleep(dur)
		case 10: // writes much
			for i := 0; i < 5; i++ {
				wr(100, qrpc.StreamFlag, make([]byte, 3000))
			}
			wr(100, qrpc.StreamFlag|qrpc.StreamEndFlag, nil)
		case 11: // writes for other ids
			for id := uint64(0); id < 8; id++ {
				w.StartWrite(id, 9, 0)
				w.EndWrite()
				w.ResetFrame(id, 0)
			}
			wr(100, 0, nil)
		}
	}
}

func (x *hState) sub(f *qrpc.Frame, client bool) {
	x.frame(f, client)
	x.mu.Lock()
	x.running++
	x.mu.Unlock()
	go func() {
		defer x.leave()
		x.readAll(f, 10*pbt.Long, client)
	}()
}

type hCaller interface {
	Request(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, qrpc.Response, error)
	StreamRequest(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error)
	ResetFrame(requestID uint64, reason qrpc.Cmd) error
}

// act performs the local actions; every goroutine is one that must end with the connection
func (x *hState) act(cl hCaller, push func() qrpc.FrameWriter, client bool) {
	base := x.c.Now()
	var (
		mu   sync.Mutex
		last uint64
	)
	for i, a := range x.s.Acts {
		a := a
		if i > 20 {
			break
		}
		x.names = append(x.names, fmt.Sprintf("call %d of kind %d", i, a.Kind))
		x.callers = append(x.callers, x.c.Go(func() {
			if d := time.Duration(clamp(a.T, 0, 1000))*time.Millisecond + time.Millisecond/3 + base - x.c.Now(); d > 0 {
				time.Sleep(d)
			}
			p := a.Pay
			p.N = clamp(p.N, 0, 1000)
			got := func(resp qrpc.Response) {
				f, err := resp.GetFrame()
				if err != nil {
					return
				}
				x.frame(f, client)
				if x.s.NoRead {
					cl.ResetFrame(f.RequestID, 0)
				}
				for g := range f.FrameCh() {
					x.frame(g, client)
				}
			}
			switch a.Kind {
			case 0:
				id, resp, err := cl.Request(7, qrpc.NBFlag, p.Bytes())
				if err != nil {
					return
				}
				mu.Lock()
				last = id
				mu.Unlock()
				got(resp)
			case 1:
				sw, resp, err := cl.StreamRequest(7, qrpc.NBFlag, p.Bytes())
				if err != nil {
					return
				}
				mu.Lock()
				last = sw.RequestID()
				mu.Unlock()
				for i := 0; i < clamp(a.N, 0, 10); i++ {
					sw.StartWrite(7)
					sw.WriteBytes(p.Bytes())
					if sw.EndWrite(i == a.N-1) != nil {
						break
					}
				}
				got(resp)
			case 2, 3:
				if push == nil {
					return
				}
				w := push()
				fl := qrpc.PushFlag
				if a.Kind == 3 {
					fl |= qrpc.StreamFlag
				}
				for i := 0; i <= clamp(a.N, 0, 10); i++ {
					f := fl
					if a.Kind == 3 && i == a.N {
						f |= qrpc.StreamEndFlag
					}
					w.StartWrite(uint64(2+i), 7, f)
					w.WriteBytes(p.Bytes())
					if w.EndWrite() != nil {
						return
					}
				}
			case 4:
				mu.Lock()
				id := last
				mu.Unlock()
				cl.ResetFrame(id, 1)
			case 5:
				cl.ResetFrame(hID(a.N, client), 1)
			}
		}))
	}
}

func (x *hState) attack(p *Peer, client bool, salt int) <-chan struct{} {
	return x.c.Go(func() {
		for i, it := range x.s.Items {
			if i >= 300 {
				break
			}
			if it.Gap > 0 {
				time.Sleep(time.Duration(clamp(it.Gap, 0, 100)) * time.Millisecond)
			}
			if it.Pay.N == 0 && salt > 0 && it.Kind == 0 {
				it.ID = (it.ID + salt) % 6
			}
			if p.Raw(it.bytes(client)) != nil {
				return
			}
		}
	})
}

// answers what a well-behaved client sends
func pingOf(w *World, conn *qrpc.Connection, what string) {
	c := w.c
	c.Quiesce() // a handler counts as inflight until it has returned
	t := c.Now()
	var (
		f   *qrpc.Frame
		err error
	)
	ok := c.Do(pbt.Long, func() {
		var resp qrpc.Response
		if _, resp, err = conn.Request(200, qrpc.NBFlag, []byte("ping")); err == nil {
			f, err = resp.GetFrame()
		}
	})
	switch {
	case !ok:
		c.Fatalf("%s: another client's request hangs", what)
	case err != nil:
		c.Fatalf("%s: another client's request fails: %v", what, err)
	case string(f.Payload) != "pong" || f.Cmd != 201:
		c.Fatalf("%s: another client's request is answered by %v", what, f)
	case c.Now() != t:
		c.Fatalf("%s: another client's request takes %v", what, c.Now()-t)
	}
}

func runH01(c *pbt.C, sc any) {
	s := sc.(*h01)
	mem := allocated()
	w := newWorld(c)
	x := &hState{c: c, s: s}
	var (
		mu      sync.Mutex
		onClose = map[string]int{}
		notes   = map[string]int{}
	)
	base := x.handler(false)
	b := qrpc.ServerBinding{
		Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if f.Cmd == 200 {
				wr.StartWrite(f.RequestID, 201, 0)
				wr.WriteBytes([]byte("pong"))
				wr.EndWrite()
				return
			}
			base(wr, f)
		}),
		ReadFrameChSize:    clamp(s.Chs, 0, 3) / 2,
		WriteFrameChSize:   clamp(s.Chs, 0, 3) * 2 % 5,
		DefaultReadTimeout: clamp(s.RTO, 0, 10),
		MaxFrameSize:       clamp(s.MaxFr, 0, 1<<20),
		LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnClose: func(nc net.Conn) {
			mu.Lock()
			onClose[nc.RemoteAddr().String()]++
			mu.Unlock()
		}},
	}
	if s.MaxFr > 0 && s.MaxFr < 50 {
		b.MaxFrameSize = 50
	}
	if s.Limit > 0 {
		b.MaxInboundInflightStreamPerConn = int32(s.Limit)
	}
	if s.Codec {
		b.Codec = hCodec{}
	}
	if !s.NoSub {
		b.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { x.sub(f, false) }
	}
	srv := w.serve(b)
	var plain NetOpt
	plain.C2S.Buf, plain.S2C.Buf = 1<<20, 1<<20
	vconf := qrpc.ConnectionConfig{}
	if s.Codec {
		vconf.Codec = hCodec{}
	}
	victim, _, _ := w.dial(srv.addrs[0], vconf, nil, plain)
	pingOf(w, victim, "before")
	n := clamp(s.Conns, 1, 3)
	var (
		peers []*Peer
		ends  []func() bool
		infos []*qrpc.ConnectionInfo
	)
	for i := 0; i < n; i++ {
		o := plain
		o.S2C.Buf = clamp(s.Buf, 1, 1<<20)
		p, sc, err := w.dialPeer(srv.addrs[0], o)
		if err != nil {
			c.Fatalf("dial: %v", err)
		}
		if !s.Deaf {
			p.read()
		}
		peers = append(peers, p)
		ends = append(ends, sc.Closed)
		c.Quiesce()
		var ci *qrpc.ConnectionInfo
		addr := p.conn.LocalAddr().String()
		srv.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool {
			if i.RemoteAddr() == addr {
				ci = i
			}
			return true
		})
		if ci == nil {
			c.Fatalf("connection %d is unknown to the server", i)
		}
		ci.NotifyWhenClose(func() { mu.Lock(); notes[addr]++; mu.Unlock() })
		infos = append(infos, ci)
	}
	t0 := c.Now()
	for i, p := range peers {
		x.attack(p, false, i)
		ci := infos[i]
		x.act(hServerCaller{ci}, ci.GetWriter, false)
	}
	at := append([]int(nil), s.Pings...)
	endAt := clamp(s.EndAt, 0, 2000)
	at = append(at, endAt)
	for len(at) > 0 {
		m := 0
		for i := range at {
			if at[i] < at[m] {
				m = i
			}
		}
		t := clamp(at[m], 0, endAt)
		at = append(at[:m], at[m+1:]...)
		if d := time.Duration(t)*time.Millisecond + t0 + time.Millisecond/2 - c.Now(); d > 0 {
			c.Sleep(d)
		}
		if s.RTO == 0 || c.Now() < time.Second/2 {
			pingOf(w, victim, "during the attack")
		}
	}
	open := 0
	for i := range peers {
		if !ends[i]() {
			open++
		}
	}
	c.Label("%d of %d hostile connections open at the end", open, n)
	end := clamp(s.End, 0, 5)
	if end == 3 && s.Deaf {
		end = 0 // it does not close
	}
	var shut <-chan struct{}
	for i, p := range peers {
		switch end {
		case 0:
			p.conn.Close()
		case 1:
			p.conn.Break()
		case 2:
			ci := infos[i]
			x.names = append(x.names, "Close")
			x.callers = append(x.callers, c.Go(func() { ci.Close() }))
		case 3:
			p.conn.CloseWrite()
		case 4:
			p.conn.BreakSoft()
		case 5:
			if shut == nil {
				shut = c.Go(func() { srv.Shutdown() })
			}
		}
	}
	c.Label("ended by %s", []string{"client close", "reset", "server close", "half-close", "network loss", "shutdown"}[end])
	// every handler ends by itself, blocking ones one after the other
	limit := time.Duration(len(s.Items)+2) * 2 * time.Second
	dl := c.Now() + limit
	for i, p := range peers {
		addr := p.conn.LocalAddr().String()
		for c.Now() < dl {
			mu.Lock()
			ok := onClose[addr] > 0 && notes[addr] > 0
			mu.Unlock()
			if ok {
				break
			}
			c.Sleep(100 * time.Millisecond)
		}
		mu.Lock()
		oc, nt := onClose[addr], notes[addr]
		mu.Unlock()
		if oc != 1 || nt != 1 {
			c.Fatalf("hostile connection %d: ended, OnClose ran %d times and its close notification %d times", i, oc, nt)
		}
		if !ends[i]() {
			c.Fatalf("hostile connection %d: the server left its side open", i)
		}
	}
	for i, d := range x.callers {
		if !c.WaitDone(d, 10*time.Second) {
			c.Fatalf("%s to the hostile connection hangs after it has ended", x.names[i])
		}
	}
	c.Sleep(5 * time.Second)
	x.mu.Lock()
	run, runs := x.running, x.runs
	x.mu.Unlock()
	if run != 0 {
		c.Fatalf("%d handlers or subscribers of the hostile connections are still running", run)
	}
	if !s.Deaf {
		for i, p := range peers {
			if p.Bad() != nil {
				c.Fatalf("hostile connection %d received malformed bytes: %v", i, p.Bad())
			}
		}
	}
	if shut == nil {
		if s.RTO == 0 {
			pingOf(w, victim, "after the attack")
		}
		v2, cc, _ := w.dial(srv.addrs[0], vconf, nil, plain)
		pingOf(w, v2, "after the attack, on a new connection")
		cc.Close()
		shut = c.Go(func() { srv.Shutdown() })
	}
	if !c.WaitDone(shut, time.Minute) {
		c.Fatalf("Shutdown hangs after the attack")
	}
	victim.Close()
	c.Sleep(10 * time.Second)
	if g := pbt.Goroutines("zhiqiangxu/qrpc."); len(g) > 0 {
		c.Fatalf("%d goroutines are left: %s", len(g), g[0])
	}
	x.memory(mem, uint64(n)*10<<20)
	if runs > 1 {
		c.NonTrivial()
	}
}

// hServerCaller adds what a server side lacks
type hServerCaller struct{ *qrpc.ConnectionInfo }

func (h hServerCaller) ResetFrame(id uint64, reason qrpc.Cmd) error {
	return h.GetWriter().ResetFrame(id, reason)
}

// allocated is the number of bytes allocated so far by this process
func allocated() uint64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

// memory fails when much more was allocated than what was sent can justify
func (x *hState) memory(before uint64, frameLimit uint64) {
	limit := 100<<20 + frameLimit
	for _, it := range x.s.Items {
		limit += uint64(clamp(it.Pay.N, 0, 1<<20)) * 100
	}
	if n := allocated() - before; n > limit {
		x.c.Fatalf("%d MB were allocated because of %d small frames", n>>20, len(x.s.Items))
	}
}

func runH02(c *pbt.C, sc any) {
	s := sc.(*h01)
	mem := allocated()
	w := newWorld(c)
	x := &hState{c: c, s: s}
	acc := w.rawServer("hostile")
	conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.Chs, 0, 3) * 2 % 5, ReadTimeout: clamp(s.RTO, 0, 10)}
	if s.Local {
		conf.Handler = x.handler(true)
	}
	if s.Codec {
		conf.Codec = hCodec{}
	}
	var sub qrpc.SubFunc
	if !s.NoSub {
		sub = func(_ *qrpc.Connection, f *qrpc.Frame) { x.sub(f, true) }
	}
	var (
		mu         sync.Mutex
		connected  int
		disconnect int
		closers    []func() bool
	)
	conf.LifecycleCallbacks.OnConnect = func(*qrpc.Connection) { mu.Lock(); connected++; mu.Unlock() }
	conf.LifecycleCallbacks.OnDisconnect = func(*qrpc.Connection) { mu.Lock(); disconnect++; mu.Unlock() }
	var o NetOpt
	o.S2C.Buf = 1 << 20
	o.C2S.Buf = clamp(s.Buf, 64, 1<<20)
	over := w.overlay(o, nil)
	conf.OverlayNetwork = func(a string, d qrpc.DialConfig) (net.Conn, error) {
		nc, err := over(a, d)
		if err == nil {
			v := nc.(interface{ Closed() bool })
			mu.Lock()
			closers = append(closers, v.Closed)
			mu.Unlock()
		}
		return nc, err
	}
	var conn *qrpc.Connection
	if s.Recon {
		conn = qrpc.NewConnectionWithReconnect([]string{"hostile"}, conf, sub)
	} else {
		var err error
		if conn, err = qrpc.NewConnection("hostile", conf, sub); err != nil {
			c.Fatalf("NewConnection: %v", err)
		}
	}
	c.Cleanup(func() { c.Go(func() { conn.Close() }) })
	p := w.accept(acc)
	c.Quiesce()
	t0 := c.Now()
	x.attack(p, true, 0)
	x.act(conn, nil, true)
	if d := time.Duration(clamp(s.EndAt, 0, 2000))*time.Millisecond + t0 + time.Millisecond/2 - c.Now(); d > 0 {
		c.Sleep(d)
	}
	end := clamp(s.End, 0, 4)
	switch end {
	case 0:
		p.conn.Close()
	case 1:
		p.conn.Break()
	case 2:
		conn.Close()
	case 3:
		p.conn.CloseWrite()
	case 4:
		p.conn.BreakSoft()
	}
	c.Label("ended by %s", []string{"server close", "reset", "client close", "half-close", "network loss"}[end])
	limit := time.Duration(len(s.Items)+2) * 2 * time.Second
	if s.Recon && end != 2 {
		// a new connection takes over, on which all is well
		var q *Peer
		dl := c.Now() + limit
		for q == nil && c.Now() < dl {
			select {
			case q = <-acc:
			default:
				c.Sleep(50 * time.Millisecond)
			}
		}
		if q == nil {
			c.Fatalf("the client does not reconnect")
		}
		c.Label("reconnected")
		good := func(q *Peer) {
			seen := 0
			go func() {
				for q.WaitFor(24*time.Hour, func(e []Ev) bool { return len(e) > seen }) {
					for _, e := range q.Frames()[seen:] {
						seen++
						if e.Cmd == 200 {
							q.Send(wire.Frame{ID: e.ID, Cmd: 201, Payload: []byte("pong")})
						}
					}
				}
			}()
		}
		good(q)
		stop := make(chan struct{})
		c.Cleanup(func() { close(stop) })
		go func() {
			for {
				select {
				case q := <-acc:
					good(q)
				case <-stop:
					return
				}
			}
		}()
		// requests of the attacked connection may still be queued
		c.Sleep(time.Second / 2)
		if !conn.IsClosed() {
			ok := false
			for i := 0; i < 5 && !ok; i++ {
				var err error
				if !c.Do(time.Minute, func() {
					var (
						resp qrpc.Response
						f    *qrpc.Frame
					)
					if _, resp, err = conn.Request(200, qrpc.NBFlag, nil); err == nil {
						if f, err = resp.GetFrame(); err == nil && f.Cmd == 201 {
							ok = true
						}
					}
				}) {
					c.Fatalf("a request on the new connection hangs")
				}
				c.Sleep(time.Second / 10)
			}
			if !ok {
				c.Fatalf("requests on the new connection fail")
			}
		}
		conn.Close()
	}
	if !c.Do(limit, conn.Wait) {
		c.Fatalf("the client's Wait hangs after the connection has ended")
	}
	if !conn.IsClosed() {
		c.Fatalf("the client does not know that it is closed")
	}
	for i, d := range x.callers {
		if !c.WaitDone(d, 10*time.Second) {
			c.Fatalf("%s of the client hangs after the connection has ended", x.names[i])
		}
	}
	c.Sleep(5 * time.Second)
	x.mu.Lock()
	run, runs := x.running, x.runs
	x.mu.Unlock()
	if run != 0 {
		c.Fatalf("%d handlers or subscribers of the client are still running", run)
	}
	mu.Lock()
	defer mu.Unlock()
	for i, cl := range closers {
		if !cl() {
			c.Fatalf("connection %d of the client is left open", i)
		}
	}
	x.memory(mem, 0)
	if connected != disconnect || connected != len(closers) {
		c.Fatalf("%d connections: %d times connected, %d times disconnected", len(closers), connected, disconnect)
	}
	if p.Bad() != nil {
		c.Fatalf("the client sent malformed bytes: %v", p.Bad())
	}
	if g := pbt.Goroutines("zhiqiangxu/qrpc."); len(g) > 0 {
		c.Fatalf("%d goroutines are left: %s", len(g), g[0])
	}
	if runs > 1 || len(x.callers) > 2 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "H01",
		Title: "hostile clients",
		Rule:  "generated: up to 40 frames with ids, flags and commands from small colliding pools, garbage, partial frames and bad sizes from one or two raw clients, one possibly deaf; twelve kinds of handlers; server-initiated requests, streams, pushes and resets to them; limits, codec, timeouts; six kinds of end; oracle: no crash, other clients are answered at once, only sent frames are delivered, all output is well-formed, and after the end every handler, callback, call and goroutine has finished and Shutdown returns. Non-trivial: at least two handlers ran",
		Gen:   genH01, New: func() any { return &h01{} }, Run: runH01,
		Quick:    pbt.Budget{Cases: 20000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "H02",
		Title: "hostile servers",
		Rule:  "generated: as H01, from a raw server to a client with or without handler, subscriber, codec and reconnection which makes requests, streams and resets of its own; oracle: no crash, only sent frames are delivered, all output is well-formed, after the end every call, handler and goroutine finishes, callbacks are balanced, a reconnecting client works on its next connection. Non-trivial: at least two handlers ran or three calls were made",
		Gen:   genH02, New: func() any { return &h01{} }, Run: runH02,
		Quick:    pbt.Budget{Cases: 20000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
