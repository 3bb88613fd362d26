package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// ---- E01: what ended is forgotten

const (
	eReq = iota
	eFail
	eAbandon
	eExpire
	eResetOwn
	eStream
	eLate
	eSReset
	ePush
	ePushStream
	eUnknown
	eDeny
	eBack
	eBackStream
	eBackFail
	eBackAbandon
	eSPush
	eSPushStream
	eChannel
	eDial
	eDialDead
	eKicked
	eLost
	eAPI
	eAPILost
	eServer
	eServerDead
	eSameID
	eWalk
	eThrottle
	eReject
	eBadFrame
	eDialFail
	eNowhere
	eClosed
	eSilent
	nEKinds
)

var eNames = []string{"request", "request which fails", "request nobody waits for", "request whose context expires", "request reset by the client", "streamed request", "streamed request answered at once", "answer reset by the server",
	"push", "streamed push", "unknown command", "request denied by middleware", "request of the server", "streamed request of the server", "request of the server which fails", "request of the server nobody waits for",
	"push of the server", "streamed push of the server", "channel", "connection", "connection which is cut off", "connection which is kicked", "lost connection of a reconnecting client",
	"call of the API", "call of the API after a loss", "server", "server which shuts down first", "one id for all requests", "walk",
	"request while throttled", "connection which is not accepted", "malformed frame", "failed dial", "reconnecting client which never connects", "request on a closed connection", "connection which is silent for too long"}

type e01Op struct {
	Kind, N int
	Pay     int
}

type e01 struct {
	Tr, WCh, RCh int
	Codec        bool
	NoSub        bool
	Limit        bool
	Rounds, Par  int
	Ops          []e01Op
}

func genE01(r *pbt.R) any {
	s := &e01{Tr: pbt.Pick(r, 0, 0, 0, 0, 0, 0, r.Intn(nTrs)), WCh: pbt.Pick(r, 0, 0, 1, 4), RCh: pbt.Pick(r, 0, 0, 1, 4), Codec: r.P(1, 4), NoSub: r.P(1, 5), Limit: r.P(1, 4), Rounds: r.Range(20, 50), Par: pbt.Pick(r, 1, 1, 1, r.Range(2, 5))}
	for n := r.N(1, 4); n > 0; n-- {
		s.Ops = append(s.Ops, e01Op{Kind: r.Intn(nEKinds), N: r.Intn(4), Pay: r.Len(200)})
	}
	return s
}

func runE01(c *pbt.C, sc any) {
	s := sc.(*e01)
	if s.Rounds < 5 || len(s.Ops) == 0 {
		return
	}
	rounds := clamp(s.Rounds, 5, 100)
	par := clamp(s.Par, 1, 8)
	s.Ops = s.Ops[:min(len(s.Ops), 8)]
	tr := clamp(s.Tr, 0, nTrs-1)
	c.Tag = env{tr: tr}
	w := newWorld(c)
	mux := qrpc.NewServeMux()
	collect := func(f *qrpc.RequestFrame) []byte {
		body := append([]byte(nil), f.Payload...)
		if ch := f.FrameCh(); ch != nil && f.Flags&qrpc.StreamFlag != 0 && f.Flags&qrpc.StreamEndFlag == 0 {
			for g := range ch {
				body = append(body, g.Payload...)
			}
		}
		return body
	}
	var fl qrpc.FrameFlag
	if s.Codec {
		fl = qrpc.CodecFlag
	}
	answer := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		body := collect(f)
		wr.StartWrite(f.RequestID, 1, fl)
		wr.WriteBytes(body)
		wr.EndWrite()
	}
	streamed := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		body := collect(f)
		for i := 0; i < 3; i++ {
			x := qrpc.StreamFlag | fl
			if i == 2 {
				x |= qrpc.StreamEndFlag
			}
			wr.StartWrite(f.RequestID, 1, x)
			wr.WriteBytes(body)
			if wr.EndWrite() != nil {
				return
			}
		}
	}
	mux.HandleFunc(1, answer)
	mux.HandleFunc(2, streamed)
	mux.HandleFunc(3, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {})
	mux.HandleFunc(4, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { panic("on purpose") })
	mux.HandleFunc(5, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { <-f.Context().Done() })
	mux.HandleFunc(6, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { time.Sleep(50 * time.Millisecond); answer(wr, f) })
	mux.HandleFunc(7, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		wr.StartWrite(f.RequestID, 1, fl)
		wr.WriteBytes(f.Payload)
		wr.EndWrite()
	})
	mux.HandleFunc(8, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		collect(f)
		wr.StartWrite(f.RequestID, 1, qrpc.StreamFlag)
		wr.EndWrite()
		wr.ResetFrame(f.RequestID, 3)
	})
	mux.HandleFunc(9, answer, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) bool { return len(f.Payload) > 1<<20 })
	var (
		mu    sync.Mutex
		infos = map[string]*qrpc.ConnectionInfo{}
	)
	mux.HandleFunc(10, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		mu.Lock()
		infos[string(f.Payload)] = f.ConnectionInfo()
		mu.Unlock()
		answer(wr, f)
	})
	mux.HandleFunc(11, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		f.ConnectionInfo().SetID(string(f.Payload))
		f.ConnectionInfo().NotifyWhenClose(func() { f.ConnectionInfo().GetID() })
		answer(wr, f)
	})
	mux.HandleFunc(12, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) { f.Close() })
	mux.Handle(13, channel.NewQRPCHandler(channel.HandlerFunc(func(snd channel.Sender, r channel.Receiver, _ channel.Transport) {
		var cmd qrpc.Cmd
		var msg []byte
		for r.Receive(context.Background(), &cmd, &msg) == nil {
			snd.Send(context.Background(), cmd, msg, false)
		}
		snd.End()
	})))
	gone := func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
		if ch := f.FrameCh(); ch != nil && f.Flags&qrpc.StreamFlag != 0 && f.Flags&qrpc.StreamEndFlag == 0 {
			go func() {
				for range ch {
				}
			}()
		}
	}
	b := qrpc.ServerBinding{Handler: mux, ReadFrameChSize: clamp(s.RCh, 0, 10), WriteFrameChSize: clamp(s.WCh, 0, 10), Codec: hCodec{}, SubFunc: gone}
	if s.NoSub {
		b.SubFunc = nil
	}
	var reject atomic.Bool
	b.LifecycleCallbacks.OnAccept = func(net.Conn) error {
		if reject.Load() {
			return errors.New("not now")
		}
		return nil
	}
	if s.Limit {
		b.MaxInboundInflightStreamPerConn, b.MaxInboundFramePerSecond = 100, 1000000
	}
	srv := w.serve(b)
	o := NetOpt{}
	o.C2S.Buf, o.S2C.Buf = 1<<20, 1<<20
	nets := make([]*vnet.Conn, 4)
	dial := func(slot int) func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
		return func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
			a, _, err := w.dialFar(addr, o)
			if err != nil {
				return nil, err
			}
			if slot >= 0 {
				mu.Lock()
				nets[slot] = a
				mu.Unlock()
			}
			return w.clientEnd(addr, a, nil, nil)
		}
	}
	conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 10), Codec: hCodec{}}
	conf.Handler = qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 2:
			streamed(wr, f)
		case 3:
		case 4:
			panic("on purpose")
		default:
			answer(wr, f)
		}
	})
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { gone(nil, f) }
	if s.NoSub {
		sub = nil
	}
	connect := func(slot int, recon bool, addr string) *qrpc.Connection {
		cf := conf
		cf.OverlayNetwork = dial(slot)
		if recon {
			return qrpc.NewConnectionWithReconnect([]string{addr}, cf, sub)
		}
		conn, err := qrpc.NewConnection(addr, cf, sub)
		if err != nil {
			c.Fatalf("connecting: %v", err)
		}
		return conn
	}
	ask := func(conn *qrpc.Connection, cmd qrpc.Cmd, f qrpc.FrameFlag, p []byte) (*qrpc.Frame, error) {
		_, resp, err := conn.Request(cmd, f, p)
		if err != nil {
			return nil, err
		}
		return resp.GetFrame()
	}
	must := func(what string, err error) {
		if err != nil {
			c.Fatalf("%s: %v", what, err)
		}
	}
	drain := func(f *qrpc.Frame, err error) error {
		if err == nil && f.Flags&qrpc.StreamFlag != 0 && f.Flags&qrpc.StreamEndFlag == 0 {
			for range f.FrameCh() {
			}
		}
		return err
	}
	conn := connect(-1, false, srv.addrs[0])
	c.Cleanup(func() { conn.Close(); time.Sleep(time.Second) })
	var recon, back, closed *qrpc.Connection
	var api qrpc.API
	var raw *Peer
	serial := par
	for _, op := range s.Ops {
		switch op.Kind {
		case eLost:
			if recon == nil {
				recon = connect(0, true, srv.addrs[0])
				c.Cleanup(func() { recon.Close(); time.Sleep(time.Second) })
			}
			serial = 1
		case eAPI, eAPILost:
			if api == nil {
				cf := conf
				cf.OverlayNetwork = dial(1)
				api = qrpc.NewAPI(srv.addrs, cf, nil)
				c.Cleanup(func() { api.Close(); time.Sleep(time.Second) })
			}
			serial = 1
		case eSameID:
			if raw == nil {
				raw = w.rawClient(srv.addrs[0], o)
			}
			serial = 1
		case eBack, eBackStream, eBackFail, eBackAbandon, eSPush, eSPushStream, eWalk:
			if back == nil {
				back = connect(-1, false, srv.addrs[0])
				c.Cleanup(func() { back.Close(); time.Sleep(time.Second) })
				_, err := ask(back, 10, qrpc.NBFlag, []byte("back"))
				must("a first request", err)
			}
		case eClosed:
			if closed == nil {
				closed = connect(-1, false, srv.addrs[0])
				closed.Close()
				closed.Wait()
			}
		case eKicked, eServer, eServerDead, eDialDead, eThrottle, eReject:
			serial = 1
		}
	}
	info := func() *qrpc.ConnectionInfo { mu.Lock(); defer mu.Unlock(); return infos["back"] }
	pay := bytes.Repeat([]byte("x"), 1000)
	write := func(sw qrpc.StreamWriter, n int, p []byte) {
		for k := 0; k <= n; k++ {
			sw.StartWrite(1)
			sw.WriteBytes(p)
			sw.EndWrite(k == n)
		}
	}
	do := func(op e01Op, id int) {
		n, p := clamp(op.N, 0, 5), pay[:clamp(op.Pay, 0, 1000)]
		nb := qrpc.NBFlag | fl
		if op.N%2 == 0 {
			nb = fl
		}
		switch op.Kind {
		case eReq:
			must("a request", drain(ask(conn, qrpc.Cmd(1+n%2), nb, p)))
		case eFail:
			if f, err := ask(conn, qrpc.Cmd(3+n%2), nb, p); err == nil {
				c.Fatalf("a request which fails is answered by %v", f)
			}
		case eAbandon:
			_, _, err := conn.Request(1, nb, p)
			must("a request", err)
		case eExpire:
			_, resp, err := conn.Request(6, qrpc.NBFlag|fl, p)
			must("a request", err)
			ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond*time.Duration(20*n))
			resp.GetFrameWithContext(ctx)
			cancel()
			time.Sleep(100 * time.Millisecond)
		case eResetOwn:
			id, resp, err := conn.Request(5, qrpc.NBFlag|fl, p)
			must("a request", err)
			must("a reset", conn.ResetFrame(id, qrpc.Cmd(n)))
			resp.GetFrame()
		case eStream, eLate, eSReset:
			cmd := map[int]qrpc.Cmd{eStream: 1, eLate: 7, eSReset: 8}[op.Kind]
			sw, resp, err := conn.StreamRequest(cmd, qrpc.NBFlag|fl, p)
			must("a streamed request", err)
			write(sw, n, p)
			f, err := resp.GetFrame()
			drain(f, err)
		case ePush:
			_, _, err := conn.Request(1, qrpc.PushFlag|fl, p)
			must("a push", err)
		case ePushStream:
			sw, _, err := conn.StreamRequest(1, qrpc.PushFlag|fl, p)
			must("a streamed push", err)
			write(sw, n, p)
		case eUnknown:
			x := connect(-1, false, srv.addrs[0])
			ask(x, 999, nb, p)
			x.Close()
			x.Wait()
		case eDeny:
			ask(conn, 9, nb, p)
		case eBack:
			_, resp, err := info().Request(qrpc.Cmd(1+n%2), qrpc.NBFlag|fl, p)
			must("a request of the server", err)
			must("a request of the server", drain(resp.GetFrame()))
		case eBackAbandon:
			_, _, err := info().Request(1, qrpc.NBFlag|fl, p)
			must("a request of the server", err)
		case eBackFail:
			_, resp, err := info().Request(qrpc.Cmd(3+n%2), qrpc.NBFlag|fl, p)
			must("a request of the server", err)
			resp.GetFrame()
		case eBackStream:
			sw, resp, err := info().StreamRequest(1, qrpc.NBFlag|fl, p)
			must("a streamed request of the server", err)
			write(sw, n, p)
			must("a streamed request of the server", drain(resp.GetFrame()))
		case eSPush:
			wr := info().GetWriter()
			wr.StartWrite(srv.GetPushID(), 1, qrpc.PushFlag|fl)
			wr.WriteBytes(p)
			must("a push of the server", wr.EndWrite())
		case eSPushStream:
			wr := info().GetWriter()
			id := srv.GetPushID()
			for k := 0; k <= n; k++ {
				x := qrpc.PushFlag | qrpc.StreamFlag | fl
				if k == n {
					x |= qrpc.StreamEndFlag
				}
				wr.StartWrite(id, 1, x)
				wr.WriteBytes(p)
				must("a push of the server", wr.EndWrite())
			}
		case eChannel:
			snd, rcv, err := channel.NewTransport(conn).Pipe()
			must("a channel", err)
			for k := 0; k <= n; k++ {
				must("a message", snd.Send(context.Background(), 13, p, k == n))
			}
			var cmd qrpc.Cmd
			var msg []byte
			for rcv.Receive(context.Background(), &cmd, &msg) == nil {
			}
		case eDial, eDialDead, eKicked:
			x := connect(2, false, srv.addrs[0])
			_, err := ask(x, 11, qrpc.NBFlag, []byte(map[bool]string{true: fmt.Sprint("id", n), false: fmt.Sprint("own", id)}[op.Kind == eKicked]))
			must("a request", err)
			switch {
			case op.Kind == eDial:
				x.Close()
			case op.Kind == eDialDead && n%2 == 0:
				x.Request(5, qrpc.NBFlag, p)
				x.Request(6, 0, p)
				mu.Lock()
				nets[2].Break()
				mu.Unlock()
			case op.Kind == eDialDead:
				ask(x, 12, qrpc.NBFlag, p)
			default:
				y := connect(-1, false, srv.addrs[0])
				_, err := ask(y, 11, qrpc.NBFlag, []byte(fmt.Sprint("id", n)))
				must("a request", err)
				x.Wait()
				y.Close()
			}
			x.Wait()
		case eLost:
			for k := 0; ; k++ {
				if _, err := ask(recon, 1, qrpc.NBFlag, p); err == nil {
					break
				}
				if k > 100 {
					c.Fatalf("a reconnecting client does not work anymore")
				}
				time.Sleep(time.Second)
			}
			_, resp, err := recon.Request(5, qrpc.NBFlag, p)
			if n%2 == 0 {
				sw, _, err := recon.StreamRequest(1, qrpc.NBFlag, p)
				if err == nil {
					sw.StartWrite(1)
					sw.EndWrite(false)
				}
			}
			mu.Lock()
			nets[0].Break()
			mu.Unlock()
			if err == nil {
				resp.GetFrame()
			}
		case eAPI, eAPILost:
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			_, err := api.Call(ctx, 1, p)
			if err != nil && op.Kind == eAPI {
				time.Sleep(5 * time.Second)
			}
			if n%2 == 0 {
				api.CallAll(ctx, 1, p)
			}
			cancel()
			if op.Kind == eAPILost {
				mu.Lock()
				nets[1].Break()
				mu.Unlock()
				time.Sleep(time.Second)
			}
		case eServer, eServerDead:
			bs := b
			bs.Addr = "extra"
			bs.ListenFunc = w.listenFunc("extra")
			w.binding(&bs)
			sv := qrpc.NewServer([]qrpc.ServerBinding{bs})
			done := make(chan struct{})
			go func() { sv.ListenAndServe(); close(done) }()
			time.Sleep(time.Millisecond)
			x := connect(-1, false, "extra")
			must("a request", drain(ask(x, 1, qrpc.NBFlag, p)))
			if op.Kind == eServer {
				x.Close()
				x.Wait()
			}
			sv.Shutdown()
			<-done
			x.Wait()
		case eSameID:
			raw.Send(wire.Frame{ID: 7, Cmd: 1, Flags: wire.NB, Payload: p})
			if !raw.WaitN(1, time.Minute) {
				c.Fatalf("a request whose id was used before, by one which is answered, is not answered")
			}
			raw.mu.Lock()
			raw.evs = nil
			raw.mu.Unlock()
		case eWalk:
			srv.WalkConn(0, func(wr qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.GetID(); return true })
			srv.WalkConnByID(0, []string{"id0", "nobody"}, func(qrpc.FrameWriter, *qrpc.ConnectionInfo, int) {})
			srv.GetConnectionInfoByID(0, "nobody")
			conn.IsClosed()
		case eThrottle:
			srv.SetThrottle(0)
			_, resp, err := conn.Request(1, nb, p)
			must("a request", err)
			if n%2 == 0 {
				time.Sleep(time.Second)
			}
			srv.ClearThrottle(0)
			must("a request", drain(resp.GetFrame()))
			if n > 2 {
				srv.ClearThrottle(0)
			}
		case eReject:
			reject.Store(true)
			a, _, err := w.dialFar(srv.addrs[0], o)
			must("dialling", err)
			x, err := w.clientEnd(srv.addrs[0], a, nil, nil)
			if err == nil {
				for buf := make([]byte, 100); err == nil; {
					_, err = x.Read(buf)
				}
				x.Close()
			}
			a.Close()
			reject.Store(false)
		case eBadFrame:
			a, _, err := w.dialFar(srv.addrs[0], o)
			must("dialling", err)
			x, err := w.rawClientEnd(srv.addrs[0], a, nil, nil)
			must("connecting", err)
			if n%2 == 0 {
				x.Write(wire.Encode(wire.Frame{ID: 7, Cmd: 2, Flags: wire.NB | wire.Stream, Payload: p}))
			}
			x.Write([]byte{0, 0, 0, 5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
			for buf := make([]byte, 1000); err == nil; {
				_, err = x.Read(buf)
			}
			x.Close()
		case eDialFail:
			cf := conf
			cf.OverlayNetwork = dial(-1)
			if x, err := qrpc.NewConnection("nowhere", cf, sub); err == nil {
				x.Close()
				c.Fatalf("a connection to nowhere")
			}
		case eNowhere:
			x := connect(-1, true, "nowhere")
			time.Sleep(time.Duration(n) * time.Second)
			x.Request(1, nb, p)
			x.Close()
			x.Wait()
		case eClosed:
			if _, _, err := closed.Request(1, nb, p); err == nil {
				c.Fatalf("a request on a closed connection")
			}
			closed.StreamRequest(1, nb, p)
			closed.ResetFrame(uint64(id), 1)
		case eSilent:
			cf := conf
			cf.OverlayNetwork = dial(-1)
			cf.ReadTimeout, cf.WriteTimeout = 1, 1
			x, err := qrpc.NewConnection(srv.addrs[0], cf, sub)
			must("connecting", err)
			_, resp, err := x.Request(5, qrpc.NBFlag|fl, p)
			must("a request", err)
			resp.GetFrame()
			x.Wait()
		}
	}
	ids := 0
	round := func() {
		for k := 0; k < rounds; k++ {
			for _, op := range s.Ops {
				if op.Kind < 0 || op.Kind >= nEKinds {
					continue
				}
				if serial == 1 {
					ids++
					do(op, ids)
					continue
				}
				var wg sync.WaitGroup
				for x := 0; x < serial; x++ {
					ids++
					wg.Add(1)
					go func(id int) {
						defer wg.Done()
						defer c.Recover()
						do(op, id)
					}(ids)
				}
				wg.Wait()
			}
		}
	}
	type level struct {
		objects, bytes int64
		gs             int
	}
	measure := func() level {
		c.Sleep(time.Minute)
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return level{int64(m.HeapObjects), int64(m.HeapAlloc), runtime.NumGoroutine()}
	}
	// the least growth of some phases, per round
	const none = 1 << 40
	grow := func(skip, phases int) (objects, bytes, gs int64) {
		objects, bytes, gs = none, none, none
		before := measure()
		for phase := 0; phase < skip+phases; phase++ {
			if !c.Do(24*time.Hour, round) {
				c.Fatalf("a round does not end")
			}
			if c.Failed() {
				return 0, 0, 0
			}
			now := measure()
			if phase >= skip {
				ops := int64(serial * rounds)
				objects = min(objects, 100*(now.objects-before.objects)/ops)
				bytes = min(bytes, 100*(now.bytes-before.bytes)/ops)
				gs = min(gs, int64(100*(now.gs-before.gs))/ops)
			}
			before = now
		}
		return
	}
	grown := func(o, b, g int64) bool { return o >= 90 || b >= 9000 || g >= 90 }
	o1, b1, g1 := grow(1, 3)
	for _, f := range []int{1, 4, 8} {
		if !grown(o1, b1, g1) {
			break
		}
		// what does not grow with the work is no leak
		rounds = f * clamp(s.Rounds, 10, 100)
		c.Label("grew for a while")
		o1, b1, g1 = grow(1, 3)
	}
	for _, op := range s.Ops {
		if op.Kind >= 0 && op.Kind < nEKinds {
			c.Label("%s", eNames[op.Kind])
		}
	}
	c.NonTrivial()
	if grown(o1, b1, g1) {
		c.Failf("each of %d rounds leaves at least %.1f objects, %d bytes and %.1f goroutines behind", rounds*serial, float64(o1)/100, b1/100, float64(g1)/100)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "E01",
		Title: "what ended is forgotten",
		Rule:  "generated: one to four of 36 kinds of work (requests of either end, answered, failed, denied, abandoned, expired or reset, streams and pushes of either end, channels, connections which come and go in all ways, kicks, losses of a reconnecting client, API calls, servers which start and stop, throttling, rejected, refused, malformed and silent connections), over the four transports, done in phases of equally many rounds, by up to five at once; oracle: live heap objects, bytes and goroutines, after garbage collection, do not grow by one or more (100 bytes) per round in each of the later phases, also not in longer ones; a request id can be used again once its request is answered. Non-trivial: all phases were run",
		Gen:   genE01,
		New:   func() any { return &e01{} }, Run: runE01,
		Quick:    pbt.Budget{Cases: 2000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 100000, MaxSec: 900},
	})
}
