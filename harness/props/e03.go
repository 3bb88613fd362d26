package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/pbt"
	"verif/vnet"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// ---- E03: where no timeout is configured, time changes nothing

const (
	tmSlow = iota
	tmBlocking
	tmStream
	tmAnswer
	tmBack
	tmBackStream
	tmPush
	tmPushStream
	tmClientPush
	tmIdle
	tmThrottle
	tmDown
	tmContext
	tmChannel
	tmAPI
	tmID
	tmStuck
	tmPartial
	tmLoss
	tmQuiet
	tmReader
	tmAnswerReader
	tmPushReader
	nTmKinds
)

var tmNames = []string{"slow handler", "slow blocking handler", "slow stream", "slow streamed answer", "slow handler of a client", "slow stream of the server", "late push", "slow streamed push", "late push of a client",
	"idle connection", "throttling", "server which is down", "context", "slow channel", "idle API", "id", "stuck peer", "partial frame", "late loss", "late look at an answer", "slow reader of a stream", "slow reader of an answer", "slow reader of a push"}

type e03Item struct {
	Kind int
	MS   int // pause in ms
	N    int // number of pauses
	Own  bool
	Pay  int
}

type e03 struct {
	Tr, WCh, RCh int
	Items        []e03Item
}

func genE03(r *pbt.R) any {
	s := &e03{Tr: r.W(8, 1, 2, 1), WCh: pbt.Pick(r, 0, 0, 1, 4), RCh: pbt.Pick(r, 0, 0, 1, 4)}
	for n := r.N(1, 6); n > 0; n-- {
		s.Items = append(s.Items, genE03Item(r, r.Intn(nTmKinds)))
	}
	return s
}

func genE03Item(r *pbt.R, kind int) e03Item {
	ms := r.Range(1, 100) * pbt.Pick(r, 1, 100, 1000, 10_000, 60_000, 3600_000, 24*3600_000)
	return e03Item{Kind: kind, MS: ms, N: r.N(1, 4), Own: r.P(1, 3), Pay: r.Len(300)}
}

func runE03(c *pbt.C, sc any) {
	s := sc.(*e03)
	s.Items = s.Items[:min(len(s.Items), 10)]
	if len(s.Items) == 0 {
		return
	}
	c.Tag = env{tr: clamp(s.Tr, 0, nTrs-1)}
	w := newWorld(c)
	const forever = 100 * 365 * 24 * time.Hour
	// a request says which item it belongs to
	type spec struct {
		d    time.Duration
		n    int
		kind int
	}
	var specs []spec
	for _, it := range s.Items {
		d := time.Duration(clamp(it.MS, 1, 100*24*3600_000)) * time.Millisecond
		if it.Kind == tmDown {
			d = min(d, time.Hour) // dials every two seconds
		}
		specs = append(specs, spec{d, clamp(it.N, 1, 8), it.Kind})
	}
	which := func(b []byte) (int, spec) {
		if len(b) < 4 {
			c.Fatalf("a payload of %d bytes", len(b))
		}
		k := int(binary.BigEndian.Uint32(b))
		if k >= len(specs) {
			c.Fatalf("a payload of item %d", k)
		}
		return k, specs[k]
	}
	answer := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		wr.StartWrite(f.RequestID, f.Cmd, 0)
		wr.WriteBytes(f.Payload)
		if err := wr.EndWrite(); err != nil {
			c.Failf("an answer: %v", err)
		}
	}
	slow := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		_, x := which(f.Payload)
		select {
		case <-time.After(x.d):
		case <-f.Context().Done():
			c.Failf("%s: the context of a request ends", tmNames[x.kind])
		}
		answer(wr, f)
	}
	echo := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		_, x := which(f.Payload)
		body := append([]byte(nil), f.Payload...)
		for {
			if x.kind == tmReader {
				time.Sleep(x.d)
			}
			g, ok := <-f.FrameCh()
			if !ok {
				break
			}
			body = append(body, g.Payload...)
		}
		if want := len(f.Payload) * (x.n + 1); len(body) != want {
			c.Failf("%s: %d bytes of a stream of %d arrive", tmNames[x.kind], len(body), want)
		}
		answer(wr, f)
	}
	parts := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		_, x := which(f.Payload)
		for k := 0; k <= x.n; k++ {
			fl := qrpc.StreamFlag
			if k == x.n {
				fl |= qrpc.StreamEndFlag
			}
			wr.StartWrite(f.RequestID, f.Cmd, fl)
			wr.WriteBytes(f.Payload)
			if err := wr.EndWrite(); err != nil {
				c.Failf("%s: frame %d of an answer: %v", tmNames[x.kind], k, err)
				return
			}
			if k < x.n && x.kind == tmAnswer {
				time.Sleep(x.d)
			}
		}
	}
	var (
		mu     sync.Mutex
		infos  = map[int]*qrpc.ConnectionInfo{}
		pushes = map[int]int{}
		ended  = map[int]int{}
	)
	mux := qrpc.NewServeMux()
	mux.HandleFunc(1, answer)
	mux.HandleFunc(2, slow)
	mux.HandleFunc(3, echo)
	mux.HandleFunc(4, parts)
	mux.HandleFunc(5, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		k, _ := which(f.Payload)
		mu.Lock()
		infos[k] = f.ConnectionInfo()
		mu.Unlock()
		answer(wr, f)
	})
	mux.HandleFunc(6, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		k, _ := which(f.Payload)
		f.ConnectionInfo().SetID(fmt.Sprint("id", k))
		answer(wr, f)
	})
	mux.Handle(7, channel.NewQRPCHandler(channel.HandlerFunc(func(snd channel.Sender, r channel.Receiver, _ channel.Transport) {
		var cmd qrpc.Cmd
		var msg []byte
		for r.Receive(context.Background(), &cmd, &msg) == nil {
			if err := snd.Send(context.Background(), cmd, msg, false); err != nil {
				c.Failf("a message: %v", err)
			}
		}
		snd.End()
	})))
	got := func(f *qrpc.Frame) {
		k, x := which(f.Payload)
		mu.Lock()
		pushes[k]++
		mu.Unlock()
		if f.Flags&qrpc.StreamFlag == 0 {
			return
		}
		c.Go(func() {
			for {
				if x.kind == tmPushReader {
					time.Sleep(x.d)
				}
				g, ok := <-f.FrameCh()
				if !ok {
					return
				}
				mu.Lock()
				pushes[k]++
				if g.Flags&qrpc.StreamEndFlag != 0 {
					ended[k]++
				}
				mu.Unlock()
			}
		})
	}
	b := qrpc.ServerBinding{Handler: mux, ReadFrameChSize: clamp(s.RCh, 0, 10), WriteFrameChSize: clamp(s.WCh, 0, 10), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { got(f) }}
	srv := w.serve(b)
	others := map[int]*Srv{}
	for i, it := range s.Items {
		if it.Kind == tmThrottle {
			b.Addr = fmt.Sprint("throttled", i)
			others[i] = w.serve(b)
		}
	}
	o := NetOpt{}
	cmux := qrpc.NewServeMux()
	cmux.HandleFunc(1, answer)
	cmux.HandleFunc(2, slow)
	cmux.HandleFunc(3, echo)
	var closed []func()
	c.Cleanup(func() {
		for _, f := range closed {
			f()
		}
		time.Sleep(time.Second)
	})
	overlay := func(watch func(*vnet.Conn)) func(string, qrpc.DialConfig) (net.Conn, error) {
		return func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
			nc, _, err := w.dialFar(addr, o)
			if err != nil {
				return nil, err
			}
			if watch != nil {
				watch(nc)
			}
			return w.clientEnd(addr, nc, nil, nil)
		}
	}
	conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 10), Handler: cmux}
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { got(f) }
	connect := func(addr string) *qrpc.Connection {
		cf := conf
		cf.OverlayNetwork = overlay(nil)
		conn, err := qrpc.NewConnection(addr, cf, sub)
		if err != nil {
			c.Fatalf("connecting: %v", err)
		}
		mu.Lock()
		closed = append(closed, func() { conn.Close() })
		mu.Unlock()
		return conn
	}
	shared := connect(srv.addrs[0])
	type requester interface {
		Request(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)
		StreamRequest(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)
	}
	// ask makes a request and expects its answer after d
	ask2 := func(what string, x requester, cmd qrpc.Cmd, fl qrpc.FrameFlag, p []byte, d, most time.Duration) {
		t0 := time.Now()
		_, resp, err := x.Request(cmd, fl, p)
		if err != nil {
			c.Fatalf("%s: a request: %v", what, err)
		}
		f, err := resp.GetFrame()
		if err != nil {
			c.Fatalf("%s: a request fails after %v: %v", what, time.Since(t0), err)
		}
		if !bytes.Equal(f.Payload, p) {
			c.Fatalf("%s: a wrong answer", what)
		}
		if e := time.Since(t0); e < d || d > 0 && e > most+time.Second {
			c.Fatalf("%s: answered after %v, not %v", what, e, d)
		}
	}
	ask := func(what string, x requester, cmd qrpc.Cmd, fl qrpc.FrameFlag, p []byte, d time.Duration) {
		ask2(what, x, cmd, fl, p, d, d)
	}
	stream := func(what string, x requester, p []byte, sp spec, pause time.Duration) {
		sw, resp, err := x.StreamRequest(3, qrpc.NBFlag, p)
		if err != nil {
			c.Fatalf("%s: %v", what, err)
		}
		for k := 1; k <= sp.n; k++ {
			time.Sleep(pause)
			sw.StartWrite(3)
			sw.WriteBytes(p)
			if err := sw.EndWrite(k == sp.n); err != nil {
				c.Fatalf("%s: frame %d: %v", what, k, err)
			}
		}
		f, err := resp.GetFrame()
		if err != nil || !bytes.Equal(f.Payload, p) {
			c.Fatalf("%s: %v", what, err)
		}
	}
	item := func(i int, it e03Item, sp spec) {
		what := tmNames[it.Kind]
		p := append(binary.BigEndian.AppendUint32(nil, uint32(i)), make([]byte, clamp(it.Pay, 0, 10000))...)
		x := shared
		switch {
		case it.Own, it.Kind == tmBlocking, it.Kind == tmReader, it.Kind == tmAnswerReader, it.Kind == tmPushReader:
			// what is slow holds up its connection
			x = connect(srv.addrs[0])
		}
		ci := func() *qrpc.ConnectionInfo {
			ask(what, x, 5, qrpc.NBFlag, p, 0)
			mu.Lock()
			defer mu.Unlock()
			return infos[i]
		}
		count := func(want, ends int) {
			time.Sleep(time.Second)
			mu.Lock()
			defer mu.Unlock()
			if pushes[i] != want || ended[i] != ends {
				c.Fatalf("%s: %d of %d pushed frames arrive, %d ends", what, pushes[i], want, ended[i])
			}
		}
		switch it.Kind {
		case tmSlow:
			ask(what, x, 2, qrpc.NBFlag, p, sp.d)
		case tmBlocking:
			var ds []<-chan struct{}
			for k := 1; k <= sp.n; k++ {
				// they run one after another
				ds = append(ds, c.Go(func() { ask2(what, x, 2, 0, p, sp.d, sp.d*time.Duration(sp.n)) }))
			}
			for _, d := range ds {
				<-d
			}
		case tmStream:
			stream(what, x, p, sp, sp.d)
		case tmBackStream:
			stream(what, ci(), p, sp, sp.d)
		case tmReader:
			stream(what, x, p, sp, 0)
		case tmAnswer, tmAnswerReader:
			_, resp, err := x.Request(4, qrpc.NBFlag, p)
			if err != nil {
				c.Fatalf("%s: %v", what, err)
			}
			f, err := resp.GetFrame()
			if err != nil {
				c.Fatalf("%s: %v", what, err)
			}
			n, end := 1, false
			for {
				if it.Kind == tmAnswerReader {
					time.Sleep(sp.d)
				}
				g, ok := <-f.FrameCh()
				if !ok {
					break
				}
				n++
				end = g.Flags&qrpc.StreamEndFlag != 0
			}
			if n != sp.n+1 || !end {
				c.Fatalf("%s: %d of %d frames of the answer arrive, the last one: %v", what, n, sp.n+1, end)
			}
		case tmBack:
			ask(what, ci(), 2, qrpc.NBFlag, p, sp.d)
		case tmPush, tmPushStream, tmPushReader:
			wr := ci().GetWriter()
			id := srv.GetPushID()
			for k := 0; k <= sp.n; k++ {
				fl := qrpc.PushFlag
				if it.Kind == tmPush {
					id = srv.GetPushID()
				} else {
					fl |= qrpc.StreamFlag
					if k == sp.n {
						fl |= qrpc.StreamEndFlag
					}
				}
				wr.StartWrite(id, 5, fl)
				wr.WriteBytes(p)
				if err := wr.EndWrite(); err != nil {
					c.Fatalf("%s: %v", what, err)
				}
				if k < sp.n && it.Kind != tmPushReader {
					time.Sleep(sp.d)
				}
			}
			if it.Kind == tmPushReader {
				time.Sleep(sp.d * time.Duration(sp.n+2))
			}
			count(sp.n+1, min(it.Kind-tmPush, 1))
		case tmClientPush:
			for k := 0; k < sp.n; k++ {
				time.Sleep(sp.d)
				if _, _, err := x.Request(5, qrpc.PushFlag, p); err != nil {
					c.Fatalf("%s: %v", what, err)
				}
			}
			count(sp.n, 0)
		case tmIdle:
			for k := 0; k <= sp.n; k++ {
				ask(what, x, 1, qrpc.NBFlag, p, 0)
				time.Sleep(sp.d)
			}
			ask(what, x, 1, 0, p, 0)
		case tmThrottle:
			other := others[i]
			y := connect(other.addrs[0])
			ask(what, y, 1, qrpc.NBFlag, p, 0)
			other.SetThrottle(0)
			d := c.Go(func() { ask(what, y, 1, qrpc.NBFlag, p, 0) })
			time.Sleep(sp.d)
			select {
			case <-d:
				// a request which was being read already
				d = c.Go(func() { ask(what, y, 1, qrpc.NBFlag, p, 0) })
				time.Sleep(sp.d)
			default:
			}
			select {
			case <-d:
				c.Fatalf("%s: a request is answered meanwhile", what)
			default:
			}
			other.ClearThrottle(0)
			<-d
			ask(what, y, 1, qrpc.NBFlag, p, 0)
		case tmDown, tmLoss:
			var cur atomic.Pointer[vnet.Conn]
			cf := conf
			var until atomic.Int64
			over := overlay(func(nc *vnet.Conn) { cur.Store(nc) })
			cf.OverlayNetwork = func(addr string, dc qrpc.DialConfig) (net.Conn, error) {
				if time.Now().UnixNano() < until.Load() {
					return nil, errors.New("down")
				}
				return over(addr, dc)
			}
			y := qrpc.NewConnectionWithReconnect([]string{srv.addrs[0]}, cf, sub)
			mu.Lock()
			closed = append(closed, func() { y.Close() })
			mu.Unlock()
			ask(what, y, 1, qrpc.NBFlag, p, 0)
			if it.Kind == tmLoss {
				time.Sleep(sp.d)
			} else {
				until.Store(time.Now().Add(sp.d).UnixNano())
			}
			cur.Load().Break()
			if it.Kind == tmDown {
				time.Sleep(sp.d)
			}
			time.Sleep(5 * time.Second)
			ask(what, y, 1, qrpc.NBFlag, p, 0)
		case tmContext:
			for k := 0; k < 2; k++ {
				_, resp, err := x.Request(2, qrpc.NBFlag, p)
				if err != nil {
					c.Fatalf("%s: %v", what, err)
				}
				t0 := time.Now()
				d := sp.d * 2
				if k == 1 {
					d = sp.d / 2
				}
				ctx, cancel := context.WithTimeout(context.Background(), d)
				f, err := resp.GetFrameWithContext(ctx)
				cancel()
				if k == 0 && (err != nil || !bytes.Equal(f.Payload, p)) {
					c.Fatalf("%s: %v after %v, the handler takes %v", what, err, time.Since(t0), sp.d)
				}
				if k == 1 && (err == nil || time.Since(t0) != d) {
					c.Fatalf("%s: %v after %v, its deadline was %v", what, err, time.Since(t0), d)
				}
			}
			time.Sleep(sp.d)
		case tmChannel:
			snd, rcv, err := channel.NewTransport(x).Pipe()
			if err != nil {
				c.Fatalf("%s: %v", what, err)
			}
			for k := 0; k <= sp.n; k++ {
				if err := snd.Send(context.Background(), 7, p, k == sp.n); err != nil {
					c.Fatalf("%s: %v", what, err)
				}
				var cmd qrpc.Cmd
				var msg []byte
				if err := rcv.Receive(context.Background(), &cmd, &msg); err != nil || !bytes.Equal(msg, p) {
					c.Fatalf("%s: message %d: %v", what, k, err)
				}
				time.Sleep(sp.d)
			}
		case tmAPI:
			cf := conf
			cf.OverlayNetwork = overlay(nil)
			api := qrpc.NewAPI(srv.addrs, cf, nil)
			mu.Lock()
			closed = append(closed, func() { api.Close() })
			mu.Unlock()
			for k := 0; k <= sp.n; k++ {
				cmd := qrpc.Cmd(1 + k%2)
				f, err := api.Call(context.Background(), cmd, p)
				if err != nil || !bytes.Equal(f.Payload, p) {
					c.Fatalf("%s: call %d: %v", what, k, err)
				}
				time.Sleep(sp.d)
			}
		case tmID:
			y := connect(srv.addrs[0])
			ask(what, y, 6, qrpc.NBFlag, p, 0)
			time.Sleep(sp.d)
			if ci := srv.GetConnectionInfoByID(0, fmt.Sprint("id", i)); ci == nil {
				c.Fatalf("%s: forgotten after %v", what, sp.d)
			}
			ask(what, y, 1, qrpc.NBFlag, p, 0)
		case tmStuck:
			ol := NetOpt{}
			ol.S2C.Buf = 64
			y, _, err := w.dialPeer(srv.addrs[0], ol)
			if err != nil {
				c.Fatalf("%s: %v", what, err)
			}
			q := append(p, make([]byte, 1000)...)
			y.Send(wire.Frame{ID: 3, Cmd: 1, Flags: wire.NB, Payload: q}, wire.Frame{ID: 5, Cmd: 1, Flags: wire.NB, Payload: q})
			time.Sleep(sp.d)
			y.read()
			if !y.WaitN(2, time.Minute) || y.Ended() {
				c.Fatalf("%s: %d of 2 answers arrive, lost: %v", what, len(y.Frames()), y.Ended())
			}
		case tmPartial:
			y := w.rawClient(srv.addrs[0], NetOpt{})
			raw := wire.Encode(wire.Frame{ID: 3, Cmd: 1, Flags: wire.NB, Payload: p})
			at := clamp(it.Pay, 0, len(raw))
			for k := 0; k < sp.n; k++ {
				next := min(at+k*7, len(raw))
				from := at + (k-1)*7
				if k == 0 {
					from = 0
				}
				y.Raw(raw[min(from, len(raw)):next])
				time.Sleep(sp.d)
			}
			y.Raw(raw[min(at+(sp.n-1)*7, len(raw)):])
			if !y.WaitN(1, time.Minute) || y.Ended() {
				c.Fatalf("%s: not answered, lost: %v", what, y.Ended())
			}
		case tmQuiet:
			// nobody waits for the answer when it comes
			y := connect(srv.addrs[0])
			_, resp, err := y.Request(1, qrpc.NBFlag, p)
			if err != nil {
				c.Fatalf("%s: %v", what, err)
			}
			time.Sleep(sp.d)
			f, err := resp.GetFrame()
			if err != nil || !bytes.Equal(f.Payload, p) {
				c.Fatalf("%s: the answer is gone after %v: %v", what, sp.d, err)
			}
		}
	}
	if !c.Do(forever, func() {
		var ds []<-chan struct{}
		for i, it := range s.Items {
			if it.Kind < 0 || it.Kind >= nTmKinds {
				continue
			}
			ds = append(ds, c.Go(func() { item(i, it, specs[i]) }))
		}
		for _, d := range ds {
			<-d
		}
	}) {
		c.Fatalf("nothing ends")
	}
	if c.Failed() {
		return
	}
	for i, it := range s.Items {
		if it.Kind < 0 || it.Kind >= nTmKinds {
			continue
		}
		unit := "seconds"
		switch d := specs[i].d; {
		case d >= 24*time.Hour:
			unit = "days"
		case d >= time.Hour:
			unit = "hours"
		case d >= time.Minute:
			unit = "minutes"
		}
		c.Label("%s, %s", tmNames[it.Kind], unit)
		if specs[i].d >= time.Minute {
			c.NonTrivial()
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "E03",
		Title: "time changes nothing",
		Rule:  "generated: up to six kinds of pauses at once, from milliseconds to a hundred days of virtual time, on shared or own connections over all transports, without timeouts: in handlers of either end, blocking or not, between the frames of streams, answers, pushes and channels of either end, before requests, calls of the API and lookups by id, while throttled, while the server of a reconnecting client is down, while a peer does not read or has sent a part of a frame, in readers of streams, answers and pushes, and before the answer is taken; oracle: everything is answered as if at once, after exactly the time its handler takes, contexts of requests do not end, and a caller's context ends the waiting exactly at its deadline. Non-trivial: a pause of a minute at least",
		Gen:   genE03,
		New:   func() any { return &e03{} }, Run: runE03,
		Quick:    pbt.Budget{Cases: 60000, MaxSec: 90},
		Thorough: pbt.Budget{Cases: 2000000, MaxSec: 900},
	})
}
