package props

import (
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/pbt"
	"verif/vnet"

	"github.com/zhiqiangxu/qrpc"
)

// ---- E02: numbers do not matter

const (
	vSeq = iota
	vBack
	vPush
	vMany
	vManyBack
	vFrames
	vStreams
	vConns
	vBinds
	vRecon
	vMux
	vChain
	nVKinds
)

var vNames = []string{"requests one after the other", "requests of the server one after the other", "pushes", "requests at once", "requests of the server at once", "frames of a stream", "streams at once", "connections", "bindings", "losses of a reconnecting client", "commands", "middleware functions"}

var vMax = []int{3000, 3000, 3000, 2000, 2000, 3000, 600, 300, 60, 100, 3000, 500}

type e02 struct {
	Kind, N  int
	Par      int
	WCh, RCh int
	Codec    bool
	Block    bool
	Seed     uint64
}

func genE02(r *pbt.R) any {
	s := &e02{Kind: r.Intn(nVKinds), Par: r.Range(1, 12), WCh: pbt.Pick(r, 0, 0, 1, 4, r.Len(3000)), RCh: pbt.Pick(r, 0, 0, 1, 4, r.Len(300)), Codec: r.P(1, 4), Block: r.P(1, 3), Seed: r.U64()}
	s.N = 1 + r.Len(vMax[s.Kind])
	if r.P(1, 2) {
		s.N = pbt.Pick(r, 15, 31, 63, 127, 255, 511, 1023, 10, 100, 1000) + r.Range(0, 3)
	}
	return s
}

func e02Fixed() (out []any) {
	for _, k := range []int{vSeq, vBack, vPush, vFrames} {
		out = append(out, &e02{Kind: k, N: 66000, Par: 8, WCh: 4, RCh: 0})
	}
	out = append(out, &e02{Kind: vMany, N: 5000, Par: 1}, &e02{Kind: vManyBack, N: 5000, Par: 1}, &e02{Kind: vStreams, N: 3000, Par: 1}, &e02{Kind: vConns, N: 1100, Par: 1}, &e02{Kind: vBinds, N: 300, Par: 1}, &e02{Kind: vRecon, N: 300, Par: 1}, &e02{Kind: vMux, N: 65536, Par: 1})
	return
}

func runE02(c *pbt.C, sc any) {
	s := sc.(*e02)
	if s.Kind < 0 || s.Kind >= nVKinds {
		return
	}
	n := clamp(s.N, 1, 100000)
	if n > vMax[s.Kind]*2 {
		fixed := false
		for _, f := range e02Fixed() {
			fixed = fixed || f.(*e02).Kind == s.Kind && f.(*e02).N >= n
		}
		if !fixed {
			n = vMax[s.Kind] * 2
		}
	}
	par := clamp(s.Par, 1, 20)
	w := newWorld(c)
	var fl qrpc.FrameFlag
	if s.Codec {
		fl = qrpc.CodecFlag
	}
	num := func(k int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(k)) }
	back := func(b []byte) int {
		if len(b) < 4 {
			return -1
		}
		return int(binary.BigEndian.Uint32(b))
	}
	// payloads stay as they were
	type keptPayload struct {
		b []byte
		k int
	}
	var (
		keptMu sync.Mutex
		kept   []keptPayload
	)
	keep := func(b []byte) int {
		k := back(b)
		keptMu.Lock()
		kept = append(kept, keptPayload{b, k})
		keptMu.Unlock()
		return k
	}
	answer := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		keep(f.Payload)
		wr.StartWrite(f.RequestID, f.Cmd, fl)
		wr.WriteBytes(f.Payload)
		if err := wr.EndWrite(); err != nil {
			c.Failf("an answer: %v", err)
		}
	}
	release := make(chan struct{})
	var arrived atomic.Int64
	held := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		arrived.Add(1)
		<-release
		answer(wr, f)
	}
	var (
		mu    sync.Mutex
		infos = map[int]*qrpc.ConnectionInfo{}
	)
	// echo sends each frame of a stream back
	echo := func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		b, end := f.Payload, f.FrameCh() == nil
		for {
			x := qrpc.StreamFlag | fl
			wr.StartWrite(f.RequestID, f.Cmd, x)
			wr.WriteBytes(b)
			if err := wr.EndWrite(); err != nil {
				c.Failf("a frame of an answer: %v", err)
				return
			}
			if end {
				break
			}
			g := <-f.FrameCh()
			if g == nil {
				break
			}
			b = g.Payload
			keep(b)
		}
		wr.StartWrite(f.RequestID, f.Cmd, qrpc.StreamFlag|qrpc.StreamEndFlag)
		wr.EndWrite()
	}
	mux := qrpc.NewServeMux()
	mux.HandleFunc(1, answer)
	mux.HandleFunc(2, held)
	mux.HandleFunc(3, echo)
	mux.HandleFunc(4, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		mu.Lock()
		infos[back(f.Payload)] = f.ConnectionInfo()
		mu.Unlock()
		answer(wr, f)
	})
	var pushed []int
	b := qrpc.ServerBinding{Handler: mux, ReadFrameChSize: clamp(s.RCh, 0, 5000), WriteFrameChSize: clamp(s.WCh, 0, 5000), Codec: hCodec{},
		SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
			mu.Lock()
			pushed = append(pushed, keep(f.Payload))
			mu.Unlock()
		}}
	if s.RCh > 0 && s.Kind == vConns || s.Kind == vBinds {
		b.ReadFrameChSize = 0 // locks a thread for each connection
	}
	binds := 1
	if s.Kind == vBinds {
		binds = min(n, 300)
	}
	var bs []qrpc.ServerBinding
	for i := 0; i < binds; i++ {
		bb := b
		if s.Kind == vBinds {
			m := qrpc.NewServeMux()
			m.HandleFunc(1, func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
				f.ConnectionInfo().SetID("same")
				wr.StartWrite(f.RequestID, 1, 0)
				wr.WriteBytes(num(i))
				wr.EndWrite()
			})
			bb.Handler = m
		}
		bs = append(bs, bb)
	}
	srv := w.serve(bs...)
	cmux := qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 2:
			held(wr, f)
		case 3:
			echo(wr, f)
		default:
			answer(wr, f)
		}
	})
	o := NetOpt{}
	o.C2S.Buf, o.S2C.Buf = 1<<22, 1<<22
	type conned struct {
		*qrpc.Connection
		net  *vnet.Conn
		got  []int
		strs [][]int
	}
	connect := func(addr string, recon bool) *conned {
		x := &conned{}
		conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 5000), Codec: hCodec{}, Handler: cmux}
		conf.OverlayNetwork = func(a string, _ qrpc.DialConfig) (net.Conn, error) {
			nc, _, err := w.dialFar(a, o)
			if err != nil {
				return nil, err
			}
			mu.Lock()
			x.net = nc
			mu.Unlock()
			return w.clientEnd(a, nc, nil, nil)
		}
		sub := func(_ *qrpc.Connection, f *qrpc.Frame) {
			if f.Flags&qrpc.StreamFlag != 0 {
				var all []int
				all = append(all, keep(f.Payload))
				ch := f.FrameCh()
				done := f.Flags&qrpc.StreamEndFlag != 0
				go func() {
					for !done {
						g := <-ch
						if g == nil {
							break
						}
						all = append(all, back(g.Payload))
					}
					mu.Lock()
					x.strs = append(x.strs, all)
					mu.Unlock()
				}()
				return
			}
			mu.Lock()
			x.got = append(x.got, keep(f.Payload))
			mu.Unlock()
		}
		if recon {
			x.Connection = qrpc.NewConnectionWithReconnect([]string{addr}, conf, sub)
		} else {
			conn, err := qrpc.NewConnection(addr, conf, sub)
			if err != nil {
				c.Fatalf("connecting: %v", err)
			}
			x.Connection = conn
		}
		return x
	}
	var all []*conned
	c.Cleanup(func() {
		for _, x := range all {
			x.Close()
		}
		time.Sleep(time.Second)
	})
	first := connect(srv.addrs[0], s.Kind == vRecon)
	all = append(all, first)
	// a request and what it gives
	type requester interface {
		Request(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)
		StreamRequest(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)
	}
	get := func(what string, k int, resp qrpc.Response) {
		f, err := resp.GetFrame()
		if err != nil {
			c.Fatalf("%s %d of %d: %v", what, k, n, err)
		}
		if keep(f.Payload) != k {
			c.Fatalf("%s %d of %d has the answer of %d", what, k, n, back(f.Payload))
		}
	}
	ask := func(what string, x requester, cmd qrpc.Cmd, f qrpc.FrameFlag, k int) qrpc.Response {
		_, resp, err := x.Request(cmd, f|fl, num(k))
		if err != nil {
			c.Fatalf("%s %d of %d: %v", what, k, n, err)
		}
		return resp
	}
	must := func(f func()) bool {
		if !c.Do(10*pbt.Long, f) {
			c.Fatalf("%d %s: does not end", n, vNames[s.Kind])
		}
		return !c.Failed()
	}
	ci := func(k int) *qrpc.ConnectionInfo { mu.Lock(); defer mu.Unlock(); return infos[k] }
	if s.Kind != vBinds && !must(func() { get("a first request", 0, ask("a first request", first, 4, qrpc.NBFlag, 0)) }) {
		return
	}
	// streamed sends m frames and reads m frames
	streamed := func(x requester, m, base int) {
		sw, resp, err := x.StreamRequest(3, qrpc.NBFlag|fl, num(base))
		if err != nil {
			c.Fatalf("a stream: %v", err)
		}
		c.Go(func() {
			for k := 1; k < m; k++ {
				sw.StartWrite(3)
				sw.WriteBytes(num(base + k))
				if err := sw.EndWrite(false); err != nil {
					c.Fatalf("frame %d of %d: %v", k, m, err)
				}
			}
			sw.StartWrite(3)
			sw.WriteBytes(num(base + m))
			if err := sw.EndWrite(true); err != nil {
				c.Fatalf("the last frame of %d: %v", m, err)
			}
		})
		f, err := resp.GetFrame()
		if err != nil {
			c.Fatalf("the answer of a stream: %v", err)
		}
		ch := f.FrameCh()
		for k := 0; k <= m; k++ {
			if f == nil || keep(f.Payload) != base+k {
				c.Fatalf("frame %d of %d is %v", k, m, f)
			}
			f = <-ch
		}
		if f == nil || f.Flags&qrpc.StreamEndFlag == 0 {
			c.Fatalf("%d frames: no end", m)
		}
		if f = <-ch; f != nil {
			c.Fatalf("%d frames: one more", m)
		}
	}
	var x requester = first
	switch s.Kind {
	case vSeq, vBack:
		if s.Kind == vBack {
			x = ci(0)
		}
		var old qrpc.Response
		if !must(func() { old = ask("an old request", x, 2, qrpc.NBFlag, 1<<30) }) {
			return
		}
		var next atomic.Int64
		if !must(func() {
			var wg sync.WaitGroup
			for p := 0; p < par; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer c.Recover()
					for !c.Failed() {
						k := int(next.Add(1))
						if k > n {
							return
						}
						f := qrpc.NBFlag
						if s.Block && k%3 == 0 && s.Kind == vSeq {
							f = 0
						}
						get("request", k, ask("request", x, 1, f, k))
					}
				}()
			}
			wg.Wait()
		}) {
			return
		}
		close(release)
		must(func() { get("the old request of", 1<<30, old) })
	case vPush:
		info := ci(0)
		wr := info.GetWriter()
		open := srv.GetPushID()
		send := func(id uint64, f qrpc.FrameFlag, k int) {
			wr.StartWrite(id, 5, qrpc.PushFlag|f|fl)
			wr.WriteBytes(num(k))
			if err := wr.EndWrite(); err != nil {
				c.Fatalf("push %d of %d: %v", k, n, err)
			}
		}
		if !must(func() {
			send(open, qrpc.StreamFlag, 0)
			for k := 0; k < n; k++ {
				send(srv.GetPushID(), 0, k)
				if _, _, err := first.Request(5, qrpc.PushFlag|fl, num(k)); err != nil {
					c.Fatalf("push %d of %d: %v", k, n, err)
				}
			}
			send(open, qrpc.StreamFlag|qrpc.StreamEndFlag, n)
		}) {
			return
		}
		c.Sleep(time.Minute)
		mu.Lock()
		defer mu.Unlock()
		for side, got := range [][]int{first.got, pushed} {
			if len(got) != n {
				c.Fatalf("%d of %d pushes arrived (%d)", len(got), n, side)
			}
			for k, v := range got {
				if k != v {
					c.Fatalf("push %d is %d (%d)", k, v, side)
				}
			}
		}
		if len(first.strs) != 1 || len(first.strs[0]) != 2 || first.strs[0][1] != n {
			c.Fatalf("the streamed push around %d pushes: %v", n, first.strs)
		}
	case vMany, vManyBack:
		if s.Kind == vManyBack {
			x = ci(0)
		}
		var resps []qrpc.Response
		if !must(func() {
			for k := 0; k < n; k++ {
				resps = append(resps, ask("request", x, 2, qrpc.NBFlag, k))
			}
			for k := 0; arrived.Load() < int64(n) && k < 1000; k++ {
				time.Sleep(time.Second)
			}
		}) {
			return
		}
		if got := arrived.Load(); got != int64(n) {
			c.Fatalf("%d of %d requests at once are handled", got, n)
		}
		close(release)
		must(func() {
			for k, resp := range resps {
				get("request", k, resp)
			}
		})
	case vFrames:
		if s.Block {
			x = ci(0)
		}
		must(func() { streamed(x, n, 0) })
	case vStreams:
		must(func() {
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				x := x
				if s.Block && k%2 == 0 {
					x = ci(0)
				}
				go func() {
					defer wg.Done()
					defer c.Recover()
					streamed(x, 5, 1000*k)
				}()
			}
			wg.Wait()
		})
	case vConns:
		for k := 1; k <= n; k++ {
			y := connect(srv.addrs[0], false)
			all = append(all, y)
			if !must(func() { get("the request of connection", k, ask("the request of connection", y, 4, qrpc.NBFlag, k)) }) {
				return
			}
			ci(k).SetID(fmt.Sprint("id", k))
		}
		seen := map[*qrpc.ConnectionInfo]int{}
		srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { seen[x]++; return true })
		var ids []string
		for k := 0; k <= n; k++ {
			if seen[ci(k)] != 1 {
				c.Fatalf("connection %d of %d was visited %d times", k, n, seen[ci(k)])
			}
			if k == 0 {
				continue
			}
			ids = append(ids, fmt.Sprint("id", k))
			if srv.GetConnectionInfoByID(0, ids[k-1]) != ci(k) {
				c.Fatalf("connection %d of %d is not found by its id", k, n)
			}
		}
		visited := 0
		srv.WalkConnByID(0, ids, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo, i int) {
			if i != visited || x != ci(i+1) {
				c.Failf("visit %d is of %d", visited, i)
			}
			visited++
		})
		if visited != n || len(seen) != n+1 {
			c.Fatalf("%d and %d of %d connections visited", visited, len(seen), n)
		}
	case vBinds:
		for k := 0; k < binds; k++ {
			y := connect(srv.addrs[k], false)
			all = append(all, y)
			if !must(func() { get("the request of binding", k, ask("the request of binding", y, 1, qrpc.NBFlag, 0)) }) {
				return
			}
			for j := 0; j < binds; j += max(1, binds/10) {
				if found := srv.GetConnectionInfoByID(j, "same") != nil; found != (j <= k) {
					c.Fatalf("binding %d of %d: found by id: %v, after binding %d had one", j, binds, found, k)
				}
			}
		}
		if !must(func() { srv.Shutdown() }) {
			return
		}
		for k, y := range all[1:] {
			if !c.Do(pbt.Long, func() { y.Wait() }) {
				c.Fatalf("the connection of binding %d of %d outlives Shutdown", k, binds)
			}
		}
	case vRecon:
		for k := 1; k <= n; k++ {
			mu.Lock()
			nc := first.net
			mu.Unlock()
			nc.Break()
			ok := false
			if !must(func() {
				for try := 0; try < 100 && !ok; try++ {
					if _, resp, err := first.Request(1, qrpc.NBFlag|fl, num(k)); err == nil {
						if f, err := resp.GetFrame(); err == nil {
							ok = back(f.Payload) == k
						}
					}
					if !ok {
						time.Sleep(time.Second)
					}
				}
			}) {
				return
			}
			if !ok {
				c.Fatalf("no answer after loss %d", k)
			}
		}
	case vMux:
		n = min(n, 1<<16)
		m := qrpc.NewServeMux()
		stride := 1
		if n < 10000 {
			stride = 1 + 2*int(s.Seed%2000)
		}
		for k := 0; k < n; k++ {
			m.HandleFunc(qrpc.Cmd(k*stride%(1<<16)), func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
				wr.StartWrite(f.RequestID, 0, 0)
				wr.WriteBytes(num(k))
				wr.EndWrite()
			})
		}
		bb := b
		bb.Addr, bb.Handler = "mux", m
		s2 := w.serve(bb)
		y := connect(s2.addrs[0], false)
		all = append(all, y)
		must(func() {
			step := max(1, n/100)
			for k := 0; k < n; k += step {
				get("command", k, ask("command", y, qrpc.Cmd(k*stride%(1<<16)), qrpc.NBFlag, 0))
			}
			get("command", n-1, ask("command", y, qrpc.Cmd((n-1)*stride%(1<<16)), qrpc.NBFlag, 0))
		})
	case vChain:
		var order []int
		var mws []qrpc.MiddlewareFunc
		for k := 0; k < n; k++ {
			mws = append(mws, func(qrpc.FrameWriter, *qrpc.RequestFrame) bool {
				order = append(order, k)
				return k != int(s.Seed%uint64(2*n))
			})
		}
		mux.HandleFunc(9, answer, mws...)
		want := min(int(s.Seed%uint64(2*n))+1, n)
		must(func() {
			resp := ask("a request", first, 9, qrpc.NBFlag, 9)
			if s.Seed%uint64(2*n) >= uint64(n) {
				get("a request", 9, resp)
			} else {
				resp.GetFrame()
			}
		})
		if len(order) != want {
			c.Fatalf("%d of %d middleware functions were called", len(order), want)
		}
		for k, v := range order {
			if k != v {
				c.Fatalf("middleware function %d was called as the %dth", v, k)
			}
		}
	}
	keptMu.Lock()
	defer keptMu.Unlock()
	for _, x := range kept {
		if back(x.b) != x.k {
			c.Fatalf("the payload %d received became %d later", x.k, back(x.b))
		}
	}
	c.Label("%s", vNames[s.Kind])
	if n >= 100 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "E02",
		Title: "numbers do not matter",
		Rule:  "generated: numbers (one to thousands, around powers of two; a fixed set up to 70000 on each run) of requests of either end over the life of a connection while an older one is pending, of requests at once, pushes around an open streamed push, frames of a stream, streams at once, connections with ids, bindings, losses of a reconnecting client, registered commands and middleware functions, queue sizes up to thousands; oracle: each of them gives exactly its own result. Non-trivial: at least 100",
		Gen:   genE02,
		New:   func() any { return &e02{} }, Run: runE02,
		Fixed:    e02Fixed(),
		Quick:    pbt.Budget{Cases: 8000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 100000, MaxSec: 900},
	})
}
