package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"verif/pbt"
	"verif/vnet"

	"github.com/zhiqiangxu/qrpc"
)

// ---- L08: what was cut off never passes for whole

type l08Stream struct {
	Conn, Kind int // request to the server, request to the client, push to the client, push to the server
	T, Gap     int
	N          int // frames after the first one
	Reset      int // >0: reset after this many of them
	Resp       int // frames of the answer after its first one
	Size       int
	NB         bool
}

type l08End struct {
	Conn, T int
	Kind    int // Close of the client, Close at the server, Shutdown, network breaks, kicked, Close in a handler, a frame above the limit
}

type l08 struct {
	N        int
	RCh, WCh int
	Streams  []l08Stream
	Ends     []l08End
	Links    []Link
}

var l08Kinds = []string{"a request to the server", "a request to a client", "a push to a client", "a push to the server"}

func genL08(r *pbt.R) any {
	s := &l08{N: r.Range(1, 4), RCh: pbt.Pick(r, 0, 0, 1, 4), WCh: pbt.Pick(r, 0, 0, 1, 4)}
	span := pbt.Pick(r, 1, 1, 2, 6)
	for i := 0; i < s.N; i++ {
		var l Link
		if r.P(1, 5) {
			l = genLink(r, 2000)
		}
		s.Links = append(s.Links, l)
	}
	for n := r.N(1, 16); n > 0; n-- {
		x := l08Stream{Conn: r.Intn(s.N), Kind: r.W(5, 4, 2, 1), T: r.Intn(span), Gap: pbt.Pick(r, 0, 0, 0, 1), N: r.N(0, 6), Size: pbt.Pick(r, 0, 0, r.Len(3000)), NB: r.P(2, 3)}
		if r.P(1, 6) && x.N > 0 {
			x.Reset = 1 + r.Intn(x.N)
		}
		if r.P(1, 3) {
			x.Resp = r.N(1, 5)
		}
		s.Streams = append(s.Streams, x)
	}
	for n := pbt.Pick(r, 0, 1, 1, 1, 2, 3); n > 0; n-- {
		s.Ends = append(s.Ends, l08End{Conn: r.Intn(s.N), T: r.Intn(span), Kind: r.W(6, 6, 6, 2, 4, 4, 3)})
	}
	return s
}

func runL08(c *pbt.C, sc any) {
	s := sc.(*l08)
	w := newWorld(c)
	n := clamp(s.N, 1, 6)
	s.Streams = s.Streams[:min(len(s.Streams), 60)]
	s.Ends = s.Ends[:min(len(s.Ends), 20)]
	const tick = time.Millisecond
	var (
		mu    sync.Mutex
		cut   bool
		infos = make([]*qrpc.ConnectionInfo, n)
		conns = make([]*qrpc.Connection, n)
		nets  = make([]*vnet.Conn, n)
	)
	total := func(x *l08Stream) int { return clamp(x.N, 1, 50) + 1 }
	// a frame says which stream it belongs to and its place in it
	frame := func(i, k, size int) []byte {
		b := make([]byte, 8+clamp(size, 0, 100000))
		binary.BigEndian.PutUint32(b, uint32(i))
		binary.BigEndian.PutUint32(b[4:], uint32(k))
		return b
	}
	// all reads a stream to its end and gives its number of frames
	all := func(where string, kind int, f *qrpc.Frame, want int) (i, got int) {
		if len(f.Payload) < 8 {
			c.Failf("%s: a first frame of %d bytes", where, len(f.Payload))
			return -1, 0
		}
		i = int(binary.BigEndian.Uint32(f.Payload))
		if i >= len(s.Streams) {
			c.Failf("%s: a frame of no stream", where)
			return -1, 0
		}
		if want < 0 {
			want = total(&s.Streams[i])
			if clamp(s.Streams[i].Kind, 0, 3) != kind {
				c.Failf("%s: gets a frame of stream %d, which is %s", where, i, l08Kinds[clamp(s.Streams[i].Kind, 0, 3)])
				return -1, 0
			}
		}
		got = 1
		for g := range f.FrameCh() {
			if len(g.Payload) < 8 && !(len(g.Payload) == 0 && g.Flags&qrpc.StreamEndFlag != 0) {
				c.Failf("%s: stream %d: a frame of %d bytes", where, i, len(g.Payload))
				return i, got
			}
			if len(g.Payload) >= 8 && !bytes.Equal(g.Payload[:8], frame(i, got, 0)) {
				c.Failf("%s: stream %d: frame %x instead of number %d", where, i, g.Payload[:8], got)
				return i, got
			}
			got++
		}
		if got > want {
			c.Failf("%s: stream %d has %d frames, %d were sent", where, i, got, want)
		}
		if got < want {
			mu.Lock()
			cut = true
			mu.Unlock()
			if f.Context().Err() == nil {
				c.Failf("%s: stream %d ends after %d of %d frames and its context is not done", where, i, got, want)
			}
		}
		return
	}
	handler := func(where string, kind int) qrpc.HandlerFunc {
		return func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if f.Cmd == 9 { // closes its connection
				f.Close()
				return
			}
			i, got := all(where, kind, (*qrpc.Frame)(f), -1)
			if i < 0 {
				return
			}
			x := &s.Streams[i]
			k := clamp(x.Resp, 0, 50)
			for j := 0; j <= k; j++ {
				var fl qrpc.FrameFlag
				if k > 0 {
					fl = qrpc.StreamFlag
				}
				if k > 0 && j == k {
					fl = qrpc.StreamEndFlag
				}
				wr.StartWrite(f.RequestID, qrpc.Cmd(got), fl)
				wr.WriteBytes(frame(i, j, 0))
				if wr.EndWrite() != nil {
					return
				}
			}
		}
	}
	b := qrpc.ServerBinding{Handler: handler("handler of the server", 0), ReadFrameChSize: clamp(s.RCh, 0, 20), WriteFrameChSize: clamp(s.WCh, 0, 20), MaxFrameSize: 150000,
		SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
			go func() { all("subscriber of the server", 3, f, -1) }()
		}}
	srv := w.serve(b)
	find := func(have []*qrpc.ConnectionInfo) (ci *qrpc.ConnectionInfo) {
		srv.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
			for _, y := range have {
				if x == y {
					return true
				}
			}
			ci = x
			return false
		})
		return
	}
	for i := range conns {
		o := NetOpt{}
		if i < len(s.Links) {
			o = NetOpt{s.Links[i].opts(), s.Links[i].opts()}
		}
		conf := qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 20), Handler: handler(fmt.Sprintf("handler of client %d", i), 1)}
		conns[i], nets[i], _ = w.dial(srv.addrs[0], conf, func(_ *qrpc.Connection, f *qrpc.Frame) {
			go func() { all("subscriber of a client", 2, f, -1) }()
		}, o)
		c.Sleep(time.Minute)
		if infos[i] = find(infos[:i]); infos[i] == nil {
			c.Fatalf("connection %d is not known to the server", i)
		}
	}
	// connections which kick others
	var kickers []*qrpc.ConnectionInfo
	for i, e := range s.Ends {
		kickers = append(kickers, nil)
		if e.Kind == 4 {
			w.dial(srv.addrs[0], qrpc.ConnectionConfig{}, nil, NetOpt{})
			c.Sleep(time.Minute)
			if kickers[i] = find(append(append([]*qrpc.ConnectionInfo(nil), infos...), kickers...)); kickers[i] == nil {
				c.Fatalf("a connection is not known to the server")
			}
		}
	}
	for i, ci := range infos {
		ci.SetID(fmt.Sprint("id", i))
	}
	base := time.Now().Add(time.Minute)
	var done []<-chan struct{}
	for i := range s.Streams {
		i, x := i, &s.Streams[i]
		done = append(done, c.Go(func() {
			time.Sleep(time.Until(base.Add(time.Duration(clamp(x.T, 0, 1000)) * tick)))
			cn := clamp(x.Conn, 0, n-1)
			var fl qrpc.FrameFlag
			if x.NB {
				fl = qrpc.NBFlag
			}
			if x.Kind >= 2 {
				fl = qrpc.PushFlag
			}
			var (
				sw   qrpc.StreamWriter
				resp qrpc.Response
				err  error
			)
			if x.Kind == 0 || x.Kind == 3 {
				sw, resp, err = conns[cn].StreamRequest(1, fl, frame(i, 0, x.Size))
			} else {
				sw, resp, err = infos[cn].StreamRequest(1, fl, frame(i, 0, x.Size))
			}
			if err != nil {
				return
			}
			reset := false
			for k := 1; k < total(x); k++ {
				if x.Reset == k {
					reset = true
					sw.ResetFrame(3)
					break
				}
				if x.Gap > 0 {
					time.Sleep(tick)
				}
				sw.StartWrite(1)
				sw.WriteBytes(frame(i, k, x.Size))
				if sw.EndWrite(k == total(x)-1) != nil {
					break
				}
			}
			if resp == nil {
				return
			}
			f, err := resp.GetFrame()
			if err != nil || f.Flags.IsRst() {
				return
			}
			if !reset && int(f.Cmd) != total(x) {
				c.Failf("stream %d of %d frames is answered as if it had %d", i, total(x), int(f.Cmd))
			}
			all(fmt.Sprintf("requester of stream %d", i), 0, f, clamp(x.Resp, 0, 50)+1)
		}))
	}
	for i, e := range s.Ends {
		i, e := i, e
		done = append(done, c.Go(func() {
			time.Sleep(time.Until(base.Add(time.Duration(clamp(e.T, 0, 1000)) * tick)))
			cn := clamp(e.Conn, 0, n-1)
			switch e.Kind {
			case 0:
				conns[cn].Close()
			case 1:
				infos[cn].Close()
			case 2:
				srv.Shutdown()
			case 3:
				nets[cn].Break()
			case 4:
				kickers[i].SetID(fmt.Sprint("id", cn))
			case 5:
				conns[cn].Request(9, qrpc.NBFlag, nil)
			case 6:
				conns[cn].Request(8, qrpc.NBFlag, make([]byte, 150000))
			}
		}))
		c.Label("ended by %s", []string{"Close of the client", "Close at the server", "Shutdown", "the network", "a kick", "Close in a handler", "a frame above the limit"}[clamp(e.Kind, 0, 6)])
	}
	time.Sleep(time.Until(base) + time.Minute)
	for _, conn := range conns {
		conn := conn
		c.MustDo("Close", func() { conn.Close() })
	}
	for _, d := range done {
		if !c.WaitDone(d, pbt.Long) {
			c.Fatalf("a request or a call never ends")
		}
	}
	c.Sleep(time.Minute)
	if cut {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L08",
		Title: "cut off streams",
		Rule:  "generated: up to 16 streamed requests and pushes both ways over one to four connections, some reset by their sender, while connections are closed at the same instants by either end, in a handler, by Shutdown, by a kick, by the network or for a frame above the limit; oracle: the frames sent, the context of the reader at the moment it sees the end, and the number of frames each answer was made of. Non-trivial: some stream was cut off",
		Gen:   genL08,
		New:   func() any { return &l08{} }, Run: runL08,
		Quick:    pbt.Budget{Cases: 200000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 6000000, MaxSec: 900},
	})
}
