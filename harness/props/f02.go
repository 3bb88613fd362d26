package props

import (
	"encoding/binary"
	"sync"
	"time"

	"verif/pbt"
	"verif/wire"

	"github.com/zhiqiangxu/qrpc"
)

// F02: concurrent writers of one connection

type f02Frame struct {
	P     Pay
	Gap   int // µs before it
	Split int
}

// writer kinds
const (
	wkReq    = iota // a request per frame
	wkPush          // a push per frame
	wkStream        // one streamed request
	wkResp          // a streamed response
	wkMixed         // alternating requests and pushes
	nWk
)

type f02Writer struct {
	Kind   int
	Frames []f02Frame
}

type f02 struct {
	Client  bool // who writes
	WCh     int
	L       Link
	Stall   []int // µs, long pauses of the network
	Cut     int   // >0: the connection breaks after this many bytes
	Pause   int   // µs the peer waits before it reads
	Writers []f02Writer
}

func genF02(r *pbt.R) any {
	s := &f02{Client: r.P(1, 2), WCh: pbt.Pick(r, 0, 1, 2, 3, 8, 64, 1000)}
	n := r.Range(1, 10)
	total := 0
	for i := 0; i < n; i++ {
		wr := f02Writer{Kind: r.Intn(nWk)}
		max := pbt.Pick(r, 30, 2000, 40000)
		for j := r.N(1, 25); j > 0; j-- {
			if total > 400000 {
				max = 30
			}
			f := f02Frame{P: genPay(r, max), Split: r.Intn(4)}
			if r.P(1, 4) {
				f.Gap = r.Intn(2000)
			}
			total += f.P.N + 30
			wr.Frames = append(wr.Frames, f)
		}
		s.Writers = append(s.Writers, wr)
	}
	s.L = genLink(r, total)
	if r.P(1, 3) {
		for i := r.Range(1, 4); i > 0; i-- {
			s.Stall = append(s.Stall, pbt.Pick(r, 0, 0, r.Intn(1000000), r.Intn(9000000)))
		}
		if len(s.L.WChunk) > 0 && total > 3000 {
			s.L.WChunk = []int{r.Range(100, 3000), r.Range(1, 3000)}
		}
	}
	if r.P(1, 3) {
		s.Pause = pbt.Pick(r, 1000, 2900000, 3100000, 20000000)
	}
	if r.P(1, 4) {
		s.Cut = r.Range(1, total+1)
	}
	return s
}

type f02Write struct {
	w, seq     int
	start, end int // global order of events; end 0: not returned
	err        error
	done       bool
}

type f02State struct {
	c      *pbt.C
	s      *f02
	mu     sync.Mutex
	clock  int
	writes map[[2]int]*f02Write
}

func f02Payload(wi, seq int, p Pay) []byte {
	b := make([]byte, 8, 8+p.N)
	binary.BigEndian.PutUint32(b, uint32(wi))
	binary.BigEndian.PutUint32(b[4:], uint32(seq))
	return append(b, p.Bytes()...)
}

func (x *f02State) write(wi, seq int, f func() error) error {
	x.mu.Lock()
	x.clock++
	w := &f02Write{w: wi, seq: seq, start: x.clock}
	x.writes[[2]int{wi, seq}] = w
	x.mu.Unlock()
	err := f()
	x.mu.Lock()
	x.clock++
	w.end, w.err, w.done = x.clock, err, true
	x.mu.Unlock()
	return err
}

type requester interface {
	Request(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, qrpc.Response, error)
	StreamRequest(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error)
}

// run is the body of a writer other than wkResp
func (x *f02State) run(wi int, q requester, push func() qrpc.FrameWriter) {
	w := x.s.Writers[wi]
	cmd := qrpc.Cmd(0x1000 + wi)
	var sw qrpc.StreamWriter
	var fw qrpc.FrameWriter
	for seq, f := range w.Frames {
		if f.Gap > 0 {
			time.Sleep(us(f.Gap))
		}
		b := f02Payload(wi, seq, f.P)
		last := seq == len(w.Frames)-1
		kind := w.Kind % nWk
		if kind == wkMixed {
			kind = seq % 2
		}
		err := x.write(wi, seq, func() (err error) {
			switch kind {
			case wkReq:
				_, _, err = q.Request(cmd, qrpc.NBFlag, b)
			case wkPush:
				if push == nil {
					_, _, err = q.Request(cmd, qrpc.PushFlag, b)
					return
				}
				if fw == nil {
					fw = push()
				}
				fw.StartWrite(uint64(1000000+wi*1000+seq), cmd, qrpc.PushFlag)
				writeSplit(fw, b, f.Split)
				err = fw.EndWrite()
			default:
				if seq == 0 {
					fl := qrpc.FrameFlag(0)
					if last {
						fl = qrpc.StreamEndFlag
					}
					sw, _, err = q.StreamRequest(cmd, fl, b)
					return
				}
				sw.StartWrite(cmd)
				for i := 0; i < len(b); i += len(b)/(f.Split+1) + 1 {
					sw.WriteBytes(b[i:min(len(b), i+len(b)/(f.Split+1)+1)])
				}
				err = sw.EndWrite(last)
			}
			return
		})
		for i := range b {
			b[i] = 0xaa
		}
		if err != nil {
			return
		}
	}
}

// respond is the body of a wkResp writer, called in a handler
func (x *f02State) respond(wi int, out qrpc.FrameWriter, id uint64) {
	w := x.s.Writers[wi]
	for seq, f := range w.Frames {
		if f.Gap > 0 {
			time.Sleep(us(f.Gap))
		}
		fl := qrpc.StreamFlag
		if seq == len(w.Frames)-1 {
			fl |= qrpc.StreamEndFlag
		}
		err := x.write(wi, seq, func() error {
			out.StartWrite(id, qrpc.Cmd(0x1000+wi), fl)
			writeSplit(out, f02Payload(wi, seq, f.P), f.Split)
			return out.EndWrite()
		})
		if err != nil {
			return
		}
	}
}

func runF02(c *pbt.C, sc any) {
	s := sc.(*f02)
	x := &f02State{c: c, s: s, writes: map[[2]int]*f02Write{}}
	w := newWorld(c)
	opts := s.L.opts()
	for _, st := range s.Stall {
		opts.WStall = append(opts.WStall, time.Duration(clamp(st, 0, 10000000))*time.Microsecond)
	}
	opts.CutAt = int64(clamp(s.Cut, 0, 1<<30))
	tp := &tap{c: c}
	opts.Tap = tp.feed
	handler := qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if int(f.Cmd) < len(s.Writers) {
			x.respond(int(f.Cmd), wr, f.RequestID)
		}
	})
	var (
		p    *Peer
		q    requester
		push func() qrpc.FrameWriter
	)
	if s.Client {
		l, err := w.net.Listen("raw")
		if err != nil {
			c.Fatalf("listen: %v", err)
		}
		conn, _, far := w.dial("raw", qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 4096), Handler: handler}, nil, NetOpt{C2S: opts})
		l.Accept()
		c.Cleanup(func() { l.Close() })
		p = w.peer(far)
		q = conn
	} else {
		srv := w.serve(qrpc.ServerBinding{Handler: handler, WriteFrameChSize: s.WCh})
		cc, _, err := w.net.Dial(srv.addrs[0], NetOpt{S2C: opts}.C2S, opts)
		if err != nil {
			c.Fatalf("dial: %v", err)
		}
		p = w.peer(cc)
		c.Quiesce()
		srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			q = ci
			push = ci.GetWriter
			return true
		})
		if q == nil {
			c.Fatalf("connection unknown to the server")
		}
	}
	var ends []<-chan struct{}
	ends = append(ends, c.Go(func() {
		time.Sleep(us(s.Pause))
		p.read()
	}))
	for wi := range s.Writers {
		wi := wi
		if s.Writers[wi].Kind%nWk == wkResp {
			p.Send(wire.Frame{ID: uint64(2*wi + 1001 - b2i(s.Client)), Flags: wire.NB, Cmd: uint32(wi)})
			continue
		}
		ends = append(ends, c.Go(func() { x.run(wi, q, push) }))
	}
	for _, e := range ends {
		if !c.WaitDone(e, 10000*time.Hour) {
			c.Fatalf("a writer never returned")
		}
	}
	if s.Cut == 0 {
		// responses too
		done := func() bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			for wi, wr := range s.Writers {
				for seq := range wr.Frames {
					if w := x.writes[[2]int{wi, seq}]; w == nil || !w.done {
						return false
					}
				}
			}
			return true
		}
		for i := 0; !done(); i++ {
			if i > 30 {
				c.Fatalf("a response writer never returned")
			}
			c.Sleep(time.Hour * time.Duration(1<<i/1000+1))
		}
	}
	c.Sleep(time.Hour)
	x.mu.Lock()
	defer x.mu.Unlock()
	evs, err := tp.frames()
	if err != nil {
		c.Fatalf("malformed bytes on the wire: %v", err)
	}
	seen := map[[2]int]int{}
	lastSeq := map[int]int{}
	var order []*f02Write
	for i, e := range evs {
		if e.Flags&wire.Rst != 0 && s.Cut > 0 {
			continue
		}
		if len(e.Payload) < 8 {
			c.Fatalf("frame %d is none of those written: %v", i, e.Frame)
		}
		wi, seq := int(binary.BigEndian.Uint32(e.Payload)), int(binary.BigEndian.Uint32(e.Payload[4:]))
		k := [2]int{wi, seq}
		wr := x.writes[k]
		if wr == nil {
			c.Fatalf("frame %d is none of those written: %v", i, e.Frame)
		}
		if want := f02Payload(wi, seq, s.Writers[wi].Frames[seq].P); string(want) != string(e.Payload) || e.Cmd != uint32(0x1000+wi) {
			c.Fatalf("frame %d of writer %d arrived altered: %v", seq, wi, e.Frame)
		}
		if j, dup := seen[k]; dup {
			c.Fatalf("frame %d of writer %d arrived twice (positions %d and %d)", seq, wi, j, i)
		}
		seen[k] = i
		if l, ok := lastSeq[wi]; ok && l > seq {
			c.Fatalf("writer %d: frame %d arrived after frame %d", wi, seq, l)
		}
		lastSeq[wi] = seq
		order = append(order, wr)
	}
	for k, wr := range x.writes {
		_, ok := seen[k]
		if wr.done && wr.err == nil && !ok {
			c.Fatalf("frame %d of writer %d was reported written but did not get onto the wire", k[1], k[0])
		}
		if wr.done && wr.err != nil && s.Cut == 0 {
			c.Fatalf("frame %d of writer %d failed on a working connection: %v", k[1], k[0], wr.err)
		}
	}
	// a write that returned before another one started comes first
	minEnd, minW := 1<<60, (*f02Write)(nil)
	for i := len(order) - 1; i >= 0; i-- {
		if o := order[i]; minW != nil && minEnd < o.start {
			c.Fatalf("writer %d frame %d was written after writer %d frame %d had been reported written, but precedes it on the wire", o.w, o.seq, minW.w, minW.seq)
		}
		if o := order[i]; o.done && o.err == nil && o.end < minEnd {
			minEnd, minW = o.end, o
		}
	}
	if s.Cut == 0 {
		got := p.Frames()
		if p.Bad() != nil || len(got) != len(evs) {
			c.Fatalf("the peer got %d of %d frames (%v)", len(got), len(evs), p.Bad())
		}
	} else {
		c.Label("cut")
	}
	if len(s.Writers) >= 2 && len(order) >= 4 {
		c.NonTrivial()
	}
	c.Label("client=%v", s.Client)
	if s.Pause >= 3000000 || len(s.Stall) > 0 {
		c.Label("stalled writes")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "F02",
		Title: "concurrent writers",
		Rule:  "generated: 1-10 concurrent writers (requests, pushes, streamed requests, streamed responses) on one connection of a real client or server towards a reference peer, over links with tiny buffers, partial writes, pauses longer than the write slice, late readers and breaks at any byte; oracle: the bytes accepted by the network, decoded by the reference codec, against the log of writes. Non-trivial: at least two writers and four frames on the wire",
		Gen:   genF02, New: func() any { return &f02{} }, Run: runF02,
		Quick:    pbt.Budget{Cases: 20000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 800},
	})
}
