package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// ---- C01: channels. Both ends of every channel are real; each side runs a
// program of sends and drains what it receives.

const (
	chSend    = iota // a message
	chSendEnd        // the last message
	chEnd            // End
	chBad            // a message which cannot be encoded
	nChOps
)

type c01Op struct {
	Kind int
	Gap  int // µs before it
	P    Pay
	Cmd  uint32
}

type c01Side struct {
	Raw   bool // message type with Marshal and Unmarshal, else JSON
	Ops   []c01Op
	Slow  int   // µs before each Receive
	NoCmd int   // every n-th Receive is not interested in the command
	Ctx   []int // µs the context of each Receive lives, 0: long
	Junk  int   // every n-th Receive decodes into a type that does not fit
	Leave int   // the handler returns after so many messages, 0: reads all
}

type c01Chan struct {
	Conn   int
	Back   bool // initiated by the server
	Parent int  // > 0: initiated by the handler of channel Parent-1, Conn and Back follow
	Start  int  // µs
	Early  bool // Receive before the first Send
	A, B   c01Side
}

type c01 struct {
	WCh   int
	Links [][2]Link
	Chans []c01Chan
}

func genC01(r *pbt.R) any {
	s := &c01{WCh: pbt.Pick(r, 0, 1, 8)}
	for i := r.Range(1, 2); i > 0; i-- {
		l := [2]Link{genLink(r, 3000), genLink(r, 3000)}
		s.Links = append(s.Links, l)
	}
	mp := pbt.Pick(r, 10, 100, 1000)
	side := func(b bool) (d c01Side) {
		d.Raw = r.P(1, 2)
		d.NoCmd = pbt.Pick(r, 0, 0, 1, 2, 3)
		d.Junk = pbt.Pick(r, 0, 0, 0, 2, 3)
		if r.P(1, 4) {
			d.Slow = r.Range(1, 3000)
		}
		if r.P(1, 3) {
			for i := r.N(1, 4); i > 0; i-- {
				d.Ctx = append(d.Ctx, pbt.Pick(r, 0, r.Range(1, 100), r.Range(1, 5000)))
			}
		}
		if b && r.P(1, 6) {
			d.Leave = r.Range(1, 4)
		}
		n := r.Len(8)
		for i := 0; i < n; i++ {
			op := c01Op{P: genPay(r, mp), Cmd: uint32(r.U64() & 0xffffff >> uint(r.Intn(23)))}
			if r.P(1, 2) {
				op.Gap = r.Range(0, 2000)
			}
			if r.P(1, 12) {
				op.Kind = chBad
			}
			d.Ops = append(d.Ops, op)
		}
		switch r.W(2, 2, 1) {
		case 0:
			d.Ops = append(d.Ops, c01Op{Kind: chSendEnd, P: genPay(r, mp), Cmd: uint32(r.Intn(100)), Gap: r.Intn(3) * 500})
		case 1:
			d.Ops = append(d.Ops, c01Op{Kind: chEnd, Gap: r.Intn(3) * 500})
		}
		if r.P(1, 5) {
			for i := r.N(1, 3); i > 0; i-- {
				d.Ops = append(d.Ops, c01Op{Kind: r.Intn(3), P: genPay(r, 10), Gap: r.Intn(3) * 500})
			}
		}
		return
	}
	for i := r.N(1, 7); i > 0; i-- {
		ch := c01Chan{Conn: r.Intn(2), Back: r.P(1, 3), Start: r.Intn(4) * 1000, Early: r.P(1, 6), A: side(false), B: side(true)}
		if n := len(s.Chans); n > 0 && r.P(1, 4) {
			ch.Parent = 1 + r.Intn(n)
		}
		s.Chans = append(s.Chans, ch)
	}
	return s
}

// messages
type c01JSON struct {
	Chan int
	Side string
	N    int
	Body []byte
	Text string
}

type c01Raw struct {
	b []byte
}

func (m *c01Raw) Marshal() ([]byte, error) { return append([]byte{'R'}, m.b...), nil }
func (m *c01Raw) Unmarshal(b []byte) error {
	if len(b) == 0 || b[0] != 'R' {
		return errors.New("not a raw message")
	}
	m.b = append([]byte(nil), b[1:]...)
	return nil
}

// c01Junk accepts nothing
type c01Junk struct{ b []byte }

var errJunk = errors.New("does not fit")

func (m *c01Junk) Unmarshal(b []byte) error {
	m.b = append([]byte(nil), b...)
	return errJunk
}

const c01Text = "\u00e9\"\\\u2028<&>\x00"

type c01Sent struct {
	op   int
	cmd  uint32
	body []byte
}

type c01Got struct {
	cmd  int64 // -1: not asked for
	enc  []byte
	junk bool
	at   time.Duration
}

// one side of a running channel
type c01Run struct {
	sent   []c01Sent
	errs   map[int]error
	done   bool
	ended  bool // an end was accepted
	reset  bool // by End
	got    []c01Got
	final  error
	fin    bool
	expire int
	late   string
}

type c01State struct {
	c      *pbt.C
	s      *c01
	mu     sync.Mutex
	runs   [][2]*c01Run // initiator, handler
	starts []int
	rets   []bool
	master context.Context
	active sync.WaitGroup
	conns  []*qrpc.Connection
	cis    []*qrpc.ConnectionInfo
}

func (x *c01State) msg(ci int, side string, i int, d *c01Side) any {
	op := d.Ops[i]
	if op.Kind == chBad {
		return map[string]any{"a": make(chan int)}
	}
	b := op.P.Bytes()
	if d.Raw {
		return &c01Raw{append([]byte(fmt.Sprintf("%d %s %d ", ci, side, i)), b...)}
	}
	return &c01JSON{Chan: ci, Side: side, N: i, Body: b, Text: c01Text}
}

// send runs the program of a side; first is called after the first message went out
func (x *c01State) send(ci int, side string, d *c01Side, rec *c01Run, s channel.Sender, first func()) {
	for i, op := range d.Ops {
		if op.Gap > 0 {
			time.Sleep(us(op.Gap))
		}
		var err error
		cmd := op.Cmd
		x.mu.Lock()
		if len(rec.sent) == 0 && side == "A" {
			cmd = uint32(100 + ci)
		}
		x.mu.Unlock()
		switch op.Kind {
		case chEnd:
			err = s.End()
		default:
			err = s.Send(context.Background(), qrpc.Cmd(cmd), x.msg(ci, side, i, d), op.Kind == chSendEnd)
		}
		x.mu.Lock()
		rec.errs[i] = err
		if err == nil {
			switch op.Kind {
			case chEnd:
				rec.ended, rec.reset = true, true
			case chBad:
				x.c.Failf("channel %d, side %s: a message that cannot be encoded was sent", ci, side)
			default:
				rec.sent = append(rec.sent, c01Sent{i, cmd, op.P.Bytes()})
				if op.Kind == chSendEnd {
					rec.ended = true
				}
			}
		}
		n := len(rec.sent)
		x.mu.Unlock()
		if n > 0 && first != nil {
			first()
			first = nil
		}
	}
	x.mu.Lock()
	rec.done = true
	x.mu.Unlock()
	if first != nil {
		x.mu.Lock()
		rec.final, rec.fin = errHung, true // nothing to receive
		x.mu.Unlock()
	}
}

// receive drains a side; raw tells how the other side encodes
func (x *c01State) receive(d *c01Side, raw bool, rec *c01Run, r channel.Receiver) {
	left := 0
	for {
		if d.Slow > 0 {
			time.Sleep(us(d.Slow))
		}
		n := len(rec.got)
		if d.Leave > 0 && n >= d.Leave {
			x.mu.Lock()
			rec.fin = true
			x.mu.Unlock()
			return
		}
		ctx, cancel, life := x.master, context.CancelFunc(func() {}), 0
		if len(d.Ctx) > 0 && left < 50 {
			life = d.Ctx[left%len(d.Ctx)]
			left++
		}
		begin := x.c.Now()
		if life > 0 {
			ctx, cancel = context.WithTimeout(ctx, us(life))
		}
		var (
			cmd  qrpc.Cmd
			pcmd *qrpc.Cmd
			g    = c01Got{cmd: -1}
			to   any
			jraw json.RawMessage
			mraw c01Raw
			junk c01Junk
		)
		if d.NoCmd == 0 || (n+1)%d.NoCmd != 0 {
			pcmd = &cmd
		}
		switch {
		case d.Junk > 0 && (n+1)%d.Junk == 0:
			to, g.junk = &junk, true
		case raw:
			to = &mraw
		default:
			to = &jraw
		}
		err := r.Receive(ctx, pcmd, to)
		cancel()
		g.at = x.c.Now()
		switch {
		case err == nil, g.junk && err == errJunk:
			if err == nil && g.junk {
				x.c.Failf("the error of Unmarshal was not returned")
			}
			if pcmd != nil {
				g.cmd = int64(cmd)
			}
			switch {
			case g.junk:
				g.enc = junk.b
			case raw:
				g.enc = append([]byte{'R'}, mraw.b...)
			default:
				g.enc = jraw
			}
			x.mu.Lock()
			rec.got = append(rec.got, g)
			x.mu.Unlock()
		case err == context.DeadlineExceeded && life > 0:
			x.mu.Lock()
			rec.expire++
			if g.at != begin+us(life) {
				rec.late = fmt.Sprintf("a Receive begun at %v with a context of %v returned its error at %v", begin, us(life), g.at)
			}
			x.mu.Unlock()
		default:
			x.mu.Lock()
			rec.final, rec.fin = err, true
			x.mu.Unlock()
			return
		}
	}
}

func (x *c01State) initiate(ci int, t channel.Transport) {
	ch := &x.s.Chans[ci]
	rec := x.runs[ci][0]
	s, r, err := t.Pipe()
	if err != nil {
		x.c.Failf("channel %d: Pipe: %v", ci, err)
		return
	}
	if ch.Early {
		if err := r.Receive(context.Background(), nil, new(c01Raw)); err != channel.ErrNoResp {
			x.c.Failf("channel %d: Receive before the first Send: %v", ci, err)
		}
	}
	var wg sync.WaitGroup
	x.send(ci, "A", &ch.A, rec, s, func() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.receive(&ch.A, ch.B.Raw, rec, r)
		}()
	})
	wg.Wait()
}

func (x *c01State) handler(ci int, conn int, back bool) channel.HandlerFunc {
	return func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		ch := &x.s.Chans[ci]
		rec := x.runs[ci][1]
		x.mu.Lock()
		x.starts[ci]++
		n := x.starts[ci]
		x.mu.Unlock()
		if n > 1 || ch.Conn != conn || ch.Back != back {
			x.c.Failf("channel %d: handler ran %d times, now on connection %d (back %v)", ci, n, conn, back)
			return
		}
		for k := range x.s.Chans {
			if x.s.Chans[k].Parent == ci+1 {
				x.active.Add(1)
				x.c.Go(func() { x.start(k, t) })
			}
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.send(ci, "B", &ch.B, rec, s, nil)
		}()
		x.receive(&ch.B, ch.A.Raw, rec, r)
		wg.Wait()
		x.mu.Lock()
		x.rets[ci] = true
		x.mu.Unlock()
	}
}

func (x *c01State) start(ci int, t channel.Transport) {
	defer x.active.Done()
	time.Sleep(us(x.s.Chans[ci].Start))
	x.initiate(ci, t)
}

func runC01(c *pbt.C, sc any) {
	s := sc.(*c01)
	if len(s.Links) == 0 || len(s.Chans) == 0 {
		return
	}
	if len(s.Links) > 4 {
		s.Links = s.Links[:4]
	}
	if len(s.Chans) > 50 {
		s.Chans = s.Chans[:50]
	}
	w := newWorld(c)
	x := &c01State{c: c, s: s, starts: make([]int, len(s.Chans)), rets: make([]bool, len(s.Chans))}
	var cancel context.CancelFunc
	x.master, cancel = context.WithCancel(context.Background())
	defer cancel()
	leaves := false
	for ci := range s.Chans {
		ch := &s.Chans[ci]
		ch.Conn = clamp(ch.Conn, 0, 3) % len(s.Links)
		if ch.Parent > ci || ch.Parent < 0 {
			ch.Parent = 0
		}
		if ch.Parent > 0 {
			p := &s.Chans[ch.Parent-1]
			ch.Conn, ch.Back = p.Conn, !p.Back
		}
		for _, d := range []*c01Side{&ch.A, &ch.B} {
			for i := range d.Ops {
				d.Ops[i].Kind = clamp(d.Ops[i].Kind, 0, nChOps-1)
				d.Ops[i].Gap = clamp(d.Ops[i].Gap, 0, 1e6)
				d.Ops[i].Cmd &= 0xffffff
				d.Ops[i].P.N = clamp(d.Ops[i].P.N, 0, 20000)
			}
			d.Slow = clamp(d.Slow, 0, 1e6)
			for i := range d.Ctx {
				d.Ctx[i] = clamp(d.Ctx[i], 0, 1e6)
			}
		}
		ch.A.Leave = 0
		leaves = leaves || ch.B.Leave > 0
		x.runs = append(x.runs, [2]*c01Run{{errs: map[int]error{}}, {errs: map[int]error{}}})
	}
	connOf := map[string]int{}
	dispatch := func(conn int, back bool) *qrpc.ServeMux {
		m := qrpc.NewServeMux()
		for ci := range s.Chans {
			m.Handle(qrpc.Cmd(100+ci), channel.NewQRPCHandler(x.handler(ci, conn, back)))
		}
		return m
	}
	muxes := make([]*qrpc.ServeMux, len(s.Links))
	for i := range muxes {
		muxes[i] = dispatch(i, false)
	}
	srv := w.serve(qrpc.ServerBinding{WriteFrameChSize: clamp(s.WCh, 0, 1000), Handler: qrpc.HandlerFunc(func(wr qrpc.FrameWriter, f *qrpc.RequestFrame) {
		x.mu.Lock()
		i, ok := connOf[f.ConnectionInfo().RemoteAddr()]
		x.mu.Unlock()
		if !ok {
			c.Failf("a request from an unknown connection")
			return
		}
		muxes[i].ServeQRPC(wr, f)
	})})
	seen := map[*qrpc.ConnectionInfo]bool{}
	for i, l := range s.Links {
		o := NetOpt{C2S: l[0].opts(), S2C: l[1].opts()}
		if leaves {
			// a handler which no longer reads may hold up the other end's frames
			// while it waits for a write itself
			o.C2S.Buf, o.S2C.Buf = 64<<20, 64<<20
		}
		conn, _, _ := w.dial(srv.addrs[0], qrpc.ConnectionConfig{WriteFrameChSize: clamp(s.WCh, 0, 1000), Handler: dispatch(i, true)}, nil, o)
		x.conns = append(x.conns, conn)
		c.Quiesce()
		srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			if !seen[ci] {
				seen[ci] = true
				x.cis = append(x.cis, ci)
				x.mu.Lock()
				connOf[ci.RemoteAddr()] = i
				x.mu.Unlock()
			}
			return true
		})
		if len(x.cis) != i+1 {
			c.Fatalf("connection %d is unknown to the server", i)
		}
	}
	for ci := range s.Chans {
		ch := &s.Chans[ci]
		if ch.Parent > 0 {
			continue
		}
		var in qrpc.StreamInitiator = x.conns[ch.Conn]
		if ch.Back {
			in = x.cis[ch.Conn]
		}
		x.active.Add(1)
		c.Go(func() { x.start(ci, channel.NewTransport(in)) })
	}
	// nothing happens anymore after this
	time.Sleep(pbt.Long)
	c.Quiesce()
	cancel()
	c.Quiesce()
	if !c.Do(pbt.Long, x.active.Wait) {
		c.Fatalf("a channel never finished")
	}
	c.Quiesce()
	for i, conn := range x.conns {
		if conn.IsClosed() {
			c.Fatalf("connection %d was closed", i)
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	msgs := 0
	for ci := range s.Chans {
		x.judge(ci)
		msgs += len(x.runs[ci][0].got) + len(x.runs[ci][1].got)
	}
	if msgs >= 2 {
		c.NonTrivial()
	}
	// a transport of a closed connection
	conn := x.conns[0]
	x.mu.Unlock()
	c.MustDo("Close", func() { conn.Close() })
	c.Sleep(time.Second)
	if _, _, err := channel.NewTransport(conn).Pipe(); err != channel.ErrClientAlreadyClosed {
		c.Failf("Pipe of a closed connection: %v", err)
	}
	x.mu.Lock()
}

func (x *c01State) judge(ci int) {
	c, ch := x.c, &x.s.Chans[ci]
	a, b := x.runs[ci][0], x.runs[ci][1]
	name := fmt.Sprintf("channel %d", ci)
	began := len(a.sent) > 0
	if ch.Parent > 0 && x.starts[ch.Parent-1] == 0 {
		if x.starts[ci] > 0 {
			c.Fatalf("%s: ran without its parent", name)
		}
		return
	}
	if began != (x.starts[ci] == 1) {
		c.Fatalf("%s: %d messages were sent, the handler ran %d times", name, len(a.sent), x.starts[ci])
	}
	if !a.done || began && (!b.done || !b.fin || !a.fin || !x.rets[ci]) {
		c.Fatalf("%s: not finished: sending %v %v, receiving %v %v, returned %v", name, a.done, b.done, a.fin, b.fin, x.rets[ci])
	}
	for _, r := range []*c01Run{a, b} {
		if r.late != "" {
			c.Fatalf("%s: %s", name, r.late)
		}
	}
	x.ops(name+", initiator", &ch.A, a, true, b.reset || ch.B.Leave > 0)
	if !began {
		return
	}
	x.ops(name+", handler", &ch.B, b, false, false)
	// what arrived
	x.arrived(name+", to the handler", &ch.A, a, &ch.B, b, ch.B.Leave, "A", ci)
	x.arrived(name+", to the initiator", &ch.B, b, &ch.A, a, 0, "B", ci)
	if ch.B.Leave == 0 || len(b.got) < ch.B.Leave {
		switch {
		case a.ended && b.final != channel.ErrStreamFinished:
			c.Fatalf("%s: the initiator ended its side, the handler's Receive returned %v", name, b.final)
		case !a.ended && b.final != context.Canceled:
			c.Fatalf("%s: the initiator did not end its side, the handler's Receive returned %v", name, b.final)
		}
	}
	// the handler has returned in the end, but not before the master context ended unless it left early or was ended
	switch {
	case len(b.sent) == 0 && b.ended:
		if a.final != qrpc.ErrStreamClosed && a.final != channel.ErrStreamFinished {
			c.Fatalf("%s: the handler ended its side without a message, the initiator's Receive returned %v", name, a.final)
		}
	case b.ended:
		if a.final != channel.ErrStreamFinished {
			c.Fatalf("%s: the handler ended its side, the initiator's Receive returned %v", name, a.final)
		}
	case a.final == context.Canceled, a.final == channel.ErrStreamFinished, a.final == qrpc.ErrStreamClosed && len(b.sent) == 0:
	default:
		c.Fatalf("%s: the initiator's Receive returned %v", name, a.final)
	}
	if a.reset || b.reset {
		c.Label("ended by End")
	}
	if a.ended && len(b.sent) > 0 {
		c.Label("one side ended first")
	}
	if ch.Parent > 0 {
		c.Label("initiated by a handler")
	}
	if ch.Back {
		c.Label("initiated by the server")
	}
	if a.expire+b.expire > 0 {
		c.Label("expired Receive")
	}
	if ch.B.Leave > 0 && len(b.got) == ch.B.Leave {
		c.Label("handler left early")
	}
}

// ops checks the results of the sending program
func (x *c01State) ops(name string, d *c01Side, rec *c01Run, initiator, cut bool) {
	ended, closed := false, false
	for i, op := range d.Ops {
		err := rec.errs[i]
		switch {
		case op.Kind == chBad:
			if err == nil {
				x.c.Fatalf("%s: operation %d succeeded", name, i)
			}
		case op.Kind == chEnd:
			switch {
			case closed && initiator && err != channel.ErrSenderCloseTwice:
				x.c.Fatalf("%s: operation %d, a second End, returned %v", name, i, err)
			case !ended && !closed && !cut && err != nil:
				x.c.Fatalf("%s: operation %d, End, returned %v", name, i, err)
			}
			ended, closed = true, true
		default:
			if ended && err == nil {
				x.c.Fatalf("%s: operation %d sent a message after the end", name, i)
			}
			if closed && initiator && err != channel.ErrSenderClosed {
				x.c.Fatalf("%s: operation %d, Send after End, returned %v", name, i, err)
			}
			if !ended && !cut && err != nil {
				x.c.Fatalf("%s: operation %d, Send, returned %v", name, i, err)
			}
			if op.Kind == chSendEnd && err == nil {
				ended = true
			}
		}
	}
}

func (x *c01State) arrived(name string, fd *c01Side, from *c01Run, td *c01Side, to *c01Run, leave int, side string, ci int) {
	if len(to.got) > len(from.sent) {
		x.c.Fatalf("%s: %d messages arrived, %d were sent", name, len(to.got), len(from.sent))
	}
	if len(to.got) < len(from.sent) && (leave == 0 || len(to.got) < leave) {
		x.c.Fatalf("%s: %d of %d messages arrived", name, len(to.got), len(from.sent))
	}
	for i, g := range to.got {
		m := from.sent[i]
		want, _ := channel.Marshal(x.msg(ci, side, m.op, fd))
		if !fd.Raw {
			// what encoding/json makes of it
			want, _ = json.Marshal(x.msg(ci, side, m.op, fd))
		}
		if !bytes.Equal(g.enc, want) {
			x.c.Fatalf("%s: message %d is %s, sent was %s", name, i, short(g.enc), short(want))
		}
		if g.cmd >= 0 && uint32(g.cmd) != m.cmd {
			x.c.Fatalf("%s: message %d has command %d, sent was %d", name, i, g.cmd, m.cmd)
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C01",
		Title: "channels",
		Rule:  "generated: up to seven channels on one or two connections, initiated by the client, by the server or by the handler of another channel, JSON and self-marshalling messages, programs of Send, last Send, End and unencodable messages on both sides, receivers of various speeds with expiring contexts, uninterested in commands or decoding into a type that does not fit, handlers that leave early; oracle: the received messages and commands are the successfully sent ones in order, the final error tells how the other side ended, errors of a second End and of sending after the end. Non-trivial: at least two messages were received",
		Gen:   genC01, New: func() any { return &c01{} }, Run: runC01,
		Quick:    pbt.Budget{Cases: 30000, MaxSec: 60},
		Thorough: pbt.Budget{Cases: 1000000, MaxSec: 900},
	})
}
