package props

import (
	"time"

	"verif/pbt"
	"verif/wire"
)

func runR01(c *pbt.C, sc any) {
	s := sc.(*Session)
	w := newWorld(c)
	x := runSession(c, w, s)
	x.check()
	x.checkWire()
	n, back := 0, 0
	for _, d := range s.Conns {
		n += len(d.Calls)
		back += len(d.Back)
	}
	if n > 2 {
		c.NonTrivial()
	}
	if back > 0 {
		c.Label("both directions")
	}
	if len(s.Conns) > 1 {
		c.Label("several connections")
	}
	if n+back > 100 {
		c.Label(">100 calls")
	}
	// responses out of request order
	for i := range s.Conns {
		var last time.Duration
		for j := range s.Conns[i].Calls {
			g := x.gotten[key{i, false, j}]
			if g != nil && g.got < last {
				c.Label("answered out of order")
				break
			}
			if g != nil {
				last = g.got
			}
		}
	}
}

func newSession() any { return &Session{} }

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "R01",
		Title: "correlation",
		Rule:  "generated: programs of concurrent calls in both directions between 1-4 real clients and a real server, with handler plans (answers, streams, delays, payloads at buffer boundaries) over fragmenting, delaying links and all queue sizes; oracle: the program itself, compared with every handler invocation, every response and every frame on the wire. Non-trivial: more than two calls",
		Gen: func(r *pbt.R) any {
			o := sesOpt{conns: 4, maxCalls: 14, back: true, modes: []int{8, 2, 0, 0, 0, 0}, streams: 10, nb: 60, reads: []int{1, 1, 1}, maxPay: 70000, maxChunks: 4, lanes: 5}
			if r.P(1, 40) {
				o.conns, o.maxCalls, o.maxPay, o.lanes = 2, 1200, 100, 40
			}
			return genSession(r, o)
		},
		New: newSession, Run: runR01,
		Quick:    pbt.Budget{Cases: 9000, MaxSec: 40},
		Thorough: pbt.Budget{Cases: 200000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "R02",
		Title: "blocking order",
		Rule:  "generated: pipelined mixes of blocking, non-blocking and streamed requests with handler delays and outcomes (answer, ignore, panic); oracle: the order of request frames on the wire against the order and overlap of handler invocations. Non-trivial: a blocking request followed by another frame which was on the wire before its handler ended",
		Gen: func(r *pbt.R) any {
			o := sesOpt{conns: 3, maxCalls: 12, back: r.P(1, 4), modes: []int{6, 1, 2, 2, 1, 1}, streams: 15, nb: 35, reads: []int{1, 1, 1}, maxPay: 3000, maxChunks: 3, lanes: pbt.Pick(r, 1, 1, 4),
				delay: func(r *pbt.R) int { return pbt.Pick(r, 0, 0, r.Intn(2000), 1000000*r.Range(1, 20)) }}
			s := genSession(r, o)
			for i := range s.Conns {
				for j := range s.Conns[i].Calls {
					if s.Conns[i].Calls[j].Wait && r.P(3, 4) {
						s.Conns[i].Calls[j].Wait = false
					}
				}
			}
			return s
		},
		New: newSession, Run: runR02,
		Quick:    pbt.Budget{Cases: 20000, MaxSec: 40},
		Thorough: pbt.Budget{Cases: 200000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "R03",
		Title: "parallelism",
		Rule:  "generated: many non-blocking and streamed requests in both directions whose handlers take from nothing to hours of virtual time; oracle: each response arrives at its issue time plus its own handler's durations, on the virtual clock. Non-trivial: at least two requests of a connection overlap",
		Gen: func(r *pbt.R) any {
			o := sesOpt{conns: 3, maxCalls: 20, back: true, modes: []int{6, 2, 1, 1, 1, 1}, streams: 25, nb: 100, reads: []int{1, 1, 0}, maxPay: 3000, maxChunks: 3, lanes: 6, plainLink: true,
				delay: func(r *pbt.R) int {
					return pbt.Pick(r, 0, 0, r.Intn(2000), 1000000*r.Range(1, 20), 1000000*r.Range(1, 3000))
				}}
			if r.P(1, 30) {
				o.maxCalls, o.maxPay, o.lanes, o.conns = 600, 100, 50, 1
			}
			return genSession(r, o)
		},
		New: newSession, Run: runR03,
		Quick:    pbt.Budget{Cases: 12000, MaxSec: 40},
		Thorough: pbt.Budget{Cases: 200000, MaxSec: 900},
	})
	pbt.Register(&pbt.Prop{
		ID:    "R04",
		Title: "failed handlers",
		Rule:  "generated: calls in both directions whose handlers answer, ignore, panic (string, error, struct) before or in the middle of a streamed answer, or stop in the middle; oracle: unanswered requests end with the stream-closed error, cut answers end after exactly their frames, everything else is answered correctly. Non-trivial: at least one failing and one answering handler on one connection",
		Gen: func(r *pbt.R) any {
			o := sesOpt{conns: 3, maxCalls: 12, back: true, modes: []int{4, 1, 3, 3, 2, 2}, streams: 30, nb: 50, reads: []int{1, 1, 1}, maxPay: 5000, maxChunks: 4, lanes: 4}
			if r.P(1, 40) {
				o.conns, o.maxCalls, o.maxPay, o.lanes = 1, 1000, 60, 20
			}
			return genSession(r, o)
		},
		New: newSession, Run: runR04,
		Quick:    pbt.Budget{Cases: 12000, MaxSec: 40},
		Thorough: pbt.Budget{Cases: 200000, MaxSec: 900},
	})
}

func runR02(c *pbt.C, sc any) {
	s := sc.(*Session)
	w := newWorld(c)
	x := runSession(c, w, s)
	x.check()
	for _, cn := range x.conns {
		up, _ := cn.up.frames()
		byID := map[uint64]key{}
		for j := range s.Conns[cn.i].Calls {
			k := key{cn.i, false, j}
			byID[x.gotten[k].id] = k
		}
		// order of first frames on the wire
		var order []key
		at := map[key]time.Duration{}
		seen := map[key]bool{}
		for _, e := range up {
			k, ok := byID[e.ID]
			if !ok || seen[k] {
				continue
			}
			seen[k] = true
			order = append(order, k)
			at[k] = e.At
		}
		var barrier *handled
		var bk key
		for _, k := range order {
			h := x.handled[k][0]
			if barrier != nil {
				if h.seq < barrier.eseq {
					c.Fatalf("%v was started before the handler of the earlier blocking %v had returned (started %v, that one ran %v-%v)", k, bk, h.start, barrier.start, barrier.end)
				}
				if at[k] < barrier.end {
					c.NonTrivial()
				}
			}
			if cl := x.call(k); !cl.NB && !cl.Stream {
				barrier, bk = h, k
			}
		}
	}
	if len(s.Conns) > 1 {
		c.Label("several connections")
		// a blocking handler holds up its own connection only: with plain
		// links every first request starts at once
		for _, cn := range x.conns {
			d := s.Conns[cn.i]
			if !d.C2S.trivial() || len(d.Calls) == 0 {
				continue
			}
			up, _ := cn.up.frames()
			if len(up) == 0 {
				continue
			}
			for j := range d.Calls {
				k := key{cn.i, false, j}
				if x.gotten[k].id == up[0].ID {
					if lag := x.handled[k][0].start - up[0].At; lag > 500*time.Millisecond {
						c.Fatalf("%v, the first on its connection, was held up for %v", k, lag)
					}
				}
			}
		}
	}
}

func runR03(c *pbt.C, sc any) {
	s := sc.(*Session)
	for i := range s.Conns {
		s.Conns[i].C2S, s.Conns[i].S2C = Link{Buf: 8 << 20}, Link{Buf: 8 << 20}
		for j := range s.Conns[i].Calls {
			s.Conns[i].Calls[j].NB = true
		}
	}
	for _, k := range (&session{s: s}).keys() {
		cl := (&session{s: s}).call(k)
		// a handler that does not read its stream holds the connection by
		// design; that is not what this is about
		if r := cl.H.Read % nReads; r == rdLast || r == rdSome {
			cl.H.Read = rdFirst
		}
		cl.H.Delay = clamp(cl.H.Delay, 0, 3500000000)
		cl.Slow, cl.H.Slow = 0, 0
	}
	w := newWorld(c)
	x := runSession(c, w, s)
	x.check()
	const slack = 500 * time.Millisecond
	for _, k := range x.keys() {
		cl, g := x.call(k), x.gotten[k]
		var want time.Duration
		if cl.Stream && cl.H.Read%nReads == rdFirst {
			for _, ch := range cl.Chunks {
				want += us(ch.Gap)
			}
		}
		want += us(cl.H.Delay)
		if m := cl.H.Mode % nModes; m == mIgnore || m == mPanic {
			// ends with the handler, which may be reading its stream
			var gaps time.Duration
			for _, ch := range cl.Chunks {
				gaps += us(ch.Gap)
			}
			want += gaps
		}
		if late := g.got - g.issued - want; late > slack {
			c.Fatalf("%v was answered %v after it was issued although its own handler takes %v", k, g.got-g.issued, want)
		}
		if lag := x.handled[k][0].start - g.issued; lag > slack {
			c.Fatalf("%v was started %v after it was issued", k, lag)
		}
	}
	for i := range s.Conns {
		over := false
		for j := range s.Conns[i].Calls {
			for l := 0; l < j; l++ {
				a, b := x.handled[key{i, false, j}][0], x.handled[key{i, false, l}][0]
				if a.start < b.end && b.start < a.end {
					over = true
				}
			}
			if j > 60 {
				break
			}
		}
		if over {
			c.NonTrivial()
			c.Label("overlap")
		}
	}
}

func runR04(c *pbt.C, sc any) {
	s := sc.(*Session)
	w := newWorld(c)
	for i := range s.Conns {
		good, bad := false, false
		for _, l := range [][]Call{s.Conns[i].Calls, s.Conns[i].Back} {
			for _, cl := range l {
				switch m := cl.H.Mode % nModes; m {
				case mAnswer, mStream:
					good = true
				default:
					bad = true
					c.Label("mode %d nb=%v stream=%v", m, cl.NB, cl.Stream)
				}
			}
		}
		if good && bad {
			c.NonTrivial()
		}
	}
	x := runSession(c, w, s)
	x.check()
	x.checkWire()
	_ = wire.Rst
}
