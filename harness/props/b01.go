package props

import (
	"encoding/json"
	"errors"
	"net"

	"verif/pbt"

	"github.com/go-kit/kit/metrics"
	"github.com/zhiqiangxu/qrpc"
)

// ---- B01: the other properties on one of several bindings of a server. The
// other ones have hostile configurations, nobody ever connects to them.

// b01Subs are the properties with real servers, with weights
var b01Subs = []sub{
	{"F01", 2}, {"F02", 1}, {"F03", 1}, {"R01", 3}, {"R02", 1}, {"R03", 1}, {"R04", 2}, {"R05", 2}, {"S01", 3}, {"S02", 2}, {"S03", 2}, {"S04", 2},
	{"P01", 3}, {"L01", 4}, {"L02", 4}, {"L03", 2}, {"L08", 2}, {"I01", 3}, {"Q01", 3}, {"Q02", 3}, {"Q03", 3}, {"Q04", 3}, {"Q05", 2}, {"Q06", 3},
	{"Z01", 3}, {"M01", 1}, {"M02", 3}, {"H01", 2}, {"C01", 1}, {"K01", 2},
}

type b01 struct {
	N    int // bindings before
	Seed int
	ID   string
	Sc   json.RawMessage
}

func genB01(r *pbt.R) any {
	s := &b01{N: r.N(1, 3), Seed: r.Intn(1 << 30)}
	s.ID, s.Sc = genSub(r, b01Subs)
	return s
}

func runB01(c *pbt.C, sc any) {
	s := sc.(*b01)
	c.Label("%s on one of several bindings", s.ID)
	runSub(c, b01Subs, s.ID, s.Sc, env{bind: clamp(s.N, 0, 10), seed: uint64(s.Seed)})
}

// decoyCodec fails the case
type decoyCodec struct{ c *pbt.C }

func (d decoyCodec) Encode([]byte) ([]byte, error) {
	d.c.Failf("the codec of another binding is used")
	return nil, errors.New("another binding")
}
func (d decoyCodec) Decode([]byte) ([]byte, error) { return d.Encode(nil) }

type decoyCounter struct{ c *pbt.C }

func (d decoyCounter) With(...string) metrics.Counter { return d }
func (d decoyCounter) Add(float64)                    { d.c.Failf("a counter of another binding is used") }

type decoyHist struct{ c *pbt.C }

func (d decoyHist) With(...string) metrics.Histogram { return d }
func (d decoyHist) Observe(float64)                  { d.c.Failf("a histogram of another binding is used") }

// decoy is a binding which has nothing to do with the scenario
func (w *World) decoy(addr string, rnd *pbt.R) qrpc.ServerBinding {
	c := w.c
	wrong := func(what string) { c.Failf("%s of another binding is called", what) }
	b := qrpc.ServerBinding{Addr: addr, ListenFunc: w.listenFunc(addr)}
	b.Handler = qrpc.HandlerFunc(func(qrpc.FrameWriter, *qrpc.RequestFrame) { wrong("the handler") })
	if rnd.P(3, 4) {
		b.MaxFrameSize = rnd.Range(1, 20)
	}
	if rnd.P(3, 4) {
		b.MaxInboundFramePerSecond = 1
	}
	if rnd.P(3, 4) {
		b.MaxInboundInflightStreamPerConn = 1
	}
	if rnd.P(1, 2) {
		b.DefaultReadTimeout = 1
	}
	if rnd.P(1, 2) {
		b.DefaultWriteTimeout = 1
	}
	if rnd.P(3, 4) {
		b.Codec = decoyCodec{c}
	}
	if rnd.P(3, 4) {
		b.SubFunc = func(*qrpc.ConnectionInfo, *qrpc.Frame) { wrong("SubFunc") }
	}
	if rnd.P(3, 4) {
		b.OnKickCB = func(qrpc.FrameWriter) { wrong("OnKickCB") }
	}
	if rnd.P(3, 4) {
		b.LifecycleCallbacks.OnAccept = func(net.Conn) error { wrong("OnAccept"); return nil }
		b.LifecycleCallbacks.OnClose = func(net.Conn) { wrong("OnClose") }
	}
	if rnd.P(1, 2) {
		b.CounterMetric, b.LatencyMetric = decoyCounter{c}, decoyHist{c}
	}
	if rnd.P(1, 2) {
		b.MaxCloseRate = 1
	}
	b.ReadFrameChSize = 0
	b.WriteFrameChSize = rnd.Intn(3)
	return b
}

// around puts decoys before and after the bindings of a scenario
func (w *World) around(s *Srv, bs []qrpc.ServerBinding) []qrpc.ServerBinding {
	if w.bind == 0 {
		return bs
	}
	rnd := pbt.NewR(w.seed)
	s.shift = w.bind
	var out []qrpc.ServerBinding
	for i := 0; i < w.bind; i++ {
		out = append(out, w.decoy(bs[0].Addr+"-before"+string(rune('0'+i)), rnd))
	}
	out = append(out, bs...)
	if rnd.P(1, 2) {
		out = append(out, w.decoy(bs[0].Addr+"-after", rnd))
	}
	s.throttled = rnd.P(1, 2)
	return out
}

// hinder throttles a decoy
func (s *Srv) hinder() {
	if s.throttled {
		s.Server.SetThrottle(0)
		s.w.c.Quiesce()
	}
}

// the methods below take the index of a binding of the scenario

func (s *Srv) BindingConfig(i int) qrpc.ServerBinding { return s.Server.BindingConfig(i + s.shift) }
func (s *Srv) SetThrottle(i int)                      { s.Server.SetThrottle(i + s.shift) }
func (s *Srv) ClearThrottle(i int)                    { s.Server.ClearThrottle(i + s.shift) }
func (s *Srv) Serve(l qrpc.Listener, i int) error     { return s.Server.Serve(l, i+s.shift) }
func (s *Srv) WalkConn(i int, f func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool) {
	s.Server.WalkConn(i+s.shift, f)
}
func (s *Srv) WalkConnByID(i int, ids []string, f func(qrpc.FrameWriter, *qrpc.ConnectionInfo, int)) {
	s.Server.WalkConnByID(i+s.shift, ids, f)
}
func (s *Srv) GetConnectionInfoByID(i int, id string) *qrpc.ConnectionInfo {
	return s.Server.GetConnectionInfoByID(i+s.shift, id)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "B01",
		Title: "bindings",
		Rule:  "generated: scenarios of the other properties (sessions, losses, life cycle, ids, pushes, limits, timeouts, throttling, compression, metrics, hostile peers) run on the second to fourth binding of a server; the others have tiny limits, short timeouts, other codecs, callbacks, handlers and metrics, which must never be used, and may be throttled; oracle: that of the property the scenario belongs to, which holds for the only binding. Non-trivial: as stated there",
		Gen:   genB01, New: func() any { return &b01{} }, Run: runB01,
		Quick:    pbt.Budget{Cases: 40000, MaxSec: 80},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 900},
	})
}
