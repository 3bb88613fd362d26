package props

import (
	"encoding/json"

	"verif/pbt"

	"github.com/zhiqiangxu/qrpc"
)

// ---- W01: the other properties over TLS, websocket and websocket over TLS.
// Real ends use the library's transports, reference ends use their own, with
// small fragments, many message sizes, empty messages and pings.

// w01Subs are the properties whose scenarios do not depend on the bytes of the
// network connection, with weights
var w01Subs = []sub{
	{"S01", 4}, {"L01", 4}, {"P01", 3}, {"C01", 3}, {"F01", 2}, {"R01", 2}, {"R02", 1}, {"R03", 1}, {"R04", 1},
	{"S02", 1}, {"S03", 2}, {"S04", 2}, {"Z01", 2}, {"M02", 1}, {"I01", 1}, {"H01", 2}, {"H02", 2}, {"R05", 2}, {"L08", 1},
}

type w01 struct {
	Tr int
	ID string
	Sc json.RawMessage
}

func genW01(r *pbt.R) any {
	id, sc := genSub(r, w01Subs)
	return &w01{Tr: r.Range(1, nTrs-1), ID: id, Sc: sc}
}

func runW01(c *pbt.C, sc any) {
	s := sc.(*w01)
	tr := clamp(s.Tr, 0, nTrs-1)
	c.Label("%s over %s", s.ID, trNames[tr])
	runSub(c, w01Subs, s.ID, s.Sc, env{tr: tr})
}

// w01Big are messages of megabytes, in both directions
func w01Big() (out []any) {
	for tr := 1; tr < nTrs; tr++ {
		for _, n := range []int{1<<20 - 16, 3<<20 + 5, qrpc.DefaultMaxFrameSize - 12} {
			p := Pay{N: n, S: uint64(n)}
			sc, err := json.Marshal(&f01{C2S: Link{Buf: 1 << 20}, S2C: Link{Buf: 1 << 20},
				Srv: []f01Req{{ID: 3, Cmd: 1, P: p, RCmd: 2, RP: p}, {ID: 5, Cmd: 1, RCmd: 4}},
				Cli: []f01Req{{ID: 3, Cmd: 1, P: p, RCmd: 2, RP: p}, {ID: 5, Cmd: 3, RCmd: 4, RP: Pay{N: 10, S: 1}}}})
			if err != nil {
				panic(err)
			}
			out = append(out, &w01{Tr: tr, ID: "F01", Sc: sc})
		}
	}
	return
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "W01",
		Title: "transports",
		Rule:  "generated: scenarios of the other properties (sessions, lost connections, pushes, channels, resets, unread streams, compression, hostile peers and more) run over TLS, websocket and websocket over TLS on the fragmenting network; reference peers use websocket fragments, messages of many sizes, empty messages and pings; oracle: that of the property the scenario belongs to, which holds over plain TCP. Non-trivial: as stated there",
		Gen:   genW01, New: func() any { return &w01{} }, Run: runW01,
		Fixed:    w01Big(),
		Quick:    pbt.Budget{Cases: 20000, MaxSec: 80},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 900},
	})
}
