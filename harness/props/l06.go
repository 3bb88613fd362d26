package props

import (
	"encoding/json"

	"verif/pbt"
)

// ---- L06: the other properties on clients which have lost connections before

// l06Subs are the properties with real clients, with weights
var l06Subs = []sub{
	{"S01", 4}, {"L01", 4}, {"P01", 3}, {"C01", 2}, {"F01", 3}, {"F02", 2}, {"F03", 1}, {"R01", 3}, {"R02", 1}, {"R03", 1}, {"R04", 1},
	{"S02", 2}, {"S03", 3}, {"S04", 2}, {"Z01", 2}, {"M02", 1}, {"H01", 1}, {"Q04", 3}, {"Q05", 3}, {"R05", 2}, {"L08", 2},
}

// sub is a property whose scenarios run in another environment
type sub struct {
	id string
	w  int
}

// genSub draws a scenario of one of them
func genSub(r *pbt.R, subs []sub) (string, json.RawMessage) {
	var ws []int
	for _, s := range subs {
		ws = append(ws, s.w)
	}
	id := subs[r.W(ws...)].id
	sc, err := json.Marshal(pbt.Props[id].Gen(r))
	if err != nil {
		panic(err)
	}
	return id, sc
}

// runSub runs it
func runSub(c *pbt.C, subs []sub, id string, sc json.RawMessage, e env) {
	known := false
	for _, x := range subs {
		known = known || x.id == id
	}
	if !known {
		return
	}
	p := pbt.Props[id]
	v := p.New()
	if err := json.Unmarshal(sc, v); err != nil {
		return
	}
	c.Tag = e
	p.Run(c, v)
}

type l06 struct {
	Re   int
	Seed int
	ID   string
	Sc   json.RawMessage
}

func genL06(r *pbt.R) any {
	s := &l06{Re: r.N(1, 4), Seed: r.Intn(1 << 30)}
	s.ID, s.Sc = genSub(r, l06Subs)
	return s
}

func runL06(c *pbt.C, sc any) {
	s := sc.(*l06)
	c.Label("%s after losses", s.ID)
	runSub(c, l06Subs, s.ID, s.Sc, env{re: clamp(s.Re, 0, 10), seed: uint64(s.Seed)})
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "L06",
		Title: "reconnected clients",
		Rule:  "generated: scenarios of the other properties (sessions, lost connections, streams, resets, pushes, channels, concurrent writers, compression, timeouts) run on clients made by NewConnectionWithReconnect which have lost one to four connections before, those having carried complete or cut off frames nobody asked for and ended in order or abruptly; oracle: that of the property the scenario belongs to, which holds for a new client. Non-trivial: as stated there",
		Gen:   genL06, New: func() any { return &l06{} }, Run: runL06,
		Quick:    pbt.Budget{Cases: 32000, MaxSec: 80},
		Thorough: pbt.Budget{Cases: 400000, MaxSec: 900},
	})
}
