package props

import (
	"bytes"
	"encoding/json"

	"verif/pbt"
)

// Scenarios of most properties run now and then over another transport, or on
// clients which have lost connections before, or on one of several bindings:
// what the properties say does not depend on it. W01, L06 and B01 run nothing
// else. Some also run scenarios of E02, with very many of something, and of E03,
// with pauses of up to months.

// envelope is a scenario with the environment it runs in. Without one it looks
// like the scenario itself.
type envelope struct {
	p    *pbt.Prop // the property as it was registered
	env  envData
	body any
}

type envData struct {
	Tr   int `json:",omitempty"`
	Re   int `json:",omitempty"`
	Bind int `json:",omitempty"`
	Seed int `json:",omitempty"`

	Many *e02 `json:",omitempty"` // instead of the body
	Late *e03 `json:",omitempty"` // instead of the body
}

// manySubs are the properties some of which E02 runs with many of something
var manySubs = map[string][]int{
	"F01": {vSeq, vBack, vPush, vFrames},
	"F02": {vMany, vManyBack, vPush},
	"F03": {vSeq, vBack, vFrames, vPush},
	"R01": {vSeq, vBack, vMany, vManyBack},
	"R03": {vMany, vManyBack},
	"S01": {vFrames, vStreams},
	"P01": {vPush},
	"L02": {vConns},
	"L05": {vRecon},
	"I01": {vConns},
	"M01": {vMux, vChain},
	"B01": {vBinds},
}

// lateSubs are the properties some of which E03 runs with pauses
var lateSubs = map[string][]int{
	"R01": {tmSlow, tmBack, tmQuiet, tmIdle, tmContext},
	"R02": {tmBlocking},
	"R03": {tmSlow},
	"R05": {tmSlow, tmBack},
	"S01": {tmStream, tmAnswer, tmBackStream, tmPushStream, tmReader, tmAnswerReader, tmPushReader},
	"P01": {tmPush, tmPushStream, tmClientPush},
	"L05": {tmDown, tmLoss},
	"I01": {tmID},
	"Q04": {tmIdle, tmPartial, tmSlow},
	"Q05": {tmStuck},
	"Q06": {tmThrottle},
	"A01": {tmAPI},
	"C01": {tmChannel},
}

func (e *envelope) MarshalJSON() ([]byte, error) {
	body, err := json.Marshal(e.body)
	if err != nil || e.env == (envData{}) {
		return body, err
	}
	return json.Marshal(struct {
		Env  envData
		Body json.RawMessage
	}{e.env, body})
}

func (e *envelope) UnmarshalJSON(b []byte) error {
	var x struct {
		Env  *envData
		Body json.RawMessage
	}
	if bytes.Contains(b, []byte(`"Env"`)) && json.Unmarshal(b, &x) == nil && x.Env != nil {
		e.env = *x.Env
		b = x.Body
		if len(b) == 0 {
			b = []byte("{}")
		}
	}
	return json.Unmarshal(b, e.body)
}

func has(subs []sub, id string) bool {
	for _, s := range subs {
		if s.id == id {
			return true
		}
	}
	return false
}

func init() {
	for id, p := range pbt.Props {
		tr, re, bind := has(w01Subs, id), has(l06Subs, id), has(b01Subs, id)
		many, late := manySubs[id], lateSubs[id]
		if !tr && !re && !bind && many == nil && late == nil {
			continue
		}
		orig := *p
		p.Gen = func(r *pbt.R) any {
			e := &envelope{p: &orig}
			if tr && r.P(1, 16) {
				e.env.Tr = r.Range(1, nTrs-1)
			}
			if re && r.P(1, 12) {
				e.env.Re = r.N(1, 3)
				e.env.Seed = r.Intn(1 << 20)
			}
			if bind && r.P(1, 16) {
				e.env.Bind = r.N(1, 3)
				e.env.Seed = r.Intn(1 << 20)
			}
			e.body = orig.Gen(r)
			if many != nil && r.P(1, 60) {
				m := genE02(r).(*e02)
				m.Kind = pbt.Pick(r, many...)
				m.N = min(m.N, vMax[m.Kind])
				return &envelope{p: &orig, env: envData{Many: m}, body: orig.New()}
			}
			if late != nil && r.P(1, 60) {
				l := genE03(r).(*e03)
				for i := range l.Items {
					l.Items[i].Kind = pbt.Pick(r, late...)
				}
				return &envelope{p: &orig, env: envData{Late: l}, body: orig.New()}
			}
			return e
		}
		for _, k := range late {
			l := &e03{WCh: 1}
			for _, ms := range []int{100, 45_000, 700_000, 100_000_000} {
				l.Items = append(l.Items, e03Item{Kind: k, MS: ms, N: 2, Own: ms > 100, Pay: 10})
			}
			p.Fixed = append(p.Fixed[:len(p.Fixed):len(p.Fixed)], &envelope{p: &orig, env: envData{Late: l}, body: orig.New()})
		}
		for _, f := range e02Fixed() {
			for _, k := range many {
				if f := f.(*e02); f.Kind == k {
					p.Fixed = append(p.Fixed[:len(p.Fixed):len(p.Fixed)], &envelope{p: &orig, env: envData{Many: f}, body: orig.New()})
				}
			}
		}
		p.New = func() any { return &envelope{p: &orig, body: orig.New()} }
		p.Run = func(c *pbt.C, sc any) {
			e := sc.(*envelope)
			if e.env.Many != nil {
				runE02(c, e.env.Many)
				return
			}
			if e.env.Late != nil {
				runE03(c, e.env.Late)
				return
			}
			if c.Tag == nil && e.env != (envData{}) {
				x := env{tr: clamp(e.env.Tr, 0, nTrs-1), re: clamp(e.env.Re, 0, 10), seed: uint64(e.env.Seed), bind: clamp(e.env.Bind, 0, 10)}
				if x.tr > 0 {
					c.Label("over %s", trNames[x.tr])
				}
				if x.re > 0 {
					c.Label("after losses")
				}
				if x.bind > 0 {
					c.Label("on one of several bindings")
				}
				c.Tag = x
			}
			orig.Run(c, e.body)
		}
	}
}
