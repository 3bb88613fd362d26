package pbt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// shrink reduces the failing scenario by deleting array elements and lowering
// numbers, keeping every candidate which still fails (for whatever message of
// the same kind). It returns the smallest failure found.
func shrink(p *Prop, f *Failure, budget time.Duration) (*Failure, string) {
	start := realMillis()
	left := func() time.Duration { return budget - time.Duration(realMillis()-start)*time.Millisecond }
	// does it reproduce at all, and how often?
	try := func(sc json.RawMessage, n int) *Failure {
		procs := []int{1, 2, 4}
		var mu sync.Mutex
		var got *Failure
		var wg sync.WaitGroup
		for _, pr := range procs {
			wg.Add(1)
			go func(pr int) {
				defer wg.Done()
				lim := left()
				if lim < 2*time.Second {
					lim = 2 * time.Second
				}
				fl, _ := attempt(p, sc, n, pr, lim)
				if fl != nil {
					mu.Lock()
					got = fl
					mu.Unlock()
				}
			}(pr)
		}
		wg.Wait()
		return got
	}
	first := try(f.Scenario, 20)
	if first == nil {
		return f, "observed once in the search, not reproduced by 60 replays of the case (schedule dependent)"
	}
	best := &Failure{Index: f.Index, Msg: first.Msg, Scenario: f.Scenario, Log: first.Log}
	var tree any
	dec := json.NewDecoder(bytes.NewReader(f.Scenario))
	dec.UseNumber()
	if dec.Decode(&tree) != nil {
		return best, "reproduced"
	}
	steps, tried := 0, 0
	for improved := true; improved && left() > 0; {
		improved = false
		cands := candidates(tree)
		for i := 0; i < len(cands) && left() > 0; {
			// a few candidates at a time, take the first that fails
			k := 3
			if i+k > len(cands) {
				k = len(cands) - i
			}
			type res struct {
				t  any
				b  []byte
				fl *Failure
			}
			rs := make([]res, k)
			var wg sync.WaitGroup
			for j := 0; j < k; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					t := cands[i+j]()
					b, _ := json.Marshal(t)
					rs[j] = res{t: t, b: b, fl: try(b, 6)}
				}(j)
			}
			wg.Wait()
			tried += k
			hit := false
			for j := range rs {
				if rs[j].fl != nil {
					tree = rs[j].t
					best = &Failure{Index: f.Index, Msg: rs[j].fl.Msg, Scenario: rs[j].b, Log: rs[j].fl.Log}
					steps++
					improved, hit = true, true
					break
				}
			}
			if hit {
				break
			}
			i += k
		}
	}
	return best, fmt.Sprintf("reproduced; %d shrink steps, %d candidates", steps, tried)
}

// candidates are smaller variants of the tree, the most aggressive first
func candidates(t any) []func() any {
	var out []func() any
	var small []func() any
	var walk func(v any, rebuild func(any) any)
	walk = func(v any, rebuild func(any) any) {
		switch x := v.(type) {
		case []any:
			n := len(x)
			for sz := n; sz >= 1; sz /= 2 {
				for at := 0; at < n; at += sz {
					at, sz := at, sz
					out = append(out, func() any {
						c := append([]any{}, x[:at]...)
						e := at + sz
						if e > n {
							e = n
						}
						c = append(c, x[e:]...)
						return rebuild(c)
					})
				}
			}
			for i := range x {
				i := i
				walk(x[i], func(nv any) any {
					c := append([]any{}, x...)
					c[i] = nv
					return rebuild(c)
				})
			}
		case map[string]any:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sortStrings(keys)
			for _, k := range keys {
				k := k
				walk(x[k], func(nv any) any {
					c := make(map[string]any, len(x))
					for kk, vv := range x {
						c[kk] = vv
					}
					c[k] = nv
					return rebuild(c)
				})
			}
		case json.Number:
			n, err := x.Int64()
			if err != nil || n == 0 {
				return
			}
			small = append(small, func() any { return rebuild(json.Number("0")) })
			if n > 2 || n < -1 {
				small = append(small, func() any { return rebuild(json.Number(fmt.Sprint(n / 2))) })
			}
			if n > 1 {
				small = append(small, func() any { return rebuild(json.Number(fmt.Sprint(n - 1))) })
			}
		case bool:
			if x {
				small = append(small, func() any { return rebuild(false) })
			}
		case string:
			if len(x) > 0 {
				small = append(small, func() any { return rebuild(x[:len(x)/2]) })
			}
		}
	}
	walk(t, func(v any) any { return v })
	return append(out, small...)
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
