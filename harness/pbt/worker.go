package pbt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

var (
	yieldCtr  atomic.Uint64
	yieldSeed atomic.Uint64
	yieldMod  atomic.Int64
)

func init() { yieldMod.Store(4) }

// lastYear of the virtual clock, which begins in 2000 and goes on from case to
// case, of a worker. A duration holds 292 years.
const lastYear = 2090

// Job is what a worker gets
type Job struct {
	Prop     string
	Seed     uint64
	From     int // case indexes From, From+Step, ...
	Step     int
	Total    int
	Deadline int64           // unix seconds, 0: none
	Scenario json.RawMessage `json:",omitempty"` // replay instead of generating
	Attempts int
	Procs    int
	Dir      string // files: cur, out
	Name     string
}

// Out is what a worker writes
type Out struct {
	Evaluations int
	Hashes      []uint64
	Labels      map[string]int
	Samples     []json.RawMessage
	Failure     *Failure
	Done        bool
	Next        int // the case another worker goes on with, 0: none
}

// Failure of one case
type Failure struct {
	Index    int
	Msg      string
	Scenario json.RawMessage
	Log      []string
}

// Cur is written before each case
type Cur struct {
	Index    int
	Scenario json.RawMessage
}

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// RunWorker is called from TestWorker
func RunWorker(t *testing.T) {
	var job Job
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: no job:", err)
		os.Exit(9)
	}
	if err = json.Unmarshal(b, &job); err != nil {
		fmt.Fprintln(os.Stderr, "worker: bad job:", err)
		os.Exit(9)
	}
	p := Props[job.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "worker: unknown property", job.Prop)
		os.Exit(9)
	}
	if job.Procs > 0 {
		runtime.GOMAXPROCS(job.Procs)
	}
	debug.SetMemoryLimit(1500 << 20)
	if p.NoBubble {
		runJob(t, p, &job)
		return
	}
	synctest.Test(t, func(t *testing.T) { runJob(t, p, &job) })
}

func runJob(t *testing.T, p *Prop, job *Job) {
	out := &Out{Labels: map[string]int{}}
	curPath := job.Dir + "/" + job.Name + ".cur"
	outPath := job.Dir + "/" + job.Name + ".out"
	finish := func() {
		b, _ := json.Marshal(out)
		os.WriteFile(outPath+".tmp", b, 0o644)
		os.Rename(outPath+".tmp", outPath)
		os.Exit(0) // stray goroutines of a case must not outlive the worker
	}
	one := func(idx int, raw []byte, sc any) bool {
		cb, _ := json.Marshal(Cur{Index: idx, Scenario: raw})
		os.WriteFile(curPath, cb, 0o644)
		yieldSeed.Store(hashOf(raw))
		yieldCtr.Store(0)
		yieldMod.Store(int64([]int{2, 3, 5, 9, 1 << 30}[(idx%5+5)%5]))
		t0 := realMillis()
		res := Exec(t, p, sc)
		if d := realMillis() - t0; d > 30 && os.Getenv("VERIF_SLOW") != "" {
			if f, err := os.OpenFile(os.Getenv("VERIF_SLOW"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%d ms, %d goroutines: %s\n", d, runtime.NumGoroutine(), raw)
				f.Close()
			}
		}
		out.Evaluations++
		for k, v := range res.Labels {
			if v > 0 {
				out.Labels[k]++
			}
		}
		if res.NonTrivial {
			out.Hashes = append(out.Hashes, hashOf(raw))
			if len(out.Samples) < 2 && len(raw) < 4000 || len(out.Samples) == 0 {
				out.Samples = append(out.Samples, raw)
			}
		}
		if res.Fail != "" {
			out.Failure = &Failure{Index: idx, Msg: res.Fail, Scenario: raw, Log: res.Log}
			return false
		}
		return true
	}
	if job.Scenario != nil {
		n := job.Attempts
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			sc := p.New()
			if err := json.Unmarshal(job.Scenario, sc); err != nil {
				fmt.Fprintln(os.Stderr, "worker: scenario:", err)
				os.Exit(9)
			}
			if !one(i, job.Scenario, sc) {
				break
			}
		}
		out.Done = true
		finish()
	}
	var fixed int
	for i := range p.Fixed {
		if i%job.Step != job.From {
			continue
		}
		raw, _ := json.Marshal(p.Fixed[i])
		sc := p.New()
		if err := json.Unmarshal(raw, sc); err != nil {
			panic(err)
		}
		fixed++
		if !one(-1-i, raw, sc) {
			finish()
		}
	}
	for i := job.From; i < job.Total; i += job.Step {
		if job.Deadline > 0 && realNow() > job.Deadline {
			break
		}
		if !p.NoBubble && time.Now().Year() >= lastYear {
			out.Next = i
			break
		}
		r := NewR(p.ID, job.Seed, i)
		r.Size = 0.1 + 0.9*float64(i)/float64(job.Total)
		if i%4 == 0 {
			r.Size = 1
		}
		sc := p.Gen(r)
		raw, err := json.Marshal(sc)
		if err != nil {
			panic(err)
		}
		// run what the replay would run
		sc = p.New()
		if err = json.Unmarshal(raw, sc); err != nil {
			panic(err)
		}
		if !one(i, raw, sc) {
			break
		}
	}
	out.Done = true
	finish()
}

// realNow reads the real clock (the bubble's clock is virtual), in seconds
func realNow() int64 { return realMillis() / 1000 }

func realMillis() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Sec*1000 + tv.Usec/1000
}
