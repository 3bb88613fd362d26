package pbt

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const sutPkg = "github.com/zhiqiangxu/qrpc"

// outcome of a worker process
type outcome struct {
	out    *Out
	fail   *Failure // a violation (oracle, crash, livelock, deadlock)
	err    string   // trouble of the check itself
	stderr string
}

type proc struct {
	job    *Job
	cmd    *exec.Cmd
	errb   *bytes.Buffer
	doneCh chan struct{}
}

var (
	scratch string
	jobSeq  int
	jobMu   sync.Mutex
)

func startWorker(job Job) (*proc, error) {
	jobMu.Lock()
	jobSeq++
	job.Name = fmt.Sprintf("w%d", jobSeq)
	jobMu.Unlock()
	job.Dir = scratch
	b, err := json.Marshal(job)
	if err != nil {
		return nil, err
	}
	jp := filepath.Join(scratch, job.Name+".job")
	if err := os.WriteFile(jp, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0", "-test.count=1")
	cmd.Env = append(os.Environ(), "VERIF_JOB="+jp, "GOTRACEBACK=all", "GORACE=halt_on_error=1")
	errb := &bytes.Buffer{}
	cmd.Stdout = &limited{b: errb}
	cmd.Stderr = cmd.Stdout
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread()
	err = cmd.Start()
	runtime.UnlockOSThread()
	if err != nil {
		return nil, err
	}
	p := &proc{job: &job, cmd: cmd, errb: errb, doneCh: make(chan struct{})}
	go func() { cmd.Wait(); close(p.doneCh) }()
	return p, nil
}

type limited struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 8<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// cpuMillis of a process
func cpuMillis(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return -1
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	return (u + s) * 10
}

const (
	livelockCPU  = 25000 // ms of CPU spent in one case
	deadlockWall = 20000 // ms in one case ...
	deadlockIdle = 10000 // ... of which the last ones with no CPU use
	giveUpWall   = 240000
)

// waitWorker watches the process until it ends or is stuck
func waitWorker(p *proc, cancel <-chan struct{}) outcome {
	pid := p.cmd.Process.Pid
	curPath := filepath.Join(scratch, p.job.Name+".cur")
	outPath := filepath.Join(scratch, p.job.Name+".out")
	kill := func() {
		syscall.Kill(-pid, syscall.SIGKILL)
		<-p.doneCh
	}
	readCur := func() (*Cur, time.Time) {
		st, err := os.Stat(curPath)
		if err != nil {
			return nil, time.Time{}
		}
		b, _ := os.ReadFile(curPath)
		var c Cur
		if json.Unmarshal(b, &c) != nil {
			return nil, st.ModTime()
		}
		return &c, st.ModTime()
	}
	defer func() {
		os.Remove(curPath)
		os.Remove(outPath)
		os.Remove(filepath.Join(scratch, p.job.Name+".job"))
	}()
	var (
		lastMod    time.Time
		caseStart  = realMillis()
		caseCPU    = int64(0)
		lastCPU    = int64(0)
		lastActive = realMillis()
		tick       = time.NewTicker(250 * time.Millisecond)
		stuck      string
		prop       = Props[p.job.Prop]
	)
	defer tick.Stop()
loop:
	for {
		select {
		case <-p.doneCh:
			break loop
		case <-cancel:
			kill()
			return outcome{}
		case <-tick.C:
			st, err := os.Stat(curPath)
			now := realMillis()
			cpu := cpuMillis(pid)
			if cpu < 0 {
				continue
			}
			if err == nil && !st.ModTime().Equal(lastMod) {
				lastMod = st.ModTime()
				caseStart, caseCPU = now, cpu
				lastActive, lastCPU = now, cpu
				continue
			}
			if cpu-lastCPU > 50 {
				lastActive = now
			}
			lastCPU = cpu
			if lastMod.IsZero() {
				if now-caseStart > giveUpWall {
					kill()
					return outcome{err: "worker made no progress before its first case"}
				}
				continue
			}
			switch {
			case cpu-caseCPU > livelockCPU:
				stuck = fmt.Sprintf("livelock: %d ms of CPU in one case without virtual time passing", cpu-caseCPU)
			case !prop.NoBubble && now-caseStart > deadlockWall && now-lastActive > deadlockIdle:
				stuck = "deadlock: the process is idle and virtual time does not advance"
			case now-caseStart > giveUpWall:
				stuck = "stuck"
			}
			if stuck != "" {
				syscall.Kill(pid, syscall.SIGQUIT)
				select {
				case <-p.doneCh:
				case <-time.After(5 * time.Second):
					kill()
				}
				break loop
			}
		}
	}
	stderr := p.errb.String()
	cur, _ := readCur()
	if stuck != "" {
		if stuck == "stuck" || cur == nil || !strings.Contains(stderr, sutPkg+".") && !strings.Contains(stderr, sutPkg+"/") {
			return outcome{err: "a case did not finish: " + stuck, stderr: stderr}
		}
		return outcome{fail: &Failure{Index: cur.Index, Msg: stuck, Scenario: cur.Scenario, Log: sutStacks(stderr)}, stderr: stderr}
	}
	var o Out
	if b, err := os.ReadFile(outPath); err == nil && json.Unmarshal(b, &o) == nil {
		return outcome{out: &o, fail: o.Failure, stderr: stderr}
	}
	// crashed
	msg, genuine := crashMsg(stderr)
	if genuine && cur != nil {
		return outcome{fail: &Failure{Index: cur.Index, Msg: "crash: " + msg, Scenario: cur.Scenario, Log: strings.Split(tail(msgContext(stderr), 6000), "\n")}, stderr: stderr}
	}
	return outcome{err: "worker died: " + p.cmd.ProcessState.String() + " " + msg, stderr: stderr}
}

func msgContext(s string) string {
	for _, k := range []string{"panic:", "fatal error:", "WARNING: DATA RACE"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > 6000 {
				s = s[:6000]
			}
			return s
		}
	}
	return s
}

func sutStacks(s string) []string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, sutPkg) {
			for _, ln := range strings.Split(g, "\n") {
				if strings.Contains(ln, sutPkg) || strings.HasPrefix(ln, "goroutine ") {
					out = append(out, strings.TrimSpace(ln))
				}
			}
		}
		if len(out) > 80 {
			break
		}
	}
	return out
}

// crashMsg decides whether a dead worker is a crash of the program under test
// raceSites names the two accesses of a race, and tells whether the library
// makes one of them: the first frame outside the standard library decides
func raceSites(seg string) (at string, ours bool) {
	lines := strings.Split(seg, "\n")
	for i, ln := range lines {
		if !strings.Contains(ln, " by goroutine ") && !strings.Contains(ln, " by main goroutine") || strings.HasPrefix(ln, "Goroutine") {
			continue
		}
		for j := i + 1; j+1 < len(lines) && lines[j] != ""; j += 2 {
			fn := strings.TrimSpace(lines[j])
			pkg := fn
			if k := strings.IndexByte(fn, '('); k > 0 {
				pkg = fn[:k]
			}
			first, _, _ := strings.Cut(pkg, "/")
			if !strings.Contains(first, ".") || first == pkg {
				if !strings.HasPrefix(fn, "verif/") {
					continue // standard library
				}
			}
			at += " " + strings.TrimSuffix(fn, "()")
			if strings.HasPrefix(fn, sutPkg+".") || strings.HasPrefix(fn, sutPkg+"/") {
				ours = true
			}
			break
		}
	}
	return
}

func crashMsg(stderr string) (string, bool) {
	for _, k := range []string{"out of memory", "cannot allocate memory", "pthread_create", "no space left", "too many open files"} {
		if strings.Contains(stderr, k) {
			return k, false
		}
	}
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		seg := stderr[i:]
		if j := strings.Index(seg[10:], "=================="); j >= 0 {
			seg = seg[:j+10]
		}
		at, ours := raceSites(seg)
		return "data race" + at, ours
	}
	for _, k := range []string{"panic:", "fatal error:"} {
		i := strings.Index(stderr, k)
		if i < 0 {
			continue
		}
		line := stderr[i:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		// A bubble notices when Add meets a Wait at zero, which the WaitGroup
		// forbids: the counter is detached from the bubble in between.
		misuse := strings.Contains(line, "WaitGroup.Add called from inside and outside")
		if misuse {
			line = "WaitGroup misuse: Add called concurrently with Wait"
		} else if strings.Contains(line, "synctest") || strings.Contains(line, "deadlock!") {
			return line, false
		}
		// the stack of the goroutine which panicked comes first
		rest := stderr[i:]
		if j := strings.Index(rest, "\ngoroutine "); j >= 0 {
			g := rest[j+1:]
			if e := strings.Index(g, "\n\n"); e >= 0 {
				g = g[:e]
			}
			// "panic: ... [recovered, repanicked]" keeps the original frames
			return line, strings.Contains(g, sutPkg+".") || strings.Contains(g, sutPkg+"/") || misuse && strings.Contains(g, "github.com/zhiqiangxu/")
		}
		return line, strings.Contains(rest, sutPkg+".")
	}
	return tail(stderr, 300), false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Main is the entry of the orchestrator; it returns the exit code
func Main() int {
	var (
		id      = flag.String("prop", "", "property")
		tier    = flag.String("tier", "", "quick or thorough")
		replay  = flag.String("replay", "", "replay file")
		outDir  = flag.String("out", "", "directory for replay files")
		evDir   = flag.String("evidence", "", "directory for evidence")
		known   = flag.String("known", "", "known findings file")
		cases   = flag.Int("cases", 0, "override the number of cases")
		sec     = flag.Int("sec", 0, "override the time limit")
		list    = flag.Bool("list", false, "list properties")
		oneproc = flag.Int("workers", 0, "override the number of workers")
	)
	flag.Parse()
	if *list {
		for _, id := range IDs() {
			fmt.Println(id, Props[id].Race)
		}
		return 0
	}
	var err error
	scratch, err = os.MkdirTemp("", "verif-pbt-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else {
			seed = hashOf([]byte(s))
		}
	}
	if *replay != "" {
		return doReplay(*replay)
	}
	p := Props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "ERROR unknown property", *id)
		return 2
	}
	start := realMillis()
	b := p.Quick
	if *tier == "thorough" {
		b = p.Thorough
		if b.Cases == 0 {
			b = Budget{Cases: p.Quick.Cases * 20, MaxSec: 600}
		}
	}
	if *cases > 0 {
		b.Cases = *cases
	}
	if *sec > 0 {
		b.MaxSec = *sec
	}
	nw := p.Workers
	if nw == 0 {
		nw = 8
	}
	if *oneproc > 0 {
		nw = *oneproc
	}
	if nw > b.Cases {
		nw = b.Cases
	}
	cancel := make(chan struct{})
	var once sync.Once
	perWorker := make([][]outcome, nw)
	var wg sync.WaitGroup
	deadline := realNow() + int64(b.MaxSec)
	for i := 0; i < nw; i++ {
		job := Job{Prop: p.ID, Seed: seed, From: i, Step: nw, Total: b.Cases, Deadline: deadline, Procs: []int{1, 2, 4, 1, 2, 8, 1, 3}[i%8]}
		pr, err := startWorker(job)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR", err)
			return 2
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				o := waitWorker(pr, cancel)
				if o.out != nil && o.out.Next > 0 && o.fail == nil && o.err == "" {
					// its clock went far; the next one starts afresh
					job.From = o.out.Next
					if pr, err = startWorker(job); err == nil {
						perWorker[i] = append(perWorker[i], o)
						continue
					}
					o.err = err.Error()
				}
				perWorker[i] = append(perWorker[i], o)
				if o.fail != nil {
					once.Do(func() { close(cancel) })
				}
				return
			}
		}(i)
	}
	wg.Wait()
	results := slices.Concat(perWorker...)

	var (
		fails   []*Failure
		errs    []string
		evals   int
		hashes  = map[uint64]bool{}
		labels  = map[string]int{}
		samples []json.RawMessage
	)
	for _, r := range results {
		if r.fail != nil {
			fails = append(fails, r.fail)
		}
		if r.err != "" {
			errs = append(errs, r.err+"\n"+tail(r.stderr, 3000))
		}
		if r.out != nil {
			evals += r.out.Evaluations
			for _, h := range r.out.Hashes {
				hashes[h] = true
			}
			for k, v := range r.out.Labels {
				labels[k] += v
			}
			if len(samples) < 4 {
				samples = append(samples, r.out.Samples...)
			}
		}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	code := 0
	nviol := 0
	if len(fails) > 0 {
		nviol = 1
		code = 1
		sort.Slice(fails, func(i, j int) bool { return len(fails[i].Scenario) < len(fails[j].Scenario) })
		f := fails[0]
		budget := 25 * time.Second
		if *tier == "thorough" {
			budget = 90 * time.Second
		}
		fmt.Printf("FAILURE property=%s case=%d: %s\n", p.ID, f.Index, firstLines(f.Msg, 6))
		min, repro := shrink(p, f, budget)
		path := writeReplay(*outDir, p, seed, f, min, repro)
		fmt.Printf("minimal: %s\n", firstLines(min.Msg, 10))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	} else if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR", e)
		}
		code = 2
	}
	if *known != "" && code != 2 {
		if c := runKnown(p, *known, *outDir, seed); c != 0 && code == 0 {
			code = c
		}
	}
	wall := float64(realMillis()-start) / 1000
	if *evDir != "" {
		writeEvidence(*evDir, p, *tier, seed, evals, len(hashes), labels, samples, wall, nviol, b.Cases)
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs\n", p.ID, *tier, seed, evals, len(hashes), wall)
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Replay file
type Replay struct {
	Property   string          `json:"property"`
	Seed       uint64          `json:"seed"`
	Case       int             `json:"case"`
	Message    string          `json:"message"`
	Reproduced string          `json:"reproduced"`
	Scenario   json.RawMessage `json:"scenario"`
	Log        []string        `json:"log,omitempty"`
	Original   json.RawMessage `json:"original,omitempty"`
	HowTo      string          `json:"howto"`
}

func writeReplay(dir string, p *Prop, seed uint64, f, min *Failure, repro string) string {
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, p.ID+".replay.json")
	r := Replay{Property: p.ID, Seed: seed, Case: f.Index, Message: min.Msg, Reproduced: repro, Scenario: min.Scenario, Log: min.Log, HowTo: "/verif/check.sh " + p.ID + " -replay " + path}
	if !bytes.Equal(f.Scenario, min.Scenario) {
		r.Original = f.Scenario
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// attempt runs a scenario several times in child processes
func attempt(p *Prop, sc json.RawMessage, attempts, procs int, limit time.Duration) (*Failure, string) {
	pr, err := startWorker(Job{Prop: p.ID, Scenario: sc, Attempts: attempts, Procs: procs})
	if err != nil {
		return nil, err.Error()
	}
	cancel := make(chan struct{})
	tm := time.AfterFunc(limit, func() { close(cancel) })
	defer tm.Stop()
	o := waitWorker(pr, cancel)
	return o.fail, o.err
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	var r Replay
	if err = json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	p := Props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "ERROR unknown property", r.Property)
		return 2
	}
	for _, procs := range []int{1, 2, 4, 8} {
		f, e := attempt(p, r.Scenario, 50, procs, 120*time.Second)
		if f != nil {
			fmt.Println(f.Msg)
			for _, ln := range f.Log {
				fmt.Println("  ", ln)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			return 1
		}
		if e != "" {
			fmt.Fprintln(os.Stderr, "ERROR", e)
			return 2
		}
	}
	fmt.Printf("OK property=%s replay held\n", p.ID)
	return 0
}

func writeEvidence(dir string, p *Prop, tier string, seed uint64, evals, distinct int, labels map[string]int, samples []json.RawMessage, wall float64, nviol, planned int) {
	os.MkdirAll(dir, 0o755)
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"planned":             planned,
		"classes":             labels,
	}
	if p.Exhaustive {
		cov["exhaustive"] = true
	}
	for k, v := range p.Extra {
		cov[k] = v
	}
	if samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      wall,
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// runKnown runs the scenarios of the known findings of a property, one line
// each: "finding: property=<id> scenario=<json> match=<text> :: <what fails>".
// It is a violation if one fails in another way than the listed one.
func containsAny(s string, subs []string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func runKnown(p *Prop, path, out string, seed uint64) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0
	}
	code := 0
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		rest, ok := strings.CutPrefix(ln, "finding: property="+p.ID+" scenario=")
		if !ok {
			continue
		}
		rest, what, _ := strings.Cut(rest, " :: ")
		sc, match, _ := strings.Cut(rest, " match=")
		f, errText := attempt(p, json.RawMessage(sc), 3, 1, 100*time.Second)
		switch {
		case f == nil && errText == "":
			fmt.Printf("note: property=%s the listed finding no longer fails: %s\n", p.ID, what)
		case f != nil && containsAny(f.Msg, strings.Split(match, "||")):
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
		case f != nil:
			f.Scenario = json.RawMessage(sc)
			path := writeReplay(out, p, seed, f, f, "known finding fails differently")
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.ID, path, firstLines(f.Msg, 12))
			code = 1
		default:
			fmt.Printf("note: property=%s the listed finding could not be run: %s\n", p.ID, errText)
		}
	}
	return code
}
