package props

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/pbt"
)

// ---- G01: generated code. A case is a Go program: packages with types,
// services using them, the generator run on them, and a main which serves them
// and calls every method through the generated client.

type g01Type struct {
	Pkg  int
	Kind int // JSON struct, marshaler by pointer, marshaler by value, named types
	Bits int // fields
}

type g01Method struct {
	Name int
	In   int // <0: a predeclared type
	Out  int
}

type g01Svc struct {
	NS      int
	Methods []g01Method
	ByValue bool
}

type g01Gen struct {
	Service int
	Default bool // default commands
	Cmd     int
	Main    bool
	Svcs    []g01Svc
	Calls   int
	Bad     int
}

type g01 struct {
	Pkgs  []int
	Types []g01Type
	Gens  []g01Gen
	Seed  uint32
}

var (
	g01Pkgs = []string{"alpha", "types", "x/types", "y/types", "beta", "ctx", "s", "m", "ns", "ss", "input", "output", "err", "inBytes",
		"outBytes", "c", "cc", "mux", "json", "encoding/json", "context", "qrpc", "codegen", "fmt", "ssInterface", "go-dash", "v2", "len", "addrs", "conf", "callback", "z/func"}
	g01Names    = []string{"Get", "Set", "Foo", "Bar", "A", "Request", "Client", "Close", "Mux", "Register", "String", "Marshal", "Callback", "RegisterSub", "Foo2"}
	g01NSs      = []string{"sub", "user_info", "X", "Order2", "_hidden", "a_b", "Service", "client", "ServiceMux", "s"}
	g01Services = []string{"foo", "My", "my_svc", "Bar2", "_hid", "a", "RPC", "s", "type", "Foo_1"}
	g01Basics   = []string{"string", "int", "bool", "float64", "uint8", "int64", "uint32"}
)

func genG01(r *pbt.R) any {
	s := &g01{Seed: uint32(r.U64())}
	for i, n := 0, r.Range(1, 6); i < n; i++ {
		s.Pkgs = append(s.Pkgs, r.Intn(len(g01Pkgs)))
	}
	for i, n := 0, r.Range(1, 10); i < n; i++ {
		s.Types = append(s.Types, g01Type{Pkg: r.Intn(6), Kind: r.W(4, 3, 2, 2), Bits: r.Intn(256)})
	}
	marsh := r.P(1, 3)
	if marsh {
		for i := range s.Types {
			s.Types[i].Kind = 1 + i%2
		}
	}
	for i, n := 0, r.Range(2, 6); i < n; i++ {
		g := g01Gen{Service: r.Intn(len(g01Services)), Default: r.P(1, 2), Cmd: r.Intn(1 << 20), Main: r.P(3, 4), Calls: r.Range(1, 4), Bad: r.Intn(3)}
		k := r.Range(0, 3)
		if !g.Main && k == 0 || r.P(1, 6) {
			k = 1
		}
		for j := 0; j <= k; j++ {
			sv := g01Svc{NS: r.Intn(len(g01NSs)), ByValue: r.P(1, 2)}
			for m, mm := 0, r.Range(1, 5); m < mm; m++ {
				me := g01Method{Name: r.Intn(len(g01Names)), In: r.Intn(10), Out: r.Intn(10)}
				if r.P(1, 6) && !marsh {
					me.In = -1 - r.Intn(len(g01Basics))
				}
				sv.Methods = append(sv.Methods, me)
			}
			g.Svcs = append(g.Svcs, sv)
		}
		s.Gens = append(s.Gens, g)
	}
	return s
}

// camel is what the generator documents as its naming: words joined, capital first
func camel(s string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '_' && i == 0 {
			b.WriteByte('X')
			continue
		}
		if ch == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z' {
			up = true
			continue
		}
		if up && ch >= 'a' && ch <= 'z' {
			ch -= 32
		}
		up = ch >= '0' && ch <= '9' || ch == '_'
		b.WriteByte(ch)
	}
	return b.String()
}

type g01prog struct {
	s    *g01
	pkgs []string // directories
}

func (p *g01prog) typ(i int) (t g01Type, pkg int, name string) {
	i = modn(i, len(p.s.Types))
	t = p.s.Types[i]
	pkg = modn(t.Pkg, len(p.pkgs))
	// the same names in different packages
	n := 0
	for j := 0; j < i; j++ {
		if modn(p.s.Types[j].Pkg, len(p.pkgs)) == pkg {
			n++
		}
	}
	return t, pkg, fmt.Sprintf("T%d", n)
}

var notIdent = regexp.MustCompile(`[^A-Za-z0-9_]`)

const g01Common = `
func (t *%[1]s) SetError(err error) { t.Err = err.Error() }
func (t %[1]s) TheError() string { return t.Err }
`

func (p *g01prog) typesFile(pkg int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package p_%s\n\nimport (\n\"encoding/json\"\n\"errors\"\n\"gtest/zz\"\n)\n\nvar _ = json.Marshal\nvar _ = errors.New\nvar _ zz.Rand\n\ntype Sub struct { N int; S string }\n", notIdent.ReplaceAllString(p.pkgs[pkg], "_"))
	for i := range p.s.Types {
		t, k, name := p.typ(i)
		if k != pkg {
			continue
		}
		switch t.Kind {
		default:
			fields := []string{"A int64", "B string", "C []byte", "D map[string]int", "E *Sub", "F []Sub", "G float64 `json:\"gg,omitempty\"`", "H bool"}
			fill := []string{"t.A = int64(r.U64())", "t.B = r.Text()", "t.C = r.Bytes()", "t.D = map[string]int{r.Text(): int(r.N(9)), \"k\": 1}", "t.E = &Sub{int(r.N(100)), r.Text()}", "t.F = []Sub{{1, r.Text()}, {2, \"\"}}", "t.G = float64(r.N(1000)) / 8", "t.H = r.N(2) == 1"}
			fmt.Fprintf(&b, "type %s struct {\nErr string `json:\",omitempty\"`\n", name)
			for j, f := range fields {
				if t.Bits>>j&1 == 1 {
					fmt.Fprintln(&b, f)
				}
			}
			fmt.Fprintf(&b, "Z string\n}\nfunc (t *%s) Fill(r *zz.Rand) {\n", name)
			for j, f := range fill {
				if t.Bits>>j&1 == 1 {
					fmt.Fprintln(&b, f)
				}
			}
			fmt.Fprintf(&b, "t.Z = r.Text()\n}\nfunc (t *%[1]s) Bad(k int) bool { return false }\nfunc (t %[1]s) Key() string { b, _ := json.Marshal(t); return string(b) }\n", name)
			fmt.Fprintf(&b, g01Common, name)
		case 1, 2:
			star := "*"
			if t.Kind == 2 {
				star = ""
			}
			fmt.Fprintf(&b, `type %[1]s struct { Err string; hidden string; data []byte; bad int }
func (t %[2]s%[1]s) Marshal() ([]byte, error) {
	if t.bad == 1 { return nil, errors.New("cannot marshal") }
	out := []byte{0xee, byte(t.bad), byte(len(t.Err)), byte(len(t.hidden))}
	out = append(append(append(out, t.Err...), t.hidden...), t.data...)
	return out, nil
}
func (t *%[1]s) Unmarshal(b []byte) error {
	if len(b) < 4 || b[0] != 0xee { return errors.New("not marshalled by Marshal") }
	if b[1] == 2 { return errors.New("cannot unmarshal") }
	t.bad = int(b[1])
	t.Err = string(b[4:4+int(b[2])])
	t.hidden = string(b[4+int(b[2]):4+int(b[2])+int(b[3])])
	t.data = append([]byte{}, b[4+int(b[2])+int(b[3]):]...)
	return nil
}
func (t *%[1]s) Fill(r *zz.Rand) { t.hidden, t.data = r.Text(), r.Bytes() }
func (t *%[1]s) Bad(k int) bool { t.bad = k; return true }
`, name, star)
			fmt.Fprintf(&b, g01Common, name)
		case 3:
			switch t.Bits % 3 {
			case 0:
				fmt.Fprintf(&b, "type %[1]s string\nfunc (t *%[1]s) Fill(r *zz.Rand) { *t = %[1]s(r.Text()) }\nfunc (t *%[1]s) SetError(err error) { *t = %[1]s(err.Error()) }\nfunc (t %[1]s) TheError() string { return string(t) }\n", name)
			case 1:
				fmt.Fprintf(&b, "type %[1]s []string\nfunc (t *%[1]s) Fill(r *zz.Rand) { *t = %[1]s{r.Text(), r.Text()} }\nfunc (t *%[1]s) SetError(err error) { *t = %[1]s{err.Error()} }\nfunc (t %[1]s) TheError() string { if len(t) == 0 { return \"\" }; return t[0] }\n", name)
			case 2:
				fmt.Fprintf(&b, "type %[1]s map[string]Sub\nfunc (t *%[1]s) Fill(r *zz.Rand) { *t = %[1]s{r.Text(): {3, r.Text()}} }\nfunc (t *%[1]s) SetError(err error) { *t = %[1]s{err.Error(): {}} }\nfunc (t %[1]s) TheError() string { for k := range t { return k }; return \"\" }\n", name)
			}
			fmt.Fprintf(&b, "func (t *%s) Bad(k int) bool { return false }\n", name)
		}
	}
	return b.String()
}

const g01ZZ = `package zz

import (
	"fmt"
	"sync"
)

func Key(v interface{}) string {
	if k, ok := v.(interface{ Key() string }); ok {
		return k.Key()
	}
	return fmt.Sprintf("%v", v)
}

type Rand struct{ x uint64 }

func New(seed uint64) *Rand { return &Rand{seed*2862933555777941757 + 3037000493} }
func (r *Rand) U64() uint64 {
	r.x ^= r.x << 13
	r.x ^= r.x >> 7
	r.x ^= r.x << 17
	return r.x
}
func (r *Rand) N(n int) uint64 { return r.U64() >> 11 % uint64(n) }
func (r *Rand) Text() string {
	all := []rune("abc \"\\/<>&:\n\x00é世\U0001F600")
	out := []rune{}
	for i := int(r.U64() >> 20 % 9); i > 0; i-- {
		out = append(out, all[int(r.U64()>>20%uint64(len(all)))])
	}
	return string(out)
}
func (r *Rand) Bytes() []byte {
	out := []byte{}
	for i := int(r.U64() >> 20 % 200); i > 0; i-- {
		out = append(out, byte(r.U64()>>30))
	}
	return out
}

var (
	mu    sync.Mutex
	Calls []Call
)

type Call struct {
	Name string
	In   interface{}
}

func Called(name string, in interface{}) {
	mu.Lock()
	Calls = append(Calls, Call{name, in})
	mu.Unlock()
}

func Take() []Call {
	mu.Lock()
	defer mu.Unlock()
	c := Calls
	Calls = nil
	return c
}

func Hash(s string) (h uint64) {
	h = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return
}
`

type g01svc struct {
	ns      string
	impl    string
	byValue bool
	methods []g01me
}

type g01me struct {
	name, in, out string
	inT           int // type index, -1: predeclared
	outT          int
}

// services resolves names, with the ones that cannot go together left out
func (p *g01prog) services(gi int) (out []g01svc) {
	g := p.s.Gens[gi]
	seen := map[string]bool{}
	mains := map[string]bool{}
	for si, sv := range g.Svcs {
		ns := ""
		if !(si == 0 && g.Main) {
			ns = g01NSs[modn(sv.NS, len(g01NSs))]
		}
		if seen[camel(ns)] {
			continue
		}
		seen[camel(ns)] = true
		x := g01svc{ns: ns, impl: fmt.Sprintf("G%dS%d", gi, si), byValue: sv.ByValue}
		names := map[string]bool{}
		for _, m := range sv.Methods {
			name := g01Names[modn(m.Name, len(g01Names))]
			if names[name] || len(p.s.Types) == 0 {
				continue
			}
			names[name] = true
			if ns == "" {
				mains[name] = true
			}
			me := g01me{name: name}
			if m.In < 0 {
				me.in, me.inT = g01Basics[modn(-m.In, len(g01Basics))], -1
			} else {
				_, k, tn := p.typ(m.In)
				me.in, me.inT = fmt.Sprintf("p%d.%s", k, tn), modn(m.In, len(p.s.Types))
			}
			_, k, tn := p.typ(m.Out)
			me.out, me.outT = fmt.Sprintf("p%d.%s", k, tn), modn(m.Out, len(p.s.Types))
			x.methods = append(x.methods, me)
		}
		if len(x.methods) > 0 && !mains[camel(ns)+"Client"] {
			out = append(out, x)
		}
	}
	return
}

func (p *g01prog) imports(b *strings.Builder) {
	for i, d := range p.pkgs {
		fmt.Fprintf(b, "p%d \"gtest/t/%s\"\n", i, d)
	}
}

func (p *g01prog) useImports(b *strings.Builder) {
	for i := range p.pkgs {
		fmt.Fprintf(b, "var _ p%d.Sub\n", i)
	}
}

func (p *g01prog) implFile() string {
	var b strings.Builder
	b.WriteString("package impl\n\nimport (\n\"context\"\n\"fmt\"\n\"gtest/zz\"\n")
	p.imports(&b)
	b.WriteString(")\n\nvar _ = fmt.Sprint\nvar _ context.Context\n")
	p.useImports(&b)
	for gi := range p.s.Gens {
		for _, sv := range p.services(gi) {
			star := "*"
			if sv.byValue {
				star = ""
			}
			fmt.Fprintf(&b, "type %s struct{ X int }\n", sv.impl)
			for _, m := range sv.methods {
				fmt.Fprintf(&b, "func (s %s%s) %s(ctx context.Context, in %s) %s {\nzz.Called(%q, in)\nreturn %s_%s(in)\n}\n", star, sv.impl, m.name, m.in, m.out, sv.impl+"."+m.name, sv.impl, m.name)
				fmt.Fprintf(&b, "func %s_%s(in %s) (out %s) {\n(&out).Fill(zz.New(zz.Hash(zz.Key(in) + \"%s\")))\nreturn\n}\n", sv.impl, m.name, m.in, m.out, sv.impl+m.name)
			}
		}
	}
	return b.String()
}

func (p *g01prog) cmds(gi int) (cmd, errCmd int) {
	g := p.s.Gens[gi]
	if g.Default {
		return 10000, 10001
	}
	return g.Cmd & 0xfffff, g.Cmd&0xfffff + 1
}

func (p *g01prog) genFile() string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\"os\"\n\"gtest/impl\"\n\"github.com/zhiqiangxu/qrpc/codegen\"\n)\n\nvar _ impl.Any\n\nfunc chdir(d string) { if err := os.Chdir(d); err != nil { panic(err) } }\n\nfunc main() {\nvar g *codegen.Generator\n_ = g\n")
	for gi, g := range p.s.Gens {
		svs := p.services(gi)
		if len(svs) == 0 {
			continue
		}
		name := g01Services[modn(g.Service, len(g01Services))]
		fmt.Fprintf(&b, "chdir(os.Args[1] + \"/g%d\")\n", gi)
		if cmd, errCmd := p.cmds(gi); g.Default {
			fmt.Fprintf(&b, "g = codegen.New(%q)\n", name)
		} else {
			fmt.Fprintf(&b, "g = codegen.NewWithCmd(%q, %d, %d)\n", name, cmd, errCmd)
		}
		for _, sv := range svs {
			v := "&impl." + sv.impl + "{}"
			if sv.byValue {
				v = "impl." + sv.impl + "{}"
			}
			if sv.ns == "" {
				fmt.Fprintf(&b, "g.Register(%s)\n", v)
			} else {
				fmt.Fprintf(&b, "g.RegisterSub(%q, %s)\n", sv.ns, v)
			}
		}
		b.WriteString("g.Generate()\ng.Output()\n")
	}
	b.WriteString("}\n")
	return b.String()
}

const g01Run = `
var _ = reflect.DeepEqual
var _ impl.Any
var fails int

func fail(format string, args ...interface{}) {
	if fails++; fails < 5 {
		fmt.Printf("FAIL "+format+"\n", args...)
	}
}

func short(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 150 { s = s[:150] + "..." }
	return s
}

func check(name string, in, out, want interface{}) {
	calls := zz.Take()
	if len(calls) != 1 {
		fail("%s: %d handler calls %v, result %s", name, len(calls), calls, short(out))
		return
	}
	if calls[0].Name != name { fail("%s: called %s", name, calls[0].Name) }
	if !reflect.DeepEqual(calls[0].In, in) { fail("%s: input %s, received %s", name, short(in), short(calls[0].In)) }
	if !reflect.DeepEqual(out, want) { fail("%s: output %s, received %s", name, short(want), short(out)) }
}

func bad(name string, got, want string, calls int) {
	n := len(zz.Take())
	if got != want { fail("%s: error %q instead of %q", name, got, want) }
	if n != calls { fail("%s: the handler ran %d times although the call failed", name, n) }
}

func serve(mux *qrpc.ServeMux) (string, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { fmt.Println("HARNESS", err); os.Exit(3) }
	srv := qrpc.NewServer([]qrpc.ServerBinding{{Addr: l.Addr().String(), Handler: mux, ListenFunc: func(string, string) (net.Listener, error) { return l, nil }}})
	if err := srv.ListenAll(); err != nil { fmt.Println("HARNESS", err); os.Exit(3) }
	go srv.ServeAll()
	return l.Addr().String(), func() { go srv.Shutdown() }
}
`

func (p *g01prog) runFile() (string, int) {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\"context\"\n\"fmt\"\n\"net\"\n\"os\"\n\"reflect\"\n\"time\"\n\"gtest/impl\"\n\"gtest/zz\"\n\"github.com/zhiqiangxu/qrpc\"\n")
	p.imports(&b)
	n := 0
	for gi := range p.s.Gens {
		if len(p.services(gi)) > 0 {
			fmt.Fprintf(&b, "g%d \"gtest/g%d\"\n", gi, gi)
		}
	}
	b.WriteString(")\n")
	p.useImports(&b)
	b.WriteString(g01Run)
	b.WriteString("func main() {\nctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)\ndefer cancel()\n_ = ctx\n")
	for gi, g := range p.s.Gens {
		svs := p.services(gi)
		if len(svs) == 0 {
			continue
		}
		svc := camel(g01Services[modn(g.Service, len(g01Services))])
		cmd, errCmd := p.cmds(gi)
		fmt.Fprintf(&b, "{\nmux := g%d.New%sServiceMux()\n", gi, svc)
		for _, sv := range svs {
			if sv.ns == "" {
				fmt.Fprintf(&b, "mux.Register(&impl.%s{})\n", sv.impl)
			} else {
				fmt.Fprintf(&b, "mux.RegisterSub(%q, &impl.%s{})\n", camel(sv.ns), sv.impl)
			}
		}
		fmt.Fprintf(&b, "addr, stop := serve(mux.Mux())\nif mux.Mux() != mux.Mux() { fail(\"another mux\") }\nvar cl g%d.%sClient = g%d.New%sClient([]string{addr}, qrpc.ConnectionConfig{})\n", gi, svc, gi, svc)
		for k := 0; k < clamp(g.Calls, 1, 6); k++ {
			for si, sv := range svs {
				call := "cl"
				if sv.ns != "" {
					call = "cl." + camel(sv.ns) + "Client()"
				}
				for mi, m := range sv.methods {
					n++
					fmt.Fprintf(&b, "{\nvar in %s\nr := zz.New(%d)\n_ = r\n", m.in, uint64(p.s.Seed)+uint64(k*1000+si*100+mi)+1)
					if m.inT >= 0 {
						b.WriteString("(&in).Fill(r)\n")
					} else {
						switch m.in {
						case "string":
							b.WriteString("in = r.Text()\n")
						case "bool":
							b.WriteString("in = r.N(2) == 0\n")
						default:
							fmt.Fprintf(&b, "in = %s(r.N(250))\n", m.in)
						}
					}
					fmt.Fprintf(&b, "out := %s.%s(ctx, in)\ncheck(%q, in, out, impl.%s_%s(in))\n}\n", call, m.name, sv.impl+"."+m.name, sv.impl, m.name)
				}
			}
		}
		// failures come last: the server closes the connection
		if bk := modn(g.Bad, 4); bk > 0 {
			sv := svs[modn(g.Cmd, len(svs))]
			call := "cl"
			if sv.ns != "" {
				call = "cl." + camel(sv.ns) + "Client()"
			}
			m := sv.methods[modn(g.Cmd, len(sv.methods))]
			kind := -1
			if m.inT >= 0 {
				kind = p.s.Types[m.inT].Kind
			}
			switch {
			case bk < 3 && (kind == 1 || kind == 2):
				n++
				want := []string{"", "cannot marshal", "cannot unmarshal"}[bk]
				fmt.Fprintf(&b, "{\nvar in %s\nin.Bad(%d)\nout := %s.%s(ctx, in)\nbad(%q, out.TheError(), %q, 0)\n}\n", m.in, bk, call, m.name, sv.impl+"."+m.name, want)
			case bk == 3:
				n++
				fmt.Fprintf(&b, "{\nvar in %s\nctx2, cancel2 := context.WithCancel(ctx)\ncancel2()\nout := %s.%s(ctx2, in)\nif e := out.TheError(); e != \"context canceled\" && e != impl.%s_%s(in).TheError() { fail(\"%s: cancelled call ended with %%q\", e) }\n}\n", m.in, call, m.name, sv.impl, m.name, sv.impl+"."+m.name)
			}
		}
		// and a server of other commands does not know this client
		_ = cmd
		_ = errCmd
		b.WriteString("stop()\nzz.Take()\n}\n")
	}
	b.WriteString("fmt.Println(\"DONE\")\nif fails > 0 { os.Exit(1) }\n}\n")
	return b.String(), n
}

func harnessDir() string {
	if d := os.Getenv("VERIF_HARNESS"); d != "" {
		return d
	}
	return "/verif/harness"
}

// goTool runs the go command in dir
func goTool(c *pbt.C, dir string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOMAXPROCS=2", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		panic("go command takes too long")
	}
	return string(out), err
}

func put(dir, name, text string) {
	f := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// scratchModule makes an empty module which can import /repo
func scratchModule(c *pbt.C) string {
	dir, err := os.MkdirTemp("", "verif-gen.")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { os.RemoveAll(dir) })
	mod, err := os.ReadFile(harnessDir() + "/go.mod")
	if err != nil {
		panic(err)
	}
	sum, err := os.ReadFile(harnessDir() + "/go.sum")
	if err != nil {
		panic(err)
	}
	put(dir, "go.mod", strings.Replace(string(mod), "module verif", "module gtest", 1))
	put(dir, "go.sum", string(sum))
	return dir
}

func firstLines(s string, n int) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, " | ")
}

func runG01(c *pbt.C, sc any) {
	s := sc.(*g01)
	if len(s.Pkgs) == 0 || len(s.Types) == 0 || len(s.Gens) == 0 {
		return
	}
	p := &g01prog{s: s}
	seen := map[string]bool{}
	for _, k := range s.Pkgs {
		d := g01Pkgs[modn(k, len(g01Pkgs))]
		if !seen[d] {
			seen[d] = true
			p.pkgs = append(p.pkgs, d)
		}
	}
	dir := scratchModule(c)
	put(dir, "zz/zz.go", g01ZZ)
	for i, d := range p.pkgs {
		put(dir, "t/"+d+"/types.go", p.typesFile(i))
	}
	put(dir, "impl/impl.go", p.implFile())
	put(dir, "impl/any.go", "package impl\n\ntype Any struct{}\n")
	put(dir, "gen/main.go", p.genFile())
	for gi := range s.Gens {
		if err := os.MkdirAll(fmt.Sprintf("%s/g%d", dir, gi), 0o755); err != nil {
			panic(err)
		}
	}
	run, n := p.runFile()
	put(dir, "run/main.go", run)
	if out, err := goTool(c, dir, "build", "-ldflags=-s -w", "-o", "gen.bin", "./gen"); err != nil {
		panic("the services do not compile: " + firstLines(out, 5))
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	if out, err := exec.CommandContext(ctx, dir+"/gen.bin", dir).CombinedOutput(); err != nil {
		i := strings.LastIndex(string(out), "panic: ")
		if i < 0 {
			i = 0
		}
		c.Fatalf("the generator fails: %s", firstLines(string(out[i:]), 4))
	}
	if out, err := goTool(c, dir, "build", "-ldflags=-s -w", "-o", "run.bin", "./run"); err != nil {
		c.Fatalf("the generated code does not compile: %s", firstLines(out, 6))
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Minute)
	defer cancel2()
	cmd := exec.CommandContext(ctx2, dir+"/run.bin")
	outb, err := cmd.Output()
	out := string(outb)
	if strings.Contains(out, "HARNESS") {
		c.Label("no socket")
		return
	}
	if err != nil || !strings.Contains(out, "DONE") {
		msg := firstLines(out, 4)
		if ee, ok := err.(*exec.ExitError); ok && msg == "" {
			i := max(strings.LastIndex(string(ee.Stderr), "panic: "), 0)
			msg = firstLines(string(ee.Stderr[i:]), 8)
		}
		c.Fatalf("generated services misbehave (%v): %s", err, msg)
	}
	c.Label("calls: %d+", n/10*10)
	for gi, g := range s.Gens {
		svs := p.services(gi)
		if len(svs) > 1 {
			c.Label("sub services")
		}
		_ = g
	}
	if n >= 3 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "G01",
		Title: "generated code",
		Rule:  "generated: Go programs with up to six packages of types (JSON structs, types marshalling themselves by pointer or value receiver, named types; package names equal to keywords of the generated code), services with main and sub services, methods and commands; the generator is run on them, the result compiled, served and every method called through the generated client with random values, then calls which fail to marshal, to unmarshal or are cancelled; oracle: everything compiles, each call runs exactly its own method once with an equal input and returns its output, failed calls report their error without running it. Non-trivial: at least three calls",
		Gen:   genG01, New: func() any { return &g01{} }, Run: runG01,
		NoBubble: true,
		Quick:    pbt.Budget{Cases: 64, MaxSec: 80},
		Thorough: pbt.Budget{Cases: 3000, MaxSec: 900},
	})
}
