package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagRepo     = flag.String("repo", "/repo", "repository under test")
	flagHarness  = flag.String("harness", "/verif/harness", "harness directory")
	flagVerif    = flag.String("verif", "/verif", "verification root")
	flagProp     = flag.String("prop", "", "property id")
	flagOnly     = flag.String("only", "", "run only the harnesses with this substring")
	flagTier     = flag.String("tier", "quick", "quick or thorough")
	flagTime     = flag.Int("time", 60, "time limit per property, seconds")
	flagWorkers  = flag.Int("workers", runtime.NumCPU(), "workers")
	flagBudget   = flag.Int("budget", 60000000, "instruction budget per path")
	flagTimeout  = flag.Int("smt-timeout", 10000, "solver timeout per query, ms")
	flagDebug    = flag.Bool("debug", false, "trace")
	flagNoReplay = flag.Bool("noreplay", false, "do not replay counterexamples natively")
	flagMaxCex   = flag.Int("maxcex", 12, "counterexamples to examine")
	flagSeed     = flag.Int("seed", 1, "seed")
	flagProfile  = flag.String("cpuprofile", "", "")
	flagVerbose  = flag.Bool("v", false, "print every path outcome")
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

var sharedPkgs = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`unicode unicode/utf8 unicode/utf16 strconv math math/bits strings bytes io errors sort slices maps
		path path/filepath io/fs internal/oserror internal/bytealg internal/stringslite bufio encoding/csv internal/strconv
		internal/filepathlite internal/itoa internal/cpu cmp iter`) {
		sharedPkgs[p] = true
	}
}

func sharedPkg(p string) bool { return sharedPkgs[p] }
func pathPkg(p string) bool {
	return p == "sergev.org/blang" || p == "main" || strings.HasPrefix(p, "github.com/llir/") || strings.HasPrefix(p, "github.com/mewmew/") ||
		strings.HasPrefix(p, "github.com/spf13/") || p == "flag"
}
func okGlobal(g *ssa.Global) bool {
	if g.Pkg.Pkg.Path() == "os" {
		switch g.Name() {
		case "Args", "Stdin", "Stdout", "Stderr", "ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid":
			return true
		}
	}
	return false
}

func (m *Machine) initAllowed(p *ssa.Package) bool {
	if m.booting {
		return sharedPkg(p.Pkg.Path())
	}
	return pathPkg(p.Pkg.Path())
}

func newMachine(P *Program) *Machine {
	return &Machine{P: P, ts: newTerms(), known: map[*Term]bool{}, budget: *flagBudget, maxDepth: 30000, concLimit: 300}
}

func load() *Program {
	overlay := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(*flagHarness, "*.go"))
	for _, f := range files {
		b := filepath.Base(f)
		if b == "rt_native.go" {
			continue
		}
		data, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		overlay[filepath.Join(*flagRepo, "zz_verif_"+b)] = data
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: *flagRepo, Overlay: overlay}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		fatal("load: %v", err)
	}
	if len(ps) != 1 {
		fatal("expected one package, got %d", len(ps))
	}
	bad := false
	for _, e := range ps[0].Errors {
		fmt.Fprintln(os.Stderr, e)
		bad = true
	}
	if bad {
		fatal("package does not type-check")
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, mainPkg: sp[0], globIdx: map[*ssa.Global]int32{}}
	// boot the shared packages
	m := newMachine(P)
	m.booting = true
	m.budget = 1 << 40
	m.solver = &Solver{}
	P.shared = m
	// dependencies first; the calls between package initialisers are skipped while booting
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if pk := prog.Package(p); pk != nil && sharedPkg(p.Path()) {
			order = append(order, pk)
		}
	}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, pk := range all {
		visit(pk.Pkg)
	}
	for _, pk := range order {
		m.bootPkg(pk)
	}
	return P
}

// bootPkg runs the initialiser of a shared package; variables left unset by a failing initialiser cannot be read later.
func (m *Machine) bootPkg(pk *ssa.Package) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if pe, ok := r.(pathEnd); !ok || *flagDebug {
			fmt.Fprintf(os.Stderr, "boot %s: %v %v\n", pk.Pkg.Path(), r, pe.msg)
		}
		for _, mem := range pk.Members {
			if g, ok := mem.(*ssa.Global); ok {
				gi := m.P.globs[m.P.globIndex(g)]
				if reflect.DeepEqual(*gi.cell, gi.zero()) {
					gi.shared, gi.ok = false, false
				}
			}
		}
	}()
	m.call(nil, m.P.cfnOf(pk.Func("init")), nil, nil)
}

func (m *Machine) setGlobal(pkg, name string, v Value) {
	p := m.P.prog.ImportedPackage(pkg)
	if p == nil {
		return
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return
	}
	*m.global(m.P.globIndex(g)) = v
}

func (m *Machine) prepare() {
	m.setGlobal("os", "Args", Value{p: []Value{strVal("blang")}})
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		c := new(Value)
		c.p = &Agg{make([]Value, 1)}
		m.setGlobal("os", n, Value{p: c})
	}
	for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid"} {
		p := m.P.prog.ImportedPackage("io/fs")
		if p != nil {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				m.setGlobal("os", n, *m.global(m.P.globIndex(g)))
			}
		}
	}
	m.call(nil, m.P.cfnOf(m.P.mainPkg.Func("init")), nil, nil)
}

type task struct {
	h      *harness
	prefix []decision
}

type harness struct {
	name string
	fn   *ssa.Function
	mu   sync.Mutex
	st   stats
}

type stats struct {
	Paths, OK, Assume, Unsupported, Budget, Conc, Cex, Unknown, Infeasible int
	Asserts, AssertsZ3, AssertsConst                                       int
	UnknownAsserts, UnknownBranches, DomQueries, Choices                   int
	Steps                                                                  int64
	Reached                                                                map[string]int
	Samples                                                                []map[string]string
	UnsupMsgs                                                              map[string]int
	Unexplored                                                             int
	pcNonEmpty                                                             int
}

type finding struct {
	H      string            `json:"harness"`
	Msg    string            `json:"message"`
	Kind   string            `json:"kind"`
	Inputs []replayInput     `json:"inputs"`
	Notes  map[string]string `json:"notes"`
	Status string            `json:"status"`
	Output string            `json:"output,omitempty"`
	Prop   string            `json:"property"`
}

type replayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

type runner struct {
	P        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	busy     int
	stop     bool
	deadline time.Time
	finds    []finding
	seenMsg  map[string]int
	smtTime  time.Duration
	smtQ     [4]int
}

func (r *runner) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	m := newMachine(r.P)
	m.solver = NewSolver(*flagTimeout)
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.busy > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.queue) == 0 {
			r.mu.Unlock()
			break
		}
		if time.Now().After(r.deadline) {
			r.stop = true
			r.cond.Broadcast()
			r.mu.Unlock()
			break
		}
		t := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.busy++
		r.mu.Unlock()
		// depth first locally until others are hungry
		local := []task{t}
		for len(local) > 0 {
			t := local[len(local)-1]
			local = local[:len(local)-1]
			for _, p := range r.runPath(m, t) {
				local = append(local, task{t.h, p})
			}
			if len(local) > 1 || time.Now().After(r.deadline) {
				r.mu.Lock()
				if time.Now().After(r.deadline) || r.stop {
					r.queue = append(r.queue, local...)
					local = nil
				} else if len(r.queue) < *flagWorkers {
					// share the oldest half
					k := (len(local) + 1) / 2
					r.queue = append(r.queue, local[:k]...)
					local = append([]task(nil), local[k:]...)
					r.cond.Broadcast()
				}
				r.mu.Unlock()
			}
		}
		r.mu.Lock()
		r.busy--
		r.cond.Broadcast()
		r.mu.Unlock()
	}
	r.mu.Lock()
	r.smtTime += m.solver.Time
	r.smtQ[0] += m.solver.Queries
	r.smtQ[1] += m.solver.Sat
	r.smtQ[2] += m.solver.Unsat
	r.smtQ[3] += m.solver.Unknown
	r.mu.Unlock()
	m.solver.Close()
}

func (r *runner) runPath(m *Machine, t task) [][]decision {
	m.reset(t.prefix)
	kind, msg := "ok", ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case pathEnd:
					kind, msg = e.kind, e.msg
				case targetPanic:
					kind, msg = "panic", m.panicText(e.v)
				case exitPanic:
					kind, msg = "panic", fmt.Sprintf("os.Exit(%d)", e.code)
				default:
					if os.Getenv("GOSYM_STACK") != "" {
						debug.PrintStack()
					}
					kind, msg = "unsupported", fmt.Sprintf("engine: %v", x)
				}
			}
		}()
		m.prepare()
		m.call(nil, m.P.cfnOf(t.h.fn), nil, nil)
		m.flush()
	}()
	if kind == "panic" || kind == "budget" {
		k := "panic"
		if kind == "budget" {
			k = "hang"
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					e := x.(pathEnd)
					kind = e.kind
				}
			}()
			m.fail(k+": "+msg, k)
		}()
	}
	st := &t.h.st
	t.h.mu.Lock()
	st.Paths++
	switch kind {
	case "ok":
		st.OK++
	case "assume":
		st.Assume++
	case "cex":
		st.Cex++
	case "unknown":
		st.Unknown++
	case "conclimit":
		st.Conc++
	case "infeasible":
		st.Infeasible++
	default:
		st.Unsupported++
		if st.UnsupMsgs == nil {
			st.UnsupMsgs = map[string]int{}
		}
		st.UnsupMsgs[msg]++
	}
	if kind == "ok" || kind == "cex" {
		if st.Reached == nil {
			st.Reached = map[string]int{}
		}
		for k := range m.reached {
			st.Reached[k]++
		}
		if len(m.pc) > 0 {
			st.pcNonEmpty++
		}
	}
	st.Asserts += m.asserts
	st.AssertsZ3 += m.assertsZ3
	st.AssertsConst += m.assertsConst
	st.UnknownAsserts += m.unknownAsserts
	st.UnknownBranches += m.unknownBranches
	st.DomQueries += m.domQueries
	st.Choices += m.choices
	st.Steps += int64(m.steps)
	wantSample := kind == "ok" && (len(st.Samples) < 2 || (len(st.Samples) < 4 && st.Paths%97 == 0))
	t.h.mu.Unlock()
	if wantSample {
		mod, res := m.model(nil)
		if res == "sat" {
			s := m.noteText(mod)
			s["inputs"] = m.inputText(mod)
			t.h.mu.Lock()
			st.Samples = append(st.Samples, s)
			t.h.mu.Unlock()
		}
	}
	if *flagVerbose {
		mod, _ := m.model(nil)
		fmt.Printf("path %s %s %s %v steps=%d\n", t.h.name, kind, msg, m.noteText(mod), m.steps)
	}
	if m.fatalCex != nil {
		f := finding{H: t.h.name, Msg: m.fatalCex.msg, Kind: m.fatalCex.kind, Notes: m.noteText(m.fatalCex.model), Prop: *flagProp}
		mod := m.fatalCex.model
		for _, in := range m.ins {
			ri := replayInput{Name: in.name, Kind: in.kind}
			if in.v == nil {
				ri.Val = int64(in.c)
			} else if in.v.idx < len(mod) {
				ri.Val = int64(mod[in.v.idx])
			}
			f.Inputs = append(f.Inputs, ri)
		}
		r.mu.Lock()
		key := t.h.name + "|" + f.Msg
		r.seenMsg[key]++
		if r.seenMsg[key] <= 3 && len(r.finds) < 400 {
			r.finds = append(r.finds, f)
		}
		if len(r.finds) >= 60 {
			r.stop = true
		}
		r.mu.Unlock()
	}
	return m.forks
}

func (m *Machine) panicText(v Value) (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	i, _ := v.p.(*Iface)
	b := m.fmtArg(nil, i, 'v', "", 0)
	out := make([]byte, 0, len(b))
	for _, x := range b {
		if x.p != nil {
			out = append(out, '?')
		} else {
			out = append(out, byte(x.n))
		}
	}
	return string(out)
}

func (m *Machine) noteText(mod []uint64) map[string]string {
	out := map[string]string{}
	for _, n := range m.notes {
		b := strBytes(n.v)
		txt := make([]byte, len(b))
		for i, x := range b {
			if t, ok := x.p.(*Term); ok {
				m.ts.evalStart()
				txt[i] = byte(m.ts.eval(t, func(i int) uint64 {
					if i < len(mod) {
						return mod[i]
					}
					return 0
				}))
			} else {
				txt[i] = byte(x.n)
			}
		}
		s := fmt.Sprintf("%q", txt)
		out[n.k] = s[1 : len(s)-1]
	}
	return out
}

func (m *Machine) inputText(mod []uint64) string {
	var sb strings.Builder
	for i, in := range m.ins {
		if i > 0 {
			sb.WriteString(" ")
		}
		if i > 40 {
			sb.WriteString("...")
			break
		}
		if in.v == nil {
			fmt.Fprintf(&sb, "%s=%d", in.name, in.c)
		} else if in.v.idx < len(mod) {
			fmt.Fprintf(&sb, "%s=%d", in.name, int64(mod[in.v.idx]))
		}
	}
	return sb.String()
}

func main() {
	flag.Parse()
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	start := time.Now()
	if *flagProfile != "" {
		stopProf := startProfile(*flagProfile)
		defer stopProf()
	}
	P := load()
	loadT := time.Since(start)
	var hs []*harness
	pre := "zvH_" + *flagProp + "_"
	for name, mem := range P.mainPkg.Members {
		if fn, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, pre) && strings.Contains(name, *flagOnly) {
			if strings.Contains(name, "_T_") && *flagTier != "thorough" {
				continue
			}
			hs = append(hs, &harness{name: name, fn: fn})
		}
	}
	if len(hs) == 0 {
		fatal("no harness for %s", *flagProp)
	}
	sort.Slice(hs, func(i, j int) bool {
		a, b := strings.Contains(hs[i].name, "_T_"), strings.Contains(hs[j].name, "_T_")
		if a != b {
			return b
		}
		return hs[i].name < hs[j].name
	})
	r := &runner{P: P, deadline: time.Now().Add(time.Duration(*flagTime) * time.Second), seenMsg: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	for i := len(hs) - 1; i >= 0; i-- {
		r.queue = append(r.queue, task{hs[i], nil})
	}
	var wg sync.WaitGroup
	for i := 0; i < *flagWorkers; i++ {
		wg.Add(1)
		go r.worker(&wg)
	}
	wg.Wait()
	for _, t := range r.queue {
		t.h.st.Unexplored++
	}
	exploreT := time.Since(start)
	os.Exit(report(r, hs, start, loadT, exploreT))
}

var _ = types.Typ
var _ = exec.Command
var _ = json.Marshal
