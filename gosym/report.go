package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

func startProfile(p string) func() {
	f, err := os.Create(p)
	if err != nil {
		fatal("%v", err)
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}

// encodedFuncs lists the functions of the repository (and of the IR library) that were executed symbolically.
func encodedFuncs(P *Program) (repo []string, lib int, instrs int) {
	P.fns.Range(func(k, v any) bool {
		c := v.(*cfn)
		if atomic.LoadInt32(&c.hit) == 0 || c.fn.Pkg == nil {
			return true
		}
		path := c.fn.Pkg.Pkg.Path()
		pos := P.prog.Fset.Position(c.fn.Pos())
		switch {
		case path == "sergev.org/blang" && !strings.HasPrefix(filepath.Base(pos.Filename), "zz_verif_") && pos.Filename != "":
			repo = append(repo, strings.ReplaceAll(fnName(c.fn), "sergev.org/blang.", ""))
			instrs += c.ninstr
		case strings.HasPrefix(path, "github.com/"):
			lib++
		}
		return true
	})
	sort.Strings(repo)
	return
}

func report(r *runner, hs []*harness, start time.Time, loadT, exploreT time.Duration) int {
	var tot stats
	reached := map[string]int{}
	unsup := map[string]int{}
	var samples []map[string]string
	per := []map[string]any{}
	for _, h := range hs {
		s := &h.st
		tot.Paths += s.Paths
		tot.OK += s.OK
		tot.Assume += s.Assume
		tot.Unsupported += s.Unsupported
		tot.Conc += s.Conc
		tot.Cex += s.Cex
		tot.Unknown += s.Unknown
		tot.Infeasible += s.Infeasible
		tot.Asserts += s.Asserts
		tot.AssertsZ3 += s.AssertsZ3
		tot.AssertsConst += s.AssertsConst
		tot.UnknownAsserts += s.UnknownAsserts
		tot.UnknownBranches += s.UnknownBranches
		tot.DomQueries += s.DomQueries
		tot.Choices += s.Choices
		tot.Steps += s.Steps
		tot.Unexplored += s.Unexplored
		tot.pcNonEmpty += s.pcNonEmpty
		for k, v := range s.Reached {
			reached[h.name+":"+k] += v
		}
		for k, v := range s.UnsupMsgs {
			unsup[k] += v
		}
		samples = append(samples, s.Samples...)
		per = append(per, map[string]any{"harness": h.name, "paths": s.Paths, "completed": s.OK, "excluded_by_assumption": s.Assume,
			"assertions": s.Asserts, "unexplored": s.Unexplored, "undecided": s.Unsupported + s.Unknown + s.Conc, "instructions": s.Steps})
		fmt.Printf("%-34s paths=%d ok=%d assume=%d cex=%d unsup=%d unknown=%d conc=%d left=%d asserts=%d (z3 %d)\n", h.name, s.Paths, s.OK,
			s.Assume, s.Cex, s.Unsupported, s.Unknown, s.Conc, s.Unexplored, s.Asserts, s.AssertsZ3)
	}
	for k, v := range unsup {
		fmt.Printf("  undecided x%d: %s\n", v, k)
	}
	for k, v := range reached {
		if *flagVerbose || *flagDebug {
			fmt.Printf("  reached x%d: %s\n", v, k)
		}
	}
	repo, lib, instrs := encodedFuncs(r.P)
	fmt.Printf("paths=%d solver queries=%d (sat %d unsat %d unknown %d) solver time=%.1fs domain queries=%d instr=%dM load=%.1fs total=%.1fs funcs=%d\n",
		tot.Paths, r.smtQ[0], r.smtQ[1], r.smtQ[2], r.smtQ[3], r.smtTime.Seconds(), tot.DomQueries, tot.Steps/1000000, loadT.Seconds(), exploreT.Seconds(), len(repo))

	// counterexamples: replay natively, then report
	rc := 0
	violations := 0
	known := loadKnown(*flagProp)
	inconclusive := 0
	if len(r.finds) > 0 {
		finds := selectFinds(r.finds)
		if !*flagNoReplay {
			replayAll(r.P, hs, finds)
		}
		shown := map[string]bool{}
		for i := range finds {
			f := &finds[i]
			if *flagNoReplay {
				f.Status = "not replayed"
			}
			if f.Status != "reproduced" {
				inconclusive++
				fmt.Printf("counterexample not confirmed (%s): %s: %s %v %s\n", f.Status, f.H, f.Msg, f.Notes, f.Output)
				if *flagNoReplay {
					rc = 1
				}
				continue
			}
			if k := known.match(f); k != "" {
				if !shown[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, k)
					shown[k] = true
				}
				continue
			}
			violations++
			path := saveReplay(f, violations)
			if violations <= 5 {
				fmt.Printf("  %s: %s %v\n", f.H, f.Msg, f.Notes)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, path)
			}
			rc = 1
		}
		if rc == 0 && inconclusive > 0 {
			fmt.Printf("error: %d counterexamples did not reproduce on the real code; the encoding is at fault\n", inconclusive)
			rc = 2
		}
	}
	// vacuity: every harness must complete at least one path with an assertion
	for _, h := range hs {
		if rc == 0 && h.st.OK == 0 && h.st.Unexplored == 0 {
			fmt.Printf("error: harness %s completed no path (%v)\n", h.name, h.st.UnsupMsgs)
			rc = 2
		}
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	cov := map[string]any{
		"evaluations":                     tot.Paths,
		"distinct_nontrivial":             tot.OK,
		"rule":                            "one evaluation is one path of the symbolic execution (a class of inputs); it is counted as non-trivial when it satisfied all assumptions and ran to the end with every assertion decided",
		"samples":                         samples,
		"exhaustive":                      tot.Unexplored == 0 && tot.Unsupported == 0 && tot.Unknown == 0 && tot.Conc == 0 && tot.UnknownAsserts == 0,
		"functions_encoded":               repo,
		"functions_encoded_count":         len(repo),
		"ssa_instructions_in_functions":   instrs,
		"library_functions_encoded":       lib,
		"assertions":                      tot.Asserts,
		"assertions_sent_to_solver":       tot.AssertsZ3,
		"assertions_decided_by_rewriting": tot.AssertsConst,
		"solver_queries":                  r.smtQ[0],
		"solver_sat":                      r.smtQ[1],
		"solver_unsat":                    r.smtQ[2],
		"solver_unknown":                  r.smtQ[3],
		"solver_seconds":                  round1(r.smtTime.Seconds()),
		"byte_domain_queries":             tot.DomQueries,
		"nondeterministic_choices":        tot.Choices,
		"instructions_interpreted":        tot.Steps,
		"paths_excluded_by_assumption":    tot.Assume,
		"paths_undecided":                 tot.Unsupported + tot.Unknown + tot.Conc,
		"paths_left_unexplored":           tot.Unexplored,
		"assertions_undecided":            tot.UnknownAsserts,
		"reachability_witnesses":          reached,
		"undecided_reasons":               unsup,
		"harnesses":                       per,
		"counterexamples_unconfirmed":     inconclusive,
		"bounds":                          boundsText(*flagProp),
		"solver":                          solverBin(),
		"load_s":                          round1(loadT.Seconds()),
	}
	ev := map[string]any{
		"property": *flagProp, "tier": *flagTier, "seed": *flagSeed, "level": "exploration", "coverage": cov,
		"assumptions": assumptionText(*flagProp), "wall_s": round1(time.Since(start).Seconds()), "violations": violations,
	}
	if *flagOnly == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(*flagVerif, "evidence", *flagProp+".json"), b, 0o644)
	}
	if rc == 0 {
		fmt.Printf("OK property=%s\n", *flagProp)
	}
	return rc
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func selectFinds(fs []finding) []finding {
	sort.Slice(fs, func(i, j int) bool {
		a, b := fs[i], fs[j]
		if a.H != b.H {
			return a.H < b.H
		}
		if a.Msg != b.Msg {
			return a.Msg < b.Msg
		}
		return fmt.Sprint(a.Inputs) < fmt.Sprint(b.Inputs)
	})
	// round robin over (harness, message)
	seen := map[string]int{}
	var out []finding
	for round := 0; round < 3; round++ {
		cnt := map[string]int{}
		for _, f := range fs {
			k := f.H + "|" + f.Msg
			cnt[k]++
			if cnt[k] == round+1 && seen[k] == round && len(out) < *flagMaxCex {
				seen[k]++
				out = append(out, f)
			}
		}
	}
	return out
}

type meta struct {
	Bounds      string   `json:"bounds"`
	Assumptions []string `json:"assumptions"`
}

func loadMeta(prop string) meta {
	var all map[string]meta
	b, err := os.ReadFile(filepath.Join(*flagHarness, "meta.json"))
	if err == nil {
		if err := json.Unmarshal(b, &all); err != nil {
			fatal("meta.json: %v", err)
		}
	}
	return all[prop]
}

func boundsText(prop string) string { return loadMeta(prop).Bounds }
func assumptionText(prop string) []string {
	a := loadMeta(prop).Assumptions
	return append([]string{
		"text of diagnostics is not modelled; goroutines run synchronously; library calls outside the Go source (file system, processes, colour output) are replaced by harness stubs",
	}, a...)
}

type knownList []struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"message"`
	Note     string `json:"note_key"`
	Value    string `json:"note_value"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(prop string) knownList {
	var out knownList
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var all knownList
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("known_findings.json: %v", err)
	}
	for _, k := range all {
		if k.Property == prop && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func (k knownList) match(f *finding) string {
	for _, e := range k {
		if e.Harness == f.H && e.Msg == f.Msg && (e.Note == "" || f.Notes[e.Note] == e.Value) {
			return e.What
		}
	}
	return ""
}

func saveReplay(f *finding, n int) string {
	dir := filepath.Join(*flagVerif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", f.Prop, n))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}
