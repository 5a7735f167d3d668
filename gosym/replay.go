package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// buildReplay compiles the harnesses natively, as in-package tests of the real code.
func buildReplay(P *Program, dir string) (string, error) {
	rep := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(*flagHarness, "*.go"))
	for _, f := range files {
		b := filepath.Base(f)
		if b == "rt_sym.go" {
			continue
		}
		rep[filepath.Join(*flagRepo, "zz_verif_"+strings.TrimSuffix(b, ".go")+"_test.go")] = f
	}
	if err := rewriteEnv(dir, rep); err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nvar zvHarnesses = map[string]func(){\n")
	for name := range P.mainPkg.Members {
		if strings.HasPrefix(name, "zvH_") {
			fmt.Fprintf(&sb, "\t%q: %s,\n", name, name)
		}
	}
	sb.WriteString("}\n")
	tab := filepath.Join(dir, "table.go")
	if err := os.WriteFile(tab, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(*flagRepo, "zz_verif_table_test.go")] = tab
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, ".")
	cmd.Dir = *flagRepo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	return bin, nil
}

func replayAll(P *Program, hs []*harness, fs []finding) {
	dir, err := os.MkdirTemp("", "gosym-replay")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	bin, err := buildReplay(P, dir)
	if err != nil {
		fmt.Println(err)
		for i := range fs {
			fs[i].Status = "replay binary does not build"
		}
		return
	}
	for i := range fs {
		replayOne(bin, dir, &fs[i])
	}
}

func replayOne(bin, dir string, f *finding) {
	scratch, _ := os.MkdirTemp(dir, "run")
	in := filepath.Join(dir, "input.json")
	b, _ := json.Marshal(f)
	os.WriteFile(in, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZvReplay$", "-test.v", "-test.timeout", "15s")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "ZV_REPLAY="+in, "GOMEMLIMIT=2GiB")
	out, err := cmd.CombinedOutput()
	s := string(out)
	switch {
	case strings.Contains(s, "ZV-FAIL:"):
		f.Status = "reproduced"
		i := strings.Index(s, "ZV-FAIL:")
		l := s[i:]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		f.Output = l
	case strings.Contains(s, "ZV-PASS"):
		f.Status = "does not reproduce"
	case strings.Contains(s, "ZV-ASSUME"):
		f.Status = "assumption fails on replay"
	case ctx.Err() != nil || strings.Contains(s, "test timed out") || strings.Contains(s, "stack overflow") || strings.Contains(s, "out of memory"):
		f.Status = "reproduced"
		f.Output = "did not terminate within 15 s"
	default:
		f.Status = fmt.Sprintf("replay error: %v", err)
		if len(s) > 600 {
			s = s[len(s)-600:]
		}
		f.Output = s
	}
	os.RemoveAll(scratch)
}

// rewriteEnv makes the non-test sources use the harness's stand-ins for files and commands, so that a replay can inject
// faults and touches nothing real.
func rewriteEnv(dir string, rep map[string]string) error {
	std := map[string]string{"os.File": "zvFile", "os.Exit": "zvOsExit", "exec.Cmd": "zvCmd"}
	for k, v := range hooks {
		if strings.HasPrefix(k, "os.") {
			std[k] = v
		} else if strings.HasPrefix(k, "os/exec.") {
			std[k[3:]] = v
		}
	}
	files, _ := filepath.Glob(filepath.Join(*flagRepo, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || filepath.Base(f) == "test_utils.go" {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		local := map[string]string{} // local import name -> "os" or "exec"
		for _, im := range af.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if p != "os" && p != "os/exec" {
				continue
			}
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			local[n] = filepath.Base(p)
		}
		if len(local) == 0 {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		type edit struct {
			a, b int
			s    string
		}
		var eds []edit
		ast.Inspect(af, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && local[id.Name] != "" {
					if r := std[local[id.Name]+"."+se.Sel.Name]; r != "" {
						eds = append(eds, edit{fset.Position(se.Pos()).Offset, fset.Position(se.End()).Offset, r})
					}
				}
			}
			return true
		})
		if len(eds) == 0 {
			continue
		}
		out := string(src)
		for i := len(eds) - 1; i >= 0; i-- {
			out = out[:eds[i].a] + eds[i].s + out[eds[i].b:]
		}
		for n, p := range local {
			if p == "os" {
				out += "\nvar _ = " + n + ".Exit\n"
			} else {
				out += "\nvar _ = " + n + ".Command\n"
			}
		}
		w := filepath.Join(dir, "rw_"+filepath.Base(f))
		if err := os.WriteFile(w, []byte(out), 0o644); err != nil {
			return err
		}
		rep[f] = w
	}
	return nil
}
