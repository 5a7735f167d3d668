package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	session int // bumped for each path, scopes the printed marks
	open    bool
	nvars   int
	npc     int
	// statistics
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	timeoutMs                    int
	curTimeout                   int
	log                          *os.File
}

func solverBin() string {
	for _, p := range []string{"z3-new", "z3"} {
		if q, err := exec.LookPath(p); err == nil {
			return q
		}
	}
	return "z3"
}

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{timeoutMs: timeoutMs, session: 0}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin(), "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	s.curTimeout = 0
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeoutMs)
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		s.log, _ = os.Create(p)
	}
	s.open = false
	s.session++
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) NewPath() {
	if s.open {
		s.send("(pop 1)\n")
	}
	s.open = false
	s.session++
	s.nvars, s.npc = 0, 0
}

func (s *Solver) send(str string) {
	if s.log != nil {
		s.log.WriteString(str)
	}
	io.WriteString(s.in, str)
}

func (s *Solver) sync(m *Machine, sb *strings.Builder) {
	if !s.open {
		sb.WriteString("(push 1)\n")
		s.open = true
	}
	for ; s.nvars < len(m.ts.vars); s.nvars++ {
		v := m.ts.vars[s.nvars]
		fmt.Fprintf(sb, "(declare-const v%d %s)\n", v.idx, sortName(v.w))
	}
	for ; s.npc < len(m.pc); s.npc++ {
		m.ts.define(sb, m.pc[s.npc], s.session)
		fmt.Fprintf(sb, "(assert %s)\n", m.pc[s.npc].ref())
	}
}

// readReply reads one s-expression or atom.
func (s *Solver) readReply() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		sb.WriteString(line)
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// Check decides pc /\ extra. Returns "sat", "unsat" or "unknown"; with wantModel the model of a sat answer.
func (s *Solver) Check(m *Machine, extra *Term, wantModel bool) (string, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if *flagDebug && d > time.Second {
			fmt.Fprintf(os.Stderr, "slow query %.1fs model=%v notes=%v\n", d.Seconds(), wantModel, m.notes)
		}
	}()
	var sb strings.Builder
	s.sync(m, &sb)
	if extra != nil {
		m.ts.define(&sb, extra, s.session)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", extra.ref())
	}
	to := s.timeoutMs
	if !wantModel && to > 2000 {
		to = 2000 // feasibility of a branch: an undecided branch is explored
	}
	if to != s.curTimeout {
		s.curTimeout = to
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", to)
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	r, err := s.readReply()
	s.Queries++
	if err != nil || strings.Contains(r, "error") {
		fmt.Fprintf(os.Stderr, "solver error: %v %s\n", err, r)
		if err != nil {
			s.restart()
			s.nvars, s.npc = 0, 0
			s.Unknown++
			return "unknown", nil
		}
		r = "unknown"
	}
	var model []uint64
	switch r {
	case "sat":
		s.Sat++
		if wantModel && len(m.ts.vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range m.ts.vars {
				fmt.Fprintf(&q, "v%d ", v.idx)
			}
			q.WriteString("))\n")
			s.send(q.String())
			rep, err := s.readReply()
			if err == nil {
				model = parseModel(rep, len(m.ts.vars))
			}
		}
	case "unsat":
		s.Unsat++
	default:
		s.Unknown++
		r = "unknown"
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return r, model
}

func parseModel(rep string, n int) []uint64 {
	out := make([]uint64, n)
	rep = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(rep)
	f := strings.Fields(rep)
	for i := 0; i+1 < len(f); i++ {
		if strings.HasPrefix(f[i], "v") {
			idx, err := strconv.Atoi(f[i][1:])
			if err != nil || idx >= n {
				continue
			}
			val := f[i+1]
			switch {
			case val == "true":
				out[idx] = 1
			case val == "false":
				out[idx] = 0
			case strings.HasPrefix(val, "#x"):
				out[idx], _ = strconv.ParseUint(val[2:], 16, 64)
			case strings.HasPrefix(val, "#b"):
				out[idx], _ = strconv.ParseUint(val[2:], 2, 64)
			}
		}
	}
	return out
}
