package main

import (
	"fmt"
	"math/rand"
	"unicode/utf8"
)

func decodeRuneBytes(b []byte) (rune, int) { return utf8.DecodeRune(b) }

func (m *Machine) truth(v Value) bool {
	if v.p == nil {
		return v.n != 0
	}
	return m.branch(v.p.(*Term))
}

func (m *Machine) collectVars(t *Term, f func(*SymVar)) {
	if t.v == -1 {
		return
	}
	if t.v >= 0 {
		f(m.ts.vars[t.v])
		return
	}
	m.ts.stamp++
	st := m.ts.stamp
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.stamp == st || t.v == -1 {
			return
		}
		t.stamp = st
		if t.v >= 0 {
			f(m.ts.vars[t.v])
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
}

func smallVar(v *SymVar) bool { return v.w <= 8 }

func (m *Machine) addPC(t *Term) {
	switch {
	case t.isC():
		return
	case t.op == OBAnd:
		m.addPC(t.a)
		m.addPC(t.b)
		return
	case t.op == ONot && t.a.op == OBOr:
		m.addPC(m.ts.Not(t.a.a))
		m.addPC(m.ts.Not(t.a.b))
		return
	}
	m.pc = append(m.pc, t)
	m.known[t] = true
	m.known[m.ts.Not(t)] = false
	if t.v >= 0 && smallVar(m.ts.vars[t.v]) {
		sv := m.ts.vars[t.v]
		sv.dom = setAnd(&sv.dom, m.ts.truthSet(t))
		return
	}
	m.collectVars(t, func(v *SymVar) { v.multi = true })
}

// feasible decides whether pc /\ t and pc /\ not t are satisfiable.
func (m *Machine) feasible(t *Term) (tOK, fOK bool) {
	if t.v >= 0 && smallVar(m.ts.vars[t.v]) {
		sv := m.ts.vars[t.v]
		m.domQueries++
		tr := m.ts.truthSet(t)
		a := setAnd(&sv.dom, tr)
		b := setAndNot(&sv.dom, tr)
		if setEmpty(&a) {
			return false, true
		}
		if setEmpty(&b) {
			return true, false
		}
		if !sv.multi {
			return true, true
		}
	}
	r, _ := m.solver.Check(m, t, false)
	if r == "unsat" {
		return false, true
	}
	if r == "unknown" {
		m.unknownBranches++
	}
	r2, _ := m.solver.Check(m, m.ts.Not(t), false)
	if r2 == "unsat" {
		return true, false
	}
	if r2 == "unknown" {
		m.unknownBranches++
	}
	return true, true
}

func (m *Machine) branch(t *Term) bool {
	if t.isC() {
		return t.k == 1
	}
	if v, ok := m.known[t]; ok {
		return v
	}
	if m.booting {
		m.unsup("symbolic branch during initialisation")
	}
	var val bool
	if m.pos < len(m.dec) {
		d := m.dec[m.pos]
		if d.kind != 'b' {
			panic(fmt.Sprintf("replay divergence: expected %c got b", d.kind))
		}
		val = d.v == 1
	} else {
		tOK, fOK := m.feasible(t)
		d := decision{kind: 'b'}
		switch {
		case tOK && fOK:
			val = true
			m.fork(decision{kind: 'b', v: 0})
		case tOK:
			val, d.forced = true, true
		default:
			val, d.forced = false, true
		}
		d.v = b2u(val)
		m.dec = append(m.dec, d)
	}
	m.pos++
	if val {
		m.addPC(t)
	} else {
		m.addPC(m.ts.Not(t))
	}
	m.known[t] = val
	return val
}

func (m *Machine) fork(d decision) {
	p := make([]decision, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = d
	m.forks = append(m.forks, p)
}

// choose picks one of n alternatives; all are explored.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.dec) {
		d := m.dec[m.pos]
		if d.kind != 'c' {
			panic(fmt.Sprintf("replay divergence: expected %c got c", d.kind))
		}
		m.pos++
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(decision{kind: 'c', v: uint64(i)})
	}
	m.dec = append(m.dec, decision{kind: 'c', v: 0})
	m.pos++
	m.choices++
	return 0
}

// conc turns a value into a concrete one, exploring every feasible value.
func (m *Machine) conc(v Value, ti tinfo) uint64 {
	if v.p == nil {
		return v.n
	}
	t, ok := v.p.(*Term)
	if !ok {
		m.unsup("concretisation of %T", v.p)
	}
	if t.isC() {
		return normInt(t.k, ti)
	}
	if m.pos < len(m.dec) && !m.dec[m.pos].open {
		d := m.dec[m.pos]
		if d.kind != 'k' {
			panic(fmt.Sprintf("replay divergence: expected %c got k", d.kind))
		}
		m.pos++
		m.addPC(m.ts.Cmp(OEq, t, m.ts.Const(d.v, t.w)))
		return normInt(d.v, ti)
	}
	var excl []uint64
	if m.pos < len(m.dec) {
		excl = m.dec[m.pos].excl
		m.dec = m.dec[:m.pos]
	}
	if len(excl) > m.concLimit {
		panic(pathEnd{"conclimit", "too many values for one concretisation"})
	}
	// constraint: none of the excluded values
	ne := m.ts.Bool(true)
	for _, e := range excl {
		ne = m.ts.And(ne, m.ts.Not(m.ts.Cmp(OEq, t, m.ts.Const(e, t.w))))
	}
	pick := func(c *Term) (uint64, bool) {
		if t.v >= 0 && smallVar(m.ts.vars[t.v]) && !m.ts.vars[t.v].multi {
			sv := m.ts.vars[t.v]
			set := sv.dom
			if !c.isC() {
				set = setAnd(&set, m.ts.truthSet(c))
			} else if c.k == 0 {
				return 0, false
			}
			x := setMin(&set)
			if x < 0 {
				return 0, false
			}
			m.ts.evalStart()
			return m.ts.eval(t, func(int) uint64 { return uint64(x) }), true
		}
		if c.isC() {
			if c.k == 0 {
				return 0, false
			}
			c = nil
		}
		r, mod := m.solver.Check(m, c, true)
		if r != "sat" {
			if r == "unknown" {
				m.unknownBranches++
			}
			return 0, false
		}
		m.ts.evalStart()
		return m.ts.eval(t, func(i int) uint64 { return mod[i] }), true
	}
	x, ok := pick(ne)
	if !ok {
		panic(pathEnd{"infeasible", ""})
	}
	ne2 := m.ts.And(ne, m.ts.Not(m.ts.Cmp(OEq, t, m.ts.Const(x, t.w))))
	if _, more := pick(ne2); more {
		m.fork(decision{kind: 'k', open: true, excl: append(append([]uint64(nil), excl...), x)})
	}
	m.dec = append(m.dec, decision{kind: 'k', v: x})
	m.pos++
	m.addPC(m.ts.Cmp(OEq, t, m.ts.Const(x, t.w)))
	return normInt(x, ti)
}

func (m *Machine) assume(v Value) {
	if v.p == nil {
		if v.n == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	t := v.p.(*Term)
	if t.isC() {
		if t.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if k, ok := m.known[t]; ok {
		if !k {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.pos < len(m.dec) {
		m.pos++ // recorded as satisfiable
		m.addPC(t)
		return
	}
	ok, _ := m.feasible1(t)
	if !ok {
		panic(pathEnd{"assume", ""})
	}
	m.dec = append(m.dec, decision{kind: 'a', v: 1, forced: true})
	m.pos++
	m.addPC(t)
}

func (m *Machine) feasible1(t *Term) (bool, bool) {
	if t.v >= 0 && smallVar(m.ts.vars[t.v]) && !m.ts.vars[t.v].multi {
		m.domQueries++
		a := setAnd(&m.ts.vars[t.v].dom, m.ts.truthSet(t))
		return !setEmpty(&a), true
	}
	r, _ := m.solver.Check(m, t, false)
	if r == "unknown" {
		m.unknownBranches++
	}
	return r != "unsat", true
}

// model returns an assignment satisfying the path condition (and extra).
func (m *Machine) model(extra *Term) ([]uint64, string) {
	if len(m.ts.vars) == 0 {
		return nil, "sat"
	}
	if len(m.pc) == 0 && extra == nil {
		mod := make([]uint64, len(m.ts.vars))
		return mod, "sat"
	}
	r, mod := m.solver.Check(m, extra, true)
	return mod, r
}

func (m *Machine) assertTerm(t *Term, msg string) {
	m.asserts++
	if t.isC() && t.k == 1 {
		m.assertsConst++
		return
	}
	if t.isC() {
		m.fail(msg, "assert")
	}
	m.assertsZ3++
	mod, r := m.model(m.ts.Not(t))
	switch r {
	case "unsat":
		return
	case "sat":
		m.fatalCex = &cex{msg: msg, model: mod, kind: "assert"}
		panic(pathEnd{"cex", msg})
	default:
		m.unknownAsserts++
	}
}

// flush sends the equalities of identical terms to the solver in one query.
func (m *Machine) flush() {
	if len(m.pend) == 0 {
		return
	}
	seen := map[*Term]bool{}
	var all *Term
	for _, t := range m.pend {
		if seen[t] {
			continue
		}
		seen[t] = true
		if all == nil {
			all = t
		} else {
			all = m.ts.And(all, t)
		}
	}
	m.pend = nil
	m.asserts--
	m.assertTerm(all, "equalities of the path")
}

func (m *Machine) fail(msg, kind string) {
	mod, r := m.model(nil)
	if r == "unsat" {
		panic(pathEnd{"infeasible", msg})
	}
	if r == "unknown" {
		m.unknownAsserts++
		panic(pathEnd{"unknown", msg})
	}
	m.fatalCex = &cex{msg: msg, model: mod, kind: kind}
	panic(pathEnd{"cex", msg})
}

func (m *Machine) reset(prefix []decision) {
	m.ts = newTerms()
	m.pc = m.pc[:0]
	m.known = make(map[*Term]bool, 256)
	m.gl = make([]*Value, len(m.gl))
	m.dec = append([]decision(nil), prefix...)
	m.pos = 0
	m.forks = nil
	m.pend = nil
	m.steps = 0
	m.budget = *flagBudget
	m.sp = 0
	m.inputs = m.inputs[:0]
	m.ins = nil
	m.notes = nil
	m.reached = map[string]bool{}
	m.onces = nil
	m.mapOrder = false
	m.hooksOn = false
	m.fatalCex = nil
	m.asserts, m.assertsZ3, m.assertsConst = 0, 0, 0
	m.unknownAsserts, m.unknownBranches, m.domQueries, m.choices = 0, 0, 0, 0
	m.osArgs = nil
	m.solver.NewPath()
}

var rng = rand.New(rand.NewSource(1))
