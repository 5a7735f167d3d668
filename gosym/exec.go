package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Program is shared by all machines.
type Program struct {
	prog    *ssa.Program
	mainPkg *ssa.Package
	mu      sync.Mutex
	fns     sync.Map // *ssa.Function -> *cfn
	globMu  sync.Mutex
	globIdx map[*ssa.Global]int32
	globs   []*globInfo
	shared  *Machine
	methods sync.Map // methKey -> *cfn
}

type globInfo struct {
	g      *ssa.Global
	zero   func() Value
	shared bool
	ok     bool // package initialised, or otherwise usable
	cell   *Value
}

type methKey struct {
	t types.Type
	m *types.Func
}

type frame struct {
	m         *Machine
	cf        *cfn
	r         []Value
	fv        []Value
	caller    *frame
	defers    []func(fr *frame)
	result    Value
	panicking bool
	panicv    any
	depth     int
}

type targetPanic struct{ v Value } // v: interface value
type pathEnd struct{ kind, msg string }
type exitPanic struct{ code int }

type decision struct {
	kind   byte // 'b' branch, 'c' choice, 'k' concretise
	v      uint64
	forced bool
	excl   []uint64
	open   bool // 'k': value still to be selected
}

type assertRec struct {
	msg string
}

// Machine executes one path at a time.
type Machine struct {
	P                                *Program
	ts                               *Terms
	pc                               []*Term
	solver                           *Solver
	gl                               []*Value
	dec                              []decision // decisions taken (prefix to replay first)
	pos                              int
	forks                            [][]decision
	steps                            int
	budget                           int
	stack                            []Value
	sp                               int
	inputs                           []*SymVar
	notes                            []note
	reached                          map[string]bool
	assigned                         [][]uint64
	asserts, assertsZ3, assertsConst int
	pend                             []*Term
	onces                            map[*Value]bool
	mapOrder                         bool
	booting                          bool
	maxDepth                         int
	unsupported                      string
	objIDs                           map[any]int
	concLimit                        int
	choices                          int
	fatalCex                         *cex
	unknownAsserts                   int
	unknownBranches                  int
	domQueries                       int
	depthNow                         int
	known                            map[*Term]bool
	ins                              []inputRec
	osArgs                           []string
	hooksOn                          bool
}

type inputRec struct {
	name string
	kind string
	v    *SymVar
	c    uint64
}

type note struct {
	k string
	v Value
}

type cex struct {
	msg   string
	model []uint64
	kind  string
}

func (m *Machine) unsup(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

func (o *opnd) get(fr *frame) Value {
	if o.idx >= 0 {
		return fr.r[o.idx]
	}
	if o.idx == -1 {
		return o.k
	}
	return Value{p: fr.m.global(o.g)}
}

func (m *Machine) global(i int32) *Value {
	if int(i) < len(m.gl) {
		if c := m.gl[i]; c != nil {
			return c
		}
	} else {
		n := make([]*Value, int(i)+64)
		copy(n, m.gl)
		m.gl = n
	}
	gi := m.P.globs[i]
	if gi.shared && !m.booting {
		m.gl[i] = gi.cell
		return gi.cell
	}
	if !gi.ok {
		m.unsup("global %s of a package that is not initialised", gi.g)
	}
	c := new(Value)
	*c = gi.zero()
	if gi.shared {
		gi.cell = c
	}
	m.gl[i] = c
	return c
}

func (P *Program) globIndex(g *ssa.Global) int32 {
	P.globMu.Lock()
	defer P.globMu.Unlock()
	if i, ok := P.globIdx[g]; ok {
		return i
	}
	i := int32(len(P.globs))
	path := g.Pkg.Pkg.Path()
	gi := &globInfo{g: g, zero: zeroMaker(g.Type().Underlying().(*types.Pointer).Elem())}
	gi.shared = sharedPkg(path)
	gi.ok = gi.shared || pathPkg(path) || okGlobal(g)
	if gi.shared {
		c := new(Value)
		*c = gi.zero()
		gi.cell = c
	}
	// P.globs is read without the lock by machines: grow by copy
	ng := make([]*globInfo, i+1)
	copy(ng, P.globs)
	ng[i] = gi
	P.globs = ng
	P.globIdx[g] = i
	return i
}

func (P *Program) cfnOf(fn *ssa.Function) *cfn {
	if c, ok := P.fns.Load(fn); ok {
		return c.(*cfn)
	}
	c := &cfn{fn: fn, name: fn.String()}
	c.clos = &Closure{cf: c}
	if a, loaded := P.fns.LoadOrStore(fn, c); loaded {
		return a.(*cfn)
	}
	return c
}

func (P *Program) ready(c *cfn) {
	P.mu.Lock()
	defer P.mu.Unlock()
	if c.rdy.Load() {
		return
	}
	P.compile(c)
	c.rdy.Store(true)
}

// ---- function calls

func (m *Machine) alloc(n int) []Value {
	if m.sp+n > len(m.stack) {
		sz := 1 << 16
		if n > sz {
			sz = n
		}
		m.stack = make([]Value, sz)
		m.sp = 0
	}
	s := m.stack[m.sp : m.sp+n : m.sp+n]
	m.sp += n
	return s
}

func (m *Machine) callValue(fr *frame, f Value, args []Value) Value {
	c, ok := f.p.(*Closure)
	if !ok || c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	return m.call(fr, c.cf, c.fv, args)
}

func (m *Machine) call(caller *frame, cf *cfn, fv []Value, args []Value) Value {
	if !m.P.isReady(cf) {
		m.P.ready(cf)
	}
	if cf.native != nil {
		return cf.native(m, caller, args)
	}
	if cf.initPkg != nil && (!m.initAllowed(cf.initPkg) || m.booting && caller != nil) {
		return Value{}
	}
	if cf.blocks == nil {
		m.unsup("function without body: %s", cf.name)
	}
	if atomic.LoadInt32(&cf.hit) == 0 {
		atomic.StoreInt32(&cf.hit, 1)
	}
	stk, sp := m.stack, m.sp
	fr := &frame{m: m, cf: cf, fv: fv, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > m.maxDepth {
		panic(pathEnd{"budget", "call depth"})
	}
	fr.r = m.alloc(cf.nregs)
	for i, p := range cf.params {
		fr.r[p] = args[i]
	}
	for i, p := range cf.fvs {
		fr.r[p] = fv[i]
	}
	if cf.hasDefer {
		m.runDeferring(fr)
	} else {
		m.run(fr, 0)
	}
	clear(fr.r)
	m.stack, m.sp = stk, sp
	return fr.result
}

func (P *Program) isReady(c *cfn) bool {
	return c.rdy.Load()
}

func (m *Machine) run(fr *frame, b int) {
	cf := fr.cf
	var tmpbuf [8]Value
	for {
		blk := &cf.blocks[b]
		m.steps += blk.n
		if m.steps > m.budget {
			panic(pathEnd{"budget", "instruction budget exhausted"})
		}
		for _, s := range blk.code {
			s(fr)
		}
		k := blk.term(fr)
		if k < 0 {
			return
		}
		b = blk.succs[k]
		nb := &cf.blocks[b]
		if len(nb.phiDst) > 0 {
			srcs := nb.phiSrc[blk.succPI[k]]
			var tmp []Value
			if len(srcs) <= 8 {
				tmp = tmpbuf[:len(srcs)]
			} else {
				tmp = make([]Value, len(srcs))
			}
			for i := range srcs {
				tmp[i] = srcs[i].get(fr)
			}
			for i, d := range nb.phiDst {
				fr.r[d] = tmp[i]
			}
		}
	}
}

func (m *Machine) runDeferring(fr *frame) {
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				if re, ok2 := r.(error); ok2 {
					panic(fmt.Sprintf("engine fault in %s: %v", fr.cf.name, re))
				}
				panic(r)
			}
			fr.panicking = true
			fr.panicv = tp
			fr.runDefers()
			// recovered
			if fr.cf.recov >= 0 {
				m.run(fr, fr.cf.recov)
			} else {
				fr.result = fr.cf.resZero()
			}
		}()
		m.run(fr, 0)
		done = true
	}()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, is := r.(targetPanic); is {
					fr.panicking = true
					fr.panicv = tp
					return
				}
				panic(r)
			}()
			d(fr)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

// rtPanic raises a run-time error of the interpreted program.
func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{Value{p: &Iface{t: types.Typ[types.String], v: strVal("runtime error: " + msg)}}})
}

// ---- compilation of SSA to closures

type fcomp struct {
	P    *Program
	c    *cfn
	regs map[ssa.Value]int32
}

func (P *Program) compile(c *cfn) {
	fn := c.fn
	if nat := lookupNative(P, fn); nat != nil {
		c.native = nat
		return
	}
	P.compileBody(c)
}

func (P *Program) compileBody(c *cfn) {
	fn := c.fn
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil && fn.Parent() == nil {
		c.initPkg = fn.Pkg
	}
	if len(fn.Blocks) == 0 {
		return
	}
	fc := &fcomp{P: P, c: c, regs: map[ssa.Value]int32{}}
	newReg := func(v ssa.Value) int {
		i := int32(len(fc.regs))
		fc.regs[v] = i
		return int(i)
	}
	for _, p := range fn.Params {
		c.params = append(c.params, newReg(p))
	}
	for _, p := range fn.FreeVars {
		c.fvs = append(c.fvs, newReg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
			c.ninstr++
		}
	}
	c.nregs = len(fc.regs)
	c.recov = -1
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
		c.hasDefer = true
	}
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		c.resZero = func() Value { return Value{} }
	case 1:
		c.resZero = zeroMaker(res.At(0).Type())
	default:
		c.resZero = zeroMaker(res)
	}
	c.blocks = make([]blockC, len(fn.Blocks))
	for i, b := range fn.Blocks {
		fc.block(b, &c.blocks[i])
	}
}

func (fc *fcomp) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{idx: -1, k: constVal(v)}
	case *ssa.Global:
		return opnd{idx: -2, g: fc.P.globIndex(v)}
	case *ssa.Function:
		return opnd{idx: -1, k: Value{p: fc.P.cfnOf(v).clos}}
	case *ssa.Builtin:
		return opnd{idx: -1, k: Value{p: v}}
	}
	r, ok := fc.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, fc.c.name))
	}
	return opnd{idx: r}
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroMaker(c.Type())()
	}
	ti := infoOf(c.Type())
	switch ti.k {
	case kBool:
		if constant.BoolVal(c.Value) {
			return Value{n: 1}
		}
		return Value{}
	case kInt:
		if ti.signed {
			return Value{n: normInt(uint64(c.Int64()), ti)}
		}
		return Value{n: normInt(c.Uint64(), ti)}
	case kFloat:
		return Value{n: math.Float64bits(c.Float64())}
	case kString:
		if c.Value.Kind() == constant.String {
			return strVal(constant.StringVal(c.Value))
		}
		return strVal(string(rune(c.Int64())))
	case kUnsafe:
		return Value{}
	}
	return Value{p: unsupportedConst{c.String()}}
}

type unsupportedConst struct{ s string }

func (fc *fcomp) block(b *ssa.BasicBlock, out *blockC) {
	out.n = len(b.Instrs)
	for _, s := range b.Succs {
		out.succs = append(out.succs, s.Index)
	}
	for k, s := range b.Succs {
		occ := 0
		for j := 0; j < k; j++ {
			if b.Succs[j] == s {
				occ++
			}
		}
		pi := -1
		for j, p := range s.Preds {
			if p == b {
				if occ == 0 {
					pi = j
					break
				}
				occ--
			}
		}
		out.succPI = append(out.succPI, pi)
	}
	out.phiSrc = make([][]opnd, len(b.Preds))
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			out.phiDst = append(out.phiDst, int(fc.regs[in]))
			for j, e := range in.Edges {
				out.phiSrc[j] = append(out.phiSrc[j], fc.op(e))
			}
		case *ssa.DebugRef:
		case *ssa.If:
			cond := fc.op(in.Cond)
			out.term = func(fr *frame) int {
				v := cond.get(fr)
				if fr.m.truth(v) {
					return 0
				}
				return 1
			}
		case *ssa.Jump:
			out.term = func(fr *frame) int { return 0 }
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				out.term = func(fr *frame) int { return -1 }
			case 1:
				o := fc.op(in.Results[0])
				agg := infoOf(in.Results[0].Type()).k == kAgg
				out.term = func(fr *frame) int {
					fr.result = o.get(fr)
					if agg {
						fr.result = copyVal(fr.result)
					}
					return -1
				}
			default:
				var os []opnd
				for _, r := range in.Results {
					os = append(os, fc.op(r))
				}
				out.term = func(fr *frame) int {
					e := make([]Value, len(os))
					for i := range os {
						e[i] = copyVal(os[i].get(fr))
					}
					fr.result = Value{p: e}
					return -1
				}
			}
		case *ssa.Panic:
			o := fc.op(in.X)
			out.term = func(fr *frame) int {
				panic(targetPanic{o.get(fr)})
			}
		default:
			out.code = append(out.code, fc.instr(in))
		}
	}
	if out.term == nil {
		out.term = func(fr *frame) int { fr.m.unsup("block without terminator"); return -1 }
	}
}

func (fc *fcomp) unsupInstr(in ssa.Instruction) func(fr *frame) {
	s := fmt.Sprintf("%T %s in %s", in, in, fc.c.name)
	return func(fr *frame) { fr.m.unsup("instruction %s", s) }
}

func (fc *fcomp) instr(in ssa.Instruction) func(fr *frame) {
	var d int32 = -1
	if v, ok := in.(ssa.Value); ok {
		d = fc.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		z := zeroMaker(in.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) {
			c := new(Value)
			*c = z()
			fr.r[d] = Value{p: c}
		}
	case *ssa.UnOp:
		return fc.unop(in, d)
	case *ssa.BinOp:
		return fc.binop(in, d)
	case *ssa.Store:
		addr, val := fc.op(in.Addr), fc.op(in.Val)
		if infoOf(in.Val.Type()).k == kAgg {
			return func(fr *frame) {
				storeInto(fr.m.deref(addr.get(fr)), val.get(fr))
			}
		}
		return func(fr *frame) {
			*fr.m.deref(addr.get(fr)) = val.get(fr)
		}
	case *ssa.FieldAddr:
		x := fc.op(in.X)
		f := in.Field
		return func(fr *frame) {
			c := fr.m.deref(x.get(fr))
			a, ok := c.p.(*Agg)
			if !ok {
				fr.m.unsup("field address of %T in %s", c.p, fr.cf.name)
			}
			fr.r[d] = Value{p: &a.e[f]}
		}
	case *ssa.Field:
		x := fc.op(in.X)
		f := in.Field
		return func(fr *frame) { fr.r[d] = copyVal(x.get(fr).p.(*Agg).e[f]) }
	case *ssa.IndexAddr:
		return fc.indexAddr(in, d)
	case *ssa.Index:
		x, ix := fc.op(in.X), fc.op(in.Index)
		ei := infoOf(in.Type())
		isStr := infoOf(in.X.Type()).k == kString
		ii := infoOf(in.Index.Type())
		return func(fr *frame) {
			v := x.get(fr)
			i := ix.get(fr)
			if isStr {
				fr.r[d] = fr.m.strIndex(v, i, ii)
				return
			}
			e := v.p.(*Agg).e
			fr.r[d] = copyVal(fr.m.loadElem(e, i, ii, ei))
		}
	case *ssa.Lookup:
		return fc.lookup(in, d)
	case *ssa.MapUpdate:
		mp, k, v := fc.op(in.Map), fc.op(in.Key), fc.op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mm, ok := mp.get(fr).p.(*Map)
			if !ok || mm == nil {
				fr.m.rtPanic("assignment to entry in nil map")
			}
			fr.m.mapSet(mm, kt, copyVal(k.get(fr)), copyVal(v.get(fr)))
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.r[d] = Value{p: &Map{idx: map[any]int{}}} }
	case *ssa.MakeSlice:
		l, cp := fc.op(in.Len), fc.op(in.Cap)
		z := zeroMaker(in.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			n := int(int64(fr.m.conc(l.get(fr), tinfo{kInt, 64, true})))
			c := int(int64(fr.m.conc(cp.get(fr), tinfo{kInt, 64, true})))
			if n < 0 || c < n {
				fr.m.rtPanic("makeslice: len out of range")
			}
			if c > 1<<22 {
				fr.m.unsup("huge slice %d", c)
			}
			s := make([]Value, n, c)
			full := s[:c]
			for i := range full {
				full[i] = z()
			}
			fr.r[d] = Value{p: s}
		}
	case *ssa.MakeInterface:
		x := fc.op(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.r[d] = Value{p: &Iface{t, copyVal(x.get(fr))}} }
	case *ssa.ChangeInterface:
		x := fc.op(in.X)
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case *ssa.ChangeType:
		x := fc.op(in.X)
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case *ssa.MakeClosure:
		f := fc.P.cfnOf(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, fc.op(b))
		}
		return func(fr *frame) {
			fv := make([]Value, len(bs))
			for i := range bs {
				fv[i] = bs[i].get(fr)
			}
			fr.r[d] = Value{p: &Closure{f, fv}}
		}
	case *ssa.Extract:
		x := fc.op(in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.r[d] = x.get(fr).p.([]Value)[i] }
	case *ssa.Call:
		f := fc.callThunk(&in.Call)
		return func(fr *frame) { fr.r[d] = f(fr) }
	case *ssa.Defer:
		f := fc.deferThunk(&in.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.Go:
		f := fc.deferThunk(&in.Call)
		return func(fr *frame) { f(fr)(fr) } // run synchronously
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Convert:
		return fc.convert(in.X, in.Type(), d)
	case *ssa.TypeAssert:
		return fc.typeAssert(in, d)
	case *ssa.Slice:
		return fc.slice(in, d)
	case *ssa.SliceToArrayPointer:
		return fc.unsupInstr(in)
	case *ssa.Range:
		x := fc.op(in.X)
		return func(fr *frame) {
			v := x.get(fr)
			switch p := v.p.(type) {
			case *Map:
				fr.r[d] = Value{p: fr.m.newMapIter(p)}
			case nil:
				fr.r[d] = Value{p: &mapIter{m: &Map{}}}
			default:
				fr.r[d] = Value{p: &strIter{b: strBytes(v)}}
			}
		}
	case *ssa.Next:
		x := fc.op(in.Iter)
		isStr := in.IsString
		tup := in.Type().(*types.Tuple)
		zk, zv := zeroMaker(tup.At(1).Type()), zeroMaker(tup.At(2).Type())
		return func(fr *frame) {
			it := x.get(fr).p
			if isStr {
				if mi, ok := it.(*mapIter); ok && len(mi.m.ents) == 0 {
					fr.r[d] = Value{p: []Value{{}, zk(), zv()}}
					return
				}
				si := it.(*strIter)
				if si.pos >= len(si.b) {
					fr.r[d] = Value{p: []Value{{}, {}, {}}}
					return
				}
				i := si.pos
				r, n := fr.m.decodeRune(si.b[i:])
				si.pos += n
				fr.r[d] = Value{p: []Value{{n: 1}, {n: uint64(i)}, r}}
				return
			}
			mi := it.(*mapIter)
			for mi.pos < len(mi.order) {
				if n := len(mi.order) - mi.pos; mi.free && n > 1 {
					j := mi.pos + fr.m.choose("maporder", n)
					mi.order[mi.pos], mi.order[j] = mi.order[j], mi.order[mi.pos]
				}
				e := &mi.m.ents[mi.order[mi.pos]]
				mi.pos++
				if e.deleted {
					continue
				}
				fr.r[d] = Value{p: []Value{{n: 1}, copyVal(e.k), copyVal(e.v)}}
				return
			}
			fr.r[d] = Value{p: []Value{{}, zk(), zv()}}
		}
	}
	return fc.unsupInstr(in)
}

func (m *Machine) deref(v Value) *Value {
	c, ok := v.p.(*Value)
	if !ok || c == nil {
		if sp, ok := v.p.(*SymPtr); ok {
			// writing through or addressing into a symbolic element: concretise the index
			i := m.conc(Value{p: sp.idx}, tinfo{kInt, sp.idx.w, false})
			if i >= uint64(len(sp.e)) {
				m.rtPanic("index out of range")
			}
			return &sp.e[i]
		}
		if v.p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.unsup("dereference of %T", v.p)
	}
	return c
}

func (m *Machine) load(v Value) Value {
	if c, ok := v.p.(*Value); ok && c != nil {
		return *c
	}
	if sp, ok := v.p.(*SymPtr); ok {
		if r, ok := m.tableLoad(sp.e, sp.idx, sp.w); ok {
			return r
		}
	}
	return *m.deref(v)
}

func (m *Machine) tableLoad(e []Value, idx *Term, w uint8) (Value, bool) {
	if w == 0 {
		return Value{}, false
	}
	tab := make([]uint64, len(e))
	for i := range e {
		if e[i].p != nil {
			return Value{}, false
		}
		tab[i] = e[i].n & mask(w)
	}
	return Value{p: m.ts.Table(tab, w, idx)}, true
}

// symIndex checks bounds of a symbolic index and returns the index term.
func (m *Machine) symIndex(i Value, ii tinfo, n int) *Term {
	t := i.p.(*Term)
	var in *Term
	nn := m.ts.Const(uint64(n), t.w)
	if ii.w < 64 && uint64(n) > mask(ii.w) && !ii.signed {
		in = m.ts.Bool(true)
	} else {
		in = m.ts.Cmp(OULt, t, nn) // negative values are large unsigned ones
	}
	if !m.branch(in) {
		m.rtPanic("index out of range")
	}
	return t
}

func (m *Machine) loadElem(e []Value, i Value, ii, ei tinfo) Value {
	if i.p != nil {
		t := m.symIndex(i, ii, len(e))
		if ei.k == kInt {
			if r, ok := m.tableLoad(e, t, ei.w); ok {
				if r.p.(*Term).isC() {
					return Value{n: normInt(r.p.(*Term).k, ei)}
				}
				return r
			}
		}
		k := m.conc(Value{p: t}, tinfo{kInt, t.w, false})
		return e[k]
	}
	k := int64(i.n)
	if k < 0 || k >= int64(len(e)) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(e)))
	}
	return e[k]
}

func (m *Machine) strIndex(v, i Value, ii tinfo) Value {
	if i.p != nil {
		return m.loadElem(strBytes(v), i, ii, tinfo{kInt, 8, false})
	}
	k := int64(i.n)
	if k < 0 || k >= int64(strLen(v)) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, strLen(v)))
	}
	return strAt(v, int(k))
}

func (fc *fcomp) indexAddr(in *ssa.IndexAddr, d int32) func(fr *frame) {
	x, ix := fc.op(in.X), fc.op(in.Index)
	ii := infoOf(in.Index.Type())
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	ei := infoOf(in.Type().Underlying().(*types.Pointer).Elem())
	return func(fr *frame) {
		v := x.get(fr)
		var e []Value
		if isPtr {
			a, ok := fr.m.deref(v).p.(*Agg)
			if !ok {
				fr.m.unsup("index address of %T", v.p)
			}
			e = a.e
		} else if v.p != nil {
			e = v.p.([]Value)
		}
		i := ix.get(fr)
		if i.p != nil {
			t := fr.m.symIndex(i, ii, len(e))
			if ei.k == kInt {
				fr.r[d] = Value{p: &SymPtr{e, t, ei.w}}
				return
			}
			k := fr.m.conc(Value{p: t}, tinfo{kInt, t.w, false})
			fr.r[d] = Value{p: &e[k]}
			return
		}
		k := int64(i.n)
		if k < 0 || k >= int64(len(e)) {
			fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(e)))
		}
		fr.r[d] = Value{p: &e[k]}
	}
}

func (fc *fcomp) unop(in *ssa.UnOp, d int32) func(fr *frame) {
	x := fc.op(in.X)
	ti := infoOf(in.X.Type())
	switch in.Op {
	case token.MUL:
		rt := infoOf(in.Type())
		if rt.k == kAgg {
			return func(fr *frame) { fr.r[d] = copyVal(fr.m.load(x.get(fr))) }
		}
		if rt.k == kInt {
			return func(fr *frame) {
				v := x.get(fr)
				if c, ok := v.p.(*Value); ok && c != nil {
					fr.r[d] = *c
					return
				}
				r := fr.m.load(v)
				if t, ok := r.p.(*Term); ok && t.isC() {
					r = Value{n: normInt(t.k, rt)}
				}
				fr.r[d] = r
			}
		}
		return func(fr *frame) { fr.r[d] = fr.m.load(x.get(fr)) }
	case token.NOT:
		return func(fr *frame) {
			v := x.get(fr)
			if v.p != nil {
				fr.r[d] = fr.m.boolV(fr.m.ts.Not(v.p.(*Term)))
				return
			}
			fr.r[d] = Value{n: v.n ^ 1}
		}
	case token.SUB:
		if ti.k == kFloat {
			return func(fr *frame) {
				fr.r[d] = Value{n: math.Float64bits(-math.Float64frombits(x.get(fr).n))}
			}
		}
		return func(fr *frame) {
			v := x.get(fr)
			if v.p != nil {
				fr.r[d] = fr.m.intV(fr.m.ts.Bin(OSub, fr.m.ts.Const(0, ti.w), v.p.(*Term)), ti)
				return
			}
			fr.r[d] = Value{n: normInt(-v.n, ti)}
		}
	case token.XOR:
		return func(fr *frame) {
			v := x.get(fr)
			if v.p != nil {
				fr.r[d] = fr.m.intV(fr.m.ts.Bin(OXor, fr.m.ts.Const(^uint64(0), ti.w), v.p.(*Term)), ti)
				return
			}
			fr.r[d] = Value{n: normInt(^v.n, ti)}
		}
	}
	return fc.unsupInstr(in)
}

func (m *Machine) intV(t *Term, ti tinfo) Value {
	if t.isC() {
		return Value{n: normInt(t.k, ti)}
	}
	return Value{p: t}
}

func (m *Machine) boolV(t *Term) Value {
	if t.isC() {
		return Value{n: t.k}
	}
	return Value{p: t}
}

func (m *Machine) term(v Value, ti tinfo) *Term {
	if v.p != nil {
		t, ok := v.p.(*Term)
		if !ok {
			m.unsup("integer expected, got %T", v.p)
		}
		return t
	}
	return m.ts.Const(v.n, ti.w)
}

func (m *Machine) bterm(v Value) *Term {
	if v.p != nil {
		return v.p.(*Term)
	}
	return m.ts.Bool(v.n != 0)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (fc *fcomp) binop(in *ssa.BinOp, d int32) func(fr *frame) {
	x, y := fc.op(in.X), fc.op(in.Y)
	ti := infoOf(in.X.Type())
	yi := infoOf(in.Y.Type())
	t := in.X.Type()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if ti.k == kInt || ti.k == kBool {
			return func(fr *frame) {
				a, b := x.get(fr), y.get(fr)
				if a.p == nil && b.p == nil {
					fr.r[d] = Value{n: b2u((a.n == b.n) != neg)}
					return
				}
				m := fr.m
				var e *Term
				if ti.k == kBool {
					e = m.ts.Cmp(OEq, m.bterm(a), m.bterm(b))
				} else {
					e = m.ts.Cmp(OEq, m.term(a, ti), m.term(b, ti))
				}
				if neg {
					e = m.ts.Not(e)
				}
				fr.r[d] = m.boolV(e)
			}
		}
		// comparison of an interface with a concrete value
		xt, yt := in.X.Type(), in.Y.Type()
		xIf, yIf := infoOf(xt).k == kIface, infoOf(yt).k == kIface
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			ct := t
			if xIf && !yIf {
				b = Value{p: &Iface{yt, b}}
			} else if yIf && !xIf {
				a = Value{p: &Iface{xt, a}}
				ct = yt
			}
			r := fr.m.eq(ct, a, b)
			if neg {
				if r.p != nil {
					r = fr.m.boolV(fr.m.ts.Not(r.p.(*Term)))
				} else {
					r.n ^= 1
				}
			}
			fr.r[d] = r
		}
	}
	switch ti.k {
	case kInt:
		return fc.intBin(in, op, x, y, ti, yi, d)
	case kString:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			m := fr.m
			if op == token.ADD {
				sa, ok1 := concreteStr(a)
				sb, ok2 := concreteStr(b)
				if ok1 && ok2 {
					fr.r[d] = strVal(sa + sb)
					return
				}
				fr.r[d] = mkStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...))
				return
			}
			lt, eq := m.strCmp(a, b)
			var r bool
			switch op {
			case token.LSS:
				r = lt
			case token.LEQ:
				r = lt || eq
			case token.GTR:
				r = !lt && !eq
			case token.GEQ:
				r = !lt
			}
			fr.r[d] = Value{n: b2u(r)}
		}
	case kFloat:
		return func(fr *frame) {
			a, b := math.Float64frombits(x.get(fr).n), math.Float64frombits(y.get(fr).n)
			var r Value
			switch op {
			case token.ADD:
				r.n = math.Float64bits(a + b)
			case token.SUB:
				r.n = math.Float64bits(a - b)
			case token.MUL:
				r.n = math.Float64bits(a * b)
			case token.QUO:
				r.n = math.Float64bits(a / b)
			case token.LSS:
				r.n = b2u(a < b)
			case token.LEQ:
				r.n = b2u(a <= b)
			case token.GTR:
				r.n = b2u(a > b)
			case token.GEQ:
				r.n = b2u(a >= b)
			}
			fr.r[d] = r
		}
	}
	return fc.unsupInstr(in)
}

func (fc *fcomp) intBin(in *ssa.BinOp, op token.Token, x, y opnd, ti, yi tinfo, d int32) func(fr *frame) {
	type cf func(a, b uint64) uint64
	var f cf
	var sop Op
	swap := false
	neg := false
	isCmp := false
	switch op {
	case token.ADD:
		f, sop = func(a, b uint64) uint64 { return a + b }, OAdd
	case token.SUB:
		f, sop = func(a, b uint64) uint64 { return a - b }, OSub
	case token.MUL:
		f, sop = func(a, b uint64) uint64 { return a * b }, OMul
	case token.AND:
		f, sop = func(a, b uint64) uint64 { return a & b }, OAnd
	case token.OR:
		f, sop = func(a, b uint64) uint64 { return a | b }, OOr
	case token.XOR:
		f, sop = func(a, b uint64) uint64 { return a ^ b }, OXor
	case token.AND_NOT:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.p == nil && b.p == nil {
				fr.r[d] = Value{n: normInt(a.n&^b.n, ti)}
				return
			}
			m := fr.m
			nb := m.ts.Bin(OXor, m.ts.Const(^uint64(0), ti.w), m.term(b, ti))
			fr.r[d] = m.intV(m.ts.Bin(OAnd, m.term(a, ti), nb), ti)
		}
	case token.QUO, token.REM:
		if ti.signed {
			sop = OSDiv
			if op == token.REM {
				sop = OSRem
			}
		} else {
			sop = OUDiv
			if op == token.REM {
				sop = OURem
			}
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			m := fr.m
			if b.p == nil {
				if b.n == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.branch(m.ts.Cmp(OEq, b.p.(*Term), m.ts.Const(0, ti.w))) {
				m.rtPanic("integer divide by zero")
			}
			if a.p == nil && b.p == nil {
				fr.r[d] = Value{n: normInt(fold(sop, ti.w, a.n&mask(ti.w), b.n&mask(ti.w)), ti)}
				return
			}
			fr.r[d] = m.intV(m.ts.Bin(sop, m.term(a, ti), m.term(b, ti)), ti)
		}
	case token.SHL, token.SHR:
		sop = OShl
		if op == token.SHR {
			sop = OLShr
			if ti.signed {
				sop = OAShr
			}
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			m := fr.m
			if b.p == nil {
				if yi.signed && int64(b.n) < 0 {
					m.rtPanic("negative shift amount")
				}
				if a.p == nil {
					c := b.n
					if c > 64 {
						c = 64
					}
					fr.r[d] = Value{n: normInt(fold(sop, ti.w, a.n&mask(ti.w), c), ti)}
					return
				}
				c := b.n
				if c >= uint64(ti.w) {
					if sop == OAShr {
						c = uint64(ti.w) - 1
					} else {
						fr.r[d] = Value{}
						return
					}
				}
				fr.r[d] = m.intV(m.ts.Bin(sop, m.term(a, ti), m.ts.Const(c, ti.w)), ti)
				return
			}
			bt := b.p.(*Term)
			if yi.signed && m.branch(m.ts.Cmp(OSLt, bt, m.ts.Const(0, bt.w))) {
				m.rtPanic("negative shift amount")
			}
			at := m.term(a, ti)
			var ct *Term
			if bt.w <= at.w {
				ct = m.ts.ZExt(bt, at.w)
				fr.r[d] = m.intV(m.ts.Bin(sop, at, ct), ti)
				return
			}
			big := m.ts.Cmp(OULe, m.ts.Const(uint64(at.w), bt.w), bt)
			ct = m.ts.ITE(big, m.ts.Const(uint64(at.w)-1, at.w), m.ts.Extract(bt, 0, at.w))
			r := m.ts.Bin(sop, at, ct)
			if sop != OAShr {
				r = m.ts.ITE(big, m.ts.Const(0, at.w), r)
			}
			fr.r[d] = m.intV(r, ti)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		isCmp = true
		sop = OULt
		if ti.signed {
			sop = OSLt
		}
		swap = op == token.GTR || op == token.LEQ
		neg = op == token.LEQ || op == token.GEQ
		signed := ti.signed
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.p == nil && b.p == nil {
				if swap {
					a, b = b, a
				}
				var r bool
				if signed {
					r = int64(a.n) < int64(b.n)
				} else {
					r = a.n < b.n
				}
				fr.r[d] = Value{n: b2u(r != neg)}
				return
			}
			m := fr.m
			at, bt := m.term(a, ti), m.term(b, ti)
			if swap {
				at, bt = bt, at
			}
			r := m.ts.Cmp(sop, at, bt)
			if neg {
				r = m.ts.Not(r)
			}
			fr.r[d] = m.boolV(r)
		}
	}
	_ = isCmp
	if f == nil {
		return fc.unsupInstr(in)
	}
	return func(fr *frame) {
		a, b := x.get(fr), y.get(fr)
		if a.p == nil && b.p == nil {
			fr.r[d] = Value{n: normInt(f(a.n, b.n), ti)}
			return
		}
		m := fr.m
		if _, ok := a.p.(*Value); ok {
			m.unsup("pointer arithmetic")
		}
		fr.r[d] = m.intV(m.ts.Bin(sop, m.term(a, ti), m.term(b, ti)), ti)
	}
}

// strCmp orders two strings, forking on symbolic bytes.
func (m *Machine) strCmp(a, b Value) (lt, eq bool) {
	sa, ok1 := concreteStr(a)
	sb, ok2 := concreteStr(b)
	if ok1 && ok2 {
		return sa < sb, sa == sb
	}
	x, y := strBytes(a), strBytes(b)
	ti := tinfo{kInt, 8, false}
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].p == nil && y[i].p == nil {
			if x[i].n != y[i].n {
				return x[i].n < y[i].n, false
			}
			continue
		}
		p, q := m.term(x[i], ti), m.term(y[i], ti)
		if m.branch(m.ts.Cmp(OEq, p, q)) {
			continue
		}
		return m.branch(m.ts.Cmp(OULt, p, q)), false
	}
	return len(x) < len(y), len(x) == len(y)
}

// eq compares two values of type t; the result may be symbolic.
func (m *Machine) eq(t types.Type, a, b Value) Value {
	ti := infoOf(t)
	switch ti.k {
	case kBool:
		if a.p == nil && b.p == nil {
			return Value{n: b2u(a.n == b.n)}
		}
		return m.boolV(m.ts.Cmp(OEq, m.bterm(a), m.bterm(b)))
	case kInt:
		if a.p == nil && b.p == nil {
			return Value{n: b2u(a.n == b.n)}
		}
		return m.boolV(m.ts.Cmp(OEq, m.term(a, ti), m.term(b, ti)))
	case kFloat:
		return Value{n: b2u(math.Float64frombits(a.n) == math.Float64frombits(b.n))}
	case kString:
		return m.strEq(a, b)
	case kAgg:
		x, y := a.p.(*Agg).e, b.p.(*Agg).e
		acc := m.ts.Bool(true)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x {
				if u.Field(i).Name() == "_" {
					continue
				}
				acc = m.ts.And(acc, m.bterm(m.eq(u.Field(i).Type(), x[i], y[i])))
			}
		case *types.Array:
			for i := range x {
				acc = m.ts.And(acc, m.bterm(m.eq(u.Elem(), x[i], y[i])))
			}
		}
		return m.boolV(acc)
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return Value{n: b2u(x == nil && y == nil)}
		}
		if !m.P.identical(x.t, y.t) {
			return Value{}
		}
		return m.eq(x.t, x.v, y.v)
	case kFunc:
		x, _ := a.p.(*Closure)
		y, _ := b.p.(*Closure)
		return Value{n: b2u(x == y)}
	case kSlice, kMap:
		return Value{n: b2u((a.p == nil) == (b.p == nil) && a.p == nil)}
	}
	// pointers, channels, unsafe pointers
	return Value{n: b2u(a.p == b.p && a.n == b.n)}
}

func (m *Machine) strEq(a, b Value) Value {
	sa, ok1 := concreteStr(a)
	sb, ok2 := concreteStr(b)
	if ok1 && ok2 {
		return Value{n: b2u(sa == sb)}
	}
	if strLen(a) != strLen(b) {
		return Value{}
	}
	x, y := strBytes(a), strBytes(b)
	ti := tinfo{kInt, 8, false}
	acc := m.ts.Bool(true)
	for i := range x {
		if x[i].p == nil && y[i].p == nil {
			if x[i].n != y[i].n {
				return Value{}
			}
			continue
		}
		acc = m.ts.And(acc, m.ts.Cmp(OEq, m.term(x[i], ti), m.term(y[i], ti)))
	}
	return m.boolV(acc)
}

// ---- maps

func (m *Machine) canonKey(t types.Type, k Value) (any, bool) {
	ti := infoOf(t)
	switch ti.k {
	case kInt, kBool, kFloat:
		if k.p != nil {
			return nil, false
		}
		return k.n, true
	case kString:
		s, ok := concreteStr(k)
		return s, ok
	case kIface:
		x, _ := k.p.(*Iface)
		if x == nil {
			return nil, true
		}
		c, ok := m.canonKey(x.t, x.v)
		if !ok {
			return nil, false
		}
		return [2]any{m.P.typeKey(x.t), c}, true
	case kAgg:
		a := k.p.(*Agg)
		var sb strings.Builder
		for i := range a.e {
			var et types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			c, ok := m.canonKey(et, a.e[i])
			if !ok {
				return nil, false
			}
			if p, isp := c.(*Value); isp {
				fmt.Fprintf(&sb, "%p|", p)
			} else {
				fmt.Fprintf(&sb, "%T:%v|", c, c)
			}
		}
		return sb.String(), true
	case kPtr, kUnsafe:
		p, _ := k.p.(*Value)
		return p, true
	}
	m.unsup("map key kind %d", ti.k)
	return nil, false
}

// mapFind locates the entry of key k, forking on symbolic keys.
func (m *Machine) mapFind(mp *Map, kt types.Type, k Value) int {
	if mp == nil {
		return -1
	}
	ck, ok := m.canonKey(kt, k)
	if ok && !mp.sym {
		if i, ok := mp.idx[ck]; ok && !mp.ents[i].deleted {
			return i
		}
		return -1
	}
	for i := range mp.ents {
		if mp.ents[i].deleted {
			continue
		}
		e := m.eq(kt, mp.ents[i].k, k)
		if m.truth(e) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, kt types.Type, k, v Value) {
	i := m.mapFind(mp, kt, k)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	ck, ok := m.canonKey(kt, k)
	if ok {
		mp.idx[ck] = len(mp.ents)
	} else {
		mp.sym = true
	}
	mp.ents = append(mp.ents, mapEntry{k: k, v: v})
	mp.live++
}

func (m *Machine) mapDelete(mp *Map, kt types.Type, k Value) {
	if mp == nil {
		return
	}
	if i := m.mapFind(mp, kt, k); i >= 0 {
		mp.ents[i].deleted = true
		mp.live--
		if ck, ok := m.canonKey(kt, mp.ents[i].k); ok {
			delete(mp.idx, ck)
		}
	}
}

func (m *Machine) newMapIter(mp *Map) *mapIter {
	it := &mapIter{m: mp}
	for i := range mp.ents {
		if !mp.ents[i].deleted {
			it.order = append(it.order, i)
		}
	}
	it.free = m.mapOrder // Go leaves the order unspecified: any permutation may come
	return it
}

func (fc *fcomp) lookup(in *ssa.Lookup, d int32) func(fr *frame) {
	x, ix := fc.op(in.X), fc.op(in.Index)
	if infoOf(in.X.Type()).k == kString {
		ii := infoOf(in.Index.Type())
		return func(fr *frame) { fr.r[d] = fr.m.strIndex(x.get(fr), ix.get(fr), ii) }
	}
	mt := in.X.Type().Underlying().(*types.Map)
	z := zeroMaker(mt.Elem())
	commaOk := in.CommaOk
	return func(fr *frame) {
		mp, _ := x.get(fr).p.(*Map)
		i := fr.m.mapFind(mp, mt.Key(), ix.get(fr))
		var v Value
		if i >= 0 {
			v = copyVal(mp.ents[i].v)
		} else {
			v = z()
		}
		if commaOk {
			fr.r[d] = Value{p: []Value{v, {n: b2u(i >= 0)}}}
		} else {
			fr.r[d] = v
		}
	}
}

// ---- slices

func (fc *fcomp) slice(in *ssa.Slice, d int32) func(fr *frame) {
	x := fc.op(in.X)
	opt := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := fc.op(v)
		return &o
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	xi := infoOf(in.X.Type())
	iti := tinfo{kInt, 64, true}
	return func(fr *frame) {
		m := fr.m
		v := x.get(fr)
		g := func(o *opnd, def int) int {
			if o == nil {
				return def
			}
			return int(int64(m.conc(o.get(fr), iti)))
		}
		if xi.k == kString {
			n := strLen(v)
			l, h := g(lo, 0), g(hi, n)
			if l < 0 || h < l || h > n {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if s, ok := concreteStr(v); ok {
				fr.r[d] = strVal(s[l:h])
			} else {
				fr.r[d] = strSlice(v.p.(*SymStr), l, h)
			}
			return
		}
		var e []Value
		if xi.k == kPtr {
			e = m.deref(v).p.(*Agg).e
		} else if v.p != nil {
			e = v.p.([]Value)
		}
		l := g(lo, 0)
		h := g(hi, len(e))
		c := g(mx, cap(e))
		if l < 0 || h < l || c < h || c > cap(e) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, cap(e)))
		}
		if v.p == nil && xi.k == kSlice {
			fr.r[d] = Value{}
			return
		}
		fr.r[d] = Value{p: e[l:h:c]}
	}
}

// ---- conversions

func (fc *fcomp) convert(xv ssa.Value, dt types.Type, d int32) func(fr *frame) {
	x := fc.op(xv)
	si, di := infoOf(xv.Type()), infoOf(dt)
	switch {
	case si.k == kInt && di.k == kInt:
		return func(fr *frame) {
			v := x.get(fr)
			if v.p == nil {
				fr.r[d] = Value{n: normInt(v.n, di)}
				return
			}
			t, ok := v.p.(*Term)
			if !ok {
				fr.r[d] = v // pointer disguised as uintptr
				return
			}
			fr.r[d] = fr.m.intV(fr.m.resize(t, si.signed, di.w), di)
		}
	case si.k == kInt && di.k == kFloat:
		return func(fr *frame) {
			v := x.get(fr)
			if v.p != nil {
				fr.m.unsup("symbolic int to float")
			}
			if si.signed {
				fr.r[d] = Value{n: math.Float64bits(float64(int64(v.n)))}
			} else {
				fr.r[d] = Value{n: math.Float64bits(float64(v.n))}
			}
		}
	case si.k == kFloat && di.k == kInt:
		return func(fr *frame) {
			f := math.Float64frombits(x.get(fr).n)
			if di.signed {
				fr.r[d] = Value{n: normInt(uint64(int64(f)), di)}
			} else {
				fr.r[d] = Value{n: normInt(uint64(f), di)}
			}
		}
	case si.k == kFloat && di.k == kFloat:
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case si.k == kInt && di.k == kString:
		return func(fr *frame) {
			fr.r[d] = mkStr(fr.m.encodeRune(x.get(fr), si))
		}
	case si.k == kString && di.k == kString:
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case si.k == kString && di.k == kSlice:
		if infoOf(dt.Underlying().(*types.Slice).Elem()).w == 8 {
			return func(fr *frame) {
				b := strBytes(x.get(fr))
				fr.r[d] = Value{p: append(make([]Value, 0, len(b)), b...)}
			}
		}
		return func(fr *frame) {
			b := strBytes(x.get(fr))
			out := make([]Value, 0, len(b))
			for i := 0; i < len(b); {
				r, n := fr.m.decodeRune(b[i:])
				out = append(out, r)
				i += n
			}
			fr.r[d] = Value{p: out}
		}
	case si.k == kSlice && di.k == kString:
		if infoOf(xv.Type().Underlying().(*types.Slice).Elem()).w == 8 {
			return func(fr *frame) {
				b, _ := x.get(fr).p.([]Value)
				fr.r[d] = mkStr(b)
			}
		}
		return func(fr *frame) {
			rs, _ := x.get(fr).p.([]Value)
			var out []Value
			for _, r := range rs {
				out = append(out, fr.m.encodeRune(r, tinfo{kInt, 32, true})...)
			}
			fr.r[d] = mkStr(out)
		}
	case si.k == kUnsafe || di.k == kUnsafe || (si.k == kPtr && di.k == kPtr):
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case si.k == di.k:
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	}
	s := fmt.Sprintf("convert %s to %s", xv.Type(), dt)
	return func(fr *frame) { fr.m.unsup("%s", s) }
}

func (m *Machine) resize(t *Term, signed bool, w uint8) *Term {
	switch {
	case t.w == w:
		return t
	case t.w > w:
		return m.ts.Extract(t, 0, w)
	case signed:
		return m.ts.SExt(t, w)
	default:
		return m.ts.ZExt(t, w)
	}
}

func (m *Machine) encodeRune(v Value, ti tinfo) []Value {
	if v.p == nil {
		var s string
		if ti.signed {
			i := int64(v.n)
			if i < 0 || i > 0x10ffff {
				i = 0xfffd
			}
			s = string(rune(i))
		} else {
			i := v.n
			if i > 0x10ffff {
				i = 0xfffd
			}
			s = string(rune(i))
		}
		return strBytes(strVal(s))
	}
	t := v.p.(*Term)
	w := t.w
	c := func(k uint64) *Term { return m.ts.Const(k, w) }
	byteOf := func(x *Term, or uint64) Value {
		b := m.ts.Extract(x, 0, 8)
		if or != 0 {
			b = m.ts.Bin(OOr, b, m.ts.Const(or, 8))
		}
		return m.intV(b, tinfo{kInt, 8, false})
	}
	sh := func(n uint64, msk uint64) *Term {
		return m.ts.Bin(OAnd, m.ts.Bin(OLShr, t, c(n)), c(msk))
	}
	if w <= 8 {
		if w == 8 && !ti.signed {
			if m.branch(m.ts.Cmp(OULt, t, c(0x80))) {
				return []Value{v}
			}
			return m.encodeRune(Value{p: m.ts.ZExt(t, 32)}, tinfo{kInt, 32, true})
		}
		m.unsup("rune of width %d", w)
	}
	if m.branch(m.ts.Cmp(OULt, t, c(0x80))) {
		return []Value{byteOf(t, 0)}
	}
	if m.branch(m.ts.Cmp(OULt, t, c(0x800))) {
		return []Value{byteOf(sh(6, 0x1f), 0xc0), byteOf(sh(0, 0x3f), 0x80)}
	}
	k := m.conc(v, ti)
	return m.encodeRune(Value{n: k}, ti)
}

func (m *Machine) decodeRune(b []Value) (Value, int) {
	if b[0].p != nil {
		t := b[0].p.(*Term)
		if m.branch(m.ts.Cmp(OULt, t, m.ts.Const(0x80, 8))) {
			return Value{p: m.ts.ZExt(t, 32)}, 1
		}
		m.conc(b[0], tinfo{kInt, 8, false})
	}
	buf := make([]byte, 0, 4)
	for i := 0; i < len(b) && i < 4; i++ {
		if i > 0 && b[0].n < 0x80 && b[0].p == nil {
			break
		}
		buf = append(buf, byte(m.conc(b[i], tinfo{kInt, 8, false})))
	}
	r, n := decodeRuneBytes(buf)
	return Value{n: normInt(uint64(r), tinfo{kInt, 32, true})}, n
}

// ---- type assertions

func (fc *fcomp) typeAssert(in *ssa.TypeAssert, d int32) func(fr *frame) {
	x := fc.op(in.X)
	at := in.AssertedType
	isIface := types.IsInterface(at)
	z := zeroMaker(at)
	commaOk := in.CommaOk
	P := fc.P
	return func(fr *frame) {
		i, _ := x.get(fr).p.(*Iface)
		ok := false
		var v Value
		if i != nil {
			if isIface {
				ok = P.implements(i.t, at)
				v = Value{p: i}
			} else {
				ok = P.identical(i.t, at)
				v = i.v
			}
		}
		if !ok {
			v = z()
		} else {
			v = copyVal(v)
		}
		if commaOk {
			fr.r[d] = Value{p: []Value{v, {n: b2u(ok)}}}
			return
		}
		if !ok {
			fr.m.rtPanic(fmt.Sprintf("interface conversion to %s", at))
		}
		fr.r[d] = v
	}
}

type typePair struct{ a, b types.Type }

var identCache, implCache sync.Map

func (P *Program) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := typePair{a, b}
	if r, ok := identCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Identical(a, b)
	identCache.Store(k, r)
	return r
}

func (P *Program) implements(a, b types.Type) bool {
	k := typePair{a, b}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(a, b.Underlying().(*types.Interface))
	implCache.Store(k, r)
	return r
}

var typeKeys sync.Map

func (P *Program) typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(t, nil)
	typeKeys.Store(t, k)
	return k
}

func (P *Program) method(t types.Type, f *types.Func) *cfn {
	k := methKey{t, f}
	if c, ok := P.methods.Load(k); ok {
		return c.(*cfn)
	}
	fn := func() *ssa.Function {
		P.mu.Lock()
		defer P.mu.Unlock()
		return P.prog.LookupMethod(t, f.Pkg(), f.Name())
	}()
	if fn == nil {
		return nil
	}
	c := P.cfnOf(fn)
	P.methods.Store(k, c)
	return c
}

// ---- calls

func (fc *fcomp) callThunk(call *ssa.CallCommon) func(fr *frame) Value {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, fc.op(a))
	}
	var agg []bool
	for _, a := range call.Args {
		agg = append(agg, infoOf(a.Type()).k == kAgg)
	}
	n := len(args)
	fill := func(fr *frame, dst []Value) {
		for i := range args {
			v := args[i].get(fr)
			if agg[i] {
				v = copyVal(v)
			}
			dst[i] = v
		}
	}
	if call.IsInvoke() {
		x := fc.op(call.Value)
		meth := call.Method
		P := fc.P
		return func(fr *frame) Value {
			i, _ := x.get(fr).p.(*Iface)
			if i == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
			}
			cf := P.method(i.t, meth)
			if cf == nil {
				fr.m.unsup("no method %s for %s", meth, i.t)
			}
			av := make([]Value, n+1)
			av[0] = copyVal(i.v)
			fill(fr, av[1:])
			return fr.m.call(fr, cf, nil, av)
		}
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		return fc.builtin(f, call, args)
	case *ssa.Function:
		cf := fc.P.cfnOf(f)
		return func(fr *frame) Value {
			var buf [6]Value
			var av []Value
			if n <= 6 {
				av = buf[:n]
			} else {
				av = make([]Value, n)
			}
			fill(fr, av)
			return fr.m.call(fr, cf, nil, av)
		}
	}
	fv := fc.op(call.Value)
	return func(fr *frame) Value {
		av := make([]Value, n)
		fill(fr, av)
		return fr.m.callValue(fr, fv.get(fr), av)
	}
}

func (fc *fcomp) deferThunk(call *ssa.CallCommon) func(fr *frame) func(fr *frame) {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, fc.op(a))
	}
	eval := func(fr *frame) []Value {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = copyVal(args[i].get(fr))
		}
		return av
	}
	if call.IsInvoke() {
		x := fc.op(call.Value)
		meth := call.Method
		P := fc.P
		return func(fr *frame) func(fr *frame) {
			i, _ := x.get(fr).p.(*Iface)
			if i == nil {
				fr.m.rtPanic("nil interface in defer")
			}
			cf := P.method(i.t, meth)
			av := append([]Value{copyVal(i.v)}, eval(fr)...)
			return func(fr *frame) { fr.m.call(fr, cf, nil, av) }
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return func(fr *frame) func(fr *frame) {
			av := eval(fr)
			os := make([]opnd, len(av))
			for i := range av {
				os[i] = opnd{idx: -1, k: av[i]}
			}
			th := fc.builtin(b, call, os)
			return func(fr *frame) { th(fr) }
		}
	}
	fv := fc.op(call.Value)
	return func(fr *frame) func(fr *frame) {
		av := eval(fr)
		f := fv.get(fr)
		return func(fr *frame) { fr.m.callValue(fr, f, av) }
	}
}

func (fc *fcomp) builtin(b *ssa.Builtin, call *ssa.CallCommon, args []opnd) func(fr *frame) Value {
	name := b.Name()
	switch name {
	case "len", "cap":
		return func(fr *frame) Value {
			v := args[0].get(fr)
			switch p := v.p.(type) {
			case string:
				return Value{n: uint64(len(p))}
			case *SymStr:
				return Value{n: uint64(len(p.b))}
			case []Value:
				if name == "cap" {
					return Value{n: uint64(cap(p))}
				}
				return Value{n: uint64(len(p))}
			case *Map:
				return Value{n: uint64(p.live)}
			case *Agg:
				return Value{n: uint64(len(p.e))}
			case *Value:
				return Value{n: uint64(len(p.p.(*Agg).e))}
			case nil:
				return Value{}
			}
			fr.m.unsup("len of %T", v.p)
			return Value{}
		}
	case "append":
		if len(args) == 1 {
			return func(fr *frame) Value { return args[0].get(fr) }
		}
		yk := infoOf(call.Args[1].Type()).k
		return func(fr *frame) Value {
			x, y := args[0].get(fr), args[1].get(fr)
			var xs, ys []Value
			if x.p != nil {
				xs = x.p.([]Value)
			}
			if yk == kString {
				ys = strBytes(y)
			} else if y.p != nil {
				ys = y.p.([]Value)
			}
			if len(ys) == 0 {
				return x
			}
			need := len(xs) + len(ys)
			if need <= cap(xs) {
				out := xs[:need]
				for i := range ys {
					out[len(xs)+i] = copyVal(ys[i])
				}
				return Value{p: out}
			}
			nc := cap(xs) * 2
			if nc < need {
				nc = need
			}
			if nc < 4 {
				nc = 4
			}
			out := make([]Value, need, nc)
			copy(out, xs)
			for i := range ys {
				out[len(xs)+i] = copyVal(ys[i])
			}
			// fill the spare capacity lazily with zero values: append overwrites before it is visible
			return Value{p: out}
		}
	case "copy":
		yk := infoOf(call.Args[1].Type()).k
		return func(fr *frame) Value {
			x, y := args[0].get(fr), args[1].get(fr)
			var xs, ys []Value
			if x.p != nil {
				xs = x.p.([]Value)
			}
			if str, ok := y.p.(string); ok && yk == kString {
				ys = strBytes(strVal(str[:min(len(str), len(xs))]))
			} else if yk == kString {
				ys = strBytes(y)
			} else if y.p != nil {
				ys = y.p.([]Value)
			}
			n := min(len(xs), len(ys))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(ys[i])
			}
			copy(xs, tmp)
			return Value{n: uint64(n)}
		}
	case "delete":
		kt := call.Args[0].Type().Underlying().(*types.Map).Key()
		return func(fr *frame) Value {
			mp, _ := args[0].get(fr).p.(*Map)
			fr.m.mapDelete(mp, kt, args[1].get(fr))
			return Value{}
		}
	case "panic":
		return func(fr *frame) Value { panic(targetPanic{args[0].get(fr)}) }
	case "recover":
		return func(fr *frame) Value {
			if fr.caller != nil && fr.caller.panicking {
				fr.caller.panicking = false
				return fr.caller.panicv.(targetPanic).v
			}
			return Value{}
		}
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "min", "max":
		ti := infoOf(call.Args[0].Type())
		return func(fr *frame) Value {
			r := args[0].get(fr)
			for _, a := range args[1:] {
				v := a.get(fr)
				if r.p != nil || v.p != nil {
					fr.m.unsup("symbolic min/max")
				}
				less := v.n < r.n
				if ti.signed {
					less = int64(v.n) < int64(r.n)
				}
				if less == (name == "min") {
					r = v
				}
			}
			return r
		}
	case "clear":
		return func(fr *frame) Value {
			switch p := args[0].get(fr).p.(type) {
			case *Map:
				p.ents, p.idx, p.live, p.sym = nil, map[any]int{}, 0, false
			case []Value:
				z := zeroMaker(call.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range p {
					p[i] = z()
				}
			}
			return Value{}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := args[0].get(fr)
			if v.p == nil {
				fr.m.rtPanic("value method called using nil pointer")
			}
			return v
		}
	case "Sizeof":
		n := uint64(types.SizesFor("gc", "amd64").Sizeof(call.Args[0].Type()))
		return func(fr *frame) Value { return Value{n: n} }
	case "String": // unsafe.String(ptr, len)
		return func(fr *frame) Value {
			fr.m.unsup("unsafe.String")
			return Value{}
		}
	}
	return func(fr *frame) Value { fr.m.unsup("builtin %s", name); return Value{} }
}
