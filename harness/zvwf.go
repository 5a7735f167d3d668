package main

import (
	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/types"
	"github.com/llir/llvm/ir/value"
)

// Well-formedness of a module, by the rules of the LLVM language reference (pointers are opaque).

func zvIsPtr(t types.Type) bool {
	_, ok := t.(*types.PointerType)
	return ok
}

func zvSameType(a, b types.Type) bool {
	if zvIsPtr(a) || zvIsPtr(b) {
		return zvIsPtr(a) && zvIsPtr(b)
	}
	return types.Equal(a, b)
}

type zvWF struct {
	syms map[string]bool
	def  map[value.Value]*ir.Block
	idx  map[value.Value]int
	num  map[*ir.Block]int
	idom []int
	rch  map[*ir.Block]bool
	fn   *ir.Func
	msg  string
}

func (w *zvWF) bad(s string) {
	if w.msg == "" {
		w.msg = s
	}
}

func zvWellFormed(mod *ir.Module) string {
	w := &zvWF{syms: map[string]bool{}}
	for _, g := range mod.Globals {
		if w.syms[g.Name()] {
			w.bad("symbol @" + g.Name() + " defined twice")
		}
		w.syms[g.Name()] = true
	}
	for _, f := range mod.Funcs {
		if w.syms[f.Name()] {
			w.bad("symbol @" + f.Name() + " defined twice")
		}
		w.syms[f.Name()] = true
	}
	for _, g := range mod.Globals {
		if g.Init != nil {
			w.konst(g.Init)
			if !zvSameType(g.Init.Type(), g.ContentType) {
				w.bad("initialiser of @" + g.Name() + " has the wrong type")
			}
		}
	}
	for _, f := range mod.Funcs {
		if len(f.Blocks) > 0 {
			w.function(f)
		}
		if w.msg != "" {
			break
		}
	}
	return w.msg
}

func (w *zvWF) konst(c constant.Constant) {
	switch c := c.(type) {
	case *ir.Global:
		if !w.syms[c.Name()] {
			w.bad("reference to undefined @" + c.Name())
		}
	case *ir.Func:
		if !w.syms[c.Name()] {
			w.bad("reference to undefined @" + c.Name())
		}
	case *constant.Array:
		at := c.Typ
		if int(at.Len) != len(c.Elems) {
			w.bad("array constant with the wrong number of elements")
		}
		for _, e := range c.Elems {
			w.konst(e)
			if !zvSameType(e.Type(), at.ElemType) {
				w.bad("array element of the wrong type")
			}
		}
	case *constant.ExprGetElementPtr:
		w.konst(c.Src)
		if !zvIsPtr(c.Src.Type()) {
			w.bad("getelementptr on a non-pointer")
		}
	case *constant.ExprPtrToInt:
		w.konst(c.From)
		if !zvIsPtr(c.From.Type()) {
			w.bad("ptrtoint of a non-pointer")
		}
	case *constant.ExprBitCast:
		w.konst(c.From)
	case *constant.ExprIntToPtr:
		w.konst(c.From)
	}
}

func zvSuccs(t ir.Terminator) []*ir.Block {
	var out []*ir.Block
	add := func(v value.Value) {
		if b, ok := v.(*ir.Block); ok {
			out = append(out, b)
		} else {
			out = append(out, nil)
		}
	}
	switch t := t.(type) {
	case *ir.TermBr:
		add(t.Target)
	case *ir.TermCondBr:
		add(t.TargetTrue)
		add(t.TargetFalse)
	case *ir.TermSwitch:
		add(t.TargetDefault)
		for _, c := range t.Cases {
			add(c.Target)
		}
	}
	return out
}

func (w *zvWF) function(f *ir.Func) {
	w.fn = f
	w.def = map[value.Value]*ir.Block{}
	w.idx = map[value.Value]int{}
	names := map[string]bool{}
	name := func(unnamed bool, n string) {
		if unnamed {
			return
		}
		if names[n] {
			w.bad("local name %" + n + " defined twice in @" + f.Name())
		}
		names[n] = true
	}
	for _, p := range f.Params {
		name(p.IsUnnamed(), p.Name())
		w.def[p] = f.Blocks[0]
		w.idx[p] = -1
	}
	in := map[*ir.Block]bool{}
	for _, b := range f.Blocks {
		name(b.IsUnnamed(), b.Name())
		if in[b] {
			w.bad("block listed twice")
		}
		in[b] = true
		for i, inst := range b.Insts {
			if v, ok := inst.(value.Named); ok {
				if !types.Equal(v.Type(), types.Void) {
					if n, ok := inst.(interface{ IsUnnamed() bool }); ok {
						name(n.IsUnnamed(), v.Name())
					}
				}
				if w.def[v] != nil {
					w.bad("instruction listed twice")
				}
				w.def[v] = b
				w.idx[v] = i
			}
		}
		if b.Term == nil {
			w.bad("block %" + zvBlkName(b) + " of @" + f.Name() + " has no terminator")
			return
		}
	}
	preds := map[*ir.Block][]*ir.Block{}
	for _, b := range f.Blocks {
		for _, s := range zvSuccs(b.Term) {
			if s == nil || !in[s] {
				w.bad("branch to a block outside @" + f.Name())
				return
			}
			dup := false
			for _, p := range preds[s] {
				if p == b {
					dup = true
				}
			}
			if !dup {
				preds[s] = append(preds[s], b)
			}
		}
	}
	if len(preds[f.Blocks[0]]) > 0 {
		w.bad("the entry block of @" + f.Name() + " has predecessors")
		return
	}
	w.dominators(f, preds)
	for _, b := range f.Blocks {
		phis := true
		for i, inst := range b.Insts {
			if p, ok := inst.(*ir.InstPhi); ok {
				if !phis {
					w.bad("phi after another instruction")
				}
				w.phi(p, b, preds[b])
				continue
			}
			phis = false
			if u, ok := inst.(value.User); ok {
				for _, op := range u.Operands() {
					if op != nil && *op != nil {
						w.use(*op, b, i)
					}
				}
			}
			w.types(inst)
		}
		if u, ok := b.Term.(value.User); ok {
			for _, op := range u.Operands() {
				if op != nil && *op != nil {
					if _, isBlk := (*op).(*ir.Block); !isBlk {
						w.use(*op, b, len(b.Insts))
					}
				}
			}
		}
		w.term(b)
		if w.msg != "" {
			return
		}
	}
}

func zvBlkName(b *ir.Block) string {
	if b.IsUnnamed() {
		return "?"
	}
	return b.Name()
}

// dominators finds the immediate dominators of the reachable blocks (Cooper, Harvey, Kennedy).
func (w *zvWF) dominators(f *ir.Func, preds map[*ir.Block][]*ir.Block) {
	w.rch = map[*ir.Block]bool{}
	w.num = map[*ir.Block]int{}
	entry := f.Blocks[0]
	stack := []*ir.Block{entry}
	left := [][]*ir.Block{zvSuccs(entry.Term)}
	w.rch[entry] = true
	var post []*ir.Block
	for len(stack) > 0 {
		k := len(stack) - 1
		if len(left[k]) == 0 {
			w.num[stack[k]] = len(post)
			post = append(post, stack[k])
			stack, left = stack[:k], left[:k]
			continue
		}
		s := left[k][0]
		left[k] = left[k][1:]
		if !w.rch[s] {
			w.rch[s] = true
			stack = append(stack, s)
			left = append(left, zvSuccs(s.Term))
		}
	}
	// blocks are numbered in postorder: a dominator has the greater number
	n := len(post)
	w.idom = make([]int, n)
	for i := range w.idom {
		w.idom[i] = -1
	}
	w.idom[n-1] = n - 1
	for changed := true; changed; {
		changed = false
		for i := n - 2; i >= 0; i-- {
			d := -1
			for _, p := range preds[post[i]] {
				if !w.rch[p] {
					continue
				}
				q := w.num[p]
				if w.idom[q] < 0 {
					continue
				}
				if d < 0 {
					d = q
					continue
				}
				for d != q {
					for d < q {
						d = w.idom[d]
					}
					for q < d {
						q = w.idom[q]
					}
				}
			}
			if w.idom[i] != d {
				w.idom[i] = d
				changed = true
			}
		}
	}
}

// dominates tells whether the reachable block d dominates the reachable block b.
func (w *zvWF) dominates(d, b *ir.Block) bool {
	if !w.rch[d] {
		return false
	}
	i, j := w.num[b], w.num[d]
	for i < j {
		i = w.idom[i]
	}
	return i == j
}

func (w *zvWF) use(v value.Value, b *ir.Block, i int) {
	if c, ok := v.(constant.Constant); ok {
		w.konst(c)
		return
	}
	if _, ok := v.(*ir.Block); ok {
		return
	}
	d, ok := w.def[v]
	if !ok {
		w.bad("use of a value of another function in @" + w.fn.Name())
		return
	}
	if !w.rch[b] {
		if d == b && w.idx[v] >= i {
			w.bad("use before definition in @" + w.fn.Name())
		}
		return
	}
	if d == b {
		if w.idx[v] >= i {
			w.bad("use before definition in @" + w.fn.Name())
		}
		return
	}
	if !w.dominates(d, b) {
		w.bad("definition does not dominate its use in @" + w.fn.Name())
	}
}

func (w *zvWF) phi(p *ir.InstPhi, b *ir.Block, preds []*ir.Block) {
	if len(p.Incs) != len(preds) {
		w.bad("phi entries do not match the predecessors in @" + w.fn.Name())
		return
	}
	for _, pr := range preds {
		n := 0
		for _, inc := range p.Incs {
			if inc.Pred == value.Value(pr) {
				n++
				if w.rch[pr] {
					w.use(inc.X, pr, len(pr.Insts))
				}
				if !zvSameType(inc.X.Type(), p.Type()) {
					w.bad("phi entry of the wrong type")
				}
			}
		}
		if n != 1 {
			w.bad("phi entries do not match the predecessors in @" + w.fn.Name())
		}
	}
}

func (w *zvWF) same(x, y value.Value, what string) {
	if !zvSameType(x.Type(), y.Type()) {
		w.bad(what + ": operand types differ")
	} else if _, ok := x.Type().(*types.IntType); !ok {
		w.bad(what + ": operands are not integers")
	}
}

func (w *zvWF) ptr(x value.Value, what string) {
	if !zvIsPtr(x.Type()) {
		w.bad(what + ": operand is not a pointer")
	}
}

func (w *zvWF) integer(x value.Value, what string) {
	if _, ok := x.Type().(*types.IntType); !ok {
		w.bad(what + ": operand is not an integer")
	}
}

func (w *zvWF) types(in ir.Instruction) {
	switch in := in.(type) {
	case *ir.InstLoad:
		w.ptr(in.Src, "load")
	case *ir.InstStore:
		w.ptr(in.Dst, "store")
		if !zvIsPtr(in.Src.Type()) {
			w.integer(in.Src, "store")
		}
	case *ir.InstGetElementPtr:
		w.ptr(in.Src, "getelementptr")
		for _, i := range in.Indices {
			w.integer(i, "getelementptr")
		}
	case *ir.InstAdd:
		w.same(in.X, in.Y, "add")
	case *ir.InstSub:
		w.same(in.X, in.Y, "sub")
	case *ir.InstMul:
		w.same(in.X, in.Y, "mul")
	case *ir.InstSDiv:
		w.same(in.X, in.Y, "sdiv")
	case *ir.InstSRem:
		w.same(in.X, in.Y, "srem")
	case *ir.InstAnd:
		w.same(in.X, in.Y, "and")
	case *ir.InstOr:
		w.same(in.X, in.Y, "or")
	case *ir.InstXor:
		w.same(in.X, in.Y, "xor")
	case *ir.InstShl:
		w.same(in.X, in.Y, "shl")
	case *ir.InstAShr:
		w.same(in.X, in.Y, "ashr")
	case *ir.InstLShr:
		w.same(in.X, in.Y, "lshr")
	case *ir.InstICmp:
		if !zvIsPtr(in.X.Type()) || !zvIsPtr(in.Y.Type()) {
			w.same(in.X, in.Y, "icmp")
		}
	case *ir.InstZExt:
		w.integer(in.From, "zext")
		if zvBits(in.From.Type()) >= zvBits(in.To) {
			w.bad("zext does not widen")
		}
	case *ir.InstSExt:
		w.integer(in.From, "sext")
		if zvBits(in.From.Type()) >= zvBits(in.To) {
			w.bad("sext does not widen")
		}
	case *ir.InstTrunc:
		w.integer(in.From, "trunc")
		if zvBits(in.From.Type()) <= zvBits(in.To) {
			w.bad("trunc does not narrow")
		}
	case *ir.InstIntToPtr:
		w.integer(in.From, "inttoptr")
	case *ir.InstPtrToInt:
		w.ptr(in.From, "ptrtoint")
	case *ir.InstVAArg:
		w.ptr(in.ArgList, "va_arg")
	case *ir.InstCall:
		w.ptr(in.Callee, "call")
		sig := in.Sig()
		if sig.Variadic {
			if len(in.Args) < len(sig.Params) {
				w.bad("call with too few arguments")
				return
			}
			for i, p := range sig.Params {
				if !zvSameType(p, in.Args[i].Type()) {
					w.bad("call argument of the wrong type")
				}
			}
		}
	}
}

func (w *zvWF) term(b *ir.Block) {
	switch t := b.Term.(type) {
	case *ir.TermRet:
		if t.X == nil {
			if !types.Equal(w.fn.Sig.RetType, types.Void) {
				w.bad("ret void in @" + w.fn.Name())
			}
		} else if !zvSameType(t.X.Type(), w.fn.Sig.RetType) {
			w.bad("returned value of the wrong type")
		}
	case *ir.TermCondBr:
		if it, ok := t.Cond.Type().(*types.IntType); !ok || it.BitSize != 1 {
			w.bad("branch condition is not a bit")
		}
	case *ir.TermSwitch:
		w.integer(t.X, "switch")
		for i, c := range t.Cases {
			if !zvSameType(c.X.Type(), t.X.Type()) {
				w.bad("case of the wrong type")
			}
			for _, d := range t.Cases[:i] {
				a, ok1 := c.X.(*constant.Int)
				e, ok2 := d.X.(*constant.Int)
				if ok1 && ok2 && a.X.Int64() == e.X.Int64() {
					w.bad("duplicate case in switch")
				}
			}
		}
	}
}
