package main

import (
	"github.com/llir/llvm/ir"
	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/types"
	"github.com/llir/llvm/ir/value"
)

// An executor for the LLVM IR module that the compiler built in memory. It gives the emitted instructions the meaning
// of the LLVM language reference; values may be symbolic.

type zvFault struct{ msg string }

type zvObj struct {
	base  int64
	size  int64 // bytes
	words []int64
	def   []bool
	bytes []int64 // byte objects
	name  string
	fn    string // functions
	ro    bool
	align int64
}

type zvEvent struct {
	name string
	args []int64
	objs map[int64]*zvObj // memory at the time of the call
}

// snap copies the memory.
func (m *zvMach) snap() map[int64]*zvObj {
	out := make(map[int64]*zvObj, len(m.objs))
	for k, o := range m.objs {
		if o.words != nil {
			c := *o
			c.words = append([]int64(nil), o.words...)
			c.def = append([]bool(nil), o.def...)
			o = &c
		}
		out[k] = o
	}
	return out
}

type zvVA struct {
	args []int64
	pos  int
}

type zvMach struct {
	funcs   map[string]*ir.Func
	gobj    map[string]*zvObj
	objs    map[int64]*zvObj
	next    int64
	va      map[int64]*zvVA
	trace   []zvEvent
	rets    *zvRets
	steps   int
	limit   int
	depth   int
	deepest int
	stack   int64 // bytes of automatic storage currently allocated
	peak    int64
	allocs  int
	noWrite int64 // objects up to this one must not be written
	noRead  int64 // or read
	active  map[*ir.Func]int
	strict  bool // reading undefined storage ends the path
}

// zvRets supplies the results of external calls, the same for both executions.
type zvRets struct{ vals []int64 }

func (r *zvRets) get(k int) int64 {
	for len(r.vals) <= k {
		r.vals = append(r.vals, vI64("ext"))
	}
	return r.vals[k]
}

func zvDie(msg string) { panic(zvFault{msg}) }

const zvShift = 24

func (m *zvMach) newObj(name string, size int64) *zvObj {
	m.next++
	o := &zvObj{base: m.next<<zvShift + 0x10000, size: size, name: name}
	m.objs[m.next] = o
	return o
}

func (m *zvMach) wordObj(name string, n int64, zero bool) *zvObj {
	if n > 1<<17 {
		zvDie("object too large for the model: " + name)
	}
	o := m.newObj(name, n*8)
	o.words = make([]int64, n)
	o.def = make([]bool, n)
	if zero {
		for i := range o.def {
			o.def[i] = true
		}
	}
	return o
}

// zvLoadModule lays out the module's globals.
func zvLoadModule(mod *ir.Module, rets *zvRets, limit int) *zvMach {
	m := &zvMach{deepest: 40, funcs: map[string]*ir.Func{}, gobj: map[string]*zvObj{}, objs: map[int64]*zvObj{}, va: map[int64]*zvVA{},
		rets: rets, limit: limit, next: 0x400000}
	for _, f := range mod.Funcs {
		n := f.Name()
		zvVisible(n, f.Linkage, f.Visibility)
		if zvCC(f.CallingConv) != enum.CallingConvNone {
			zvDie("a function of the program does not use the calling convention of C: " + n)
		}
		old := m.funcs[n]
		if old == nil || len(old.Blocks) == 0 {
			m.funcs[n] = f
		}
		if m.gobj[n] == nil {
			o := m.newObj(n, 0)
			o.fn = n
			m.gobj[n] = o
		}
	}
	for _, g := range mod.Globals {
		n := g.Name()
		if m.gobj[n] != nil {
			zvDie("symbol defined twice: " + n)
		}
		words, bytes := zvSizeOf(g.ContentType)
		var o *zvObj
		if bytes > 0 {
			o = m.newObj(n, bytes)
			o.bytes = make([]int64, bytes)
		} else {
			o = m.wordObj(n, words, true)
		}
		o.ro = g.Immutable
		o.align = int64(g.Align)
		zvVisible(n, g.Linkage, g.Visibility)
		if g.TLSModel != enum.TLSModelNone {
			zvDie("a variable for each thread: " + n)
		}
		m.gobj[n] = o
	}
	for _, g := range mod.Globals {
		if g.Init != nil {
			m.initObj(m.gobj[g.Name()], 0, g.Init)
		}
	}
	return m
}

// zvVisible: what the program declares can be used from other files.
func zvVisible(n string, l enum.Linkage, v enum.Visibility) {
	for i := 0; i < len(n); i++ {
		if n[i] == '.' && (i != 1 || n[0] != 'b') {
			return // not a name of the program
		}
	}
	if l == enum.LinkagePrivate || l == enum.LinkageInternal || l == enum.LinkageAvailableExternally {
		zvDie("other files cannot refer to " + n)
	}
}

// zvSizeOf gives the size in words, or in bytes for byte arrays.
func zvSizeOf(t types.Type) (words, bytes int64) {
	switch t := t.(type) {
	case *types.IntType:
		if t.BitSize == 8 {
			return 0, 1
		}
		return 1, 0
	case *types.PointerType:
		return 1, 0
	case *types.ArrayType:
		w, b := zvSizeOf(t.ElemType)
		return w * int64(t.Len), b * int64(t.Len)
	case *types.StructType:
		var w, b int64
		for _, f := range t.Fields {
			fw, fb := zvSizeOf(f)
			w += fw
			b += fb
		}
		return w, b
	}
	zvDie("unsupported type")
	return 0, 0
}

func zvBytesOf(t types.Type) int64 {
	w, b := zvSizeOf(t)
	return w*8 + b
}

func (m *zvMach) initObj(o *zvObj, off int64, c constant.Constant) {
	switch c := c.(type) {
	case *constant.Array:
		for _, e := range c.Elems {
			m.initObj(o, off, e)
			off += zvBytesOf(e.Type())
		}
	case *constant.Struct:
		for _, e := range c.Fields {
			m.initObj(o, off, e)
			off += zvBytesOf(e.Type())
		}
	case *constant.CharArray:
		for _, b := range c.X {
			o.bytes[off] = int64(b)
			off++
		}
	case *constant.ZeroInitializer:
	case *constant.Undef:
	default:
		v := m.constVal(c)
		if o.bytes != nil {
			if off >= o.size {
				zvDie("initialiser beyond object " + o.name)
			}
			o.bytes[off] = v & 255
			return
		}
		if off >= o.size {
			zvDie("initialiser beyond object " + o.name)
		}
		o.words[off/8] = v
	}
}

func zvTrunc(v int64, bits uint64) int64 {
	switch bits {
	case 1:
		return v & 1
	case 8:
		return int64(int8(v))
	case 16:
		return int64(int16(v))
	case 32:
		return int64(int32(v))
	}
	return v
}

func zvBits(t types.Type) uint64 {
	if it, ok := t.(*types.IntType); ok {
		return it.BitSize
	}
	return 64
}

func (m *zvMach) symAddr(name string) int64 {
	o := m.gobj[name]
	if o == nil {
		zvDie("reference to undefined symbol " + name)
	}
	return o.base
}

func (m *zvMach) constVal(c constant.Constant) int64 {
	switch c := c.(type) {
	case *constant.Int:
		return zvTrunc(c.X.Int64(), c.Typ.BitSize)
	case *constant.Null:
		return 0
	case *constant.ZeroInitializer:
		return 0
	case *constant.Undef:
		return vI64("undef")
	case *ir.Global:
		return m.symAddr(c.Name())
	case *ir.Func:
		return m.symAddr(c.Name())
	case *constant.ExprPtrToInt:
		return m.constVal(c.From)
	case *constant.ExprIntToPtr:
		return m.constVal(c.From)
	case *constant.ExprBitCast:
		return m.constVal(c.From)
	case *constant.ExprAdd:
		return m.constVal(c.X) + m.constVal(c.Y)
	case *constant.ExprSub:
		return m.constVal(c.X) - m.constVal(c.Y)
	case *constant.ExprGetElementPtr:
		var idx []int64
		for _, i := range c.Indices {
			if ix, ok := i.(*constant.Index); ok {
				idx = append(idx, m.constVal(ix.Constant))
			} else {
				idx = append(idx, m.constVal(i))
			}
		}
		return zvGEP(m.constVal(c.Src), c.ElemType, idx)
	}
	zvDie("unsupported constant")
	return 0
}

func zvGEP(base int64, t types.Type, idx []int64) int64 {
	for i, x := range idx {
		if i == 0 {
			base += x * zvBytesOf(t)
			continue
		}
		switch tt := t.(type) {
		case *types.ArrayType:
			t = tt.ElemType
			base += x * zvBytesOf(t)
		case *types.StructType:
			k := int(vConc(x))
			for j := 0; j < k; j++ {
				base += zvBytesOf(tt.Fields[j])
			}
			t = tt.Fields[k]
		default:
			zvDie("getelementptr into a scalar")
		}
	}
	return base
}

// zvSlot tells which object a word was derived from (0: it is not an address).
func zvSlot(v int64) int64 {
	s := vBase(v) >> zvShift
	if s >= 0x400000 && s < 0x600000 {
		return s
	}
	return 0
}

func zvIsAddr(v int64) bool { return zvSlot(v) != 0 }

func (m *zvMach) find(addr int64, size int64) (*zvObj, int64) {
	o := m.objs[zvSlot(addr)]
	if o == nil {
		zvDie("access outside every object")
	}
	off := addr - o.base
	if uint64(off) > uint64(o.size-size) || o.size < size {
		zvDie("access beyond the end of " + o.name)
	}
	if !vIsConst(off) {
		off = vConc(off)
	}
	return o, off
}

// aligned: an access that promises an alignment beyond a word's. Objects have no more than that.
func (m *zvMach) aligned(addr, n int64) {
	if n <= 8 {
		return
	}
	if o := m.objs[zvSlot(addr)]; o == nil || n > o.align || (addr-o.base)%n != 0 {
		zvDie("an access is said to be better aligned than it is")
	}
}

func (m *zvMach) load(addr int64, bits uint64) int64 {
	o, off := m.find(addr, int64(bits+7)/8)
	if m.noRead != 0 && o.base>>zvShift <= m.noRead && !o.ro {
		zvDie("a function said not to read memory does")
	}
	if o.bytes != nil {
		var v int64
		for i := int64(0); i < int64(bits+7)/8; i++ {
			v |= (o.bytes[off+i] & 255) << uint(8*i)
		}
		return zvTrunc(v, bits)
	}
	if bits == 64 {
		if off%8 != 0 {
			zvDie("misaligned word access in " + o.name)
		}
		i := off / 8
		if !o.def[i] {
			vAssume(!m.strict)
			o.words[i] = vI64("uninit")
			o.def[i] = true
		}
		return o.words[i]
	}
	if off%8+int64(bits+7)/8 > 8 {
		zvDie("access crosses words in " + o.name)
	}
	return zvTrunc(o.words[off/8]>>uint(8*(off%8)), bits)
}

func (m *zvMach) store(addr, v int64, bits uint64) {
	o, off := m.find(addr, int64(bits+7)/8)
	if o.ro {
		zvDie("store into constant " + o.name)
	}
	if m.noWrite != 0 && o.base>>zvShift <= m.noWrite {
		zvDie("a function said not to write memory does")
	}
	if o.bytes != nil {
		for i := int64(0); i < int64(bits+7)/8; i++ {
			o.bytes[off+i] = (v >> uint(8*i)) & 255
		}
		return
	}
	if bits != 64 || off%8 != 0 {
		zvDie("misaligned word access in " + o.name)
	}
	o.words[off/8] = v
	o.def[off/8] = true
}

type zvFrame struct {
	f    *ir.Func
	vals map[value.Value]int64
	va   []int64
	objs []*zvObj
	used int64
}

func (m *zvMach) val(fr *zvFrame, v value.Value) int64 {
	if x, ok := fr.vals[v]; ok {
		return x
	}
	if c, ok := v.(constant.Constant); ok {
		return m.constVal(c)
	}
	zvDie("use of a value that was not computed")
	return 0
}

func (m *zvMach) callName(name string, args []int64) int64 {
	f := m.funcs[name]
	if f == nil {
		zvDie("call of undefined symbol " + name)
	}
	return m.promised(f, args, 0)
}

func (m *zvMach) callFn(f *ir.Func, args []int64) int64 {
	if cur := m.funcs[f.Name()]; cur != nil {
		f = cur
	}
	if len(f.Blocks) == 0 {
		if m.noWrite != 0 || m.noRead != 0 {
			zvDie("a function said to leave memory alone calls another")
		}
		k := len(m.trace)
		m.trace = append(m.trace, zvEvent{f.Name(), append([]int64(nil), args...), m.snap()})
		return m.rets.get(k)
	}
	m.depth++
	if m.depth > m.deepest {
		zvDie("call depth")
	}
	fr := &zvFrame{f: f, vals: map[value.Value]int64{}}
	for i, p := range f.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		} else {
			fr.vals[p] = vI64("missing")
		}
	}
	if len(args) > len(f.Params) {
		fr.va = args[len(f.Params):]
	}
	r := m.run(fr)
	for _, o := range fr.objs {
		delete(m.objs, o.base>>zvShift)
	}
	m.stack -= fr.used
	m.depth--
	return r
}

func zvBlockOf(v value.Value) *ir.Block {
	b, ok := v.(*ir.Block)
	if !ok {
		zvDie("branch to something that is not a block")
	}
	return b
}

func (m *zvMach) run(fr *zvFrame) int64 {
	blk := fr.f.Blocks[0]
	var prev *ir.Block
	for {
		// phi nodes read their inputs simultaneously
		n := 0
		var pv []int64
		for _, in := range blk.Insts {
			phi, ok := in.(*ir.InstPhi)
			if !ok {
				break
			}
			found := false
			for _, inc := range phi.Incs {
				if inc.Pred == value.Value(prev) {
					pv = append(pv, m.val(fr, inc.X))
					found = true
					break
				}
			}
			if !found {
				zvDie("phi without an entry for its predecessor")
			}
			n++
		}
		for i := 0; i < n; i++ {
			fr.vals[blk.Insts[i].(*ir.InstPhi)] = pv[i]
		}
		for _, in := range blk.Insts[n:] {
			m.steps++
			m.inst(fr, in)
		}
		m.steps++
		if m.steps > m.limit {
			zvDie("the compiled program does not terminate")
		}
		prev = blk
		switch t := blk.Term.(type) {
		case *ir.TermRet:
			if t.X == nil {
				return 0
			}
			return m.val(fr, t.X)
		case *ir.TermBr:
			blk = zvBlockOf(t.Target)
		case *ir.TermCondBr:
			if m.val(fr, t.Cond)&1 != 0 {
				blk = zvBlockOf(t.TargetTrue)
			} else {
				blk = zvBlockOf(t.TargetFalse)
			}
		case *ir.TermSwitch:
			x := m.val(fr, t.X)
			dst := t.TargetDefault
			for _, c := range t.Cases {
				if x == m.val(fr, c.X) {
					dst = c.Target
					break
				}
			}
			blk = zvBlockOf(dst)
		case *ir.TermUnreachable:
			zvDie("unreachable executed")
		default:
			zvDie("block without a terminator")
		}
	}
}

func (m *zvMach) callInst(fr *zvFrame, in *ir.InstCall, f *ir.Func, args []int64) int64 {
	if zvCC(in.CallingConv) != zvCC(f.CallingConv) {
		zvDie("the caller and the function disagree on the calling convention")
	}
	tail := in.Tail == enum.TailTail || in.Tail == enum.TailMustTail
	if tail { // the callee must not reach the caller's storage
		for _, o := range fr.objs {
			delete(m.objs, o.base>>zvShift)
		}
	}
	r := m.promised(f, args, zvAttrs(in.FuncAttrs))
	if tail {
		for _, o := range fr.objs {
			m.objs[o.base>>zvShift] = o
		}
	}
	return r
}

func zvIdx(m *zvMach, fr *zvFrame, vs []value.Value) []int64 {
	out := make([]int64, len(vs))
	for i, v := range vs {
		out[i] = m.val(fr, v)
	}
	return out
}

func (m *zvMach) inst(fr *zvFrame, in ir.Instruction) {
	switch in := in.(type) {
	case *ir.InstAlloca:
		w, b := zvSizeOf(in.ElemType)
		n := int64(1)
		if in.NElems != nil {
			n = vConc(m.val(fr, in.NElems))
		}
		w, b = w*n, b*n
		var o *zvObj
		name := "automatic storage"
		if b > 0 {
			o = m.newObj(name, b)
			o.bytes = make([]int64, b)
		} else {
			o = m.wordObj(name, w, false)
		}
		o.align = int64(in.Align)
		fr.objs = append(fr.objs, o)
		fr.used += o.size
		m.stack += o.size
		m.allocs++
		if m.stack > m.peak {
			m.peak = m.stack
		}
		fr.vals[in] = o.base
	case *ir.InstLoad:
		m.aligned(m.val(fr, in.Src), int64(in.Align))
		fr.vals[in] = m.load(m.val(fr, in.Src), zvBits(in.ElemType))
	case *ir.InstStore:
		m.aligned(m.val(fr, in.Dst), int64(in.Align))
		m.store(m.val(fr, in.Dst), m.val(fr, in.Src), zvBits(in.Src.Type()))
	case *ir.InstGetElementPtr:
		base := m.val(fr, in.Src)
		r := zvGEP(base, in.ElemType, zvIdx(m, fr, in.Indices))
		if in.InBounds {
			if o := m.objs[zvSlot(base)]; o != nil {
				if uint64(r-o.base) > uint64(o.size) {
					zvDie("an address that must stay within " + o.name + " does not")
				}
			} else if r != base {
				zvDie("an address that must stay within an object is in none")
			}
		}
		fr.vals[in] = r
	case *ir.InstBitCast:
		fr.vals[in] = m.val(fr, in.From)
	case *ir.InstIntToPtr:
		fr.vals[in] = m.val(fr, in.From)
	case *ir.InstPtrToInt:
		fr.vals[in] = m.val(fr, in.From)
	case *ir.InstZExt:
		fr.vals[in] = zvUns(m.val(fr, in.From), zvBits(in.From.Type()))
	case *ir.InstSExt:
		b := zvBits(in.From.Type())
		v := m.val(fr, in.From)
		if b == 1 {
			v = -(v & 1)
		}
		fr.vals[in] = v
	case *ir.InstTrunc:
		fr.vals[in] = zvTrunc(m.val(fr, in.From), zvBits(in.To))
	case *ir.InstFreeze:
		fr.vals[in] = m.val(fr, in.X)
	case *ir.InstAdd:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		r := zvTrunc(x+y, zvBits(in.X.Type()))
		zvNoWrap('+', in.OverflowFlags, x, y, r, zvBits(in.X.Type()))
		fr.vals[in] = r
	case *ir.InstSub:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		r := zvTrunc(x-y, zvBits(in.X.Type()))
		zvNoWrap('-', in.OverflowFlags, x, y, r, zvBits(in.X.Type()))
		fr.vals[in] = r
	case *ir.InstMul:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		r := zvTrunc(x*y, zvBits(in.X.Type()))
		zvNoWrap('*', in.OverflowFlags, x, y, r, zvBits(in.X.Type()))
		fr.vals[in] = r
	case *ir.InstSDiv:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		if y == 0 {
			zvDie("division by zero")
		}
		zvExact(in.Exact, x%y)
		fr.vals[in] = x / y
	case *ir.InstSRem:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		if y == 0 {
			zvDie("division by zero")
		}
		fr.vals[in] = x % y
	case *ir.InstUDiv:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		if y == 0 {
			zvDie("division by zero")
		}
		zvExact(in.Exact, int64(uint64(x)%uint64(y)))
		fr.vals[in] = int64(uint64(x) / uint64(y))
	case *ir.InstURem:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		if y == 0 {
			zvDie("division by zero")
		}
		fr.vals[in] = int64(uint64(x) % uint64(y))
	case *ir.InstAnd:
		fr.vals[in] = m.val(fr, in.X) & m.val(fr, in.Y)
	case *ir.InstOr:
		fr.vals[in] = m.val(fr, in.X) | m.val(fr, in.Y)
	case *ir.InstXor:
		fr.vals[in] = zvTrunc(m.val(fr, in.X)^m.val(fr, in.Y), zvBits(in.X.Type()))
	case *ir.InstShl:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		zvShiftBy(y, in.X.Type())
		r := zvTrunc(x<<uint64(y), zvBits(in.X.Type()))
		for _, f := range in.OverflowFlags {
			if f == enum.OverflowFlagNSW && r>>uint64(y) != x {
				zvDie("a value that must not wrap around does")
			}
			if f == enum.OverflowFlagNUW && int64(uint64(zvUns(r, zvBits(in.X.Type())))>>uint64(y)) != zvUns(x, zvBits(in.X.Type())) {
				zvDie("a value that must not wrap around does")
			}
		}
		fr.vals[in] = r
	case *ir.InstAShr:
		x, y := m.val(fr, in.X), m.val(fr, in.Y)
		zvShiftBy(y, in.X.Type())
		zvExact(in.Exact, x-x>>uint64(y)<<uint64(y))
		fr.vals[in] = x >> uint64(y)
	case *ir.InstLShr:
		x, y := zvUns(m.val(fr, in.X), zvBits(in.X.Type())), m.val(fr, in.Y)
		zvShiftBy(y, in.X.Type())
		r := int64(uint64(x) >> uint64(y))
		zvExact(in.Exact, x-r<<uint64(y))
		fr.vals[in] = zvTrunc(r, zvBits(in.X.Type()))
	case *ir.InstICmp:
		fr.vals[in] = zvICmp(in.Pred, m.val(fr, in.X), m.val(fr, in.Y), zvBits(in.X.Type()))
	case *ir.InstSelect:
		if m.val(fr, in.Cond)&1 != 0 {
			fr.vals[in] = m.val(fr, in.ValueTrue)
		} else {
			fr.vals[in] = m.val(fr, in.ValueFalse)
		}
	case *ir.InstVAArg:
		p := m.va[m.val(fr, in.ArgList)]
		if p == nil {
			zvDie("va_arg on an uninitialised list")
		}
		if p.pos < len(p.args) {
			fr.vals[in] = p.args[p.pos]
		} else {
			fr.vals[in] = vI64("missing")
		}
		p.pos++
	case *ir.InstCall:
		args := make([]int64, len(in.Args))
		for i, a := range in.Args {
			args[i] = m.val(fr, a)
		}
		if f, ok := in.Callee.(*ir.Func); ok {
			switch zvIntrinsic(f.Name()) {
			case 1:
				m.va[args[0]] = &zvVA{args: fr.va}
				return
			case 2:
				return
			case 3:
				if p := m.va[args[1]]; p != nil {
					q := *p
					m.va[args[0]] = &q
				}
				return
			}
			fr.vals[in] = m.callInst(fr, in, f, args)
			return
		}
		addr := m.val(fr, in.Callee)
		o := m.objs[zvSlot(addr)]
		if o == nil || o.fn == "" || !vIsConst(addr) || o.base != addr {
			zvDie("call through a value that is not a function")
		}
		f := m.funcs[o.fn]
		if f == nil {
			zvDie("call of undefined symbol " + o.fn)
		}
		fr.vals[in] = m.callInst(fr, in, f, args)
	default:
		zvDie("unsupported instruction")
	}
}

// zvNoWrap: an instruction that promises not to wrap around must not.
func zvNoWrap(op byte, flags []enum.OverflowFlag, x, y, r int64, bits uint64) {
	for _, f := range flags {
		bad := false
		ux, uy, ur := zvUns(x, bits), zvUns(y, bits), zvUns(r, bits)
		switch {
		case bits != 64:
			// narrow operations do not wrap in 64 bits
			w := x + y
			uw := ux + uy
			if op == '-' {
				w, uw = x-y, ux-uy
			} else if op == '*' {
				w, uw = x*y, ux*uy
			}
			bad = f == enum.OverflowFlagNSW && w != r || f == enum.OverflowFlagNUW && uw != ur
		case f == enum.OverflowFlagNSW && op == '+':
			bad = (x^r)&(y^r) < 0
		case f == enum.OverflowFlagNSW && op == '-':
			bad = (x^y)&(x^r) < 0
		case f == enum.OverflowFlagNSW:
			bad = x != 0 && (x == -1 && y == -1<<63 || x != -1 && r/x != y)
		case op == '+':
			bad = uint64(r) < uint64(x)
		case op == '-':
			bad = uint64(x) < uint64(y)
		default:
			bad = x != 0 && uint64(r)/uint64(x) != uint64(y)
		}
		if bad {
			zvDie("a value that must not wrap around does")
		}
	}
}

func zvExact(exact bool, rest int64) {
	if exact && rest != 0 {
		zvDie("a division that must leave no remainder does")
	}
}

func zvShiftBy(y int64, t types.Type) {
	if uint64(y) >= zvBits(t) {
		zvDie("a shift by the width of the word or more")
	}
}

func zvCC(c enum.CallingConv) enum.CallingConv {
	if c == enum.CallingConvC {
		return enum.CallingConvNone
	}
	return c
}

// zvAttrs gives the promises among function attributes: 1 does not return, 2 does not write, 4 does not read, 8 does not recurse.
func zvAttrs(as []ir.FuncAttribute) (p int) {
	for _, a := range as {
		switch a {
		case enum.FuncAttrNoReturn:
			p |= 1
		case enum.FuncAttrReadOnly:
			p |= 2
		case enum.FuncAttrReadNone, enum.FuncAttrArgMemOnly, enum.FuncAttrInaccessibleMemOnly, enum.FuncAttrInaccessibleMemOrArgMemOnly:
			p |= 2 | 4 // arguments are integers
		case enum.FuncAttrWriteOnly:
			p |= 4
		case enum.FuncAttrNoRecurse:
			p |= 8
		case enum.FuncAttrNaked:
			p |= 16
		}
	}
	return
}

// promised calls f, which has the given promises.
func (m *zvMach) promised(f *ir.Func, args []int64, p int) int64 {
	if cur := m.funcs[f.Name()]; cur != nil {
		f = cur
	}
	if len(f.Blocks) > 0 {
		p |= zvAttrs(f.FuncAttrs)
	} else if p |= zvAttrs(f.FuncAttrs); p&(1|2|4) != 0 {
		zvDie("an external function is said to do less than it may")
	}
	if p&16 != 0 {
		zvDie("a function without a prologue")
	}
	if p&8 != 0 && m.active[f] > 0 {
		zvDie("a function that must not recurse does")
	}
	wr, rd := m.noWrite, m.noRead
	if p&2 != 0 && wr == 0 {
		m.noWrite = m.next
	}
	if p&4 != 0 && rd == 0 {
		m.noRead = m.next
	}
	if m.active == nil {
		m.active = map[*ir.Func]int{}
	}
	m.active[f]++
	r := m.callFn(f, args)
	m.active[f]--
	m.noWrite, m.noRead = wr, rd
	if p&1 != 0 {
		zvDie("a function that must not return does")
	}
	return r
}

func zvIntrinsic(n string) int {
	switch n {
	case "llvm.va_start", "llvm.va_start.p0", "llvm.va_start.p0i8":
		return 1
	case "llvm.va_end", "llvm.va_end.p0", "llvm.va_end.p0i8", "llvm.stackrestore", "llvm.stackrestore.p0",
		"llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.donothing":
		return 2
	case "llvm.va_copy", "llvm.va_copy.p0", "llvm.va_copy.p0i8":
		return 3
	}
	return 0
}

func zvUns(v int64, bits uint64) int64 {
	switch bits {
	case 1:
		return v & 1
	case 8:
		return v & 0xff
	case 16:
		return v & 0xffff
	case 32:
		return v & 0xffffffff
	}
	return v
}

func zvICmp(p enum.IPred, x, y int64, bits uint64) int64 {
	ux, uy := uint64(zvUns(x, bits)), uint64(zvUns(y, bits))
	if bits == 1 {
		x, y = -(x & 1), -(y & 1)
	}
	switch p {
	case enum.IPredEQ:
		return vB2I(ux == uy)
	case enum.IPredNE:
		return vB2I(ux != uy)
	case enum.IPredSLT:
		return vB2I(x < y)
	case enum.IPredSLE:
		return vB2I(x <= y)
	case enum.IPredSGT:
		return vB2I(x > y)
	case enum.IPredSGE:
		return vB2I(x >= y)
	case enum.IPredULT:
		return vB2I(ux < uy)
	case enum.IPredULE:
		return vB2I(ux <= uy)
	case enum.IPredUGT:
		return vB2I(ux > uy)
	case enum.IPredUGE:
		return vB2I(ux >= uy)
	}
	zvDie("unknown comparison")
	return 0
}

// zvRun calls a function of the module; fault is "" when execution ended normally.
func (m *zvMach) zvRun(name string, args []int64) (res int64, fault string) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(zvFault)
			if !ok {
				panic(r)
			}
			fault = f.msg
		}
	}()
	return m.callName(name, args), ""
}

func zvLoad(mod *ir.Module, rets *zvRets, limit int) (m *zvMach, fault string) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(zvFault)
			if !ok {
				panic(r)
			}
			fault = f.msg
		}
	}()
	return zvLoadModule(mod, rets, limit), ""
}
