package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unicode"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type nat func(m *Machine, fr *frame, args []Value) Value

func tuple(vs ...Value) Value { return Value{p: vs} }

var i64 = tinfo{kInt, 64, true}
var u8 = tinfo{kInt, 8, false}

// hooks redirect environment functions to harness functions of the same shape.
var hooks = map[string]string{
	"os.Open":                       "zvOsOpen",
	"os.OpenFile":                   "zvOsOpenFile",
	"os.Create":                     "zvOsCreate",
	"os.ReadFile":                   "zvOsReadFile",
	"os.WriteFile":                  "zvOsWriteFile",
	"os.Remove":                     "zvOsRemove",
	"os.RemoveAll":                  "zvOsRemoveAll",
	"os.Rename":                     "zvOsRename",
	"os.Stat":                       "zvOsStat",
	"os.Lstat":                      "zvOsStat",
	"os.Getenv":                     "zvOsGetenv",
	"os.UserHomeDir":                "zvOsHome",
	"os.LookupEnv":                  "zvOsLookupEnv",
	"os.MkdirAll":                   "zvOsMkdir",
	"os.Mkdir":                      "zvOsMkdir",
	"os.CreateTemp":                 "zvOsCreateTemp",
	"os.MkdirTemp":                  "zvOsMkdirTemp",
	"os.TempDir":                    "zvOsTempDir",
	"os.Getwd":                      "zvOsGetwd",
	"(*os.File).ReadFrom":           "zvFileReadFrom",
	"(*os.File).WriteTo":            "zvFileWriteTo",
	"(*os.File).Stat":               "zvFileStat",
	"(*os.File).Seek":               "zvFileSeek",
	"os/exec.CommandContext":        "zvCommandContext",
	"(*os/exec.Cmd).Start":          "zvCmdStart",
	"(*os/exec.Cmd).Wait":           "zvCmdWait",
	"(*os.File).Read":               "zvFileRead",
	"(*os.File).Write":              "zvFileWrite",
	"(*os.File).WriteString":        "zvFileWriteString",
	"(*os.File).Close":              "zvFileClose",
	"(*os.File).Name":               "zvFileName",
	"(*os.File).Sync":               "zvFileSync",
	"os/exec.Command":               "zvCommand",
	"os/exec.LookPath":              "zvLookPath",
	"(*os/exec.Cmd).Run":            "zvCmdRun",
	"(*os/exec.Cmd).CombinedOutput": "zvCmdOutput",
	"(*os/exec.Cmd).Output":         "zvCmdOutput",
	"(*os/exec.Cmd).String":         "zvCmdString",
	"(*github.com/llir/llvm/ir.Module).String":  "zvModuleString",
	"(*github.com/llir/llvm/ir.Module).WriteTo": "zvModuleWriteTo",
	"main.ParseDeclarations":                    "zvParseDeclarations",
	"main.Compile":                              "zvCompileHook",
}

// hookSwitch: hooks that replace code under test must be enabled by the harness
var hookOptIn = map[string]bool{"main.ParseDeclarations": true, "main.Compile": true,
	"(*github.com/llir/llvm/ir.Module).String": true, "(*github.com/llir/llvm/ir.Module).WriteTo": true}

func fnName(fn *ssa.Function) string {
	n := fn.String()
	if strings.HasPrefix(n, "sergev.org/blang.") {
		return "main." + n[len("sergev.org/blang."):]
	}
	return n
}

func lookupNative(P *Program, fn *ssa.Function) nat {
	name := fnName(fn)
	if fn.Origin() != nil {
		name = fnName(fn.Origin())
	}
	if h, ok := hooks[name]; ok {
		if hf := P.mainPkg.Func(h); hf != nil {
			hc := P.cfnOf(hf)
			var orig *cfn
			if hookOptIn[name] {
				orig = &cfn{fn: fn, name: name}
				P.compileBody(orig)
				orig.rdy.Store(true)
			}
			return func(m *Machine, fr *frame, args []Value) Value {
				if orig != nil && !m.hooksOn {
					return m.call(fr, orig, nil, args)
				}
				return m.call(fr, hc, nil, args)
			}
		}
	}
	if n, ok := natives[name]; ok {
		return n
	}
	if strings.HasPrefix(name, "(*math/big.") || strings.HasPrefix(name, "(math/big.") || strings.HasPrefix(name, "math/big.") {
		if fn.Name() == "init" {
			return nop
		}
		// integers are boxes here: nothing of the package may run on them
		return func(m *Machine, fr *frame, a []Value) Value {
			m.unsup("%s", name)
			return Value{}
		}
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "github.com/fatih/color":
			return colorNative(fn)
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "(sync/atomic.") {
		return atomicNative(fn)
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicFunc(fn)
	}
	return nil
}

func atomicNative(fn *ssa.Function) nat {
	cell := func(m *Machine, v Value) *Value {
		c := m.deref(v)
		if a, ok := c.p.(*Agg); ok {
			return &a.e[len(a.e)-1]
		}
		return c
	}
	switch fn.Name() {
	case "Load":
		return func(m *Machine, fr *frame, a []Value) Value { return *cell(m, a[0]) }
	case "Store":
		return func(m *Machine, fr *frame, a []Value) Value { *cell(m, a[0]) = a[1]; return Value{} }
	case "Add":
		return func(m *Machine, fr *frame, a []Value) Value {
			c := cell(m, a[0])
			c.n += a[1].n
			return *c
		}
	case "CompareAndSwap":
		return func(m *Machine, fr *frame, a []Value) Value {
			c := cell(m, a[0])
			if c.n == a[1].n && c.p == a[1].p {
				*c = a[2]
				return Value{n: 1}
			}
			return Value{}
		}
	case "Swap":
		return func(m *Machine, fr *frame, a []Value) Value {
			c := cell(m, a[0])
			o := *c
			*c = a[1]
			return o
		}
	}
	return nil
}

func atomicFunc(fn *ssa.Function) nat {
	n := fn.Name()
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(m *Machine, fr *frame, a []Value) Value { return *m.deref(a[0]) }
	case strings.HasPrefix(n, "Store"):
		return func(m *Machine, fr *frame, a []Value) Value { *m.deref(a[0]) = a[1]; return Value{} }
	case strings.HasPrefix(n, "Add"):
		return func(m *Machine, fr *frame, a []Value) Value {
			c := m.deref(a[0])
			c.n += a[1].n
			return *c
		}
	case strings.HasPrefix(n, "Swap"):
		return func(m *Machine, fr *frame, a []Value) Value {
			c := m.deref(a[0])
			old := *c
			*c = a[1]
			return old
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(m *Machine, fr *frame, a []Value) Value {
			c := m.deref(a[0])
			if c.n == a[1].n && c.p == a[1].p {
				*c = a[2]
				return Value{n: 1}
			}
			return Value{}
		}
	}
	return nil
}

func colorNative(fn *ssa.Function) nat {
	res := fn.Signature.Results()
	z := zeroMaker(res)
	return func(m *Machine, fr *frame, a []Value) Value {
		switch fn.Name() {
		case "New":
			c := new(Value)
			c.p = &Agg{make([]Value, 8)}
			return Value{p: c}
		case "Sprint", "Sprintf", "Sprintln":
			return emptyStr
		case "Fprint", "Fprintf", "Fprintln":
			// the text and its colours are not modelled, only that there is some
			if fn.Signature.Recv() != nil {
				return m.fprint(fr, a[1], []Value{{n: '.'}})
			}
		case "Print", "Printf", "Println":
			if fn.Signature.Recv() != nil {
				return m.printed(fr, 1, 1)
			}
		case "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "Black", "White":
			m.printed(fr, 1, 1)
		}
		switch res.Len() {
		case 0:
			return Value{}
		case 1:
			return z().p.([]Value)[0]
		}
		return z()
	}
}

func (m *Machine) strArg(v Value) string {
	if s, ok := concreteStr(v); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(m.conc(b[i], u8))
	}
	return string(out)
}

func (m *Machine) sliceArg(v Value) []Value {
	if v.p == nil {
		return nil
	}
	return v.p.([]Value)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String",
	types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

// methodNamed finds a method by name, or nil.
func (P *Program) methodNamed(t types.Type, name string) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(k))
		}
	}
	return nil
}

func (m *Machine) callMethod(fr *frame, i *Iface, name string) Value {
	fn := m.P.methodNamed(i.t, name)
	if fn == nil {
		m.unsup("no method %s on %s", name, i.t)
	}
	return m.call(fr, m.P.cfnOf(fn), nil, []Value{i.v})
}

func (m *Machine) fmtArg(fr *frame, i *Iface, verb byte, flags string, depth int) []Value {
	lit := func(s string) []Value { return strBytes(strVal(s)) }
	if i == nil {
		if verb == 'v' || verb == 's' {
			return lit("<nil>")
		}
		return lit("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return lit(types.TypeString(i.t, nil))
	}
	if isBigPtr(i.t) && i.v.p != nil && verb != 'p' {
		if verb == 'd' || verb == 'v' || verb == 's' {
			return m.pad(strBytes(strVal(m.bigConc(i.v).String())), flags)
		}
		return lit(fmt.Sprintf("%"+flags+string(verb), m.bigConc(i.v)))
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		var s Value
		has := false
		if m.P.implements(i.t, errorType) {
			s, has = m.callMethod(fr, i, "Error"), true
		} else if types.Implements(i.t, stringerIface) {
			s, has = m.callMethod(fr, i, "String"), true
		}
		if has {
			if verb == 'q' {
				return lit(fmt.Sprintf("%q", m.strArg(s)))
			}
			return m.pad(strBytes(s), flags)
		}
	}
	ti := infoOf(i.t)
	v := i.v
	switch ti.k {
	case kString:
		if verb == 'q' || verb == 'x' {
			return lit(fmt.Sprintf("%"+flags+string(verb), m.strArg(v)))
		}
		return m.pad(strBytes(v), flags)
	case kBool:
		if v.p != nil {
			if m.branch(v.p.(*Term)) {
				return lit("true")
			}
			return lit("false")
		}
		return lit(fmt.Sprintf("%"+flags+string(verb), v.n != 0))
	case kInt:
		if verb == 'c' {
			if v.p != nil {
				return m.encodeRune(Value{p: m.resize(v.p.(*Term), ti.signed, 32)}, tinfo{kInt, 32, true})
			}
			return lit(fmt.Sprintf("%"+flags+"c", rune(v.n)))
		}
		n := m.conc(v, ti)
		if ti.signed {
			return lit(fmt.Sprintf("%"+flags+string(verb), int64(n)))
		}
		return lit(fmt.Sprintf("%"+flags+string(verb), n))
	case kFloat:
		return lit(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.n)))
	case kSlice:
		var out []Value
		et := i.t.Underlying().(*types.Slice).Elem()
		if verb == 's' && infoOf(et).w == 8 {
			return append(out, m.sliceArg(v)...)
		}
		out = append(out, lit("[")...)
		for k, e := range m.sliceArg(v) {
			if k > 0 {
				out = append(out, lit(" ")...)
			}
			out = append(out, m.fmtArg(fr, m.asIface(et, e), verb, flags, depth+1)...)
		}
		return append(out, lit("]")...)
	case kPtr:
		if v.p == nil && verb != 'd' && verb != 'x' {
			return lit("<nil>")
		}
		if verb == 'p' || verb == 'v' {
			return lit("0xc000000000")
		}
	}
	m.unsup("formatting %%%c of %s", verb, i.t)
	return nil
}

func (m *Machine) asIface(t types.Type, v Value) *Iface {
	if types.IsInterface(t) {
		i, _ := v.p.(*Iface)
		return i
	}
	return &Iface{t, v}
}

func (m *Machine) pad(b []Value, flags string) []Value {
	if flags == "" {
		return b
	}
	left := strings.Contains(flags, "-")
	w := 0
	prec := -1
	fl := strings.TrimLeft(flags, "-+# 0")
	if i := strings.IndexByte(fl, '.'); i >= 0 {
		fmt.Sscanf(fl[i+1:], "%d", &prec)
		fl = fl[:i]
	}
	fmt.Sscanf(fl, "%d", &w)
	if prec >= 0 && prec < len(b) {
		b = b[:prec]
	}
	for len(b) < w {
		if left {
			b = append(append([]Value(nil), b...), Value{n: ' '})
		} else {
			b = append([]Value{{n: ' '}}, b...)
		}
	}
	return b
}

var errorType = types.Universe.Lookup("error").Type()

func (m *Machine) format(fr *frame, f string, args []Value) []Value {
	var out []Value
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, Value{n: uint64(f[i])})
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("-+# 0123456789.*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = append(out, strBytes(strVal("%!(NOVERB)"))...)
			break
		}
		flags := f[st:i]
		if f[i] == '%' {
			out = append(out, Value{n: '%'})
			continue
		}
		if strings.Contains(flags, "*") {
			if ai < len(args) {
				w := args[ai].p.(*Iface)
				flags = strings.Replace(flags, "*", fmt.Sprint(int64(m.conc(w.v, i64))), 1)
				ai++
			}
		}
		if ai >= len(args) {
			out = append(out, strBytes(strVal("%!"+string(f[i])+"(MISSING)"))...)
			continue
		}
		arg, _ := args[ai].p.(*Iface)
		ai++
		verb := f[i]
		if verb == 'w' {
			verb = 'v'
		}
		out = append(out, m.fmtArg(fr, arg, verb, flags, 0)...)
	}
	return out
}

func (m *Machine) sprint(fr *frame, args []Value, ln bool) []Value {
	var out []Value
	prevStr := true
	for i, a := range args {
		ia, _ := a.p.(*Iface)
		isStr := ia != nil && infoOf(ia.t).k == kString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, Value{n: ' '})
		}
		out = append(out, m.fmtArg(fr, ia, 'v', "", 0)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, Value{n: '\n'})
	}
	return out
}

func (m *Machine) fprint(fr *frame, w Value, b []Value) Value {
	i, _ := w.p.(*Iface)
	if i == nil {
		m.rtPanic("nil io.Writer")
	}
	buf := append([]Value(nil), b...)
	if strings.HasSuffix(i.t.String(), "*os.File") {
		if h := m.P.mainPkg.Func("zvFileWrite"); h == nil {
			return tuple(Value{n: uint64(len(b))}, Value{})
		}
	}
	fn := m.P.methodNamed(i.t, "Write")
	if fn == nil {
		m.unsup("no method Write on %s", i.t)
	}
	return m.call(fr, m.P.cfnOf(fn), nil, []Value{i.v, {p: buf}})
}

// printed records that n bytes were written to the standard output (1) or the standard error output (2).
func (m *Machine) printed(fr *frame, stream, n int) Value {
	if fn := m.P.mainPkg.Func("zvPrinted"); fn != nil {
		m.call(fr, m.P.cfnOf(fn), nil, []Value{{n: uint64(stream)}, {n: uint64(n)}})
	}
	return tuple(Value{n: uint64(n)}, Value{})
}

func (m *Machine) mkErr(fr *frame, s Value) Value {
	fn := m.P.prog.ImportedPackage("errors").Func("New")
	return m.call(fr, m.P.cfnOf(fn), nil, []Value{s})
}

var natives map[string]nat

func init() {
	natives = map[string]nat{
		// ---- harness intrinsics
		"main.vByte": func(m *Machine, fr *frame, a []Value) Value { return m.newInput(m.strArg(a[0]), 8, "byte") },
		"main.vI64":  func(m *Machine, fr *frame, a []Value) Value { return m.newInput(m.strArg(a[0]), 64, "i64") },
		"main.vBool": func(m *Machine, fr *frame, a []Value) Value { return m.newInput(m.strArg(a[0]), 0, "bool") },
		"main.vChoice": func(m *Machine, fr *frame, a []Value) Value {
			k := m.choose(m.strArg(a[0]), int(a[1].n))
			m.ins = append(m.ins, inputRec{name: m.strArg(a[0]), kind: "choice", c: uint64(k)})
			return Value{n: uint64(k)}
		},
		"main.vAssume": func(m *Machine, fr *frame, a []Value) Value { m.assume(a[0]); return Value{} },
		"main.vAssert": func(m *Machine, fr *frame, a []Value) Value {
			m.assertTerm(m.bterm(a[0]), m.strArg(a[1]))
			return Value{}
		},
		"main.vEq": func(m *Machine, fr *frame, a []Value) Value {
			msg := a[2]
			if a[0].p == nil && a[1].p == nil {
				m.assertTerm(m.ts.Bool(a[0].n == a[1].n), m.strArg(msg))
				return Value{}
			}
			x, y := m.term(a[0], i64), m.term(a[1], i64)
			if x == y {
				m.asserts++
				m.pend = append(m.pend, m.ts.RawEq(x, y)) // decided together at the end of the path
				return Value{}
			}
			m.assertTerm(m.ts.RawEq(x, y), m.strArg(msg))
			return Value{}
		},
		"main.vB2I": func(m *Machine, fr *frame, a []Value) Value {
			if a[0].p == nil {
				return Value{n: a[0].n}
			}
			return m.intV(m.ts.ITE(a[0].p.(*Term), m.ts.Const(1, 64), m.ts.Const(0, 64)), i64)
		},
		"main.vReach": func(m *Machine, fr *frame, a []Value) Value { m.reached[m.strArg(a[0])] = true; return Value{} },
		"main.vNote": func(m *Machine, fr *frame, a []Value) Value {
			m.notes = append(m.notes, note{m.strArg(a[0]), a[1]})
			return Value{}
		},
		"main.vSymbolic": func(m *Machine, fr *frame, a []Value) Value { return Value{n: 1} },
		"main.vIsConst":  func(m *Machine, fr *frame, a []Value) Value { return Value{n: b2u(a[0].p == nil)} },
		"main.vBase": func(m *Machine, fr *frame, a []Value) Value {
			if a[0].p == nil {
				return a[0]
			}
			return Value{n: termBase(a[0].p.(*Term))}
		},
		"main.vBudget":   func(m *Machine, fr *frame, a []Value) Value { m.budget *= int(a[0].n); return Value{} },
		"main.vThorough": func(m *Machine, fr *frame, a []Value) Value { return Value{n: b2u(*flagTier == "thorough")} },
		"main.vMapOrder": func(m *Machine, fr *frame, a []Value) Value { m.mapOrder = a[0].n != 0; return Value{} },
		"main.vHooks":    func(m *Machine, fr *frame, a []Value) Value { m.hooksOn = a[0].n != 0; return Value{} },
		"main.vConc":     func(m *Machine, fr *frame, a []Value) Value { return Value{n: m.conc(a[0], i64)} },
		"main.vTrace": func(m *Machine, fr *frame, a []Value) Value {
			if *flagDebug {
				s, _ := concreteStr(a[0])
				fmt.Println("TRACE", s)
			}
			return Value{}
		},
		"main.vSetArgs": func(m *Machine, fr *frame, a []Value) Value {
			m.unsup("vSetArgs")
			return Value{}
		},
		"main.vCatchExit": func(m *Machine, fr *frame, a []Value) (res Value) {
			st, sp := m.stack, m.sp
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(exitPanic); ok {
						m.stack, m.sp = st, sp
						res = tuple(Value{n: 1}, Value{n: uint64(int64(e.code))})
						return
					}
					panic(r)
				}
			}()
			m.callValue(fr, a[0], nil)
			return tuple(Value{}, Value{})
		},
		"os.Exit": func(m *Machine, fr *frame, a []Value) Value { panic(exitPanic{int(int64(m.conc(a[0], i64)))}) },

		// ---- fmt
		"fmt.Sprintf": func(m *Machine, fr *frame, a []Value) Value {
			return mkStr(m.format(fr, m.strArg(a[0]), m.sliceArg(a[1])))
		},
		"fmt.Errorf": func(m *Machine, fr *frame, a []Value) Value {
			f := m.strArg(a[0])
			args := append([]Value(nil), m.sliceArg(a[1])...)
			// the text of diagnostics is not modelled for symbolic characters
			for i, x := range args {
				if ia, ok := x.p.(*Iface); ok && ia != nil && ia.v.p != nil && infoOf(ia.t).k == kInt {
					args[i] = Value{p: &Iface{ia.t, Value{n: '?'}}}
				}
			}
			return m.mkErr(fr, mkStr(m.format(fr, f, args)))
		},
		"fmt.Fprintf": func(m *Machine, fr *frame, a []Value) Value {
			return m.fprint(fr, a[0], m.format(fr, m.strArg(a[1]), m.sliceArg(a[2])))
		},
		"fmt.Fprintln": func(m *Machine, fr *frame, a []Value) Value {
			return m.fprint(fr, a[0], m.sprint(fr, m.sliceArg(a[1]), true))
		},
		"fmt.Fprint": func(m *Machine, fr *frame, a []Value) Value {
			return m.fprint(fr, a[0], m.sprint(fr, m.sliceArg(a[1]), false))
		},
		"fmt.Printf": func(m *Machine, fr *frame, a []Value) Value {
			return m.printed(fr, 1, len(m.format(fr, m.strArg(a[0]), m.sliceArg(a[1]))))
		},
		"fmt.Println": func(m *Machine, fr *frame, a []Value) Value {
			return m.printed(fr, 1, len(m.sprint(fr, m.sliceArg(a[0]), true)))
		},
		"fmt.Print": func(m *Machine, fr *frame, a []Value) Value {
			return m.printed(fr, 1, len(m.sprint(fr, m.sliceArg(a[0]), false)))
		},
		"fmt.Sprint":   func(m *Machine, fr *frame, a []Value) Value { return mkStr(m.sprint(fr, m.sliceArg(a[0]), false)) },
		"fmt.Sprintln": func(m *Machine, fr *frame, a []Value) Value { return mkStr(m.sprint(fr, m.sliceArg(a[0]), true)) },

		// ---- strings.Builder and friends
		"(*strings.Builder).copyCheck": func(m *Machine, fr *frame, a []Value) Value { return Value{} },
		"(*strings.Builder).String": func(m *Machine, fr *frame, a []Value) Value {
			return mkStr(m.sliceArg(m.deref(a[0]).p.(*Agg).e[1]))
		},
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *frame, a []Value) Value {
			return Value{p: make([]Value, m.conc(a[0], i64))}
		},
		"internal/bytealg.IndexByteString":     func(m *Machine, fr *frame, a []Value) Value { return m.indexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.IndexByte":           func(m *Machine, fr *frame, a []Value) Value { return m.indexByte(m.sliceArg(a[0]), a[1]) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, fr *frame, a []Value) Value { return m.lastIndexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.LastIndexByte":       func(m *Machine, fr *frame, a []Value) Value { return m.lastIndexByte(m.sliceArg(a[0]), a[1]) },
		"internal/bytealg.CountString":         func(m *Machine, fr *frame, a []Value) Value { return m.countByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Count":               func(m *Machine, fr *frame, a []Value) Value { return m.countByte(m.sliceArg(a[0]), a[1]) },
		"internal/bytealg.Equal": func(m *Machine, fr *frame, a []Value) Value {
			return m.strEq(mkStr(m.sliceArg(a[0])), mkStr(m.sliceArg(a[1])))
		},
		"bytes.Equal": func(m *Machine, fr *frame, a []Value) Value {
			return m.strEq(mkStr(m.sliceArg(a[0])), mkStr(m.sliceArg(a[1])))
		},
		"internal/bytealg.IndexString": func(m *Machine, fr *frame, a []Value) Value {
			return Value{n: uint64(int64(strings.Index(m.strArg(a[0]), m.strArg(a[1]))))}
		},
		"internal/bytealg.Index": func(m *Machine, fr *frame, a []Value) Value {
			return Value{n: uint64(int64(strings.Index(m.strArg(mkStr(m.sliceArg(a[0]))), m.strArg(mkStr(m.sliceArg(a[1]))))))}
		},
		"strings.Clone":              func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"internal/stringslite.Clone": func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"internal/abi.NoEscape":      func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"internal/abi.Escape":        func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"strings.Index": func(m *Machine, fr *frame, a []Value) Value {
			return Value{n: uint64(int64(strings.Index(m.strArg(a[0]), m.strArg(a[1]))))}
		},

		// ---- math, bits
		"math.Float64bits":     func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"math.Float64frombits": func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"math.Float32bits": func(m *Machine, fr *frame, a []Value) Value {
			return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
		},
		"math.Float32frombits": func(m *Machine, fr *frame, a []Value) Value {
			return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(a[0].n))))}
		},

		// ---- sync
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do": func(m *Machine, fr *frame, a []Value) Value {
			c := m.deref(a[0])
			if m.onces == nil {
				m.onces = map[*Value]bool{}
			}
			if !m.onces[c] {
				m.onces[c] = true
				m.callValue(fr, a[1], nil)
			}
			return Value{}
		},
		"(*sync.WaitGroup).Add":  nop,
		"(*sync.WaitGroup).Done": nop,
		"(*sync.WaitGroup).Wait": nop,

		// ---- errors, reflection, runtime
		"errors.Is":            func(m *Machine, fr *frame, a []Value) Value { return m.errorsIs(fr, a[0], a[1]) },
		"runtime.GC":           nop,
		"runtime.KeepAlive":    nop,
		"runtime.SetFinalizer": nop,
		"sort.Slice": func(m *Machine, fr *frame, a []Value) Value {
			i := a[0].p.(*Iface)
			s := m.sliceArg(i.v)
			// insertion sort through the user's less function
			for x := 1; x < len(s); x++ {
				for y := x; y > 0; y-- {
					r := m.callValue(fr, a[1], []Value{{n: uint64(y)}, {n: uint64(y - 1)}})
					if !m.truth(r) {
						break
					}
					s[y], s[y-1] = s[y-1], s[y]
				}
			}
			return Value{}
		},
	}
	bigInit()
	natives["sort.SliceStable"] = natives["sort.Slice"]
	natives["slices.overlaps"] = func(m *Machine, fr *frame, a []Value) Value {
		x, y := m.sliceArg(a[0]), m.sliceArg(a[1])
		if len(x) == 0 || len(y) == 0 {
			return Value{}
		}
		at := func(s []Value, i int) uintptr { return uintptr(unsafe.Pointer(&s[i])) }
		return Value{n: b2u(at(x, 0) <= at(y, len(y)-1) && at(y, 0) <= at(x, len(x)-1))}
	}
	for n, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsNumber": unicode.IsNumber, "IsPrint": unicode.IsPrint,
		"IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct, "IsGraphic": unicode.IsGraphic, "IsSymbol": unicode.IsSymbol} {
		f := f
		natives["unicode."+n] = func(m *Machine, fr *frame, a []Value) Value {
			t, ok := a[0].p.(*Term)
			if !ok || t.v < 0 || !smallVar(m.ts.vars[t.v]) {
				return Value{n: b2u(f(rune(int32(m.conc(a[0], tinfo{kInt, 32, true})))))}
			}
			v := m.ts.vars[t.v]
			res := m.ts.Bool(false)
			lo := -1
			for i := 0; i <= 256; i++ {
				in := false
				if i < 256 && (v.w == 8 || i < 1<<v.w) {
					m.ts.evalStart()
					in = f(rune(int32(m.ts.eval(t, func(int) uint64 { return uint64(i) }))))
				}
				if in && lo < 0 {
					lo = i
				}
				if !in && lo >= 0 {
					r := m.ts.And(m.ts.Cmp(OULe, m.ts.Const(uint64(lo), v.w), v.t), m.ts.Cmp(OULe, v.t, m.ts.Const(uint64(i-1), v.w)))
					res = m.ts.Or(res, r)
					lo = -1
				}
			}
			return m.boolV(res)
		}
	}
}

func nop(m *Machine, fr *frame, a []Value) Value { return Value{} }

func (m *Machine) errorsIs(fr *frame, e, target Value) Value {
	for i := 0; i < 20; i++ {
		x, _ := e.p.(*Iface)
		y, _ := target.p.(*Iface)
		if x == nil || y == nil {
			return Value{n: b2u(x == nil && y == nil)}
		}
		if m.P.identical(x.t, y.t) {
			r := m.eq(x.t, x.v, y.v)
			if m.truth(r) {
				return Value{n: 1}
			}
		}
		if fn := m.P.methodNamed(x.t, "Is"); fn != nil && len(fn.Params) == 2 {
			if m.truth(m.call(fr, m.P.cfnOf(fn), nil, []Value{x.v, target})) {
				return Value{n: 1}
			}
		}
		fn := m.P.methodNamed(x.t, "Unwrap")
		if fn == nil {
			return Value{}
		}
		e = m.call(fr, m.P.cfnOf(fn), nil, []Value{x.v})
		if l, ok := e.p.([]Value); ok { // several errors joined
			for _, v := range l {
				if m.truth(m.errorsIs(fr, v, target)) {
					return Value{n: 1}
				}
			}
			return Value{}
		}
	}
	return Value{}
}

func (m *Machine) indexByte(b []Value, c Value) Value {
	for i := range b {
		if b[i].p == nil && c.p == nil {
			if b[i].n == c.n {
				return Value{n: uint64(i)}
			}
			continue
		}
		if m.branch(m.ts.Cmp(OEq, m.term(b[i], u8), m.term(c, u8))) {
			return Value{n: uint64(i)}
		}
	}
	return Value{n: ^uint64(0)}
}

func (m *Machine) lastIndexByte(b []Value, c Value) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i].p == nil && c.p == nil {
			if b[i].n == c.n {
				return Value{n: uint64(i)}
			}
			continue
		}
		if m.branch(m.ts.Cmp(OEq, m.term(b[i], u8), m.term(c, u8))) {
			return Value{n: uint64(i)}
		}
	}
	return Value{n: ^uint64(0)}
}

func (m *Machine) countByte(b []Value, c Value) Value {
	n := 0
	for i := range b {
		if b[i].p == nil && c.p == nil {
			if b[i].n == c.n {
				n++
			}
			continue
		}
		if m.branch(m.ts.Cmp(OEq, m.term(b[i], u8), m.term(c, u8))) {
			n++
		}
	}
	return Value{n: uint64(n)}
}

func (m *Machine) newInput(name string, w uint8, kind string) Value {
	v := m.ts.NewVar(name, w, kind)
	m.ins = append(m.ins, inputRec{name: name, kind: kind, v: v})
	return Value{p: v.t}
}

// termBase is the constant part of a sum; every case of a conditional is an
// offset from the same base.
func termBase(t *Term) uint64 {
	switch {
	case t.isC():
		return t.k
	case t.op == OITE:
		return termBase(t.b)
	case t.op == OAdd:
		return termBase(t.a) + termBase(t.b)
	}
	return 0
}
