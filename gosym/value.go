package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program.
//
//	integers, bools: n (normalised) when p == nil, otherwise p is *Term
//	floats:          n = IEEE bits
//	strings:         p is a Go string or *SymStr
//	pointers:        p is *Value (nil pointer: p == nil), or *SymPtr (read only element of a constant table)
//	structs, arrays: p is *Agg
//	slices:          p is []Value, nil slice p == nil
//	maps:            p is *Map
//	interfaces:      p is *Iface
//	functions:       p is *Closure
//	tuples:          p is []Value
type Value struct {
	p any
	n uint64
}

type Agg struct{ e []Value }

type SymStr struct {
	b    []Value
	last int // the last symbolic byte
} // bytes: concrete n or *Term of width 8

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	cf *cfn
	fv []Value
}

type SymPtr struct { // &arr[idx] with symbolic idx
	e   []Value
	idx *Term
	w   uint8
}

type BigBox struct { // payload of a big.Int: the integer x, or the signed 64-bit term t
	x *big.Int
	t *Term
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	idx  map[any]int // canonical concrete keys
	ents []mapEntry
	live int
	sym  bool // some key is symbolic
}

type mapIter struct {
	m     *Map
	order []int
	pos   int
	free  bool
}

type strIter struct {
	b   []Value
	pos int
}

var emptyStr = Value{p: ""}

func strVal(s string) Value {
	if s == "" {
		return emptyStr
	}
	return Value{p: s}
}

type tkind uint8

const (
	kOther tkind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kAgg // struct or array
	kSlice
	kMap
	kIface
	kFunc
	kTuple
	kUnsafe
	kComplex
)

type tinfo struct {
	k      tkind
	w      uint8
	signed bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float32:
			return tinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64, true}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer, types.UntypedNil:
			return tinfo{k: kUnsafe}
		}
		return tinfo{k: kComplex}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Struct, *types.Array:
		return tinfo{k: kAgg}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Tuple:
		return tinfo{k: kTuple}
	}
	return tinfo{k: kOther}
}

func normInt(n uint64, ti tinfo) uint64 {
	switch {
	case ti.w >= 64:
		return n
	case ti.signed:
		return uint64(sext(n, ti.w))
	default:
		return n & mask(ti.w)
	}
}

// zeroMaker returns a function producing fresh zero values of t.
func zeroMaker(t types.Type) func() Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return func() Value { return emptyStr }
		}
		return func() Value { return Value{} }
	case *types.Struct:
		fs := make([]func() Value, u.NumFields())
		for i := range fs {
			fs[i] = zeroMaker(u.Field(i).Type())
		}
		return func() Value {
			e := make([]Value, len(fs))
			for i, f := range fs {
				e[i] = f()
			}
			return Value{p: &Agg{e}}
		}
	case *types.Array:
		n := int(u.Len())
		f := zeroMaker(u.Elem())
		return func() Value {
			e := make([]Value, n)
			for i := range e {
				e[i] = f()
			}
			return Value{p: &Agg{e}}
		}
	case *types.Tuple:
		fs := make([]func() Value, u.Len())
		for i := range fs {
			fs[i] = zeroMaker(u.At(i).Type())
		}
		return func() Value {
			e := make([]Value, len(fs))
			for i, f := range fs {
				e[i] = f()
			}
			return Value{p: e}
		}
	}
	return func() Value { return Value{} }
}

func copyVal(v Value) Value {
	if a, ok := v.p.(*Agg); ok {
		e := make([]Value, len(a.e))
		for i := range e {
			x := a.e[i]
			if _, ok := x.p.(*Agg); ok {
				x = copyVal(x)
			}
			e[i] = x
		}
		return Value{p: &Agg{e}}
	}
	return v
}

// storeInto stores v to the cell, keeping the identity of nested aggregates.
func storeInto(cell *Value, v Value) {
	if src, ok := v.p.(*Agg); ok {
		dst, ok2 := cell.p.(*Agg)
		if ok2 && len(dst.e) == len(src.e) {
			if dst == src {
				return
			}
			for i := range src.e {
				storeInto(&dst.e[i], src.e[i])
			}
			return
		}
		*cell = copyVal(v)
		return
	}
	*cell = v
}

// ---- strings

func strLen(v Value) int {
	switch s := v.p.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	case nil:
		return nil
	}
	panic(fmt.Sprintf("strBytes of %T", v.p))
}

func mkStr(b []Value) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i].p != nil {
			return Value{p: &SymStr{append([]Value(nil), b...), i}}
		}
	}
	c := make([]byte, len(b))
	for i := range b {
		c[i] = byte(b[i].n)
	}
	return strVal(string(c))
}

// strSlice shares the bytes, which never change.
func strSlice(s *SymStr, l, h int) Value {
	if s.last >= l && s.last < h {
		return Value{p: &SymStr{s.b[l:h:h], s.last - l}}
	}
	return mkStr(s.b[l:h])
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func concreteStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}

// ---- compiled functions

type blockC struct {
	code   []func(fr *frame)
	term   func(fr *frame) int // ordinal of the successor, or -1
	succs  []int
	succPI []int // index of the phi edge taken in the successor
	phiDst []int
	phiSrc [][]opnd // [edge][phi]
	n      int
}

type cfn struct {
	fn       *ssa.Function
	name     string
	rdy      atomic.Bool
	nregs    int
	blocks   []blockC
	params   []int
	fvs      []int
	hasDefer bool
	recov    int
	resZero  func() Value
	native   func(m *Machine, fr *frame, args []Value) Value
	initPkg  *ssa.Package // function is the synthetic init of this package
	clos     *Closure
	hit      int32
	ninstr   int
}

type opnd struct {
	idx int32 // register, or -1 constant, -2 global
	g   int32
	k   Value
}
