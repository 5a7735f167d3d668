package main

import (
	"go/types"
	"math"
	"math/big"
)

// math/big.Int, as used by llir constants. The first field of the struct holds
// an immutable BigBox: either a concrete integer of any size or a symbolic
// term read as a signed 64-bit integer. An operation on symbolic values either
// has an exact answer in those terms, or branches on the values for which it
// has not and reports them as unsupported.

func isBigPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

var bigZero = new(big.Int)

func bigCell(m *Machine, v Value) *Value { return &m.deref(v).p.(*Agg).e[0] }

func bigOf(m *Machine, v Value) BigBox {
	b, ok := bigCell(m, v).p.(*BigBox)
	if !ok {
		return BigBox{x: bigZero}
	}
	return *b
}

func bigNew(b BigBox) Value {
	c := new(Value)
	c.p = &Agg{[]Value{{p: &b}, {}}}
	return Value{p: c}
}

func bigSet(m *Machine, dst Value, b BigBox) Value {
	if b.t != nil && b.t.isC() {
		b = BigBox{x: big.NewInt(int64(b.t.k))}
	}
	bigCell(m, dst).p = &b
	return dst
}

func bigFrom(m *Machine, v Value) BigBox {
	if v.p == nil {
		return BigBox{x: big.NewInt(int64(v.n))}
	}
	return BigBox{t: m.term(v, i64)}
}

// bigT is the value as a 64-bit term, when it fits.
func (m *Machine) bigT(b BigBox) *Term {
	if b.t != nil {
		return b.t
	}
	if !b.x.IsInt64() {
		m.unsup("a symbolic integer together with one of more than 64 bits")
	}
	return m.ts.Const(uint64(b.x.Int64()), 64)
}

// bigConc is the concrete value, exploring every value of a symbolic one.
func (m *Machine) bigConc(v Value) *big.Int {
	b := bigOf(m, v)
	if b.t == nil {
		return b.x
	}
	return big.NewInt(int64(m.conc(Value{p: b.t}, i64)))
}

func (m *Machine) isMin(t *Term) bool {
	return m.branch(m.ts.Cmp(OEq, t, m.ts.Const(1<<63, 64)))
}

func (m *Machine) bigAbsT(t *Term) *Term { // as an unsigned term
	z := m.ts.Const(0, 64)
	return m.ts.ITE(m.ts.Cmp(OSLt, t, z), m.ts.Bin(OSub, z, t), t)
}

func (m *Machine) bigSign(b BigBox) int {
	if b.t == nil {
		return b.x.Sign()
	}
	return m.threeWay(b.t, m.ts.Const(0, 64), OSLt)
}

func (m *Machine) threeWay(x, y *Term, lt Op) int {
	if m.branch(m.ts.Cmp(OEq, x, y)) {
		return 0
	}
	if m.branch(m.ts.Cmp(lt, x, y)) {
		return -1
	}
	return 1
}

func bigInit() {
	num := func(n int) Value { return Value{n: uint64(int64(n))} }
	reg := func(name string, f nat) { natives["(*math/big.Int)."+name] = f }
	// bin registers z.Op(x, y): con for concrete operands, sym for terms
	bin := func(name string, con func(z, x, y *big.Int), sym func(m *Machine, x, y *Term) *Term) {
		reg(name, func(m *Machine, fr *frame, a []Value) Value {
			x, y := bigOf(m, a[1]), bigOf(m, a[2])
			if x.t == nil && y.t == nil {
				z := new(big.Int)
				con(z, x.x, y.x)
				return bigSet(m, a[0], BigBox{x: z})
			}
			return bigSet(m, a[0], BigBox{t: sym(m, m.bigT(x), m.bigT(y))})
		})
	}
	bits2 := func(op Op) func(m *Machine, x, y *Term) *Term {
		return func(m *Machine, x, y *Term) *Term { return m.ts.Bin(op, x, y) }
	}
	bin("And", func(z, x, y *big.Int) { z.And(x, y) }, bits2(OAnd))
	bin("Or", func(z, x, y *big.Int) { z.Or(x, y) }, bits2(OOr))
	bin("Xor", func(z, x, y *big.Int) { z.Xor(x, y) }, bits2(OXor))
	bin("AndNot", func(z, x, y *big.Int) { z.AndNot(x, y) }, func(m *Machine, x, y *Term) *Term {
		return m.ts.Bin(OAnd, x, m.ts.Bin(OXor, y, m.ts.Const(^uint64(0), 64)))
	})
	overflow := func(m *Machine, c *Term) {
		if m.branch(c) {
			m.unsup("big.Int result of more than 64 bits")
		}
	}
	neg := func(m *Machine, t *Term) *Term { return m.ts.Cmp(OSLt, t, m.ts.Const(0, 64)) }
	bin("Add", func(z, x, y *big.Int) { z.Add(x, y) }, func(m *Machine, x, y *Term) *Term {
		s := m.ts.Bin(OAdd, x, y)
		// both operands differ in sign from the sum
		d := m.ts.Bin(OAnd, m.ts.Bin(OXor, x, s), m.ts.Bin(OXor, y, s))
		overflow(m, neg(m, d))
		return s
	})
	bin("Sub", func(z, x, y *big.Int) { z.Sub(x, y) }, func(m *Machine, x, y *Term) *Term {
		s := m.ts.Bin(OSub, x, y)
		d := m.ts.Bin(OAnd, m.ts.Bin(OXor, x, y), m.ts.Bin(OXor, x, s))
		overflow(m, neg(m, d))
		return s
	})
	bin("Mul", func(z, x, y *big.Int) { z.Mul(x, y) }, func(m *Machine, x, y *Term) *Term {
		p := m.ts.Bin(OMul, x, y)
		zero := m.ts.Const(0, 64)
		if !m.branch(m.ts.Cmp(OEq, y, zero)) {
			if m.branch(m.ts.Cmp(OEq, y, m.ts.Const(^uint64(0), 64))) {
				overflow(m, m.ts.Cmp(OEq, x, m.ts.Const(1<<63, 64)))
			} else {
				overflow(m, m.ts.Not(m.ts.Cmp(OEq, m.ts.Bin(OSDiv, p, y), x)))
			}
		}
		return p
	})
	divs := func(name string, con func(z, x, y *big.Int), op Op, euclid bool) {
		reg(name, func(m *Machine, fr *frame, a []Value) Value {
			x, y := bigOf(m, a[1]), bigOf(m, a[2])
			if m.bigSign(y) == 0 {
				m.rtPanic("division by zero")
			}
			if x.t == nil && y.t == nil {
				z := new(big.Int)
				con(z, x.x, y.x)
				return bigSet(m, a[0], BigBox{x: z})
			}
			if euclid && m.bigSign(x) < 0 {
				m.unsup("big.Int.%s of a negative symbolic value", name)
			}
			xt, yt := m.bigT(x), m.bigT(y)
			if m.branch(m.ts.And(m.ts.Cmp(OEq, xt, m.ts.Const(1<<63, 64)), m.ts.Cmp(OEq, yt, m.ts.Const(^uint64(0), 64)))) {
				m.unsup("big.Int result of more than 64 bits")
			}
			return bigSet(m, a[0], BigBox{t: m.ts.Bin(op, xt, yt)})
		})
	}
	divs("Quo", func(z, x, y *big.Int) { z.Quo(x, y) }, OSDiv, false)
	divs("Rem", func(z, x, y *big.Int) { z.Rem(x, y) }, OSRem, false)
	divs("Div", func(z, x, y *big.Int) { z.Div(x, y) }, OSDiv, true)
	divs("Mod", func(z, x, y *big.Int) { z.Mod(x, y) }, OSRem, true)

	natives["math/big.NewInt"] = func(m *Machine, fr *frame, a []Value) Value { return bigNew(bigFrom(m, a[0])) }
	reg("SetInt64", func(m *Machine, fr *frame, a []Value) Value { return bigSet(m, a[0], bigFrom(m, a[1])) })
	reg("SetUint64", func(m *Machine, fr *frame, a []Value) Value {
		if a[1].p == nil {
			return bigSet(m, a[0], BigBox{x: new(big.Int).SetUint64(a[1].n)})
		}
		t := m.term(a[1], i64)
		if m.branch(neg(m, t)) {
			return bigSet(m, a[0], BigBox{x: new(big.Int).SetUint64(m.conc(a[1], tinfo{kInt, 64, false}))})
		}
		return bigSet(m, a[0], BigBox{t: t})
	})
	reg("Set", func(m *Machine, fr *frame, a []Value) Value { return bigSet(m, a[0], bigOf(m, a[1])) })
	low := func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[0])
		if b.t != nil {
			return Value{p: b.t}
		}
		if b.x.Sign() < 0 {
			return Value{n: uint64(b.x.Int64())}
		}
		return Value{n: b.x.Uint64()}
	}
	reg("Int64", low)
	reg("Uint64", low)
	reg("IsInt64", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[0])
		return Value{n: b2u(b.t != nil || b.x.IsInt64())}
	})
	reg("IsUint64", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[0])
		if b.t != nil {
			return m.boolV(m.ts.Not(neg(m, b.t)))
		}
		return Value{n: b2u(b.x.IsUint64())}
	})
	reg("Neg", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[1])
		if b.t == nil {
			return bigSet(m, a[0], BigBox{x: new(big.Int).Neg(b.x)})
		}
		if m.isMin(b.t) {
			return bigSet(m, a[0], BigBox{x: new(big.Int).Neg(big.NewInt(math.MinInt64))})
		}
		return bigSet(m, a[0], BigBox{t: m.ts.Bin(OSub, m.ts.Const(0, 64), b.t)})
	})
	reg("Abs", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[1])
		if b.t == nil {
			return bigSet(m, a[0], BigBox{x: new(big.Int).Abs(b.x)})
		}
		if m.isMin(b.t) {
			return bigSet(m, a[0], BigBox{x: new(big.Int).Neg(big.NewInt(math.MinInt64))})
		}
		return bigSet(m, a[0], BigBox{t: m.bigAbsT(b.t)})
	})
	reg("Not", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[1])
		if b.t == nil {
			return bigSet(m, a[0], BigBox{x: new(big.Int).Not(b.x)})
		}
		return bigSet(m, a[0], BigBox{t: m.ts.Bin(OXor, b.t, m.ts.Const(^uint64(0), 64))})
	})
	reg("Lsh", func(m *Machine, fr *frame, a []Value) Value {
		x, n := bigOf(m, a[1]), uint(m.conc(a[2], tinfo{kInt, 64, false}))
		if x.t != nil {
			k := m.ts.Const(uint64(n), 64)
			r := m.ts.Bin(OShl, x.t, k)
			if n >= 64 {
				x = BigBox{x: m.bigConc(a[1])}
			} else {
				overflow(m, m.ts.Not(m.ts.Cmp(OEq, m.ts.Bin(OAShr, r, k), x.t)))
				return bigSet(m, a[0], BigBox{t: r})
			}
		}
		return bigSet(m, a[0], BigBox{x: new(big.Int).Lsh(x.x, n)})
	})
	reg("Rsh", func(m *Machine, fr *frame, a []Value) Value {
		x, n := bigOf(m, a[1]), uint(m.conc(a[2], tinfo{kInt, 64, false}))
		if x.t != nil {
			return bigSet(m, a[0], BigBox{t: m.ts.Bin(OAShr, x.t, m.ts.Const(uint64(min(n, 63)), 64))})
		}
		return bigSet(m, a[0], BigBox{x: new(big.Int).Rsh(x.x, n)})
	})
	reg("Bit", func(m *Machine, fr *frame, a []Value) Value {
		x, n := bigOf(m, a[0]), int(int64(m.conc(a[1], i64)))
		if x.t != nil {
			return Value{p: m.ts.Bin(OAnd, m.ts.Bin(OAShr, x.t, m.ts.Const(uint64(min(max(n, 0), 63)), 64)), m.ts.Const(1, 64))}
		}
		return num(int(x.x.Bit(n)))
	})
	reg("Sign", func(m *Machine, fr *frame, a []Value) Value { return num(m.bigSign(bigOf(m, a[0]))) })
	reg("Cmp", func(m *Machine, fr *frame, a []Value) Value {
		x, y := bigOf(m, a[0]), bigOf(m, a[1])
		if x.t == nil && y.t == nil {
			return num(x.x.Cmp(y.x))
		}
		if x.t == nil && !x.x.IsInt64() {
			return num(x.x.Sign())
		}
		if y.t == nil && !y.x.IsInt64() {
			return num(-y.x.Sign())
		}
		return num(m.threeWay(m.bigT(x), m.bigT(y), OSLt))
	})
	reg("CmpAbs", func(m *Machine, fr *frame, a []Value) Value {
		x, y := bigOf(m, a[0]), bigOf(m, a[1])
		if x.t == nil && y.t == nil {
			return num(x.x.CmpAbs(y.x))
		}
		return num(m.threeWay(m.bigAbsT(m.bigT(x)), m.bigAbsT(m.bigT(y)), OULt))
	})
	reg("BitLen", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[0])
		if b.t == nil {
			return num(b.x.BitLen())
		}
		return Value{p: m.lenTerm(m.bigAbsT(b.t))}
	})
	reg("TrailingZeroBits", func(m *Machine, fr *frame, a []Value) Value {
		b := bigOf(m, a[0])
		if b.t == nil {
			return num(int(b.x.TrailingZeroBits()))
		}
		return Value{p: m.ctzTerm(b.t, 0)}
	})
	reg("String", func(m *Machine, fr *frame, a []Value) Value {
		if a[0].p == nil {
			return strVal("<nil>")
		}
		return strVal(m.bigConc(a[0]).String())
	})
	reg("Text", func(m *Machine, fr *frame, a []Value) Value {
		if a[0].p == nil {
			return strVal("<nil>")
		}
		return strVal(m.bigConc(a[0]).Text(int(m.conc(a[1], i64))))
	})
	reg("SetString", func(m *Machine, fr *frame, a []Value) Value {
		z, ok := new(big.Int).SetString(m.strArg(a[1]), int(m.conc(a[2], i64)))
		if !ok {
			return tuple(Value{}, Value{})
		}
		return tuple(bigSet(m, a[0], BigBox{x: z}), Value{n: 1})
	})
	reg("QuoRem", func(m *Machine, fr *frame, a []Value) Value {
		q, r := bigNew(BigBox{x: bigZero}), bigNew(BigBox{x: bigZero})
		natives["(*math/big.Int).Quo"](m, fr, []Value{q, a[1], a[2]})
		natives["(*math/big.Int).Rem"](m, fr, []Value{r, a[1], a[2]})
		bigSet(m, a[3], bigOf(m, r))
		bigSet(m, a[0], bigOf(m, q))
		return tuple(a[0], a[3])
	})
	// math/bits of symbolic words
	wrap := func(name string, w uint8, f func(m *Machine, t *Term) *Term) {
		natives["math/bits."+name] = func(m *Machine, fr *frame, a []Value) Value {
			ti := tinfo{kInt, w, false}
			return m.intV(f(m, m.ts.ZExt(m.term(a[0], ti), 64)), i64)
		}
	}
	for _, s := range []struct {
		n string
		w uint8
	}{{"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}, {"", 64}} {
		w := s.w
		wrap("Len"+s.n, w, func(m *Machine, t *Term) *Term { return m.lenTerm(t) })
		wrap("LeadingZeros"+s.n, w, func(m *Machine, t *Term) *Term {
			return m.ts.Bin(OSub, m.ts.Const(uint64(w), 64), m.lenTerm(t))
		})
		wrap("TrailingZeros"+s.n, w, func(m *Machine, t *Term) *Term { return m.ctzTerm(t, uint64(w)) })
		wrap("OnesCount"+s.n, w, func(m *Machine, t *Term) *Term {
			r := m.ts.Const(0, 64)
			for i := uint8(0); i < w; i++ {
				r = m.ts.Bin(OAdd, r, m.ts.Bin(OAnd, m.ts.Bin(OLShr, t, m.ts.Const(uint64(i), 64)), m.ts.Const(1, 64)))
			}
			return r
		})
	}
}

// lenTerm is the number of bits needed for an unsigned 64-bit term.
func (m *Machine) lenTerm(t *Term) *Term {
	r := m.ts.Const(0, 64)
	for i := 0; i < 64; i++ {
		r = m.ts.ITE(m.ts.Cmp(OULe, m.ts.Const(1<<i, 64), t), m.ts.Const(uint64(i+1), 64), r)
	}
	return r
}

// ctzTerm is the number of trailing zeros, zero for zero.
func (m *Machine) ctzTerm(t *Term, zero uint64) *Term {
	r := m.ts.Const(zero, 64)
	for i := 63; i >= 0; i-- {
		bit := m.ts.Bin(OAnd, t, m.ts.Const(1<<i, 64))
		r = m.ts.ITE(m.ts.Not(m.ts.Cmp(OEq, bit, m.ts.Const(0, 64))), m.ts.Const(uint64(i), 64), r)
	}
	return r
}
