package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions. Width 0 means Bool.

type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OSDiv
	OUDiv
	OSRem
	OURem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OExtract // k = lo, w = width
	OZExt
	OSExt
	OITE
	OEq
	OULt
	OSLt
	OULe
	OSLe
	ONot  // boolean
	OBAnd // boolean
	OBOr  // boolean
	OTab  // table lookup: k = table id, a = index
	OConcat
)

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	id      int
	v       int32 // -1 no variable, -2 several variables, otherwise the variable index
	printed int   // solver session stamp
	stamp   uint32
	cache   uint64
	truth   *[4]uint64 // truth set when boolean and univariate over a byte variable
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
}

type SymVar struct {
	name string
	w    uint8
	idx  int
	t    *Term
	kind string
	// domain for byte (and narrower) variables
	dom   [4]uint64
	multi bool // occurs in a multivariate constraint of the path condition
	// expected values for the conflicting case are filled from models
}

type Terms struct {
	tab    map[tkey]*Term
	n      int
	vars   []*SymVar
	tables [][]uint64
	tabIdx map[string]int
	canons map[string]*Term
	stamp  uint32
}

func newTerms() *Terms {
	return &Terms{tab: make(map[tkey]*Term, 1024), tabIdx: map[string]int{}, canons: map[string]*Term{}}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := 64 - w
	return int64(k<<sh) >> sh
}

func joinVar(x, y int32) int32 {
	if x == -1 {
		return y
	}
	if y == -1 || x == y {
		return x
	}
	return -2
}

func (ts *Terms) raw(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, a, b, c, k}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	v := int32(-1)
	if a != nil {
		v = joinVar(v, a.v)
	}
	if b != nil {
		v = joinVar(v, b.v)
	}
	if c != nil {
		v = joinVar(v, c.v)
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: ts.n, v: v}
	ts.n++
	if w > 8 && v >= 0 && op != OVar && ts.vars[v].w <= 8 {
		if r := ts.canon(t); r != t {
			t = r
		}
	}
	ts.tab[key] = t
	return t
}

// canon merges word-sized terms that are the same function of one byte variable on the values it can still take.
func (ts *Terms) canon(t *Term) *Term {
	sv := ts.vars[t.v]
	buf := make([]byte, 0, 96)
	buf = append(buf, byte(t.v), byte(t.v>>8), t.w)
	for i := range sv.dom {
		for j := 0; j < 8; j++ {
			buf = append(buf, byte(sv.dom[i]>>(8*j)))
		}
	}
	n := 256
	if sv.w == 0 {
		n = 2
	} else if sv.w < 8 {
		n = 1 << sv.w
	}
	same, first := true, true
	var v0 uint64
	for i := 0; i < n; i++ {
		if sv.dom[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		ts.evalStart()
		x := ts.eval(t, func(int) uint64 { return uint64(i) })
		if first {
			v0, first = x, false
		} else if x != v0 {
			same = false
		}
		for j := 0; j < int(t.w); j += 8 {
			buf = append(buf, byte(x>>j))
		}
	}
	if same && !first {
		return ts.Const(v0, t.w)
	}
	k := string(buf)
	if r, ok := ts.canons[k]; ok {
		return r
	}
	ts.canons[k] = t
	return t
}

func (ts *Terms) NewVar(name string, w uint8, kind string) *SymVar {
	idx := len(ts.vars)
	t := ts.raw(OVar, w, nil, nil, nil, uint64(idx))
	t.v = int32(idx)
	sv := &SymVar{name: name, w: w, idx: idx, t: t, kind: kind}
	n := 256
	if w == 0 {
		n = 2
	} else if w < 8 {
		n = 1 << w
	}
	for i := 0; i < n; i++ {
		sv.dom[i>>6] |= 1 << (i & 63)
	}
	ts.vars = append(ts.vars, sv)
	return sv
}

func (ts *Terms) Const(k uint64, w uint8) *Term {
	if w == 0 {
		k &= 1
	} else {
		k &= mask(w)
	}
	return ts.raw(OConst, w, nil, nil, nil, k)
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.Const(1, 0)
	}
	return ts.Const(0, 0)
}

func (t *Term) isC() bool { return t.op == OConst }

func fold(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("fold")
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OULt:
		return x < y
	case OULe:
		return x <= y
	case OSLt:
		return sext(x, w) < sext(y, w)
	case OSLe:
		return sext(x, w) <= sext(y, w)
	}
	panic("foldCmp")
}

func (ts *Terms) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("term width mismatch %d: %d vs %d", op, x.w, y.w))
	}
	if x.isC() && y.isC() {
		return ts.Const(fold(op, w, x.k, y.k), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if x.isC() || (!y.isC() && x.id > y.id) {
			x, y = y, x
		}
	}
	if y.isC() {
		switch op {
		case OAdd:
			if y.k == 0 {
				return x
			}
			if x.op == OAdd && x.b.isC() {
				return ts.Bin(OAdd, x.a, ts.Const(x.b.k+y.k, w))
			}
		case OSub:
			if y.k == 0 {
				return x
			}
			return ts.Bin(OAdd, x, ts.Const(-y.k, w))
		case OMul:
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
		case OAnd:
			if y.k == 0 {
				return y
			}
			if y.k == mask(w) {
				return x
			}
			if x.op == OZExt && y.k == mask(x.a.w) {
				return x
			}
		case OOr, OXor:
			if y.k == 0 {
				return x
			}
		case OShl, OLShr, OAShr:
			if y.k == 0 {
				return x
			}
		case OSDiv, OUDiv:
			if y.k == 1 {
				return x
			}
		}
	}
	ic := func(t *Term) bool { return t.op == OITE && t.b.isC() && t.c.isC() }
	if ic(x) && y.isC() {
		return ts.ITE(x.a, ts.Const(fold(op, w, x.b.k, y.k), w), ts.Const(fold(op, w, x.c.k, y.k), w))
	}
	if ic(y) && x.isC() {
		return ts.ITE(y.a, ts.Const(fold(op, w, x.k, y.b.k), w), ts.Const(fold(op, w, x.k, y.c.k), w))
	}
	// constants of sums move outwards, so that the base of an address stays visible
	if w == 64 && (op == OAdd || op == OSub) && !y.isC() {
		sum := func(t *Term) bool { return t.op == OAdd && t.b.isC() }
		switch {
		case op == OAdd && sum(x):
			return ts.Bin(OAdd, ts.Bin(OAdd, x.a, y), x.b)
		case op == OAdd && sum(y):
			return ts.Bin(OAdd, ts.Bin(OAdd, x, y.a), y.b)
		case op == OSub && sum(x):
			return ts.Bin(OAdd, ts.Bin(OSub, x.a, y), x.b)
		case op == OSub && sum(y):
			return ts.Bin(OAdd, ts.Bin(OSub, x, y.a), ts.Const(-y.b.k, w))
		case op == OSub && x.isC() && x.k != 0:
			return ts.Bin(OAdd, ts.Bin(OSub, ts.Const(0, w), y), x)
		}
	}
	if x == y {
		switch op {
		case OSub, OXor:
			return ts.Const(0, w)
		case OAnd, OOr:
			return x
		}
	}
	return ts.raw(op, w, x, y, nil, 0)
}

func (ts *Terms) Cmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("cmp width mismatch %d vs %d", x.w, y.w))
	}
	w := x.w
	if x.isC() && y.isC() {
		return ts.Bool(foldCmp(op, w, x.k, y.k))
	}
	if x == y {
		switch op {
		case OEq, OULe, OSLe:
			return ts.Bool(true)
		}
		return ts.Bool(false)
	}
	if w == 0 && op == OEq {
		if y.isC() {
			x, y = y, x
		}
		if x.isC() {
			if x.k == 1 {
				return y
			}
			return ts.Not(y)
		}
	}
	if op == OEq {
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			switch x.op {
			case OZExt:
				if y.k > mask(x.a.w) {
					return ts.Bool(false)
				}
				return ts.Cmp(OEq, x.a, ts.Const(y.k, x.a.w))
			case OSExt:
				lo := y.k & mask(x.a.w)
				if uint64(sext(lo, x.a.w))&mask(w) != y.k {
					return ts.Bool(false)
				}
				return ts.Cmp(OEq, x.a, ts.Const(lo, x.a.w))
			case OITE:
				if x.b.isC() && x.c.isC() {
					tb, fb := x.b.k == y.k, x.c.k == y.k
					switch {
					case tb && fb:
						return ts.Bool(true)
					case tb:
						return x.a
					case fb:
						return ts.Not(x.a)
					default:
						return ts.Bool(false)
					}
				}
			case OAdd:
				if x.b.isC() {
					return ts.Cmp(OEq, x.a, ts.Const(y.k-x.b.k, w))
				}
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	} else if x.op == OZExt && y.isC() && y.k <= mask(x.a.w) && x.a.w < w {
		// comparisons of a zero-extended value with a small constant
		switch op {
		case OULt, OSLt:
			if sext(y.k, w) >= 0 {
				return ts.Cmp(OULt, x.a, ts.Const(y.k, x.a.w))
			}
		case OULe, OSLe:
			if sext(y.k, w) >= 0 {
				return ts.Cmp(OULe, x.a, ts.Const(y.k, x.a.w))
			}
		}
	}
	return ts.raw(op, 0, x, y, nil, 0)
}

// RawEq builds an equality that is never simplified away.
func (ts *Terms) RawEq(x, y *Term) *Term { return ts.raw(OEq, 0, x, y, nil, 1) }

func (ts *Terms) Not(x *Term) *Term {
	if x.isC() {
		return ts.Bool(x.k == 0)
	}
	if x.op == ONot {
		return x.a
	}
	return ts.raw(ONot, 0, x, nil, nil, 0)
}

func (ts *Terms) And(x, y *Term) *Term {
	if x.isC() {
		if x.k == 1 {
			return y
		}
		return x
	}
	if y.isC() {
		if y.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	return ts.raw(OBAnd, 0, x, y, nil, 0)
}

func (ts *Terms) Or(x, y *Term) *Term {
	if x.isC() {
		if x.k == 0 {
			return y
		}
		return x
	}
	if y.isC() {
		if y.k == 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	return ts.raw(OBOr, 0, x, y, nil, 0)
}

func (ts *Terms) ITE(c, x, y *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return ts.Or(ts.And(c, x), ts.And(ts.Not(c), y))
	}
	return ts.raw(OITE, x.w, c, x, y, 0)
}

func (ts *Terms) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && w == x.w {
		return x
	}
	if x.isC() {
		return ts.Const(x.k>>lo, w)
	}
	switch x.op {
	case OZExt, OSExt:
		if lo == 0 {
			if w == x.a.w {
				return x.a
			}
			if w < x.a.w {
				return ts.Extract(x.a, 0, w)
			}
			if x.op == OZExt {
				return ts.ZExt(x.a, w)
			}
			return ts.SExt(x.a, w)
		}
		if x.op == OZExt && lo >= x.a.w {
			return ts.Const(0, w)
		}
		if lo+w <= x.a.w {
			return ts.Extract(x.a, lo, w)
		}
	case OExtract:
		return ts.Extract(x.a, lo+uint8(x.k), w)
	case OITE:
		if x.b.isC() && x.c.isC() {
			return ts.ITE(x.a, ts.Extract(x.b, lo, w), ts.Extract(x.c, lo, w))
		}
	}
	return ts.raw(OExtract, w, x, nil, nil, uint64(lo))
}

func (ts *Terms) ZExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return ts.Const(x.k, w)
	}
	if x.op == OZExt {
		return ts.ZExt(x.a, w)
	}
	if x.op == OITE && x.b.isC() && x.c.isC() {
		return ts.ITE(x.a, ts.Const(x.b.k, w), ts.Const(x.c.k, w))
	}
	return ts.raw(OZExt, w, x, nil, nil, 0)
}

func (ts *Terms) SExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return ts.Const(uint64(sext(x.k, x.w)), w)
	}
	if x.op == OSExt {
		return ts.SExt(x.a, w)
	}
	if x.op == OZExt && x.a.w < x.w {
		return ts.ZExt(x.a, w)
	}
	return ts.raw(OSExt, w, x, nil, nil, 0)
}

func (ts *Terms) Table(vals []uint64, w uint8, idx *Term) *Term {
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same && len(vals) > 0 {
		return ts.Const(vals[0], w)
	}
	var sb strings.Builder
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	key := sb.String()
	id, ok := ts.tabIdx[key]
	if !ok {
		id = len(ts.tables)
		ts.tables = append(ts.tables, append([]uint64(nil), vals...))
		ts.tabIdx[key] = id
	}
	return ts.raw(OTab, w, idx, nil, nil, uint64(id))
}

// eval evaluates t under an assignment.
func (ts *Terms) evalStart() { ts.stamp++ }

func (ts *Terms) eval(t *Term, asg func(i int) uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.stamp == ts.stamp {
		return t.cache
	}
	var r uint64
	switch t.op {
	case OVar:
		r = asg(int(t.k))
	case OExtract:
		r = (ts.eval(t.a, asg) >> t.k) & mask(t.w)
	case OZExt:
		r = ts.eval(t.a, asg)
	case OSExt:
		r = uint64(sext(ts.eval(t.a, asg), t.a.w)) & mask(t.w)
	case OITE:
		if ts.eval(t.a, asg) != 0 {
			r = ts.eval(t.b, asg)
		} else {
			r = ts.eval(t.c, asg)
		}
	case OEq, OULt, OULe, OSLt, OSLe:
		if foldCmp(t.op, t.a.w, ts.eval(t.a, asg), ts.eval(t.b, asg)) {
			r = 1
		}
	case ONot:
		r = 1 ^ ts.eval(t.a, asg)
	case OBAnd:
		r = ts.eval(t.a, asg) & ts.eval(t.b, asg)
	case OBOr:
		r = ts.eval(t.a, asg) | ts.eval(t.b, asg)
	case OTab:
		i := ts.eval(t.a, asg)
		tab := ts.tables[t.k]
		if i < uint64(len(tab)) {
			r = tab[i]
		}
	default:
		r = fold(t.op, t.w, ts.eval(t.a, asg), ts.eval(t.b, asg))
	}
	t.stamp = ts.stamp
	t.cache = r
	return r
}

// truthSet gives the set of values of the (byte-sized) single variable of t for which t holds.
func (ts *Terms) truthSet(t *Term) *[4]uint64 {
	if t.truth != nil {
		return t.truth
	}
	var s [4]uint64
	sv := ts.vars[t.v]
	n := 256
	if sv.w == 0 {
		n = 2
	} else if sv.w < 8 {
		n = 1 << sv.w
	}
	for i := 0; i < n; i++ {
		ts.evalStart()
		if ts.eval(t, func(int) uint64 { return uint64(i) }) != 0 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	t.truth = &s
	return t.truth
}

func setAnd(a, b *[4]uint64) (r [4]uint64) {
	for i := range r {
		r[i] = a[i] & b[i]
	}
	return
}
func setAndNot(a, b *[4]uint64) (r [4]uint64) {
	for i := range r {
		r[i] = a[i] &^ b[i]
	}
	return
}
func setEmpty(a *[4]uint64) bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func setMin(a *[4]uint64) int {
	for i := range a {
		if a[i] != 0 {
			return i*64 + bits.TrailingZeros64(a[i])
		}
	}
	return -1
}

// ---- SMT-LIB printing

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OSDiv: "bvsdiv", OUDiv: "bvudiv",
	OSRem: "bvsrem", OURem: "bvurem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr",
	OAShr: "bvashr", OEq: "=", OULt: "bvult", OSLt: "bvslt", OULe: "bvule", OSLe: "bvsle", OBAnd: "and", OBOr: "or"}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (ts *Terms) define(sb *strings.Builder, t *Term, session int) {
	if t.printed == session || t.op == OConst || t.op == OVar {
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			ts.define(sb, x, session)
		}
	}
	t.printed = session
	var body string
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, t.a.ref())
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OITE:
		body = fmt.Sprintf("(ite %s %s %s)", t.a.ref(), t.b.ref(), t.c.ref())
	case ONot:
		body = fmt.Sprintf("(not %s)", t.a.ref())
	case OTab:
		tab := ts.tables[t.k]
		var b strings.Builder
		n := 0
		i := 0
		for i < len(tab) {
			j := i
			for j+1 < len(tab) && tab[j+1] == tab[i] {
				j++
			}
			if j == len(tab)-1 {
				b.WriteString(ts.Const(tab[i], t.w).ref())
				break
			}
			fmt.Fprintf(&b, "(ite (bvule %s %s) %s ", t.a.ref(), ts.Const(uint64(j), t.a.w).ref(), ts.Const(tab[i], t.w).ref())
			n++
			i = j + 1
		}
		b.WriteString(strings.Repeat(")", n))
		body = b.String()
	default:
		body = fmt.Sprintf("(%s %s %s)", opName[t.op], t.a.ref(), t.b.ref())
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body)
}
