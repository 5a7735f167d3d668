"""Symbolic executor for LLVM IR over linear integer arithmetic, decided by Z3.

Every machine integer is represented by its unsigned value: a Python int when it is concrete, otherwise a
Sym (Z3 integer term with an interval).  Wrapping, truncation and division by constants introduce quotient
and remainder variables, so decimal conversion of all 64-bit words stays linear.  Paths are enumerated by
re-execution along recorded decisions; both sides of a branch are kept exactly when Z3 finds them possible."""
import math
import time
import z3
from llparse import Unsupported, Module, I, PTR


class Violation(Exception):
    def __init__(self, msg, oob=False):
        super().__init__(msg)
        self.oob = oob


class Stop(Exception):
    """the path ends (exit system call, infeasible, budget)"""


class Undecided(Exception):
    pass


class NoMerge(Exception):
    """the two sides of a branch cannot be evaluated together"""


class Sym:
    """an unsigned value: integer term e in [lo, hi]; tz low zero bits

    prov (root, c, m): the value is (root // c) % m (m None: no modulus needed)
    lin (k, s, x):     the value is k + s * x
    neg (x, w):        the value is -x modulo 2^w
    parts:             the value is the sum of 2^shift * part over disjoint bit ranges [(shift, width, part)]"""
    __slots__ = ('e', 'lo', 'hi', 'cond', 'tz', 'prov', 'lin', 'parts', 'neg')

    def __init__(self, e, lo, hi, cond=None, tz=0, prov=None, lin=None, parts=None):
        self.e, self.lo, self.hi, self.cond, self.tz = e, lo, hi, cond, tz
        self.prov, self.lin, self.parts, self.neg = prov, lin, parts, None


class Cond:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


def ex(v):
    return z3.IntVal(v) if isinstance(v, int) else v.e


def lo(v):
    return v if isinstance(v, int) else v.lo


def hi(v):
    return v if isinstance(v, int) else v.hi


def tz(v):
    if isinstance(v, int):
        return 64 if v == 0 else (v & -v).bit_length() - 1
    return v.tz


class Obj:
    def __init__(self, base, size, name, const=False):
        self.base, self.size, self.name, self.const = base, size, name, const
        self.bytes = {}
        self.dead = False


REGW = 64


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.paths = self.steps = self.asserts = self.asserts_rewritten = 0
        self.functions = set()


class Engine:
    """explores all paths of scenario(path)"""

    def __init__(self, prog, stats, deadline, timeout_ms=60000, seed=1):
        self.prog, self.st, self.deadline, self.timeout, self.seed = prog, stats, deadline, timeout_ms, seed

    def run(self, scenario, maxpaths=20000):
        """yields (path, violation or None) for every completed path"""
        work = [[]]
        n = 0
        while work:
            if time.time() > self.deadline:
                raise Undecided('time limit, %d paths left' % len(work))
            if n > maxpaths:
                raise Undecided('more than %d paths' % maxpaths)
            pre = work.pop()
            p = Path(self, pre)
            p.work = work
            n += 1
            viol = None
            try:
                try:
                    scenario(p)
                except Stop:
                    pass
            except Violation as v:
                viol = v
            except Infeasible:
                continue
            self.st.paths += 1
            yield p, viol


class Infeasible(Exception):
    pass


class Path:
    def __init__(self, eng, prefix):
        self.eng, self.prog, self.st = eng, eng.prog, eng.st
        self.prefix, self.pos, self.trail = prefix, 0, []
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.timeout)
        self.solver.set('random_seed', eng.seed)
        self.fresh_n = 0
        self.memo = {}
        self.symof = {}           # id of a variable -> Sym
        self.sure = True
        self.spec = None          # undo log while both sides of a branch are evaluated together
        self.subst = {}           # id of a variable -> its linear form in other variables
        self.objs = []
        self.nextbase = 0x10000
        self.events = []
        self.inputs = []          # (name, Sym) in creation order
        self.env = {}
        self.steps = 0
        self.depth = 0
        self.hooks = {}
        self.model = None
        self.notes = {}
        self.globaddr = {}
        self.funcaddr = {}
        self.addrfunc = {}
        self.syscall = None

    # ---- solver
    def check(self, *assume):
        t = time.time()
        r = self.solver.check(*assume)
        self.st.queries += 1
        self.st.time += time.time() - t
        if r == z3.sat:
            self.st.sat += 1
        elif r == z3.unsat:
            self.st.unsat += 1
        else:
            self.st.unknown += 1
        return r

    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c:
                raise Infeasible()
            return
        self.solver.add(c.e if isinstance(c, Cond) else c)

    def var(self, name, lo_, hi_, inp=False):
        self.fresh_n += 1
        e = z3.Int('%s!%d' % (name, self.fresh_n))
        self.solver.add(e >= lo_, e <= hi_)
        s = Sym(e, lo_, hi_)
        self.symof[e.get_id()] = s
        if inp:
            self.inputs.append((name, s))
        return s

    def input(self, name, bits=64, lo_=0, hi_=None):
        return self.var(name, lo_, (1 << bits) - 1 if hi_ is None else hi_, True)

    # ---- decisions
    def decide(self, c):
        """c: bool/int or Cond; returns a Python bool, forking when both are possible"""
        if isinstance(c, (bool, int)):
            return bool(c)
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.spec is not None:
            raise NoMerge()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos][1]
            self.pos += 1
            self.trail.append(('b', d))
            self.solver.add(e if d else z3.Not(e))
            return d
        ct = self.check(e)
        cf = self.check(z3.Not(e)) if ct != z3.unsat else z3.sat
        if ct == z3.unsat and cf == z3.unsat:
            raise Infeasible()
        if ct != z3.unsat and cf != z3.unsat:
            self.work.append(self.trail + [('b', False)])
            d = True
        else:
            d = ct != z3.unsat
        self.pos += 1
        self.prefix = self.trail + [('b', d)]
        self.trail = list(self.prefix)
        self.solver.add(e if d else z3.Not(e))
        return d

    def choose(self, n, name):
        """free choice of the scenario among range(n)"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.work.append(self.trail + [('v', k)])
        self.pos += 1
        self.trail = self.trail + [('v', v)]
        if self.pos > len(self.prefix):
            self.prefix = list(self.trail)
        self.notes[name] = v
        return v

    def concretize(self, v, limit=300):
        if isinstance(v, int):
            return v
        if self.spec is not None:
            raise NoMerge()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos][1]
        else:
            vals = []
            self.solver.push()
            while True:
                r = self.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    self.solver.pop()
                    raise Undecided('address')
                x = self.solver.model().eval(v.e, model_completion=True).as_long()
                vals.append(x)
                if len(vals) > limit:
                    self.solver.pop()
                    raise Unsupported('a value with more than %d possibilities is used as an address or size' % limit)
                self.solver.add(v.e != x)
            self.solver.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            d = vals[0]
            for k in vals[1:]:
                self.work.append(self.trail + [('v', k)])
        self.pos += 1
        self.trail = self.trail + [('v', d)]
        if self.pos > len(self.prefix):
            self.prefix = list(self.trail)
        self.solver.add(v.e == d)
        return d

    def prove(self, c, msg):
        """violation unless c holds for every value left on this path"""
        self.st.asserts += 1
        if isinstance(c, z3.BoolRef) and z3.is_eq(c) and self.linear(c.arg(0) - c.arg(1)) == ({}, 0):
            self.st.asserts_rewritten += 1
            return
        if isinstance(c, (bool, int)):
            self.st.asserts_rewritten += 1
            if c:
                return
            raise Violation(msg)
        e = c.e if isinstance(c, Cond) else c
        n = z3.simplify(z3.Not(e))
        if z3.is_false(n):
            self.st.asserts_rewritten += 1
            return
        r = self.check(n)
        if r == z3.unsat:
            self.solver.add(e)
            return
        if r == z3.unknown:
            raise Undecided(msg)
        self.solver.add(n)
        raise Violation(msg)

    def getmodel(self):
        if self.check() != z3.sat:
            return None
        m = self.solver.model()
        out = {}
        for n, s in self.inputs:
            out.setdefault(n, m.eval(s.e, model_completion=True).as_long())
        return out, m

    def evalm(self, m, v):
        return v if isinstance(v, int) else m.eval(v.e, model_completion=True).as_long()

    # ---- arithmetic on unsigned representatives
    def relate(self, e, terms):
        """e is the sum of coefficient * value; recorded for the solver and as a rewrite rule"""
        self.solver.add(e == z3.Sum([ex(x) * c for c, x in terms]))
        ls = {}
        k = 0
        for c, x in terms:
            d, c0 = self.linear(ex(x))
            k += c * c0
            for i, n in d.items():
                ls[i] = ls.get(i, 0) + c * n
        d, c0 = self.linear(e)
        # solve d + c0 == ls + k for a variable that does not occur on the right: the one with coefficient 1 that is oldest
        diff = dict(d)
        for i, n in ls.items():
            diff[i] = diff.get(i, 0) - n
        diff = {i: n for i, n in diff.items() if n}
        cand = [i for i, n in diff.items() if abs(n) == 1 and i in self.symof]
        if not cand:
            return
        i = min(cand, key=lambda i: (-(self.symof[i].hi - self.symof[i].lo), i))
        n = diff.pop(i)
        # n * v + diff + c0 - k == 0
        self.subst[i] = ({j: -m * n for j, m in diff.items()}, -(c0 - k) * n)

    def linear(self, e):
        """e as (variable id -> coefficient, constant), rewritten"""
        out, k = {}, 0
        work = [(e, 1)]
        while work:
            t, c = work.pop()
            if z3.is_int_value(t):
                k += c * t.as_long()
                continue
            if z3.is_app(t):
                kind = t.decl().kind()
                if kind == z3.Z3_OP_ADD:
                    work += [(a, c) for a in t.children()]
                    continue
                if kind == z3.Z3_OP_SUB:
                    ch = t.children()
                    work.append((ch[0], c))
                    work += [(a, -c) for a in ch[1:]]
                    continue
                if kind == z3.Z3_OP_UMINUS:
                    work.append((t.arg(0), -c))
                    continue
                if kind == z3.Z3_OP_MUL and t.num_args() == 2:
                    a, b = t.children()
                    if z3.is_int_value(b):
                        a, b = b, a
                    if z3.is_int_value(a):
                        work.append((b, c * a.as_long()))
                        continue
            i = t.get_id()
            self.memo[(i, 'keep')] = t
            out[i] = out.get(i, 0) + c
        while True:
            i = next((i for i in out if i in self.subst), None)
            if i is None:
                break
            c = out.pop(i)
            d, k0 = self.subst[i]
            k += c * k0
            for j, n in d.items():
                out[j] = out.get(j, 0) + c * n
        return {i: c for i, c in out.items() if c}, k

    def interval(self, e, l, h):
        """a better interval of e, which lies in [l, h], and its linear form if that is one variable (or minus one)"""
        d, k = self.linear(e)
        a = b = k
        for i, c in d.items():
            s = self.symof.get(i)
            if s is None:
                return l, h, None
            a += c * (s.lo if c > 0 else s.hi)
            b += c * (s.hi if c > 0 else s.lo)
        one = None
        if len(d) == 1 and k == 0:
            (i, c), = d.items()
            if abs(c) == 1:
                one = (c, self.symof[i])
        elif not d:
            one = (0, k)
        return max(a, l), min(b, h), one

    def negate(self, x, w):
        """-x modulo 2^w"""
        if isinstance(x, int):
            return -x % (1 << w)
        if x.neg and x.neg[1] == w:
            return x.neg[0]
        key = (x.e.get_id(), 'neg', w)
        if key not in self.memo:
            m = 1 << w
            if x.lo >= 1:
                r = Sym(m - x.e, m - x.hi, m - x.lo, tz=x.tz)
            else:
                r = Sym(z3.If(x.e == 0, z3.IntVal(0), m - x.e), 0, m - 1, tz=x.tz)
            r.neg = (x, w)
            self.memo[key] = (r, x)
        return self.memo[key][0]

    def quotient(self, root, c):
        """root // c; all quotients of one root by divisors of each other are related to each other"""
        if c == 1:
            return root
        if root.hi < c:
            return 0
        tab = self.memo.setdefault((root.e.get_id(), 'Q'), ({}, root.e))[0]
        if c not in tab:
            q = self.var('q', root.lo // c, root.hi // c)
            q.prov = (root, c, None)
            below = max([d for d in tab if c % d == 0], default=1)
            above = min([d for d in tab if d % c == 0], default=None)
            if below == 1:
                t = min(root.tz, 63)
                g = c & -c
                r = self.var('r', 0, c - 1)
                if root.tz and g >> t == 0 and c == g:
                    self.solver.add(r.e == 0)
                self.relate(root.e, [(c, q), (1, r)])
            else:
                r = self.var('r', 0, c // below - 1)
                self.relate(tab[below].e, [(c // below, q), (1, r)])
            if above is not None:
                r = self.var('r', 0, above // c - 1)
                self.relate(q.e, [(above // c, tab[above]), (1, r)])
            tab[c] = q
        return tab[c]

    def field(self, root, c, m):
        """(root // c) % m"""
        q = self.quotient(root, c)
        if m is None or hi(q) < m:
            return q
        if m == 1:
            return 0
        key = (root.e.get_id(), 'F', c, m)
        if key not in self.memo:
            top = self.quotient(root, c * m)
            r = self.var('r', 0, m - 1)
            r.prov = (root, c, m)
            self.relate(q.e, [(m, top), (1, r)])
            self.memo[key] = (r, root.e)
        return self.memo[key][0]

    def scale(self, v, s):
        """v * s where nothing wraps"""
        if s == 1 or v == 0 and isinstance(v, int):
            return v
        if isinstance(v, int):
            return v * s
        k, t, x = v.lin or (0, 1, v)
        return Sym(v.e * s, v.lo * s, v.hi * s, tz=min(v.tz + (s & -s).bit_length() - 1, 63), lin=(k * s, t * s, x))

    def divmod_(self, v, c):
        """quotient and remainder of v by the positive constant c"""
        if isinstance(v, int):
            return v // c, v % c
        if c == 1:
            return v, 0
        if v.hi < c:
            return 0, v
        if v.lin and v.lin[0] == 0:
            s, x = v.lin[1:]
            if s % c == 0:
                return self.scale(x, s // c), 0
            if c % s == 0:
                q, r = self.divmod_(x, c // s)
                return q, self.scale(r, s)
        if v.parts and c & (c - 1) == 0:
            k = c.bit_length() - 1
            up, low = [], []
            for sh, w, x in v.parts:
                if sh >= k:
                    up.append((sh - k, w, x))
                elif sh + w <= k:
                    low.append((sh, w, x))
                else:
                    q, r = self.divmod_(x, 1 << (k - sh))
                    up.append((0, sh + w - k, q))
                    low.append((sh, k - sh, r))
            return self.join(up), self.join(low)
        root, k, m = v.prov or (v, 1, None)
        if m is not None and m % c:
            root, k, m = v, 1, None
        return self.field(root, k * c, m // c if m else None), self.field(root, k, c)

    def partsof(self, v):
        if isinstance(v, int):
            out, k = [], 0
            while v >> k:
                if (v >> k) & 255:
                    out.append((k, 8, (v >> k) & 255))
                k += 8
            return out
        if v.parts:
            return v.parts
        t = v.tz
        if t:
            q = self.divmod_(v, 1 << t)[0]
            return [(t, hi(q).bit_length(), q)]
        return [(0, v.hi.bit_length(), v)]

    def join(self, parts):
        """the sum of 2^shift * part over disjoint bit ranges; neighbouring fields of one value are merged"""
        ps = []
        for sh, w, x in sorted((q for q in parts if not (isinstance(q[2], int) and q[2] == 0)), key=lambda q: q[0]):
            if ps:
                s0, w0, y = ps[-1]
                if isinstance(x, int) and isinstance(y, int):
                    ps[-1] = (s0, sh + w - s0, y + (x << (sh - s0)))
                    continue
                if isinstance(x, Sym) and isinstance(y, Sym) and y.prov and x.prov and y.prov[2]:
                    (r0, c0, m0), (r1, c1, m1) = y.prov, x.prov
                    if r0 is r1 and c1 == c0 * m0 and m0 == 1 << (sh - s0):
                        z = self.field(r0, c0, m0 * m1 if m1 else None)
                        ps[-1] = (s0, sh - s0 + w, z)
                        continue
            ps.append((sh, w, x))
        if not ps:
            return 0
        if len(ps) == 1:
            return self.scale(ps[0][2], 1 << ps[0][0])
        if all(isinstance(x, int) for _, _, x in ps):
            return sum(x << sh for sh, _, x in ps)
        return Sym(z3.Sum([ex(x) * (1 << sh) for sh, _, x in ps]), sum(lo(x) << sh for sh, _, x in ps), sum(hi(x) << sh for sh, _, x in ps),
                   tz=min(ps[0][0] + tz(ps[0][2]), 63), parts=ps)

    def wrap(self, e, l, h, w, t=0):
        """e is an integer term in [l, h]; its value modulo 2^w"""
        m = 1 << w
        if l < 0 or h >= m:
            l, h, one = self.interval(e, l, h)
            if one and one[0] == 0:
                return one[1] % m
            if one and one[0] == 1 and one[1].hi < m:
                return one[1]
            if one and one[0] == -1 and one[1].hi < m:
                return self.negate(one[1], w)
            if h <= 0 and l > -m:
                return self.negate(Sym(-e, -h, -l, tz=t), w)
        if l >= 0 and h < m:
            return Sym(e, l, h, tz=t)
        if l // m == h // m:
            k = l // m
            return Sym(e - k * m, l - k * m, h - k * m, tz=t)
        if h // m - l // m == 1:
            k = h // m
            return Sym(z3.If(e >= k * m, e - k * m, e - (k - 1) * m), 0, m - 1, tz=t)
        key = (e.get_id(), 'w', w)
        if key not in self.memo:
            q = self.var('q', l // m, h // m)
            r = self.var('r', 0, m - 1)
            self.solver.add(e == q.e * m + r.e)
            r.tz = t
            self.memo[key] = (r, e)
        return self.memo[key][0]

    def add(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) % (1 << w)
        if a == 0 and isinstance(a, int):
            return b
        if b == 0 and isinstance(b, int):
            return a
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Sym) and y.neg and y.neg[1] == w:
                return self.sub(x, y.neg[0], w)
        t = min(tz(a), tz(b))
        if hi(b) < 1 << min(tz(a), 63) or hi(a) < 1 << min(tz(b), 63):
            if hi(a) + hi(b) < 1 << w and not isinstance(a, int) and not isinstance(b, int):
                return self.join(self.partsof(a) + self.partsof(b))
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b < 1 << (w - 1) and a.hi + b < 1 << w:
            k, s, x = a.lin or (0, 1, a)
            r = self.wrap(a.e + b, a.lo + b, a.hi + b, w, t)
            r.lin = (k + b, s, x)
            return r
        # adding a negative constant: keep it a subtraction
        if isinstance(b, int) and b >= 1 << (w - 1):
            return self.wrap(ex(a) - ((1 << w) - b), lo(a) + b - (1 << w), hi(a) + b - (1 << w), w, t)
        return self.wrap(ex(a) + ex(b), lo(a) + lo(b), hi(a) + hi(b), w, t)

    def sub(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return (a - b) % (1 << w)
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return self.negate(b, w)
        if isinstance(b, Sym) and b.neg and b.neg[1] == w:
            return self.add(a, b.neg[0], w)
        if isinstance(a, Sym) and a.neg and a.neg[1] == w:
            return self.negate(self.add(a.neg[0], b, w), w)
        return self.wrap(ex(a) - ex(b), lo(a) - hi(b), hi(a) - lo(b), w, min(tz(a), tz(b)))

    def mul(self, a, b, w):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, int):
            return a * b % (1 << w)
        if not isinstance(b, int):
            return self.wrap(a.e * b.e, a.lo * b.lo, a.hi * b.hi, w)
        if b == 0:
            return 0
        if b == 1:
            return a
        if b >= 1 << (w - 1):
            return self.negate(self.mul(a, (1 << w) - b, w), w) if b != 1 << (w - 1) else self.mul2(a, b, w)
        if a.neg and a.neg[1] == w:
            return self.negate(self.mul(a.neg[0], b, w), w)
        return self.mul2(a, b, w)

    def mul2(self, a, b, w):
        # x * 2^k mod 2^w == (x mod 2^(w-k)) * 2^k
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            low = self.divmod_(a, 1 << (w - k))[1]
            if isinstance(low, int):
                return low * b
            if low.parts:
                return self.join([(sh + k, n, x) for sh, n, x in low.parts])
            return self.scale(low, b)
        if a.hi * b < 1 << w:
            return self.scale(a, b)
        return self.wrap(a.e * b, a.lo * b, a.hi * b, w, min(tz(b) + a.tz, w - 1))

    def signed(self, a, w):
        """signed value as a term with an interval"""
        h = 1 << (w - 1)
        if isinstance(a, int):
            return a - (1 << w) if a >= h else a
        if a.hi < h:
            return a
        if a.neg and a.neg[1] == w and hi(a.neg[0]) <= h:
            x = a.neg[0]
            return Sym(-x.e, -x.hi, -x.lo)
        if a.lo >= h:
            return Sym(a.e - (1 << w), a.lo - (1 << w), a.hi - (1 << w))
        return Sym(z3.If(a.e >= h, a.e - (1 << w), a.e), -h, h - 1)

    def bits(self, v, w):
        """the bits of v as 0/1 values"""
        if isinstance(v, int):
            return [(v >> i) & 1 for i in range(w)]
        key = (v.e.get_id(), 'bits', w)
        if key not in self.memo:
            bs = [self.var('b', 0, 1) for _ in range(min(w, v.hi.bit_length()))]
            self.solver.add(v.e == z3.Sum([b.e * (1 << i) for i, b in enumerate(bs)]))
            self.memo[key] = (bs + [0] * (w - len(bs)), v.e)
        return self.memo[key][0]

    def unbits(self, bs):
        c = sum(b << i for i, b in enumerate(bs) if isinstance(b, int))
        s = [(b, i) for i, b in enumerate(bs) if not isinstance(b, int)]
        if not s:
            return c
        return Sym(z3.Sum([b.e * (1 << i) for b, i in s]) + c, c, c + sum(1 << i for _, i in s))

    def bitop(self, op, a, b, w):
        full = (1 << w) - 1
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if isinstance(b, int):
            if b == 0:
                return 0 if op == 'and' else a
            if b == full:
                if op == 'and':
                    return a
                if op == 'or':
                    return full
                return Sym(full - a.e, full - a.hi, full - a.lo)
            if op == 'and':
                # the runs of the mask
                runs, k = [], 0
                while b >> k:
                    k += tz(b >> k)
                    n = tz(~(b >> k) & ((1 << 65) - 1))
                    f = self.divmod_(self.divmod_(a, 1 << k)[0], 1 << n)[1]
                    runs.append((k, n, f))
                    k += n
                return self.join(runs)
            if op in ('or', 'xor') and (b < 1 << tz(a) or (hi(a) < (1 << tz(b)))):
                return self.add(a, b, w)
            rest = self.bitop('and', a, full & ~b, w)
            if op == 'or':
                return self.add(rest, b, w)
            both = self.bitop('and', a, b, w)
            return self.add(rest, self.sub(b, both, w), w)
        else:
            if op in ('or', 'xor') and (hi(b) < 1 << tz(a) or hi(a) < 1 << tz(b)):
                return self.add(a, b, w)
            if op == 'and' and (hi(b) < 1 << tz(a) or hi(a) < 1 << tz(b)):
                return 0
        x, y = self.bits(a, w), self.bits(b, w)
        out = []
        for p, q in zip(x, y):
            if isinstance(p, int):
                p, q = q, p
            if isinstance(p, int):
                out.append({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
            elif isinstance(q, int):
                if op == 'and':
                    out.append(p if q else 0)
                elif op == 'or':
                    out.append(1 if q else p)
                else:
                    out.append(Sym(1 - p.e, 0, 1) if q else p)
            else:
                e = {'and': z3.And(p.e == 1, q.e == 1), 'or': z3.Or(p.e == 1, q.e == 1), 'xor': p.e != q.e}[op]
                out.append(Sym(z3.If(e, z3.IntVal(1), z3.IntVal(0)), 0, 1))
        return self.unbits(out)

    def binop(self, op, a, b, w):
        if w == 1:
            return self.boolop(op, a, b)
        a, b = self.word(a), self.word(b)
        if op == 'add':
            return self.add(a, b, w)
        if op == 'sub':
            return self.sub(a, b, w)
        if op == 'mul':
            return self.mul(a, b, w)
        if op in ('and', 'or', 'xor'):
            return self.bitop(op, a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            k = self.concretize(b)
            if k >= w:
                raise Violation('shift by %d of a %d-bit value' % (k, w))
            if op == 'shl':
                return self.mul(a, (1 << k) % (1 << w), w) if k else a
            if op == 'lshr':
                return self.divmod_(a, 1 << k)[0]
            if isinstance(a, int):
                return (self.signed(a, w) >> k) % (1 << w)
            if hi(a) < 1 << (w - 1):
                return self.divmod_(a, 1 << k)[0]
            q = self.divmod_(a, 1 << k)[0]
            top = (1 << w) - (1 << (w - k))
            return self.wrap(z3.If(a.e >= 1 << (w - 1), ex(q) + top, ex(q)), 0, (1 << w) - 1, w)
        if op in ('udiv', 'urem'):
            if not isinstance(b, int):
                b = self.concretize(b)
            if b == 0:
                raise Violation('division by zero')
            return self.divmod_(a, b)[op == 'urem']
        if op in ('sdiv', 'srem'):
            b = self.concretize(b)
            if b == 0:
                raise Violation('division by zero')
            sb = self.signed(b, w)
            neg = False
            if not isinstance(a, int):
                neg = self.decide(Cond(a.e >= 1 << (w - 1))) if hi(a) >= 1 << (w - 1) else False
                m = self.negate(a, w) if neg else a
            else:
                neg = a >= 1 << (w - 1)
                m = (1 << w) - a if neg else a
            q, r = self.divmod_(m, abs(sb))
            v, flip = (q, neg != (sb < 0)) if op == 'sdiv' else (r, neg)
            return self.sub(0, v, w) if flip else v
        raise Unsupported(op)

    def boolop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
        x, y = self.cond(a), self.cond(b)
        X = z3.BoolVal(bool(x)) if isinstance(x, int) else x.e
        Y = z3.BoolVal(bool(y)) if isinstance(y, int) else y.e
        f = {'and': z3.And, 'mul': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor}[op]
        return Cond(f(X, Y))

    def cond(self, v):
        if isinstance(v, (int, Cond)):
            return v
        if v.cond is not None:
            return v.cond
        return Cond(v.e != 0)

    def word(self, v):
        if isinstance(v, Cond):
            return Sym(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, cond=v)
        return v

    def icmp(self, pred, a, b, w):
        if w == 1 and (isinstance(a, Cond) or isinstance(b, Cond)):
            a, b = self.word(a), self.word(b)
        if isinstance(b, Sym) and isinstance(a, int) and pred in ('eq', 'ne'):
            a, b = b, a
        if pred in ('eq', 'ne') and isinstance(a, Sym) and a.cond is not None and isinstance(b, int):
            if b in (0, 1):
                c = a.cond
                return c if (b == 1) == (pred == 'eq') else Cond(z3.Not(c.e))
        if pred[0] == 's':
            # sign of a symbolic value against a constant: as a range of the unsigned value
            x, y = self.signed(a, w), self.signed(b, w)
            p = pred[1:]
        else:
            x, y, p = a, b, pred[1:] if pred[0] == 'u' else pred
        lx, hx, ly, hy = lo(x), hi(x), lo(y), hi(y)
        if p == 'eq':
            if lx == hx == ly == hy:
                return 1
            if hx < ly or hy < lx:
                return 0
            return Cond(ex(x) == ex(y))
        if p == 'ne':
            if lx == hx == ly == hy:
                return 0
            if hx < ly or hy < lx:
                return 1
            return Cond(ex(x) != ex(y))
        if p in ('gt', 'ge'):
            x, y, lx, hx, ly, hy = y, x, ly, hy, lx, hx
            p = {'gt': 'lt', 'ge': 'le'}[p]
        if p == 'lt':
            if hx < ly:
                return 1
            if lx >= hy:
                return 0
            return Cond(ex(x) < ex(y))
        if hx <= ly:
            return 1
        if lx > hy:
            return 0
        return Cond(ex(x) <= ex(y))

    def trunc(self, v, w):
        v = self.word(v)
        if isinstance(v, Sym) and v.neg and v.neg[1] >= w:
            r = self.negate(self.divmod_(v.neg[0], 1 << w)[1], w)
        else:
            r = self.divmod_(v, 1 << w)[1]
        return self.cond_from_bit(r) if w == 1 else r

    def cond_from_bit(self, r):
        return r if isinstance(r, int) else self.cond(r)

    def sext(self, v, w, W):
        if w == 1:
            c = self.cond(v)
            if isinstance(c, int):
                return (1 << W) - 1 if c else 0
            return Sym(z3.If(c.e, z3.IntVal((1 << W) - 1), z3.IntVal(0)), 0, (1 << W) - 1)
        s = self.signed(v, w)
        if isinstance(s, int):
            return s % (1 << W)
        if v.neg and v.neg[1] == w and hi(v.neg[0]) <= 1 << (w - 1):
            return self.negate(v.neg[0], W)
        if s.lo >= 0:
            return v
        if s.hi < 0:
            return Sym(s.e + (1 << W), s.lo + (1 << W), s.hi + (1 << W))
        return Sym(z3.If(v.e >= 1 << (w - 1), v.e + ((1 << W) - (1 << w)), v.e), 0, (1 << W) - 1)

    def ite(self, c, a, b):
        c = self.cond(c)
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if isinstance(a, Cond) or isinstance(b, Cond):
            a, b = self.cond(a), self.cond(b)
            A = z3.BoolVal(bool(a)) if isinstance(a, int) else a.e
            B = z3.BoolVal(bool(b)) if isinstance(b, int) else b.e
            return Cond(z3.If(c.e, A, B))
        if self.sure and (isinstance(a, Sym) or isinstance(b, Sym)):
            # one side may be right in both cases
            if lo(a) <= hi(b) and lo(b) <= hi(a):
                if self.check(z3.Not(c.e), ex(a) != ex(b)) == z3.unsat:
                    return a
                if self.check(c.e, ex(a) != ex(b)) == z3.unsat:
                    return b
        return Sym(z3.If(c.e, ex(a), ex(b)), min(lo(a), lo(b)), max(hi(a), hi(b)), tz=min(tz(a), tz(b), 63))

    # ---- memory
    def alloc(self, size, name, const=False):
        o = Obj(self.nextbase, size, name, const)
        self.nextbase += (size + 0x1fff) // 0x1000 * 0x1000
        self.objs.append(o)
        return o

    def find(self, addr, size, what):
        # objects are laid out in increasing order
        l, h = 0, len(self.objs)
        while l < h:
            m = (l + h) // 2
            if self.objs[m].base <= addr:
                l = m + 1
            else:
                h = m
        if l:
            o = self.objs[l - 1]
            if o.base <= addr and addr + size <= o.base + o.size:
                if o.dead:
                    raise Violation('%s of %s after its lifetime' % (what, o.name), True)
                return o
            if addr < o.base + o.size + 0x1000:
                raise Violation('%s of %d byte(s) at offset %d of %s, which has %d byte(s)' % (what, size, addr - o.base, o.name, o.size), True)
        raise Violation('%s of %d byte(s) at an address outside of all objects' % (what, size), True)

    def getbyte(self, o, off):
        c = o.bytes.get(off)
        if c is None:
            c = (self.var('uninit_%s_%d' % (o.name, off), 0, 255), 0, 1)
            o.bytes[off] = c
        v, k, n = c
        if n == 1:
            return v
        return self.divmod_(self.divmod_(v, 256 ** k)[0], 256)[1]

    def address(self, v, size, what):
        """the possible addresses one by one; when they are too many, one outside of all objects if there is one"""
        try:
            return self.concretize(v)
        except Unsupported:
            out = [z3.Or(v.e < o.base, v.e + size > o.base + o.size) for o in self.objs if not o.dead]
            if self.check(*out) != z3.sat:
                raise
            for c in out:
                self.solver.add(c)
            raise Violation('%s of %d byte(s) at an address outside of all objects' % (what, size), True)

    def loadint(self, addr, size):
        if not isinstance(addr, int):
            r = self.symload(addr, size)
            if r is not None:
                return r
            addr = self.address(addr, size, 'read')
        o = self.find(addr, size, 'read')
        off = addr - o.base
        c = o.bytes.get(off)
        if c is not None and c[1] == 0 and c[2] >= size:
            if all((d := o.bytes.get(off + i)) is not None and d[0] is c[0] and d[1] == i for i in range(1, size)):
                return c[0] if c[2] == size else self.divmod_(c[0], 256 ** size)[1]
        bs = [self.getbyte(o, off + i) for i in range(size)]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return self.join([(8 * i, 8, b) for i, b in enumerate(bs)])

    def symload(self, addr, size):
        """table look-up: every possible address lies in one object of concrete bytes"""
        k, s, x = addr.lin or (0, 1, addr)
        if not isinstance(x, Sym):
            return None
        l, h = x.lo, x.hi
        for attempt in (0, 1):
            for o in self.objs:
                if h - l <= 4096 and o.base <= k + s * l and k + s * h + size <= o.base + o.size and not o.dead:
                    vals = []
                    for i in range(l, h + 1):
                        cs = [o.bytes.get(k + s * i + j - o.base) for j in range(size)]
                        if any(c is None or not isinstance(c[0], int) or c[2] != 1 for c in cs):
                            return None
                        vals.append(sum(c[0] << (8 * j) for j, c in enumerate(cs)))
                    return self.table(x, l, vals)
            if not attempt:
                l, h = self.range(x)
        return None

    def range(self, x):
        """the interval of x on this path"""
        l, h = x.lo, x.hi
        a, b = l, h
        while a < b:            # the greatest value
            m = (a + b + 1) // 2
            r = self.check(x.e >= m)
            if r == z3.sat:
                a = max(m, self.solver.model().eval(x.e, model_completion=True).as_long())
            elif r == z3.unsat:
                b = m - 1
            else:
                return l, h
        h = a
        a, b = l, h
        while a < b:
            m = (a + b) // 2
            r = self.check(x.e <= m)
            if r == z3.sat:
                b = min(m, self.solver.model().eval(x.e, model_completion=True).as_long())
            elif r == z3.unsat:
                a = m + 1
            else:
                return l, h
        return a, h

    def table(self, x, first, vals):
        """vals[x - first]; a table of k + s * ((x // m) % n) becomes that expression"""
        change = [i for i in range(1, len(vals)) if vals[i] != vals[i - 1]]
        if not change:
            return vals[0]
        m = 0
        for i in change:
            m = math.gcd(m, i + first)
        js = {}
        for i, v in enumerate(vals, first):
            js.setdefault(i // m, v)
        jl = sorted(js)
        for n in [None] + list(range(2, min(len(jl) + 1, 300))):
            s = next((js[j + 1] - js[j] for j in jl[:-1] if n is None or (j + 1) % n), None)
            if s is None:
                continue
            c0 = js[jl[0]] - s * (jl[0] % n if n else jl[0])
            if all(js[j] == c0 + s * (j % n if n else j) for j in jl):
                f = self.divmod_(x, m)[0]
                if n:
                    f = self.divmod_(f, n)[1]
                if isinstance(f, int):
                    return c0 + s * f
                if s < 0 or c0 + s * lo(f) < 0 or n is None:
                    return Sym(f.e * s + c0, min(vals), max(vals))
                return Sym(f.e * s + c0, c0 + s * f.lo, c0 + s * f.hi, lin=(c0, s, f))
        runs = []
        for i, v in enumerate(vals, first):
            if runs and v - runs[-1][2] == i - runs[-1][0]:
                runs[-1][1] = i
            else:
                runs.append([i, i, v])
        if len(runs) > 512:
            return None
        e = x.e + (runs[-1][2] - runs[-1][0])
        for a, b, v in reversed(runs[:-1]):
            e = z3.If(x.e <= b, x.e + (v - a) if a != b else z3.IntVal(v), e)
        return Sym(e, min(vals), max(vals))

    def storeint(self, addr, size, v):
        addr = self.address(addr, size, 'write')
        o = self.find(addr, size, 'write')
        if o.const:
            raise Violation('write to constant ' + o.name, True)
        off = addr - o.base
        v = self.word(v)
        if self.spec is not None:
            self.spec.append((addr, size, [(o.bytes, off + i, o.bytes.get(off + i)) for i in range(size)]))
        if isinstance(v, int):
            for i in range(size):
                o.bytes[off + i] = ((v >> (8 * i)) & 255, 0, 1)
        else:
            for i in range(size):
                o.bytes[off + i] = (v, i, size)

    def readbytes(self, addr, n):
        return [self.loadint(addr + i, 1) for i in range(n)]

    def newbytes(self, name, data, const=False):
        o = self.alloc(len(data), name, const)
        for i, b in enumerate(data):
            o.bytes[i] = (b, 0, 1)
        return o

    # ---- program
    def globalobj(self, mod, name):
        g = mod.globals.get(name)
        if g is None or g['ext']:
            g = None
            for m in self.prog.modules:
                if name in m.globals and not m.globals[name]['ext'] and not m.globals[name]['local']:
                    mod, g = m, m.globals[name]
                    break
        if g is None:
            return None
        key = (mod.name, name)
        if key not in self.globaddr:
            o = self.alloc(g['ty'].size, name)
            self.globaddr[key] = o
            for i in range(o.size):
                o.bytes[i] = (0, 0, 1)
            self.initialise(mod, o, 0, g['ty'], g['init'])
            o.const = g['const']
        return self.globaddr[key]

    def initialise(self, mod, o, off, ty, v):
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.bytes[off + i] = (b, 0, 1)
        elif k == 'agg':
            for i, (t, x) in enumerate(v[1]):
                self.initialise(mod, o, off + (ty.offs[i] if ty.kind == 'struct' else i * ty.elem.size), t, x)
        else:
            x = self.operand(mod, {}, ty, v)
            for i in range(ty.size):
                o.bytes[off + i] = ((x >> (8 * i)) & 255, 0, 1)

    def resolve(self, mod, name):
        if name in mod.funcs:
            return mod, mod.funcs[name]
        for m in self.prog.modules:
            if name in m.funcs and not m.funcs[name].local:
                return m, m.funcs[name]
        return None, None

    def operand(self, mod, regs, ty, v):
        k = v[0]
        if k == 'l':
            return regs[v[1]]
        if k == 'c':
            return v[1] % (1 << (ty.bits or 64))
        if k == 'undef':
            if ty.kind in ('struct', 'arr'):
                return [None] * len(ty.fields or [])
            return self.var('undef', 0, (1 << ty.bits) - 1)
        if k == 'zero':
            return 0
        if k == 'g':
            name = llname(v[1])
            o = self.globalobj(mod, name)
            if o is not None:
                return o.base
            m, f = self.resolve(mod, name)
            key = (m.name if m else '', name)
            if key not in self.funcaddr:
                a = self.alloc(1, name, True).base
                self.funcaddr[key] = a
                self.addrfunc[a] = (m, f, name)
            return self.funcaddr[key]
        if k == 'gep':
            return self.gep(v[1], [self.operand(mod, regs, t, x) for t, x in v[2]], [t for t, _ in v[2]])
        if k == 'cast':
            x = self.operand(mod, regs, v[2], v[3])
            return self.cast(v[1], x, v[2], v[4])
        if k == 'bin':
            return self.binop(v[1], self.operand(mod, regs, v[2], v[3]), self.operand(mod, regs, v[2], v[4]), v[2].bits)
        raise Unsupported('operand ' + k)

    def cast(self, op, x, f, t):
        fb, tb = f.bits or 64, t.bits or 64
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            op = 'trunc' if tb < fb else 'zext'
        if fb == tb:
            return x
        if op == 'trunc':
            return self.trunc(x, tb)
        if op == 'zext':
            return self.word(x)
        return self.sext(x, fb, tb)

    def gep(self, bt, vals, tys):
        p = vals[0]
        t = bt
        first = True
        for x, xt in zip(vals[1:], tys[1:]):
            x = self.sext(self.word(x), xt.bits, 64) if xt.bits < 64 else x
            if first:
                p = self.add(p, self.mul(x, t.size, 64), 64)
                first = False
            elif t.kind == 'struct':
                p = self.add(p, t.offs[x], 64)
                t = t.fields[x]
            else:
                t = t.elem
                p = self.add(p, self.mul(x, t.size, 64), 64)
        return p

    def callname(self, name, args):
        """calls a function by symbol with 64-bit arguments"""
        m, f = self.resolve(self.prog.modules[0], name)
        if f is None:
            raise Unsupported('the runtime does not define %s' % name)
        return self.call(m, f, args)

    def call(self, mod, f, args):
        self.st.functions.add(f.name)
        self.depth += 1
        if self.depth > 200:
            raise Violation('unbounded recursion')
        regs = {}
        frame = []
        for i, (t, n) in enumerate(f.params):
            if i < len(args):
                a = args[i]
                if isinstance(a, (int, Sym)) and (t.bits or 64) < 64 and hi(a) >= 1 << t.bits:
                    a = self.trunc(a, t.bits)
                regs[n] = a
            else:
                regs[n] = self.var('missing_' + n[1:], 0, (1 << (t.bits or 64)) - 1)
        block, prev, merged = f.order[0], None, None
        while True:
            insts = f.blocks[block]
            phis = {}
            if merged is not None:
                phis, merged = merged, None
            else:
                phis = self.phis(mod, regs, insts, prev)
            regs.update(phis)
            nxt = join = None
            for ins in insts:
                op = ins['op']
                if op == 'phi':
                    continue
                self.steps += 1
                self.st.steps += 1
                if self.steps > self.prog.maxsteps:
                    raise Violation('no end after %d instructions' % self.prog.maxsteps)
                if op == 'ret':
                    for o in frame:
                        o.dead = True
                    self.depth -= 1
                    return self.operand(mod, regs, ins['ty'], ins['a']) if 'a' in ins else None
                if op == 'br':
                    if 'c' in ins:
                        c = self.cond(self.operand(mod, regs, I(1), ins['c']))
                        if isinstance(c, Cond) and self.spec is None:
                            got = self.merge(mod, f, regs, frame, args, block, c, ins['to'])
                            if got is not None:
                                join, merged = got
                                break
                        nxt = ins['to'][0 if self.decide(self.cond(self.operand(mod, regs, I(1), ins['c']))) else 1]
                    else:
                        nxt = ins['to'][0]
                    break
                if op == 'switch':
                    w = ins['ty'].bits
                    v = self.word(self.operand(mod, regs, ins['ty'], ins['a']))
                    nxt = ins['default']
                    for c, b in ins['cases']:
                        if self.decide(self.icmp('eq', v, c % (1 << w), w)):
                            nxt = b
                            break
                    break
                if op == 'unreachable':
                    raise Violation('control reaches a point the compiler takes for unreachable')
                r = self.inst(mod, f, regs, frame, ins, args)
                if ins['dst'] is not None:
                    regs[ins['dst']] = r
            if join is not None:
                prev, block = None, join
                continue
            if nxt is None:
                raise Unsupported('block without terminator')
            prev, block = block, nxt

    def phis(self, mod, regs, insts, prev):
        out = {}
        for ins in insts:
            if ins['op'] != 'phi':
                break
            for v, b in ins['in']:
                if b == prev:
                    out[ins['dst']] = self.operand(mod, regs, ins['ty'], v)
                    break
        return out

    # ---- short side-effect-free branches: both sides are evaluated and their results joined
    def merge(self, mod, f, regs, frame, args, block, c, to):
        join = postdom(f).get(block)
        if join is None:
            return None
        self.spec = []
        steps = self.st.steps, self.steps
        try:
            self.budget = 60
            phis, writes = self.branch(mod, f, regs, frame, args, block, c, to, join)
        except (NoMerge, Violation, Unsupported, Infeasible):
            self.undo(0)
            self.spec = None
            return None
        self.spec = None
        for (addr, size), v in writes.items():
            self.storeint(addr, size, v)
        return join, phis

    def undo(self, mark):
        log = self.spec[mark:]
        del self.spec[mark:]
        for addr, size, olds in reversed(log):
            for d, k, old in olds:
                if old is None:
                    d.pop(k, None)
                else:
                    d[k] = old
        return {(addr, size) for addr, size, _ in log}

    def branch(self, mod, f, regs, frame, args, block, c, to, join):
        sides = []
        for t in to:
            mark = len(self.spec)
            phis = self.straight(mod, f, dict(regs), frame, args, t, block, join)
            touched = {(a, n) for a, n, _ in self.spec[mark:]}
            sides.append((phis, {x: self.loadint(*x) for x in touched}, mark))
            self.undo(mark)
        (p1, w1, _), (p2, w2, _) = sides
        keys = sorted(set(w1) | set(w2))
        for i, (a, n) in enumerate(keys):
            if i and keys[i - 1][0] + keys[i - 1][1] > a:
                raise NoMerge()
        out = {}
        for k in keys:
            old = None if k in w1 and k in w2 else self.loadint(*k)
            out[k] = self.join2(c, w1.get(k, old), w2.get(k, old))
        return {k: self.join2(c, p1[k], p2[k]) for k in p1}, out

    def join2(self, c, a, b):
        if a is b or isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if isinstance(a, Cond) or isinstance(b, Cond):
            return self.ite(c, a, b)
        if isinstance(a, int) and isinstance(b, int):
            raise NoMerge()
        if isinstance(a, list) or isinstance(b, list) or a is None or b is None:
            raise NoMerge()
        return self.ite(c, a, b)

    def straight(self, mod, f, regs, frame, args, block, prev, join):
        while block != join:
            insts = f.blocks[block]
            regs.update(self.phis(mod, regs, insts, prev))
            nxt = None
            for ins in insts:
                op = ins['op']
                if op == 'phi':
                    continue
                self.budget -= 1
                if self.budget < 0 or op in ('call', 'ret', 'alloca', 'unreachable', 'switch'):
                    raise NoMerge()
                self.st.steps += 1
                if op == 'br':
                    if 'c' not in ins:
                        nxt = ins['to'][0]
                        break
                    c = self.cond(self.operand(mod, regs, I(1), ins['c']))
                    if isinstance(c, int):
                        nxt = ins['to'][0 if c else 1]
                        break
                    phis, writes = self.branch(mod, f, regs, frame, args, block, c, ins['to'], join)
                    for (addr, size), v in writes.items():
                        self.storeint(addr, size, v)
                    return phis
                r = self.inst(mod, f, regs, frame, ins, args)
                if ins['dst'] is not None:
                    regs[ins['dst']] = r
            if nxt is None:
                raise NoMerge()
            prev, block = block, nxt
        p = self.phis(mod, regs, f.blocks[join], prev)
        for ins in f.blocks[join]:
            if ins['op'] == 'phi' and ins['ty'].bits == 1 and ins['dst'] in p:
                v = p[ins['dst']]
                p[ins['dst']] = Cond(z3.BoolVal(bool(v))) if isinstance(v, int) else self.cond(v)
        return p

    def inst(self, mod, f, regs, frame, ins, args):
        op = ins['op']
        O = lambda t, v: self.operand(mod, regs, t, v)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self.binop(op, O(ins['ty'], ins['a']), O(ins['ty'], ins['b']), ins['ty'].bits)
        if op == 'icmp':
            return self.icmp(ins['pred'], O(ins['ty'], ins['a']), O(ins['ty'], ins['b']), ins['ty'].bits or 64)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return self.cast(op, O(ins['ty'], ins['a']), ins['ty'], ins['to'])
        if op == 'freeze':
            return O(ins['ty'], ins['a'])
        if op == 'select':
            return self.ite(O(I(1), ins['c']), O(ins['ty'], ins['a']), O(ins['ty'], ins['b']))
        if op == 'alloca':
            n = self.concretize(O(*ins['n']))
            o = self.alloc(ins['ty'].size * n, (ins['dst'] or '%')[1:])
            frame.append(o)
            return o.base
        if op == 'load':
            if ins['ty'].kind in ('struct', 'arr'):
                raise Unsupported('load of an aggregate')
            v = self.loadint(O(PTR, ins['p']), ins['ty'].size)
            return self.trunc(v, ins['ty'].bits) if ins['ty'].bits < 8 * ins['ty'].size else v
        if op == 'store':
            if ins['ty'].kind in ('struct', 'arr'):
                raise Unsupported('store of an aggregate')
            self.storeint(O(PTR, ins['p']), ins['ty'].size, O(ins['ty'], ins['a']))
            return None
        if op == 'getelementptr':
            return self.gep(ins['bt'], [O(t, v) for t, v in ins['ops']], [t for t, _ in ins['ops']])
        if op == 'extractvalue':
            v = O(ins['ty'], ins['a'])
            for i in ins['idx']:
                v = v[i]
            return v
        if op == 'call':
            vals = [O(t, v) for t, v in ins['args']]
            if 'asm' in ins:
                return self.asm(mod, ins, vals)
            if ins['fn'][0] == 'g':
                name = llname(ins['fn'][1])
                if name.startswith('llvm.'):
                    return self.intrinsic(name, vals, f, args, ins)
                m, g = self.resolve(mod, name)
            else:
                a = self.concretize(O(PTR, ins['fn']))
                if a not in self.addrfunc:
                    raise Violation('call of something that is not a function')
                m, g, name = self.addrfunc[a]
            if name in self.hooks:
                return self.hooks[name](vals)
            if g is None:
                r = self.library(name, vals)
                if r is not None:
                    return r[0]
                raise Violation('call of %s, which the runtime does not define' % name)
            return self.call(m, g, [self.word(v) for v in vals])
        raise Unsupported(op)

    def intrinsic(self, name, vals, f, args, ins):
        if name.startswith('llvm.va_start'):
            nfix = len(f.params)
            save = self.alloc(176, 'reg_save_area')
            for i in range(6):
                if i < len(args):
                    self.storeint(save.base + 8 * i, 8, args[i])
            over = self.alloc(max(8 * (len(args) - 6), 0) + 8 * 64, 'overflow_arg_area')
            for i in range(6, len(args)):
                self.storeint(over.base + 8 * (i - 6), 8, args[i])
            p = vals[0]
            self.storeint(p, 4, 8 * min(nfix, 6))
            self.storeint(p + 4, 4, 48)
            self.storeint(p + 8, 8, over.base + 8 * max(nfix - 6, 0))
            self.storeint(p + 16, 8, save.base)
            return None
        if name.startswith('llvm.va_end') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.dbg'):
            return None
        if name.startswith('llvm.va_copy'):
            self.copy(vals[0], vals[1], 24)
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(vals[0], vals[1], self.concretize(vals[2]))
            return None
        if name.startswith('llvm.memset'):
            n = self.concretize(vals[2])
            p = self.concretize(vals[0])
            for i in range(n):
                self.storeint(p + i, 1, vals[1])
            return None
        if name.startswith('llvm.abs'):
            w = ins['ty'].bits
            a = vals[0]
            return self.ite(self.icmp('slt', a, 0, w), self.sub(0, a, w), a)
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            w = ins['ty'].bits
            pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[name[5:9]]
            return self.ite(self.icmp(pr, vals[0], vals[1], w), vals[0], vals[1])
        if name.startswith('llvm.bswap'):
            w = ins['ty'].bits
            n = w // 8
            bs = [self.divmod_(self.divmod_(vals[0], 256 ** i)[0], 256)[1] for i in range(n)]
            return self.join([(8 * (n - 1 - i), 8, b) for i, b in enumerate(bs)])
        if name.startswith(('llvm.ctlz', 'llvm.cttz')):
            w = ins['ty'].bits
            v = vals[0]
            if name.startswith('llvm.ctlz'):
                if isinstance(v, int):
                    return w - v.bit_length()
                l, h = w - v.hi.bit_length(), w - v.lo.bit_length()
                e = z3.IntVal(h)
                for k in range(h - 1, l - 1, -1):
                    e = z3.If(v.e >= 1 << (w - 1 - k), z3.IntVal(k), e)
                x = self.var('ctlz', l, h)
                self.solver.add(x.e == e)
                return x
            for k in range(w):
                if self.decide(self.icmp('ne', self.divmod_(v, 1 << (k + 1))[1], 0, w)):
                    return k
            return w
        if name.startswith('llvm.expect'):
            return vals[0]
        raise Unsupported(name)

    def library(self, name, vals):
        """memcpy and the like: the compiler may call them in freestanding code"""
        return None

    def copy(self, d, s, n):
        d, s = self.concretize(d), self.concretize(s)
        if not n:
            return
        so = self.find(s, n, 'read')
        do = self.find(d, n, 'write')
        cells = [so.bytes.get(s - so.base + i) or (self.getbyte(so, s - so.base + i), 0, 1) for i in range(n)]
        for i, c in enumerate(cells):
            do.bytes[d - do.base + i] = c

    def asm(self, mod, ins, vals):
        """a system call instruction: registers are taken from the constraints"""
        tmpl = ins['asm'].replace('\\0A', '\n').replace('\\09', ' ').strip()
        if tmpl == '':      # compiler barrier
            return None
        if '${' in tmpl or '$0' in tmpl or tmpl not in self.prog.abi['insn']:
            raise Unsupported('assembly ' + tmpl)
        cons = split_cons(ins['cons'])
        outs, ins_, clob = [], [], []
        for c in cons:
            if c.startswith('~'):
                clob.append(c.strip('~{}'))
            elif c.startswith('='):
                outs.append(c.lstrip('=&'))
            else:
                ins_.append(c.lstrip('%'))
        if any('*' in c for c in outs + ins_):
            raise Unsupported('assembly with memory operands')
        regs = {}
        for c, v in zip(ins_, vals):
            if c.isdigit():
                c = outs[int(c)]
            r = c.strip('{}')
            regs[self.prog.abi['alias'].get(r, r)] = self.word(v)
        self.st.functions.add('asm:' + tmpl)
        r = self.kernel(regs, clob, outs)
        res = []
        for c in outs:
            n = c.strip('{}')
            n = self.prog.abi['alias'].get(n, n)
            if n == self.prog.abi['ret']:
                res.append(r)
            elif n in self.prog.abi['clobbers']:
                res.append(self.var('clobbered_' + n, 0, (1 << 64) - 1))
            elif n in regs:
                res.append(regs[n])
            else:
                res.append(self.var('reg_' + n, 0, (1 << 64) - 1))
        if not outs:
            return None
        return res[0] if len(res) == 1 else res

    def kernel(self, regs, clob, outs):
        abi = self.prog.abi
        outregs = {abi['alias'].get(c.strip('{}'), c.strip('{}')) for c in outs}
        for c in abi['clobbers']:
            if c not in clob and c not in outregs:
                raise Violation('the system call instruction changes %s, which its clobber list does not say' % c)
        if 'memory' not in clob:
            raise Violation('the system call reads and writes memory, which its clobber list does not say')
        if abi['ret'] not in outregs:
            raise Violation('the result of the system call is not taken from %s' % abi['ret'])
        if abi['nr'] not in regs:
            raise Violation('the system call number is not in ' + abi['nr'])
        nr = regs[abi['nr']]
        a = [regs.get(r) for r in abi['args']]
        return self.syscall(nr, a)


def postdom(f):
    """block -> immediate post-dominator"""
    if getattr(f, 'pdom', None) is None:
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t['op'] == 'br':
                succ[b] = list(t['to'])
            elif t['op'] == 'switch':
                succ[b] = [t['default']] + [x for _, x in t['cases']]
            else:
                succ[b] = []
        allb = set(f.order)
        pd = {b: ({b} if not succ[b] else set(allb)) for b in f.order}
        changed = True
        while changed:
            changed = False
            for b in reversed(f.order):
                if succ[b]:
                    n = {b} | set.intersection(*[pd[x] for x in succ[b]])
                    if n != pd[b]:
                        pd[b] = n
                        changed = True
        f.pdom = {}
        for b in f.order:
            c = [x for x in pd[b] if x != b]
            # the nearest: the one post-dominated by all others
            f.pdom[b] = next((x for x in c if all(y in pd[x] for y in c)), None)
    return f.pdom


def split_cons(s):
    out, cur, d = [], '', 0
    for ch in s:
        if ch == '{':
            d += 1
        if ch == '}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def llname(tok):
    from llparse import sym
    return sym(tok)


ABIS = {
    'x86_64': dict(insn=('syscall',), nr='ax', args=['di', 'si', 'dx'], ret='ax', clobbers=['rcx', 'r11'],
                   alias={'rax': 'ax', 'rdi': 'di', 'rsi': 'si', 'rdx': 'dx', 'eax': 'ax', 'cx': 'rcx'}),
    'aarch64': dict(insn=('svc #0', 'svc 0', 'svc #0x0', 'svc 0x0'), nr='x8', args=['x0', 'x1', 'x2'], ret='x0', clobbers=[],
                    alias={}),
    'riscv64': dict(insn=('ecall',), nr='x17', args=['x10', 'x11', 'x12'], ret='x10', clobbers=[],
                    alias={'a0': 'x10', 'a1': 'x11', 'a2': 'x12', 'a7': 'x17'}),
}


class Program:
    def __init__(self, modules, abi, maxsteps=200000):
        self.modules, self.abi, self.maxsteps = modules, ABIS[abi], maxsteps
