#!/usr/bin/env python3
"""run.py PROPERTY TIER SEED [--repo DIR]: decides C24..C28 on the C runtime of the current tree.

The C sources are compiled to LLVM IR, the IR is executed symbolically (llsym.py), Z3 decides the assertions,
and every counterexample is run against the compiled C code before it is reported."""
import sys, os, json, time, tempfile, shutil, subprocess, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import llsym
from llsym import *
from llparse import Module, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M64 = 1 << 64
SYS_READ, SYS_WRITE, SYS_EXIT, SYS_EXIT_GROUP = 0, 1, 60, 231


def s64(v):
    return v - M64 if v >= 1 << 63 else v


# ---------------------------------------------------------------- compiling the real sources

class Build:
    def __init__(self, repo):
        self.repo = repo
        self.dir = tempfile.mkdtemp(prefix='zvrt.')
        self.rt = os.path.join(repo, 'runtime')
        self.mods = None
        self.probes = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    FLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-ffreestanding', '-fno-discard-value-names', '-S', '-emit-llvm', '-w']

    def modules(self):
        if self.mods is None:
            self.mods = []
            for f in sorted(glob.glob(self.rt + '/*.c')):
                o = os.path.join(self.dir, os.path.basename(f) + '.ll')
                r = subprocess.run(['clang', '--target=x86_64-linux-gnu'] + self.FLAGS + ['-I' + self.rt, f, '-o', o], capture_output=True, text=True)
                if r.returncode:
                    raise Unsupported('clang fails on %s: %s' % (f, r.stderr[:300]))
                self.mods.append(Module(open(o).read(), os.path.basename(f)))
        return self.mods

    def probe(self, arch, header):
        src = os.path.join(self.dir, 'probe_%s.c' % arch)
        open(src, 'w').write('#include "%s"\nlong zv_probe(long n, long a, long b, long c) { return syscall(n, a, b, c); }\n' % os.path.join(self.rt, header))
        o = src[:-2] + '.ll'
        r = subprocess.run(['clang', '--target=%s-linux-gnu' % arch] + self.FLAGS + ['-Dlinux=1', '-I' + self.rt, src, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('clang fails on %s: %s' % (header, r.stderr[:300]))
        return Module(open(o).read(), header)


# ---------------------------------------------------------------- system call models

def stream(p):
    """output functions: write system calls append to p.out, everything else is a violation"""
    p.out = []

    def sc(nr, a):
        n = p.concretize(nr)
        if n != SYS_WRITE:
            raise Violation('system call %d in an output function' % n)
        if a[0] is None or a[1] is None or a[2] is None:
            raise Violation('an argument register of the write system call is not set')
        k = p.concretize(a[2])
        addr = p.concretize(a[1]) if k else 0
        bs = []
        if k:
            if k >= 1 << 31:
                raise Violation('write of %d bytes' % k)
            bs = p.readbytes(addr, k)
        p.events.append(('write', a[0], bs))
        p.prove(p.icmp('eq', p.trunc(a[0], 32), p.add(p.fout, 1, 64), 64), 'output goes to another descriptor than fout + 1')
        p.out.extend(bs)
        return k
    p.syscall = sc


def raw(p, ret):
    def sc(nr, a):
        p.events.append((nr,) + tuple(a))
        return ret(len(p.events), nr, a)
    p.syscall = sc


def foutvar(p):
    o = p.globalobj(p.prog.modules[0], 'b.fout')
    if o is None:
        raise Unsupported('the runtime does not define fout')
    return o


def setfout(p):
    p.fout = p.input('fout', 8, 0, 1)
    p.storeint(foutvar(p).base, 8, p.fout)


def checkfout(p):
    p.prove(p.icmp('eq', p.loadint(foutvar(p).base, 8), p.fout, 64), 'fout is changed')


# ---------------------------------------------------------------- specifications

def spec_numeral(p, out, pos, v, base, what):
    """out[pos:] starts with the numeral of v (unsigned) in the base; returns the position after it"""
    k = 1
    while p.decide(p.icmp('uge', v, base ** k, 65) if hi(v) >= base ** k else 0):
        k += 1
    if len(out) < pos + k:
        raise Violation('%s: %d digits expected, %d bytes written' % (what, k, len(out) - pos))
    ds = out[pos:pos + k]
    for d in ds:
        p.prove(conj(p, [p.icmp('uge', d, 48, 8), p.icmp('ule', d, 48 + base - 1, 8)]), what + ': a byte is not a digit')
    val = z3.Sum([(ex(d) - 48) * base ** (k - 1 - i) for i, d in enumerate(ds)])
    p.prove((val == ex(v)) if any(isinstance(x, Sym) for x in ds + [v]) else sum((d - 48) * base ** (k - 1 - i) for i, d in enumerate(ds)) == v,
            what + ': the digits denote another number')
    return pos + k


def kernel(r):
    """what a Linux system call can return: a nonnegative word or an error number"""
    return z3.Or(ex(r) < 1 << 63, ex(r) >= M64 - 4095)


def conj(p, cs):
    es = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if not c:
                return 0
        else:
            es.append(c.e)
    return Cond(z3.And(*es)) if es else 1


def spec_signed(p, out, pos, x, base, what):
    if p.decide(p.icmp('uge', x, 1 << 63, 64)):
        expect_byte(p, out, pos, 45, what + ": '-' expected")
        return spec_numeral(p, out, pos + 1, p.sub(0, x, 64), base, what)
    return spec_numeral(p, out, pos, x, base, what)


def expect_byte(p, out, pos, b, what):
    if len(out) <= pos:
        raise Violation(what + ' (end of output)')
    p.prove(p.icmp('eq', out[pos], b, 64), what)


def spec_word(p, out, pos, x, what):
    """bytes of x, most significant first, without leading zero bytes"""
    n = 1
    while n < 8 and p.decide(p.icmp('uge', x, 256 ** n, 64) if hi(x) >= 256 ** n else 0):
        n += 1
    if len(out) < pos + n:
        raise Violation('%s: %d bytes expected, %d written' % (what, n, len(out) - pos))
    bs = out[pos:pos + n]
    if isinstance(x, int) and all(isinstance(b, int) for b in bs):
        p.prove(sum(b << 8 * (n - 1 - i) for i, b in enumerate(bs)) == x, what + ': other bytes')
    else:
        p.prove(conj(p, [p.icmp('ule', b, 255, 64) for b in bs]), what)
        p.prove(z3.Sum([ex(b) * 256 ** (n - 1 - i) for i, b in enumerate(bs)]) == ex(x), what + ': other bytes')
    return pos + n


def end_of_output(p, pos):
    if len(p.out) != pos:
        raise Violation('%d more byte(s) written than expected' % (len(p.out) - pos))


# concrete counterparts, used for native replays
def c_num(v, base):
    s = ''
    while True:
        s = chr(48 + v % base) + s
        v //= base
        if not v:
            return s.encode()


def c_signed(x, base):
    x = s64(x)
    return (b'-' if x < 0 else b'') + c_num(abs(x), base)


def c_word(x):
    b = x.to_bytes(8, 'big').lstrip(b'\0')
    return b or b'\0'


class H:
    """one harness: scenario(p) and native(inputs, notes, p) -> dict describing the native run"""
    thorough = False
    maxpaths = 20000


class PrintNum(H):
    def __init__(self, fn, base, sgn):
        self.name, self.fn, self.base, self.sgn = fn, fn, base, sgn
        self.bounds = 'all 2^64 words, both values of fout'

    def scenario(self, p):
        setfout(p)
        stream(p)
        n = p.input('n')
        p.callname('b.' + self.fn, [n])
        pos = (spec_signed if self.sgn else spec_numeral)(p, p.out, 0, n, self.base, self.fn)
        end_of_output(p, pos)
        checkfout(p)

    def native(self, i, p):
        return dict(fn=self.fn, args=[i['n']], fout=i['fout'], out=(c_signed if self.sgn else c_num)(i['n'], self.base))


class Twice(H):
    """two calls in a row: no state is left behind"""
    name = 'twice'
    bounds = 'two calls of printd, printo, write or writeb in a row, arguments below 1000'

    def scenario(self, p):
        setfout(p)
        stream(p)
        fns = ['printd', 'printo', 'write', 'writeb']
        a, b = p.choose(4, 'first'), p.choose(4, 'second')
        x, y = p.input('x', 64, 0, 999), p.input('y', 64, 0, 999)
        p.callname('b.' + fns[a], [x])
        p.callname('b.' + fns[b], [y])
        pos = 0
        for f, v in ((a, x), (b, y)):
            if f == 0:
                pos = spec_signed(p, p.out, pos, v, 10, 'printd')
            elif f == 1:
                pos = spec_numeral(p, p.out, pos, v, 8, 'printo')
            elif f == 2:
                pos = spec_word(p, p.out, pos, v, 'write')
            else:
                expect_byte(p, p.out, pos, p.trunc(v, 8), 'writeb: another byte')
                pos += 1
        end_of_output(p, pos)

    def native(self, i, p):
        fns = ['printd', 'printo', 'write', 'writeb']
        f = [c_signed, c_num, lambda v, b: c_word(v), lambda v, b: bytes([v & 255])]
        a, b = p.notes['first'], p.notes['second']
        return dict(calls=[(fns[a], [i['x']]), (fns[b], [i['y']])], fout=i['fout'],
                    out=f[a](i['x'], [10, 8, 0, 0][a]) + f[b](i['y'], [10, 8, 0, 0][b]))


class Write(H):
    name = 'write'
    bounds = 'all 2^64 words, both values of fout'

    def scenario(self, p):
        setfout(p)
        stream(p)
        c = p.input('c')
        p.callname('b.write', [c])
        end_of_output(p, spec_word(p, p.out, 0, c, 'write'))
        checkfout(p)

    def native(self, i, p):
        return dict(fn='write', args=[i['c']], fout=i['fout'], out=c_word(i['c']))


class Writeb(H):
    name = 'writeb'
    bounds = 'all 2^64 words, both values of fout'

    def scenario(self, p):
        setfout(p)
        stream(p)
        c = p.input('c')
        p.callname('b.writeb', [c])
        expect_byte(p, p.out, 0, p.trunc(c, 8), 'writeb: another byte')
        end_of_output(p, 1)
        checkfout(p)

    def native(self, i, p):
        return dict(fn='writeb', args=[i['c']], fout=i['fout'], out=bytes([i['c'] & 255]))


class Flush(H):
    name = 'flush'
    bounds = 'both values of fout'

    def scenario(self, p):
        setfout(p)
        stream(p)
        p.callname('b.flush', [])
        end_of_output(p, 0)
        checkfout(p)

    def native(self, i, p):
        return dict(fn='flush', args=[], fout=i['fout'], out=b'')


class FoutInit(H):
    name = 'fout_initial'
    bounds = 'the initial value of fout'

    def scenario(self, p):
        stream(p)
        o = foutvar(p)
        p.fout = 0
        p.prove(p.icmp('eq', p.loadint(o.base, 8), 0, 64), 'fout is not 0 when the program starts')

    def native(self, i, p):
        return dict(fn='flush', args=[], fout=None, out=b'', foutval=0)


LIT, D, O_, C_, S_, PCT, UNK = range(7)
KN = ['literal', '%d', '%o', '%c', '%s', '%%', '%?']


class Printf(H):
    """formats of `items` items, each of one of the kinds above, optionally with a % at the end"""

    def __init__(self, name, items, kinds, dom, tail=True, thorough=False, bounds=''):
        self.name, self.items, self.kinds, self.dom, self.tail, self.thorough, self.bounds = name, items, kinds, dom, tail, thorough, bounds

    def scenario(self, p):
        setfout(p)
        stream(p)
        n = self.items(p) if callable(self.items) else self.items
        fmt, args, spec = [], [], []
        for k in range(n):
            kind = self.kinds(p, k)
            if kind == LIT:
                c = p.input('lit%d' % k, 8, 1, 255)
                p.assume(p.icmp('ne', c, 37, 8))
                fmt.append(c)
                spec.append((LIT, c))
            elif kind == PCT:
                fmt += [37, 37]
                spec.append((LIT, 37))
            elif kind == UNK:
                c = p.input('unk%d' % k, 8, 1, 255)
                p.assume(conj(p, [p.icmp('ne', c, x, 8) for x in b'docs%']))
                fmt += [37, c]
                spec += [(LIT, 37), (LIT, c)]
            else:
                fmt += [37, ord('?docs'[kind])]
                if kind == S_:
                    ln = p.choose(self.dom[S_] + 1, 'len%d' % k) if not isinstance(self.dom[S_], tuple) else self.dom[S_][0]
                    bs = [p.input('str%d_%d' % (k, j), 8, 1, 255) for j in range(ln)]
                    o = p.newbytes('string%d' % k, bs + [0], True)
                    args.append(o.base)
                    spec.append((S_, bs))
                else:
                    l, h = self.dom[kind]
                    x = p.input('arg%d' % k, 64, 0 if l >= 0 else 0, M64 - 1)
                    if (l, h) != (-(1 << 63), (1 << 63) - 1):
                        if l >= 0:
                            p.assume(conj(p, [p.icmp('uge', x, l, 64), p.icmp('ule', x, h, 64)]))
                            x.lo, x.hi = l, h
                        else:
                            p.assume(Cond(z3.Or(ex(x) <= h, ex(x) >= M64 + l)))
                    args.append(x)
                    spec.append((kind, x))
        if self.tail and p.choose(2, 'tail'):
            fmt.append(37)
            spec.append((LIT, 37))
        f = p.newbytes('format', fmt + [0], True)
        p.note_spec = (fmt, args, spec)
        p.callname('b.printf', [f.base] + args)
        pos = 0
        for kind, v in spec:
            w = 'printf ' + KN[kind]
            if kind == LIT:
                expect_byte(p, p.out, pos, v, w + ': another byte')
                pos += 1
            elif kind == D:
                pos = spec_signed(p, p.out, pos, v, 10, w)
            elif kind == O_:
                pos = spec_signed(p, p.out, pos, v, 8, w)
            elif kind == C_:
                pos = spec_word(p, p.out, pos, v, w)
            else:
                for b in v:
                    expect_byte(p, p.out, pos, b, w + ': another byte')
                    pos += 1
        end_of_output(p, pos)
        checkfout(p)

    def native(self, i, p):
        m = p.model
        ev = lambda v: p.evalm(m, v)
        fmt, args, spec = p.note_spec
        out = b''
        strs = []
        cargs = []
        it = iter(args)
        for kind, v in spec:
            if kind == LIT:
                out += bytes([ev(v)])
                continue
            if kind == S_:
                b = bytes(ev(x) for x in v)
                strs.append(b)
                cargs.append(('str', b))
                out += b
            else:
                x = ev(v)
                cargs.append(x)
                out += {D: lambda: c_signed(x, 10), O_: lambda: c_signed(x, 8), C_: lambda: c_word(x)}[kind]()
        return dict(fn='printf', args=[('str', bytes(ev(c) for c in fmt))] + cargs, fout=i['fout'], out=out)


class PrintfLong(Printf):
    """a long format and a long string argument; the last byte of each is arbitrary"""

    def __init__(self, name, sizes, thorough=False):
        self.name, self.sizes, self.thorough = name, sizes, thorough
        self.bounds = 'formats and string arguments of %s bytes, fixed but for the last byte' % ', '.join(map(str, sizes))

    def scenario(self, p):
        setfout(p)
        stream(p)
        n = self.sizes[p.choose(len(self.sizes), 'size')]
        p.prog.maxsteps = max(p.prog.maxsteps, 400 * n)
        where = p.choose(2, 'where')
        long = [97 + j % 26 for j in range(n - 1)]
        last = p.input('last', 8, 1, 255)
        p.assume(p.icmp('ne', last, 37, 8))
        x = p.input('arg', 64, 0, M64 - 1)
        p.assume(p.icmp('ule', x, 9, 64))
        x.lo, x.hi = 0, 9
        if where == 0:
            fmt, bs = long + [last], [33]
        else:
            fmt, bs = [33], long + [last]
        o = p.newbytes('string', bs + [0], True)
        spec = [(LIT, c) for c in fmt] + [(S_, bs), (D, x)]
        fmt = fmt + [37, 115, 37, 100]
        f = p.newbytes('format', fmt + [0], True)
        args = [o.base, x]
        p.note_spec = (fmt, args, spec)
        p.callname('b.printf', [f.base] + args)
        pos = 0
        for kind, v in spec:
            for b in v if kind == S_ else [v] if kind == LIT else []:
                expect_byte(p, p.out, pos, b, 'printf ' + KN[kind] + ': another byte')
                pos += 1
        pos = spec_signed(p, p.out, pos, x, 10, 'printf %d')
        end_of_output(p, pos)
        checkfout(p)


FULL = (-(1 << 63), (1 << 63) - 1)


class CharAt(H):
    """char and lchar: the address is string + i for any 64-bit i"""

    def __init__(self, fn, size, thorough=False):
        self.fn, self.size, self.thorough = fn, size, thorough
        self.name = '%s_%d' % (fn, size)
        self.bounds = 'every position of a string of %d arbitrary bytes, reached through every pair of string address and index that adds up to it' % size

    def scenario(self, p):
        raw(p, lambda n, nr, a: self.no())
        bs = [p.input('b%d' % k, 8) for k in range(self.size)]
        o = p.newbytes('string', bs)
        pos = p.choose(self.size, 'position')
        mode = p.choose(2, 'mode')
        if mode == 0:
            s, i = o.base, pos
        else:
            # any index: the string address is whatever completes it
            i = p.input('index')
            s = p.sub(o.base + pos, i, 64)
        if self.fn == 'char':
            r = p.callname('b.char', [s, i])
            p.prove(p.icmp('eq', r, bs[pos], 64), 'char: another value than the byte at the index')
        else:
            c = p.input('chr')
            p.callname('b.lchar', [s, i, c])
        for k in range(self.size):
            want = p.divmod_(c, 256)[1] if self.fn == 'lchar' and k == pos else bs[k]
            p.prove(p.icmp('eq', p.loadint(o.base + k, 1), want, 64), self.fn + ': byte %s the index is wrong afterwards' % ('at' if k == pos else 'beside'))

    def no(self):
        raise Violation('system call')

    def native(self, i, p):
        bs = bytes(i['b%d' % k] for k in range(self.size))
        pos = p.notes['position']
        idx = i['index'] if p.notes['mode'] else pos
        if self.fn == 'char':
            return dict(fn='char', args=[('buf', bs, (pos - idx) % M64), idx], fout=0, out=b'', ret=bs[pos], mem=bs)
        return dict(fn='lchar', args=[('buf', bs, (pos - idx) % M64), idx, i['chr']], fout=0, out=b'',
                    mem=bs[:pos] + bytes([i['chr'] & 255]) + bs[pos + 1:])


class NRW(H):
    def __init__(self, fn, nr):
        self.name = self.fn = fn
        self.nr = nr
        self.bounds = 'all 64-bit descriptors, buffers and counts, all results a system call can have'

    def scenario(self, p):
        f, b, c = p.input('file'), p.input('buffer'), p.input('count')
        r = p.input('result')
        p.assume(kernel(r))
        raw(p, lambda n, nr, a: r)
        v = p.callname('b.' + self.fn, [f, b, c])
        if len(p.events) != 1:
            raise Violation('%d system calls' % len(p.events))
        nr, a0, a1, a2 = p.events[0]
        if a0 is None or a1 is None or a2 is None:
            raise Violation('an argument register of the system call is not set')
        p.prove(p.icmp('eq', p.trunc(nr, 32), self.nr, 64), 'another system call')
        # the kernel takes the descriptor as a 32-bit number
        p.prove(p.icmp('eq', p.trunc(a0, 32), p.trunc(f, 32), 64), 'another descriptor')
        p.prove(p.icmp('eq', a1, b, 64), 'another buffer')
        p.prove(p.icmp('eq', a2, c, 64), 'another count')
        p.prove(p.icmp('eq', v, r, 64), 'the result of the system call is not returned')

    def native(self, i, p):
        return dict(fn=self.fn, args=[i['file'], i['buffer'], i['count']], fout=0, out=b'', script=[(i['result'], None)], ret=i['result'],
                    calls_expected=[(self.nr, i['file'] & 0xffffffff, i['buffer'], i['count'])])


class Read(H):
    name = 'read'
    bounds = 'every byte, end of input and every error number'

    def scenario(self, p):
        case = p.choose(3, 'case')
        c = p.input('byte', 8)
        if case == 0:
            r = 1
        elif case == 1:
            r = 0
        else:
            r = p.input('error', 64, M64 - 4095, M64 - 1)

        def sc(n, nr, a):
            if n > 1:
                raise Violation('more than one system call')
            p.prove(p.icmp('eq', p.trunc(nr, 32), SYS_READ, 64), 'another system call')
            p.prove(p.icmp('eq', p.trunc(a[0], 32), 0, 64), 'the input is not taken from descriptor 0')
            p.prove(p.icmp('eq', a[2], 1, 64), 'not exactly one byte is read')
            if case == 0:
                p.storeint(p.concretize(a[1]), 1, c)
            return r
        raw(p, sc)
        v = p.callname('b.read', [])
        if not p.events:
            raise Violation('no system call')
        if case == 0:
            want = p.ite(conj(p, [p.icmp('uge', c, 1, 8), p.icmp('ule', c, 127, 8)]), c, 0)
            p.prove(p.icmp('eq', v, want, 64), 'read() returns another value than the byte read')
        else:
            p.prove(p.icmp('eq', v, 4, 64), 'read() does not return 4 at the end of input or on an error')

    def native(self, i, p):
        case = p.notes['case']
        c = i['byte']
        r = [1, 0, i.get('error', 0)][case]
        return dict(fn='read', args=[], fout=0, out=b'', script=[(r, c if case == 0 else None)], ret=(c if 1 <= c <= 127 else 0) if case == 0 else 4,
                    stdin=bytes([c]) if case == 0 else b'')


class Start(H):
    name = 'start'
    bounds = 'all 2^64 results of main'

    def scenario(self, p):
        r = p.input('code')
        st = dict(main=0)

        def main(vals):
            st['main'] += 1
            if st['main'] > 1:
                raise Violation('main is called more than once')
            if p.events:
                raise Violation('a system call before main')
            return r
        p.hooks['main'] = main

        def sc(n, nr, a):
            p.prove(z3.Or(ex(p.trunc(nr, 32)) == SYS_EXIT, ex(p.trunc(nr, 32)) == SYS_EXIT_GROUP), 'another system call than exit')
            if not st['main']:
                raise Violation('the program exits without running main')
            p.prove(p.icmp('eq', p.trunc(a[0], 8), p.trunc(r, 8), 64), 'the status is not the result of main')
            st['exit'] = True
            raise Stop()
        raw(p, sc)
        p.callname('_start', [])
        raise Violation('_start returns')

    def native(self, i, p):
        return dict(start=True, code=i['code'])


class Exit(H):
    name = 'exit'
    bounds = 'both values of fout'

    def scenario(self, p):
        setfout(p)

        def sc(n, nr, a):
            p.prove(z3.Or(ex(p.trunc(nr, 32)) == SYS_EXIT, ex(p.trunc(nr, 32)) == SYS_EXIT_GROUP), 'another system call than exit')
            p.prove(p.icmp('eq', p.trunc(a[0], 8), 0, 64), 'the status is not 0')
            raise Stop()
        raw(p, sc)
        p.callname('b.exit', [])
        raise Violation('exit() returns')

    def native(self, i, p):
        return dict(fn='exit', args=[], fout=i['fout'], out=b'', exits=0)


class Wrapper(H):
    def __init__(self, arch, header):
        self.name = 'wrapper_' + arch
        self.arch, self.header = arch, header
        self.bounds = 'all system call numbers and arguments, all results a system call can have'

    def scenario(self, p):
        n, a, b, c, r = [p.input(x) for x in ('number', 'arg1', 'arg2', 'arg3', 'result')]
        p.assume(kernel(r))
        raw(p, lambda k, nr, x: r)
        v = p.callname('zv_probe', [n, a, b, c])
        if len(p.events) != 1:
            raise Violation('%d system calls' % len(p.events))
        nr, x, y, z = p.events[0]
        for want, got, what in ((n, nr, 'the number'), (a, x, 'argument 1'), (b, y, 'argument 2'), (c, z, 'argument 3')):
            if got is None:
                raise Violation(what + ' is not in its register')
            p.prove(p.icmp('eq', got, want, 64), what + ' is not in its register')
        p.prove(p.icmp('eq', v, r, 64), 'the result of the system call is not returned')

    def native(self, i, p):
        return dict(wrapper=self.arch)


def seqkinds(ks):
    return lambda p, k: ks[p.choose(len(ks), 'kind%d' % k)]


SMALL = {D: (-99, 99), O_: (-63, 63), C_: (0, 65535), S_: 2}
TINY = {D: (0, 9), O_: (0, 7), C_: (1, 255), S_: (1,)}
ALL = [LIT, D, O_, C_, S_, PCT, UNK]

HARNESSES = {
    'C24': [PrintNum('printd', 10, True), PrintNum('printo', 8, False), Twice()],
    'C25': [
        Printf('one', 1, seqkinds(ALL), {D: FULL, O_: FULL, C_: FULL, S_: 6}, bounds='one directive with arguments over all 64-bit words, strings of up to 6 arbitrary bytes'),
        Printf('two', 2, seqkinds(ALL), SMALL, bounds='two directives of any kind, numbers within two digits, strings of up to 2 bytes'),
        Printf('same8', 9, lambda p, k: [D, O_, C_, S_][p.notes['kind'] if 'kind' in p.notes else p.choose(4, 'kind')], TINY, bounds='nine directives of one kind (arguments in registers and on the stack)'),
        PrintfLong('long', [300, 4500]),
        PrintfLong('longer', [1025, 20000], thorough=True),
        Printf('empty', 0, seqkinds(ALL), TINY, bounds='the empty format'),
        Printf('three', 3, seqkinds(ALL), {D: (-9, 9), O_: (-7, 7), C_: (0, 255), S_: 1}, thorough=True, bounds='three directives of any kind, numbers within one digit'),
        Printf('four', 4, seqkinds(ALL), TINY, thorough=True, bounds='four directives of any kind with one-byte expansions'),
        Printf('twowide', 2, seqkinds([D, O_, C_]), {D: (-99999999, 99999999), O_: (-99999, 99999), C_: (0, (1 << 40) - 1), S_: 2}, thorough=True, tail=False, bounds='two numbers of up to eight digits'),
        Printf('mixed', 8, lambda p, k: seqkinds([D, C_])(p, k) if k < 6 else seqkinds([D, O_, C_, S_])(p, k), TINY, thorough=True, bounds='eight directives, %d and %c in every order, then any'),
    ],
    'C26': [Write(), Writeb(), Flush(), FoutInit(), Twice()],
    'C27': [CharAt('char', 8), CharAt('lchar', 8), CharAt('char', 64, True), CharAt('lchar', 64, True), NRW('nread', SYS_READ), NRW('nwrite', SYS_WRITE), Read()],
    'C28': [Start(), Exit(), Wrapper('x86_64', 'x86_64.h'), Wrapper('aarch64', 'aarch64.h'), Wrapper('riscv64', 'riscv64.h')],
}


# ---------------------------------------------------------------- native replays

def cbytes(b):
    return '{' + ','.join(str(x) for x in b) + ',0}'


STUB = '''
extern long zv_syscall(long, long, long, long);
static inline long syscall(long n, long a1, long a2, long a3) { return zv_syscall(n, a1, a2, a3); }
'''

DRIVER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef unsigned long u64;
extern long b_fout __asm__("b.fout");
static FILE *rep;
static int step;
%(script)s
long zv_syscall(long n, long a1, long a2, long a3) {
    fprintf(rep, "sys %%ld %%lu %%lu %%lu\n", n, (u64)a1, (u64)a2, (u64)a3);
    fflush(rep);
    if (n == 60 || n == 231) _exit((int)(a1 & 255));
    if (step < nscript) {
        long r = script[step].res;
        if (script[step].byte >= 0) *(unsigned char *)a2 = (unsigned char)script[step].byte;
        step++;
        return r;
    }
    if (n == 1) return write(a1, (void *)a2, a3);
    return -38;
}
%(decls)s
%(data)s
int main(int argc, char **argv) {
    rep = fopen(argv[1], "w");
    if (!rep) return 99;
    %(fout)s
    %(calls)s
    fprintf(rep, "fout %%lu\n", (u64)b_fout);
    fclose(rep);
    _exit(0);
}
'''


class Native:
    def __init__(self, build):
        self.b = build
        self.n = 0

    def sources(self, d, record):
        rt = os.path.join(d, 'rt')
        shutil.copytree(self.b.rt, rt)
        if record:
            for h in ('x86_64.h',):
                open(os.path.join(rt, h), 'w').write(STUB)
        return rt

    def run_calls(self, spec, record, san, opt):
        """runs the calls natively; returns a list of differences"""
        self.n += 1
        d = os.path.join(self.b.dir, 'native%d' % self.n)
        os.makedirs(d)
        rt = self.sources(d, record)
        calls = spec.get('calls') or [(spec['fn'], spec['args'])]
        data, decls, code = '', '', ''
        bufs = []
        for k, (fn, args) in enumerate(calls):
            cargs = []
            for a in args:
                if isinstance(a, tuple):
                    nm = 'd%d' % len(bufs)
                    b = a[1]
                    data += 'static unsigned char %s[] = %s;\n' % (nm, cbytes(b) if a[0] == 'str' else '{' + ','.join(map(str, b)) + '}')
                    bufs.append((nm, len(b)))
                    off = a[2] if len(a) > 2 else 0
                    cargs.append('(long)((u64)%s + %dUL)' % (nm, off))
                else:
                    cargs.append('(long)%dUL' % a)
            decls += 'long zf%d(%s) __asm__("b.%s");\n' % (k, 'long, ...' if cargs else 'void', fn)
            code += '{ long r = zf%d(%s); fprintf(rep, "ret %%lu\\n", (u64)r); }\n' % (k, ', '.join(cargs))
        for nm, n in bufs:
            code += 'fprintf(rep, "mem "); for (int i = 0; i < %d; i++) fprintf(rep, "%%02x", %s[i]); fprintf(rep, "\\n");\n' % (n, nm)
        sc = spec.get('script') or []
        script = 'static struct { long res; int byte; } script[] = {%s}; enum { nscript = %d };' % (
            ','.join('{(long)%dUL, %d}' % (r, -1 if b is None else b) for r, b in sc) or '{0,0}', len(sc))
        fout = '' if spec.get('fout') is None else 'b_fout = %d;' % spec['fout']
        src = os.path.join(d, 'driver.c')
        open(src, 'w').write(DRIVER % dict(script=script, decls=decls, data=data, fout=fout, calls=code))
        objs = [f for f in sorted(glob.glob(rt + '/*.c')) if os.path.basename(f) != 'start.c']
        exe = os.path.join(d, 'driver')
        flags = [opt] + (['-fsanitize=address,bounds', '-fno-omit-frame-pointer'] if san else [])
        cf = []
        for f in objs:
            o = f + '.o'
            r = subprocess.run(['cc'] + flags + ['-w', '-ffreestanding', '-c', f, '-o', o, '-I' + rt], capture_output=True, text=True)
            if r.returncode:
                return None
            if '_start' in subprocess.run(['nm', o], capture_output=True, text=True).stdout:
                continue
            cf.append(o)
        r = subprocess.run(['cc', '-w'] + flags + [src] + cf + ['-o', exe], capture_output=True, text=True)
        if r.returncode:
            return None
        rep = os.path.join(d, 'report')
        try:
            r = subprocess.run([exe, rep], capture_output=True, timeout=20, input=spec.get('stdin', b''), cwd=d, env=dict(ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return ['does not end']
        diffs = []
        if san and r.returncode and b'Sanitizer' in r.stderr:
            return ['AddressSanitizer: ' + r.stderr.decode('latin-1').split('\n')[1][:120]]
        fo = spec.get('fout') or 0
        want = {1: b'', 2: b''}
        want[1 + fo] = spec['out']
        if r.stdout != want[1]:
            diffs.append('standard output %r instead of %r' % (r.stdout[:80], want[1][:80]))
        if not san and r.stderr != want[2]:
            diffs.append('standard error %r instead of %r' % (r.stderr[:80], want[2][:80]))
        if r.returncode != spec.get('exits', 0):
            diffs.append('status %d' % r.returncode)
        lines = open(rep).read().split('\n') if os.path.exists(rep) else []
        rets = [int(l.split()[1]) for l in lines if l.startswith('ret ')]
        mems = [l[4:] for l in lines if l.startswith('mem ')]
        sys_ = [tuple(int(x) for x in l.split()[1:]) for l in lines if l.startswith('sys ')]
        fov = [int(l.split()[1]) for l in lines if l.startswith('fout ')]
        if 'ret' in spec and (not rets or rets[0] != spec['ret']):
            diffs.append('returns %s instead of %d' % (rets[:1], spec['ret']))
        if 'mem' in spec and (not mems or mems[0] != spec['mem'].hex()):
            diffs.append('memory %s instead of %s' % (mems[:1], spec['mem'].hex()))
        if 'exits' in spec and rets:
            diffs.append('returns')
        if 'foutval' in spec and fov != [spec['foutval']]:
            diffs.append('fout is %s' % fov)
        elif 'exits' not in spec and spec.get('fout') is not None and fov != [spec['fout']]:
            diffs.append('fout is changed to %s' % fov)
        if record and 'calls_expected' in spec:
            got = [(n, a & 0xffffffff, b, c) for n, a, b, c in sys_]
            if got != spec['calls_expected']:
                diffs.append('system calls %s instead of %s' % (got, spec['calls_expected']))
        shutil.rmtree(d, ignore_errors=True)
        return diffs

    PROBE = r'''
extern long zv_call(long, long, long, long);
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
int main(void) {
    int p[2]; char buf[8] = "xxxxxxx"; volatile long v[14]; long s = 0;
    if (pipe(p)) return 9;
    if (zv_call(1, p[1], (long)"abc", 3) != 3) return 1;
    if (zv_call(0, p[0], (long)buf, 2) != 2 || memcmp(buf, "abxxxxx", 7)) return 2;
    if (zv_call(1, 9999, (long)"abc", 3) != -9) return 3;
    if (zv_call(39, 0, 0, 0) != getpid()) return 4;
    if (zv_call(257, -100, (long)"/dev/null", O_RDWR) < 0) return 5;
    return 0;
}
'''
    PROBE2 = r'''
#include "x86_64.h"
long zv_call(long n, long a, long b, long c) { return syscall(n, a, b, c); }
/* the contents of memory written just before must be seen, and live values must survive */
long zv_mem(long fd, long x) { char buf[4]; buf[0] = (char)x; buf[1] = 'Q'; return syscall(1, fd, (long)buf, 2); }
long zv_rd(long fd) { char b = 7; syscall(0, fd, (long)&b, 1); return b; }
long zv_live(volatile long *v) {
    long a=v[0],b=v[1],c=v[2],d=v[3],e=v[4],f=v[5],g=v[6],h=v[7],i=v[8],j=v[9],k=v[10],l=v[11],m=v[12],n=v[13];
    syscall(39, 0, 0, 0);
    return a+2*b+3*c+4*d+5*e+6*f+7*g+8*h+9*i+10*j+11*k+12*l+13*m+14*n;
}
'''
    PROBE3 = r'''
#include <unistd.h>
#include <string.h>
extern long zv_mem(long, long), zv_rd(long), zv_live(volatile long *);
int main(void) {
    int p[2]; char b[2] = "zz"; volatile long v[14]; long s = 0;
    if (pipe(p)) return 9;
    if (zv_mem(p[1], 'W') != 2 || read(p[0], b, 2) != 2 || b[0] != 'W' || b[1] != 'Q') return 6;
    if (write(p[1], "K", 1) != 1 || zv_rd(p[0]) != 'K') return 7;
    for (int i = 0; i < 14; i++) { v[i] = 1000 + i * i; s += (i + 1) * v[i]; }
    if (zv_live(v) != s) return 8;
    return 0;
}
'''

    def wrapper(self):
        """the real x86-64 wrapper against the real kernel"""
        self.n += 1
        d = os.path.join(self.b.dir, 'wrap%d' % self.n)
        os.makedirs(d)
        for n, s in (('p1.c', self.PROBE), ('p2.c', self.PROBE2), ('p3.c', self.PROBE3)):
            open(os.path.join(d, n), 'w').write(s)
        for opt in ('-O0', '-O1', '-O2', '-O3'):
            for cc in ('cc', 'clang'):
                for main in ('p1.c', 'p3.c'):
                    r = subprocess.run([cc, '-w', opt, '-I' + self.b.rt, 'p2.c', main, '-o', 'p'], cwd=d, capture_output=True, text=True)
                    if r.returncode:
                        continue
                    try:
                        r = subprocess.run(['./p'], cwd=d, capture_output=True, timeout=20, stdin=subprocess.DEVNULL)
                    except subprocess.TimeoutExpired:
                        return ['wrapper probe does not end']
                    if r.returncode:
                        return ['wrapper probe %s %s fails with %d' % (cc, opt, r.returncode)]
        return []

    def start(self, code):
        self.n += 1
        d = os.path.join(self.b.dir, 'start%d' % self.n)
        os.makedirs(d)
        open(os.path.join(d, 'm.c'), 'w').write('''static int n;
static long w(const char *s) { long r; __asm__ volatile("syscall" : "=a"(r) : "a"(1L), "D"(1L), "S"(s), "d"(1L) : "rcx", "r11", "memory"); return r; }
long main(void) { w("m"); return (long)%dUL; }\n''' % code)
        fs = sorted(glob.glob(self.b.rt + '/*.c'))
        r = subprocess.run(['cc', '-w', '-O1', '-ffreestanding', '-fno-stack-protector', '-nostdlib', '-static', '-I' + self.b.rt, 'm.c'] + fs + ['-o', 'm'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return None
        try:
            r = subprocess.run(['./m'], cwd=d, capture_output=True, timeout=20, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return ['does not end']
        out = []
        if r.returncode != code & 255:
            out.append('status %d instead of %d' % (r.returncode, code & 255))
        if r.stdout != b'm':
            out.append('main is run %d times' % len(r.stdout))
        return out

    def confirm(self, spec, oob):
        if 'wrapper' in spec:
            if spec['wrapper'] == 'x86_64':
                return self.wrapper()
            return ['not run: no %s processor here' % spec['wrapper']]
        if spec.get('start'):
            return self.start(spec['code'])
        order = [(False, False, '-O1'), (True, False, '-O1'), (True, True, '-O1'), (False, False, '-O0'), (False, False, '-O2')]
        if oob:
            order = [(True, True, '-O0'), (True, True, '-O1')] + order
        res = None
        for rec, san, opt in order:
            if not rec and spec.get('script') and not ('stdin' in spec and spec['script'][0][0] in (0, 1)):
                continue
            r = self.run_calls(spec, rec, san, opt)
            if r is None:
                continue
            res = r
            if r:
                return ['%s, cc %s%s: ' % ('recorded system calls' if rec else 'real system calls', opt, ' with AddressSanitizer' if san else '') + r[0]]
        w = self.wrapper()
        return w if w else res


# ---------------------------------------------------------------- main

def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    repo = '/repo'
    if '--repo' in sys.argv:
        repo = sys.argv[sys.argv.index('--repo') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else ''
    verbose = '-v' in sys.argv
    t0 = time.time()
    deadline = t0 + (600 if tier == 'quick' else 780)
    meta = json.load(open(HERE + '/harness/meta.json')).get(prop, {})
    known = []
    kf = HERE + '/known_findings.json'
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k['property'] == prop and k.get('status') == 'known']
    build = Build(repo)
    native = Native(build)
    ev, rc, viols, undecided, samples, hs = [], 0, [], [], [], []
    tot = Stats()
    try:
        for h in HARNESSES[prop]:
            if (h.thorough and tier == 'quick') or only not in h.name:
                continue
            st = Stats()
            th = time.time()
            done = 0
            found = {}
            try:
                if isinstance(h, Wrapper):
                    prog = Program([build.probe(h.arch, h.header)], h.arch)
                else:
                    prog = Program(build.modules(), 'x86_64')
                eng = Engine(prog, st, deadline, seed=seed)
                for p, v in eng.run(h.scenario, h.maxpaths):
                    done += 1
                    if v is None:
                        if len([s for s in samples if s['harness'] == h.name]) < 2 and (done in (1, 7)):
                            m = p.getmodel()
                            if m:
                                samples.append(dict(harness=h.name, inputs={k: str(x) for k, x in m[0].items()}, choices=dict(p.notes)))
                        continue
                    key = str(v)
                    found[key] = found.get(key, 0) + 1
                    if found[key] > 3 or sum(found.values()) > 40:
                        if sum(found.values()) > 40:
                            break
                        continue
                    m = p.getmodel()
                    if m is None:
                        undecided.append('%s: no model for "%s"' % (h.name, v))
                        continue
                    p.model = m[1]
                    viols.append((h, str(v), m[0], dict(p.notes), h.native(m[0], p), v.oob))
            except Unsupported as e:
                undecided.append('%s: cannot be encoded: %s' % (h.name, e))
            except Undecided as e:
                undecided.append('%s: undecided: %s' % (h.name, e))
            if not done:
                undecided.append('%s: no path completed' % h.name)
            hs.append(dict(harness=h.name, paths=st.paths, instructions=st.steps, assertions=st.asserts, queries=st.queries,
                           solver_seconds=round(st.time, 2), wall_s=round(time.time() - th, 1), bounds=h.bounds))
            if verbose:
                print(hs[-1])
            for k in ('queries', 'sat', 'unsat', 'unknown', 'time', 'paths', 'steps', 'asserts', 'asserts_rewritten'):
                setattr(tot, k, getattr(tot, k) + getattr(st, k))
            tot.functions |= st.functions
        reported = unconfirmed = nknown = 0
        seen = {}
        os.makedirs(HERE + '/replays', exist_ok=True)
        for h, msg, inputs, notes, spec, oob in viols:
            if seen.get((h.name, msg), 0) >= 1 or reported >= 8:
                continue
            k = next((k for k in known if k['harness'] == h.name and k['message'] == msg and
                      (not k.get('note_key') or str(notes.get(k['note_key'], inputs.get(k['note_key']))) == str(k['note_value']))), None)
            diff = native.confirm(spec, oob)
            if not diff:
                unconfirmed += 1
                undecided.append('%s: "%s" with %s does not show in a native run' % (h.name, msg, inputs))
                continue
            seen[(h.name, msg)] = 1
            if k:
                nknown += 1
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                continue
            reported += 1
            path = HERE + '/replays/%s-%d.json' % (prop, reported)
            json.dump(dict(harness=h.name, message=msg, inputs={a: str(b) for a, b in inputs.items()}, choices=notes, native=diff,
                           call=repr(spec)), open(path, 'w'), indent=1)
            print('%s: %s' % (h.name, msg))
            print('  inputs: ' + ' '.join('%s=%d' % (a, s64(b)) for a, b in inputs.items()) + ' ' + ' '.join('%s=%s' % x for x in notes.items()))
            print('  native: ' + diff[0])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        if reported:
            rc = 1
        elif undecided:
            rc = 2
        for u in undecided:
            print('UNDECIDED ' + u)
    finally:
        build.close()
    wall = time.time() - t0
    if not only:
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 1), violations=reported,
                       assumptions=meta.get('assumptions', []),
                       coverage=dict(
                           evaluations=tot.paths, distinct_nontrivial=tot.paths,
                           rule='one case is one path of the runtime function under a symbolic input class; paths are distinct by their branch decisions, '
                                'and non-trivial because each one ran the function to its end and had its assertions decided for all inputs of the class',
                           samples=samples[:12], exhaustive=not undecided, bounds=meta.get('bounds', ''), harnesses=hs,
                           functions_encoded=sorted(tot.functions), instructions_interpreted=tot.steps, assertions=tot.asserts,
                           assertions_decided_by_rewriting=tot.asserts_rewritten, assertions_undecided=len(undecided), undecided_reasons=undecided,
                           solver='z3 ' + z3.get_version_string(), solver_queries=tot.queries, solver_sat=tot.sat, solver_unsat=tot.unsat,
                           solver_unknown=tot.unknown, solver_seconds=round(tot.time, 2), counterexamples_unconfirmed=unconfirmed,
                           known_findings=nknown)), open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: %d paths, %d assertions, %d queries (%.1f s in the solver), %d violation(s), %.1f s' % (
        prop, tier, tot.paths, tot.asserts, tot.queries, tot.time, reported, wall))
    sys.exit(rc)


if __name__ == '__main__':
    main()
