"""Parser for the textual LLVM IR that clang emits for the C runtime (the part of the language C code
without floating point and vectors compiles to).  Anything outside it raises Unsupported."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"])*")
|(?P<local>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
|(?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
|(?P<num>-?\d+(?![\w.]))
|(?P<attr>\#\d+|!\w*(?:\.\w+)*)
|(?P<word>[a-zA-Z_][\w.]*)
|(?P<dots>\.\.\.)
|(?P<punct>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('cannot read IR: ' + s[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Ty:
    """kind: int (bits), ptr, arr (n, elem), struct (fields), void, fn, other"""
    __slots__ = ('kind', 'bits', 'n', 'elem', 'fields', 'size', 'align', 'offs', 'variadic')

    def __init__(self, kind, **k):
        self.kind = kind
        self.bits = k.get('bits')
        self.n = k.get('n')
        self.elem = k.get('elem')
        self.fields = k.get('fields')
        self.variadic = k.get('variadic', False)
        self.offs = None
        if kind == 'int':
            b = (self.bits + 7) // 8
            p = 1
            while p < b:
                p *= 2
            self.size, self.align = p, min(p, 16)
        elif kind == 'ptr':
            self.size = self.align = 8
            self.bits = 64
        elif kind == 'arr':
            self.size, self.align = self.n * self.elem.size, self.elem.align
        elif kind == 'struct':
            o, a, self.offs = 0, 1, []
            for f in self.fields:
                if not k.get('packed'):
                    o = (o + f.align - 1) // f.align * f.align
                    a = max(a, f.align)
                self.offs.append(o)
                o += f.size
            self.size, self.align = (o + a - 1) // a * a, a
        else:
            self.size, self.align = 0, 1


def I(n):
    return Ty('int', bits=n)


PTR = Ty('ptr')
VOID = Ty('void')

SKIPWORDS = set('''noundef nonnull signext zeroext inreg immarg returned nocapture readonly writeonly readnone noalias
 nsw nuw exact inbounds volatile tail musttail notail fastcc ccc dso_local local_unnamed_addr unnamed_addr internal private
 external weak linkonce_odr hidden default protected disjoint samesign nneg noinline nounwind allocptr noreturn constant_only
 sideeffect alignstack inteldialect unwind willreturn mustprogress common global_only noext nusw writable dead_on_unwind'''.split())


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise Unsupported('expected %s, found %s in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:120]))
        self.i += 1

    def skip(self):
        while True:
            w = self.peek()
            if w in SKIPWORDS:
                self.i += 1
                if self.peek() == '(' and w in ('inreg',):
                    self.parens()
            elif w in ('align', 'addrspace') and self.i + 1 < len(self.t):
                self.i += 1
                if self.peek() == '(':
                    self.parens()
                else:
                    self.i += 1
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass', 'captures', 'byval', 'sret', 'memory', 'initializes'):
                self.i += 1
                self.parens()
            elif w is not None and w.startswith('#'):
                self.i += 1
            else:
                return

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            w = self.next()
            d += (w == '(') - (w == ')')

    def type(self):
        w = self.peek()
        k = self.kind()
        if k == 'word' and re.fullmatch(r'i\d+', w):
            self.i += 1
            t = I(int(w[1:]))
        elif w == 'ptr':
            self.i += 1
            t = PTR
        elif w == 'void':
            self.i += 1
            t = VOID
        elif w == '[':
            self.i += 1
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n=n, elem=e)
        elif w == '{':
            self.i += 1
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            t = Ty('struct', fields=fs)
        elif w == '<' and self.peek(1) == '{':
            self.i += 2
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            self.expect('>')
            t = Ty('struct', fields=fs, packed=True)
        elif k == 'local':
            self.i += 1
            if w not in self.mod.types:
                raise Unsupported('unknown type ' + w)
            t = self.mod.types[w]
        elif w in ('label', 'metadata', 'token'):
            self.i += 1
            t = Ty('other')
        else:
            raise Unsupported('type %s' % w)
        if self.peek() == '(':  # function type
            self.i += 1
            ps, var = [], False
            while not self.accept(')'):
                if self.accept('...'):
                    var = True
                else:
                    ps.append(self.type())
                    self.skip()
                self.accept(',')
            t = Ty('fn', elem=t, fields=ps, variadic=var)
        return t

    def value(self, ty):
        """an operand of the given type"""
        self.skip()
        k, w = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('l', w)
        if k == 'glob':
            return ('g', w)
        if k == 'num':
            return ('c', int(w))
        if w in ('true', 'false'):
            return ('c', int(w == 'true'))
        if w == 'null':
            return ('c', 0)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if k == 'str':
            body = w[2:-1]
            b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), body)
            return ('bytes', [ord(c) for c in b])
        if w == '[':
            out = []
            while not self.accept(']'):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            return ('agg', out)
        if w == '{' or (w == '<' and self.peek() == '{'):
            if w == '<':
                self.i += 1
            out = []
            while not self.accept('}'):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            if w == '<':
                self.expect('>')
            return ('agg', out)
        if w == 'getelementptr':
            self.skip()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('gep', bt, ops)
        if w in ('ptrtoint', 'inttoptr', 'trunc', 'bitcast', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', w, t, v, t2)
        if w in ('add', 'sub', 'mul', 'xor', 'shl'):
            self.skip()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('bin', w, t, a, b)
        raise Unsupported('operand %s' % w)


class Fn:
    def __init__(self):
        self.blocks = {}
        self.order = []


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.triple = ''
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if s.startswith('target triple'):
                self.triple = s.split('"')[1]
            if not s or s[0] in ';!' or s.startswith(('source_filename', 'target', 'attributes', 'module asm', '$')):
                if s.startswith('module asm'):
                    raise Unsupported('module-level assembly')
                continue
            if s.startswith('%'):
                m = re.match(r'(%\S+) = type (.*)$', s)
                self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
                continue
            if s.startswith('@'):
                self.parse_global(s)
                continue
            if s.startswith('declare'):
                m = re.search(r'(@[-\w$.]+|@"[^"]*")\s*\(', s)
                self.decls.add(sym(m.group(1)))
                continue
            if s.startswith('define'):
                body = []
                while lines[i].strip() != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self.parse_func(s, body)
                continue
            raise Unsupported('line ' + s[:60])

    def parse_global(self, s):
        p = P(tokenize(s), self)
        name = sym(p.next())
        p.expect('=')
        local = False
        ext = False
        const = False
        while p.peek() not in ('global', 'constant', 'alias'):
            w = p.next()
            local |= w in ('internal', 'private')
            ext |= w in ('external', 'extern_weak')
            if w == 'addrspace':
                raise Unsupported('address space')
            if w == 'thread_local':
                raise Unsupported('thread local')
        k = p.next()
        if k == 'alias':
            raise Unsupported('alias')
        const = k == 'constant'
        t = p.type()
        init = None if ext else p.value(t)
        self.globals[name] = dict(name=name, ty=t, init=init, local=local, const=const, ext=ext)

    def parse_func(self, head, body):
        f = Fn()
        h = head
        f.local = bool(re.search(r'define\s+(?:\w+\s+)*?(internal|private)\b', h))
        m = re.search(r'(@[-\w$.]+|@"[^"]*")\s*\(', h)
        f.name = sym(m.group(1))
        # return type: last type before the name
        pre = h[len('define'):m.start()].strip()
        p = P(tokenize(pre), self)
        p.skip()
        f.ret = p.type()
        p = P(tokenize(h[m.end() - 1:]), self)
        p.expect('(')
        f.params, f.variadic = [], False
        auto = 0
        while not p.accept(')'):
            if p.accept('...'):
                f.variadic = True
                continue
            t = p.type()
            p.skip()
            if p.kind() == 'local':
                nm = p.next()
            else:
                nm = '%%%d' % auto
                auto += 1
            f.params.append((t, nm))
            p.accept(',')
        cur = None
        first = True
        j = 0
        while j < len(body):
            ln = body[j]
            j += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^([-\w$.]+|"[^"]*"):', s)
            if m and not ln.startswith('  '):
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                continue
            if first:
                cur = '%entry%'
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
            if s.startswith('switch') and s.endswith('['):
                while not s.endswith(']'):
                    s += ' ' + body[j].strip()
                    j += 1
            f.blocks[cur].append(self.parse_inst(s))
        self.funcs[f.name] = f

    def parse_inst(self, s):
        raw = s
        s = re.sub(r', ![\w.]+(?: ![\w.]+)?', '', s) if '"' not in s else re.sub(r', !srcloc !\d+', '', s)
        p = P(tokenize(s), self)
        dst = None
        if p.kind() == 'local' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        p.skip()
        op = p.next()
        r = dict(op=op, dst=dst, raw=raw)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            p.skip()
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            p.expect(',')
            r['b'] = p.value(r['ty'])
        elif op == 'icmp':
            p.skip()
            r['pred'] = p.next()
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            p.expect(',')
            r['b'] = p.value(r['ty'])
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            p.skip()
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            p.expect('to')
            r['to'] = p.type()
        elif op == 'freeze':
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
        elif op == 'select':
            p.type()
            r['c'] = p.value(I(1))
            p.expect(',')
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            p.expect(',')
            p.type()
            r['b'] = p.value(r['ty'])
        elif op == 'alloca':
            r['ty'] = p.type()
            r['n'] = (I(32), ('c', 1))
            if p.accept(','):
                if p.peek() != 'align':
                    t = p.type()
                    r['n'] = (t, p.value(t))
        elif op == 'load':
            p.skip()
            if p.accept('atomic'):
                p.skip()
            r['ty'] = p.type()
            p.expect(',')
            t = p.type()
            r['p'] = p.value(t)
        elif op == 'store':
            p.skip()
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            p.expect(',')
            t = p.type()
            r['p'] = p.value(t)
        elif op == 'getelementptr':
            p.skip()
            r['bt'] = p.type()
            ops = []
            while p.accept(','):
                t = p.type()
                ops.append((t, p.value(t)))
            r['ops'] = ops
        elif op == 'br':
            t = p.type()
            if t.kind == 'other':
                r['to'] = [p.next()]
            else:
                r['c'] = p.value(t)
                p.expect(',')
                p.type()
                a = p.next()
                p.expect(',')
                p.type()
                r['to'] = [a, p.next()]
        elif op == 'switch':
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            p.expect(',')
            p.type()
            r['default'] = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t = p.type()
                v = p.value(t)
                p.expect(',')
                p.type()
                cs.append((v[1], p.next()))
            r['cases'] = cs
        elif op == 'phi':
            r['ty'] = p.type()
            ins = []
            while True:
                p.expect('[')
                v = p.value(r['ty'])
                p.expect(',')
                ins.append((v, p.next()))
                p.expect(']')
                if not p.accept(','):
                    break
            r['in'] = ins
        elif op == 'ret':
            t = p.type()
            r['ty'] = t
            if t.kind != 'void':
                r['a'] = p.value(t)
        elif op == 'unreachable':
            pass
        elif op == 'call':
            p.skip()
            t = p.type()
            if t.kind == 'fn':
                t = t.elem
            r['ty'] = t
            p.skip()
            if p.accept('asm'):
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                    p.next()
                r['asm'] = p.next()[1:-1]
                p.expect(',')
                r['cons'] = p.next()[1:-1]
            else:
                r['fn'] = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                p.skip()
                if at.kind == 'other':
                    p.next()
                else:
                    args.append((at, p.value(at)))
                p.accept(',')
            r['args'] = args
        elif op in ('extractvalue', 'insertvalue'):
            r['ty'] = p.type()
            r['a'] = p.value(r['ty'])
            idx = []
            if op == 'insertvalue':
                p.expect(',')
                r['ety'] = p.type()
                r['b'] = p.value(r['ety'])
            while p.accept(','):
                idx.append(int(p.next()))
            r['idx'] = idx
        else:
            raise Unsupported('instruction ' + op)
        return r


def sym(tok):
    n = tok[1:]
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n.lstrip('\x01')
