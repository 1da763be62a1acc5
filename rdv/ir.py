"""Parser for the textual LLVM IR produced from /repo's sources (only what clang -O0 + mem2reg emits)."""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'name', 'fields')

    def __init__(self, k, w=0, el=None, n=0, name=None, fields=None):
        self.k, self.w, self.el, self.n, self.name, self.fields = k, w, el, n, name, fields

    def __repr__(self):
        return {'i': 'i%d' % self.w, 'f': 'f%d' % self.w}.get(self.k, self.k + (self.name or ''))


PTR = Ty('ptr', 64)
VOID = Ty('void')
_ints = {}


def IntTy(w):
    if w not in _ints:
        _ints[w] = Ty('i', w)
    return _ints[w]


F32T = Ty('f', 32)
F64T = Ty('f', 64)


class P:
    """tokenizer over one line"""
    tok = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"(?:[^"])*"|%"[^"]*"|@"[^"]*"|[%@#!][-\w.$]+|-?\d+\.\d+e[+-]\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|.)')

    def __init__(self, s):
        self.t = [m.group(1) for m in self.tok.finditer(s) if m.group(1).strip()]
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise Unsupported('parse: expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 5):self.i + 8])))


PATTRS = {'noundef', 'noalias', 'nocapture', 'zeroext', 'signext', 'readonly', 'writeonly', 'nonnull', 'returned', 'immarg',
          'inreg', 'nofree', 'readnone', 'dso_local', 'local_unnamed_addr', 'nest', 'allocptr'}


class Module:
    def __init__(self, name, text):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.loc = {}
        self.files = {}
        self.parse(text)

    # -------- types
    def ty(self, p):
        t = p.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == 'float':
            r = F32T
        elif t == 'double':
            r = F64T
        elif re.match(r'i\d+$', t):
            r = IntTy(int(t[1:]))
        elif t == '[':
            n = int(p.next())
            p.expect('x')
            el = self.ty(p)
            p.expect(']')
            r = Ty('arr', el=el, n=n)
        elif t == '{':
            fs = []
            while not p.accept('}'):
                fs.append(self.ty(p))
                p.accept(',')
            r = Ty('struct', fields=fs, name='{}')
        elif t == '<':
            n = int(p.next())
            p.expect('x')
            el = self.ty(p)
            p.expect('>')
            r = Ty('vec', el=el, n=n)
        elif t.startswith('%'):
            r = Ty('named', name=t)
        elif t in ('metadata', 'label', 'token'):
            r = Ty(t)
        elif t == 'x86_fp80':
            r = Ty('f', 80)
        else:
            raise Unsupported('type ' + t)
        # function types: ret (args)
        if p.peek() == '(' and r.k != 'metadata' and self._fnty:
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                if x == ')':
                    d -= 1
                    if d == 0:
                        break
            return Ty('fn')
        return r
    _fnty = False

    def res(self, t):
        if t.k == 'named':
            return self.types[t.name]
        return t

    def size(self, t):
        t = self.res(t)
        if t.k == 'i':
            return max(1, (t.w + 7) // 8)
        if t.k == 'f':
            return 16 if t.w == 80 else t.w // 8
        if t.k == 'ptr':
            return 8
        if t.k == 'arr':
            return t.n * self.size(t.el)
        if t.k == 'struct':
            off = 0
            for f in t.fields:
                a = self.align(f)
                off = (off + a - 1) // a * a + self.size(f)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise Unsupported('size of %r' % t)

    def align(self, t):
        t = self.res(t)
        if t.k in ('i', 'f', 'ptr'):
            return min(16, self.size(t))
        if t.k == 'arr':
            return self.align(t.el)
        if t.k == 'struct':
            return max([self.align(f) for f in t.fields] or [1])
        raise Unsupported('align')

    def field_off(self, t, i):
        off = 0
        for k, f in enumerate(t.fields):
            a = self.align(f)
            off = (off + a - 1) // a * a
            if k == i:
                return off
            off += self.size(f)
        raise Unsupported('field')

    # -------- values: ('c', int) ('f', bits) ('null',) ('undef',) ('r', '%x') ('g','@x') ('gep', base, off) ('zero',) ('arr',[...]) ('str',bytes)
    def val(self, p, ty):
        t = p.next()
        rt = self.res(ty) if ty.k == 'named' else ty
        if t.startswith('%'):
            return ('r', t)
        if t.startswith('@'):
            return ('g', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t.startswith('c"'):
            s = t[2:-1]
            b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s).encode('latin1')
            return ('str', b)
        if rt.k == 'f':
            if t.startswith('0x'):
                if t[2] in 'KLMHR':
                    raise Unsupported('fp const ' + t)
                bits = int(t, 16)
                if rt.w == 32:
                    import struct
                    d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                    if d != d:
                        return ('f', 0x7fc00000)
                    return ('f', struct.unpack('<I', struct.pack('<f', d))[0])
                return ('f', bits)
            import struct
            d = float(t)
            if rt.w == 32:
                return ('f', struct.unpack('<I', struct.pack('<f', d))[0])
            return ('f', struct.unpack('<Q', struct.pack('<d', d))[0])
        if re.match(r'-?\d+$', t):
            return ('c', int(t))
        if t == '[' or t == '{':
            close = ']' if t == '[' else '}'
            out = []
            while not p.accept(close):
                et = self.ty(p)
                out.append((et, self.val(p, et)))
                p.accept(',')
            return ('agg', out)
        if t == 'getelementptr':
            p.accept('inbounds')
            p.expect('(')
            bt = self.ty(p)
            p.expect(',')
            self.ty(p)
            base = self.val(p, PTR)
            off = 0
            first = True
            cur = bt
            while p.accept(','):
                it = self.ty(p)
                iv = self.val(p, it)
                if iv[0] != 'c':
                    raise Unsupported('constexpr gep')
                if first:
                    off += iv[1] * self.size(cur)
                    first = False
                else:
                    cur = self.res(cur)
                    if cur.k == 'struct':
                        off += self.field_off(cur, iv[1])
                        cur = cur.fields[iv[1]]
                    else:
                        cur = cur.el
                        off += iv[1] * self.size(cur)
            p.expect(')')
            return ('gep', base, off)
        raise Unsupported('value ' + t + ' in ' + ' '.join(p.t))

    # -------- module
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        # metadata for locations
        sub = {}
        for l in lines:
            m = re.match(r'(!\d+) = (?:distinct )?!DILocation\(line: (\d+)(.*)', l)
            if m:
                self.loc[m.group(1)] = int(m.group(2))
        # types first
        for l in lines:
            m = re.match(r'(%[\w.]+|%"[^"]+") = type (.*)', l)
            if m:
                if m.group(2) == 'opaque':
                    self.types[m.group(1)] = Ty('opaque')
                else:
                    p = P(m.group(2))
                    self.types[m.group(1)] = self.ty(p)
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'(@[\w.$]+)\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func(self, l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            i += 1

    def parse_global(self, l):
        m = re.match(r'(@[\w.$]+) = (.*)$', l)
        if not m:
            raise Unsupported('global ' + l)
        name, rest = m.groups()
        p = P(re.sub(r', !dbg.*$', '', rest))
        ext = False
        const = False
        internal = False
        while True:
            t = p.next()
            if t == 'external':
                ext = True
            if t in ('private', 'internal'):
                internal = True
            if t == 'constant':
                const = True
                break
            if t == 'global':
                break
            if t == 'alias':
                raise Unsupported('alias')
            if t == 'thread_local':
                pass
        ty = self.ty(p)
        init = None
        if not ext:
            init = self.val(p, ty)
        self.globals[name] = dict(ty=ty, init=init, const=const, ext=ext, internal=internal)


class Ins:
    __slots__ = ('op', 'dst', 'a', 'line', 'text')

    def __init__(self, op, dst, a, line, text):
        self.op, self.dst, self.a, self.line, self.text = op, dst, a, line, text


class Func:
    def __init__(self, mod, head, body):
        self.mod = mod
        m = re.search(r'(@[\w.$]+)\((.*)\)[^()]*(?:\{|#|!|local|unnamed)', head)
        pre = head[:m.start()]
        self.internal = ' internal ' in pre + ' '
        self.name = m.group(1)
        # return type: last type token before name
        p = P(pre)
        toks = [t for t in p.t if t not in PATTRS and t not in ('define', 'internal', 'hidden', 'protected')]
        self.ret = mod.ty(P(' '.join(toks)))
        args = head[m.start():]
        args = args[args.index('(') + 1:]
        # match closing paren
        d = 1
        k = 0
        while d:
            if args[k] == '(':
                d += 1
            if args[k] == ')':
                d -= 1
            k += 1
        args = args[:k - 1]
        self.params = []
        p = P(args)
        while p.peek():
            if p.accept('...'):
                self.params.append((None, '...'))
                break
            t = mod.ty(p)
            while p.peek() in PATTRS or p.peek() in ('align', 'dereferenceable', 'byval', 'sret'):
                x = p.next()
                if x == 'align':
                    p.next()
                if x in ('byval', 'sret', 'dereferenceable'):
                    raise Unsupported('byval param in ' + self.name)
            n = p.next()
            self.params.append((t, n))
            p.accept(',')
        self.blocks = {}
        self.order = []
        cur = None
        for l in body:
            l0 = l
            if not l.strip() or l.strip().startswith(';'):
                continue
            m = re.match(r'([-\w.$]+|"[^"]+"):', l)
            if m and not l.startswith(' '):
                cur = m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = '0'
                self.blocks[cur] = []
                self.order.append(cur)
            if l.strip().startswith(']') or (self.blocks[cur] and self.blocks[cur][-1].op == 'switch_open'):
                ins = self.blocks[cur][-1]
                if l.strip().startswith(']'):
                    ins.op = 'switch'
                    mm = re.search(r'!dbg (!\d+)', l)
                    if mm:
                        ins.line = mod.loc.get(mm.group(1), 0)
                else:
                    mm = re.match(r'\s*i\d+ (-?\d+), label %([-\w.$]+|"[^"]+")', l)
                    ins.a[3].append((int(mm.group(1)), mm.group(2)))
                continue
            ins = self.parse_ins(l)
            if ins:
                self.blocks[cur].append(ins)
        self.analyse()

    def parse_ins(self, l):
        mod = self.mod
        line = 0
        m = re.search(r', !dbg (!\d+)', l)
        if m:
            line = mod.loc.get(m.group(1), 0)
        s = re.sub(r'(, ![\w.]+ ![\w.]+)+\s*$', '', l).strip()
        if 'llvm.dbg.' in s or 'llvm.lifetime' in s:
            return None
        dst = None
        m = re.match(r'(%[-\w.$]+|%"[^"]+") = (.*)$', s)
        if m:
            dst, s = m.groups()
        p = P(s)
        op = p.next()
        T_, V = mod.ty, mod.val

        def mkI(op, *a):
            return Ins(op, dst, a, line, l.strip())
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = T_(p)
            a = V(p, t)
            p.expect(',')
            b = V(p, t)
            return mkI('bin', op, t, a, b, fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('fast', 'contract', 'nnan', 'ninf', 'nsz', 'arcp', 'reassoc', 'afn'):
                raise Unsupported('fast math')
            t = T_(p)
            a = V(p, t)
            p.expect(',')
            b = V(p, t)
            return mkI('fbin', op, t, a, b)
        if op == 'fneg':
            t = T_(p)
            return mkI('fneg', t, V(p, t))
        if op in ('icmp', 'fcmp'):
            pr = p.next()
            t = T_(p)
            a = V(p, t)
            p.expect(',')
            b = V(p, t)
            return mkI(op, pr, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = T_(p)
            a = V(p, t)
            p.expect('to')
            return mkI('cast', op, t, a, T_(p))
        if op == 'load':
            if p.accept('volatile'):
                pass
            t = T_(p)
            p.expect(',')
            T_(p)
            return mkI('load', t, V(p, PTR))
        if op == 'store':
            p.accept('volatile')
            t = T_(p)
            v = V(p, t)
            p.expect(',')
            T_(p)
            return mkI('store', t, v, V(p, PTR))
        if op == 'alloca':
            t = T_(p)
            n = ('c', 1)
            nt = IntTy(64)
            if p.accept(','):
                if p.peek() != 'align':
                    nt = T_(p)
                    n = V(p, nt)
            return mkI('alloca', t, nt, n)
        if op == 'getelementptr':
            p.accept('inbounds')
            t = T_(p)
            p.expect(',')
            T_(p)
            base = V(p, PTR)
            idx = []
            while p.accept(','):
                it = T_(p)
                idx.append((it, V(p, it)))
            return mkI('gep', t, base, idx)
        if op == 'phi':
            t = T_(p)
            inc = []
            while p.accept('['):
                v = V(p, t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b[1:]))
                p.accept(',')
            return mkI('phi', t, inc)
        if op == 'select':
            T_(p)
            c = V(p, IntTy(1))
            p.expect(',')
            t = T_(p)
            a = V(p, t)
            p.expect(',')
            T_(p)
            return mkI('select', t, c, a, V(p, t))
        if op == 'br':
            if p.accept('label'):
                return mkI('br', p.next()[1:])
            T_(p)
            c = V(p, IntTy(1))
            p.expect(',')
            p.expect('label')
            a = p.next()[1:]
            p.expect(',')
            p.expect('label')
            return mkI('condbr', c, a, p.next()[1:])
        if op == 'switch':
            t = T_(p)
            v = V(p, t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:]
            p.expect('[')
            cases = []
            return Ins('switch_open', dst, [t, v, d, cases], line, l.strip())
        if op == 'ret':
            t = T_(p)
            if t.k == 'void':
                return mkI('ret', t, None)
            return mkI('ret', t, V(p, t))
        if op == 'unreachable':
            return mkI('unreachable')
        if op in ('call', 'tail', 'notail', 'musttail'):
            if op != 'call':
                p.next()
            while p.peek() in PATTRS:
                p.next()
            # return type, possibly with a function type
            rt = T_(p)
            if p.peek() == '(':
                # variadic function type (..., ...)
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
            callee = V(p, PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = T_(p)
                while p.peek() in PATTRS or p.peek() == 'align':
                    if p.next() == 'align':
                        p.next()
                args.append((t, V(p, t)))
                p.accept(',')
            return mkI('call', rt, callee, args)
        if op in ('freeze',):
            t = T_(p)
            return mkI('freeze', t, V(p, t))
        if op in ('extractvalue', 'insertvalue'):
            t = T_(p)
            a = V(p, t)
            p.expect(',')
            if op == 'extractvalue':
                return mkI(op, t, a, int(p.next()))
            t2 = T_(p)
            b = V(p, t2)
            p.expect(',')
            return mkI(op, t, a, t2, b, int(p.next()))
        return mkI('unsupported', op)

    # -------- control flow
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'condbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x for _, x in t.a[3]]
        return []

    def analyse(self):
        entry = self.order[0]
        self.entry = entry
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                preds[s].append(b)
        # reachable
        reach = []
        st = [entry]
        seen = set()
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            reach.append(b)
            st += self.succs(b)
        dom = {b: set(seen) for b in seen}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in seen or b == entry:
                    continue
                ps = [dom[q] for q in preds[b] if q in seen]
                nd = set.intersection(*ps) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in seen:
            for s in self.succs(b):
                if s in dom[b]:
                    body = {s}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [q for q in preds[x] if q in seen]
                    self.loops.setdefault(s, set()).update(body)
        # irreducibility check: retreating edges must go to a dominator
        color = {}

        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            color[b] = 1
            while stack:
                x, it = stack[-1]
                for s in it:
                    if color.get(s) == 1 and s not in dom[x]:
                        raise Unsupported('irreducible control flow in ' + self.name)
                    if s not in color:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[x] = 2
                    stack.pop()
        dfs(entry)
        self.loop_depth = {h: sum(1 for o in self.loops.values() if h in o) for h in self.loops}
