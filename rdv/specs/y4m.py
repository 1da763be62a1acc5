"""YUV4MPEG2 files (C18, and the Y4M part of C19 and C22)."""
from specs.stream import *

KINDS = ('none', 'mono', '420', '411', '422', '444', '444alpha', 'other')
DEFAULT = b'420jpeg\0\0\0'


class Y4m(Client):
    fmt = 'Y4M'
    src, struct = 'lib/image/y4m.c', 'struct y4m_context'
    state = {'depth': IntTy(32), 'y_plane_size': IntTy(64), 'uv_plane_size': IntTy(64), 'seekable': IntTy(8)}
    known = ('f', 'buf')

    def __init__(self, *a, **kw):
        Client.__init__(self, *a, **kw)
        self.eng.externs['fgetc'] = self.eng.externs['getc'] = self.x_fgetc
        self.eng.externs['strcmp'] = self.x_strcmp
        self.eng.externs['strtoul'] = self.eng.externs['__isoc23_strtoul'] = self.x_strtoul
        self.left = var('framesleft', 0, None)
        self.y, self.uv, self.depth = var('lumasize', 0, U64), var('chromasize', 0, U64), var('bits', 8, 16)

    # ------------------------------------------------------------ the header
    # from p on: is there one, where does it end, where are the last width, height and colorspace (-1: none)
    def hok(self, p):
        return bapp('hok', p)

    def hend(self, p):
        return app('hend', p, lo=0, hi=LONG_MAX)

    def hlast(self, k, p):
        return app('hlast' + k, p, lo=-1, hi=LONG_MAX)

    def tail(self, p, r, k=None, q=None):
        """the header from p on is a token and the header from r on"""
        out = [Iff(self.hok(p), self.hok(r)), eq(self.hend(p), self.hend(r))]
        for x in 'WHC':
            n = self.hlast(x, r)
            out.append(eq(self.hlast(x, p), ite(eq(n, I(-1)), q, n) if x == k else n))
        return out

    def x_fgetc(self, eng, st, a, ins):
        """in the header: one case per kind of token, each with the defining equations of the ghost functions"""
        S = self.S
        if st.ghost.get('header') != 'open':
            return S.x_fgetc(eng, st, a, ins)
        S.stream(eng, st, a[0], 'fgetc')
        p = st.ghost['pos']
        more, end = S.fork(eng, st, lt(p, S.N))
        out = []
        if end:
            try:
                end.assume(Not(self.hok(p)))
                S.set(end, 'eof', TRUE)
                out.append((end, VInt(32, I(EOF))))
            except Dead:
                pass
        rest = more
        for c in ('\n', ' ', 'W', 'H', 'C', None):
            if rest is None:
                break
            if c is None:
                s, rest = rest, None
            else:
                s, rest = S.fork(eng, rest, eq(S.at(p), I(ord(c))))
            if s is None:
                continue
            q = S.ws(add(p, ONE))
            if c == '\n':
                fs = [self.hok(p), eq(self.hend(p), add(p, ONE))] + [eq(self.hlast(x, p), I(-1)) for x in 'WHC']
            elif c == ' ':
                fs = self.tail(p, add(p, ONE))
            else:
                ok = And(lt(q, S.N), S.numok(q)) if c in ('W', 'H') else lt(q, S.N)
                r = S.numend(q) if c in ('W', 'H') else add(q, mn(S.slen(q), I(9))) if c == 'C' else add(q, S.slen(q))
                fs = [Implies(Not(ok), Not(self.hok(p)))] + [Implies(ok, f) for f in self.tail(p, r, c, q)]
            try:
                for f in fs:
                    s.assume(f)
            except Dead:
                continue
            S.set(s, 'pos', add(p, ONE))
            ss = [s]
            if c == '\n':
                # one case per presence of a width and a height
                for x in 'WH':
                    ss = [u for t in ss for u in S.fork(eng, t, eq(self.hlast(x, I(10)), I(-1))) if u]
            out += [(u, VInt(32, I(ord(c)) if c else S.at(p))) for u in ss]
        if not out:
            raise Dead()
        return out

    def x_strcmp(self, eng, st, a, ins):
        for p in a[:2]:
            externs.chk_str(eng, st, p, 'strcmp')
            o = st.objs[p.obj]
            if o.kind == 'stack' and not o.meta.get('string') and literal(st, p) is None:
                return self.S.strn(eng, st, a, None, ins)
        return externs.x_strcmp(eng, st, a, ins)

    def x_strtoul(self, eng, st, a, ins):
        """one case per value of interest"""
        v = self.S.x_strtoul(eng, st, a, ins)
        if not isinstance(v, VInt) or cval(v.p) is not None:
            return v
        out, rest = [], st
        for d in range(8, 17):
            if rest is None:
                break
            s, rest = self.S.fork(eng, rest, eq(v.p, I(d)))
            if s:
                out.append((s, VInt(64, I(d))))
        if rest:
            out.append((rest, v))
        return out

    def csp(self, k):
        """byte k of the colorspace"""
        q = self.hlast('C', I(10))
        L = mn(self.S.slen(q), I(9))
        t = ite(lt(I(k), L), self.S.at(add(q, I(k))), ZERO)
        return {'none': I(DEFAULT[k])}.get(self.kind) or (t if self.kind else ite(eq(q, I(-1)), I(DEFAULT[k]), t))

    kind = None

    def is_(self, s, end=False):
        return And(*[eq(self.csp(k), I(ord(c))) for k, c in enumerate(s + ('\0' if end else ''))])

    def kinds(self):
        """what colorspaces there are: name -> (condition, chroma size as a function of the size, where the depth is)"""
        w2, h2, w4 = (lambda w: idiv(add(w, ONE), I(2))), (lambda h: idiv(add(h, ONE), I(2))), (lambda w: idiv(add(w, I(3)), I(4)))
        alpha = self.is_('444alpha', True)
        return {'mono': (self.is_('mono'), lambda w, h: ZERO), '420': (self.is_('420'), lambda w, h: scale(mul(w2(w), h2(h)), 2)),
                '411': (self.is_('411'), lambda w, h: scale(mul(w4(w), h), 2)), '422': (self.is_('422'), lambda w, h: scale(mul(w2(w), h), 2)),
                '444alpha': (alpha, lambda w, h: scale(mul(w, h), 3)), '444': (And(self.is_('444'), Not(alpha)), lambda w, h: scale(mul(w, h), 2))}

    def magic(self):
        return And(ge(self.S.N, I(10)), *[eq(self.S.at(I(k)), I(b)) for k, b in enumerate(b'YUV4MPEG2 ')])

    def restrict(self, st, kind):
        """only files of one kind of colorspace ('none': the default one; 'other': none of those supported; None: no header)"""
        self.kind = kind
        S = self.S
        if kind is None:
            st.assume(Or(Not(self.magic()), Not(self.hok(I(10)))))
            return
        st.assume(self.magic())
        st.assume(self.hok(I(10)))
        c = self.hlast('C', I(10))
        if kind == 'none':
            st.assume(eq(c, I(-1)))
            return
        st.assume(ne(c, I(-1)))
        ks = self.kinds()
        if kind == 'other':
            for b, _ in ks.values():
                st.assume(Not(b))
        else:
            st.assume(ks[kind][0])

    def start(self, st):
        Client.start(self, st)
        st.ghost['header'] = 'open'
        if self.mode == 'open':
            self.restrict(st, self.case[0])
        else:
            self.restrict(st, 'none')

    def header(self, st, p=ZERO):
        kind = self.kind
        p = I(10)
        def num(k):
            none = eq(self.hlast(k, p), I(-1))
            d = self.eng.decide(st, none)
            n = alias(self.eng, st, self.S.numval(self.hlast(k, p)))
            return ite(none, ZERO, n) if d is None else ZERO if d else n
        w, h = num('W'), num('H')
        if kind in (None, 'other'):
            return dict(ok=FALSE, w=w, h=h, end=ZERO, sized=And(Bc(kind is not None), ne(w, ZERO), ne(h, ZERO)), big=gt(scale(mul(w, h), 4), I(self.cx.L.const['PIXEL_MAX'])))
        for x in (w, h):
            st.assume(And(ge(x, ZERO), le(x, I(U64))))
        k = '420' if kind == 'none' else kind
        uv = self.kinds()[k][1](w, h)
        d4 = self.csp(4)
        digits = lambda: decimal([self.csp(j) for j in range(4, 10 - 1)] + [ZERO])
        if k == 'mono':
            depth = ite(isdigit(d4), digits(), I(8))
        else:
            depth = ite(And(eq(self.csp(3), I(ord('p'))), isdigit(d4)), digits(), I(8))
        depth = self.value(st, depth)
        bw = self.bw(st, depth)
        sized = And(ne(w, ZERO), ne(h, ZERO))
        y = mul(w, h)
        self.hd = dict(chroma=self.kinds()[k][1], ok=And(sized, ge(depth, I(8)), le(depth, I(16))), w=w, h=h, end=self.hend(p), sized=sized, y=mul(y, bw), uv=mul(uv, bw), depth=depth,
                       big=Or(gt(scale(y, 4), I(self.cx.L.const['PIXEL_MAX'])), gt(mul(add(y, uv), bw), I(U64))))
        return self.hd

    def monotone(self, st, a, w, b, h):
        """an instance of a lemma"""
        s2 = st.clone()
        s2.pc, s2.pcset, s2.bounds = [], set(), {}
        x = [var('lemma.%s' % c, 0, None) for c in 'awbh']
        self.oblige(s2, 'lemma: products of smaller sizes are smaller', Implies(And(le(x[0], x[1]), le(x[2], x[3])), le(mul(x[0], x[2]), mul(x[1], x[3]))), 'lemma')
        st.assume(Implies(And(ge(a, ZERO), ge(b, ZERO), le(a, w), le(b, h)), le(mul(a, b), mul(w, h))))

    def value(self, st, t):
        """a constant, if the state knows it"""
        if cval(t) is not None:
            return t
        for d in range(8, 17):
            if self.eng.decide(st, eq(t, I(d))) is True:
                return I(d)
        return t

    def bw(self, st, depth):
        return I(2 if cval(depth) > 8 else 1) if cval(depth) is not None else ite(gt(depth, I(8)), I(2), ONE)

    # ------------------------------------------------------------ the state
    def opened_state(self, st):
        st.ghost['header'] = 'done'
        w, h, d = st.ghost['W'], st.ghost['H'], self.hd['depth']
        bw = self.bw(st, d)
        st.ghost.update(y=mul(mul(w, h), bw), uv=mul(self.hd['chroma'](w, h), bw), depth=d)
        for a in (w, idiv(add(w, ONE), I(2)), idiv(add(w, I(3)), I(4))):
            for b in (h, idiv(add(h, ONE), I(2))):
                if (a, b) != (w, h):
                    self.monotone(st, a, w, b, h)
        if self.mode == 'open':
            self.established(st)

    def established(self, st):
        eng = self.eng
        img = self.opened_img
        self.priv = self.context(st, img)
        self.oblige(st, 'opening establishes the representation invariant: sizes of the planes, depth, and room for the larger plane that is read', self.inv(st, self.values(st)), 'inv')

    def inv(self, st, val):
        g = st.ghost
        b = eng_ptr(self, st, 'buf')
        good = isinstance(b, VPtr) and b.obj is not None and st.objs[b.obj].live
        if not good:
            return FALSE
        size = st.objs[b.obj].size
        w, h = g['W'], g['H']
        n = mul(w, h)
        y, uv, s = val['y_plane_size'], val['uv_plane_size'], val['seekable']
        d = g['depth']
        return And(eq(b.off, ZERO), eq(val['depth'], d), eq(y, g['y']), eq(uv, g['uv']), ge(d, I(8)), le(d, I(16)), eq(g['y'], n if cval(d) == 8 else scale(n, 2) if cval(d) else ite(eq(d, I(8)), n, scale(n, 2))),
                   le(add(y, uv), I(U64)), le(s, ONE), ge(size, y), Or(And(eq(s, ONE), self.S.seekable, le(add(y, uv), I(LONG_MAX))), And(eq(s, ZERO), ge(size, uv))))

    def fresh_ghosts(self, st):
        g = st.ghost
        g.update(y=self.y, uv=self.uv, depth=I(self.depth_) if self.depth_ else self.depth)
        b = eng_ptr(self, st, 'buf')
        st.wobj(b.obj).size = var('bufsize', 0, U64)

    @property
    def depth_(self):
        return self.case[3] if len(self.case) > 3 else None

    # ------------------------------------------------------------ frames
    def frame(self, g, p):
        S = self.S
        nl = S.nl(add(p, I(5)))
        start = add(nl, ONE)
        ok = And(le(add(p, I(5)), S.N), *[eq(S.at(add(p, I(k))), I(b)) for k, b in enumerate(b'FRAME')], ne(nl, I(-1)))
        return dict(ok=ok, start=start, luma=add(start, g['y']), end=add(add(start, g['y']), g['uv']), over=And(ge(p, S.N), Not(S.ioerr)))

    def before(self, st):
        g = st.ghost
        self.S.facts(st, add(g['p0'], I(5)))
        g['frame'] = self.frame(g, g['p0'])

    def pixel(self, st, k):
        S, g = self.S, st.ghost
        d, s = cval(g['depth']), g['frame']['start']
        if d == 8:
            v = S.at(add(s, k))
        else:
            p = add(s, scale(k, 2))
            v = add(S.at(p), scale(S.at(add(p, ONE)), 256))
        return fop('fdiv', 32, i2f(32, v), i2f(32, I((1 << d) - 1)))

    def pix_tmpl(self, ctx):
        g = ctx.st.ghost
        if g.get('op') != 'read':
            return
        for arr in ctx.arrays():
            if ctx.info['kinds'][arr] == 'AF32':
                for v in ctx.ints():
                    if ctx.info['kinds'][v] == 'i64':
                        yield 'pixel:%s:%s' % (arr, v), Implies(lt(self.k0, ctx.head[v]), fsame(select(ctx.head[arr], self.k0), self.pixel(ctx.st, self.k0)))

    def read_ok(self, st, e, img):
        g = st.ghost
        fr = g['frame']
        n = mul(g['W'], g['H'])
        self.oblige(st, 'a frame is read only if it has a header and its luma is complete; the stream is then behind its chroma',
                    And(eq(e, ZERO), fr['ok'], le(fr['luma'], self.S.N), eq(g['pos'], fr['end']), Or(self.S.seekable, le(fr['end'], self.S.N))))
        v = self.image(st, img, self.k0)
        self.oblige(st, 'every pixel is its sample (8 bits, or 16 bits little endian) divided by the largest of the depth',
                    Implies(lt(self.k0, n), fsame(v, self.pixel(st, self.k0))) if v is not None else FALSE)

    def read_bad(self, st, e):
        g = st.ghost
        fr = g['frame']
        C = self.cx.L.const
        moved = And(fr['ok'], le(fr['luma'], self.S.N), g['seekfail'], eq(e, neg(g['err'])))
        self.oblige(st, 'reading ends without error at the end of the stream, and otherwise fails as invalid only if the header or a plane is (or with the error of moving the stream)',
                    Or(And(fr['over'], eq(e, ZERO)), And(Not(fr['over']), Or(Not(fr['ok']), gt(fr['luma'], self.S.N), gt(fr['end'], self.S.N)), eq(e, I(C['RDEINVAL']))), moved))

    # ------------------------------------------------------------ seeking
    def it_fact(self, g, k):
        it = lambda x: select(self.it, x)
        fp, fk = self.frame(g, it(sub(k, ONE))), self.frame(g, it(k))
        ok = And(fk['ok'], le(fk['end'], self.S.N))
        return And(Implies(eq(k, ZERO), eq(it(k), g['p0'])), Implies(ge(k, ONE), eq(it(k), fp['end'])),
                   Implies(And(ge(k, ZERO), lt(k, self.left)), ok), Implies(eq(k, self.left), Not(ok)),
                   Implies(And(self.S.seekable, ge(k, ZERO), fk['ok']), le(fk['end'], self.S.N)))

    def seek_ok(self, st, e):
        g = st.ghost
        n = g['n']
        self.oblige(st, 'seeking succeeds only if so many frames remain, and leaves the stream behind them', And(eq(e, ZERO), le(n, self.left), eq(g['pos'], select(self.it, n))))
        if g['cb']:
            self.oblige(st, 'the progress callback was called once per frame skipped', eq(g['calls'], n))

    def seek_bad(self, st, e):
        g = st.ghost
        C = self.cx.L.const
        n = g['n']
        fr = self.frame(g, select(self.it, self.left))
        if g['cb']:
            self.oblige(st, 'the progress callback was called for every frame skipped', Or(g['seekfail'], eq(g['calls'], self.left)))
        self.oblige(st, 'seeking fails only if there are not so many frames (or moving the stream fails), without error at the end of the stream, otherwise as invalid',
                    Or(And(g['seekfail'], eq(e, neg(g['err']))), And(lt(self.left, n), Not(g['seekfail']), eq(e, ite(fr['over'], ZERO, I(C['RDEINVAL']))))))

    # ------------------------------------------------------------ invariants
    def tmpl(self, ctx, P, E0):
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        g = ctx.st.ghost
        if g.get('header') == 'open':
            yield 'hok', Iff(self.hok(E0), self.hok(P))
            yield 'hend', eq(self.hend(E0), self.hend(P))
            for x in 'WHC':
                yield 'hlast:' + x, Implies(ne(self.hlast(x, P), I(-1)), eq(self.hlast(x, E0), self.hlast(x, P)))
            for v in H:
                if not v.startswith('mem:') or H[v].sort != 'I':
                    continue
                if kinds[v] == 'i64':
                    for x in 'WH':
                        c = self.hlast(x, E0)
                        yield 'size:%s:%s' % (x, v), Implies(eq(self.hlast(x, P), I(-1)), eq(H[v], ite(eq(c, I(-1)), E[v], self.S.numval(c))))
                elif kinds[v] == 'i8' and '@' in v:
                    k = int(v.rsplit('@', 1)[1])
                    c = self.hlast('C', E0)
                    L = mn(self.S.slen(c), I(9))
                    if k <= 9:
                        yield 'token:' + v, Implies(eq(self.hlast('C', P), I(-1)), And(Implies(eq(c, I(-1)), eq(H[v], E[v])), Implies(And(ne(c, I(-1)), le(I(k), L)), eq(H[v], ite(lt(I(k), L), self.S.at(add(c, I(k))), ZERO)))))
        elif g.get('op') == 'seek' and 'n' in g:
            for v in ctx.ints():
                if kinds[v] == 'i64' and not v.startswith('ghost'):
                    yield 'left:' + v, le(H[v], self.left)


def alias(eng, st, t):
    """a variable of the state that is known to be t: spec and code then speak of the same term"""
    seen = set()
    for b in st.pc:
        if b.op in ('eq0', 'le0') and b.a[0].op == 'P':
            for m, c in b.a[0].a:
                for x in m:
                    if x.op == 'var' and len(m) == 2 and x.id not in seen:
                        seen.add(x.id)
                        v = mk('P', (((x,), 1),), 'I')
                        if eng.decide(st, eq(v, t)) is True:
                            return v
    return t


def eng_ptr(c, st, f):
    size, offs = layout.private(c.src, c.struct, (f,), c.cx.task.defs)
    return c.eng.load(st, PTR, VPtr(c.priv[0], I(offs[f][0])), c.cx.anymod(), True)


def open_tasks(stdins=(False, True)):
    out = []
    for stdin in stdins:
        for kind in (None,) + KINDS:
            ex = ('openfail',) if not stdin else ()
            ex += ('invalid',) if kind is None or kind == 'other' else ('invalid', 'opened', 'closed')
            out.append(Task('Y4M: open, close (%s, %s)' % ('standard input' if stdin else 'a named file', {None: 'no header', 'none': 'no colorspace', 'other': 'unknown colorspace'}.get(kind, 'colorspace %s' % kind)),
                            lambda cx, eng, a=stdin, k=kind: run_client(Y4m, cx, eng, b'y4m', a, None, 'open', FALSE, (k,)), drivers=('client',), exits=ex))
    return out


def read_tasks():
    cases = tuple(('%d bits' % d, lambda c, st: TRUE, None, d) for d in range(8, 17))
    return op_tasks(Y4m, b'y4m', 'read', cases=cases)


def seek_tasks():
    cases = tuple(('with callback' if b else 'without callback', lambda c, st: TRUE, b) for b in (True, False))
    return op_tasks(Y4m, b'y4m', 'seek', cases=cases)


def tasks(tier):
    return open_tasks() + read_tasks()
