"""PFM files (C17, and the PFM part of C19 and C22)."""
from specs.stream import *


class Pfm(Client):
    fmt = 'PFM'
    flags = ('ghost:fresh',)
    src, struct = 'lib/image/pfm.c', 'struct pfm_context'
    state = {'endianness_scale': F32T, 'format': IntTy(8), 'header_consumed': IntTy(8)}
    known = ('f',)

    def __init__(self, *a, **kw):
        Client.__init__(self, *a, **kw)
        self.S.defs.append(Stream.comments)
        self.j0, self.i0 = var('pixelrow', 0, U64), var('pixelcol', 0, U64)
        self.left = var('framesleft', 0, None)

    # the header at p: where it ends, what it says, whether it is one
    def hdr(self, p):
        S = self.S
        a = S.ws(add(p, I(2)))
        b = S.cm(a)
        q1 = S.ws(b)
        q2 = S.ws(S.numend(q1))
        q3 = S.ws(S.numend(q2))
        e = S.numend(q3, 'f')
        f = S.at(add(p, ONE))
        ok = And(lt(add(p, ONE), S.N), eq(S.at(p), I(ord('P'))), Or(eq(f, I(ord('f'))), eq(f, I(ord('F')))), lt(a, S.N), ne(b, I(-1)),
                 lt(q1, S.N), S.numok(q1), lt(q2, S.N), S.numok(q2), lt(q3, S.N), S.numok(q3, 'f'), lt(e, S.N), isspace(S.at(e)))
        return dict(ok=ok, w=S.numval(q1), h=S.numval(q2), end=add(e, ONE), color=eq(f, I(ord('F'))), scale=S.fnum(q3), at=(p, add(p, ONE), e))

    def header(self, st, p=ZERO):
        hd = self.hdr(p)
        for q in hd['at']:
            self.S.facts(st, q)
        return hd

    def opened_state(self, st):
        st.ghost['fresh'] = TRUE
        st.ghost['raster'] = st.ghost['pos']

    def fresh_ghosts(self, st):
        self.S.set(st, 'fresh', bvar('atraster'))

    def keep(self, st):
        return [le(st.ghost['raster'], self.S.N)]

    def inv(self, st, val):
        g = st.ghost
        h0 = self.hdr(ZERO)
        F, fresh, c = g['failed'], g['fresh'], val['header_consumed']
        scale0 = h0['scale']
        fmt = self.S.at(ONE)
        return And(le(c, ONE), Or(F, And(Iff(ne(c, ZERO), fresh), Implies(fresh, And(eq(g['pos'], g['raster']), eq(val['format'], fmt), fsame(val['endianness_scale'], scale0), Or(eq(fmt, I(102)), eq(fmt, I(70))))))))

    def frame(self, g, p, fresh):
        """the frame that starts at p: raster start, color, scale, whether there is one, where it ends"""
        h0, hp = self.hdr(ZERO), self.hdr(p)
        r = ite(fresh, p, hp['end'])
        color = Or(And(fresh, h0['color']), And(Not(fresh), hp['color']))
        scale_ = fite(fresh, h0['scale'], hp['scale'])
        n = mul(g['W'], g['H'])
        end = add(r, scale(ite(color, scale(n, 3), n), 4))
        ok = Or(fresh, And(hp['ok'], eq(hp['w'], g['W']), eq(hp['h'], g['H'])))
        return dict(start=r, color=color, little=fcmp('lt', scale_, fconst(32, 0)), end=end, ok=ok, over=And(Not(fresh), ge(p, self.S.N), Not(self.S.ioerr)))

    def before(self, st):
        g = st.ghost
        self.header(st, g['p0'])
        fresh = self.known_(st, g['fresh'])
        g['frame'] = fr = self.frame(g, g['p0'], fresh)
        color = fr['color'] = self.known_(st, fr['color'])
        n = mul(g['W'], g['H'])
        fr['end'] = add(fr['start'], scale(scale(n, 3) if color is TRUE else n if color is FALSE else ite(color, scale(n, 3), n), 4))

    def known_(self, st, b):
        d = self.eng.decide(st, b)
        return b if d is None else Bc(d)

    def pixel(self, st):
        """the value of the pixel (j0, i0) of the file's raster"""
        g = st.ghost
        S, fr = self.S, g['frame']
        k = add(mul(self.j0, g['W']), self.i0)
        gray = add(fr['start'], scale(k, 4))
        rgb = add(fr['start'], scale(k, 12))
        three = fconst(32, 0x40400000)

        def mean(big):
            a, b, c = (S.f32(add(rgb, I(4 * n)), big) for n in range(3))
            return fop('fdiv', 32, fop('fadd', 32, fop('fadd', 32, a, b), c), three)
        return [(And(fr['color'] if col else Not(fr['color']), fr['little'] if not big else Not(fr['little'])), mean(big) if col else S.f32(gray, big)) for col in (0, 1) for big in (0, 1) if fr['color'] is not (FALSE if col else TRUE)]

    def index(self, g):
        """its place in the image"""
        return add(mul(sub(sub(g['H'], ONE), self.j0), g['W']), self.i0)

    def inside(self, g):
        return And(lt(self.j0, g['H']), lt(self.i0, g['W']))

    def right(self, st, val):
        """val is the pixel (j0, i0)"""
        return And(*[Implies(c, fsame(val, v)) for c, v in self.pixel(st)])

    def pix_tmpl(self, ctx):
        g = ctx.st.ghost
        if g.get('op') != 'read':
            return
        H, kinds = ctx.head, ctx.info['kinds']
        n = self.index(g)
        ints = [v for v in ctx.ints() if kinds[v] == 'i64']
        if not ints:
            return
        outer = {v: t for v, t in ctx.outer_ints().items() if t.op == 'P'}
        P = H.get('ghost:pos')
        fr = g['frame']
        for v in ints:
            rows = [('', H[v], ONE), ('desc', sub(g['H'], H[v]), ZERO)]
            for tag, j, _ in rows:
                if P is not None:
                    for c in (4,) if fr['color'] is FALSE else (12,) if fr['color'] is TRUE else (4, 12):
                        yield 'row%s%d:%s' % (tag, c, v), eq(P, add(fr['start'], scale(mul(j, g['W']), c)))
                for arr in ctx.arrays():
                    if kinds[arr] == 'AF32':
                        yield 'rows%s:%s:%s' % (tag, arr, v), Implies(And(self.inside(g), lt(self.j0, j)), self.right(ctx.st, select(H[arr], n)))
                        # elements of the row in hand
                        for u, t in outer.items():
                            if 'ghost' in u or 'mem:' in u:
                                continue
                            if tag == '':
                                for tag2, j2 in (('', t), ('desc', sub(sub(g['H'], ONE), t)), ('desc1', sub(g['H'], t))):
                                    if P is not None:
                                        for c in (4,) if fr['color'] is FALSE else (12,) if fr['color'] is TRUE else (4, 12):
                                            yield 'cell%s%d:%s:%s' % (tag2, c, v, u), eq(P, add(fr['start'], scale(add(mul(j2, g['W']), H[v]), c)))
                                    yield 'cells%s:%s:%s:%s' % (tag2, arr, v, u), Implies(And(self.inside(g), Or(lt(self.j0, j2), And(eq(self.j0, j2), lt(self.i0, H[v])))), self.right(ctx.st, select(H[arr], n)))

    def client_tmpl(self, ctx, F):
        H, E = ctx.head, ctx.ent
        if 'ghost:fresh' not in H:
            return
        fresh = H['ghost:fresh']
        yield 'raster', Or(F, Implies(fresh, eq(H['ghost:pos'], E['ghost:pos'])))
        for v in H:
            if v.startswith('mem:'):
                if H[v].sort == 'I':
                    yield 'opened:' + v, Or(F, Implies(fresh, eq(H[v], E[v])))
                elif H[v].sort == 'F32':
                    yield 'opened:' + v, Or(F, Implies(fresh, fsame(H[v], E[v])))

    def tmpl(self, ctx, P, E0):
        g = ctx.st.ghost
        if 'W' not in g or g.get('op') != 'seek':
            return
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        # samples of a frame skipped in several steps, as long as that works
        n = scale(mul(g['W'], g['H']), 4)
        for v in ctx.ints():
            if kinds[v] == 'i32' and not v.startswith('mem:'):
                f = eq(P, add(E0, mul(sub(E[v], H[v]), n)))
                yield 'skip:' + v, f
                yield 'nonneg:' + v, ge(H[v], ZERO)
                for b in H:
                    if kinds.get(b) in ('b', 'i8') and b[0] == '%':
                        good = H[b] if H[b].sort == 'B' else ne(H[b], ZERO)
                        yield 'skip:%s:%s' % (v, b), Implies(good, f)
                        yield 'short:%s:%s' % (v, b), Or(good, lt(self.S.N, add(E0, mul(E[v], n))))
        for b in H:
            if kinds.get(b) in ('b', 'i8') and b[0] == '%':
                good = H[b] if H[b].sort == 'B' else ne(H[b], ZERO)
                if 'ghost:seekfail' in H:
                    yield 'nofail:' + b, Implies(good, Not(H['ghost:seekfail']))
                for v in ctx.ints():
                    if kinds[v] == 'i32' and v.startswith('mem:/'):
                        yield 'noerror:%s:%s' % (b, v), Implies(good, eq(H[v], E[v]))
                        yield 'invalid:%s:%s' % (b, v), Or(good, eq(H[v], I(self.cx.L.const['RDEINVAL'])))
                        if 'ghost:seekfail' in H and 'ghost:err' in H:
                            yield 'moving:%s:%s' % (b, v), Or(good, And(H['ghost:seekfail'], eq(self.eng.sview(ctx.st, VInt(32, H[v])), neg(H['ghost:err'])), ge(H['ghost:err'], ONE)))
        # the private state behind v frames
        if self.mode == 'all' or 'n' not in g:
            return
        fields = {'mem:%s@%d' % (self.priv[0], off): f for f, (off, n) in self.priv[1].items()}
        for v in ctx.ints():
            if kinds[v] != 'i64' or v.startswith('ghost:') or v in fields:
                continue
            first = And(g['fresh'], eq(H[v], ZERO))
            for m, f in fields.items():
                if m not in H:
                    continue
                if f == 'header_consumed':
                    yield 'consumed:%s' % v, And(Iff(ne(H[m], ZERO), first), ge(H[m], ZERO), le(H[m], ONE))
                else:
                    yield 'unread:%s:%s' % (f, v), Implies(first, fsame(H[m], E[m]) if H[m].sort == 'F32' else eq(H[m], E[m]))

    def read_ok(self, st, e, img):
        g = st.ghost
        fr, F = g['frame'], g['failed']
        self.oblige(st, 'a frame is read only if its header is one, of the same size, and its raster is complete; the stream is then behind it',
                    Or(F, And(eq(e, ZERO), fr['ok'], le(fr['end'], self.S.N), eq(g['pos'], fr['end']))))
        o = st.objs[img.obj]
        good = o.stride == 4 and 0 in o.fields and o.fields[0][1] == 'F32'
        v = select(o.fields[0][2], self.index(g)) if good else None
        self.oblige(st, 'every pixel is its sample, or the mean of its three, in the byte order of the scale, the last row of the file first',
                    Or(F, Implies(self.inside(g), self.right(st, v))) if good else FALSE)
        self.S.set(st, 'fresh', FALSE)

    def read_bad(self, st, e):
        g = st.ghost
        fr, F = g['frame'], g['failed']
        C = self.cx.L.const
        self.oblige(st, 'reading ends without error at the end of the file, and otherwise fails as invalid only if the header or the raster is',
                    Or(F, And(fr['over'], eq(e, ZERO)), And(Not(fr['over']), Or(Not(fr['ok']), gt(fr['end'], self.S.N)), eq(e, I(C['RDEINVAL'])))))

    def it_fact(self, g, k):
        it = lambda x: select(self.it, x)
        prev = sub(k, ONE)
        fp = self.frame(g, it(prev), And(g['fresh'], eq(prev, ZERO)))
        fk = self.frame(g, it(k), And(g['fresh'], eq(k, ZERO)))
        whole = le(fk['end'], self.S.N)
        ok = And(fk['ok'], whole)
        return And(Implies(eq(k, ZERO), eq(it(k), g['p0'])), Implies(ge(k, ONE), eq(it(k), fp['end'])),
                   Implies(And(ge(k, ZERO), lt(k, self.left)), ok), Implies(eq(k, self.left), Not(ok)),
                   # complete frames: where the stream is skipped by seeking its end is not met
                   Implies(And(self.S.seekable, ge(k, ZERO), fk['ok']), whole))

    def tmpl_left(self, ctx):
        return ()

    def seek_ok(self, st, e):
        g = st.ghost
        n, F = g['n'], g['failed']
        self.oblige(st, 'seeking succeeds only if so many frames remain, and leaves the stream behind them', Or(F, And(eq(e, ZERO), le(n, self.left), eq(g['pos'], select(self.it, n)))))
        if g['cb']:
            self.oblige(st, 'the progress callback was called once per frame skipped', eq(g['calls'], n))
        self.S.set(st, 'fresh', And(g['fresh'], eq(n, ZERO)))

    def seek_bad(self, st, e):
        g = st.ghost
        C = self.cx.L.const
        n, F = g['n'], g['failed']
        fr = self.frame(g, select(self.it, self.left), And(g['fresh'], eq(self.left, ZERO)))
        if g.get('allocfail'):
            self.oblige(st, 'a failed allocation is reported', eq(e, I(C['RDENOMEM'])))
            return
        if g['cb']:
            self.oblige(st, 'the progress callback was called for every frame skipped', Or(F, g['seekfail'], eq(g['calls'], self.left)))
        self.oblige(st, 'seeking fails only if there are not so many frames (or moving the stream fails), without error at the end of the file, otherwise as invalid',
                    Or(F, And(g['seekfail'], eq(e, neg(g['err']))), And(lt(self.left, n), Not(g['seekfail']), eq(e, ite(fr['over'], ZERO, I(C['RDEINVAL']))))))
        self.S.set(st, 'fresh', FALSE)      # the end was met behind a frame

    def templates(self, ctx):
        yield from Client.templates(self, ctx)
        g = ctx.st.ghost
        if g.get('op') == 'seek' and 'n' in g:
            for v in ctx.ints():
                if ctx.info['kinds'][v] == 'i64' and not v.startswith('ghost'):
                    yield 'left:' + v, Or(g['failed'], le(ctx.head[v], self.left))


CASES = (('the first frame, gray', lambda c, st: And(st.ghost['fresh'], eq(c.S.at(ONE), I(102)))),
         ('the first frame, color', lambda c, st: And(st.ghost['fresh'], eq(c.S.at(ONE), I(70)))),
         ('a later frame, gray', lambda c, st: And(Not(st.ghost['fresh']), eq(c.S.at(add(st.ghost['pos'], ONE)), I(102)))),
         ('a later frame, color', lambda c, st: And(Not(st.ghost['fresh']), eq(c.S.at(add(st.ghost['pos'], ONE)), I(70)))),
         ('no later frame', lambda c, st: And(Not(st.ghost['fresh']), ne(c.S.at(add(st.ghost['pos'], ONE)), I(102)), ne(c.S.at(add(st.ghost['pos'], ONE)), I(70)))))


def tasks(tier):
    # cases: together they cover every state
    return open_tasks() + op_tasks(Pfm, b'pfm', 'read', cases=CASES[:-1]) + op_tasks(Pfm, b'pfm', 'read', cases=CASES[-1:], exits=('noread', 'closed'))


def open_tasks():
    return op_tasks(Pfm, b'pfm', 'open')


SEEKS = tuple(('%s frame, %s' % ('the first' if a else 'a later', 'with callback' if b else 'without callback'), lambda c, st, a=a: st.ghost['fresh'] if a else Not(st.ghost['fresh']), b)
              for a in (True, False) for b in (True, False))


def seek_tasks():
    return op_tasks(Pfm, b'pfm', 'seek', cases=SEEKS)


def safety_tasks():
    """every state, also after failures: of the invariant only the range of the flag remains"""
    return op_tasks(Pfm, b'pfm', 'seek', TRUE, cases=tuple(('with callback' if b else 'without callback', lambda c, st: TRUE, b) for b in (True, False))) + op_tasks(Pfm, b'pfm', 'read', TRUE) + open_tasks()
