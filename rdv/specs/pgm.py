"""PGM files (C16, and the PGM part of C19 and C22)."""
from specs.stream import *


class Pgm(Client):
    fmt = 'PGM'
    flags = ('ghost:used',)

    def __init__(self, *a, **kw):
        Client.__init__(self, *a, **kw)
        self.S.defs.append(Stream.comments)

    def header(self, st):
        S = self.S
        b = S.cm(S.ws(I(2)))
        q1 = S.ws(b)
        q2 = S.ws(S.numend(q1))
        q3 = S.ws(S.numend(q2))
        e = S.numend(q3)
        d = S.numval(q3)
        for q in (I(0), I(1), e):
            S.facts(st, q)
        ok = And(ge(S.N, I(2)), eq(S.at(ZERO), I(ord('P'))), eq(S.at(ONE), I(ord('5'))), lt(S.ws(I(2)), S.N), ne(b, I(-1)),
                 lt(q1, S.N), S.numok(q1), lt(q2, S.N), S.numok(q2), lt(q3, S.N), S.numok(q3), lt(e, S.N), isspace(S.at(e)), ge(d, ONE), le(d, I(255)))
        self.depth = d
        return dict(ok=ok, w=S.numval(q1), h=S.numval(q2), end=add(e, ONE))

    def opened_state(self, st):
        st.ghost['used'] = FALSE
        st.ghost['raster'] = st.ghost['pos']

    def pixel(self, st, k):
        return fop('fdiv', 32, i2f(32, self.S.at(add(st.ghost['raster'], k))), i2f(32, self.depth))

    def pix_tmpl(self, ctx):
        if 'raster' not in ctx.st.ghost:
            return
        for arr in ctx.arrays():
            if ctx.info['kinds'][arr] == 'AF32':
                for v in ctx.ints():
                    if ctx.info['kinds'][v] == 'i64':
                        yield 'pixel:%s:%s' % (arr, v), Implies(lt(self.k0, ctx.head[v]), fsame(select(ctx.head[arr], self.k0), self.pixel(ctx.st, self.k0)))

    def client_tmpl(self, ctx, F):
        if 'ghost:used' in ctx.head and 'ghost:pos' in ctx.head:
            yield 'unused', Implies(Not(ctx.head['ghost:used']), eq(ctx.head['ghost:pos'], ctx.ent['ghost:pos']))

    def size(self, st):
        return mul(st.ghost['W'], st.ghost['H'])

    def read_ok(self, st, e, img):
        n = self.size(st)
        self.oblige(st, 'a frame is read only once and only if the raster is complete', And(Not(st.ghost['used']), eq(e, ZERO), le(add(st.ghost['raster'], n), self.S.N)))
        v = self.image(st, img, self.k0)
        self.oblige(st, 'every pixel is its byte divided by the maximum value', Implies(lt(self.k0, n), fsame(v, self.pixel(st, self.k0))) if v is not None else FALSE)
        self.S.set(st, 'used', TRUE)

    def read_bad(self, st, e):
        n = self.size(st)
        C = self.cx.L.const
        self.oblige(st, 'without a frame left reading ends without error, and a short raster is invalid',
                    Or(And(st.ghost['used'], eq(e, ZERO)), And(Not(st.ghost['used']), gt(add(st.ghost['raster'], n), self.S.N), eq(e, I(C['RDEINVAL'])))))
        self.S.set(st, 'used', TRUE)

    def seek_ok(self, st, e):
        n = st.ghost['n']
        self.oblige(st, 'seeking succeeds for no frames, or for the one frame that is left', And(eq(e, ZERO), Or(eq(n, ZERO), And(eq(n, ONE), Not(st.ghost['used'])))))
        if st.ghost['cb']:
            self.oblige(st, 'the progress callback was called once per frame skipped', eq(st.ghost['calls'], n))
        self.oblige(st, 'seeking by zero does not move', Implies(eq(n, ZERO), eq(st.ghost['pos'], st.ghost['p0'])))
        self.S.set(st, 'used', Or(st.ghost['used'], ne(n, ZERO)))

    def seek_bad(self, st, e):
        n, u = st.ghost['n'], st.ghost['used']
        self.oblige(st, 'seeking fails, without error, only beyond the last frame', And(eq(e, ZERO), ge(n, ONE), Or(u, gt(n, ONE))))
        if st.ghost['cb']:
            self.oblige(st, 'the progress callback was called for the frame skipped', eq(st.ghost['calls'], ite(u, ZERO, ONE)))
        self.S.set(st, 'used', TRUE)

    def iterate(self, st):
        pass


def tasks(tier):
    return client_tasks(Pgm, b'pgm')
