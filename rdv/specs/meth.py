"""C06-C09: contracts of the detection methods (RDetectFunc)."""
from task import *
from specs.c02 import read_methods

INT_MAX = (1 << 31) - 1


def unit_iter(ctx_eng, info):
    """(variable, completed iterations) of a loop: an integer variable with unit step"""
    ds = ctx_eng.deltas.get(info['key'], {})
    ent = info.get('E') or {}
    best = None
    for v, hv in info['head'].items():
        if hv.sort != 'I' or v.startswith(('mem:', 'ghost:')) or isinstance(info['kinds'][v], tuple):
            continue
        d = ds.get(v)
        if isinstance(d, T) and cval(d) in (1, -1):
            return v, scale(sub(hv, info['entry_or'][v]), cval(d))
    return best


def nest(ctx):
    """completed-iteration counts of the enclosing cut loops (outermost first), current last"""
    out = []
    for fr in ctx.st.frames:
        for (h, key, info) in fr.loops:
            if info is ctx.info:
                continue
            # enclosing loops: entry values are plain terms of the outer context
            info['entry_or'] = info['entry']
            out.append(unit_iter(ctx.eng, info))
    ctx.info['entry_or'] = ctx.ent
    out.append(unit_iter(ctx.eng, ctx.info))
    return out


def both(ctx, b):
    i = ctx.info
    b = ctx.eng.inst(b, i['head'], i['head'], i['entry'], i['key'])
    ctx.st.assume(b)
    ctx.info['st0'].assume(b)


class Setup:
    """the inputs of a detection method in one of its two calling modes"""

    def __init__(self, cx, eng, mode, coeff=32, inter=64):
        L = cx.L
        self.cx, self.eng, self.mode = cx, eng, mode
        self.cb, self.ib = L.const['sizeof(coeff)'], L.const['sizeof(intermediate)']
        self.ix = L.const['sizeof(rdint_index)']
        self.iw, self.cw = 8 * self.ib, 8 * self.cb
        st = self.st = State()
        w = self.w = var('w', 1, INT_MAX)
        h = self.h = var('h', 1, INT_MAX)
        pm = min(L.const['PIXEL_MAX'], (1 << 63) // self.cb)
        st.assume(le(mul(w, h), I(pm)))
        if mode == 'x':
            self.length, self.n, self.stride, self.dist = w, h, w, ONE
        else:
            self.length, self.n, self.stride, self.dist = h, w, ONE, w
        rg = self.range = var('range', 1, INT_MAX)
        st.assume(lt(scale(rg, 2), self.length))
        f = self.f = eng.new_obj(st, 'f', 'param', scale(mul(w, h), self.cb))
        o = st.objs['f']
        o.writable = False
        o.stride = self.cb
        self.farr = abase('f', 'F%d' % self.cw)
        o.fields[0] = (self.cb, 'F%d' % self.cw, self.farr)
        self.m = sub(self.length, scale(rg, 2))          # number of candidates
        r = self.res = eng.new_obj(st, 'result', 'param', scale(self.m, self.ib))
        o = st.objs['result']
        o.stride = self.ib
        self.rarr = abase('result', 'F%d' % self.iw)
        o.fields[0] = (self.ib, 'F%d' % self.iw, self.rarr)
        # bounds of the candidates
        b = self.bounds = eng.new_obj(st, 'bounds', 'param', I(2 * self.ix))
        self.start, self.end = rg, sub(self.length, rg)
        o = st.objs['bounds']
        o.cells[0] = (self.ix, VInt(8 * self.ix, self.start))
        o.cells[self.ix] = (self.ix, VInt(8 * self.ix, self.end))
        self.k0 = var('k0', 0, INT_MAX)
        st.assume(lt(self.k0, self.m))

    def args(self):
        i64 = lambda p: VInt(64, p)
        return [self.f, i64(self.length), i64(self.n), i64(self.stride), i64(self.dist), i64(self.range), self.res,
                self.bounds, VPtr('bounds', I(self.ix))]

    def F(self, x, y):
        """coefficient of position x on line y"""
        return select(self.farr, add(mul(y, self.stride), mul(x, self.dist)))

    def x0(self):
        return add(self.start, self.k0)

    def frac(self, c, denom):
        return fop('fdiv', self.iw, i2f(self.iw, c), i2f(self.iw, denom))

    def final(self, st, tag, post_k0, retok=True):
        """common postcondition: result[k0] has the value post_k0, nothing else changed"""
        eng = self.eng
        o = st.objs['result']
        v = select(o.fields[0][2], self.k0, eng.decider(st))
        eng.oblige(st, '%s: accumulator of every candidate' % tag, 'post', fsame(v, post_k0), assume=False)
        for i, e in ((0, self.start), (1, self.end)):
            c = st.objs['bounds'].cells.get(i * self.ix)
            ok = c is not None and c[0] == self.ix and isinstance(c[1], VInt)
            eng.oblige(st, '%s: candidate bounds unchanged' % tag, 'post', eq(eng.uview(st, c[1]), e) if ok else FALSE, assume=False)
        eng.oblige(st, '%s: coefficients unchanged' % tag, 'frame', Bc(st.objs['f'].fields[0][2] is self.farr), assume=False)


def method_fn(cx, eng, name):
    tab = []

    def got(st, rv):
        for q, lit, fn, th in read_methods(cx, eng, st, rv, None):
            if lit == name.encode():
                tab.append(fn)
    eng.run(State(), cx.fn('resdet_methods'), [], got)
    if not tab:
        raise Unsupported('method %s not listed' % name)
    f = eng.find(tab[0].name, tab[0].mod)
    if f is None:
        raise Unsupported('implementation of %s not found' % name)
    return f


def sum_templates(S, match, two_level=True):
    """loop invariants of a count over lines (and distances) for each candidate.
    match(x, y, i) is the counted predicate; cnt/tot are its recursive sums."""
    cnt = lambda x, y, j: app('cnt', x, y, j, lo=0)
    tot = lambda x, y: app('tot', x, y, lo=0)
    S.tot, S.cnt = tot, cnt

    def tmpl(ctx):
        its = nest(ctx)
        if any(i is None for i in its) or not its:
            return
        d = len(its)
        x = add(S.start, its[0][1])
        it = its[-1][0]
        head, ent = ctx.head, ctx.ent
        accs = [v for v in ctx.ints() if v != it and not isinstance(ctx.info['kinds'][v], tuple)]
        if d == 1:
            rv = [v for v in ctx.arrays() if v == 'arr:result.0']
            for v in rv:
                j = its[0][1]
                new = S.newval(select(ent[v], S.k0), add(S.start, S.k0))
                yield 'res', fsame(select(head[v], S.k0), fite(lt(S.k0, j), new, select(ent[v], S.k0)))
        elif d == 2:
            y = its[1][1]
            both(ctx, eq(tot(x, ZERO), ZERO))
            if two_level:
                both(ctx, eq(tot(x, add(y, ONE)), add(tot(x, y), cnt(x, y, S.range))))
            else:
                both(ctx, eq(tot(x, add(y, ONE)), add(tot(x, y), b2i(match(x, y, None)))))
            for a in accs:
                yield 'tot:' + a, eq(head[a], add(ent[a], tot(x, y)))
                yield 'totb:' + a, le(head[a], add(ent[a], mul(y, S.range) if two_level else y))
        elif d == 3 and two_level:
            y, j = its[1][1], its[2][1]
            both(ctx, eq(cnt(x, y, ZERO), ZERO))
            both(ctx, eq(cnt(x, y, add(j, ONE)), add(cnt(x, y, j), b2i(match(x, y, add(j, ONE))))))
            for a in accs:
                yield 'cnt:' + a, eq(head[a], add(ent[a], cnt(x, y, j)))
                yield 'cntb:' + a, le(head[a], add(ent[a], j))
    return tmpl


def sign_match(S):
    return lambda x, y, i: Xor(fsign(S.F(sub(x, i), y)), fsign(S.F(add(x, i), y)))


# ---------------------------------------------------------------- magnitude
def mag_match(S):
    eps = fval(32, 2.0 ** -52)      # DBL_EPSILON, the default precision of intermediates

    def m(x, y, i):
        a, b = S.F(sub(x, i), y), S.F(add(x, i), y)
        den = fite(fcmp('lt', eps, fop('fabs', 32, b)), b, fop('copysign', 32, eps, b))
        v = fop('fadd', 32, fop('fdiv', 32, a, den), fval(32, 1.0))
        return fcmp('lt', fop('fabs', 32, v), fval(32, 1.0))
    return m


def t_count(name, match, mode, two_level=True):
    def setup(cx, eng):
        fn = method_fn(cx, eng, name)
        S = Setup(cx, eng, mode)
        eng.templates = {'*': sum_templates(S, match(S), two_level)}
        S.newval = lambda old, x: fop('fadd', S.iw, old, S.frac(S.tot(x, S.n), mul(S.n, S.range) if two_level else S.n))

        def done(st, rv):
            exits_reached(eng, st, 'ok')
            eng.oblige(st, '%s(%s): returns success' % (name, mode), 'post', eq(ret_int(eng, st, rv), I(cx.L.const['RDEOK'])))
            S.final(st, '%s(%s)' % (name, mode), S.newval(select(S.rarr, S.k0), S.x0()))
            no_leak(eng, st)
        eng.run(S.st, fn, S.args(), done)
    return setup


# ---------------------------------------------------------------- zero crossings
def zerox_match(S):
    def m(x, y, i):
        l, c, r = S.F(sub(x, ONE), y), S.F(x, y), S.F(add(x, ONE), y)
        return And(Xor(fsign(l), fsign(r)), Or(And(fcmp('lt', l, c), fcmp('lt', c, r)), And(fcmp('lt', c, l), fcmp('lt', r, c))))
    return m


# ---------------------------------------------------------------- original method
def orig_parts(S):
    n, iw = S.n, S.iw
    ext = (lambda t: fop('fpext', 64, t)) if S.cw < iw else (lambda t: t)
    zero = fconst(iw, 0)
    cs = lambda x, y: fapp('colsum', iw, x, y)
    mean = lambda x: fop('fdiv', iw, cs(x, n), i2f(iw, n))
    ls = lambda x, i: fapp('leftsum', iw, x, i)
    rs = lambda x, i: fapp('rightsum', iw, x, i)
    ab = lambda t: fop('fabs', iw, t)

    def cs_ax(x, y):
        return And(fsame(cs(x, ZERO), zero), fsame(cs(x, add(y, ONE)), fop('fadd', iw, cs(x, y), ab(ext(S.F(x, y))))))

    def side_ax(x, i):
        return And(fsame(ls(x, ZERO), zero), fsame(rs(x, ZERO), zero),
                   fsame(ls(x, add(i, ONE)), fop('fadd', iw, ls(x, i), mean(sub(sub(x, i), ONE)))),
                   fsame(rs(x, add(i, ONE)), fop('fadd', iw, rs(x, i), mean(add(x, i, ONE)))))

    def cond(x):
        l, r = ls(x, S.range), rs(x, S.range)
        mid = fop('fmul', iw, mean(x), i2f(iw, S.range))
        d = lambda a, b: ab(fop('fsub', iw, a, b))
        return And(fcmp('lt', mid, l), fcmp('lt', mid, r), fcmp('lt', d(l, r), d(l, mid)), fcmp('lt', d(l, r), d(r, mid)))
    return cs, mean, ls, rs, cs_ax, side_ax, cond


def t_orig(mode):
    def setup(cx, eng):
        fn = method_fn(cx, eng, 'orig')
        S = Setup(cx, eng, mode)
        cs, mean, ls, rs, cs_ax, side_ax, cond = orig_parts(S)
        counts = sum_templates(S, sign_match(S), True)
        inr = lambda k: And(ge(k, ZERO), lt(k, S.length))
        S.newval = lambda old, x: fite(cond(x), fop('fadd', S.iw, old, S.frac(S.tot(x, S.n), mul(S.n, S.range))), old)

        def tmpl(ctx):
            its = nest(ctx)
            if not its or any(i is None for i in its):
                return
            d = len(its)
            j = its[-1][1]
            head, ent = ctx.head, ctx.ent
            arrs = [v for v in ctx.arrays() if v != 'arr:result.0' and head[v].sort == 'AF%d' % S.iw]
            fl = [v for v in ctx.floats('F%d' % S.iw)]
            for a in arrs:
                A = head[a]
                if d == 1:
                    # sums over the first j lines / means of the first j positions
                    kk = var('K!' + ctx.info['key'])
                    both(ctx, cs_ax(kk, j))
                    yield 'colsum:' + a, PW(a, lambda k, A=A: Implies(inr(k), fsame(select(A, k), cs(k, j))))
                    yield 'mean:' + a, PW(a, lambda k, A=A: Implies(inr(k), fsame(select(A, k), fite(lt(k, j), mean(k), cs(k, S.n)))))
                elif d == 2:
                    y = its[0][1]
                    both(ctx, cs_ax(j, y))
                    yield 'colsum2:' + a, PW(a, lambda k, A=A, y=y: Implies(inr(k), fsame(select(A, k), fite(lt(k, j), cs(k, add(y, ONE)), cs(k, y)))))
            if d == 2 and fl:
                x = add(S.start, its[0][1])
                both(ctx, side_ax(x, j))
                for v in fl:
                    yield 'left:' + v, fsame(head[v], ls(x, j))
                    yield 'right:' + v, fsame(head[v], rs(x, j))
            yield from counts(ctx)
        eng.templates = {'*': tmpl}

        def done(st, rv):
            r = ret_int(eng, st, rv)
            nomem = bool(st.ghost.get('allocfail'))
            exits_reached(eng, st, 'nomem' if nomem else 'ok')
            eng.oblige(st, 'orig(%s): %s' % (mode, 'running out of memory is reported' if nomem else 'returns success'), 'post',
                       eq(r, I(cx.L.const['RDENOMEM' if nomem else 'RDEOK'])))
            old = select(S.rarr, S.k0)
            S.final(st, 'orig(%s)%s' % (mode, ' without memory' if nomem else ''), old if nomem else S.newval(old, S.x0()))
            no_leak(eng, st)
        eng.run(S.st, fn, S.args(), done)
    return setup
