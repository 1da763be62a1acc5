"""C15: the transform backends, over contracts of FFTW and of the real FFT of KISS FFT."""
from fractions import Fraction
from specs.ana import *
import externs
import math

F32, F64_ = 'F32', 'F64'
TEXT = {
    'plan_r2r_2d': 'fftw(f)_plan_r2r_2d(n0, n1, in, out, k0, k1, flags) returns null or a plan of the separable real transform of the n0 by n1 row-major array, of kind k0 along the n0 lines and k1 along each line; '
                   'FFTW_REDFT10 is the unnormalised DCT-II; planning may overwrite the arrays',
    'execute': 'fftw(f)_execute performs the planned transform of its arrays and nothing else; a plan may be executed any number of times',
    'destroy_plan': 'fftw(f)_destroy_plan releases the plan',
    'alloc_real': 'fftw(f)_alloc_real(n) returns null or a fresh array of n elements, released by fftw(f)_free only',
    'kiss_fftr_alloc': 'kiss_fftr_alloc(2n, 0, NULL, NULL) returns null or one heap block, released with free, configured for real transforms of 2n points '
                       '(its body is checked by the bounded harness only)',
    'kiss_fftr': 'kiss_fftr(cfg, t, F) writes to F[0..n] the spectrum of the 2n values of t and nothing else outside its configuration '
                 '(its body is checked by the bounded harness only)',
    'cos': 'the C library cosine, of an angle taken as an exact multiple of pi',
    'sin': 'the C library sine, of an angle taken as an exact multiple of pi',
    'atan': 'atan(1) is a quarter of pi',
}
REDFT10 = 5
WISDOM_ONLY = 1 << 21


def coeffs(cx, eng, st, w, h):
    cb = cx.L.const['sizeof(coeff)']
    f = eng.new_obj(st, 'f', 'param', scale(mul(w, h), cb))
    o = st.objs['f']
    o.stride = cb
    o.fields[0] = (cb, 'F%d' % (8 * cb), abase('f', 'F%d' % (8 * cb)))
    return f


def status_of(eng, st):
    c = st.objs['error'].cells.get(0)
    return eng.sview(st, c[1]) if c and c[0] == 4 and isinstance(c[1], VInt) else None


def create(cx, eng, on_plan, what):
    """resdet_create_plan for every size; on_plan(state, plan) goes on with the plan"""
    C = cx.L.const
    st = State()
    w, h = var('w', 1, U64), var('h', 1, U64)
    st.assume(le(mul(w, h), I(C['PIXEL_MAX'])))
    st.assume(le(scale(mul(w, h), C['sizeof(coeff)']), I(U64)))
    f = coeffs(cx, eng, st, w, h)
    err = eng.new_obj(st, 'error', 'param', I(4))

    def done(st, rv):
        o_ = lambda n, b, kind='post': eng.oblige(st, '%s: %s' % (what, n), kind, b, assume=False)
        e = status_of(eng, st)
        if e is None or not isinstance(rv, VPtr):
            o_('a pointer is returned and a status stored', FALSE)
            return
        if is_null(rv):
            exits_reached(eng, st, 'null')
            no_leak(eng, st, tag='%s: a failed creation releases everything' % what)
            big = Or(gt(w, I(INT_MAX)), gt(h, I(INT_MAX)))
            big3 = Or(gt(w, I(INT_MAX // 3)), gt(h, I(INT_MAX // 3)))
            if st.ghost.get('planfail'):
                o_('a refused plan is an internal error', eq(e, I(C['RDEINTERNAL'])))
            elif st.ghost.get('allocfail'):
                o_('lack of memory is reported', eq(e, I(C['RDENOMEM'])))
            else:
                o_('null only for a size beyond the backend or a failure', big if cx.task.kind == 'fftw' else big3)
                o_('a size beyond the backend is too big', eq(e, I(C['RDETOOBIG'])))
            return
        exits_reached(eng, st, 'plan')
        o_('a plan comes with the success status', eq(e, I(C['RDEOK'])))
        o_('no plan despite a failure', Bc(not st.ghost.get('planfail') and not st.ghost.get('allocfail')))
        o_('the array of coefficients is kept', Bc(st.objs['f'].live), 'frame')
        on_plan(st, rv, w, h, f, o_)
    eng.run(st, cx.fn('resdet_create_plan'), [f, VInt(64, w), VInt(64, h), err], done)


def release_all(cx, eng, st, p, what):
    def freed(st, rv):
        exits_reached(eng, st, 'freed')
        no_leak(eng, st, tag='%s: releasing a plan releases each of its parts' % what)
        eng.oblige(st, '%s: the array of coefficients is not released with the plan' % what, 'free', Bc(st.objs['f'].live), assume=False)
    eng.run(st, cx.fn('resdet_free_plan'), [p], freed)


# ---------------------------------------------------------------- coefficients
def t_alloc(kind):
    def setup(cx, eng):
        C = cx.L.const
        cb = C['sizeof(coeff)']
        what = 'resdet_alloc_coeffs(%s)' % kind
        st = State()
        w, h = var('w', 1, U64), var('h', 1, U64)
        st.assume(le(scale(mul(w, h), cb), I(U64)))
        eng.contracts = fftw(cx, eng)

        def done(st, rv):
            if not isinstance(rv, VPtr):
                eng.oblige(st, what + ': a pointer is returned', 'post', FALSE, assume=False)
                return
            if is_null(rv):
                exits_reached(eng, st, 'null')
                eng.oblige(st, what + ': null only without memory', 'post', Bc(bool(st.ghost.get('allocfail'))), assume=False)
                return
            exits_reached(eng, st, 'ok')
            o = st.objs[rv.obj]
            eng.oblige(st, what + ': room for every coefficient', 'post', And(Bc(o.live and o.kind == 'heap'), eq(rv.off, ZERO), ge(o.size, scale(mul(w, h), cb))), assume=False)

            def freed(st, _):
                no_leak(eng, st, tag=what + ': resdet_free_coeffs releases it')
            eng.run(st, cx.fn('resdet_free_coeffs'), [rv], freed)
        eng.run(st, cx.fn('resdet_alloc_coeffs'), [VInt(64, w), VInt(64, h)], done)
        st = State()
        eng.run(st, cx.fn('resdet_free_coeffs'), [NULL], lambda st, _: exits_reached(eng, st, 'nullfree'))
        eng.run(st, cx.fn('resdet_free_plan'), [NULL], lambda st, _: exits_reached(eng, st, 'nullplan'))
    return setup


# ---------------------------------------------------------------- FFTW
def fftw(cx, eng):
    cb = cx.L.const['sizeof(coeff)']
    pre = 'fftw' + {4: 'f', 8: ''}.get(cb, 'l') + '_'

    def alloc_real(eng, st, a, ins):
        return externs.alloc(eng, st, ins, scale(eng.uview(st, a[0]), cb), tag='fftw')

    def plan(eng, st, a, ins):
        n0, n1, i, o, k0, k1, fl = eng.sview(st, a[0]), eng.sview(st, a[1]), a[2], a[3], eng.uview(st, a[4]), eng.uview(st, a[5]), eng.uview(st, a[6])
        good = all(isinstance(x, VPtr) and x.obj is not None and st.objs[x.obj].live for x in (i, o))
        eng.oblige(st, 'plan_r2r_2d: arrays that hold the image', 'pre',
                   And(*[And(eq(x.off, ZERO), le(scale(mul(n0, n1), cb), st.objs[x.obj].size)) for x in (i, o)], ge(n0, ONE), ge(n1, ONE)) if good else FALSE)
        if not good:
            raise Dead()
        eng.oblige(st, 'plan_r2r_2d: a plan may be made without accumulated wisdom', 'pre', Bc(cval(fl) is not None and not cval(fl) & WISDOM_ONLY))
        s2 = st.clone()
        s2.ghost['planfail'] = True
        s2.note.append('FFTW refuses the plan')
        nm = hname(st, ins, 'plan')
        p = eng.new_obj(st, nm, 'resource', ONE)
        st.objs[nm].meta.update(alloc='fftwplan', plan=(n0, n1, i.obj, o.obj, k0, k1))
        return [(s2, NULL), (st, p)]

    def theplan(eng, st, p, what):
        good = isinstance(p, VPtr) and p.obj is not None and st.objs[p.obj].live and st.objs[p.obj].meta.get('alloc') == 'fftwplan'
        eng.oblige(st, '%s: of a live plan' % what, 'pre', Bc(bool(good)))
        if not good:
            raise Dead()
        return st.objs[p.obj].meta['plan']

    def execute(eng, st, a, ins):
        pl = theplan(eng, st, a[0], 'execute')
        o = st.objs[pl[3]]
        eng.oblige(st, 'execute: the array is alive', 'pre', Bc(o.live and st.objs[pl[2]].live))
        eng.note_write(st, o, ('field', o.name, 0, cb))
        after = abase('fft:' + hname(st, ins, 'x'), 'F%d' % (8 * cb))
        before = st.objs[pl[2]].fields[0][2]
        st.wobj(o.name).fields[0] = (cb, 'F%d' % (8 * cb), after)
        log(st, 'fft', pl, before, after)
        return None

    def destroy(eng, st, a, ins):
        eng.oblige(st, 'destroy_plan: of a plan', 'pre', Bc(isinstance(a[0], VPtr) and not is_null(a[0])))
        externs.release(eng, st, a[0], 'destroy_plan', ('fftwplan',))
        return None

    def free(eng, st, a, ins):
        externs.release(eng, st, a[0], 'fftw_free', ('fftw',))
        return None
    return {pre + 'alloc_real': alloc_real, pre + 'plan_r2r_2d': plan, pre + 'execute': execute, pre + 'destroy_plan': destroy, pre + 'free': free}


def t_fftw(cx, eng):
    what = 'FFTW backend'
    eng.contracts = fftw(cx, eng)

    def on_plan(st, p, w, h, f, o_):
        before = st.objs['f'].fields[0][2]

        def transformed(st, rv):
            ev = events(st, 'fft')
            o_ = lambda n, b, kind='post': eng.oblige(st, '%s: %s' % (what, n), kind, b, assume=False)
            exits_reached(eng, st, 'transformed')
            o_('one transform per call', Bc(len(ev) == 1))
            if len(ev) != 1:
                return
            (n0, n1, i, o, k0, k1), b, a = ev[0][1:]
            o_('the transform is of the whole image, h lines of w', And(eq(n0, h), eq(n1, w)))
            o_('in both directions it is the DCT-II', And(eq(k0, I(REDFT10)), eq(k1, I(REDFT10))))
            o_('it is of the image, in place', Bc(i == 'f' and o == 'f' and b is before and st.objs['f'].fields[0][2] is a))
            release_all(cx, eng, st, p, what)
        eng.run(st, cx.fn('resdet_transform'), [p], transformed)
    create(cx, eng, on_plan, what)


# ---------------------------------------------------------------- KISS FFT
PI = mk('fapp', ('pi',), 'F64')


def angle(t):
    """(numerator, denominator, power of pi) of a floating term read as a real expression, or None"""
    if t is PI:
        return ONE, ONE, 1
    if t.op == 'fconst':
        x = fpy(t)
        if abs(abs(x) - math.pi) < 1e-6:
            return (ONE if x > 0 else I(-1)), ONE, 1
        for k in (2, Fraction(1, 2), Fraction(1, 4)):
            if abs(abs(x) - math.pi * k) < 1e-6:
                k = Fraction(k) * (1 if x > 0 else -1)
                return I(k.numerator), I(k.denominator), 1
        if x != x or abs(x) == float('inf'):
            return None
        q = Fraction(x)
        return I(q.numerator), I(q.denominator), 0
    if t.op == 'i2f':
        return t.a[0], ONE, 0
    if t.op == 'fop':
        op = t.a[0]
        xs = [angle(x) for x in t.a[1:] if isinstance(x, T)]
        if any(x is None for x in xs):
            return None
        if op in ('fpext', 'fptrunc'):
            return xs[0]
        if op == 'fneg':
            n, d, k = xs[0]
            return neg(n), d, k
        (n, d, k), (m, e, l) = xs
        if op == 'fmul':
            return mul(n, m), mul(d, e), k + l
        if op == 'fdiv':
            return mul(n, e), mul(d, m), k - l
        if op in ('fadd', 'fsub') and k == l:
            if d is not e:
                n, m, d = mul(n, e), mul(m, d), mul(d, e)
            return (add if op == 'fadd' else sub)(n, m), d, k
    return None


def lead(p):
    return p.a[-1][1] if p.a else 0


def trig(fn, num, den):
    """cos or sin of pi * num / den, in a normal form"""
    g = 0
    for _, c in tuple(num.a) + tuple(den.a):
        g = math.gcd(g, c)
    if lead(den) < 0:
        g = -g
    dv = lambda p: scale(p, 1) if g in (0, 1) else add(*[scale(mul(*[atom(x) for x in m]) if m else ONE, c // g) for m, c in p.a]) if p.a else ZERO
    num, den = dv(num), dv(den)
    s = lead(num) < 0
    r = fapp(fn + 'pi', 64, neg(num) if s else num, den)
    return fop('fneg', 64, r) if s and fn == 'sin' else r


class Kiss:
    def __init__(self, cx, eng):
        self.cx, self.eng = cx, eng
        self.i0, self.j0 = var('i0', 0, U64), var('j0', 0, U64)
        self.histories = []         # per plan made: the passes over the image, the scratch arrays
        tr = lambda fn: (lambda eng, st, a, ins: self.trig(eng, st, a, ins, fn))
        eng.contracts = dict(kiss_fftr_alloc=self.alloc, kiss_fftr=self.fft, cos=tr('cos'), sin=tr('sin'), atan=self.atan)
        eng.templates = {'*': self.tmpl}

    def atan(self, eng, st, a, ins):
        v = a[0].t
        if v.op == 'fconst' and fpy(v) == 1.0:
            return VF(fop('fdiv', 64, PI, fval(64, 4.0)))
        raise Unsupported('arctangent of %r' % v)

    def trig(self, eng, st, a, ins, fn):
        t = a[0].t
        x = angle(t)
        if x is None or x[2] != 1:
            raise Unsupported('%s of %r' % (fn, t))
        return VF(trig(fn, x[0], x[1]))

    def alloc(self, eng, st, a, ins):
        n, inv, mem, lm = eng.sview(st, a[0]), eng.sview(st, a[1]), a[2], a[3]
        eng.oblige(st, 'kiss_fftr_alloc: an even positive number of points, forward, own memory', 'pre',
                   And(ge(n, I(2)), eq(imod(n, I(2)), ZERO), eq(inv, ZERO), Bc(isinstance(mem, VPtr) and is_null(mem) and isinstance(lm, VPtr) and is_null(lm))))
        s2 = st.clone()
        s2.ghost['allocfail'] = True
        s2.note.append('allocation of the FFT configuration fails')
        nm = hname(st, ins, 'cfg')
        p = eng.new_obj(st, nm, 'resource', ONE)
        st.objs[nm].meta.update(alloc='heap', points=n)
        return [(s2, NULL), (st, p)]

    def phase_of(self, st):
        """which pass over the image this is, and the array at its start"""
        for fr in st.frames:
            for (head, key, info) in fr.loops:
                return self.numbered(st, key), info
        return None, None

    def numbered(self, st, key):
        phases = self.histories[st.ghost['history']][0]
        if key not in phases:
            phases.append(key)
        return phases.index(key)

    def geometry(self, ph):
        return (self.w, self.h, ONE, self.w) if ph == 0 else (self.h, self.w, self.w, ONE)

    def fft(self, eng, st, a, ins):
        """one line: the mirrored line goes in, its spectrum comes out"""
        cfg, m, F = a
        o = st.objs.get(cfg.obj) if isinstance(cfg, VPtr) and cfg.obj else None
        good = o is not None and o.live and 'points' in o.meta and all(isinstance(x, VPtr) and x.obj and st.objs[x.obj].live for x in (m, F))
        eng.oblige(st, 'kiss_fftr: a live configuration and arrays', 'pre', Bc(good))
        if not good:
            raise Dead()
        ph, outer = self.phase_of(st)
        if ph is None or ph > 1:
            raise Unsupported('transforms outside the passes over rows and columns')
        K = ('rows', 'columns')[ph]
        ln, n, stride, dist = self.geometry(ph)
        before = outer['entry'].get('arr:f.0')
        if before is None and not eng.final:
            before = st.objs['f'].fields[0][2]
        if before is None:
            raise Unsupported('the pass does not change the image %r %r %r' % (outer['key'], list(outer['entry']), eng.growing))
        eng.oblige(st, '%s: the configuration is of twice the length of a line' % K, 'pre', eq(o.meta['points'], scale(ln, 2)))
        eng.oblige(st, '%s: room for the line and its spectrum' % K, 'mem',
                   And(le(scale(ln, 8), st.objs[m.obj].size), le(scale(add(ln, ONE), 8), st.objs[F.obj].size), eq(m.off, ZERO), eq(F.off, ZERO)))
        eng.oblige(st, '%s: line and spectrum are apart' % K, 'pre', Bc(len({m.obj, F.obj, cfg.obj, 'f'}) == 4))
        g = 'line%d' % ph
        j = st.ghost[g]
        eng.oblige(st, '%s: each line is transformed once' % K, 'pre', lt(j, n))
        if ph == 1:
            eng.oblige(st, 'columns are transformed after every row', 'post', eq(st.ghost['line0'], self.h))
            self.result(st, 0, before)
        fld = st.objs[m.obj].fields.get(0)
        if fld is None or fld[1] != 'F32' or st.objs[m.obj].stride != 4:
            raise Unsupported('representation of the mirrored line')
        i0, j0 = self.i0, self.j0
        cond = And(eq(j0, j), lt(i0, ln))
        x = select(before, self.place(ph, j0, i0))
        dec = eng.decider(st)
        eng.oblige(st, '%s: the first half of the points is the line' % K, 'pre', Implies(cond, fsame(select(fld[2], i0, dec), x)))
        eng.oblige(st, '%s: the second half is its mirror image' % K, 'pre', Implies(cond, fsame(select(fld[2], sub(sub(scale(ln, 2), ONE), i0), dec), x)))
        if st.objs[F.obj].stride is None:
            eng.to_array(st, F.obj, 8)
        w = st.wobj(F.obj)
        st.q = dict(st.q)
        for off, nm in ((0, 're'), (4, 'im')):
            eng.note_write(st, w, ('field', F.obj, off, 4))
            eng.pass_strides.setdefault(F.obj, 8)
            eng.pass_kinds.setdefault((F.obj, off), 'F32')
            A = abase(st.site('spectrum:%s:%d:%d' % (nm, ph, j.id)), 'F32')
            w.fields[off] = (4, 'F32', A)
            st.q[A] = (lambda k, A=A, nm=nm, j=j: fsame(select(A, k), self.spec(ph, nm, j, k)),)
        eng.note_write(st, None, ('ghost', g))
        st.ghost[g] = add(j, ONE)
        self.histories[st.ghost['history']][1].update((m.obj, F.obj))
        return None

    def result(self, st, ph, arr):
        ln, n, stride, dist = self.geometry(ph)
        i0, j0 = self.i0, self.j0
        v = select(arr, self.place(ph, j0, i0), self.eng.decider(st))
        self.eng.oblige(st, '%s: every coefficient is the real part of the spectrum turned by half a sample, in place' % ('rows', 'columns')[ph], 'post',
                        Implies(And(lt(i0, ln), lt(j0, n)), fsame(v, self.out(ph, j0, i0))), assume=False)

    def spec(self, ph, nm, j, k):
        return fapp('dft.%s%d' % (nm, ph), 32, j, k)

    def place(self, ph, j, i):
        ln, n, stride, dist = self.geometry(ph)
        return add(mul(j, dist), mul(i, stride))

    def turn(self, ln, fn, i):
        return fop('fptrunc', 32, trig(fn, neg(i), scale(ln, 2)))

    def out(self, ph, j, i):
        ln = self.geometry(ph)[0]
        p = lambda x, y: fop('fmul', 32, x, y)
        return fop('fsub', 32, p(self.spec(ph, 're', j, i), self.turn(ln, 'cos', i)), p(self.spec(ph, 'im', j, i), self.turn(ln, 'sin', i)))

    def tmpl(self, ctx):
        H, kinds, E = ctx.head, ctx.info['kinds'], ctx.ent
        ints = [v for v in ctx.ints() if kinds[v] == 'i64']
        arrs = [v for v in ctx.arrays() if kinds[v] == 'AF32']
        if not ctx.st.ghost.get('transforming'):
            # the turning factors
            for a in arrs:
                for v in ints:
                    for ln in (self.w, self.h):
                        for fn in ('cos', 'sin'):
                            yield 'turn:%s:%s:%s:%d' % (a, v, fn, ln is self.h), PW(a, lambda k, A=H[a], x=H[v], ln=ln, fn=fn: Implies(And(ge(k, ZERO), lt(k, x)), fsame(select(A, k), self.turn(ln, fn, k))))
            return
        ph, outer = self.phase_of(ctx.st)
        if ph is None:
            # outermost loop: not yet on the stack
            ph, outer = self.numbered(ctx.st, ctx.info['key']), ctx.info
        if ph > 1:
            return
        top = outer is ctx.info
        ln, n, stride, dist = self.geometry(ph)
        g = 'ghost:line%d' % ph
        L = H.get(g, ctx.st.ghost['line%d' % ph])
        before = E.get('arr:f.0') if top else outer['entry'].get('arr:f.0')
        if before is None:
            return
        i0, j0 = self.i0, self.j0
        at = self.place(ph, j0, i0)
        old, new = select(before, at), self.out(ph, j0, i0)
        inside = And(lt(i0, ln), lt(j0, n))
        if top:
            for v in ints:
                yield 'line:%s' % v, eq(H[v], L)
                yield 'lineb:%s' % v, le(H[v], n)
            if 'arr:f.0' in arrs:
                yield 'done', Implies(inside, fsame(select(H['arr:f.0'], at), fite(lt(j0, L), new, old)))
            return
        for v in ints:
            for a in arrs:
                if a == 'arr:f.0':
                    j = sub(L, ONE)
                    yield 'part:%s' % v, Implies(inside, fsame(select(H[a], at), fite(Or(lt(j0, j), And(eq(j0, j), lt(i0, H[v]))), new, old)))
                else:
                    here = And(inside, eq(j0, L))
                    yield 'left:%s:%s' % (a, v), Implies(And(here, lt(i0, H[v])), fsame(select(H[a], i0), old))
                    yield 'right:%s:%s' % (a, v), Implies(And(here, lt(i0, H[v])), fsame(select(H[a], sub(sub(scale(ln, 2), ONE), i0)), old))


def t_kiss(cx, eng):
    what = 'KISS FFT backend'
    K = Kiss(cx, eng)
    later = []
    K.w, K.h = var('w', 1, U64), var('h', 1, U64)

    def on_plan(st, p, w, h, f, o_):
        st.ghost['history'] = len(K.histories)
        K.histories.append(([], set()))
        scratch = K.histories[-1][1]
        keep = {n: (o.cells, o.fields, o.stride) for n, o in st.objs.items() if o.kind in ('heap', 'resource') and o.live}
        st.ghost['transforming'] = True
        st.ghost['line0'] = st.ghost['line1'] = ZERO

        def transformed(st, rv):
            o_ = lambda n, b, kind='post': eng.oblige(st, '%s: %s' % (what, n), kind, b, assume=False)
            exits_reached(eng, st, 'transformed')
            o_('every column is transformed', eq(st.ghost['line1'], w))
            K.result(st, 1, st.objs['f'].fields[0][2])
            later.append((st.clone(), keep, scratch))
            release_all(cx, eng, st, p, what)
        eng.run(st, cx.fn('resdet_transform'), [p], transformed)
    create(cx, eng, on_plan, what)
    for st, keep, scratch in later:
        same = all(n in scratch or (st.objs[n].live and (st.objs[n].cells, st.objs[n].fields, st.objs[n].stride) == kept) for n, kept in keep.items())
        eng.oblige(st, what + ': the plan is as it was after a transform (but for the scratch line and spectrum, which are written before they are used): it can be used again', 'frame', Bc(same), assume=False)


def tasks(tier):
    return [Task('coefficients, FFTW', t_alloc('FFTW'), exits=('ok', 'null', 'nullfree', 'nullplan')),
            Task('plans, FFTW', t_fftw, exits=('null', 'plan', 'transformed', 'freed')),
            Task('coefficients, KISS FFT', t_alloc('KISS FFT'), kind='kissfft', exits=('ok', 'null', 'nullfree', 'nullplan')),
            Task('plans, KISS FFT', t_kiss, kind='kissfft', exits=('null', 'plan', 'transformed', 'freed'), opts={'maxpaths': 3000, 'gephint': True})]
