"""Contracts around RDAnalysis: the transform backend, the detection function, the representation invariant."""
from task import *
from externs import alloc, release, hname

INT_MAX = (1 << 31) - 1
U64 = (1 << 64) - 1

BACKEND_TEXT = {
    'resdet_alloc_coeffs': 'contract of the transform backend (proved in C15): null or a fresh array of width*height coefficients',
    'resdet_create_plan': 'contract of the transform backend (proved in C15): a plan for the array, or null and a nonzero status',
    'resdet_transform': 'contract of the transform backend (proved in C15): the array becomes its transform',
    'resdet_free_plan': 'contract of the transform backend (proved in C15): releases the plan; null is a no-op',
    'resdet_free_coeffs': 'contract of the transform backend (proved in C15): releases the array; null is a no-op',
}


def log(st, *ev):
    st.ghost['events'] = st.ghost.get('events', ()) + (ev,)


def events(st, kind=None):
    return [e for e in st.ghost.get('events', ()) if kind is None or e[0] == kind]


def backend(cx, eng):
    """handlers of the internal transform interface"""
    cb = cx.L.const['sizeof(coeff)']
    cw = 8 * cb

    def alloc_coeffs(eng, st, a, ins):
        w, h = eng.uview(st, a[0]), eng.uview(st, a[1])
        eng.oblige(st, 'resdet_alloc_coeffs: the size is positive and representable', 'pre',
                   And(ge(w, ONE), ge(h, ONE), le(scale(mul(w, h), cb), I(U64))))
        out = alloc(eng, st, ins, scale(mul(w, h), cb), tag='coeffs')
        for s, p in out:
            if not is_null(p):
                o = s.objs[p.obj]
                o.stride = cb
                o.fields[0] = (cb, 'F%d' % cw, abase(p.obj + '.init', 'F%d' % cw))
        return out

    def create_plan(eng, st, a, ins):
        f, w, h, e = a[0], eng.uview(st, a[1]), eng.uview(st, a[2]), a[3]
        good = isinstance(f, VPtr) and f.obj is not None and st.objs[f.obj].live and st.objs[f.obj].meta.get('alloc') == 'coeffs'
        eng.oblige(st, 'resdet_create_plan: the array is an allocated coefficient array of that size', 'pre',
                   And(eq(f.off, ZERO), le(scale(mul(w, h), cb), st.objs[f.obj].size), ge(w, ONE), ge(h, ONE)) if good else FALSE)
        if not good:
            raise Dead()
        if not isinstance(e, VPtr) or e.obj is None:
            eng.oblige(st, 'resdet_create_plan: status pointer is given', 'pre', FALSE)
            raise Dead()
        s2 = st.clone()
        code = var('planfail:' + hname(st, ins, 'e'), 1, 7)
        s2.ghost['planfail'] = code
        s2.note.append('plan fails')
        eng.store(s2, IntTy(32), VInt(32, code), e, cx.anymod())
        eng.store(st, IntTy(32), VInt(32, ZERO), e, cx.anymod())
        st.assume(And(le(w, I(INT_MAX)), le(h, I(INT_MAX))))
        nm = hname(st, ins, 'plan')
        p = eng.new_obj(st, nm, 'resource', ONE)
        st.objs[nm].meta.update(alloc='plan', plan=(f.obj, w, h))
        return [(s2, NULL), (st, p)]

    def transform(eng, st, a, ins):
        p = a[0]
        good = isinstance(p, VPtr) and p.obj is not None and st.objs[p.obj].live and st.objs[p.obj].meta.get('alloc') == 'plan'
        eng.oblige(st, 'resdet_transform: the plan is alive', 'pre', Bc(bool(good)))
        if not good:
            raise Dead()
        fo, w, h = st.objs[p.obj].meta['plan']
        o = st.objs[fo]
        eng.oblige(st, 'resdet_transform: its array is alive', 'pre', Bc(o.live))
        if not o.live:
            raise Dead()
        before = o.fields[0][2]
        after = abase('dct:%s' % hname(st, ins, 't'), 'F%d' % cw)
        eng.note_write(st, o, ('field', fo, 0, cb))
        st.wobj(fo).fields[0] = (cb, 'F%d' % cw, after)
        log(st, 'transform', fo, before, after, w, h, st.clone())
        return None

    def free_plan(eng, st, a, ins):
        release(eng, st, a[0], 'resdet_free_plan', ('plan',))
        return None

    def free_coeffs(eng, st, a, ins):
        release(eng, st, a[0], 'resdet_free_coeffs', ('coeffs',))
        return None
    return dict(resdet_alloc_coeffs=alloc_coeffs, resdet_create_plan=create_plan, resdet_transform=transform,
                resdet_free_plan=free_plan, resdet_free_coeffs=free_coeffs)


def detectfn(cx, eng, st):
    """a function object with the contract of detection methods (C06-C09)"""
    L = cx.L
    ib, ix = L.const['sizeof(intermediate)'], L.const['sizeof(rdint_index)']

    def call(eng, st, a, ins):
        if len(a) != 9:
            eng.oblige(st, 'detection method: called with its nine arguments', 'pre', FALSE)
            raise Dead()
        f, res, sp, ep = a[0], a[6], a[7], a[8]
        length, n, stride, dist, rg = [eng.uview(st, x) for x in a[1:6]]
        k = len(events(st, 'detect'))
        fo = st.objs.get(f.obj) if isinstance(f, VPtr) else None
        ro = st.objs.get(res.obj) if isinstance(res, VPtr) else None
        for o, nm in ((fo, 'coefficients'), (ro, 'accumulators')):
            good = o is not None and o.live
            eng.oblige(st, 'detection method: %s are alive' % nm, 'pre', Bc(good))
            if not good:
                raise Dead()
        eng.oblige(st, 'detection method: range and size', 'pre', And(ge(rg, ONE), lt(scale(rg, 2), length), ge(n, ONE)))
        eng.oblige(st, 'detection method: addresses the whole array', 'pre',
                   And(eq(f.off, ZERO), eq(res.off, ZERO), le(scale(mul(length, n), L.const['sizeof(coeff)']), fo.size),
                       le(scale(sub(length, scale(rg, 2)), ib), ro.size)))
        s0 = eng.uview(st, eng.as_int(st, eng.load(st, IntTy(8 * ix), sp, cx.anymod()), 8 * ix))
        e0 = eng.uview(st, eng.as_int(st, eng.load(st, IntTy(8 * ix), ep, cx.anymod()), 8 * ix))
        eng.oblige(st, 'detection method: bounds of the candidates', 'pre', And(eq(s0, rg), eq(e0, sub(length, rg))))
        fa = fo.fields[0][2]
        before = ro.fields[0][2]
        s2 = st.clone()
        code = var('detectfail:%d' % k, 1, 7)
        s2.note.append('detection method fails')
        log(s2, 'detect', f.obj, fa, length, n, stride, dist, rg, res.obj, before, before, code)
        after = abase('det%d' % k, before.sort[1:])
        eng.note_write(st, ro, ('field', res.obj, 0, ib))
        st.wobj(res.obj).fields[0] = (ib, before.sort[1:], after)
        log(st, 'detect', f.obj, fa, length, n, stride, dist, rg, res.obj, before, after, ZERO)
        return [(s2, VInt(32, code)), (st, VInt(32, ZERO))]
    p = eng.new_obj(st, 'detectfn', 'opaque', ONE)
    st.objs['detectfn'].meta['call'] = call
    return p


def method_obj(cx, eng, st, name='method'):
    L = cx.L
    nm = eng.new_obj(st, name + '.name', 'param', var(name + '.namelen', 1, 1 << 40), default='lazy')
    o = st.objs[name + '.name']
    o.writable = False
    o.meta['string'] = name + '.name'
    th = VF(fvar(32, name + '.threshold'))
    st.assume(And(fcmp('le', fconst(32, 0), th.t), fcmp('le', th.t, fval(32, 1.0))))
    p = struct_obj(eng, st, L, name, 'RDMethod', writable=False,
                   fields=dict(name=nm, func=detectfn(cx, eng, st) if 'detectfn' not in st.objs else VPtr('detectfn'), threshold=th))
    return p, th


class Ana:
    """an analysis satisfying its representation invariant"""

    def __init__(self, cx, eng, st, xs, ys, cf=None, name='analysis', nonzero=False):
        L = self.L = cx.L
        self.cx, self.eng, self.st = cx, eng, st
        cb, ib, ix = self.cb, self.ib, self.ix = L.const['sizeof(coeff)'], L.const['sizeof(intermediate)'], L.const['sizeof(rdint_index)']
        w, h = self.w, self.h = var('w', 1, INT_MAX), var('h', 1, INT_MAX)
        st.assume(le(mul(w, h), I(min(L.const['PIXEL_MAX'], ((1 << 63) - 1) // cb))))
        rg = self.range = var('range', 1, U64)
        th = self.threshold = fvar(32, 'threshold')
        st.assume(And(fcmp('le', fconst(32, 0), th), fcmp('le', th, fval(32, 1.0))))
        self.N = var('nimages', 1 if nonzero else 0, (1 << 53))
        self.cf = cf if cf is not None else var('cfilter', 0, 31)
        m, _ = method_obj(cx, eng, st)
        fobj = eng.new_obj(st, 'coeffs', 'heap', scale(mul(w, h), cb))
        o = st.objs['coeffs']
        o.stride = cb
        o.meta['alloc'] = 'coeffs'
        o.fields[0] = (cb, 'F%d' % (8 * cb), abase('coeffs0', 'F%d' % (8 * cb)))
        plan = eng.new_obj(st, 'plan', 'resource', ONE)
        st.objs['plan'].meta.update(alloc='plan', plan=('coeffs', w, h))
        fields = dict(method=m, width=VInt(64, w), height=VInt(64, h), nimages=VInt(64, self.N), f=fobj, p=plan)
        self.m = {}
        self.arr = {}
        bounds = []
        for d, dim, on in (('x', w, xs), ('y', h, ys)):
            if on:
                st.assume(lt(scale(rg, 2), dim))
                self.m[d] = sub(dim, scale(rg, 2))
                r = eng.new_obj(st, d + 'result', 'heap', scale(self.m[d], ib))
                o = st.objs[d + 'result']
                o.stride = ib
                o.meta['alloc'] = 'heap'
                self.arr[d] = abase(d + 'result0', 'F%d' % (8 * ib))
                o.fields[0] = (ib, 'F%d' % (8 * ib), self.arr[d])
                fields[d + 'result'] = r
                bounds.append((d, rg, sub(dim, rg)))
            else:
                st.assume(ge(scale(rg, 2), dim))
                fields[d + 'result'] = NULL
        p = self.p = struct_obj(eng, st, L, name, 'RDAnalysis', kind='heap', fields=fields)
        o = st.objs[name]
        o.default = 'undef'
        o.meta['alloc'] = 'heap'
        off = L.off['RDAnalysis']
        po = off['params']
        for f, v in (('range', VInt(64, rg)), ('threshold', VF(th)), ('compression_filter', VInt(8, self.cf))):
            o.cells[po + L.off['RDParameters'][f]] = (L.fsz['RDParameters'][f], v)
        for d, a, b in bounds:
            o.cells[off[d + 'bound']] = (ix, VInt(8 * ix, a))
            o.cells[off[d + 'bound'] + ix] = (ix, VInt(8 * ix, b))
        self.cells0 = dict(o.cells)
        self.name = name

    def unchanged(self, st, tag, but=()):
        """the fields of the analysis other than those named are as before"""
        eng = self.eng
        o = st.objs[self.name]
        skip = set()
        for f in but:
            a = self.L.off['RDAnalysis'][f]
            skip |= set(range(a, a + self.L.fsz['RDAnalysis'][f]))
        ok = [Bc(o.live)]
        for off, (n, v) in self.cells0.items():
            if off in skip:
                continue
            c = o.cells.get(off)
            ok.append(FALSE if c is None or c[0] != n else same(eng, st, c[1], v))
        for off in o.cells:
            if off not in self.cells0 and off not in skip:
                ok.append(FALSE)
        eng.oblige(st, '%s: the analysis is otherwise unchanged' % tag, 'frame', And(*ok), assume=False)


def same(eng, st, a, b):
    if isinstance(a, VPtr) and isinstance(b, VPtr):
        if a.obj != b.obj:
            return FALSE
        return eq(a.off, b.off) if a.obj is not None else TRUE
    if isinstance(a, VFn) and isinstance(b, VFn):
        return Bc(a.name == b.name)
    if isinstance(a, VF) and isinstance(b, VF):
        return fsame(a.t, b.t)
    if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
        return eq(eng.uview(st, eng.as_int(st, a, 64)), eng.uview(st, eng.as_int(st, b, 64)))
    return FALSE
