"""Contracts of the sequential interface, as resdetect and resdetect_file use it (C13, C14)."""
from specs.ana import *

TEXT = {
    'resdet_create_analysis': 'contract proved in C04: null and a nonzero status, or an analysis of that size (within the limits) and success',
    'resdet_analyze_image': 'contract proved in C05: success and one more frame counted, or a failure code',
    'resdet_analysis_results': 'contract proved in C10-C12: success and the results in the outputs, or a failure code and null, zero outputs',
    'resdet_destroy_analysis': 'contract proved in C04: releases the analysis; null is a no-op',
}
OUT = (('rw', 1), ('cw', 2), ('rh', 4), ('ch', 8))


def outputs(eng, st, mask):
    """the given outputs, with arbitrary previous contents"""
    ptr = {}
    for nm, bit in OUT:
        if mask & bit:
            ptr[nm] = eng.new_obj(st, nm, 'param', I(8))
            st.objs[nm].cells[0] = (8, VInt(64, var(nm + '.before', 0, U64)))
        else:
            ptr[nm] = NULL
    return ptr


def out_value(st, nm):
    c = st.objs[nm].cells.get(0)
    return c[1] if c and c[0] == 8 else None


def is_zero(eng, st, v):
    if isinstance(v, VPtr):
        return Bc(is_null(v))
    if isinstance(v, VInt):
        return eq(eng.uview(st, v), ZERO)
    return FALSE


def samearg(eng, st, v, w):
    return same(eng, st, v, w) if type(v) is type(w) else FALSE


class Seq:
    """contracts of creation, analysis, results and destruction; `want` holds the arguments creation must get"""

    def __init__(self, cx, eng, w, h, method, params, out, image_ok):
        self.cx, self.eng, self.w, self.h = cx, eng, w, h
        self.method, self.params, self.out = method, params, out
        self.image_ok = image_ok
        eng.contracts.update(resdet_create_analysis=self.create, resdet_analyze_image=self.analyze,
                             resdet_analysis_results=self.results, resdet_destroy_analysis=self.destroy)

    def start(self, st):
        st.ghost['analysed'] = ZERO
        st.ghost['code'] = ZERO         # the status of the failed analysis, if any

    def setg(self, st, name, v):
        self.eng.note_write(st, None, ('ghost', name))
        st.ghost[name] = v

    def create(self, eng, st, a, ins):
        L = self.cx.L
        m, w, h, p, e = a[0], eng.uview(st, a[1]), eng.uview(st, a[2]), a[3], a[4]
        ev = events(st, 'create')
        eng.oblige(st, 'resdet_create_analysis: one analysis, of the given method, size and parameters', 'pre',
                   And(Bc(not ev), samearg(eng, st, m, self.method(st)), eq(w, self.w(st)), eq(h, self.h(st)), samearg(eng, st, p, self.params)))
        s2 = st.clone()
        s2.note.append('creation fails')
        code = var('createfail', 1, 7)
        log(s2, 'create', None, code)
        if isinstance(e, VPtr) and e.obj is not None:
            eng.store(s2, IntTy(32), VInt(32, code), e, self.cx.anymod())
            eng.store(st, IntTy(32), VInt(32, ZERO), e, self.cx.anymod())
        out = [(s2, NULL)]
        try:
            st.assume(And(ge(w, ONE), ge(h, ONE), le(scale(mul(w, h), 4), I(U64)), le(mul(w, h), I(L.const['PIXEL_MAX']))))
            nm = hname(st, ins, 'analysis')
            q = eng.new_obj(st, nm, 'resource', ONE)
            st.objs[nm].meta['alloc'] = 'analysis'
            log(st, 'create', nm, ZERO)
            out.append((st, q))
        except Dead:
            pass
        return out

    def alive(self, eng, st, p, what):
        o = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
        good = o is not None and o.live and o.meta.get('alloc') == 'analysis'
        eng.oblige(st, '%s: the analysis is alive' % what, 'pre', Bc(good))
        if not good:
            raise Dead()

    def analyze(self, eng, st, a, ins):
        self.alive(eng, st, a[0], 'resdet_analyze_image')
        n = st.ghost['analysed']
        eng.oblige(st, 'resdet_analyze_image: no earlier step failed', 'pre', eq(st.ghost['code'], ZERO))
        eng.oblige(st, 'resdet_analyze_image: results were not obtained yet', 'pre', Bc(not events(st, 'results')))
        self.image_ok(eng, st, a[1], n)
        s2 = st.clone()
        s2.note.append('analysis fails')
        code = var(st.site('analyzefail:' + st.fr.path), 1, 7)
        self.setg(s2, 'code', code)
        self.setg(st, 'analysed', add(n, ONE))
        return [(s2, VInt(32, code)), (st, VInt(32, ZERO))]

    def results(self, eng, st, a, ins):
        self.alive(eng, st, a[0], 'resdet_analysis_results')
        eng.oblige(st, 'resdet_analysis_results: only when no step failed', 'pre', eq(st.ghost['code'], ZERO))
        eng.oblige(st, 'resdet_analysis_results: obtained once', 'pre', Bc(not events(st, 'results')))
        for (nm, bit), v in zip(OUT, a[1:5]):
            eng.oblige(st, 'resdet_analysis_results: the outputs are those of the caller: %s' % nm, 'pre', samearg(eng, st, v, self.out[nm]))
            if not isinstance(v, VPtr) or v.obj != self.out[nm].obj:
                raise Dead()
        s2 = st.clone()
        s2.note.append('results fail')
        code = var('resultsfail', 1, 7)
        log(s2, 'results', code, s2.ghost['analysed'])
        vals = {}
        for nm, _ in OUT:
            p = self.out[nm]
            if is_null(p):
                continue
            self.eng.store(s2, IntTy(64) if nm[0] == 'c' else PTR, VInt(64, ZERO) if nm[0] == 'c' else NULL, p, self.cx.anymod())
            if nm[0] == 'c':
                v = VInt(64, var('out.' + nm, 0, INT_MAX))
                eng.store(st, IntTy(64), v, p, self.cx.anymod())
            else:
                v = eng.new_obj(st, 'out.' + nm, 'heap', var('outsize.' + nm, 0, 1 << 40))
                st.objs['out.' + nm].meta.update(alloc='heap', owned=True)
                eng.store(st, PTR, v, p, self.cx.anymod())
            vals[nm] = v
        log(st, 'results', ZERO, st.ghost['analysed'])
        st.ghost['outvals'] = vals
        return [(s2, VInt(32, code)), (st, VInt(32, ZERO))]

    def destroy(self, eng, st, a, ins):
        p = a[0]
        if isinstance(p, VPtr) and p.obj is not None:
            release(eng, st, p, 'resdet_destroy_analysis', ('analysis',))
        elif isinstance(p, VUndef):
            eng.oblige(st, 'resdet_destroy_analysis: an uninitialised pointer', 'pre', FALSE)
            raise Dead()
        return None

    def check_outputs(self, st, tag, ok):
        """outputs as the results contract left them, or null and zero"""
        eng = self.eng
        b = []
        for nm, _ in OUT:
            if is_null(self.out[nm]):
                continue
            v = out_value(st, nm)
            if v is None:
                b.append(FALSE)
            elif ok:
                w = st.ghost.get('outvals', {}).get(nm)
                b.append(samearg(eng, st, v, w) if w is not None else FALSE)
            else:
                b.append(is_zero(eng, st, v))
        eng.oblige(st, '%s: %s' % (tag, 'the outputs are those of the results' if ok else 'every given output is null and zero'), 'post', And(*b), assume=False)


def bad_mask(mask):
    return bool((mask & 1 and not mask & 2) or (mask & 4 and not mask & 8))


def method_arg(eng, st, given):
    """an opaque method: passed on, never read"""
    return eng.new_obj(st, 'method', 'opaque', ONE) if given else NULL


def seq_templates(ctx):
    """the ghost status of the sequence and the status variables of the code agree"""
    c = ctx.head.get('ghost:code')
    if c is None:
        return
    yield 'code range', And(ge(c, ZERO), le(c, I(7)))
    for v in ctx.ints():
        if ctx.info['kinds'][v] == 'i32':
            yield 'status:' + v, eq(ctx.head[v], c)
    for v, k in ctx.info['kinds'].items():
        if k == 'b':
            yield 'flag:' + v, Iff(ctx.head[v], eq(c, ZERO))
            yield 'flag-:' + v, Iff(ctx.head[v], ne(c, ZERO))
