"""C04 (and the creation part of C03): resdet_create_analysis."""
from specs.ana import *
import externs


def getf(eng, st, L, p, f, ty):
    return field(eng, st, L, p, 'RDAnalysis', f, ty)


def create(cx, eng, give_method, give_params, give_error, what):
    L = cx.L
    C = L.const
    cb, ib, ix = C['sizeof(coeff)'], C['sizeof(intermediate)'], C['sizeof(rdint_index)']
    st = State()
    w, h = var('w', 0, U64), var('h', 0, U64)
    eng.contracts = backend(cx, eng)
    mth, th0 = method_obj(cx, eng, st) if give_method else (NULL, None)
    par = NULL
    if give_params:
        rg0, cf0, pt = var('range', 1, U64), var('cfilter', 0, 31), fvar(32, 'pthreshold')
        st.assume(Or(fcmp('lt', pt, fconst(32, 0)), And(fcmp('le', fconst(32, 0), pt), fcmp('le', pt, fval(32, 1.0)))))
        par = params_obj(eng, st, L, writable=False, range=VInt(64, rg0), threshold=VF(pt), cf=VInt(8, cf0))
    else:
        rg0, cf0, pt = I(C['DEFAULT_RANGE']), ZERO, None
    err = NULL
    if give_error:
        err = eng.new_obj(st, 'error', 'param', I(4))
    limit = And(le(mul(w, h), I(C['PIXEL_MAX'])), le(scale(mul(w, h), cb), I(U64)))
    tag = 'create(%s method, %s params, %s status)' % tuple('given' if x else 'no' for x in (give_method, give_params, give_error))

    def status(s):
        c = s.objs['error'].cells.get(0)
        return eng.sview(s, c[1]) if c and c[0] == 4 and isinstance(c[1], VInt) else None

    def done(st, rv):
        o_ = lambda name, kind, b: eng.oblige(st, name, kind, b, assume=False)
        e = status(st) if give_error else None
        if give_error and e is None:
            o_('%s: a status is stored' % tag, 'post', FALSE)
            return
        if not isinstance(rv, VPtr):
            o_('%s: a pointer is returned' % tag, 'post', FALSE)
            return
        af, pf = bool(st.ghost.get('allocfail')), st.ghost.get('planfail')
        if is_null(rv):
            exits_reached(eng, st, 'null')
            no_leak(eng, st, tag='%s: a failed creation releases everything' % tag)
            o_('%s: null only for a refused size, lack of memory or a failed plan' % tag, 'post',
               Or(Bc(af), Bc(pf is not None), eq(w, ZERO), eq(h, ZERO), Not(limit)))
            if give_error:
                o_('%s: null comes with a nonzero status' % tag, 'post', ne(e, ZERO))
                if pf is not None:
                    o_('%s: the status of a failed plan is reported' % tag, 'post', eq(e, pf))
                elif af:
                    o_('%s: lack of memory is reported' % tag, 'post', eq(e, I(C['RDENOMEM'])))
                else:
                    o_('%s: a zero size is an invalid image, a larger one too big' % tag, 'post',
                       eq(e, ite(Or(eq(w, ZERO), eq(h, ZERO)), I(C['RDEINVAL']), I(C['RDETOOBIG']))))
            return
        exits_reached(eng, st, 'ok')
        if give_error:
            o_('%s: success comes with the success status' % tag, 'post', eq(e, I(C['RDEOK'])))
        o_('%s: succeeds only for sizes within the limits' % tag, 'post', And(ge(w, ONE), ge(h, ONE), limit))
        A = st.objs[rv.obj]
        good = A.kind == 'heap' and A.live and cval(rv.off) == 0
        o_('%s: the analysis is one fresh object of sufficient size' % tag, 'post', And(Bc(good), ge(A.size, I(L.size['RDAnalysis']))))
        if not good:
            return
        keep = {rv.obj}
        g = lambda f, ty: getf(eng, st, L, rv, f, ty)
        u = lambda v: eng.uview(st, v) if isinstance(v, VInt) else var('?')
        for f, x in (('width', w), ('height', h), ('nimages', ZERO)):
            v = g(f, IntTy(64))
            o_('%s: %s' % (tag, f), 'post', eq(u(v), x) if isinstance(v, VInt) else FALSE)
        m = g('method', PTR)
        zx = None
        if give_method:
            o_('%s: uses the given method' % tag, 'post', Bc(isinstance(m, VPtr) and m.obj == 'method' and cval(m.off) == 0))
            zx = externs.streq(st, 'method.name', b'zerox')
            mt = th0.t
        else:
            first = []
            s2 = State()
            eng.run(s2, cx.fn('resdet_methods'), [], lambda s, r: first.append((s, r)))
            fp = first[0][1]
            o_('%s: uses the first listed method' % tag, 'post', Bc(isinstance(m, VPtr) and m.obj == fp.obj) if not isinstance(m, VPtr) or m.obj != fp.obj else eq(m.off, fp.off))
            if not (isinstance(m, VPtr) and m.obj == fp.obj):
                return
            nm = field(eng, st, L, m, 'RDMethod', 'name', PTR)
            zx = Bc(externs.literal(st, nm) == b'zerox')
            mt = field(eng, st, L, m, 'RDMethod', 'threshold', F32T).t
        pp = VPtr(rv.obj, I(L.off['RDAnalysis']['params']))
        r = field(eng, st, L, pp, 'RDParameters', 'range', IntTy(64))
        rg = ite(zx, ONE, rg0)
        o_('%s: holds the range (1 for zerox)' % tag, 'post', eq(u(r), rg) if isinstance(r, VInt) else FALSE)
        t = field(eng, st, L, pp, 'RDParameters', 'threshold', F32T)
        et = mt if pt is None else fite(fcmp('lt', pt, fconst(32, 0)), mt, pt)
        o_('%s: holds the threshold, the method\'s unless one was set' % tag, 'post', fsame(t.t, et) if isinstance(t, VF) else FALSE)
        c = field(eng, st, L, pp, 'RDParameters', 'compression_filter', IntTy(8))
        o_('%s: holds the compression filter' % tag, 'post', eq(u(c), cf0) if isinstance(c, VInt) else FALSE)
        # buffers
        f, p = g('f', PTR), g('p', PTR)
        fo = st.objs.get(f.obj) if isinstance(f, VPtr) and f.obj else None
        po = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
        o_('%s: coefficient buffer of width times height' % tag, 'post',
           And(Bc(fo.live and fo.meta.get('alloc') == 'coeffs'), eq(f.off, ZERO), ge(fo.size, scale(mul(w, h), cb))) if fo else FALSE)
        o_('%s: plan for that buffer and size' % tag, 'post',
           And(Bc(po.live and po.meta.get('alloc') == 'plan' and po.meta['plan'][0] == f.obj), eq(po.meta['plan'][1], w), eq(po.meta['plan'][2], h)) if po and fo else FALSE)
        keep |= {x.obj for x in (f, p) if isinstance(x, VPtr)}
        for d, dim in (('x', w), ('y', h)):
            q = g(d + 'result', PTR)
            on = gt(dim, scale(rg, 2))
            if isinstance(q, VPtr) and q.obj is not None:
                ro = st.objs[q.obj]
                keep.add(q.obj)
                o_('%s: %s searched only when the size exceeds twice the range' % (tag, d), 'post', on)
                o_('%s: %s accumulators for every candidate' % (tag, d), 'post',
                   And(Bc(ro.live and ro.kind == 'heap' and ro.meta.get('alloc') == 'heap'), eq(q.off, ZERO), ge(ro.size, scale(sub(dim, scale(rg, 2)), ib))))
                k0 = var('k0', 0, U64)
                s3 = st.clone()
                try:
                    s3.assume(And(on, lt(k0, sub(dim, scale(rg, 2)))))
                    v = eng.load(s3, F64T if ib == 8 else F32T, VPtr(q.obj, scale(k0, ib)), cx.anymod(), True)
                    eng.oblige(s3, '%s: %s accumulators are zero' % (tag, d), 'post', fsame(v.t, fconst(8 * ib, 0)) if isinstance(v, VF) else FALSE, assume=False)
                except Dead:
                    pass
                for i, x in ((0, rg), (1, sub(dim, rg))):
                    v = eng.load(st, IntTy(8 * ix), VPtr(rv.obj, I(L.off['RDAnalysis'][d + 'bound'] + i * ix)), cx.anymod(), True)
                    o_('%s: %s bounds of the candidates' % (tag, d), 'post', eq(u(v), x) if isinstance(v, VInt) else FALSE)
            else:
                o_('%s: %s not searched only when the size is at most twice the range' % (tag, d), 'post', And(Bc(isinstance(q, VPtr)), Not(on)))
        no_leak(eng, st, keep=keep, tag='%s: no other allocation remains' % tag)
    eng.run(st, cx.fn('resdet_create_analysis'), [mth, VInt(64, w), VInt(64, h), par, err], done)


def destroy(cx, eng):
    eng.contracts = backend(cx, eng)
    for xs in (0, 1):
        for ys in (0, 1):
            st = State()
            A = Ana(cx, eng, st, xs, ys)

            def done(st, rv):
                exits_reached(eng, st, 'ok')
                no_leak(eng, st, tag='resdet_destroy_analysis releases every part')
                eng.oblige(st, 'resdet_destroy_analysis releases the analysis', 'post', Bc(not st.objs[A.name].live))
            eng.run(st, cx.fn('resdet_destroy_analysis'), [A.p], done)

    def done0(st, rv):
        no_leak(eng, st, tag='resdet_destroy_analysis of null does nothing')
    eng.run(State(), cx.fn('resdet_destroy_analysis'), [NULL], done0)


def tasks(tier):
    out = []
    for m in (0, 1):
        for p in (0, 1):
            for e in (0, 1):
                out.append(Task('resdet_create_analysis (method %d, params %d, status %d)' % (m, p, e),
                                lambda cx, eng, m=m, p=p, e=e: create(cx, eng, m, p, e, None), exits=('ok', 'null')))
    out.append(Task('resdet_destroy_analysis', destroy, exits=('ok',)))
    return out
