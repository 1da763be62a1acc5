"""C05: resdet_analyze_image."""
from specs.ana import *
from specs.meth import unit_iter


def inputs(cx, eng, xs, ys):
    eng.contracts = backend(cx, eng)
    st = State()
    A = Ana(cx, eng, st, xs, ys)
    n = mul(A.w, A.h)
    im = eng.new_obj(st, 'image', 'param', scale(n, 4))
    o = st.objs['image']
    o.writable = False
    o.stride = 4
    arr = abase('image', 'F32')
    o.fields[0] = (4, 'F32', arr)
    return st, A, n, im, arr


def templates(cx, arr, n, kb):
    """the first i coefficients are the first i pixels; no bad pixel was passed"""
    cb = cx.L.const['sizeof(coeff)']

    def tmpl(ctx):
        ctx.info['entry_or'] = ctx.ent
        it = unit_iter(ctx.eng, ctx.info)
        for v in ctx.ints():
            if not isinstance(ctx.info['kinds'][v], tuple):
                if kb is not None:
                    yield 'bad:' + v, le(ctx.head[v], kb)
        for a in ctx.arrays():
            if a == 'arr:coeffs.0' and it:
                j = it[1]
                def form(k, A=ctx.head[a], j=j):
                    px = select(arr, k)
                    if cb != 4:
                        px = fop('fpext', 8 * cb, px)
                    return Implies(And(ge(k, ZERO), lt(k, j)), fsame(select(A, k), px))
                yield 'copied', PW(a, form)
    return {'*': tmpl}


def finite(cx, eng, xs, ys, strict):
    cb = cx.L.const['sizeof(coeff)']
    st, A, n, im, arr = inputs(cx, eng, xs, ys)
    st.q = {arr: (lambda idx: Implies(And(ge(idx, ZERO), lt(idx, n)), fclass('fin', select(arr, idx))),)}
    eng.templates = templates(cx, arr, n, None)
    k0 = var('k0', 0, U64)
    st.assume(lt(k0, n))
    tag = 'analyze(%s%s)' % ('x' if xs else '-', 'y' if ys else '-')

    def done(st, rv):
        def o_(name, b, kind='post'):
            eng.oblige(st, '%s: %s' % (tag, name), kind, b, assume=False)
        ev = events(st)
        r = ret_int(eng, st, rv)
        det = [e for e in ev if e[0] == 'detect']
        code = det[-1][-1] if det else ZERO
        failed = code is not ZERO
        if strict:
            if failed and len(det) == 2:
                exits_reached(eng, st, 'yfail')
                o_('a failing second dimension leaves the first dimension\'s results unchanged', fsame_arr(st, A, 'x'))
            return
        exits_reached(eng, st, 'fail' if failed else 'ok')
        tr = [e for e in ev if e[0] == 'transform']
        o_('the image is transformed exactly once, before the method is applied', Bc(len(tr) == 1 and ev[0][0] == 'transform'))
        if len(tr) != 1:
            return
        _, fo, before, after, w, h, snap = tr[0]
        px = select(arr, k0)
        if cb != 4:
            px = fop('fpext', 8 * cb, px)
        o_('the transformed array holds the pixels in order', And(Bc(fo == 'coeffs'), eq(w, A.w), eq(h, A.h), fsame(select(before, k0), px)))
        want = [(d, a, b) for d, on, a, b in (('x', xs, A.w, A.h), ('y', ys, A.h, A.w)) if on]
        o_('the method is applied once to each searched dimension', Bc(len(det) == len(want) or (failed and 0 < len(det) <= len(want))))
        if len(det) > len(want):
            return
        for e, (d, ln, lines) in zip(det, want):
            _, f, fa, length, nn, stride, dist, rg, res, b0, b1, c = e
            o_('%s: on the transform, with its length, lines, strides and range' % d,
               And(Bc(f == 'coeffs' and fa is after), eq(length, ln), eq(nn, lines), eq(stride, A.w if d == 'x' else ONE), eq(dist, ONE if d == 'x' else A.w), eq(rg, A.range)))
            o_('%s: adds to its own accumulators' % d, Bc(res == d + 'result' and b0 is A.arr[d]))
        o_('returns success, or the error of the method', eq(r, code))
        c = st.objs[A.name].cells.get(A.L.off['RDAnalysis']['nimages'])
        v = eng.uview(st, c[1]) if c and isinstance(c[1], VInt) else None
        o_('the frame is counted exactly once, unless the method failed', eq(v, A.N if failed else add(A.N, ONE)) if v is not None else FALSE)
        A.unchanged(st, tag, but=('nimages',))
        for (d, ln, lines), e in zip(want, det):
            cur = st.objs[d + 'result'].fields[0][2]
            o_('%s: accumulators are what the method left' % d, Bc(cur is e[-2]))
        for d, ln, lines in want[len(det):]:
            o_('%s: accumulators untouched' % d, fsame_arr(st, A, d))
        no_leak(eng, st, keep=('analysis', 'coeffs', 'plan', 'xresult', 'yresult'), tag='%s: nothing is allocated' % tag)
    eng.run(st, cx.fn('resdet_analyze_image'), [A.p, im], done)


def fsame_arr(st, A, d):
    return Bc(st.objs[d + 'result'].fields[0][2] is A.arr[d])


def bad(cx, eng, xs, ys):
    st, A, n, im, arr = inputs(cx, eng, xs, ys)
    kb = var('kb', 0, U64)
    st.assume(And(lt(kb, n), Not(fclass('fin', select(arr, kb)))))
    eng.templates = templates(cx, arr, n, kb)
    tag = 'refuse(%s%s)' % ('x' if xs else '-', 'y' if ys else '-')

    def done(st, rv):
        exits_reached(eng, st, 'refused')
        eng.oblige(st, '%s: a NaN or infinity anywhere is an invalid image' % tag, 'post', eq(ret_int(eng, st, rv), I(cx.L.const['RDEINVAL'])), assume=False)
        eng.oblige(st, '%s: a refused image is neither transformed nor measured' % tag, 'post', Bc(not events(st)), assume=False)
        A.unchanged(st, tag)
        for d in A.arr:
            eng.oblige(st, '%s: %s accumulators unchanged' % (tag, d), 'post', fsame_arr(st, A, d), assume=False)
        no_leak(eng, st, keep=('analysis', 'coeffs', 'plan', 'xresult', 'yresult'), tag='%s: nothing is allocated' % tag)
    eng.run(st, cx.fn('resdet_analyze_image'), [A.p, im], done)


def null(cx, eng):
    for a in (0, 1):
        for i in (0, 1):
            if a and i:
                continue
            st, A, n, im, arr = inputs(cx, eng, 1, 1)

            def done(st, rv):
                exits_reached(eng, st, 'null')
                eng.oblige(st, 'a null analysis or image is a parameter error', 'post', eq(ret_int(eng, st, rv), I(cx.L.const['RDEPARAM'])), assume=False)
                A.unchanged(st, 'null argument')
                eng.oblige(st, 'null argument: nothing is measured', 'post', Bc(not events(st) and all(fsame_arr(st, A, d) is TRUE for d in A.arr)), assume=False)
            eng.run(st, cx.fn('resdet_analyze_image'), [A.p if a else NULL, im if i else NULL], done)


def tasks(tier):
    out = [Task('null arguments', null, exits=('null',))]
    for xs in (1, 0):
        for ys in (1, 0):
            n = '%s%s' % ('x' if xs else '-', 'y' if ys else '-')
            out.append(Task('finite image, %s searched' % n, lambda cx, eng, xs=xs, ys=ys: finite(cx, eng, xs, ys, False), exits=('ok', 'fail') if xs or ys else ('ok',)))
            out.append(Task('non-finite image, %s searched' % n, lambda cx, eng, xs=xs, ys=ys: bad(cx, eng, xs, ys), exits=('refused',)))
    out.append(Task('all or nothing', lambda cx, eng: finite(cx, eng, 1, 1, True), exits=('yfail',), group='all-or-nothing'))
    out.append(Task('the first dimension keeps its contribution when the second fails', lambda cx, eng: finite(cx, eng, 1, 1, False), exits=('ok', 'fail'), group='y-error-keeps-x'))
    return out
