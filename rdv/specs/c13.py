"""C13: resdetect equals creation, analysis of the consecutive images, results, destruction."""
from specs.seq import *


def run(cx, eng, mask, image, gm, gp):
    C = cx.L.const
    st = State()
    w, h, n = var('w', 0, U64), var('h', 0, U64), var('nimages', 0, U64)
    out = outputs(eng, st, mask)
    m = method_arg(eng, st, gm)
    p = eng.new_obj(st, 'params', 'opaque', ONE) if gp else NULL
    im = NULL
    if image:
        size = scale(mul(mul(w, h), n), 4)
        st.assume(le(size, I((1 << 63) - 1)))
        im = eng.new_obj(st, 'image', 'param', size)
        st.objs['image'].writable = False
    tag = 'resdetect(outputs %d%s)' % (mask, '' if image else ', no image')

    def image_ok(eng, st, v, k):
        eng.oblige(st, 'resdet_analyze_image: the next of the consecutive images', 'pre',
                   And(lt(k, n), eq(v.off, scale(mul(mul(w, h), k), 4))) if isinstance(v, VPtr) and v.obj == 'image' else FALSE)
    S = Seq(cx, eng, lambda s: w, lambda s: h, lambda s: m, p, out, image_ok)
    S.start(st)

    def tmpl(ctx):
        yield from seq_templates(ctx)
        g = ctx.head.get('ghost:analysed')
        if g is None:
            return
        f = ite(eq(ctx.head.get('ghost:code', st.ghost['code']), ZERO), ZERO, ONE)
        yield 'analysed range', And(ge(g, ZERO), le(g, n))
        for v in ctx.ints():
            if ctx.info['kinds'][v] == 'i64':
                x = ctx.head[v]
                yield 'counter:' + v, eq(x, g)
                yield 'counter+:' + v, eq(x, add(g, f))
                yield 'range:' + v, le(x, n)
                yield 'down:' + v, eq(add(x, g), n)
                yield 'down+:' + v, eq(add(add(x, g), f), n)
                yield 'offset:' + v, eq(x, mul(mul(w, h), g))
        for v in ctx.head:
            if isinstance(ctx.info['kinds'].get(v), tuple):
                yield 'pointer:' + v, eq(ctx.head[v], scale(mul(mul(w, h), g), 4))
                yield 'pointer+:' + v, eq(ctx.head[v], scale(mul(mul(w, h), add(g, f)), 4))
    eng.templates = {'*': tmpl}

    def done(st, rv):
        def o_(name, b, kind='post'):
            eng.oblige(st, '%s: %s' % (tag, name), kind, b, assume=False)
        r = ret_int(eng, st, rv)
        cr, rs = events(st, 'create'), events(st, 'results')
        no_leak(eng, st, tag='%s: the analysis is destroyed and nothing leaks' % tag)
        if r is None:
            o_('a status is returned', FALSE)
            return
        if bad_mask(mask) or not image:
            exits_reached(eng, st, 'refused')
            o_('a missing image or count output is a parameter error', eq(r, I(C['RDEPARAM'])) if image or bad_mask(mask) else Or(eq(r, I(C['RDEPARAM'])), And(eq(n, ZERO), eq(r, I(C['RDENOIMG'])))))
            o_('a refused call does nothing', Bc(not cr and not rs))
            S.check_outputs(st, tag, False)
            return
        if not cr:
            exits_reached(eng, st, 'none')
            o_('no analysis is made only for a count of zero, the no-image error', And(eq(n, ZERO), eq(r, I(C['RDENOIMG']))))
            S.check_outputs(st, tag, False)
            return
        o_('a count of zero is the no-image error', ge(n, ONE))
        if cr[0][1] is None:
            exits_reached(eng, st, 'createfail')
            o_('the status of a failed creation is returned', eq(r, cr[0][2]))
            o_('nothing is analysed after a failed creation', And(eq(st.ghost['analysed'], ZERO), eq(st.ghost['code'], ZERO), Bc(not rs)))
            S.check_outputs(st, tag, False)
            return
        if rs:
            _, code, cnt = rs[0]
            ok = code is ZERO
            exits_reached(eng, st, 'ok' if ok else 'resultsfail')
            o_('every image was analysed before the results', And(eq(cnt, n), eq(st.ghost['analysed'], n)))
            o_('returns the status of the results', eq(r, code))
            S.check_outputs(st, tag, ok)
            return
        exits_reached(eng, st, 'analyzefail')
        o_('results are not obtained only when an image was refused, whose status is returned', And(ne(st.ghost['code'], ZERO), eq(r, st.ghost['code'])))
        S.check_outputs(st, tag, False)
    eng.run(st, cx.fn('resdetect'), [im, VInt(64, n), VInt(64, w), VInt(64, h), out['rw'], out['cw'], out['rh'], out['ch'], m, p], done)


def tasks(tier):
    out = []
    for mask in range(16):
        for gm in (0, 1):
            for gp in (0, 1):
                if mask != 15 and gm + gp != 2:
                    continue
                out.append(Task('resdetect, outputs %d, method %d, params %d' % (mask, gm, gp), lambda cx, eng, mask=mask, gm=gm, gp=gp: run(cx, eng, mask, True, gm, gp),
                                exits=('refused',) if bad_mask(mask) else ('ok', 'none', 'createfail', 'analyzefail', 'resultsfail')))
        out.append(Task('resdetect without an image, outputs %d' % mask, lambda cx, eng, mask=mask: run(cx, eng, mask, False, 1, 1), exits=('refused',)))
    return out
