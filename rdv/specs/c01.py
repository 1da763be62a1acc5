"""C01: parameter setters accept exactly the documented values."""
from task import *


def entry(cx, eng):
    st = State()
    return st


def check_fields(eng, st, L, p, exp, tag):
    for f, ty in (('range', IntTy(64)), ('threshold', F32T), ('compression_filter', IntTy(8))):
        v = field(eng, st, L, p, 'RDParameters', f, ty)
        e = exp[f]
        if isinstance(v, VUndef):
            b = FALSE
        elif ty.k == 'f':
            b = fsame(v.t, e.t)
        else:
            b = eq(eng.uview(st, v), eng.uview(st, e))
        eng.oblige(st, '%s: field %s' % (tag, f), 'post', b, assume=False)


def setter(fname, pname, mkarg, valid, fieldname):
    def setup(cx, eng):
        L = cx.L
        C = L.const
        # null object
        st = State()
        arg = mkarg()

        def exit_null(st, rv):
            exits_reached(eng, st, 'null')
            eng.oblige(st, '%s: null object gives RDEPARAM' % fname, 'post', eq(ret_int(eng, st, rv), I(C['RDEPARAM'])))
        eng.run(st, cx.fn(fname), [NULL, arg], exit_null)
        st = State()
        p = params_obj(eng, st, L)
        old = {f: st.objs[p.obj].cells[L.off['RDParameters'][f]][1] for f in ('range', 'threshold', 'compression_filter')}

        def exit_obj(st, rv):
            r = ret_int(eng, st, rv)
            ok = valid(arg)
            for c, good in ((ok, True), (Not(ok), False)):
                s = st.clone()
                try:
                    s.assume(c)
                except Dead:
                    continue
                if not eng.feasible(s):
                    continue
                exits_reached(eng, s, 'ok' if good else 'refused')
                eng.oblige(s, '%s: %s' % (fname, 'documented value is accepted' if good else 'other value is refused'), 'post',
                           eq(r, I(C['RDEOK' if good else 'RDEPARAM'])))
                exp = dict(old)
                if good:
                    exp[fieldname] = arg
                check_fields(eng, s, L, p, exp, '%s %s' % (fname, 'sets exactly the parameter' if good else 'leaves the object unchanged'))
        eng.run(st, cx.fn(fname), [p, arg], exit_obj)
    return setup


def alloc_default(cx, eng):
    L = cx.L
    st = State()

    def done(st, rv):
        if is_null(rv):
            exits_reached(eng, st, 'null')
            eng.oblige(st, 'null only when memory runs out', 'post', Bc(bool(st.ghost.get('allocfail'))))
            no_leak(eng, st)
            return
        exits_reached(eng, st, 'ok')
        o = st.objs[rv.obj]
        eng.oblige(st, 'result is one fresh object of sufficient size', 'post',
                   And(Bc(o.kind == 'heap' and o.live), eq(rv.off, ZERO), ge(o.size, I(L.size['RDParameters']))))
        d = dict(range=VInt(64, I(L.const['DEFAULT_RANGE'])), compression_filter=VInt(8, ZERO))
        for f, ty in (('range', IntTy(64)), ('compression_filter', IntTy(8))):
            v = field(eng, st, L, rv, 'RDParameters', f, ty)
            eng.oblige(st, 'default %s' % f, 'post', FALSE if isinstance(v, VUndef) else eq(eng.uview(st, v), d[f].p), assume=False)
        v = field(eng, st, L, rv, 'RDParameters', 'threshold', F32T)
        eng.oblige(st, 'no threshold override by default', 'post', FALSE if isinstance(v, VUndef) else fcmp('lt', v.t, fconst(32, 0)), assume=False)
        no_leak(eng, st, keep=(rv.obj,))
    eng.run(st, cx.fn('resdet_alloc_default_parameters'), [], done)


def default_range(cx, eng):
    def done(st, rv):
        exits_reached(eng, st, 'ok')
        eng.oblige(st, 'resdet_default_range is the default range', 'post', eq(eng.uview(st, rv), I(cx.L.const['DEFAULT_RANGE'])))
    eng.run(State(), cx.fn('resdet_default_range'), [], done)


def tasks(tier):
    one = fconst(32, fbits_of(1.0))
    return [
        Task('resdet_parameters_set_range', setter('resdet_parameters_set_range', 'range', lambda: VInt(64, var('arg', 0, (1 << 64) - 1)),
             lambda a: ge(a.p, ONE), 'range')),
        Task('resdet_parameters_set_threshold', setter('resdet_parameters_set_threshold', 'threshold', lambda: VF(fvar(32, 'arg')),
             lambda a: And(fcmp('le', fconst(32, 0), a.t), fcmp('le', a.t, one)), 'threshold')),
        Task('resdet_parameters_set_compression_filter', setter('resdet_parameters_set_compression_filter', 'compression_filter',
             lambda: VInt(8, var('arg', 0, 255)), lambda a: le(a.p, I(31)), 'compression_filter')),
        Task('resdet_alloc_default_parameters', alloc_default),
        Task('resdet_default_range', default_range),
    ]


def fbits_of(x):
    import struct
    return struct.unpack('<I', struct.pack('<f', x))[0]
