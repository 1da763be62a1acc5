"""C02: error texts, method lookup and reader names."""
from task import *


def error_str(cx, eng):
    C = cx.L.const
    maxe = [None]
    st = State()

    def got_max(st, rv):
        maxe[0] = ret_int(eng, st, rv)
    eng.run(st, cx.fn('resdet_get_max_error'), [], got_max)
    highest = max(C[k] for k in ('RDEOK', 'RDENOMEM', 'RDEINTERNAL', 'RDEINVAL', 'RDEUNSUPP', 'RDETOOBIG', 'RDEPARAM', 'RDENOIMG'))
    eng.oblige(State(), 'resdet_get_max_error is the highest defined error', 'post', eq(maxe[0], I(highest)))
    e = var('e', -(1 << 31) + 1, (1 << 31) - 1)

    def done(st, rv):
        for cond, tag in ((And(ge(e, ZERO), le(e, I(highest))), 'defined'), (gt(e, I(highest)), 'larger'), (lt(e, ZERO), 'negative')):
            s = st.clone()
            try:
                s.assume(cond)
            except Dead:
                continue
            if not eng.feasible(s):
                continue
            exits_reached(eng, s, tag)
            o = s.objs.get(rv.obj) if isinstance(rv, VPtr) and rv.obj else None
            if tag == 'defined':
                lit = externs.literal(s, rv) if o is not None else None
                eng.oblige(s, 'a defined status has a fixed text', 'post', Bc(o is not None and lit is not None and o.kind == 'const'))
            elif tag == 'larger':
                eng.oblige(s, 'a larger code has no text', 'post', Bc(is_null(rv)))
            else:
                eng.oblige(s, 'a negative code has the text of its errno', 'post',
                           eq(o.meta['strerror'], neg(e)) if o is not None and 'strerror' in o.meta else FALSE)
    eng.run(State(), cx.fn('resdet_error_str'), [VInt(32, e)], done)


def read_methods(cx, eng, st, p, cb):
    """the method table at p: list of (pointer, name, func, threshold)"""
    L = cx.L
    out = []
    mod = cx.anymod()
    off = p.off
    while True:
        q = VPtr(p.obj, off)
        eng.oblige(st, 'method table is terminated inside its array', 'post', le(add(off, I(L.size['RDMethod'])), st.objs[p.obj].size))
        nm = field(eng, st, L, q, 'RDMethod', 'name', PTR)
        if is_null(nm):
            return out
        lit = externs.literal(st, nm) if isinstance(nm, VPtr) else None
        fn = field(eng, st, L, q, 'RDMethod', 'func', PTR)
        th = field(eng, st, L, q, 'RDMethod', 'threshold', F32T)
        out.append((q, lit, fn, th))
        off = add(off, I(L.size['RDMethod']))
        if len(out) > 64:
            raise Unsupported('method table not terminated')


def methods(cx, eng):
    one = fconst(32, 0x3f800000)
    tab = []

    def got(st, rv):
        tab.append((st, rv, read_methods(cx, eng, st, rv, None)))
    eng.run(State(), cx.fn('resdet_methods'), [], got)
    if len(tab) != 1:
        raise Unsupported('resdet_methods has several outcomes')
    st0, base, ms = tab[0]
    eng.oblige(st0, 'there is a first method', 'post', Bc(len(ms) >= 1))
    names = []
    for q, lit, fn, th in ms:
        eng.oblige(st0, 'method has a non-empty constant name', 'post', Bc(bool(lit)))
        eng.oblige(st0, 'method %s has an implementation' % lit, 'post', Bc(isinstance(fn, VFn) and eng.find(fn.name, fn.mod) is not None))
        eng.oblige(st0, 'default threshold of %s from 0 to 1' % lit, 'post', And(fcmp('le', fconst(32, 0), th.t), fcmp('le', th.t, one)))
        names.append(lit)
    eng.oblige(st0, 'method names are distinct', 'post', Bc(len(set(names)) == len(names)))
    for want in (b'sign', b'mag', b'orig', b'zerox'):
        eng.oblige(st0, 'method %s is listed' % want.decode(), 'post', Bc(want in names))

    # lookup
    def none(st, rv):
        eng.oblige(st, 'no name gives the first method', 'post', Bc(isinstance(rv, VPtr) and rv.obj == base.obj and rv.off is base.off))
        exits_reached(eng, st, 'default')
    eng.run(State(), cx.fn('resdet_get_method'), [NULL], none)
    st = State()
    p = eng.new_obj(st, 'name', 'param', I(1 << 40), default='lazy')
    st.objs['name'].meta['string'] = 'name'
    st.objs['name'].writable = False

    def found(st, rv):
        hit = False
        anyeq = []
        for q, lit, fn, th in ms:
            b = externs.streq(st, 'name', lit)
            anyeq.append(b)
            if isinstance(rv, VPtr) and rv.obj == base.obj and rv.off is q.off:
                hit = True
                eng.oblige(st, 'a method is found only under its exact name', 'post', b)
                exits_reached(eng, st, 'found')
        if is_null(rv):
            eng.oblige(st, 'null only if no listed method has that name', 'post', And(*[Not(b) for b in anyeq]))
            exits_reached(eng, st, 'absent')
        elif not hit:
            eng.oblige(st, 'lookup returns an entry of the list', 'post', FALSE)
    eng.run(st, cx.fn('resdet_get_method'), [p], found)


def readers(cx, eng):
    mod = cx.anymod()
    lists = {}

    def walk(st, p):
        out = []
        off = p.off
        while True:
            eng.oblige(st, 'list is terminated inside its array', 'post', le(add(off, I(8)), st.objs[p.obj].size))
            v = eng.load(st, PTR, VPtr(p.obj, off), mod, True)
            if is_null(v):
                return out
            out.append(v)
            off = add(off, I(8))
            if len(out) > 64:
                raise Unsupported('list not terminated')

    def got(which):
        def f(st, rv):
            l = walk(st, rv)
            if which == 'names':
                l = [externs.literal(st, v) for v in l]
            else:
                l = [v.obj for v in l]
            lists[which] = (st, l)
        return f
    eng.run(State(), cx.fn('resdet_list_image_readers'), [], got('names'))
    eng.run(State(), cx.fn('resdet_image_readers'), [], got('readers'))
    st, names = lists['names']
    _, rd = lists['readers']
    eng.oblige(st, 'as many names as readers', 'post', Bc(len(names) == len(rd)))
    eng.oblige(st, 'reader names are distinct', 'post', Bc(len(set(n.lower() for n in names if n)) == len(names)))
    for i, (n, r) in enumerate(zip(names, rd)):
        eng.oblige(st, 'name %d is that of reader %d' % (i, i), 'post', Bc(n is not None and n.decode().lower() in r.lower()))
    # every reader in the list is complete
    L = cx.L
    for r in rd:
        if r.startswith('ext@'):
            continue
        s = lists['readers'][0]
        for f in ('open', 'read_frame', 'seek_frame', 'close', 'supports_ext'):
            v = eng.load(s, PTR, VPtr(r, I(L.off['image_reader'][f])), mod, True)
            eng.oblige(s, 'reader %s has %s' % (r, f), 'post', Bc(isinstance(v, VFn)))


def tasks(tier):
    return [Task('resdet_error_str', error_str), Task('resdet_get_method', methods), Task('resdet_list_image_readers', readers)]
