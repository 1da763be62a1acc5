"""Trusted contracts of the C library functions the code depends on.

Each contract is a function (engine, state, argument values, instruction) -> value | [(state, value)].
The text in TRUST is what the evidence lists as assumed.
"""
from terms import *
from engine import VInt, VBool, VF, VPtr, VFn, VUndef, UNDEF, NULL, is_null, Dead
from ir import Unsupported, IntTy

TRUST = {}
EXT = {}


def ext(name, text):
    def d(f):
        EXT[name] = f
        TRUST[name] = text
        return f
    return d


PTRDIFF_MAX = (1 << 63) - 1


def hname(st, ins, tag):
    return st.site('%s:%s%s' % (tag, st.fr.path, (ins.dst or '').lstrip('%')))


def alloc(eng, st, ins, size, tag='heap', default='undef', bound=PTRDIFF_MAX, exact_fail=False):
    """[(state, pointer)]: failure, then success"""
    out = []
    nm = hname(st, ins, tag)
    s2 = st.clone()
    s2.ghost['allocfail'] = True
    s2.note.append('allocation fails at %s' % eng.curloc)
    out.append((s2, NULL))
    try:
        if bound is not None:
            st.assume(le(size, I(bound)))
        if eng.feasible(st):
            p = eng.new_obj(st, nm, 'heap', size, default=default)
            st.objs[nm].meta['alloc'] = tag
            out.append((st, p))
    except Dead:
        pass
    return out


@ext('malloc', 'malloc(n) returns null or a fresh uninitialised object of n bytes, n <= PTRDIFF_MAX')
def x_malloc(eng, st, a, ins):
    return alloc(eng, st, ins, eng.uview(st, a[0]))


@ext('calloc', 'calloc(m,n) returns null or a fresh zeroed object of m*n bytes (mathematical product, <= PTRDIFF_MAX)')
def x_calloc(eng, st, a, ins):
    n = mul(eng.uview(st, a[0]), eng.uview(st, a[1]))
    return alloc(eng, st, ins, n, default='zero')


def release(eng, st, p, what, kinds=('heap',)):
    if isinstance(p, VUndef):
        eng.oblige(st, 'release of an uninitialised pointer at %s' % eng.curloc, 'mem', FALSE)
        raise Dead()
    if not isinstance(p, VPtr):
        raise Unsupported('release of %r' % p)
    if p.obj is None:
        return
    o = st.objs[p.obj]
    if not o.live:
        eng.oblige(st, 'released twice: %s at %s' % (o.name, eng.curloc), 'free', FALSE)
        raise Dead()
    tag = o.meta.get('alloc', o.kind)
    if tag not in kinds:
        eng.oblige(st, '%s of %s memory %s at %s' % (what, tag, o.name, eng.curloc), 'free', FALSE)
        raise Dead()
    eng.oblige(st, 'release at the start of the object at %s' % eng.curloc, 'free', eq(p.off, ZERO))
    h = o.meta.get('on_free')
    if h:
        h(eng, st, o)
    eng.note_write(st, o, ('free', o.name))
    w = st.wobj(p.obj)
    w.live = False


@ext('free', 'free(p) releases the object p points to; p null is a no-op')
def x_free(eng, st, a, ins):
    release(eng, st, a[0], 'free')
    return None


@ext('realloc', 'realloc(p,n) returns null leaving p as it is, or moves the object: same contents up to the smaller size, p released')
def x_realloc(eng, st, a, ins):
    p, n = a[0], eng.uview(st, a[1])
    if is_null(p):
        return alloc(eng, st, ins, n)
    out = []
    o = st.objs[p.obj]
    if not o.live or o.meta.get('alloc') != 'heap':
        release(eng, st, p, 'realloc')
    eng.oblige(st, 'realloc of the start of the object at %s' % eng.curloc, 'free', eq(p.off, ZERO))
    s2 = st.clone()
    s2.ghost['allocfail'] = True
    s2.note.append('realloc fails at %s' % eng.curloc)
    out.append((s2, NULL))
    st.assume(le(n, I(PTRDIFF_MAX)))
    nm = hname(st, ins, 'heap')
    q = eng.new_obj(st, nm, 'heap', n)
    w = st.objs[nm]
    w.meta['alloc'] = 'heap'
    old = st.objs[p.obj]
    w.cells, w.stride, w.fields, w.default = dict(old.cells), old.stride, dict(old.fields), old.default
    w.meta.update({k: v for k, v in old.meta.items() if k not in ('alloc',)})
    eng.note_write(st, old, ('free', old.name))
    st.wobj(p.obj).live = False
    out.append((st, q))
    return out


# ---------------------------------------------------------------- strings
def literal(st, p):
    """bytes of a constant string, or None"""
    if not isinstance(p, VPtr) or p.obj is None or cval(p.off) is None:
        return None
    o = st.objs[p.obj]
    if o.meta.get('string'):
        return None
    i = cval(p.off)
    out = []
    while True:
        c = o.cells.get(i)
        if c is None or c[0] != 1 or cval(c[1].p) is None:
            if c is None and o.default == 'zero' and i < (cval(o.size) or 0):
                return bytes(out)
            return None
        b = cval(c[1].p) % 256
        if b == 0:
            return bytes(out)
        out.append(b)
        i += 1


def chk_str(eng, st, p, what):
    if isinstance(p, VUndef) or (isinstance(p, VPtr) and p.obj is None):
        eng.oblige(st, '%s of a null or uninitialised string at %s' % (what, eng.curloc), 'mem', FALSE)
        raise Dead()
    o = st.objs[p.obj]
    if not o.live:
        eng.oblige(st, '%s of released memory at %s' % (what, eng.curloc), 'mem', FALSE)
        raise Dead()


def strid(st, p):
    """symbolic string identity: (name of a ghost string) for objects with meta['string'] at offset 0"""
    o = st.objs[p.obj]
    if o.meta.get('string') and cval(p.off) == 0:
        return o.meta['string']
    return None


def streq(st, sid, lit, fold=False):
    """ghost predicate: ghost string sid equals the literal (ignoring case); facts about other literals are added"""
    tag = 'strieq' if fold else 'streq'
    b = bvar('%s:%s:%s' % (tag, sid, lit.decode('latin1').lower() if fold else lit.decode('latin1')))
    known = dict(st.ghost.get('strlits', {}))
    ks = known.get((tag, sid), ())
    for other, ob in ks:
        if ob is not b:
            st.assume(Not(And(b, ob)))
    if not any(ob is b for _, ob in ks):
        known[(tag, sid)] = ks + ((lit, b),)
        st.ghost['strlits'] = known
    if not fold:
        # exact equality implies equality ignoring case
        c = streq(st, sid, lit, True)
        st.assume(Implies(b, c))
    return b


@ext('strcmp', 'strcmp(a,b) is 0 exactly when the strings are equal')
def x_strcmp(eng, st, a, ins):
    return cmp_str(eng, st, a, False, 'strcmp', ins)


@ext('strcasecmp', 'strcasecmp(a,b) is 0 exactly when the strings are equal ignoring case')
def x_strcasecmp(eng, st, a, ins):
    return cmp_str(eng, st, a, True, 'strcasecmp', ins)


def cmp_str(eng, st, a, fold, what, ins):
    for p in a[:2]:
        chk_str(eng, st, p, what)
    la, lb = literal(st, a[0]), literal(st, a[1])
    if la is not None and lb is not None:
        if fold:
            la, lb = la.lower(), lb.lower()
        return VInt(32, I(0 if la == lb else (1 if la > lb else -1)))
    if la is None and lb is None:
        raise Unsupported('%s of two symbolic strings' % what)
    sp, lit = (a[1], la) if la is not None else (a[0], lb)
    h = st.objs[sp.obj].meta.get('streq')
    if h:
        b = h(eng, st, sp, lit, fold)
    else:
        sid = strid(st, sp)
        if sid is None:
            raise Unsupported('%s of an inner string' % what)
        b = streq(st, sid, lit, fold)
    r = var('cmp:%s' % hname(st, ins, what), -(1 << 31), (1 << 31) - 1)
    st.assume(Iff(b, eq(r, ZERO)))
    return VInt(32, r)


@ext('strerror', 'strerror(e) returns a non-null string depending on e')
def x_strerror(eng, st, a, ins):
    e = eng.sview(st, a[0])
    nm = hname(st, ins, 'strerror')
    p = eng.new_obj(st, nm, 'param', I(1), default='lazy')
    st.objs[nm].meta['strerror'] = e
    st.objs[nm].writable = False
    return p


@ext('strlen', 'strlen')
def x_strlen(eng, st, a, ins):
    chk_str(eng, st, a[0], 'strlen')
    l = literal(st, a[0])
    if l is None:
        raise Unsupported('strlen of symbolic string')
    return VInt(64, I(len(l)))


@ext('strchr', 'strchr(s,c) is null or a pointer to the first c in s')
def x_strchr(eng, st, a, ins):
    return find_chr(eng, st, a, ins, 'strchr', False)


@ext('strrchr', 'strrchr(s,c) is null or a pointer to the last c in s')
def x_strrchr(eng, st, a, ins):
    return find_chr(eng, st, a, ins, 'strrchr', True)


def find_chr(eng, st, a, ins, what, last):
    p = a[0]
    chk_str(eng, st, p, what)
    c = cval(eng.uview(st, eng.as_int(st, a[1], 32)))
    if c is None:
        raise Unsupported('%s of a symbolic character' % what)
    l = literal(st, p)
    if l is None:
        h = st.objs[p.obj].meta.get(what)
        if h:
            return h(eng, st, p, c % 256, ins)
        raise Unsupported('%s of a symbolic string' % what)
    b = bytes([c % 256])
    i = (l + b'\0').rfind(b) if last else (l + b'\0').find(b)
    return NULL if i < 0 else VPtr(p.obj, add(p.off, I(i)))
