"""C20: the reader is chosen by type, MIME type, extension or name."""
from task import *
import externs
from specs.ana import U64
from externs import release, streq, literal

TEXT = dict(externs.TRUST)
TEXT.update({
    'tolower': 'tolower in the C locale (glibc: also for negative characters)',
    'reader open': 'the open function of a reader: leaves the status alone and returns its state and any width and height, or returns null and stores a nonzero status (proved for PGM, PFM and Y4M in C16-C18)',
    'reader close': 'the close function of a reader releases its state; null is a no-op',
    'reader supports_ext': 'FFmpeg and MagickWand support an arbitrary set of extensions',
})
EXTS = {'pgm': [b'pgm'], 'pfm': [b'pfm'], 'y4m': [b'y4m'], 'libjpeg': [b'jpg', b'jpeg'], 'libpng': [b'png']}
MIME = {b'image/jpeg': b'jpg', b'image/png': b'png', b'video/yuv4mpeg': b'y4m', b'image/x-portable-graymap': b'pgm', b'image/x-portable-floatmap': b'pfm'}
OPS = ('open', 'read_frame', 'seek_frame', 'close', 'supports_ext')


class Strings:
    """opaque character strings: known only through comparisons with literals and the positions of characters"""

    def __init__(self, eng, st):
        self.eng = eng
        eng.contracts['resdet_strieq'] = self.strieq

    def new(self, st, name):
        p = self.eng.new_obj(st, name, 'opaque', ONE)
        m = st.objs[name].meta
        m['string'] = name
        m['strchr'] = lambda eng, s, p, c, ins: self.find(s, p, c, 'first')
        m['strrchr'] = lambda eng, s, p, c, ins: self.find(s, p, c, 'last')
        m['streq'] = lambda eng, s, p, lit, fold: streq(s, self.sid(s, p), lit, fold)
        return p

    def pos(self, o, c, which):
        return bvar('%s has %r' % (o, chr(c))), var('%s %r in %s' % (which, chr(c), o), 0, (1 << 62))

    def find(self, st, p, c, which):
        if cval(p.off) != 0:
            raise Unsupported('search in an inner string')
        has, at = self.pos(p.obj, c, which)
        out = []
        s2 = st.clone()
        for s, b, r in ((s2, Not(has), NULL), (st, has, VPtr(p.obj, at))):
            try:
                s.assume(b)
                out.append((s, r))
            except Dead:
                pass
        return out

    def sid(self, st, p):
        """identity of the string at p"""
        if cval(p.off) == 0:
            return p.obj
        for c in b'.':
            for which in ('first', 'last'):
                at = self.pos(p.obj, c, which)[1]
                for d in (0, 1):
                    if p.off is add(at, I(d)):
                        return '%s from %d after the %s %r' % (p.obj, d, which, chr(c))
        raise Unsupported('an inner string')

    def strieq(self, eng, st, a, ins):
        for p in a[:2]:
            externs.chk_str(eng, st, p, 'resdet_strieq')
        l, r = literal(st, a[0]), literal(st, a[1])
        if l is not None and r is not None:
            return VBool(Bc(l.lower() == r.lower()))
        if l is None and r is None:
            raise Unsupported('comparison of two symbolic strings')
        p, lit = (a[0], r) if l is None else (a[1], l)
        if not st.objs[p.obj].meta.get('string'):
            raise Unsupported('comparison of a string in memory')
        return VBool(streq(st, self.sid(st, p), lit, True))


class Readers:
    """the readers that are built, by the library's own list"""

    def __init__(self, cx, eng):
        self.cx, self.eng = cx, eng
        self.any = cx.anymod()
        L = cx.L
        eng.opts['extern_globals'] = {'@resdet_image_reader_' + n: self.extern for n in ('ffmpeg', 'magickwand')}
        got = []
        eng.run(State(), cx.fn('resdet_image_readers'), [], lambda st, rv: got.append((st, rv)))
        st, p = got[0]
        self.list = []
        off = p.off
        while True:
            v = eng.load(st, PTR, VPtr(p.obj, off), self.any, True)
            if is_null(v):
                break
            self.list.append(v.obj)
            off = add(off, I(8))
            if len(self.list) > 32:
                raise Unsupported('the list of readers is not terminated')
        self.seen = {}
        for k, r in enumerate(self.list):
            if r.startswith('ext@'):
                continue
            for f in OPS:
                v = eng.load(st, PTR, VPtr(r, I(L.off['image_reader'][f])), self.any, True)
                if not isinstance(v, VFn):
                    raise Unsupported('reader %s has no %s' % (r, f))
                if f == 'supports_ext':
                    continue
                n = v.name.lstrip('@')
                if self.seen.setdefault(n, (k, f)) != (k, f):
                    raise Unsupported('two readers share the function name %s' % n)
                eng.contracts[n] = self.handler(k, f)

    def short(self, k):
        return self.list[k].split('resdet_image_reader_')[-1]

    def extern(self, eng, st, on):
        L = self.cx.L
        o = Obj(on, 'const', I(L.size['image_reader']))
        o.writable = False
        st.objs[on] = o
        for f in OPS:
            fo = Obj(on + ':' + f, 'opaque', ONE)
            fo.meta['call'] = lambda eng, st, a, ins, f=f: self.handler(self.list.index(on), f)(eng, st, a, ins)
            st.objs[fo.name] = fo
            o.cells[L.off['image_reader'][f]] = (8, VPtr(fo.name))

    def handler(self, k, f):
        return lambda eng, st, a, ins: getattr(self, f)(k, eng, st, a, ins)

    # -- contracts
    def supports_ext(self, k, eng, st, a, ins):
        externs.chk_str(eng, st, a[0], 'supports_ext')
        l = literal(st, a[0])
        return VBool(self.external(k, l if l is not None else S_(self).sid(st, a[0])))

    def external(self, k, e):
        return bvar('%s supports %s' % (self.short(k), e))

    def open(self, k, eng, st, a, ins):
        eng.oblige(st, 'reader open: the given file', 'pre', samearg(a[0], self.fname))
        eng.oblige(st, 'reader open: one reader is tried', 'pre', Bc('reader' not in st.ghost))
        w, h, e = a[1:4]
        e0 = None
        for p in (w, h, e):
            if not (isinstance(p, VPtr) and p.obj is not None):
                eng.oblige(st, 'reader open: outputs are given', 'pre', FALSE)
                raise Dead()
        e0 = eng.load(st, IntTy(32), e, self.any, True)
        eng.oblige(st, 'reader open: the status is success so far', 'pre', eq(eng.sview(st, e0), ZERO) if isinstance(e0, VInt) else FALSE)
        st.ghost['reader'] = k
        s2 = st.clone()
        s2.note.append('open of reader %s fails' % self.short(k))
        code = var('reader status', -(1 << 31), (1 << 31) - 1)
        s2.assume(ne(code, ZERO))
        s2.ghost['openfail'] = code
        eng.store(s2, IntTy(32), VInt(32, code), e, self.any)
        for s in (s2, st):
            for p, n in ((w, 'width'), (h, 'height')):
                eng.store(s, IntTy(64), VInt(64, var('reader ' + n, 0, U64)), p, self.any)
        q = eng.new_obj(st, 'ctx', 'resource', ONE)
        st.objs['ctx'].meta['alloc'] = 'ctx %d' % k
        return [(s2, NULL), (st, q)]

    def close(self, k, eng, st, a, ins):
        release(eng, st, a[0], 'close of reader %s' % self.short(k), ('ctx %d' % k,))
        return None

    def op(self, what, k, eng, st, ctx, w, h, e):
        o = st.objs.get(ctx.obj) if isinstance(ctx, VPtr) and ctx.obj else None
        eng.oblige(st, 'reader %s: the state of that reader' % what, 'pre', Bc(o is not None and o.live and o.meta.get('alloc') == 'ctx %d' % k))
        eng.oblige(st, 'reader %s: the size of the image' % what, 'pre', And(*[eq(eng.uview(st, v), var('reader ' + n, 0, U64)) if isinstance(v, VInt) else FALSE for v, n in ((w, 'width'), (h, 'height'))]))
        r = bvar('%s result' % what)
        code = var('%s status' % what, -(1 << 31), (1 << 31) - 1)
        st.ghost['op'] = (what, r, code)
        eng.store(st, IntTy(32), VInt(32, code), e, self.any)
        return VBool(r)

    def read_frame(self, k, eng, st, a, ins):
        eng.oblige(st, 'reader read_frame: the given buffer', 'pre', samearg(a[1], self.image))
        return self.op('read_frame', k, eng, st, a[0], a[2], a[3], a[4])

    def seek_frame(self, k, eng, st, a, ins):
        eng.oblige(st, 'reader seek_frame: the given count and callback', 'pre', And(eq(eng.uview(st, a[1]), var('count', 0, U64)), samearg(a[2], self.cb), samearg(a[3], self.cbctx)))
        return self.op('seek_frame', k, eng, st, a[0], a[4], a[5], a[6])


def S_(r):
    return r.strings


def samearg(v, w):
    if not isinstance(v, VPtr) or not isinstance(w, VPtr):
        return FALSE
    return Bc(v.obj == w.obj) if v.obj is None or w.obj is None else And(Bc(v.obj == w.obj), eq(v.off, w.off))


def supports(R, st, k, e):
    """reader k supports extension e (bytes: a literal; str: a ghost string)"""
    if R.list[k].startswith('ext@'):
        return R.external(k, e)
    lits = EXTS.get(R.short(k), [])
    if isinstance(e, bytes):
        return Bc(e.lower() in lits)
    return Or(*[streq(st, e, l, True) for l in lits])


def wanted(R, st, k, how):
    """reader k supports the type, MIME type or extension"""
    if how == 'type':
        slash = bvar("filetype has '/'")
        m = {x: streq(st, 'filetype', x) for x in MIME}
        other = And(*[Not(b) for b in m.values()])
        mime = Or(*([And(b, supports(R, st, k, MIME[x])) for x, b in m.items()] + [And(other, supports(R, st, k, b''))]))
        return ite_b(slash, mime, supports(R, st, k, 'filetype'))
    dot = bvar("filename has '.'")
    return ite_b(dot, supports(R, st, k, "filename from 1 after the last '.'"), supports(R, st, k, b''))


def ite_b(c, a, b):
    return And(Implies(c, a), Implies(Not(c), b))


def dispatch(cx, eng, byname, full=True):
    C = cx.L.const
    L = cx.L
    R = Readers(cx, eng)
    names = []
    if byname:
        got = []
        eng.run(State(), cx.fn('resdet_list_image_readers'), [], lambda st, rv: got.append((st, rv)))
        s0, p = got[0]
        for k in range(len(R.list)):
            names.append(literal(s0, eng.load(s0, PTR, VPtr(p.obj, add(p.off, I(8 * k))), R.any, True)))
    tag = 'resdet_open_image_with_reader' if byname else 'resdet_open_image'
    fn = cx.fn(tag)
    ways = ['name', 'noname'] if byname else ['type', 'ext']
    outs = [('width', 8), ('height', 8), ('imagebuf', 8), ('error', 4)]
    combos = []
    for m in range(32) if full else (0, 8, 16):
        given = dict(zip(['filename', 'width', 'height', 'imagebuf', 'error'], [not m & 1 << i for i in range(5)]))
        for how in ways:
            combos.append((given, how))
    for given, how in combos:
        st = State()
        st.objs.update({})
        R.strings = Strings(eng, st)
        R.fname = R.strings.new(st, 'filename') if given['filename'] else NULL
        second = NULL
        if how == 'type':
            second = R.strings.new(st, 'filetype')
        elif how == 'name':
            second = R.strings.new(st, 'name')
        # text that contains a slash or not
        sl = bvar("filetype has '/'")
        if how == 'type':
            for x in list(MIME):
                st.assume(Implies(streq(st, 'filetype', x), sl))
            for ls in EXTS.values():
                for x in ls:
                    st.assume(Implies(streq(st, 'filetype', x, True), Not(sl)))
        P = {n: eng.new_obj(st, 'out:' + n, 'param', I(z)) if given[n] else NULL for n, z in outs}
        needed = given['width'] and given['height'] and given['filename'] and how != 'noname'

        def done(st, rv, given=given, how=how, P=P, needed=needed):
            g = st.ghost
            o_ = lambda name, b, kind='post': eng.oblige(st, '%s: %s' % (tag, name), kind, b, assume=False)
            ld = lambda n, t: eng.load(st, t, P[n], R.any, True) if given[n] else None
            w, h, b, e = ld('width', IntTy(64)), ld('height', IntTy(64)), ld('imagebuf', PTR), ld('error', IntTy(32))
            if isinstance(rv, VUndef) or not isinstance(rv, VPtr):
                o_('a pointer is returned', FALSE)
                return
            if any(isinstance(x, VUndef) for x in (w, h, b, e)):
                o_('every given output is set', FALSE)
                return
            ev = None if e is None else eng.sview(st, e)
            rw, rh = var('reader width', 0, U64), var('reader height', 0, U64)
            n = mul(rw, rh)
            limit = And(ne(rw, ZERO), ne(rh, ZERO), le(n, I(C['PIXEL_MAX'])), le(scale(n, 4), I(U64)))
            k = g.get('reader')
            if k is not None:
                # the first that matches
                if byname:
                    want = lambda j: streq(st, 'name', names[j], True)
                else:
                    want = lambda j: wanted(R, st, j, how)
                o_('the reader that is opened is one that matches', want(k))
                o_('no reader before it in the list matches', And(*[Not(want(j)) for j in range(k)]))
            if is_null(rv):
                no_leak(eng, st, tag='%s: everything is released on failure' % tag)
                for x in (w, h):
                    o_('width and height are zero on failure', TRUE if x is None else eq(eng.uview(st, x), ZERO))
                o_('no buffer on failure', TRUE if b is None else Bc(is_null(b)))
                if not needed:
                    exits_reached(eng, st, 'param')
                    o_('nothing is opened without the required arguments', Bc(k is None))
                    o_('missing arguments are a parameter error', TRUE if e is None else eq(ev, I(C['RDEPARAM'])))
                    return
                o_('a failure has a nonzero status', TRUE if e is None else ne(ev, ZERO))
                if g.get('allocfail'):
                    exits_reached(eng, st, 'nomem')
                    o_('lack of memory is reported', TRUE if e is None else eq(ev, I(C['RDENOMEM'])))
                elif k is None:
                    exits_reached(eng, st, 'unsupported')
                    want = (lambda j: streq(st, 'name', names[j], True)) if byname else (lambda j: wanted(R, st, j, how))
                    o_('unsupported only if no reader matches', And(*[Not(want(j)) for j in range(len(R.list))]))
                    o_('no matching reader is reported as unsupported', TRUE if e is None else eq(ev, I(C['RDEUNSUPP'])))
                elif g.get('openfail') is not None:
                    exits_reached(eng, st, 'openfail')
                    o_('the status of the reader is reported', TRUE if e is None else eq(ev, g['openfail']))
                else:
                    exits_reached(eng, st, 'toobig')
                    o_('a size is refused only beyond the limits', Not(limit))
                    o_('a refused size is too big', TRUE if e is None else eq(ev, I(C['RDETOOBIG'])))
                return
            exits_reached(eng, st, 'ok')
            o_('an image only with the required arguments', Bc(needed))
            o_('an image only from an opened reader', Bc(k is not None and g.get('openfail') is None))
            o_('an image has status success', TRUE if e is None else eq(ev, ZERO))
            o_('accepted sizes are within the limits', limit)
            o_('the size of the image is delivered', And(*[eq(eng.uview(st, x), y) for x, y in ((w, rw), (h, rh)) if x is not None]))
            if b is not None:
                ob = st.objs.get(b.obj) if isinstance(b, VPtr) and b.obj else None
                good = ob is not None and ob.live and ob.kind == 'heap'
                o_('the buffer holds width times height pixels', And(eq(b.off, ZERO), ge(ob.size, scale(n, 4))) if good else FALSE)
            if not needed or k is None:
                return
            # what the image does afterwards
            if given['imagebuf'] and given['error']:
                ops(st, rv, b)
            else:
                rest(st, rv, b)

        def rest(st, rv, b):
            def closed(s, r):
                if b is not None and isinstance(b, VPtr) and b.obj:
                    release(eng, s, b, 'free by the caller')
                no_leak(eng, s, tag='%s: closing the image releases everything' % tag)
            eng.run(st, cx.fn('resdet_close_image'), [rv], closed)

        def ops(st, rv, b):
            for what in ('read', 'seek'):
                for ge_ in (0, 1):
                    s = st.clone()
                    er = eng.new_obj(s, 'status', 'param', I(4)) if ge_ else NULL
                    R.image = b
                    R.cbctx = eng.new_obj(s, 'progress ctx', 'opaque', ONE)
                    R.cb = eng.new_obj(s, 'progress', 'opaque', ONE)

                    def did(s, r, er=er, what=what):
                        x = s.ghost.get('op')
                        o_ = lambda name, c: eng.oblige(s, '%s: %s' % (tag, name), 'post', c, assume=False)
                        o_('reading and seeking use the reader of the image', Bc(x is not None and x[0] == what + '_frame'))
                        if x is None:
                            return
                        o_('%s: the result of the reader is returned' % what, Iff(eng.as_bool(s, r), x[1]))
                        if er.obj is not None:
                            v = eng.load(s, IntTy(32), er, R.any, True)
                            o_('%s: the status of the reader is returned' % what, eq(eng.sview(s, v), x[2]) if isinstance(v, VInt) else FALSE)
                        rest(s, rv, b)
                    if what == 'read':
                        eng.run(s, cx.fn('resdet_read_image_frame'), [rv, b, er], did)
                    else:
                        eng.run(s, cx.fn('resdet_seek_frame'), [rv, VInt(64, var('count', 0, U64)), R.cb, R.cbctx, er], did)
        eng.run(st, fn, [R.fname, second] + [P[n] for n, _ in outs], done)


def fold(c):
    return ite(And(ge(c, I(65)), le(c, I(90))), add(c, I(32)), c)


def strieq(cx, eng, same):
    """resdet_strieq on two strings: `same` assumes that they are equal ignoring case"""
    st = State()
    A = {}
    for n in ('left', 'right'):
        ln = var('len ' + n, 0, 1 << 62)
        a = abase('chars ' + n, 'I')
        p = eng.new_obj(st, n, 'param', add(ln, ONE))
        o = st.objs[n]
        o.stride = 1
        o.writable = False
        o.fields[0] = (1, 'I', a)
        A[n] = (p, ln, a)
        st.q[a] = (lambda i, a=a, ln=ln: And(ge(select(a, i), ZERO), le(select(a, i), I(255)), Implies(And(ge(i, ZERO), lt(i, ln)), ne(select(a, i), ZERO)), Implies(eq(i, ln), eq(select(a, i), ZERO))),)
    (p, ln, a), (q, rn, b) = A['left'], A['right']
    x = var('position', 0, 1 << 62)
    at = lambda arr, i: fold(select(arr, i))
    if same:
        st.assume(eq(ln, rn))
        st.q[a] += (lambda i: Implies(And(ge(i, ZERO), lt(i, ln)), eq(at(a, i), at(b, i))),)
    else:
        select(a, x), select(b, x)

    def tolower(eng, st, v, ins):
        c = eng.sview(st, eng.as_int(st, v[0], 32))
        u = ite(lt(c, I(-1)), add(c, I(256)), c)
        eng.oblige(st, 'tolower: a character', 'pre', And(ge(c, I(-128)), le(c, I(255))))
        return VInt(32, fold(u))
    eng.externs['tolower'] = tolower

    def tmpl(ctx):
        H = ctx.head
        ps = [v for v, k in ctx.info['kinds'].items() if isinstance(k, tuple) and k[0] == 'ptr']
        ix = [v for v, k in ctx.info['kinds'].items() if k == 'i64' and not v.startswith('ghost')]
        for v in ps + ix:
            yield 'l ' + v, And(le(H[v], ln), ge(H[v], ZERO))
            yield 'r ' + v, le(H[v], rn)
            if not same:
                yield 'eq ' + v, Implies(lt(x, H[v]), eq(at(a, x), at(b, x)))
        for v in ps + ix:
            for w in ps + ix:
                if v < w:
                    yield 'same %s %s' % (v, w), eq(H[v], H[w])
    eng.templates = {'*': tmpl}
    eng.opts['measures'] = {'*': lambda ctx: [sub(ln, ctx.head[v]) for v, k in ctx.info['kinds'].items() if isinstance(k, tuple) and k[0] == 'ptr' or k == 'i64' and not v.startswith('ghost')]}

    def done(st, rv):
        r = eng.as_bool(st, rv)
        if same:
            eng.oblige(st, 'strings that are equal ignoring case are recognised', 'post', r)
            exits_reached(eng, st, 'done')
            return
        eng.oblige(st, 'strings found equal have the same length', 'post', Implies(r, eq(ln, rn)))
        eng.oblige(st, 'strings found equal have the same letters ignoring case', 'post', Implies(And(r, lt(x, ln)), eq(at(a, x), at(b, x))))
        exits_reached(eng, st, 'done')
    eng.run(st, cx.fn('resdet_strieq'), [p, q], done)


def tasks(tier):
    return [Task('resdet_strieq, equal strings', lambda cx, eng: strieq(cx, eng, True), exits=('done',)),
            Task('resdet_strieq, any strings', lambda cx, eng: strieq(cx, eng, False), exits=('done',)),
            Task('resdet_open_image', lambda cx, eng: dispatch(cx, eng, False), exits=('ok', 'param', 'unsupported', 'openfail', 'toobig', 'nomem')),
            Task('resdet_open_image_with_reader', lambda cx, eng: dispatch(cx, eng, True), exits=('ok', 'param', 'unsupported', 'openfail', 'toobig', 'nomem'))]
