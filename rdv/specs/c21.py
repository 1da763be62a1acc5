"""C21: bulk reading."""
from specs.seq import *
from specs import c14

TEXT = dict(c14.TEXT)
TEXT['realloc'] = 'realloc(p,n) returns null leaving p as it is, or moves the block: same contents up to the smaller size, every old pointer is dead'


class Bulk:
    """ghost: the file delivers `remaining` more frames; frame k consists of the elements k*w*h to (k+1)*w*h of the ghost array FRAMES"""

    def __init__(self, cx, eng):
        self.cx, self.eng = cx, eng
        self.w, self.h = var('width', 1, U64), var('height', 1, U64)
        self.n = mul(self.w, self.h)
        self.F = abase('FRAMES', 'F32')
        self.x0 = var('element', 0, U64)
        eng.contracts.update(resdet_open_image=self.open, resdet_read_image_frame=self.read, resdet_close_image=self.close)
        eng.externs['realloc'] = self.realloc

    def set(self, st, k, v):
        self.eng.note_write(st, None, ('ghost', k))
        st.ghost[k] = v

    def ptr(self, eng, st, p, what):
        good = isinstance(p, VPtr) and p.obj is not None
        eng.oblige(st, what, 'pre', Bc(good))
        if not good:
            raise Dead()

    def open(self, eng, st, a, ins):
        any_ = self.cx.anymod()
        eng.oblige(st, 'resdet_open_image: the given file and type, once', 'pre', And(Bc(not st.ghost.get('opened')), samearg(eng, st, a[0], self.fname), samearg(eng, st, a[1], self.ftype)))
        w, h, b, e = a[2:6]
        for p in (w, h, b, e):
            self.ptr(eng, st, p, 'resdet_open_image: outputs are given')
        L = self.cx.L.const
        s2 = st.clone()
        s2.note.append('open fails')
        s2.ghost['openfail'] = True
        self.set(s2, 'code', var('openfail', 1, 7))
        for s in (s2, st):
            ok = s is st
            eng.store(s, IntTy(64), VInt(64, self.w if ok else ZERO), w, any_)
            eng.store(s, IntTy(64), VInt(64, self.h if ok else ZERO), h, any_)
            eng.store(s, IntTy(32), VInt(32, ZERO if ok else s.ghost['code']), e, any_)
            s.ghost['opened'] = True
        eng.store(s2, PTR, NULL, b, any_)
        st.assume(le(self.n, I(min(L['PIXEL_MAX'], ((1 << 63) - 1) // 4))))
        q = eng.new_obj(st, 'block', 'heap', scale(self.n, 4))
        st.objs['block'].meta['alloc'] = 'heap'
        eng.to_array(st, 'block', 4)
        eng.store(st, PTR, q, b, any_)
        r = eng.new_obj(st, 'rdimage', 'resource', ONE)
        st.objs['rdimage'].meta['alloc'] = 'rdimage'
        return [(s2, NULL), (st, r)]

    def read(self, eng, st, a, ins):
        g = st.ghost
        p = a[0]
        o = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
        good = o is not None and o.live and o.meta.get('alloc') == 'rdimage'
        eng.oblige(st, 'resdet_read_image_frame: the image is open', 'pre', Bc(good))
        if not good:
            raise Dead()
        self.ptr(eng, st, a[2], 'resdet_read_image_frame: a status is asked for')
        eng.oblige(st, 'resdet_read_image_frame: the end was not reached and nothing failed', 'pre', And(Not(g['ended']), eq(g['code'], ZERO)))
        d = a[1]
        o = st.objs.get(d.obj) if isinstance(d, VPtr) and d.obj else None
        good = o is not None and o.live and o.name == 'block'
        nb = scale(self.n, 4)
        eng.oblige(st, 'each frame is read into memory that belongs to the block', 'post', And(ge(d.off, ZERO), le(add(d.off, nb), o.size)) if good else FALSE)
        if not good:
            raise Dead()
        eng.oblige(st, 'frame k is read to offset k times width times height', 'post', eq(d.off, mul(nb, g['delivered'])))
        code = var(st.site('readfail'), 1, 7)
        at = mul(self.n, g['delivered'])
        out = []
        for kind in ('fail', 'end', 'frame'):
            s = st.clone()
            s.note.append('read: ' + kind)
            eng.store(s, IntTy(32), VInt(32, code if kind == 'fail' else ZERO), a[2], self.cx.anymod())
            eng.note_write(s, s.objs['block'], ('field', 'block', 0, 4))
            eng.pass_kinds.setdefault(('block', 0), 'F32')
            eng.pass_strides.setdefault('block', 4)
            b = s.wobj('block')
            f = b.fields.get(0) or (4, 'F32', eng.fresh_field(b, 0, 4, 'F32'))
            src = self.F if kind == 'frame' else abase(s.site('junk'), 'F32')
            if kind == 'fail':
                self.set(s, 'code', code)
            elif kind == 'end':
                self.set(s, 'ended', TRUE)
            else:
                try:
                    s.assume(gt(g['remaining'], ZERO))
                except Dead:
                    continue
                self.set(s, 'remaining', sub(g['remaining'], ONE))
                self.set(s, 'delivered', add(g['delivered'], ONE))
            b.fields[0] = (4, 'F32', acopy(f[2], at, self.n, src, at))
            out.append((s, VBool(TRUE if kind == 'frame' else FALSE)))
        return out

    def close(self, eng, st, a, ins):
        p = a[0]
        if isinstance(p, VUndef):
            eng.oblige(st, 'resdet_close_image: an uninitialised pointer', 'pre', FALSE)
            raise Dead()
        if p.obj is not None:
            release(eng, st, p, 'resdet_close_image', ('rdimage',))
        return None

    def realloc(self, eng, st, a, ins):
        p, n = a[0], eng.uview(st, a[1])
        if not (isinstance(p, VPtr) and p.obj == 'block'):
            return externs.x_realloc(eng, st, a, ins)
        o = st.objs['block']
        eng.oblige(st, 'realloc of the live block', 'free', And(Bc(o.live), eq(p.off, ZERO)))
        if not o.live:
            raise Dead()
        s2 = st.clone()
        s2.ghost['allocfail'] = True
        s2.note.append('realloc fails')
        st.assume(le(n, I((1 << 63) - 1)))
        # the block keeps its name; all other pointers to it are dead
        for x in list(st.objs.values()):
            for off, c in list(x.cells.items()):
                if isinstance(c[1], VPtr) and c[1].obj == 'block':
                    eng.note_write(st, x, ('cell', x.name, off, c[0]))
                    st.wobj(x.name).cells[off] = (c[0], UNDEF)
        for k, fr in enumerate(st.frames):
            for r, v in list(fr.env.items()):
                if isinstance(v, VPtr) and v.obj == 'block':
                    for _, _, info in fr.loops:
                        if r in info['st0'].frames[k].env and r not in info['head']:
                            raise Unsupported('a pointer to the block from before the loop')
                    fr.env[r] = UNDEF
        eng.note_write(st, o, ('size', 'block'))
        w = st.wobj('block')
        old = w.size
        w.size = n
        if 0 in w.fields:
            f = w.fields[0]
            eng.note_write(st, o, ('field', 'block', 0, 4))
            keep = idiv(ite(le(old, n), old, n), I(4))
            if eng.proves(st, le(old, n)):
                keep = idiv(old, I(4))
            w.fields[0] = (f[0], f[1], acopy(abase(st.site('grown'), 'F32'), ZERO, keep, f[2], ZERO))
        return [(s2, NULL), (st, VPtr('block', ZERO))]


def run(cx, eng, gt_):
    C = cx.L.const
    st = State()
    B = Bulk(cx, eng)
    B.fname = eng.new_obj(st, 'filename', 'opaque', ONE)
    B.ftype = eng.new_obj(st, 'filetype', 'opaque', ONE) if gt_ else NULL
    outs = {}
    for o, n in (('images', 8), ('nimages', 8), ('width', 8), ('height', 8)):
        outs[o] = eng.new_obj(st, 'out:' + o, 'param', I(n))
    st.ghost.update(delivered=ZERO, remaining=var('frames', 0, U64), ended=FALSE, code=ZERO)
    tag = 'resdet_read_image'

    def tmpl(ctx):
        H = ctx.head
        d = H.get('ghost:delivered')
        if d is None:
            return
        yield 'delivered', ge(d, ZERO)
        yield 'remaining', ge(H['ghost:remaining'], ZERO) if 'ghost:remaining' in H else TRUE
        if 'ghost:ended' in H:
            yield 'open', Not(H['ghost:ended'])
        if 'ghost:code' in H:
            yield 'fine', eq(H['ghost:code'], ZERO)
        for v in H:
            if v.startswith('size:'):
                yield 'room', eq(H[v], scale(mul(B.n, add(d, ONE)), 4))
            elif v.startswith('mem:') and H[v].sort == 'I':
                yield 'count:' + v, eq(H[v], d)
                yield 'zero:' + v, eq(H[v], ZERO)
            elif ctx.info['kinds'][v] == 'i64' and not v.startswith('ghost'):
                yield 'count:' + v, eq(H[v], d)
                yield 'counted:' + v, eq(H[v], mul(B.n, d))
            elif ctx.info['kinds'][v] == 'AF32':
                yield 'frames:' + v, Implies(lt(B.x0, mul(B.n, d)), fsame(select(H[v], B.x0), select(B.F, B.x0)))
    eng.templates = {'*': tmpl}
    eng.opts['measures'] = {'*': lambda ctx: [ctx.head['ghost:remaining']] if 'ghost:remaining' in ctx.head else []}

    def done(st, rv):
        def o_(name, b, kind='post'):
            eng.oblige(st, '%s: %s' % (tag, name), kind, b, assume=False)
        r = ret_int(eng, st, rv)
        g = st.ghost
        if r is None:
            o_('a status is returned', FALSE)
            return
        any_ = cx.anymod()
        im = eng.load(st, PTR, outs['images'], any_, True)
        n, w, h = (eng.load(st, IntTy(64), outs[k], any_, True) for k in ('nimages', 'width', 'height'))
        ok = eng.decide(st, eq(r, ZERO))
        bulk = isinstance(im, VPtr) and im.obj == 'block'
        if ok is True:
            exits_reached(eng, st, 'ok')
            no_leak(eng, st, keep=('block',), tag='%s: the image is closed' % tag)
            live = bulk and st.objs['block'].live and not isinstance(n, VUndef)
            o_('success only at the end of the file', And(g['ended'], eq(g['code'], ZERO)))
            o_('the block and the number of frames are delivered', And(eq(im.off, ZERO), eq(eng.uview(st, n), g['delivered'])) if live else FALSE)
            o_('the size is delivered', And(eq(eng.uview(st, w), B.w), eq(eng.uview(st, h), B.h)))
            if live:
                f = st.objs['block'].fields.get(0)
                o_('frame k is at offset k times width times height', Implies(lt(B.x0, mul(B.n, g['delivered'])), fsame(select(f[2], B.x0), select(B.F, B.x0))) if f else FALSE)
            return
        if ok is None:
            o_('the status is known', FALSE)
            return
        no_leak(eng, st, tag='%s: everything is released on failure' % tag)
        o_('no block on failure', Bc(is_null(im)))
        if g.get('openfail'):
            exits_reached(eng, st, 'openfail')
            o_('the status of a failed open is returned', eq(r, g['code']))
            return
        more = mul(B.n, add(g['delivered'], ONE))
        if g.get('allocfail'):
            exits_reached(eng, st, 'allocfail')
            o_('a failed allocation is reported', eq(r, I(C['RDENOMEM'])))
            return
        exits_reached(eng, st, 'fail')
        o_('a failed read is reported with its status, a block beyond the limits as too big',
           And(Not(g['ended']), Or(And(ne(g['code'], ZERO), eq(r, g['code'])), And(eq(g['code'], ZERO), eq(r, I(C['RDETOOBIG'])), gt(more, I(min(C['PIXEL_MAX'], U64 // 4)))))))
    eng.run(st, cx.fn('resdet_read_image'), [B.fname, B.ftype, outs['images'], outs['nimages'], outs['width'], outs['height']], done)


def tasks(tier):
    return [Task('resdet_read_image, %s' % ('type given' if k else 'no type'), lambda cx, eng, k=k: run(cx, eng, k), exits=('ok', 'openfail', 'allocfail', 'fail')) for k in (0, 1)] + [
        Task('resdet_read_image, PIXEL_MAX=%s' % m, lambda cx, eng: run(cx, eng, 0), defs=('-DPIXEL_MAX=' + m,), exits=('ok', 'openfail', 'allocfail', 'fail')) for m in ('1000', '0x123456789a')]
