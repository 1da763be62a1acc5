"""C14: resdetect_file equals open, create, read and analyse every frame, results; everything released."""
from specs.seq import *
import specs.seq

TEXT = dict(specs.seq.TEXT)
TEXT.update({
    'resdet_open_image': 'contract proved in C20/C03: null, zero size and a nonzero status, or an image, its size and a buffer of that size',
    'resdet_read_image_frame': 'contract proved in C16-C19: true and the next frame, false and success at the end, false and a failure code; a file has finitely many frames',
    'resdet_close_image': 'contract proved in C22: releases the image; null is a no-op',
})


class File(Seq):
    def __init__(self, cx, eng, m, p, out, fname, ftype):
        self.fw, self.fh = var('width', 1, U64), var('height', 1, U64)
        Seq.__init__(self, cx, eng, lambda s: self.fw, lambda s: self.fh, lambda s: m, p, out, self.frame)
        self.fname, self.ftype = fname, ftype
        eng.contracts.update(resdet_open_image=self.open, resdet_read_image_frame=self.read, resdet_close_image=self.close)

    def start(self, st):
        Seq.start(self, st)
        st.ghost['delivered'] = ZERO
        st.ghost['remaining'] = var('frames', 0, U64)
        st.ghost['ended'] = ZERO

    def open(self, eng, st, a, ins):
        any_ = self.cx.anymod()
        eng.oblige(st, 'resdet_open_image: the given file and type, once', 'pre', And(Bc(not events(st, 'open')), samearg(eng, st, a[0], self.fname), samearg(eng, st, a[1], self.ftype)))
        w, h, b, e = a[2:6]
        good = all(isinstance(x, VPtr) and x.obj is not None for x in (w, h)) and all(isinstance(x, VPtr) for x in (b, e))
        eng.oblige(st, 'resdet_open_image: outputs are given', 'pre', Bc(good))
        if not good:
            raise Dead()
        s2 = st.clone()
        s2.note.append('open fails')
        code = var('openfail', 1, 7)
        log(s2, 'open', None, code)
        for s in (s2, st):
            ok = s is st
            eng.store(s, IntTy(64), VInt(64, self.fw if ok else ZERO), w, any_)
            eng.store(s, IntTy(64), VInt(64, self.fh if ok else ZERO), h, any_)
            if e.obj is not None:
                eng.store(s, IntTy(32), VInt(32, ZERO if ok else code), e, any_)
            if b.obj is not None and not ok:
                eng.store(s, PTR, NULL, b, any_)
        if b.obj is not None:
            st.assume(le(scale(mul(self.fw, self.fh), 4), I((1 << 63) - 1)))
            q = eng.new_obj(st, 'framebuf', 'heap', scale(mul(self.fw, self.fh), 4))
            st.objs['framebuf'].meta['alloc'] = 'heap'
            eng.store(st, PTR, q, b, any_)
        r = eng.new_obj(st, 'rdimage', 'resource', ONE)
        st.objs['rdimage'].meta['alloc'] = 'rdimage'
        log(st, 'open', 'rdimage', ZERO)
        return [(s2, NULL), (st, r)]

    def buf_ok(self, eng, st, v, what):
        o = st.objs.get(v.obj) if isinstance(v, VPtr) and v.obj else None
        good = o is not None and o.live
        eng.oblige(st, '%s: a buffer of the size of the image' % what, 'pre', And(eq(v.off, ZERO), ge(o.size, scale(mul(self.fw, self.fh), 4))) if good else FALSE)
        if not good:
            raise Dead()

    def read(self, eng, st, a, ins):
        p = a[0]
        o = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
        good = o is not None and o.live and o.meta.get('alloc') == 'rdimage'
        eng.oblige(st, 'resdet_read_image_frame: the image is open', 'pre', Bc(good))
        if not good:
            raise Dead()
        self.buf_ok(eng, st, a[1], 'resdet_read_image_frame')
        g = st.ghost
        eng.oblige(st, 'resdet_read_image_frame: every earlier frame was analysed', 'pre', eq(g['analysed'], g['delivered']))
        eng.oblige(st, 'resdet_read_image_frame: no earlier step failed and the end was not reached', 'pre', And(eq(g['code'], ZERO), eq(g['ended'], ZERO)))
        e = a[2]
        good = isinstance(e, VPtr) and e.obj is not None
        eng.oblige(st, 'resdet_read_image_frame: a status is asked for', 'pre', Bc(good))
        if not good:
            raise Dead()
        out = []
        code = var(st.site('readfail:' + st.fr.path), 1, 7)
        for kind in ('fail', 'end', 'frame'):
            s = st.clone()
            s.note.append('read: ' + kind)
            eng.store(s, IntTy(32), VInt(32, code if kind == 'fail' else ZERO), e, self.cx.anymod())
            if kind == 'fail':
                self.setg(s, 'code', code)
            elif kind == 'end':
                self.setg(s, 'ended', ONE)
            else:
                try:
                    s.assume(gt(s.ghost['remaining'], ZERO))
                except Dead:
                    continue
                self.setg(s, 'remaining', sub(s.ghost['remaining'], ONE))
                self.setg(s, 'delivered', add(s.ghost['delivered'], ONE))
            out.append((s, VBool(TRUE if kind == 'frame' else FALSE)))
        return out

    def frame(self, eng, st, v, k):
        self.buf_ok(eng, st, v, 'resdet_analyze_image')
        eng.oblige(st, 'resdet_analyze_image: each frame once, as it is read', 'pre', eq(st.ghost['delivered'], add(k, ONE)))

    def results(self, eng, st, a, ins):
        eng.oblige(st, 'resdet_analysis_results: only after the end of the file', 'pre', ne(st.ghost['ended'], ZERO))
        return Seq.results(self, eng, st, a, ins)

    def close(self, eng, st, a, ins):
        p = a[0]
        if isinstance(p, VUndef):
            eng.oblige(st, 'resdet_close_image: an uninitialised pointer', 'pre', FALSE)
            raise Dead()
        if isinstance(p, VPtr) and p.obj is not None:
            release(eng, st, p, 'resdet_close_image', ('rdimage',))
        return None


def run(cx, eng, mask, gt_, gm, gp):
    C = cx.L.const
    st = State()
    out = outputs(eng, st, mask)
    m = method_arg(eng, st, gm)
    p = eng.new_obj(st, 'params', 'opaque', ONE) if gp else NULL
    fn = eng.new_obj(st, 'filename', 'opaque', ONE)
    ft = eng.new_obj(st, 'filetype', 'opaque', ONE) if gt_ else NULL
    S = File(cx, eng, m, p, out, fn, ft)
    S.start(st)
    tag = 'resdetect_file(outputs %d)' % mask

    def tmpl(ctx):
        yield from seq_templates(ctx)
        H = ctx.head
        a, d = H.get('ghost:analysed'), H.get('ghost:delivered')
        if a is not None and d is not None:
            yield 'analysed', eq(a, d)
            yield 'analysed+', eq(add(a, ONE), d)
            yield 'delivered', ge(d, ZERO)
        if H.get('ghost:ended') is not None:
            yield 'not ended', eq(H['ghost:ended'], ZERO)
        if H.get('ghost:code') is not None:
            yield 'no failure', eq(H['ghost:code'], ZERO)
        if H.get('ghost:remaining') is not None:
            yield 'remaining', ge(H['ghost:remaining'], ZERO)
            for v in ctx.ints():
                if ctx.info['kinds'][v] in ('i8', 'i32', 'i1'):
                    yield 'zero:' + v, eq(H[v], ZERO)
    eng.templates = {'*': tmpl}
    # a delivered frame consumes one of the finitely many; the end and a failure are final
    eng.opts['measures'] = {'*': lambda ctx: [add(ctx.head['ghost:remaining'], ite(And(eq(ctx.head.get('ghost:ended', ZERO), ZERO), eq(ctx.head.get('ghost:code', ZERO), ZERO)), ONE, ZERO))]
                            if 'ghost:remaining' in ctx.head else []}

    def done(st, rv):
        def o_(name, b, kind='post'):
            eng.oblige(st, '%s: %s' % (tag, name), kind, b, assume=False)
        r = ret_int(eng, st, rv)
        op, cr, rs = events(st, 'open'), events(st, 'create'), events(st, 'results')
        no_leak(eng, st, tag='%s: image, buffer and analysis are released' % tag)
        if r is None:
            o_('a status is returned', FALSE)
            return
        if bad_mask(mask):
            exits_reached(eng, st, 'refused')
            o_('a missing count output is a parameter error', eq(r, I(C['RDEPARAM'])))
            o_('a refused call does nothing', Bc(not op and not cr and not rs))
            S.check_outputs(st, tag, False)
            return
        if not op:
            o_('the file is opened', FALSE)
            return
        if op[0][1] is None:
            exits_reached(eng, st, 'openfail')
            o_('the status of a failed open is returned', eq(r, op[0][2]))
            o_('nothing is created after a failed open', Bc(not cr and not rs))
            S.check_outputs(st, tag, False)
            return
        if not cr:
            o_('an analysis is created', FALSE)
            return
        if cr[0][1] is None:
            exits_reached(eng, st, 'createfail')
            o_('the status of a failed creation is returned', eq(r, cr[0][2]))
            o_('nothing is analysed after a failed creation', And(eq(st.ghost['analysed'], ZERO), Bc(not rs)))
            S.check_outputs(st, tag, False)
            return
        if rs:
            _, code, cnt = rs[0]
            ok = code is ZERO
            exits_reached(eng, st, 'ok' if ok else 'resultsfail')
            o_('every frame was analysed before the results', And(ne(st.ghost['ended'], ZERO), eq(cnt, st.ghost['delivered']), eq(st.ghost['analysed'], cnt)))
            o_('returns the status of the results', eq(r, code))
            S.check_outputs(st, tag, ok)
            return
        exits_reached(eng, st, 'stepfail')
        o_('results are not obtained only when reading or analysing failed, whose status is returned', And(ne(st.ghost['code'], ZERO), eq(r, st.ghost['code'])))
        S.check_outputs(st, tag, False)
    eng.run(st, cx.fn('resdetect_file'), [fn, ft, out['rw'], out['cw'], out['rh'], out['ch'], m, p], done)


def tasks(tier):
    out = []
    for mask in range(16):
        for k in range(8):
            if k != 7 and mask != 15:
                continue
            out.append(Task('resdetect_file, outputs %d, type %d, method %d, params %d' % (mask, k & 1, k >> 1 & 1, k >> 2),
                            lambda cx, eng, mask=mask, k=k: run(cx, eng, mask, k & 1, k >> 1 & 1, k >> 2),
                            exits=('refused',) if bad_mask(mask) else ('ok', 'openfail', 'createfail', 'stepfail', 'resultsfail')))
    return out
