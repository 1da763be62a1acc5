"""The PNG and JPEG readers over contracts of libpng, libjpeg and setjmp/longjmp (C24, and the PNG/JPEG part of C19).

A failing decoder call runs the error function the reader has installed, and that has to jump to a live setjmp.
What the decoder delivers are arbitrary byte arrays: the rows of the (last pass of the) image."""
from specs.stream import *
from specs import stream
import engine
from engine import JUMPED, Obj

TEXT = dict(stream.TEXT)
TEXT.update({
    '_setjmp': 'setjmp(buf) returns 0, and the value given to longjmp(buf) when that is called while the caller of setjmp has not returned; local variables then are as they were at setjmp',
    'longjmp': 'longjmp(buf,v) continues at the last setjmp(buf)',
    'png_longjmp': 'png_longjmp(png,v) is the longjmp function given to png_set_longjmp_fn on the buffer it returned',
    'png_set_longjmp_fn': 'png_set_longjmp_fn stores the function and returns the jump buffer kept with the PNG structure',
    'png_create_read_struct': 'png_create_read_struct returns null or a structure that will call the given error function',
    'png_create_info_struct': 'png_create_info_struct returns null or a structure, and does not call the error function',
    'png_destroy_read_struct': 'png_destroy_read_struct releases and nulls both structures, and does nothing if there is none',
    'png_sig_cmp': 'png_sig_cmp compares the given bytes with the signature, arbitrarily, without failing',
    'png_init_io': 'png_init_io', 'png_set_sig_bytes': 'png_set_sig_bytes(png,n): n bytes were read before',
    'png_read_info': 'png_read_info fails, or determines a width and height of 1 to 2^31-1, one of the 15 combinations of color type and bit depth, transparency and interlacing',
    'png_get_image_width': 'the width', 'png_get_image_height': 'the height', 'png_get_bit_depth': 'the bit depth', 'png_get_color_type': 'the color type, after png_read_update_info the one delivered',
    'png_get_valid': 'png_get_valid(png,info,PNG_INFO_tRNS): whether there is transparency', 'png_get_channels': 'the number of channels', 'png_get_rowbytes': 'the size of a row', 'png_get_interlace_type': 'the interlacing',
    'png_set_tRNS_to_alpha': 'expands palettes, depths below 8 and transparency (as in libpng 1.6)', 'png_set_expand': 'as png_set_tRNS_to_alpha', 'png_set_palette_to_rgb': 'as png_set_tRNS_to_alpha',
    'png_set_expand_gray_1_2_4_to_8': 'expands palettes and depths below 8', 'png_set_strip_16': '16 bit samples become 8', 'png_set_scale_16': '16 bit samples become 8', 'png_set_strip_alpha': 'the alpha channel is dropped',
    'png_set_interlace_handling': 'returns 7 for an interlaced image, otherwise 1; whole rows are then delivered',
    'png_read_update_info': 'png_read_update_info fails, or fixes the format that is delivered',
    'png_read_row': 'png_read_row fails, or delivers the next row of the pass into a buffer that holds the row of the pass before',
    'png_read_end': 'png_read_end fails or not',
    'jpeg_CreateDecompress': 'jpeg_CreateDecompress fails or not, and makes jpeg_destroy_decompress safe', 'jpeg_destroy_decompress': 'jpeg_destroy_decompress releases everything held by the structure; again: nothing',
    'jpeg_stdio_src': 'jpeg_stdio_src fails or not', 'jpeg_read_header': 'jpeg_read_header fails or not, and chooses an output color space',
    'jpeg_start_decompress': 'jpeg_start_decompress fails, or sets an output size of 1 to 65500 each and a recommended buffer height of 1 to 4 rows',
    'jpeg_read_scanlines': 'jpeg_read_scanlines fails, or delivers at least one and at most the given number of the rows that remain, one to each pointer, and counts them',
})
IMAX = (1 << 31) - 1
DEPTHS = {0: (1, 2, 4, 8, 16), 2: (8, 16), 3: (1, 2, 4, 8), 4: (8, 16), 6: (8, 16)}


class Decode:
    fmt = None
    jumpsize = 200

    def __init__(self, cx, eng, stdin):
        self.cx, self.eng, self.any = cx, eng, cx.anymod()
        self.S = Stream(cx, eng, 'filename')
        for n in dir(self):
            if n.startswith('c_'):
                eng.externs[n[2:]] = getattr(self, n)
        eng.externs['longjmp'] = eng.externs['_longjmp'] = eng.externs['siglongjmp'] = lambda eng, st, a, ins: self.longjmp(eng, st, a[0], eng.sview(st, eng.as_int(st, a[1], 32)))
        eng.externs['_setjmp'] = eng.externs['setjmp'] = eng.externs['__sigsetjmp'] = self.setjmp
        eng.templates = {'*': self.templates}
        self.W, self.H = var('width', 1, IMAX), var('height', 1, IMAX)
        self.y0, self.x0 = var('pixelrow', 0, IMAX), var('pixelcol', 0, IMAX)
        self.n0 = add(mul(self.y0, self.W), self.x0)
        self.inside = And(lt(self.y0, self.H), lt(self.x0, self.W))
        st = State()
        p = eng.new_obj(st, 'filename', 'opaque', ONE)
        m = st.objs['filename'].meta
        m['string'] = 'filename'
        m['streq'] = lambda eng, st, sp, lit, fold: Bc(stdin) if lit == b'-' else FALSE if stdin else bvar('filename=%r' % lit)
        self.S.start(st)
        st.ghost.update(rows=ZERO)
        self.st, self.filename = st, p

    def post(self, st, name, b):
        self.eng.oblige(st, '%s: %s' % (self.fmt, name), 'post', b, assume=False)

    def pre(self, st, name, b):
        if st.ghost.get('erring'):
            self.post(st, 'the error function does not return', FALSE)
            raise Dead()
        self.eng.oblige(st, '%s at %s' % (name, self.eng.curloc), 'pre', b)

    def fn(self, field):
        """a function of the reader, from its table"""
        got = []
        self.eng.run(State(), self.cx.fn('resdet_image_readers'), [], lambda st, rv: got.append((st, rv)))
        st, p = got[0]
        for k in range(32):
            v = self.eng.load(st, PTR, VPtr(p.obj, add(p.off, I(8 * k))), self.any, True)
            if is_null(v):
                break
            if v.obj.endswith('resdet_image_reader_' + self.reader):
                f = self.eng.load(st, PTR, VPtr(v.obj, I(self.cx.L.off['image_reader'][field])), self.any, True)
                if isinstance(f, VFn):
                    return self.eng.find(f.name, f.mod)
        raise Unsupported('no reader %s' % self.reader)

    # ------------------------------------------------------------ jumps
    def buf(self, st, p, what):
        o = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
        good = o is not None and o.live
        self.eng.oblige(st, '%s with a live jump buffer at %s' % (what, self.eng.curloc), 'mem', And(ge(p.off, ZERO), le(add(p.off, I(self.jumpsize)), o.size)) if good else FALSE)
        if not good:
            raise Dead()
        return (p.obj, cval(p.off))

    def setjmp(self, eng, st, a, ins):
        key = self.buf(st, a[0], 'setjmp')
        fr = st.fr
        if getattr(fr, 'depthobj', None) is None:
            fr.depthobj = st.site('frame:' + fr.path)
        fr.env[ins.dst] = VInt(32, ZERO)
        st.ghost['jumps'] = dict(st.ghost.get('jumps', {}))
        st.ghost['jumps'][key] = (fr.depthobj, len(st.frames) - 1, fr.clone(), ins.dst)
        return VInt(32, ZERO)

    def longjmp(self, eng, st, p, v):
        key = self.buf(st, p, 'longjmp')
        tok, d, snap, dst = st.ghost.get('jumps', {}).get(key, (None, 0, None, None))
        good = tok is not None and d < len(st.frames) and getattr(st.frames[d], 'depthobj', None) == tok
        eng.oblige(st, 'longjmp to a setjmp whose function has not returned at %s' % eng.curloc, 'mem', Bc(good))
        if not good:
            raise Dead()
        for f in st.frames[d + 1:]:
            for nm in f.allocas:
                st.wobj(nm).live = False
        fr = snap.clone()
        fr.allocas = list(st.frames[d].allocas)
        fr.env[dst] = VInt(32, I(1) if cval(v) == 0 else v)
        st.frames = st.frames[:d] + [fr]
        st.ghost['erring'] = False
        return [(st, JUMPED)]

    def failing(self, st, what):
        """the outcome in which the call fails: the error function runs"""
        s = st.clone()
        s.note.append('%s fails at %s' % (what, self.eng.curloc))
        s.ghost['decfail'] = True
        s.ghost['broken'] = True
        s.ghost['erring'] = True
        return s

    def run_error(self, st, f, args):
        eng = self.eng
        if isinstance(f, VUndef) or is_null(f):
            eng.oblige(st, 'there is an error function at %s' % eng.curloc, 'mem', FALSE)
            raise Dead()
        fn = eng.find(f.name, f.mod) if isinstance(f, VFn) else None
        if fn is None:
            raise Unsupported('error function %r' % f)
        eng.inlined.add(fn.name.lstrip('@'))
        eng.push(st, fn, args, None, st.fr.path + '@error')
        return [(st, JUMPED)]

    # ------------------------------------------------------------ invariants
    def stage(self, p):
        """the bytes delivered up to pass p"""
        return abase('delivered%d' % p, 'I', 0, 255)

    def byte(self, c, ch):
        return add(scale(self.n0, ch), I(c))

    def put(self, st, dst, src, n, arr):
        S = self.S
        D, S.D = S.D, arr
        try:
            S.put_bytes(self.eng, st, dst, src, n, self.any)
        finally:
            S.D = D

    def bytes(self, st, p, idx):
        o = st.objs[p.obj]
        if o.stride != 1 or 0 not in o.fields or o.fields[0][1] != 'I':
            return None
        return select(o.fields[0][2], idx, self.eng.decider(st))

    def templates(self, ctx):
        g = ctx.st.ghost
        if g.get('op') != 'read':
            return
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        ch = g.get('ch')
        if ch is None:
            return
        rb = scale(self.W, ch)
        ints = [v for v in ctx.ints() if kinds[v] == 'i64']
        final = self.final(g)
        for n, f in self.op_tmpl(ctx, g, ch, rb, ints, final):
            yield '%d %s' % (ch, n), Or(self.other(ch), f)

    def other(self, ch):
        """invariants are shared by all paths: this is not one with ch channels"""
        return FALSE

    def same_passes(self, g, b):
        return b

    def op_tmpl(self, ctx, g, ch, rb, ints, final):
        H, kinds = ctx.head, ctx.info['kinds']
        # pixels
        for arr in ctx.arrays():
            if kinds[arr] == 'AF32':
                for v in ints:
                    yield 'pixels%d:%s:%s' % (g.get('passes') or 0, arr, v), self.same_passes(g, Implies(And(self.inside, lt(self.n0, H[v])), fsame(select(H[arr], self.n0), self.value(final, ch))))
        yield from self.row_tmpl(ctx, g, ch, rb, ints)

    def value(self, R, ch):
        # what the code computes: the sum of sample/255 (exact beyond the single rounding of each operation), divided by the number of channels
        t = fconst(32, 0)
        for c in range(ch):
            t = fop('fadd', 32, t, fop('fdiv', 32, i2f(32, select(R, self.byte(c, ch))), fconst(32, 0x437f0000))) if ch > 1 or self.summed else fop('fdiv', 32, i2f(32, select(R, self.byte(c, ch))), fconst(32, 0x437f0000))
        return fop('fdiv', 32, t, i2f(32, I(ch))) if self.summed else t

    # ------------------------------------------------------------ operations
    def open(self, then):
        eng, st = self.eng, self.st
        C = self.cx.L.const
        for n, t in (('w', 8), ('h', 8), ('e', 4)):
            eng.new_obj(st, n, 'param', I(t))
        st.objs['e'].cells[0] = (4, VInt(32, ZERO))
        st.ghost['op'] = 'open'

        def done(st, rv):
            g = st.ghost
            self.check_erring(st)
            e = eng.load(st, IntTy(32), VPtr('e'), self.any, True)
            if isinstance(rv, VUndef) or isinstance(e, VUndef):
                self.post(st, 'opening returns a state or null', FALSE)
                return
            e = eng.sview(st, e)
            if is_null(rv):
                exits_reached(eng, st, 'invalid' if not g.get('openfail') else 'openfail')
                self.post(st, 'a failed open is reported', eq(e, neg(g['err'])) if g.get('openfail') else eq(e, I(C['RDENOMEM'])) if g.get('allocfail') else eq(e, I(C['RDEINVAL'])))
                if not (g.get('openfail') or g.get('allocfail') or g.get('decfail')):
                    self.post(st, 'only a file without signature is refused otherwise', self.unsigned(st))
                no_leak(eng, st, tag='%s: everything is released by a failed open' % self.fmt)
                return
            exits_reached(eng, st, 'opened')
            w, h = (eng.load(st, IntTy(64), VPtr(n), self.any, True) for n in 'wh')
            bad = [v for v in (w, h) if not isinstance(v, VInt)]
            self.post(st, 'opening succeeds only if nothing failed, with the size of the image', FALSE if bad else And(Bc(not (g.get('decfail') or g.get('allocfail'))), eq(e, ZERO), eq(eng.uview(st, w), self.W), eq(eng.uview(st, h), self.H)))
            self.post(st, 'rows of 8-bit gray or RGB samples are ready to be read', self.ready(st))
            g.pop('jumps', None)
            for k in self.transient:
                g.pop(k, None)
            eng.join(st, 'opened')
            then(st, rv)
        eng.run(st, self.open_fn, [self.filename, VPtr('w'), VPtr('h'), VPtr('e')], done)

    def check_erring(self, st):
        if st.ghost.get('erring'):
            self.post(st, 'the error function does not return', FALSE)
            raise Dead()

    def close(self, st, ctx):
        eng = self.eng
        st.ghost['op'] = 'close'

        def done(st, rv):
            exits_reached(eng, st, 'closed')
            no_leak(eng, st, tag='%s: everything is released in the end' % self.fmt)
        eng.run(st, self.close_fn, [ctx], done)

    def content(self, st, ctx):
        o = st.objs[ctx.obj]
        return {k: repr(v) for k, v in o.cells.items()}, o.stride

    def status(self, st, tag):
        p = self.eng.new_obj(st, tag, 'param', I(4))
        st.objs[tag].cells[0] = (4, VInt(32, ZERO))
        return p

    def result(self, st, rv, ep):
        v = self.eng.load(st, IntTy(32), ep, self.any, True)
        if isinstance(rv, VUndef) or isinstance(v, VUndef):
            self.post(st, 'a result and a status are returned', FALSE)
            raise Dead()
        return self.eng.as_bool(st, rv), self.eng.sview(st, v)

    def read(self, st, ctx, then, again=False):
        eng = self.eng
        C = self.cx.L.const
        tag = 'again' if again else 'first'
        ep = self.status(st, 'status ' + tag)
        img = VPtr('image ' + tag)
        n = mul(self.W, self.H)
        if not again:
            st.assume(le(n, I(min(C['PIXEL_MAX'], U64 // 4))))
        eng.new_obj(st, img.obj, 'param', scale(n, 4), default='lazy')
        eng.pass_strides.setdefault(img.obj, 4)
        st.ghost['op'] = 'read'
        before = self.content(st, ctx)
        st.ghost.pop('decfail', None)
        st.ghost.pop('allocfail', None)

        def done(st, rv):
            g = st.ghost
            self.check_erring(st)
            r, e = self.result(st, rv, ep)
            if again:
                exits_reached(eng, st, 'again')
                self.post(st, 'after the one frame, reading ends without error and leaves everything as it is', And(Not(r), eq(e, ZERO), Bc(self.content(st, ctx) == before)))
                then(st, ctx)
                return
            d = eng.decide(st, r)
            self.post(st, 'reading succeeds or not', Bc(d is not None))
            if d is None:
                return
            if d:
                exits_reached(eng, st, 'read')
                self.post(st, 'reading succeeds only if nothing failed', And(Bc(not (g.get('decfail') or g.get('allocfail'))), eq(e, ZERO)))
                o = st.objs[img.obj]
                good = o.stride == 4 and 0 in o.fields and o.fields[0][1] == 'F32' and g.get('ch') is not None
                self.post(st, 'every pixel is the mean over the channels of its samples/255', Implies(self.inside, fsame(select(o.fields[0][2], self.n0), self.value(self.final(g), g['ch']))) if good else FALSE)
            else:
                exits_reached(eng, st, 'noread')
                self.post(st, 'reading fails only if something failed, as such', And(Bc(bool(g.get('decfail') or g.get('allocfail'))), eq(e, I(C['RDENOMEM'] if g.get('allocfail') else C['RDEINVAL']))))
            g.pop('jumps', None)
            no_leak(eng, st, keep=self.kept(st, ctx), tag='%s: a read releases what it allocates' % self.fmt)
            self.forget(st, ctx)
            eng.join(st, 'spent')
            then(st, ctx)
        eng.run(st, self.read_fn, [ctx, img, VInt(64, self.W), VInt(64, self.H), ep], done)

    def kept(self, st, ctx):
        return {o.name for o in st.objs.values() if o.kind == 'resource'} | {ctx.obj}

    def forget(self, st, ctx):
        """from here on only the state of the reader matters"""
        for n in [n for n in st.objs if n.startswith('image ') or n.startswith('status ')]:
            o = st.wobj(n)
            o.live = False
        g = st.ghost
        for k in ('decfail', 'allocfail', 'ch', 'passes', 'broken', 'erring', 'calls', 'n'):
            g.pop(k, None)
        g['rows'] = ZERO
        g['spent'] = True

    def seek(self, st, ctx, cb, then, spent=False):
        eng = self.eng
        n = var('count%s' % (' again' if spent else ''), 0, U64)
        tag = 'seek again' if spent else 'seek'
        ep = self.status(st, 'status ' + tag)
        if cb:
            if 'cb' not in st.objs:
                eng.new_obj(st, 'cb', 'opaque', ONE)
                st.objs['cb'].meta['call'] = self.progress
                eng.new_obj(st, 'cbctx', 'opaque', ONE)
        st.ghost.update(op='seek', calls=ZERO)
        before = self.content(st, ctx)

        def done(st, rv):
            g = st.ghost
            self.check_erring(st)
            r, e = self.result(st, rv, ep)
            calls = g['calls']
            fresh = Not(eq(n, ZERO)) if not spent else FALSE
            self.post(st, 'seeking succeeds exactly for as many frames as remain, without error', And(eq(e, ZERO), Iff(r, Or(eq(n, ZERO), And(Bc(not spent), eq(n, ONE))))))
            if cb:
                self.post(st, 'the progress callback is called for the frame that is skipped', And(Implies(fresh, eq(calls, ONE)), Implies(Not(fresh), eq(calls, ZERO))))
            same = self.content(st, ctx) == before
            if spent:
                self.post(st, 'after the one frame, seeking leaves everything as it is', Bc(same))
            else:
                exits_reached(eng, st, 'seek')
                self.post(st, 'seeking by nothing leaves everything as it is', Implies(eq(n, ZERO), Bc(same)))
            g.pop('jumps', None)
            if not spent:
                z = eng.decide(st, eq(n, ZERO))
                if z is True:
                    self.close(st, ctx)
                    return
                if z is None:
                    self.post(st, 'seeking by nothing and by something differ', FALSE)
                    return
            self.forget(st, ctx)
            eng.join(st, 'sought' + tag)
            then(st, ctx)
        eng.run(st, self.seek_fn, [ctx, VInt(64, n), VPtr('cb') if cb else NULL, VPtr('cbctx') if cb else NULL, VInt(64, self.W), VInt(64, self.H), ep], done)

    def progress(self, eng, st, a, ins):
        n = st.ghost['calls']
        self.post(st, 'the progress callback gets its context and the number of frames skipped', And(Bc(isinstance(a[0], VPtr) and a[0].obj == 'cbctx'), eq(eng.uview(st, a[1]), add(n, ONE))))
        self.S.set(st, 'calls', add(n, ONE))
        return None

    # after the frame: nothing more happens
    def spent(self, st, ctx):
        s2, s3 = st.clone(), st.clone()
        self.read(s2, ctx, self.close, again=True)
        self.seek(s3, ctx, True, self.close, spent=True)

    def run(self, what, cb=False):
        self.open_fn, self.close_fn = self.fn('open'), self.fn('close')
        self.read_fn, self.seek_fn = self.fn('read_frame'), self.fn('seek_frame')
        if what == 'open':
            self.open(self.close)
        elif what == 'read':
            self.open(lambda st, ctx: self.read(st, ctx, self.spent))
        else:
            self.open(lambda st, ctx: self.seek(st, ctx, cb, self.spent))


class Png(Decode):
    fmt, reader = 'PNG', 'libpng'
    transient = ('color', 'depth', 'trns', 'set', 'strlits')
    summed = True

    def same_passes(self, g, b):
        return Or(bvar('interlaced') if g['passes'] == 1 else Not(bvar('interlaced')), b)

    def other(self, ch):
        return bvar('gray') if ch == 3 else Not(bvar('gray'))

    def unsigned(self, st):
        return Or(lt(self.S.N, I(8)), Not(bvar('signature')))

    def ready(self, st):
        return Bc(bool(st.ghost.get('updated')) and not st.ghost.get('broken'))

    def final(self, g):
        return self.stage(g['passes'] - 1) if g.get('passes') else None

    def png(self, st, p, what, info=None):
        def is_(p, tag):
            o = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
            return o is not None and o.live and o.meta.get('alloc') == tag and cval(p.off) == 0
        if st.ghost.get('erring'):
            self.check_erring(st)
        good = is_(p, 'png') and (info is None or is_(info, 'pnginfo'))
        self.eng.oblige(st, '%s: live structures at %s' % (what, self.eng.curloc), 'mem', Bc(good))
        if not good:
            raise Dead()

    def fails(self, st, what):
        s = self.failing(st, what)
        f = s.ghost.get('errfn')
        if 'pngmsg' not in s.objs:
            self.eng.new_obj(s, 'pngmsg', 'opaque', ONE)
        if is_null(f):
            return self.c_png_longjmp(self.eng, s, [VPtr('PNG'), VInt(32, ONE)], None)
        return self.run_error(s, f, [VPtr('PNG'), VPtr('pngmsg')])

    def c_png_sig_cmp(self, eng, st, a, ins):
        eng.mem_ok(st, a[0], I(8), 'png_sig_cmp')
        self.pre(st, 'png_sig_cmp of the whole signature', And(eq(eng.uview(st, a[1]), ZERO), eq(eng.uview(st, a[2]), I(8))))
        v = var('sigcmp', -IMAX, IMAX)
        # of the first 8 bytes of the file
        for k in range(8):
            b = eng.load(st, IntTy(8), VPtr(a[0].obj, add(a[0].off, I(k))), self.any, True)
            self.pre(st, 'png_sig_cmp of the first bytes of the file', eq(eng.uview(st, b), self.S.at(I(k))) if isinstance(b, VInt) else FALSE)
        st.assume(Iff(bvar('signature'), eq(v, ZERO)))
        return VInt(32, v)

    def c_png_create_read_struct(self, eng, st, a, ins):
        self.pre(st, 'png_create_read_struct once, with the version of the header', Bc('PNG' not in st.objs and literal(st, a[0]) is not None))
        s2 = st.clone()
        s2.ghost['allocfail'] = True
        s2.note.append('png_create_read_struct fails')
        p = eng.new_obj(st, 'PNG', 'resource', ONE)
        st.objs['PNG'].meta['alloc'] = 'png'
        eng.new_obj(st, 'PNG.jump', 'param', I(self.jumpsize))
        st.ghost['errfn'] = a[2]
        return [(s2, NULL), (st, p)]

    def c_png_create_info_struct(self, eng, st, a, ins):
        self.png(st, a[0], 'png_create_info_struct')
        self.pre(st, 'png_create_info_struct once', Bc('PNGINFO' not in st.objs))
        s2 = st.clone()
        s2.ghost['allocfail'] = True
        s2.note.append('png_create_info_struct fails')
        p = eng.new_obj(st, 'PNGINFO', 'resource', ONE)
        st.objs['PNGINFO'].meta['alloc'] = 'pnginfo'
        return [(s2, NULL), (st, p)]

    def c_png_destroy_read_struct(self, eng, st, a, ins):
        self.check_erring(st)
        if is_null(a[0]):
            return None
        p = eng.load(st, PTR, a[0], self.any, True)
        if isinstance(p, VUndef):
            eng.oblige(st, 'png_destroy_read_struct of an uninitialised pointer at %s' % eng.curloc, 'mem', FALSE)
            raise Dead()
        if is_null(p):
            return None
        for q in a[1:]:
            if is_null(q):
                continue
            i = eng.load(st, PTR, q, self.any, True)
            if is_null(i):
                continue
            release(eng, st, i, 'png_destroy_read_struct', ('pnginfo',))
            eng.store(st, PTR, NULL, q, self.any, True)
        release(eng, st, p, 'png_destroy_read_struct', ('png',))
        eng.store(st, PTR, NULL, a[0], self.any, True)
        st.wobj('PNG.jump').live = False
        return None

    def c_png_set_longjmp_fn(self, eng, st, a, ins):
        self.png(st, a[0], 'png_set_longjmp_fn')
        self.pre(st, 'png_set_longjmp_fn: longjmp and the size of its buffer', And(Bc(isinstance(a[1], VFn) and a[1].name == '@longjmp'), eq(eng.uview(st, a[2]), I(self.jumpsize))))
        st.ghost['jumpset'] = True
        return VPtr('PNG.jump')

    def c_png_longjmp(self, eng, st, a, ins):
        st.ghost['erring'], er = False, st.ghost.get('erring')
        self.png(st, a[0], 'png_longjmp')
        st.ghost['erring'] = er
        eng.oblige(st, 'png_longjmp after png_set_longjmp_fn', 'mem', Bc(bool(st.ghost.get('jumpset'))))
        return self.longjmp(eng, st, VPtr('PNG.jump'), eng.sview(st, eng.as_int(st, a[1], 32)))

    def c_png_init_io(self, eng, st, a, ins):
        self.png(st, a[0], 'png_init_io')
        self.S.stream(eng, st, a[1], 'png_init_io')
        st.ghost['io'] = True

    def c_png_set_sig_bytes(self, eng, st, a, ins):
        self.png(st, a[0], 'png_set_sig_bytes')
        self.pre(st, 'png_set_sig_bytes: so many bytes were read', eq(eng.uview(st, a[1]), st.ghost['pos']))
        st.ghost['sig'] = True

    def c_png_read_info(self, eng, st, a, ins):
        self.png(st, a[0], 'png_read_info', a[1])
        g = st.ghost
        self.pre(st, 'png_read_info once, of a stream whose signature was read', Bc(bool(g.get('io') and g.get('sig')) and not g.get('info') and not g.get('broken')))
        out = self.fails(st, 'png_read_info')
        g['info'] = True
        g['set'] = ()
        for color, ds in DEPTHS.items():
            for depth in ds:
                for trns in (False, True) if color in (0, 2, 3) else (False,):
                    s = st.clone()
                    s.ghost.update(color=color, depth=depth, trns=trns)
                    s.note.append('color %d, depth %d%s' % (color, depth, ', tRNS' if trns else ''))
                    out.append((s, None))
        return out

    def getter(self, st, p, i):
        self.png(st, p, 'getter', i)
        self.pre(st, 'the header was read', Bc(bool(st.ghost.get('info'))))

    def c_png_get_image_width(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        return VInt(32, self.W)

    def c_png_get_image_height(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        return VInt(32, self.H)

    def fork_gray(self, st):
        a, b = self.S.fork(self.eng, st, bvar('gray'))
        return [(s, g) for s, g in ((a, True), (b, False)) if s]

    def c_png_get_bit_depth(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        if st.ghost.get('updated'):
            return VInt(8, I(8))
        return VInt(8, I(st.ghost['depth']))

    def c_png_get_color_type(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        if st.ghost.get('updated'):
            out = []
            for s, g in self.fork_gray(st):
                s.ghost['ch'] = 1 if g else 3
                out.append((s, VInt(8, I(0 if g else 2))))
            return out
        return VInt(8, I(st.ghost['color']))

    def c_png_get_channels(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        if not st.ghost.get('updated'):
            raise Unsupported('png_get_channels before png_read_update_info')
        out = []
        for s, g in self.fork_gray(st):
            s.ghost['ch'] = 1 if g else 3
            out.append((s, VInt(8, I(1 if g else 3))))
        return out

    def c_png_get_rowbytes(self, eng, st, a, ins):
        r = self.c_png_get_channels(eng, st, a, ins)
        return [(s, VInt(64, scale(self.W, s.ghost['ch']))) for s, _ in r]

    def c_png_get_valid(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        if cval(eng.uview(st, a[2])) != 16:
            raise Unsupported('png_get_valid of other chunks')
        return VInt(32, I(16 if st.ghost['trns'] else 0))

    def setter(self, eng, st, p, what, *flags):
        self.png(st, p, what)
        self.pre(st, '%s before the rows are read' % what, Bc(bool(st.ghost.get('info')) and not st.ghost.get('updated')))
        st.ghost['set'] = tuple(sorted(set(st.ghost['set']) | set(flags)))

    def c_png_set_tRNS_to_alpha(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_tRNS_to_alpha', 'expand', 'tRNS')

    def c_png_set_expand(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_expand', 'expand', 'tRNS')

    def c_png_set_palette_to_rgb(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_palette_to_rgb', 'expand', 'tRNS')

    def c_png_set_expand_gray_1_2_4_to_8(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_expand_gray_1_2_4_to_8', 'expand')

    def c_png_set_strip_16(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_strip_16', '16')

    def c_png_set_scale_16(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_scale_16', '16')

    def c_png_set_strip_alpha(self, eng, st, a, ins):
        self.setter(eng, st, a[0], 'png_set_strip_alpha', 'alpha')

    def c_png_set_interlace_handling(self, eng, st, a, ins):
        self.png(st, a[0], 'png_set_interlace_handling')
        self.pre(st, 'png_set_interlace_handling after the header', Bc(bool(st.ghost.get('info'))))
        if not st.ghost.get('updated'):
            st.ghost['set'] = tuple(sorted(set(st.ghost['set']) | {'interlace'}))
            return VInt(32, ite(bvar('interlaced'), I(7), ONE))
        return [(s, VInt(32, I(s.ghost['passes']))) for s in self.fork_interlaced(st)]

    def fork_interlaced(self, st):
        a, b = self.S.fork(self.eng, st, bvar('interlaced'))
        out = []
        for s, n in ((a, 7), (b, 1)):
            if s:
                s.ghost['passes'] = n
                out.append(s)
        return out

    def c_png_get_interlace_type(self, eng, st, a, ins):
        self.getter(st, a[0], a[1])
        return VInt(8, b2i(bvar('interlaced')))

    def c_png_read_update_info(self, eng, st, a, ins):
        self.png(st, a[0], 'png_read_update_info', a[1])
        g = st.ghost
        self.pre(st, 'png_read_update_info once, after the header', Bc(bool(g.get('info')) and not g.get('updated') and not g.get('broken')))
        color, depth, trns, f = g['color'], g['depth'], g['trns'], g['set']
        if 'expand' in f:
            if color == 3:
                color, depth = 6 if trns else 2, 8
            else:
                if trns and 'tRNS' in f:
                    color |= 4
                depth = max(depth, 8)
        if '16' in f and depth == 16:
            depth = 8
        if 'alpha' in f:
            color &= ~4
        self.post(st, 'alpha is stripped, palettes are expanded and samples brought to 8 bits', Bc(color in (0, 2) and depth == 8))
        self.post(st, 'the color of an image is that of its file', Bc(color == (0 if g['color'] in (0, 4) else 2)))
        self.post(st, 'the passes of interlaced images are combined', Implies(bvar('interlaced'), Bc('interlace' in f)))
        if color not in (0, 2) or depth != 8 or 'interlace' not in f:
            raise Dead()
        out = self.fails(st, 'png_read_update_info')
        g['updated'] = True
        return out + [(st, None)]

    def c_png_read_row(self, eng, st, a, ins):
        self.png(st, a[0], 'png_read_row')
        g = st.ghost
        self.pre(st, 'png_read_row after png_read_update_info and before the first failure', Bc(bool(g.get('updated')) and not g.get('broken') and not g.get('spent')))
        if not is_null(a[2]) or is_null(a[1]):
            raise Unsupported('png_read_row into a display row')
        if g.get('ch') is None or g.get('passes') is None:
            raise Unsupported('rows are read before asking for the format')
        ch, passes = g['ch'], g['passes']
        R, H = g['rows'], self.H
        rb = scale(self.W, ch)
        self.pre(st, 'png_read_row: a row remains', lt(R, scale(H, passes)))
        p = [k for k in range(passes) if eng.proves(st, And(ge(R, scale(H, k)), lt(R, scale(H, k + 1))))]
        if not p:
            raise Unsupported('the pass of the row is not known')
        p = p[0]
        y = sub(R, scale(H, p))
        eng.mem_ok(st, a[1], rb, 'png_read_row', True)
        src = mul(y, rb)
        if eng.proves(st, eq(a[1].off, src)):
            src = a[1].off
        if p:
            for c in range(ch):
                v = self.bytes(st, a[1], add(a[1].off, add(scale(self.x0, ch), I(c))))
                w = self.bytes(st, a[1], self.byte(c, ch))
                S = select(self.stage(p - 1), self.byte(c, ch))
                here = And(self.inside, eq(y, self.y0))
                self.post(st, 'the buffer of a row holds what the pass before has left',
                          FALSE if v is None else Implies(here, Or(And(eq(add(a[1].off, add(scale(self.x0, ch), I(c))), self.byte(c, ch)), eq(w, S)), eq(v, S))))
        out = self.fails(st, 'png_read_row')
        self.put(st, a[1], src, rb, self.stage(p))
        self.S.set(st, 'rows', add(R, ONE))
        return out + [(st, None)]

    def c_png_read_end(self, eng, st, a, ins):
        self.png(st, a[0], 'png_read_end')
        g = st.ghost
        self.pre(st, 'png_read_end after the rows', And(Bc(bool(g.get('updated')) and not g.get('broken') and bool(g.get('passes'))), eq(g['rows'], scale(self.H, g.get('passes') or 1))))
        return self.fails(st, 'png_read_end') + [(st, None)]

    def row_tmpl(self, ctx, g, ch, rb, ints):
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        if 'ghost:rows' not in H or not g.get('passes'):
            return
        R, R0 = H['ghost:rows'], E['ghost:rows']
        d = sub(R, R0)
        for v in ints:
            if v.startswith('ghost:'):
                continue
            yield 'row:' + v, eq(d, H[v])
            yield 'rowdown:' + v, eq(d, sub(self.H, H[v]))
        for v in ctx.ints():
            if kinds[v] == ('ptr',) or isinstance(kinds[v], tuple) and kinds[v][0] == 'ptr':
                yield 'at:' + v, eq(H[v], mul(d, rb))
        yield 'rows', And(ge(d, ZERO), le(d, self.H))
        for p in range(g['passes']):
            if self.eng.proves(ctx.st, eq(ctx.info['entry']['ghost:rows'], scale(self.H, p))):
                for arr in ctx.arrays():
                    if H[arr].sort != 'AI':
                        continue
                    here = eq(R0, scale(self.H, p))
                    for c in range(ch):
                        G = self.byte(c, ch)
                        yield 'got%d:%s:%d' % (p, arr, c), Implies(And(here, self.inside, lt(self.y0, d)), eq(select(H[arr], G), select(self.stage(p), G)))
                        if p:
                            yield 'old%d:%s:%d' % (p, arr, c), Implies(And(here, self.inside, ge(self.y0, d)), eq(select(H[arr], G), select(self.stage(p - 1), G)))
                break


class Jpeg(Decode):
    fmt, reader = 'JPEG', 'libjpeg'
    transient = ('strlits',)
    summed = False
    FIELDS = ('output_width', 'output_height', 'output_scanline', 'rec_outbuf_height', 'out_color_space', 'err', 'client_data')
    ERR = ('error_exit', 'emit_message', 'reset_error_mgr')

    def __init__(self, *a):
        Decode.__init__(self, *a)
        self.size, self.off = layout.private('lib/image/libjpeg.c', 'struct jpeg_decompress_struct', self.FIELDS, self.cx.task.defs)
        self.esize, self.eoff = layout.private('lib/image/libjpeg.c', 'struct jpeg_error_mgr', self.ERR, self.cx.task.defs)
        self.j0 = var('rowpointer', 0, 3)
        st = self.st
        st.assume(le(self.W, I(65500)))
        st.assume(le(self.H, I(65500)))

    def unsigned(self, st):
        return FALSE

    def ready(self, st):
        g = st.ghost
        if not g.get('started') or g.get('broken'):
            return FALSE
        s = self.get(st, g['cinfo'], 'output_scanline')
        return eq(s, ZERO)

    def final(self, g):
        return self.stage(0)

    def at(self, p, f):
        return VPtr(p.obj, add(p.off, I(self.off[f][0])))

    def get(self, st, p, f):
        v = self.eng.load(st, IntTy(8 * self.off[f][1]), self.at(p, f), self.any, True)
        if not isinstance(v, VInt):
            self.eng.oblige(st, 'the field %s is defined at %s' % (f, self.eng.curloc), 'mem', FALSE)
            raise Dead()
        return self.eng.uview(st, v)

    def set(self, st, p, f, v):
        n = self.off[f][1]
        self.eng.store(st, IntTy(8 * n), VInt(8 * n, v), self.at(p, f), self.any, True)

    def errfn(self, st, p, f):
        eng = self.eng
        e = eng.load(st, PTR, self.at(p, 'err'), self.any, True)
        if not isinstance(e, VPtr) or e.obj is None:
            eng.oblige(st, 'an error manager is installed at %s' % eng.curloc, 'mem', FALSE)
            raise Dead()
        eng.mem_ok(st, e, I(self.esize), 'error manager')
        v = eng.load(st, PTR, VPtr(e.obj, add(e.off, I(self.eoff[f][0]))), self.any, True)
        eng.oblige(st, 'the error manager has %s at %s' % (f, eng.curloc), 'mem', Bc(isinstance(v, VFn)))
        if not isinstance(v, VFn):
            raise Dead()
        return v

    def cinfo(self, st, p, what, created=True):
        self.check_erring(st)
        eng = self.eng
        eng.mem_ok(st, p, I(self.size), what, True)
        g = st.ghost
        if created:
            c = g.get('cinfo')
            self.eng.oblige(st, '%s of a structure that was created at %s' % (what, eng.curloc), 'mem', And(Bc(c is not None and c.obj == p.obj), eq(c.off, p.off)) if c is not None else FALSE)
            if c is None:
                raise Dead()
        if what != 'jpeg_destroy_decompress':
            self.pre(st, '%s before the first failure' % what, Bc(not g.get('broken') and not g.get('destroyed')))
            for f in self.ERR:
                self.errfn(st, p, f)

    def fails(self, st, p, what):
        s = self.failing(st, what)
        return self.run_error(s, self.errfn(s, p, 'error_exit'), [p])

    def c_jpeg_CreateDecompress(self, eng, st, a, ins):
        p = a[0]
        self.cinfo(st, p, 'jpeg_CreateDecompress', False)
        self.pre(st, 'jpeg_CreateDecompress once, with the version and size of the header', And(Bc(not st.ghost.get('cinfo')), eq(eng.uview(st, a[1]), I(80)), eq(eng.uview(st, a[2]), I(self.size))))
        st.ghost['cinfo'] = p
        out = self.fails(st, p, 'jpeg_CreateDecompress')
        st.ghost['alloced'] = True
        q = eng.new_obj(st, 'JPEGMEM', 'resource', ONE)
        st.objs['JPEGMEM'].meta['alloc'] = 'jpeg'
        for f in self.FIELDS[:5]:
            self.set(st, p, f, ZERO)
        return out + [(st, None)]

    def c_jpeg_destroy_decompress(self, eng, st, a, ins):
        self.cinfo(st, a[0], 'jpeg_destroy_decompress')
        if 'JPEGMEM' in st.objs and st.objs['JPEGMEM'].live:
            release(eng, st, VPtr('JPEGMEM'), 'jpeg_destroy_decompress', ('jpeg',))
        st.ghost['destroyed'] = True

    def c_jpeg_stdio_src(self, eng, st, a, ins):
        self.cinfo(st, a[0], 'jpeg_stdio_src')
        self.S.stream(eng, st, a[1], 'jpeg_stdio_src')
        self.pre(st, 'jpeg_stdio_src at the start of the file', eq(st.ghost['pos'], ZERO))
        out = self.fails(st, a[0], 'jpeg_stdio_src')
        st.ghost['src'] = True
        return out + [(st, None)]

    def c_jpeg_read_header(self, eng, st, a, ins):
        p = a[0]
        self.cinfo(st, p, 'jpeg_read_header')
        self.pre(st, 'jpeg_read_header once, of a stream', Bc(bool(st.ghost.get('src')) and not st.ghost.get('header')))
        self.pre(st, 'jpeg_read_header of an image', ne(eng.uview(st, eng.as_int(st, a[1], 32)), ZERO))
        out = self.fails(st, p, 'jpeg_read_header')
        st.ghost['header'] = True
        self.set(st, p, 'out_color_space', var('color space of the file', 0, 16))
        return out + [(st, VInt(32, ONE))]

    def c_jpeg_start_decompress(self, eng, st, a, ins):
        p = a[0]
        self.cinfo(st, p, 'jpeg_start_decompress')
        self.pre(st, 'jpeg_start_decompress once, after the header', Bc(bool(st.ghost.get('header')) and not st.ghost.get('started')))
        self.post(st, 'gray samples are asked for', eq(self.get(st, p, 'out_color_space'), ONE))
        out = self.fails(st, p, 'jpeg_start_decompress')
        st.ghost['started'] = True
        st.ghost['ch'] = 1
        self.set(st, p, 'output_width', self.W)
        self.set(st, p, 'output_height', self.H)
        self.set(st, p, 'output_scanline', ZERO)
        self.set(st, p, 'rec_outbuf_height', var('outbuf', 1, 4))
        return out + [(st, VInt(32, ONE))]

    def c_jpeg_read_scanlines(self, eng, st, a, ins):
        p, rows = a[0], a[1]
        self.cinfo(st, p, 'jpeg_read_scanlines')
        g = st.ghost
        n = eng.uview(st, eng.as_int(st, a[2], 32))
        self.pre(st, 'jpeg_read_scanlines after the start', And(Bc(bool(g.get('started')) and not g.get('spent')), ge(n, ONE)))
        y = self.get(st, p, 'output_scanline')
        self.pre(st, 'jpeg_read_scanlines: a row remains', lt(y, self.H))
        left = sub(self.H, y)
        m = mn(n, left)
        eng.mem_ok(st, rows, scale(n, 8), 'row pointers')
        first = eng.load(st, PTR, rows, self.any, True)
        if not isinstance(first, VPtr) or first.obj is None:
            raise Unsupported('row pointers into unknown memory')
        s2 = st.clone()
        try:
            s2.assume(lt(self.j0, m))
            q = eng.load(s2, PTR, VPtr(rows.obj, add(rows.off, scale(self.j0, 8))), self.any, True)
            good = isinstance(q, VPtr) and q.obj == first.obj
            self.pre(s2, 'jpeg_read_scanlines: the row pointers are rows that follow each other', eq(q.off, add(first.off, mul(self.j0, self.W))) if good else FALSE)
            eng.mem_ok(s2, q, self.W, 'row %s' % 'delivered', True)
        except Dead:
            pass
        out = self.fails(st, p, 'jpeg_read_scanlines')
        r = var(hname(st, ins, 'rows'), 1, 65500)
        st.assume(le(r, m))
        src = mul(y, self.W)
        if eng.proves(st, eq(first.off, src)):
            src = first.off
        self.put(st, first, src, mul(r, self.W), self.stage(0))
        self.set(st, p, 'output_scanline', add(y, r))
        return out + [(st, VInt(32, r))]

    def row_tmpl(self, ctx, g, ch, rb, ints):
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        c = g.get('cinfo')
        key = 'mem:%s@%d' % (c.obj, cval(c.off) + self.off['output_scanline'][0])
        scan = H.get(key)
        ptrs = [v for v in ctx.ints() if isinstance(kinds[v], tuple) and kinds[v][0] == 'ptr']
        if scan is not None:
            yield 'scan', And(ge(scan, ZERO), le(scan, self.H))
            for v in ptrs:
                yield 'at:' + v, eq(H[v], mul(scan, self.W))
            for arr in ctx.arrays():
                if H[arr].sort == 'AI':
                    yield 'got:%s' % arr, Implies(And(self.inside, lt(self.y0, scan)), eq(select(H[arr], self.n0), select(self.stage(0), self.n0)))
            return
        # the row pointers
        outer = [t for v, t in ctx.outer_ints().items() if t.op == 'P']
        for v in ctx.ints():
            if kinds[v] not in ('i32', 'i64'):
                continue
            for arr in ctx.arrays():
                if H[arr].sort != 'AI' or not any(arr.startswith('arr:' + o) for o in self.eng.ptrto):
                    continue
                for n, t in ctx.outer_ints().items():
                    if n.startswith('ghost') or n.startswith('mem:'):
                        continue
                    for j in (ZERO, self.j0):
                        yield 'pointers:%s:%s:%s:%s' % (arr, v, n.split('^')[0], 'first' if j is ZERO else 'j'), Implies(lt(j, H[v]), eq(select(H[arr], j), add(t, mul(j, self.W))))


def run(cls, cx, eng, what, stdin=False, cb=False):
    cls(cx, eng, stdin).run(what, cb)


def open_tasks():
    return [Task('%s: open and close (%s)' % (c.fmt, 'standard input' if s else 'a named file'), lambda cx, eng, c=c, s=s: run(c, cx, eng, 'open', s), exits=('invalid', 'opened', 'closed') + (() if s else ('openfail',)))
            for c in (Png, Jpeg) for s in (False, True)]


def read_tasks():
    return [Task('%s: read, and what follows' % c.fmt, lambda cx, eng, c=c: run(c, cx, eng, 'read'), exits=('opened', 'read', 'noread', 'again', 'closed')) for c in (Png, Jpeg)]


def seek_tasks():
    return [Task('%s: seek, and what follows (%s callback)' % (c.fmt, 'with' if b else 'without'), lambda cx, eng, c=c, b=b: run(c, cx, eng, 'seek', False, b), exits=('opened', 'seek', 'again', 'closed')) for c in (Png, Jpeg) for b in (True, False)]
