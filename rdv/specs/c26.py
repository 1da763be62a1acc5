"""The FFmpeg and MagickWand readers over contracts of libavformat, libavcodec, libswscale and MagickWand (C26).

The readers are executed from their own table of functions, as in the real build.  The libraries are ghost state machines:
a container with any number of packets of any streams, a decoder that asks for packets and delivers frames of any size and
format, any call failing at any point; a wand with any number of images.  The client (drivers/media.c) opens, performs any
sequence of reads and seeks, and closes."""
from specs.decode import *
from specs.decode import Decode
from specs import stream

TEXT = dict(stream.TEXT)
TEXT.update({
    'avformat_open_input': 'avformat_open_input(&f,name,0,0) returns 0 and an open container, or an error leaving f null',
    'avformat_find_stream_info': 'avformat_find_stream_info returns a negative error or not',
    'av_find_best_stream': 'av_find_best_stream for video returns the index of a stream and its decoder, or a negative error',
    'avcodec_alloc_context3': 'avcodec_alloc_context3 returns null or a decoder', 'avcodec_parameters_to_context': 'avcodec_parameters_to_context returns a negative error or copies the parameters',
    'avcodec_open2': 'avcodec_open2 returns a negative error or 0, the size and pixel format then being determined',
    'avcodec_free_context': 'releases and nulls', 'av_frame_free': 'releases and nulls', 'av_packet_free': 'releases and nulls', 'sws_freeContext': 'releases', 'avformat_close_input': 'releases and nulls',
    'av_frame_alloc': 'null or an empty frame', 'av_packet_alloc': 'null or a blank packet', 'sws_alloc_context': 'null or a scaler without settings',
    'av_frame_unref': 'empties the frame', 'av_packet_unref': 'blanks the packet',
    'av_opt_set_int': 'sets an option of the scaler', 'sws_init_context': 'returns a negative error, or not, with the options set before',
    'av_read_frame': 'av_read_frame(f,p) into a blank packet: the next packet of any stream, AVERROR_EOF behind the last one, or another error at any point leaving the packet blank',
    'avcodec_send_packet': 'avcodec_send_packet(c,p): takes the packet (or, p null, starts draining), EAGAIN (taking nothing) unless it has asked for input, AVERROR_EOF once drained, or another error',
    'avcodec_receive_frame': 'avcodec_receive_frame(c,f): the next frame, of any size and format; EAGAIN if it wants input, which is not while draining; AVERROR_EOF once, draining, no frame is left; or another error',
    'sws_scale_frame': 'sws_scale_frame(s,dst,src): reads src as of the size and format configured; returns a negative error, or fills dst, with rows of at least the width, a multiple of 4 bytes apart',
    'av_strerror': 'writes some string into the buffer', 'strerror': 'some string', 'strcmp': 'strcmp is 0 exactly when the strings are equal (those of av_strerror and strerror are arbitrary)',
    'av_demuxer_iterate': 'av_demuxer_iterate delivers each of finitely many demuxers, then null', 'av_match_name': 'av_match_name: whether the name is in the list',
    'NewMagickWand': 'NewMagickWand returns a wand (it does not return on failure)', 'DestroyMagickWand': 'DestroyMagickWand releases the wand and returns null',
    'MagickReadImage': 'MagickReadImage reads all images of the file, or fails; the current image is then not before the first',
    'MagickGetException': 'MagickGetException gives the kind of the error and a string to be released; errno is set for kinds that concern files',
    'RelinquishMagickMemory': 'releases and returns null', 'MagickGetImageWidth': 'the width', 'MagickGetImageHeight': 'the height',
    'MagickResetIterator': 'MagickResetIterator goes before the first image', 'MagickNextImage': 'MagickNextImage goes to the next image, or, behind the last one, returns false; after that any result',
    'MagickExportImagePixels': 'MagickExportImagePixels fails or writes columns*rows floats of the current image',
})
EAGAIN, EOFERR = -11, -541478725
U31 = (1 << 31) - 1
AVBAD = 'an error of the libraries'
CONST = {'gray': 'AV_PIX_FMT_GRAYF32LE', 'video': 'AVMEDIA_TYPE_VIDEO+1'}


class Media(Decode):
    sites = True

    def __init__(self, cx, eng, stdin, strict=False):
        Decode.__init__(self, cx, eng, stdin)
        self.stdin, self.strict = stdin, strict
        for f in ('opened', 'more', 'choice', 'count', 'progress', 'context', 'read', 'seek'):
            eng.externs['spec_' + f] = getattr(self, 's_' + f)
        eng.opts['measures'] = {'*': self.measures}
        eng.opts['skipcand'] = lambda fn, v: v in ('ghost:err', 'ghost:fuel', 'ghost:lasterr', 'mem:errno@0')
        st = self.st
        C = cx.L.const
        st.assume(le(mul(self.W, self.H), I(min(C['PIXEL_MAX'], U64 // 4))))
        self.G = st.ghost
        self.G.update({k: ZERO for k in ('got', 'got0', 'calls', 'lasterr', 'opfail', 'ended', 'infile')})
        self.G['fuel'] = var('operations', 0, U64)
        self.mode = 'all'
        self.cb = var('callback', 0, 1)          # whether this operation has one

    def set(self, st, name, v):
        self.S.set(st, name, v)

    def known_(self, st, b):
        return self.eng.decide(st, b) is True

    # ------------------------------------------------------------ specification points
    def s_opened(self, eng, st, a, ins):
        ctx = a[0]
        e = self.eng.load(st, IntTy(32), a[3], self.any, True)
        if isinstance(ctx, VUndef) or isinstance(e, VUndef):
            self.post(st, 'opening returns a state or null', FALSE)
            raise Dead()
        e = eng.sview(st, e)
        g = st.ghost
        if is_null(ctx):
            exits_reached(eng, st, 'openfail')
            self.post(st, 'opening fails only if something failed', Bc(bool(g.get('allocfail') or g.get('libfail') or g.get('openfail'))))
            self.post(st, 'a failed open is reported', ne(e, ZERO))
            if g.get('libfail') and not g.get('oddfail'):
                self.post(st, 'a failed open is reported as what it is', self.openerror(st, e))
            no_leak(eng, st, tag='%s: everything is released by a failed open' % self.fmt)
            return None
        exits_reached(eng, st, 'opened')
        w, h = (eng.load(st, IntTy(64), p, self.any, True) for p in a[1:3])
        bad = [v for v in (w, h) if not isinstance(v, VInt)]
        self.post(st, 'opening succeeds only if nothing failed, with the size of the image', FALSE if bad else And(Bc(not (g.get('libfail') or g.get('allocfail'))), eq(e, ZERO), eq(eng.uview(st, w), self.W), eq(eng.uview(st, h), self.H)))
        self.post(st, 'frames can be read, from the first one on', self.ready(st))
        for k in ('strlits',):
            g.pop(k, None)
        eng.join(st, 'opened')
        return None

    def s_more(self, eng, st, a, ins):
        if self.mode == 'open':
            return VBool(FALSE)
        fuel = st.ghost['fuel']
        s2 = st.clone()
        out = []
        try:
            s2.assume(le(fuel, ZERO))
            out.append((s2, VBool(FALSE)))
        except Dead:
            pass
        st.assume(gt(fuel, ZERO))
        self.set(st, 'fuel', sub(fuel, ONE))
        out.append((st, VBool(TRUE)))
        return out

    RESET = ('calls', 'lasterr', 'opfail')

    def s_choice(self, eng, st, a, ins):
        for k in self.RESET:
            self.set(st, k, ZERO)
        self.set(st, 'got0', st.ghost['got'])
        s2 = st.clone()
        st.ghost['op'], s2.ghost['op'] = 'read', 'seek'
        return [(st, VBool(TRUE)), (s2, VBool(FALSE))]

    def s_count(self, eng, st, a, ins):
        st.ghost['n'] = var('seekcount', 0, U64)
        return VInt(64, st.ghost['n'])

    def s_progress(self, eng, st, a, ins):
        if 'cb' not in st.objs:
            eng.new_obj(st, 'cb', 'opaque', ONE)
            st.objs['cb'].meta['call'] = self.progress
        s2 = st.clone()
        s2.ghost['cb'] = False
        s2.assume(eq(self.cb, ZERO))
        st.ghost['cb'] = True
        st.assume(eq(self.cb, ONE))
        return [(s2, NULL), (st, VPtr('cb'))]

    def s_context(self, eng, st, a, ins):
        if 'cbctx' not in st.objs:
            eng.new_obj(st, 'cbctx', 'opaque', ONE)
        return VPtr('cbctx')

    def result(self, st, r, ep):
        e = self.eng.load(st, IntTy(32), ep, self.any, True)
        if isinstance(r, VUndef) or isinstance(e, VUndef):
            self.post(st, 'a result and a status are returned', FALSE)
            raise Dead()
        r = self.eng.as_bool(st, r)
        ok, bad = self.S.fork(self.eng, st, r)
        return ok, bad, self.eng.sview(st, e)

    def s_read(self, eng, st, a, ins):
        ok, bad, e = self.result(st, a[0], a[2])
        out = []
        if ok:
            exits_reached(eng, ok, 'read')
            g = ok.ghost
            self.post(ok, 'reading succeeds only if nothing failed, and takes exactly the next frame', And(eq(e, ZERO), eq(g['opfail'], ZERO), eq(g['got'], add(g['got0'], ONE)), self.stillopen(ok)))
            o = ok.objs['image']
            good = o.stride == 4 and 0 in o.fields and o.fields[0][1] == 'F32'
            self.post(ok, 'every pixel is that of the frame', Implies(self.inside, fsame(select(o.fields[0][2], self.n0), self.pixel(ok))) if good else FALSE)
            self.done(ok)
            out.append((ok, None))
        if bad:
            exits_reached(eng, bad, 'noread')
            self.notread(bad, e, FALSE)
            self.done(bad)
            out.append((bad, None))
        return out

    def notread(self, st, e, seek):
        g = st.ghost
        quiet, loud = self.S.fork(self.eng, st.clone(), eq(e, ZERO))
        for s, q in ((quiet, True), (loud, False)):
            if s is None:
                continue
            if q:
                exits_reached(self.eng, s, 'end')
                self.post(s, 'without error, frames end only at the end of the stream', And(eq(g['opfail'], ZERO), self.atend(s), eq(g['got'], g['got0']) if seek is FALSE else TRUE))
            else:
                exits_reached(self.eng, s, 'failed')
                self.post(s, 'an error is reported only for a failure, as what it is', self.failure(s, e))

    def s_seek(self, eng, st, a, ins):
        ok, bad, e = self.result(st, a[0], a[1])
        out = []
        for s in (ok, bad):
            if s is None:
                continue
            g = s.ghost
            n = sub(g['got'], g['got0'])
            if g.get('cb'):
                self.post(s, 'the progress callback is called for each frame skipped', eq(g['calls'], n))
            if s is ok:
                exits_reached(eng, s, 'seek')
                self.post(s, 'seeking succeeds only by skipping so many frames, without a failure', And(eq(e, ZERO), eq(n, g['n']), eq(g['opfail'], ZERO)))
            else:
                exits_reached(eng, s, 'noseek')
                self.post(s, 'a failed seek has not skipped more frames', lt(n, g['n']))
                self.notread(s, e, TRUE)
            self.done(s)
            for k in ('n', 'cb'):
                g.pop(k, None)
            out.append((s, None))
        return out

    def done(self, st):
        st.ghost.pop('op', None)
        st.ghost.pop('strlits', None)

    # ------------------------------------------------------------ invariants
    FLAGS = ()

    def measures(self, ctx):
        return [ctx.head['ghost:fuel']] if 'ghost:fuel' in ctx.head else []

    def same_ints(self, ctx):
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        for v in ctx.ints():
            if kinds[v] in ('i32', 'i8', 'i64'):
                yield 'same:' + v, eq(H[v], E[v])
                if kinds[v] != 'i64':
                    yield 'zero:' + v, eq(H[v], ZERO)
        if 'ghost:got' in H and ctx.st.ghost.get('op') == 'seek':
            d = sub(H['ghost:got'], ctx.st.ghost['got0'])
            for v in ctx.ints():
                if kinds[v] == 'i64' and not v.startswith(('ghost:', 'mem:')):
                    yield 'count:' + v, eq(sub(H['ghost:got'], E['ghost:got']), H[v])
                    yield 'within:' + v, And(ge(H[v], ZERO), le(H[v], ctx.st.ghost.get('n', ZERO)))
                    if 'ghost:calls' in H:
                        yield 'calls:' + v, Or(eq(self.cb, ZERO), eq(H['ghost:calls'], H[v]))

    def templates(self, ctx):
        H, E = ctx.head, ctx.ent
        for f in self.FLAGS:
            k = 'ghost:' + f
            if k in H:
                yield 'flag:' + f, And(ge(H[k], ZERO), le(H[k], ONE))
        yield from self.same_ints(ctx)
        if 'ghost:got' in H:
            yield 'got', ge(H['ghost:got'], ZERO)
        yield from self.lib_tmpl(ctx)

    def lib_tmpl(self, ctx):
        return ()

    # ------------------------------------------------------------ the C library
    def c_strcmp(self, eng, st, a, ins):
        lits = [literal(st, p) for p in a[:2] if isinstance(p, VPtr) and p.obj]
        if any(x is not None for x in lits):
            return externs.EXT['strcmp'](eng, st, a, ins)
        for p in a[:2]:
            externs.chk_str(eng, st, p, 'strcmp')
        return VInt(32, var(hname(st, ins, 'strcmp'), -(1 << 31), U31))

    def c_strerror(self, eng, st, a, ins):
        if 'STRERROR' not in st.objs:
            eng.new_obj(st, 'STRERROR', 'opaque', ONE)
        return VPtr('STRERROR')

    def run(self, what):
        self.mode = what
        fns = [self.fn(f) for f in ('open', 'read_frame', 'seek_frame', 'close')]
        eng, st = self.eng, self.st
        eng.new_obj(st, 'image', 'param', scale(mul(self.W, self.H), 4), default='lazy')
        eng.pass_strides.setdefault('image', 4)
        o = eng.to_array(st, 'image', 4)
        o.fields[0] = (4, 'F32', abase('image before', 'F32'))

        def done(st, rv):
            exits_reached(eng, st, 'closed')
            no_leak(eng, st, tag='%s: everything is released in the end' % self.fmt)
        eng.run(st, self.cx.fn('media_client'), [VFn(f.name, f.mod) for f in fns] + [self.filename, VPtr('image')], done)


class FFmpeg(Media):
    fmt, reader = 'FFmpeg', 'ffmpeg'
    FLAGS = ('flush', 'held', 'sent', 'hungry', 'ended', 'opfail', 'demuxfail', 'eofseen', 'scaled')
    RESET = Media.RESET + ('scaled', 'mismatch')
    SRC = 'lib/image/ffmpeg.c'

    def __init__(self, *a):
        Media.__init__(self, *a)
        lay = lambda s, *f: layout.private(self.SRC, s, f, self.cx.task.defs)
        self.GRAY = lay('char[AV_PIX_FMT_GRAYF32LE]')[0]
        self.VIDEO = lay('char[AVMEDIA_TYPE_VIDEO+1]')[0] - 1
        self.FR = lay('AVFrame', 'data', 'linesize', 'width', 'height', 'format')
        self.PK = lay('AVPacket', 'stream_index')
        self.CC = lay('AVCodecContext', 'width', 'height', 'pix_fmt')
        self.FC = lay('AVFormatContext', 'streams')
        self.ST = lay('AVStream', 'codecpar')
        g = self.st.ghost
        g.update({k: ZERO for k in ('flush', 'held', 'sent', 'hungry', 'demuxfail', 'eofseen', 'scaled', 'mismatch')})
        g['psi'] = ZERO
        g['rem'] = var('packets', 0, None)
        self.PIX = var('pixelformat', -1, U31)
        self.L4 = var('rowfloats', 1, (1 << 29) - 1)
        self.st.assume(ge(self.L4, self.W))
        self.best = var('stream', 0, U31)

    # ------------------------------------------------------------ outcomes
    def err(self, st, ins, what, op=True):
        """the call fails with some error"""
        s = st.clone()
        v = var(hname(s, ins, 'averror'), 1 - (1 << 31), -1)
        s.assume(ne(v, I(EAGAIN)))
        s.assume(ne(v, I(EOFERR)))
        s.note.append('%s fails at %s' % (what, self.eng.curloc))
        s.ghost['libfail'] = True
        if op:
            self.set(s, 'opfail', ONE)
        self.set(s, 'lasterr', v)
        return s, VInt(32, v)

    def openerror(self, st, e):
        return Or(eq(e, st.ghost['lasterr']), eq(e, I(self.cx.L.const['RDEINVAL'])))

    def failure(self, st, e):
        g = st.ghost
        inval = eq(e, I(self.cx.L.const['RDEINVAL']))
        return Or(And(Or(eq(g['opfail'], ONE), eq(g['demuxfail'], ONE)), Or(eq(e, g['lasterr']), inval)), And(eq(g['mismatch'], ONE), inval))

    def atend(self, st):
        g = st.ghost
        end = And(eq(g['ended'], ONE), eq(g['flush'], ONE))
        if self.strict:
            self.post(st, 'the stream ends where the container ends', eq(g['demuxfail'], ZERO))
        return And(end, Or(eq(g['demuxfail'], ONE), eq(g['rem'], ZERO)))

    def stillopen(self, st):
        return And(eq(st.ghost['held'], ZERO), eq(st.ghost['mismatch'], ZERO))

    def done(self, st):
        self.post(st, 'the packet is blank between operations', eq(st.ghost['held'], ZERO))
        Media.done(self, st)

    def ready(self, st):
        g = st.ghost
        ok = [Bc(bool(g.get('codecopen') and g.get('swsopen') and g.get('streaminfo')))]
        return And(*ok)

    def pixel(self, st):
        return select(abase('gray', 'F32'), add(mul(self.y0, self.L4), self.x0))

    # ------------------------------------------------------------ objects
    def obj(self, st, p, kind, what):
        eng = self.eng
        if isinstance(p, VUndef) or is_null(p):
            eng.oblige(st, '%s of a null or uninitialised pointer at %s' % (what, eng.curloc), 'mem', FALSE)
            raise Dead()
        o = st.objs.get(p.obj) if isinstance(p, VPtr) else None
        good = o is not None and o.live and o.meta.get('alloc') == kind
        eng.oblige(st, '%s of a live %s at %s' % (what, kind, eng.curloc), 'mem', And(Bc(good), eq(p.off, ZERO)) if good else FALSE)
        if not good:
            raise Dead()
        return o

    def make(self, st, ins, kind, size, can_fail=True):
        eng = self.eng
        out = []
        if can_fail:
            s2 = st.clone()
            s2.ghost['allocfail'] = True
            s2.note.append('allocation fails at %s' % eng.curloc)
            out.append((s2, NULL))
        nm = hname(st, ins, kind)
        p = eng.new_obj(st, nm, 'heap', I(size))
        st.objs[nm].meta['alloc'] = kind
        return out, p, st.objs[nm]

    def slot(self, st, p, what):
        v = self.eng.load(st, PTR, p, self.any)
        if isinstance(v, VUndef):
            self.eng.oblige(st, '%s of an uninitialised pointer at %s' % (what, self.eng.curloc), 'mem', FALSE)
            raise Dead()
        return v

    def free_slot(self, st, p, kind, what):
        v = self.slot(st, p, what)
        if not is_null(v):
            release(self.eng, st, v, what, (kind,))
            self.eng.store(st, PTR, NULL, p, self.any)

    def c_avformat_open_input(self, eng, st, a, ins):
        v = self.slot(st, a[0], 'avformat_open_input')
        nm = a[1]
        if self.stdin:
            good = literal(st, nm) in (b'pipe:', b'pipe:0')
        else:
            good = isinstance(nm, VPtr) and nm.obj == 'filename' and cval(nm.off) == 0
        self.pre(st, 'avformat_open_input once, of the given name, into a null pointer', Bc(good and is_null(v) and not st.ghost.get('opened') and is_null(a[2])))
        st.ghost['opened'] = True
        out = [self.err(st, ins, 'avformat_open_input', False)]
        _, p, o = self.make(st, ins, 'container', self.FC[0], False)
        q = eng.new_obj(st, 'STREAMS', 'param', I(1 << 40))
        st.objs['STREAMS'].meta['hook_load'] = self.load_stream
        o.cells[self.FC[1]['streams'][0]] = (8, q)
        eng.new_obj(st, 'AVSTREAM', 'param', I(self.ST[0]))
        eng.new_obj(st, 'CODECPAR', 'opaque', ONE)
        st.objs['AVSTREAM'].cells[self.ST[1]['codecpar'][0]] = (8, VPtr('CODECPAR'))
        st.objs[p.obj].meta['on_free'] = lambda eng, st, o: [setattr(st.wobj(n), 'live', False) for n in ('STREAMS', 'AVSTREAM', 'CODECPAR')]
        eng.store(st, PTR, p, a[0], self.any)
        return out + [(st, VInt(32, ZERO))]

    def load_stream(self, eng, st, o, ptr, ty, n):
        eng.oblige(st, 'the stream chosen is used at %s' % eng.curloc, 'mem', And(Bc(bool(st.ghost.get('beststream'))), eq(ptr.off, scale(self.best, 8))))
        return VPtr('AVSTREAM')

    def c_avformat_find_stream_info(self, eng, st, a, ins):
        self.obj(st, a[0], 'container', 'avformat_find_stream_info')
        out = [self.err(st, ins, 'avformat_find_stream_info', False)]
        st.ghost['streaminfo'] = True
        return out + [(st, VInt(32, var(hname(st, ins, 'info'), 0, U31)))]

    def c_av_find_best_stream(self, eng, st, a, ins):
        self.obj(st, a[0], 'container', 'av_find_best_stream')
        sv = lambda v: eng.sview(st, eng.as_int(st, v, 32))
        self.pre(st, 'av_find_best_stream: any video stream', And(eq(sv(a[1]), I(self.VIDEO)), eq(sv(a[2]), I(-1)), eq(sv(a[3]), I(-1)), Bc(bool(st.ghost.get('streaminfo')))))
        out = [self.err(st, ins, 'av_find_best_stream', False)]
        if 'DECODER' not in st.objs:
            eng.new_obj(st, 'DECODER', 'opaque', ONE)
        if not is_null(a[4]):
            eng.store(st, PTR, VPtr('DECODER'), a[4], self.any)
        st.ghost['beststream'] = True
        return out + [(st, VInt(32, self.best))]

    def c_avcodec_alloc_context3(self, eng, st, a, ins):
        self.pre(st, 'avcodec_alloc_context3 of the decoder found', Bc(isinstance(a[0], VPtr) and a[0].obj == 'DECODER'))
        out, p, o = self.make(st, ins, 'decoder', self.CC[0])
        return out + [(st, p)]

    def c_avcodec_parameters_to_context(self, eng, st, a, ins):
        o = self.obj(st, a[0], 'decoder', 'avcodec_parameters_to_context')
        self.pre(st, 'avcodec_parameters_to_context: the parameters of the stream', Bc(isinstance(a[1], VPtr) and a[1].obj == 'CODECPAR' and st.objs['CODECPAR'].live))
        s, v = self.err(st, ins, 'avcodec_parameters_to_context', False)
        s.ghost['oddfail'] = True        # which error it was need not be reported
        st.ghost['params'] = True
        return [(s, v), (st, VInt(32, ZERO))]

    def c_avcodec_open2(self, eng, st, a, ins):
        self.obj(st, a[0], 'decoder', 'avcodec_open2')
        self.pre(st, 'avcodec_open2 once, with the parameters of the stream', Bc(bool(st.ghost.get('params')) and not st.ghost.get('codecopen') and (is_null(a[1]) or isinstance(a[1], VPtr) and a[1].obj == 'DECODER')))
        out = [self.err(st, ins, 'avcodec_open2', False)]
        st.ghost['codecopen'] = True
        for f, v in (('width', self.W), ('height', self.H), ('pix_fmt', self.PIX)):
            st.wobj(a[0].obj).cells[self.CC[1][f][0]] = (4, VInt(32, v))
        return out + [(st, VInt(32, ZERO))]

    def c_avcodec_free_context(self, eng, st, a, ins):
        self.free_slot(st, a[0], 'decoder', 'avcodec_free_context')

    def c_av_frame_free(self, eng, st, a, ins):
        self.free_slot(st, a[0], 'frame', 'av_frame_free')

    def c_av_packet_free(self, eng, st, a, ins):
        self.free_slot(st, a[0], 'packet', 'av_packet_free')

    def c_avformat_close_input(self, eng, st, a, ins):
        self.free_slot(st, a[0], 'container', 'avformat_close_input')

    def c_sws_freeContext(self, eng, st, a, ins):
        if isinstance(a[0], VUndef) or not is_null(a[0]):
            release(eng, st, a[0], 'sws_freeContext', ('scaler',))

    def c_sws_alloc_context(self, eng, st, a, ins):
        out, p, o = self.make(st, ins, 'scaler', 8)
        return out + [(st, p)]

    def c_av_frame_alloc(self, eng, st, a, ins):
        out, p, o = self.make(st, ins, 'frame', self.FR[0])
        nm = p.obj
        for f, v in (('width', ZERO), ('height', ZERO), ('format', I(-1)), ('own', ZERO)):
            st.ghost['%s of %s' % (f, nm)] = v
        b = 'pixels of ' + nm
        eng.new_obj(st, b, 'param', scale(mul(self.H, self.L4), 4), default='lazy')
        w = eng.to_array(st, b, 4)
        w.fields[0] = (4, 'F32', abase('gray', 'F32'))
        eng.pass_strides.setdefault(b, 4)
        o.meta.update(hook_load=self.load_frame, hook_store=self.store_frame, on_free=lambda eng, st, o: setattr(st.wobj(b), 'live', False))
        return out + [(st, p)]

    def frame_field(self, off):
        for f, (o, n) in self.FR[1].items():
            if o <= off < o + n:
                return f, off - o
        raise Unsupported('other fields of frames')

    def load_frame(self, eng, st, o, ptr, ty, n):
        off = cval(ptr.off)
        if off is None:
            raise Unsupported('a frame at a symbolic offset')
        f, k = self.frame_field(off)
        g = st.ghost
        if f in ('width', 'height', 'format'):
            return VInt(32, g['%s of %s' % (f, o.name)])
        if k:
            raise Unsupported('further planes')
        eng.oblige(st, 'pixels are those of the frame scaled in this operation at %s' % eng.curloc, 'mem', And(eq(g['scaled'], ONE), eq(g['own of ' + o.name], I(2))))
        return VPtr('pixels of ' + o.name) if f == 'data' else VInt(32, scale(self.L4, 4))

    def store_frame(self, eng, st, o, ptr, v, n):
        f, k = self.frame_field(cval(ptr.off))
        if f in ('width', 'height', 'format') and n == 4:
            self.set(st, '%s of %s' % (f, o.name), eng.sview(st, v))
            return True
        raise Unsupported('store into %s of a frame' % f)

    def c_av_frame_unref(self, eng, st, a, ins):
        self.obj(st, a[0], 'frame', 'av_frame_unref')
        for f, v in (('width', ZERO), ('height', ZERO), ('format', I(-1)), ('own', ZERO)):
            self.set(st, '%s of %s' % (f, a[0].obj), v)

    def c_av_packet_alloc(self, eng, st, a, ins):
        if 'packet' in st.ghost:
            raise Unsupported('more than one packet')
        out, p, o = self.make(st, ins, 'packet', self.PK[0])
        st.ghost['packet'] = p.obj
        o.meta['hook_load'] = self.load_packet
        o.meta['hook_store'] = self.store_packet
        o.meta['on_free'] = lambda eng, st, o: self.drop(st)
        return out + [(st, p)]

    def load_packet(self, eng, st, o, ptr, ty, n):
        if cval(ptr.off) != self.PK[1]['stream_index'][0]:
            raise Unsupported('other fields of packets')
        return VInt(32, st.ghost['psi'])

    def store_packet(self, *a):
        raise Unsupported('store into a packet')

    def drop(self, st):
        g = st.ghost
        self.post(st, 'no packet of the stream is dropped without having been decoded', Or(eq(g['held'], ZERO), ne(g['psi'], self.best), eq(g['sent'], ONE)))
        self.set(st, 'held', ZERO)

    def c_av_packet_unref(self, eng, st, a, ins):
        self.obj(st, a[0], 'packet', 'av_packet_unref')
        self.drop(st)
        self.set(st, 'psi', ZERO)

    def c_av_opt_set_int(self, eng, st, a, ins):
        self.obj(st, a[0], 'scaler', 'av_opt_set_int')
        n = literal(st, a[1])
        if n is None:
            raise Unsupported('option name')
        v = a[2]
        self.pre(st, 'av_opt_set_int before sws_init_context', Bc(not st.ghost.get('swsopen')))
        st.ghost['option ' + n.decode('latin1')] = eng.sview(st, eng.as_int(st, v, 64))
        return VInt(32, ZERO)

    def c_sws_init_context(self, eng, st, a, ins):
        self.obj(st, a[0], 'scaler', 'sws_init_context')
        g = st.ghost
        want = dict(srcw=self.W, srch=self.H, src_format=self.PIX, dstw=self.W, dsth=self.H, dst_format=I(self.GRAY))
        self.pre(st, 'sws_init_context once, after the decoder was opened', Bc(not g.get('swsopen') and bool(g.get('codecopen'))))
        for k, v in want.items():
            self.post(st, 'frames are scaled from what the decoder delivers to grayscale floats of the same size: %s' % k, eq(g['option ' + k], v) if 'option ' + k in g else FALSE)
        out = [self.err(st, ins, 'sws_init_context', False)]
        g['swsopen'] = True
        st.assume(ge(self.W, ONE))
        st.assume(ge(self.H, ONE))
        st.assume(ge(self.PIX, ZERO))
        for k in [k for k in g if k.startswith('option ')]:
            del g[k]
        return out + [(st, VInt(32, var(hname(st, ins, 'init'), 0, U31)))]

    # ------------------------------------------------------------ decoding
    def c_av_read_frame(self, eng, st, a, ins):
        self.obj(st, a[0], 'container', 'av_read_frame')
        self.obj(st, a[1], 'packet', 'av_read_frame')
        g = st.ghost
        self.pre(st, 'av_read_frame into a blank packet', eq(g['held'], ZERO))
        s2, v = self.err(st, ins, 'av_read_frame', False)
        self.set(s2, 'demuxfail', ONE)
        out = [(s2, v)]
        more, end = self.S.fork(eng, st, gt(g['rem'], ZERO))
        if more:
            self.set(more, 'rem', sub(g['rem'], ONE))
            self.set(more, 'held', ONE)
            self.set(more, 'sent', ZERO)
            self.set(more, 'psi', var(hname(more, ins, 'packetstream'), 0, U31))
            out.append((more, VInt(32, ZERO)))
        if end:
            self.set(end, 'eofseen', ONE)
            out.append((end, VInt(32, I(EOFERR))))
        return out

    def decoder(self, st, p, what):
        self.obj(st, p, 'decoder', what)
        self.pre(st, '%s of an open decoder' % what, Bc(bool(st.ghost.get('codecopen'))))

    def c_avcodec_send_packet(self, eng, st, a, ins):
        self.decoder(st, a[0], 'avcodec_send_packet')
        g = st.ghost
        out = []
        drained, st = self.S.fork(eng, st, eq(g['flush'], ONE))
        if drained:
            out.append((drained, VInt(32, I(EOFERR))))
        if not st:
            return out
        full, st = self.S.fork(eng, st, ne(g['hungry'], ONE))
        if full:
            s = full.clone()
            out.append((s, VInt(32, I(EAGAIN))))
        outs = [s for s in (full, st) if s]
        for s in outs:
            g = s.ghost
            if is_null(a[1]):
                self.post(s, 'the decoder is drained only behind the last packet, or after a failure', Or(eq(g['eofseen'], ONE), eq(g['demuxfail'], ONE)))
                out.append(self.err(s, ins, 'avcodec_send_packet'))
                self.set(s, 'flush', ONE)
            else:
                self.obj(s, a[1], 'packet', 'avcodec_send_packet')
                self.post(s, 'packets of the stream are decoded, each once', And(eq(g['held'], ONE), eq(g['psi'], self.best), eq(g['sent'], ZERO)))
                self.set(s, 'sent', ONE)
                self.set(s, 'hungry', ZERO)
                out.append(self.err(s, ins, 'avcodec_send_packet'))
            self.set(s, 'hungry', ZERO)
            out.append((s, VInt(32, ZERO)))
        return out

    def c_avcodec_receive_frame(self, eng, st, a, ins):
        self.decoder(st, a[0], 'avcodec_receive_frame')
        self.obj(st, a[1], 'frame', 'avcodec_receive_frame')
        nm = a[1].obj
        g = st.ghost
        self.pre(st, 'avcodec_receive_frame into a frame of its own', ne(g['own of ' + nm], I(2)))
        for f, v in (('width', ZERO), ('height', ZERO), ('format', I(-1)), ('own', ZERO)):
            self.set(st, '%s of %s' % (f, nm), v)
        out = []
        over, st = self.S.fork(eng, st, eq(g['ended'], ONE))
        if over:
            out.append((over, VInt(32, I(EOFERR))))
        if not st:
            return out
        out.append(self.err(st, ins, 'avcodec_receive_frame'))
        s2 = st.clone()
        d = eng.decide(s2, eq(g['flush'], ONE))
        if d is not False:
            s3 = s2.clone()
            try:
                s3.assume(eq(g['flush'], ONE))
                self.set(s3, 'ended', ONE)
                out.append((s3, VInt(32, I(EOFERR))))
            except Dead:
                pass
        if d is not True:
            try:
                s2.assume(ne(g['flush'], ONE))
                self.set(s2, 'hungry', ONE)
                out.append((s2, VInt(32, I(EAGAIN))))
            except Dead:
                pass
        site = hname(st, ins, 'frame')
        for f, lo in (('width', 0), ('height', 0), ('format', -1)):
            self.set(st, '%s of %s' % (f, nm), var('%s:%s' % (site, f), lo, U31))
        self.set(st, 'own of ' + nm, ONE)
        self.set(st, 'got', add(st.ghost['got'], ONE))
        if g.get('op') == 'read':
            fits = And(*[eq(st.ghost['%s of %s' % (f, nm)], v) for f, v in (('width', self.W), ('height', self.H), ('format', self.PIX))])
            self.set(st, 'mismatch', ite(fits, ZERO, ONE))
        out.append((st, VInt(32, ZERO)))
        return out

    def c_sws_scale_frame(self, eng, st, a, ins):
        self.obj(st, a[0], 'scaler', 'sws_scale_frame')
        for p in a[1:3]:
            self.obj(st, p, 'frame', 'sws_scale_frame')
        g = st.ghost
        d, s = a[1].obj, a[2].obj
        self.pre(st, 'sws_scale_frame with an initialised scaler', Bc(bool(g.get('swsopen'))))
        self.pre(st, 'sws_scale_frame: the source is a frame as configured', And(eq(g['own of ' + s], ONE), eq(g['width of ' + s], self.W), eq(g['height of ' + s], self.H), eq(g['format of ' + s], self.PIX)))
        self.pre(st, 'sws_scale_frame: the destination is a frame as configured', And(ne(g['own of ' + d], ONE), eq(g['width of ' + d], self.W), eq(g['height of ' + d], self.H), eq(g['format of ' + d], I(self.GRAY))))
        out = [self.err(st, ins, 'sws_scale_frame')]
        self.set(st, 'own of ' + d, I(2))
        self.set(st, 'scaled', ONE)
        return out + [(st, VInt(32, var(hname(st, ins, 'scaled'), 0, U31)))]

    def c_av_strerror(self, eng, st, a, ins):
        eng.mem_ok(st, a[1], eng.uview(st, a[2]), 'av_strerror', True)
        o = st.objs[a[1].obj]
        eng.note_write(st, o, ('cell', o.name, 0, cval(o.size)))
        w = st.wobj(a[1].obj)
        w.cells = {}
        w.default = 'lazy'
        w.meta['string'] = 'av_strerror'
        return VInt(32, ZERO)

    # ------------------------------------------------------------ invariants
    def measures(self, ctx):
        H = ctx.head
        out = Media.measures(self, ctx)
        if 'ghost:rem' in H:
            out.append(add(H['ghost:rem'], sub(ONE, H['ghost:flush'])) if 'ghost:flush' in H else H['ghost:rem'])
        return out

    def lib_tmpl(self, ctx):
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        G = lambda f: H.get('ghost:' + f)
        if G('rem') is not None:
            yield 'rem', ge(G('rem'), ZERO)
            if G('eofseen') is not None:
                yield 'eofseen', Implies(eq(G('eofseen'), ONE), eq(G('rem'), ZERO))
        if G('flush') is not None:
            if G('eofseen') is not None and G('demuxfail') is not None:
                yield 'drained', Implies(eq(G('flush'), ONE), Or(eq(G('eofseen'), ONE), eq(G('demuxfail'), ONE)))
            if G('ended') is not None:
                yield 'ended', Implies(eq(G('ended'), ONE), eq(G('flush'), ONE))
        for f in ('held', 'opfail', 'mismatch', 'ended', 'scaled'):
            if G(f) is not None:
                yield 'no ' + f, eq(G(f), ZERO)
        for k in H:
            if k.startswith('ghost:own of '):
                yield 'in ' + k, Or(eq(H[k], ZERO), eq(H[k], ONE))
                yield 'out ' + k, Or(eq(H[k], ZERO), eq(H[k], I(2)))
        inner = ctx.st.ghost.get('op') == 'read'
        if inner and 'ghost:got' not in H and 'ghost:rem' not in H:
            # the copy of the rows
            src = abase('gray', 'F32')
            for arr in ctx.arrays():
                if H[arr].sort == 'AF32':
                    for v in ctx.ints():
                        if kinds[v] in ('i64', 'i32') and not v.startswith('ghost'):
                            yield 'rows:%s:%s' % (arr, v), Implies(And(self.inside, lt(self.y0, H[v])), fsame(select(H[arr], self.n0), self.pixel(ctx.st)))



class Magick(Media):
    fmt, reader = 'MagickWand', 'magickwand'
    FLAGS = ('ended', 'opfail', 'wild')
    SRC = 'lib/image/magickwand.c'
    RESET = Media.RESET + ('exported',)

    def __init__(self, *a):
        Media.__init__(self, *a)
        self.FLOAT = layout.private(self.SRC, 'char[FloatPixel+1]', (), self.cx.task.defs)[0] - 1
        g = self.st.ghost
        g.update({k: ZERO for k in ('exported', 'wild', 'total', 'reset')})
        for f in ('BlobError', 'FileOpenError'):
            pass

    def wand(self, st, p, what):
        eng = self.eng
        if isinstance(p, VUndef) or is_null(p):
            eng.oblige(st, '%s of a null or uninitialised wand at %s' % (what, eng.curloc), 'mem', FALSE)
            raise Dead()
        o = st.objs.get(p.obj) if isinstance(p, VPtr) else None
        good = o is not None and o.live and o.meta.get('alloc') == 'wand'
        eng.oblige(st, '%s of a live wand at %s' % (what, eng.curloc), 'mem', Bc(good))
        if not good:
            raise Dead()
        return o

    def openerror(self, st, e):
        return ne(e, ZERO)

    def failure(self, st, e):
        return And(eq(st.ghost['opfail'], ONE), eq(e, I(self.cx.L.const['RDEINVAL'])))

    def atend(self, st):
        return And(eq(st.ghost['ended'], ONE), eq(st.ghost['wild'], ZERO))

    def stillopen(self, st):
        g = st.ghost
        return And(eq(g['wild'], ZERO), eq(g['exported'], g['got']))

    def ready(self, st):
        return Bc(bool(st.ghost.get('isread')))

    def pixel(self, st):
        return select(abase('gray', 'F32'), self.n0)

    # ------------------------------------------------------------ the library
    def c_MagickWandGenesis(self, eng, st, a, ins):
        return None

    def c_NewMagickWand(self, eng, st, a, ins):
        nm = hname(st, ins, 'wand')
        p = eng.new_obj(st, nm, 'resource', ONE)
        st.objs[nm].meta['alloc'] = 'wand'
        return p

    def c_DestroyMagickWand(self, eng, st, a, ins):
        self.wand(st, a[0], 'DestroyMagickWand')
        release(eng, st, a[0], 'DestroyMagickWand', ('wand',))
        return NULL

    def c_MagickReadImage(self, eng, st, a, ins):
        self.wand(st, a[0], 'MagickReadImage')
        self.pre(st, 'MagickReadImage once, of the given name', Bc(isinstance(a[1], VPtr) and a[1].obj == 'filename' and cval(a[1].off) == 0 and not st.ghost.get('isread')))
        s = st.clone()
        s.note.append('MagickReadImage fails')
        s.ghost['libfail'] = True
        self.S.errno(s, ins, 'errno')
        st.ghost['isread'] = True
        st.ghost['total'] = var('images', 1, U64)
        # the last image is the current one
        st.ghost['left'] = ZERO
        return [(s, VInt(32, ZERO)), (st, VInt(32, ONE))]

    def c_MagickGetException(self, eng, st, a, ins):
        self.wand(st, a[0], 'MagickGetException')
        eng.store(st, IntTy(32), VInt(32, var(hname(st, ins, 'exceptiontype'), 0, 999)), a[1], self.any)
        return self.text(st, ins)

    def text(self, st, ins):
        nm = hname(st, ins, 'magicktext')
        p = self.eng.new_obj(st, nm, 'resource', ONE)
        st.objs[nm].meta.update(alloc='magick', string=nm)
        return p

    def c_RelinquishMagickMemory(self, eng, st, a, ins):
        if isinstance(a[0], VUndef) or not is_null(a[0]):
            release(eng, st, a[0], 'RelinquishMagickMemory', ('magick',))
        return NULL

    def size(self, st, p, what):
        self.wand(st, p, what)
        self.pre(st, '%s of an image that was read' % what, Bc(bool(st.ghost.get('isread'))))

    def c_MagickGetImageWidth(self, eng, st, a, ins):
        self.size(st, a[0], 'MagickGetImageWidth')
        return VInt(64, self.W)

    def c_MagickGetImageHeight(self, eng, st, a, ins):
        self.size(st, a[0], 'MagickGetImageHeight')
        return VInt(64, self.H)

    def c_MagickResetIterator(self, eng, st, a, ins):
        self.size(st, a[0], 'MagickResetIterator')
        self.pre(st, 'MagickResetIterator before the first frame', eq(st.ghost['got'], ZERO))
        self.set(st, 'left', st.ghost['total'])

    def c_MagickNextImage(self, eng, st, a, ins):
        self.size(st, a[0], 'MagickNextImage')
        g = st.ghost
        past, st = self.S.fork(eng, st, eq(g['ended'], ONE))
        out = []
        if past:
            s2 = past.clone()
            out.append((s2, VInt(32, ZERO)))
            self.set(past, 'wild', ONE)        # any image, once more
            out.append((past, VInt(32, ONE)))
        if st:
            more, end = self.S.fork(eng, st, gt(g['left'], ZERO))
            if more:
                self.set(more, 'left', sub(g['left'], ONE))
                self.set(more, 'got', add(g['got'], ONE))
                out.append((more, VInt(32, ONE)))
            if end:
                self.set(end, 'ended', ONE)
                out.append((end, VInt(32, ZERO)))
        return out

    def c_MagickExportImagePixels(self, eng, st, a, ins):
        self.size(st, a[0], 'MagickExportImagePixels')
        u = lambda v, w: eng.uview(st, eng.as_int(st, v, w))
        g = st.ghost
        self.pre(st, 'MagickExportImagePixels of an image that was reached', And(ge(g['got'], ONE), eq(g['ended'], ZERO)))
        self.post(st, 'the whole image is exported as intensities in floats', And(eq(u(a[1], 64), ZERO), eq(u(a[2], 64), ZERO), eq(u(a[3], 64), self.W), eq(u(a[4], 64), self.H), Bc(literal(st, a[5]) == b'I'), eq(u(a[6], 32), I(self.FLOAT))))
        n = mul(self.W, self.H)
        eng.mem_ok(st, a[7], scale(n, 4), 'pixels exported', True)
        s = st.clone()
        s.note.append('MagickExportImagePixels fails')
        s.ghost['libfail'] = True
        self.set(s, 'opfail', ONE)
        out = [(s, VInt(32, ZERO))]
        o = st.objs[a[7].obj]
        if o.stride is None:
            o = eng.to_array(st, o.name, 4)
        if o.stride != 4:
            raise Unsupported('export into other memory')
        d = o.fields.get(0) or (4, 'F32', eng.fresh_field(o, 0, 4, 'F32'))
        eng.note_write(st, o, ('field', o.name, 0, 4))
        w = st.wobj(o.name)
        w.fields[0] = (4, 'F32', acopy(d[2], idiv(a[7].off, I(4)), n, abase('gray', 'F32'), ZERO, 'same'))
        self.set(st, 'exported', g['got'])
        return out + [(st, VInt(32, ONE))]

    # ------------------------------------------------------------ invariants
    def lib_tmpl(self, ctx):
        H, E, kinds = ctx.head, ctx.ent, ctx.info['kinds']
        G = lambda f: H.get('ghost:' + f)
        total = var('images', 1, U64)
        if G('left') is not None and G('got') is not None:
            yield 'left', And(ge(G('left'), ZERO), eq(add(G('left'), G('got')), total))
            if G('ended') is not None:
                yield 'over', Implies(eq(G('ended'), ONE), eq(G('left'), ZERO))
                for v in H:
                    if v.startswith('mem:') and kinds[v] in ('i8', 'b', 'i32') or kinds[v] in ('i8', 'b') and v[0] == '%':
                        b = H[v] if H[v].sort == 'B' else ne(H[v], ZERO)
                        rng = TRUE if H[v].sort == 'B' else And(ge(H[v], ZERO), le(H[v], ONE))
                        yield 'mirror:' + v, And(Iff(b, eq(G('ended'), ONE)), rng)
                        yield 'unmirror:' + v, And(Iff(b, eq(G('ended'), ZERO)), rng)
        for f in ('opfail', 'ended', 'wild'):
            if G(f) is not None:
                yield 'no ' + f, eq(G(f), ZERO)


class Extensions(Decode):
    """supports_ext: FFmpeg's is asked of every demuxer; MagickWand attempts any format"""

    def __init__(self, cx, eng, reader):
        self.reader = self.fmt = reader
        Decode.__init__(self, cx, eng, False)

    def templates(self, ctx):
        H = ctx.head
        if 'ghost:demuxers' in H:
            yield 'demuxers', ge(H['ghost:demuxers'], ZERO)
        if 'ghost:matched' in H:
            yield 'matched', eq(H['ghost:matched'], ZERO)
        for k in ('matched', 'asked'):
            if 'ghost:' + k in H:
                yield 'flag ' + k, And(ge(H['ghost:' + k], ZERO), le(H['ghost:' + k], ONE))
                yield 'all ' + k, eq(H['ghost:' + k], ONE)

    def c_av_demuxer_iterate(self, eng, st, a, ins):
        eng.mem_ok(st, a[0], I(8), 'iteration state')
        g = st.ghost
        self.post(st, 'every demuxer is asked', eq(g['asked'], ONE))
        more, end = self.S.fork(eng, st, gt(g['demuxers'], ZERO))
        out = []
        if end:
            out.append((end, NULL))
        if more:
            self.S.set(more, 'demuxers', sub(g['demuxers'], ONE))
            self.S.set(more, 'asked', ZERO)
            out.append((more, VPtr('DEMUXER')))
        return out

    def c_av_match_name(self, eng, st, a, ins):
        self.post(st, 'the extension is looked for among those of the demuxer', Bc(isinstance(a[0], VPtr) and a[0].obj == 'ext' and isinstance(a[1], VPtr) and a[1].obj == 'EXTENSIONS'))
        self.S.set(st, 'asked', ONE)
        s2 = st.clone()
        self.S.set(s2, 'matched', ONE)
        return [(st, VInt(32, ZERO)), (s2, VInt(32, var(hname(s2, ins, 'match'), 1, U31)))]

    def run(self):
        eng, st = self.eng, self.st
        st.ghost.update(demuxers=var('demuxers', 0, U64), matched=ZERO, asked=ONE)
        eng.opts['measures'] = {'*': lambda ctx: [ctx.head['ghost:demuxers']] if 'ghost:demuxers' in ctx.head else []}
        eng.new_obj(st, 'ext', 'opaque', ONE)
        st.objs['ext'].meta['string'] = 'ext'
        size, off = layout.private('lib/image/ffmpeg.c', 'AVInputFormat', ('extensions',), self.cx.task.defs)
        eng.new_obj(st, 'DEMUXER', 'param', I(size))
        eng.new_obj(st, 'EXTENSIONS', 'opaque', ONE)
        st.objs['DEMUXER'].writable = False
        st.objs['DEMUXER'].cells[off['extensions'][0]] = (8, VPtr('EXTENSIONS'))

        def done(st, rv):
            exits_reached(eng, st, 'asked')
            if isinstance(rv, VUndef):
                self.post(st, 'an answer is given', FALSE)
                return
            r = eng.as_bool(st, rv)
            g = st.ghost
            if self.reader == 'ffmpeg':
                self.post(st, 'an extension is supported exactly if some demuxer has it', And(Iff(r, eq(g['matched'], ONE)), Or(r, eq(g['demuxers'], ZERO))))
            else:
                self.post(st, 'any extension is attempted', r)
        eng.run(st, self.fn('supports_ext'), [VPtr('ext')], done)


def media(cls, cx, eng, what, stdin=False, strict=False):
    cls(cx, eng, stdin, strict).run(what)


STRICT, LOOSE = 'a container that cannot be read further is an error', 'ffmpeg-read-error-as-end'


def tasks(tier):
    out = []
    E = {FFmpeg: ('openfail', 'opened', 'read', 'noread', 'end', 'failed', 'seek', 'noseek', 'closed'), Magick: ('openfail', 'opened', 'read', 'noread', 'end', 'failed', 'seek', 'noseek', 'closed')}
    K = dict(kind='media', drivers=('media',))
    for c in (FFmpeg, Magick):
        for s in (False, True):
            out.append(Task('%s: open and close (%s)' % (c.fmt, 'standard input' if s else 'a named file'), lambda cx, eng, c=c, s=s: media(c, cx, eng, 'open', s), exits=('openfail', 'opened', 'closed'), **K))
    out.append(Task('MagickWand: open, any reads and seeks, close', lambda cx, eng: media(Magick, cx, eng, 'all'), exits=E[Magick], **K))
    for g in (STRICT, LOOSE):
        out.append(Task('FFmpeg: open, any reads and seeks, close (%s)' % g, lambda cx, eng, g=g: media(FFmpeg, cx, eng, 'all', False, g == STRICT), exits=E[FFmpeg], group=g, **K))
    for r in ('ffmpeg', 'magickwand'):
        out.append(Task('extensions of %s' % r, lambda cx, eng, r=r: Extensions(cx, eng, r).run(), exits=('asked',), kind='media'))
    return out
