"""C26: the FFmpeg and MagickWand readers, built with sanitizers against scripted stand-ins for those libraries (mediastub.c): any
packets, latencies, row paddings and frame sizes, a failure of each call in turn, any sequence of reads and seeks."""
import itertools
from hx import *
import numpy as np


def build_media(h):
    so = os.path.join(h.outdir, 'media.so')
    if os.path.exists(so):
        return so
    R = build.REPO
    fl = ['-std=gnu99', '-g', '-O1', '-w', '-fPIC', '-DUSE_BUILTIN_SIGNBIT', '-DHAVE_LIBJPEG=2', '-DHAVE_LIBPNG=1', '-DHAVE_FFMPEG=1', '-DHAVE_MAGICKWAND=6', '-DRESDET_EXPORT', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    objs = []
    for s in [os.path.join(R, x) for x in build.MEDIA] + [os.path.join(HERE, x) for x in ('mediastub.c', 'hooks.c')]:
        o = os.path.join(h.outdir, 'media-' + os.path.basename(s) + '.o')
        f = fl if not s.endswith('hooks.c') else ['-O1', '-g', '-w', '-fPIC']
        r = subprocess.run(['gcc'] + f + build.inc() + build.media_flags(build.MEDIA[1]) + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('cannot build %s: %s' % (s, r.stderr[-1500:]))
        objs.append(o)
    r = subprocess.run(['gcc', '-shared', '-o', so + '.tmp', '-fsanitize=address,undefined'] + objs + ['-Wl,-Bsymbolic', '-Wl,' + ','.join('--wrap=' + w for w in WRAP)], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cannot link: ' + r.stderr[-1500:])
    os.rename(so + '.tmp', so)
    return so


class M:
    def __init__(self, so):
        l = self.l = C.CDLL(so)
        P = C.c_void_p
        l.mx_open.restype = P
        l.mx_open.argtypes = [C.c_int, C.c_char_p, P, P, P]
        for f, a in (('read', [P, P, SZ, SZ, P]), ('seek', [P, C.c_uint64, P, P, SZ, SZ, P]), ('ext', [C.c_char_p])):
            getattr(l, 'mx_' + f).restype = C.c_bool
            getattr(l, 'mx_' + f).argtypes = [C.c_int] + a
        l.mx_close.argtypes = [C.c_int, P]

    def set(self, n, v, t=C.c_int):
        t.in_dll(self.l, n).value = v

    def get(self, n, t=C.c_int):
        return t.in_dll(self.l, n).value

    def text(self, n, k=64):
        return (C.c_char * k).in_dll(self.l, n).value.decode()


def image(k, n):
    return ((k * 1000 + np.arange(n) + 1) / 1048576.).astype(np.float32)


def lib(h):
    if not hasattr(h, 'media'):
        h.media = M(build_media(h))
    return h.media


def one(h, c):
    m = lib(h)
    if 'ext' in c:
        return ext(h, m, c)
    l, r = m.l, 1 if c['reader'] == 'magick' else 0
    w, hh = c['w'], c['h']
    l.hx_reset()
    l.mx_reset()
    m.set('mx_w', w)
    m.set('mx_h', hh)
    m.set('mx_fmt', c.get('fmt', 3))
    m.set('mx_pad', c.get('pad', 0))
    m.set('mx_stream', c.get('stream', 0))
    pk = c.get('packets', [])
    m.set('mx_npackets', len(pk))
    (C.c_int * 256).in_dll(l, 'mx_streams')[:len(pk)] = [p[0] for p in pk]
    (C.c_int * 256).in_dll(l, 'mx_perpacket')[:len(pk)] = [p[1] for p in pk]
    m.set('mx_delay', c.get('delay', 0))
    m.set('mx_nimages', c.get('images', 0))
    m.set('mx_after', c.get('after', 1))
    bad = c.get('badframe', -1)
    m.set('mx_badframe', bad)
    m.set('mx_badkind', c.get('badkind', 0))
    total = c['images'] if r else sum(p[1] for p in pk if p[0] == c.get('stream', 0))
    if c.get('failat'):
        m.set('mx_fail_at', c['failat'], C.c_long)
        m.set('mx_fail_code', c.get('code', -5))
        if r:
            m.set('mx_extype', l.mx_extypes(c.get('ex', 0)))
            m.set('mx_errno', 2)
    if c.get('allocfail'):
        m.set('hx_fail_at', 1, C.c_long)
    ww, wh, e = SZ(), SZ(), C.c_int(0)
    name = c.get('name', '/nonexistent/x.y').encode()
    what = '%s %s' % (c['reader'], {k: v for k, v in c.items() if k not in ('reader', 'ops')})
    p = l.mx_open(r, name, C.byref(ww), C.byref(wh), C.byref(e))
    failed = m.text('mx_failed')
    used = m.text('mx_name')

    def proto():
        b = m.text('mx_broken', 256)
        h.check(not b, lambda: '%s: %s' % (what, b))
    proto()
    if not p:
        h.check(failed or c.get('allocfail'), lambda: what + ': not opened though nothing failed')
        h.check(e.value != 0, lambda: '%s: %s failed, but no error is reported' % (what, failed))
        if not r and failed and not c.get('allocfail') and 'alloc' not in failed and failed != 'avcodec_parameters_to_context':
            h.check(e.value in (c.get('code', -5), 3), lambda: '%s: %s failed with %d, reported as %d' % (what, failed, c.get('code', -5), e.value))
        if r and failed:
            want = {0: -2, 1: -2, 2: 1, 3: 1, 4: 4 if name == b'-' else -2, 5: 3}[c.get('ex', 0)]
            h.check(e.value == want, lambda: '%s: opening fails with %d, not %d' % (what, e.value, want))
        h.check(m.get('mx_live', C.c_long) == 0 and m.get('hx_live', C.c_long) == 0, lambda: '%s: after a failed open (%s) %d library objects and %d allocations remain' % (what, failed, m.get('mx_live', C.c_long), m.get('hx_live', C.c_long)))
        return
    h.check(not failed and not c.get('allocfail'), lambda: '%s: opened though %s failed' % (what, failed))
    h.check(e.value == 0 and (ww.value, wh.value) == (w, hh), lambda: '%s: opened with status %d and size %dx%d' % (what, e.value, ww.value, wh.value))
    h.check(used == name.decode() or used == 'pipe:' and name == b'-' and not r, lambda: '%s: %r is read' % (what, used))
    n = w * hh
    im = Buf(np.full(n, -7, np.float32))
    at, dead = 0, False
    for i, o in enumerate(c['ops']):
        e = C.c_int(0)
        w2 = '%s, operation %d (%s)' % (what, i, o)
        before = m.text('mx_failed')
        calls = []
        if o == 'r':
            ok = l.mx_read(r, p, im.p, w, hh, C.byref(e))
        else:
            k = int(o[1:])
            cb = PROG(lambda x, j: calls.append((x, j)))
            ok = l.mx_seek(r, p, k, C.cast(cb, C.c_void_p) if o[0] == 's' else None, 4711, w, hh, C.byref(e))
        failed = m.text('mx_failed')
        proto()
        if failed and not before:
            # a failure in this operation
            if failed == 'av_read_frame' and not (not ok and e.value):
                h.known('ffmpeg-read-error-as-end', w2 + ': a container that cannot be read further is taken as ended')
            else:
                h.check(not ok and e.value != 0, lambda: '%s: %s failed, but the result is %s with status %d' % (w2, failed, ok, e.value))
                h.check(e.value in ((3,) if r else (c.get('code', -5), 3)), lambda: '%s: %s failed with %d, reported as %d' % (w2, failed, c.get('code', -5), e.value))
            dead = True
        if dead:
            continue        # what a failed operation leaves behind is not specified
        if o == 'r':
            if at < total and at == bad:
                h.check(not ok and e.value == 3, lambda: '%s: a frame of another size or format gives %s with status %d' % (w2, ok, e.value))
            else:
                h.check(bool(ok) == (at < total) and e.value == 0, lambda: '%s: reading frame %d of %d gives %s with status %d' % (w2, at, total, ok, e.value))
                if ok:
                    h.check(np.array_equal(im.get(), image(at, n)), lambda: '%s: the pixels are not those of frame %d' % (w2, at))
            at = min(at + 1, total)
        else:
            left = total - at
            h.check(bool(ok) == (k <= left) and e.value == 0, lambda: '%s: seeking by %d with %d left gives %s with status %d' % (w2, k, left, ok, e.value))
            if o[0] == 's':
                h.check(calls == [(4711, j + 1) for j in range(min(k, left))], lambda: '%s: callback calls %s' % (w2, calls))
            at = min(at + k, total)
    l.mx_close(r, p)
    proto()
    h.check(m.get('mx_live', C.c_long) == 0 and m.get('hx_live', C.c_long) == 0 and m.get('hx_bad_free', C.c_long) == 0, lambda: '%s: after closing %d library objects and %d allocations remain' % (what, m.get('mx_live', C.c_long), m.get('hx_live', C.c_long)))


def ext(h, m, c):
    d = c['demuxers']
    m.set('mx_ndemux', len(d))
    t = ((C.c_char * 32) * 16).in_dll(m.l, 'mx_demux')
    for i, x in enumerate(d):
        t[i].value = x.encode()
    want = any(c['ext'] in x.split(',') for x in d) or c['reader'] == 'magick'
    got = m.l.mx_ext(1 if c['reader'] == 'magick' else 0, c['ext'].encode())
    h.check(bool(got) == want, lambda: 'extension %r of %s: %s' % (c['ext'], d, got))


OPS = (['r'] * 12, ['r', 's0', 's1', 'r', 'r', 's2', 'r', 'r', 'r'], ['s3', 'r', 'q1', 'r', 's9', 'r'], ['q2', 'q0', 's2', 'r', 'r', 'r'], ['s20', 'r', 's1'], ['r', 's1'] * 5, [])
PACKETS = ([], [[0, 1]], [[0, 1]] * 5, [[1, 1], [0, 1], [2, 3], [0, 1], [1, 1], [0, 1], [1, 1]], [[0, 2], [0, 0], [0, 1], [0, 3], [1, 1]], [[0, 0], [0, 0], [0, 4]])
SIZES = ((3, 2), (1, 1), (5, 7), (16, 4))


def cases(h):
    for r in ('ffmpeg', 'magick'):
        for d in ([], ['a'], ['aa', 'a,b,ccc', 'd'], ['x', 'y', 'jpg']):
            for x in ('a', 'b', 'ccc', 'c', 'jpg', 'jp', ''):
                if x:
                    yield dict(reader=r, ext=x, demuxers=d)
    k = 0
    for pk, ops in itertools.product(PACKETS, OPS):
        for delay in (0, 1, 3):
            k += 1
            yield dict(reader='ffmpeg', w=SIZES[k % 4][0], h=SIZES[k % 4][1], packets=[[p[0] + k % 2, p[1]] for p in pk], stream=k % 2, delay=delay, pad=(0, 5, 16)[k % 3], ops=ops, name=('a', '-', '/x/y.avi')[k % 3])
    for n, ops, a in itertools.product((1, 2, 5), OPS, (0, 1)):
        k += 1
        yield dict(reader='magick', w=SIZES[k % 4][0], h=SIZES[k % 4][1], images=n, ops=ops, after=a, name=('a', '-', '/x/y.gif')[k % 3])
    for bk in (0, 1, 2):
        for b in (0, 1, 3):
            for ops in OPS:
                k += 1
                yield dict(reader='ffmpeg', w=SIZES[k % 4][0], h=SIZES[k % 4][1], packets=[[0, 1]] * 5, badframe=b, badkind=bk, delay=k % 2, ops=ops)
    for r in ('ffmpeg', 'magick'):
        yield dict(reader=r, w=3, h=2, packets=[[0, 1]], images=1, allocfail=1, ops=['r'])
    for f in range(1, 32):
        for code in (-5, -22, -1094995529, -12):
            for ops in (OPS[0], OPS[2], OPS[5]):
                yield dict(reader='ffmpeg', w=4, h=3, packets=[[0, 1], [1, 1], [0, 1], [0, 1]], failat=f, code=code, delay=f % 2, ops=ops)
    for f in range(1, 5):
        for ex in range(6):
            for ops in OPS:
                for name in ('-', '/nonexistent/z'):
                    yield dict(reader='magick', w=4, h=3, images=3, failat=f, ex=ex, ops=ops, name=name)
    r = h.rnd
    while True:
        ops = [r.choice(['r', 'r', 'r', 's%d' % r.randint(0, 4), 'q%d' % r.randint(0, 3)]) for _ in range(r.randint(0, 14))]
        w, hh = r.randint(1, 9), r.randint(1, 9)
        if r.random() < .3:
            c = dict(reader='magick', w=w, h=hh, images=r.randint(1, 9), ops=ops, after=r.randint(0, 1))
        else:
            s = r.randint(0, 3)
            c = dict(reader='ffmpeg', w=w, h=hh, stream=s, packets=[[r.choice([s, s, s, r.randint(0, 3)]), r.choice([1, 1, 1, 0, 2, 3])] for _ in range(r.randint(0, 12))], delay=r.randint(0, 4), pad=r.choice([0, 1, 7]), ops=ops, fmt=r.randint(0, 40))
            if r.random() < .2:
                c.update(badframe=r.randint(0, 6), badkind=r.randint(0, 2))
        if r.random() < .3:
            c.update(failat=r.randint(1, 40), code=r.choice([-5, -1, -1094995529, -22]), ex=r.randint(0, 5))
        yield c


def run(h):
    for c in cases(h):
        if not h.more():
            return
        h.case(**c)
        try:
            one(h, c)
        except Skip:
            h.skipped += 1
