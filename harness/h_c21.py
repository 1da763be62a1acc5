"""resdet_read_image against open and read frame by frame, and against the reference decoders; realloc failures, size limits, all sources."""
from h_files import *
import h_files
from h_c14 import y4m, pfm, MIME


def one(h, c):
    kw = dict(defs=['-DPIXEL_MAX=%d' % c['limit']]) if c.get('limit') else {}
    l = h.lib(**kw)
    data, fmt = bytes.fromhex(c['data']), c['fmt']
    ftype = {'ext': None, 'type': fmt.encode(), 'mime': MIME[fmt], 'wrong': b'nope'}[c['type']]
    if c['how'] in ('stdin', 'stdinpipe') and ftype is None:
        ftype = fmt.encode()
    l.reset()
    l._max_alloc.value = 1 << 26

    def src():
        s = Source(h, c['how'], data, fmt if c['type'] != 'type' else 'bin')
        if c.get('missing'):
            s.name += b'x.' + fmt.encode()
        return s
    # frame by frame
    w, hh, e, img = SZ(), SZ(), C.c_int(), C.c_void_p()
    frames = []
    lim = c.get('limit') or (1 << 62)
    s = src()
    try:
        p = l.open_image(s.name, ftype, C.addressof(w), C.addressof(hh), C.addressof(img), C.addressof(e))
        exp = e.value
        if p:
            n = w.value * hh.value
            while True:
                r = l.read_image_frame(p, img.value, C.addressof(e))
                exp = e.value
                if not r:
                    break
                frames.append(np.frombuffer(C.string_at(img.value, n * 4), F32).copy())
                if n * (len(frames) + 1) > lim:
                    exp = 5
                    break
            l.free(img.value)
            l.close_image(p)
    finally:
        s.done()
    h.check(l.live == 0 and l.files == 0, 'opening and reading leaks')
    cnt0 = l.count
    im, nim, w2, h2 = C.c_void_p(0x51), SZ(77), SZ(78), SZ(79)
    s = src()
    try:
        if c.get('failat'):
            l._fail_at.value = cnt0 + c['failat']
        r = l.read_image(s.name, ftype, C.addressof(im), C.addressof(nim), C.addressof(w2), C.addressof(h2))
        nomem = bool(c.get('failat')) and l.count >= cnt0 + c['failat']
        l._fail_at.value = -1
    finally:
        s.done()
    what = 'resdet_read_image (%s, %s)' % (fmt, c['how'])
    if nomem:
        h.check(r != 0, what + ': a failed allocation was ignored')
    else:
        h.check(r == exp, lambda: '%s: status %d, frame by frame %d after %d frames' % (what, r, exp, len(frames)))
    if r:
        h.check(not im.value, what + ': a block is returned although the status is %d' % r)
    else:
        h.check(im.value and nim.value == len(frames) and (w2.value, h2.value) == (w.value, hh.value),
                lambda: '%s: %d frames of %dx%d, frame by frame %d of %dx%d' % (what, nim.value, w2.value, h2.value, len(frames), w.value, hh.value))
        got = np.frombuffer(C.string_at(im.value, n * 4 * len(frames)), F32) if frames else np.zeros(0, F32)
        for k, f in enumerate(frames):
            h.check(same_frame(got[k * n:(k + 1) * n], f), '%s: frame %d differs' % (what, k))
        l.free(im.value)
    h.check(l.live == 0 and l.files == 0 and l.bad_free == 0, lambda: '%s: status %d leaves %d allocations, %d streams, %d bad releases' % (what, r, l.live, l.files, l.bad_free))


def fixed():
    def b(**k):
        return dict(dict(fmt='y4m', data=y4m(8, 7, 3).hex(), how='file', type='ext'), **k)
    r = np.random.RandomState(3)
    for n in range(0, 7):
        for w, hh in ((1, 1), (8, 7), (3, 5), (64, 33)):
            for how in ('file', 'pipe', 'stdin', 'stdinpipe'):
                yield b(data=y4m(w, hh, n).hex(), how=how)
            yield b(fmt='pfm', data=pfm(w, hh, [r.rand(w * hh) for _ in range(max(n, 1))]).hex())
            if n:
                yield b(data=y4m(w, hh, n).hex()[:-2])
                yield b(data=(y4m(w, hh, n) + b'FRAM').hex())
            for k in range(1, n + 6):
                yield b(data=y4m(w, hh, n).hex(), failat=k)
    for n in range(0, 6):
        for lim in (56, 57, 111, 112, 113, 168, 169, 224, 225, 280):
            yield b(data=y4m(8, 7, n).hex(), limit=lim)
            yield b(data=y4m(7, 8, n).hex(), limit=lim, how='pipe')
    for t in ('ext', 'type', 'mime', 'wrong'):
        for f, d in (('y4m', y4m(5, 4, 2)), ('pgm', b'P5 5 4 255\n' + bytes(range(20))), ('pfm', pfm(5, 4, [r.rand(20), r.rand(20)]))):
            yield b(fmt=f, data=d.hex(), type=t)
            yield b(fmt=f, data=d[:-1].hex(), type=t)
    yield b(missing=True)
    for w, hh in ((0, 5), (2**40, 2**40), (2**31, 2), (2**62, 1), (2**31, 2**31)):
        yield b(data=(b'YUV4MPEG2 W%d H%d Cmono\n' % (w, hh)).hex())
        yield b(fmt='pgm', data=(b'P5 %d %d 255\n' % (w, hh)).hex())


def rnd(r):
    fmt = r.choice(['y4m', 'y4m', 'pfm', 'pfm', 'pgm'])
    d = GEN[fmt](r)
    if r.random() < .4:
        d = mutate(r, d, fmt)
    c = dict(fmt=fmt, data=d.hex(), how=r.choice(['file'] * 4 + ['pipe', 'stdin', 'stdinpipe']), type=r.choice(['ext', 'type', 'mime']))
    if r.random() < .3:
        c['failat'] = r.randrange(1, 12)
    if r.random() < .3:
        c['limit'] = r.choice((56, 112, 113, 225))
    return c


def run(h):
    for c in fixed():
        h.case(**c)
        one(h, c)
    while h.more():
        c = rnd(h.rnd)
        h.case(**c)
        one(h, c)
