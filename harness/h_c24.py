"""PNG and JPEG files of every color type, depth, transparency and interlacing, whole, truncated and damaged, failing allocations, repeated reads and seeks."""
import itertools
import zlib
from h_files import *
from h_files import Source

ADAM = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
DEPTHS = {0: (1, 2, 4, 8, 16), 2: (8, 16), 3: (1, 2, 4, 8), 4: (8, 16), 6: (8, 16)}
SAMPLES = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}
EXTRA = ('jpegtool.c',)


def chunk(t, d):
    return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))


def pack(px, depth):
    """bytes of one row of samples"""
    if depth == 16:
        return b''.join(struct.pack('>H', int(v)) for v in px)
    if depth == 8:
        return bytes(int(v) for v in px)
    out, k = bytearray((len(px) * depth + 7) // 8), 0
    for v in px:
        out[k // 8] |= int(v) << (8 - depth - k % 8)
        k += depth
    return bytes(out)


def png(c):
    """(file, expected samples: array h x w x channels of bytes)"""
    w, h, color, depth = c['w'], c['h'], c['color'], c['depth']
    r = np.random.RandomState(c['seed'])
    px = r.randint(0, 1 << depth, (h, w, SAMPLES[color]))
    b = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, color, 0, 0, c['inter']))
    if color == 3:
        pal = r.randint(0, 256, (1 << depth, 3))
        b += chunk(b'PLTE', bytes(int(x) for x in pal.reshape(-1)))
    if c['trns']:
        b += chunk(b'tRNS', {0: struct.pack('>H', int(px[0, 0, 0])), 2: struct.pack('>HHH', *(int(x) for x in (list(px[0, 0]) * 3)[:3])), 3: bytes([0, 128])}.get(color, b''))
    rows = b''
    for x0, y0, dx, dy in ADAM if c['inter'] else [(0, 0, 1, 1)]:
        if x0 < w:
            for y in range(y0, h, dy):
                rows += b'\0' + pack(px[y, x0::dx].reshape(-1), depth)
    z = zlib.compress(rows)
    k = c.get('idat') or len(z)
    for i in range(0, len(z), k):
        b += chunk(b'IDAT', z[i:i + k])
    b += chunk(b'IEND', b'')
    if color == 3:
        e = pal[px[:, :, 0]]
    else:
        e = px[:, :, :3] if color in (2, 6) else px[:, :, :1]
        e = e >> 8 if depth == 16 else e * (255 // ((1 << depth) - 1))
    return b, e


def jpeg(h, c):
    l = h.lib(extra=EXTRA)
    r = np.random.RandomState(c['seed'])
    y, x = np.mgrid[0:c['h'], 0:c['w']]
    px = np.clip(np.stack([(x * (k + 3) * 5 + y * (7 - k) * 3) % 256 for k in range(c['ch'])], -1) + r.randint(-9, 10, (c['h'], c['w'], c['ch'])), 0, 255).astype(np.uint8)
    out = C.create_string_buffer(1 << 20)
    f = l.l.hx_jpeg_encode
    f.restype = C.c_ulong
    n = f(C.c_char_p(px.tobytes()), c['w'], c['h'], c['ch'], c['quality'], c['flags'], out, C.c_ulong(1 << 20))
    if not n:
        raise Skip('no JPEG')
    d = out.raw[:n]
    g = C.create_string_buffer(c['w'] * c['h'])
    if not l.l.hx_jpeg_decode(C.c_char_p(d), C.c_ulong(n), g, c['w'], c['h']):
        raise Skip('no JPEG')
    return d, np.frombuffer(g.raw, np.uint8).reshape(c['h'], c['w'], 1)


def one(h, c):
    l = h.lib(extra=EXTRA)
    l.reset()
    l._max_alloc.value = 1 << 28
    data, px = png(c) if c['fmt'] == 'png' else jpeg(h, c)
    exp = (px.astype(np.float64) / 255).mean(axis=2).reshape(-1)
    whole = True
    if c.get('cut') is not None:
        data = data[:c['cut'] % len(data)]
        whole = False
    for p, v in c.get('flip', ()):
        data = bytearray(data)
        data[p % len(data)] ^= v
        data = bytes(data)
        whole = False
    src = Source(h, c.get('source', 'file'), data, c['fmt'])
    what = '%s %dx%d %s' % (c['fmt'], c['w'], c['h'], {k: v for k, v in c.items() if k not in ('fmt', 'w', 'h')})
    try:
        live0, cnt0 = l.live, l.count
        if c.get('failat'):
            l._fail_at.value = cnt0 + c['failat']
        w, hh, img, e = SZ(51), SZ(52), C.c_void_p(53), C.c_int(54)
        p = l.open_image(src.name, c['fmt'].encode(), C.byref(w), C.byref(hh), C.byref(img), C.byref(e))
        failed = bool(c.get('failat')) and l.count >= cnt0 + c['failat']
        if not p:
            h.check(failed and e.value == 1 or not failed and not whole and e.value in (3, 5), lambda: '%s: opening gives status %d' % (what, e.value))
            h.check(l.live == live0 and l.files == 0, lambda: what + ': the failed open leaks %d blocks, %d files' % (l.live - live0, l.files))
        else:
            h.check(not failed and e.value == 0, lambda: '%s: opened with status %d' % (what, e.value))
            if whole:
                h.check((w.value, hh.value) == (c['w'], c['h']), lambda: '%s: size %dx%d' % (what, w.value, hh.value))
            ops(h, l, c, what, p, img, w.value * hh.value, whole, exp, cnt0)
            l.close_image(p)
            l.free(img.value)
            h.check(l.live == live0 and l.files == 0, lambda: what + ': %d blocks, %d files are not released' % (l.live - live0, l.files))
        h.check(l.bad_free == 0, what + ': released twice')
    finally:
        l._fail_at.value = -1
        src.done()


def ops(h, l, c, what, p, img, n, whole, exp, cnt0):
    spent = False
    for k, o in enumerate(c['ops']):
        e = C.c_int(77)
        w2 = '%s, operation %d' % (what, k)
        if o[0] == 'r':
            f0 = l.count
            C.memset(img.value, 0xee, 4 * n)
            r = l.read_image_frame(p, img, C.byref(e))
            failed = bool(c.get('failat')) and f0 < cnt0 + c['failat'] <= l.count
            if spent:
                h.check(not r and e.value == 0, lambda: '%s: read after the frame gives %s with status %d' % (w2, r, e.value))
            elif failed:
                h.check(not r and e.value == 1, lambda: '%s: a failed allocation gives %s with status %d' % (w2, r, e.value))
            elif whole:
                h.check(r and e.value == 0, lambda: '%s: read gives %s with status %d' % (w2, r, e.value))
                a = np.frombuffer(C.string_at(img.value, 4 * n), np.float32)
                bad = ~(np.abs(a - exp) <= 1e-6 + (c.get('depth') == 16) / 255)
                h.check(not bad.any(), lambda: '%s: pixel %d is %r, expected %r' % (w2, bad.argmax(), a[bad.argmax()], exp[bad.argmax()]))
            else:
                h.check(r and e.value == 0 or not r and e.value == 3, lambda: '%s: read of a damaged file gives %s with status %d' % (w2, r, e.value))
                h.check(not (r and c['fmt'] == 'png' and c.get('cut') is not None), w2 + ': a truncated PNG is read')
            spent = True
        else:
            m = int(o[1:])
            calls = []
            cb = PROG(lambda x, i: calls.append((x, i)))
            r = l.seek_frame(p, m, C.cast(cb, C.c_void_p) if o[0] == 's' else None, 4711, C.byref(e))
            ok = m == 0 or m == 1 and not spent
            h.check(bool(r) == ok and e.value == 0, lambda: '%s: seek by %d gives %s with status %d' % (w2, m, r, e.value), ('C19', 'C24'))
            if o[0] == 's':
                h.check(calls == ([(4711, 1)] if m and not spent else []), lambda: '%s: callback calls %s' % (w2, calls), ('C19',))
            spent = spent or m > 0


OPS = (['r', 'r', 's0', 's1', 'r'], ['r', 'r'], ['s1', 'r', 's1'], ['s0', 'r', 's2'], ['q0', 'q2', 'r'], ['s7', 'r'], ['q1', 'r', 'r'], [])


def cases(h):
    k = 0
    for (color, ds), size in itertools.product(DEPTHS.items(), ((5, 3), (1, 1), (9, 17), (8, 8), (33, 2))):
        for depth in ds:
            for trns in (0, 1) if color in (0, 2, 3) else (0,):
                for inter in (0, 1):
                    yield dict(fmt='png', w=size[0], h=size[1], color=color, depth=depth, trns=trns, inter=inter, seed=k, ops=OPS[k % 2] if k % 5 else OPS[k // 5 % len(OPS)])
                    k += 1
    for w, hh in ((1, 1), (7, 5), (16, 16), (17, 33), (64, 3)):
        for ch in (1, 3):
            for fl in range(8):
                yield dict(fmt='jpeg', w=w, h=hh, ch=ch, quality=(80, 30, 100)[k % 3], flags=fl, seed=k, ops=OPS[k % len(OPS)])
                k += 1
    small = [dict(fmt='png', w=9, h=7, color=2, depth=8, trns=0, inter=i, seed=3, idat=20) for i in (0, 1)] + [dict(fmt='png', w=4, h=3, color=3, depth=2, trns=1, inter=0, seed=3), dict(fmt='jpeg', w=17, h=18, ch=3, quality=60, flags=0, seed=1)]
    for s in small:
        for f in range(1, 9):
            yield dict(s, failat=f, ops=['r', 'r'])
        for o in OPS:
            for source in ('file', 'stdin', 'pipe'):
                yield dict(s, ops=o, source=source)
        for cut in list(range(0, 60)) + list(range(60, 400, 7)) + [-k for k in range(1, 40)]:
            yield dict(s, cut=cut, ops=['r', 'r', 's1'])
    r = h.rnd
    while True:
        s = dict(r.choice(small))
        s['flip'] = [(r.randrange(1200), 1 << r.randrange(8)) for _ in range(r.choice([1, 1, 2, 5]))]
        s['ops'] = r.choice(OPS)
        yield s


def run(h):
    n = 0
    for c in cases(h):
        if not h.more():
            return
        h.case(**c)
        try:
            one(h, c)
        except Skip:
            h.skipped += 1
        n += 1
