"""Which reader is chosen: types, MIME types, extensions and reader names in all cases, contents of every format, missing arguments, failing allocations."""
import itertools
import zlib
from h_files import *
from h_files import Source
from h_c14 import y4m, pfm

MIME = {b'image/jpeg': b'jpg', b'image/png': b'png', b'video/yuv4mpeg': b'y4m', b'image/x-portable-graymap': b'pgm', b'image/x-portable-floatmap': b'pfm'}
EXT = {b'pgm': 'pgm', b'pfm': 'pfm', b'y4m': 'y4m', b'jpg': 'jpeg', b'jpeg': 'jpeg', b'png': 'png'}
READER = {b'pgm': 'pgm', b'pfm': 'pfm', b'y4m': 'y4m', b'libjpeg': 'jpeg', b'libpng': 'png'}
R = np.random.RandomState(5)


def chunk(t, d):
    return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))


PNG = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', 1, 1, 8, 0, 0, 0, 0)) + chunk(b'IDAT', zlib.compress(b'\0\x55')) + chunk(b'IEND', b'')
DATA = dict(pgm=b'P5 5 4 255\n' + bytes(range(20)), pfm=pfm(3, 2, [R.rand(6)]), y4m=y4m(4, 7, 1), png=PNG, jpeg=b'\xff\xd8\xff\xd9')
SIZE = dict(pgm=(5, 4), pfm=(3, 2), y4m=(4, 7), png=(1, 1))


def kind(c):
    """the format of the reader that must be chosen, or None"""
    if c['by'] == 'reader':
        return READER.get(c['second'].encode('latin1').lower())
    if c['second'] is not None:
        t = c['second'].encode('latin1')
        return EXT.get(MIME.get(t, b'')) if b'/' in t else EXT.get(t.lower())
    n = c['name'].encode('latin1')
    return EXT.get(n.rsplit(b'.', 1)[1].lower()) if b'.' in n else None


def one(h, c):
    l = h.lib()
    l.reset()
    l._max_alloc.value = 1 << 26
    d = os.path.join(h.outdir, 'dir.pgm', 'd.y4m')
    os.makedirs(d, exist_ok=True)
    cwd = os.getcwd()
    os.chdir(d)
    path = c['name'].encode('latin1')
    try:
        os.makedirs(os.path.dirname(path) or b'.', exist_ok=True)
        with open(path, 'wb') as f:
            f.write(DATA[c['data']])
        for k in c.get('null', [[]]):
            w, hh, img, e = SZ(51), SZ(52), C.c_void_p(53), C.c_int(54)
            a = dict(filename=path, width=C.addressof(w), height=C.addressof(hh), imagebuf=C.addressof(img), error=C.addressof(e))
            for x in k:
                a[x] = None
            second = None if c['second'] is None or 'second' in k else c['second'].encode('latin1')
            f = l.open_image_with_reader if c['by'] == 'reader' else l.open_image
            live0, cnt0 = l.live, l.count
            if c.get('failat'):
                l._fail_at.value = cnt0 + c['failat']
            p = f(a['filename'], second, a['width'], a['height'], a['imagebuf'], a['error'])
            nomem = bool(c.get('failat')) and l.count >= cnt0 + c['failat']
            l._fail_at.value = -1
            want = kind(c) if not (c['by'] != 'reader' and 'second' in k) else kind(dict(c, second=None))
            what = '%s(%r, %r) without %s on a %s' % ('resdet_open_image_with_reader' if c['by'] == 'reader' else 'resdet_open_image', path, second, k, c['data'])
            param = 'filename' in k or 'width' in k or 'height' in k or c['by'] == 'reader' and second is None
            ev = e.value if a['error'] else None
            if param:
                h.check(not p and ev in (None, 6), lambda: '%s: status %s, image %s; a required argument is missing' % (what, ev, p))
            elif nomem:
                h.check(not p and ev != 0, lambda: '%s: a failed allocation was ignored' % what)
            elif want is None:
                h.check(not p and ev in (None, 4), lambda: '%s: status %s, image %s; no reader matches' % (what, ev, p))
            elif want == c['data'] and want in SIZE:
                h.check(p and ev in (None, 0), lambda: '%s: status %s' % (what, ev))
                h.check((w.value, hh.value) == SIZE[want], lambda: '%s: size %dx%d' % (what, w.value, hh.value))
                if a['imagebuf']:
                    h.check(img.value and l.biggest >= 4 * w.value * hh.value, what + ': no buffer')
            else:
                h.check(not p and ev not in (0, 4, 6), lambda: '%s: status %s, the %s reader must refuse it' % (what, ev, want))
            if not p:
                h.check(all(not x.value for x, n in ((w, 'width'), (hh, 'height'), (img, 'imagebuf')) if a[n]), lambda: '%s: outputs %s on failure' % (what, (w.value, hh.value, img.value)))
            else:
                if a['imagebuf']:
                    e2 = C.c_int(9)
                    r = l.read_image_frame(p, img.value, C.addressof(e2))
                    h.check(r and not e2.value, lambda: '%s: reading the frame gives %s, %d' % (what, r, e2.value))
                    l.free(img.value)
                l.close_image(p)
            h.check(l.live == live0 and l.files == 0 and l.bad_free == 0, lambda: '%s: %d allocations, %d streams left, %d bad releases' % (what, l.live - live0, l.files, l.bad_free))
    finally:
        os.chdir(cwd)


def cases(t):
    yield t
    yield t.upper()
    yield t.title()
    yield t[:-1] + t[-1:].upper()


NULLS = [list(x) for n in range(6) for x in itertools.combinations(('filename', 'width', 'height', 'imagebuf', 'error', 'second'), n)]


def fixed():
    kinds = list(DATA)
    for d in kinds:
        for t in list(EXT) + [b'PG', b'pgmm', b'p', b'', b'xpgm', b'pg\xed', b'tif', b'gif', b'jpe', b'PFM ', b'ppm']:
            for s in cases(t):
                s = s.decode('latin1')
                yield dict(by='type', name='x.bin', second=s, data=d)
                for n in ('a.' + s, 'a', 'b.pgm.' + s, '.' + s, s, s + '.', 'c.' + s + '.bak', 'e.d/f' + s):
                    if n not in ('', '.', '..') and '/' not in s:
                        yield dict(by='ext', name=n, second=None, data=d)
                yield dict(by='type', name='x.pgm', second=s, data=d)
                yield dict(by='type', name='x.pgm', second='image/' + s, data=d)
                yield dict(by='type', name='x.png', second='/' + s, data=d)
                yield dict(by='type', name='x.png', second=s + '/', data=d)
        for t in MIME:
            for s in cases(t):
                s = s.decode('latin1')
                for x in (s, s + 'x', s[:-1], s.split('/')[1], s + '/'):
                    yield dict(by='type', name='x.pgm', second=x, data=d)
                    yield dict(by='type', name='x', second=x, data=d)
        for t in list(READER) + [b'PGM ', b'pg', b'', b'libjpe', b'libpngg', b'MagickWand', b'FFmpeg', b'jpg', b'png', b'\xf0gm']:
            for s in cases(t):
                yield dict(by='reader', name='x.pgm', second=s.decode('latin1'), data=d)
    for d in ('pgm', 'pfm', 'y4m', 'png'):
        yield dict(by='type', name='x.' + d, second=d, data=d, null=NULLS)
        yield dict(by='type', name='x.' + d, second=None, data=d, null=NULLS)
        yield dict(by='type', name='x.' + d, second='nope', data=d, null=NULLS)
        yield dict(by='reader', name='x.' + d, second={'png': 'libpng'}.get(d, d), data=d, null=NULLS)
        yield dict(by='reader', name='x.' + d, second='nope', data=d, null=NULLS)
        for k in range(1, 9):
            yield dict(by='type', name='x.' + d, second=None, data=d, failat=k)
            yield dict(by='reader', name='x.' + d, second={'png': 'libpng'}.get(d, d), data=d, failat=k)


def rnd(r):
    def word():
        t = r.choice(list(EXT) + list(MIME) + list(READER) + [b'', b'x'])
        t = bytes(ch ^ 32 if r.random() < .3 and chr(ch).isalpha() else ch for ch in t)
        if r.random() < .3:
            i = r.randrange(len(t) + 1)
            t = t[:i] + r.choice([b'', b'.', b'x', b'/', b'\xc4', b'@', b'[', b'p']) + t[i + r.randrange(2):]
        return t.decode('latin1')
    n = '.'.join(word().replace('/', '_') for _ in range(r.randrange(1, 4))) or 'x'
    if n in ('.', '..'):
        n = 'y'
    by = r.choice(['type', 'ext', 'reader'])
    return dict(by=by, name=n[:80], second=None if by == 'ext' else word(), data=r.choice(list(DATA)))


def run(h):
    for c in fixed():
        h.case(**c)
        one(h, c)
    while h.more():
        c = rnd(h.rnd)
        h.case(**c)
        one(h, c)
