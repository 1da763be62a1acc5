"""File scenarios: open, read and seek sequences on generated, truncated and damaged files, regular or piped, against reference decoders."""
import os
import threading
import numpy as np
import random
from hx import *
from files import *

FMT = {'C16': ['pgm'], 'C17': ['pfm'], 'C18': ['y4m']}
libc = C.CDLL(None)
libc.freopen.restype = C.c_void_p
libc.freopen.argtypes = [C.c_char_p, C.c_char_p, C.c_void_p]
libc.clearerr.argtypes = [C.c_void_p]
NAMES = dict(pgm=[b'PGM', b'pgm'], pfm=[b'PFM', b'Pfm'], y4m=[b'Y4M', b'y4m'])
OOB = 1 << 16


def hexed(b):
    return b.hex()


class Source:
    """the data as a regular file, a pipe, or standard input"""

    def __init__(self, h, how, data, ext):
        self.path = os.path.join(h.outdir, 'f-%s.%s' % (h.mod, ext))
        if os.path.lexists(self.path):
            os.remove(self.path)
        self.th = None
        self.name = self.path.encode()
        if how in ('pipe', 'stdinpipe'):
            os.mkfifo(self.path)

            def feed():
                try:
                    with open(self.path, 'wb', buffering=0) as f:
                        i = 0
                        while i < len(data):
                            i += f.write(data[i:i + 4096])
                except OSError:
                    pass
            self.th = threading.Thread(target=feed, daemon=True)
            self.th.start()
        else:
            with open(self.path, 'wb') as f:
                f.write(data)
        if how in ('stdin', 'stdinpipe'):
            sp = C.c_void_p.in_dll(libc, 'stdin')
            libc.freopen(self.path.encode(), b'rb', sp)
            self.name = b'-'

    def done(self):
        if self.th:
            # unblock a feeder nobody reads
            while self.th.is_alive():
                try:
                    fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
                    os.close(fd)
                except OSError:
                    pass
                self.th.join(0.001)
        os.remove(self.path)


def same_frame(got, exp):
    a, b = got.view(np.uint32), np.ascontiguousarray(exp, F32).reshape(-1).view(np.uint32)
    if a.size != b.size:
        return False
    n = np.isnan(got) & np.isnan(np.ascontiguousarray(exp, F32).reshape(-1))
    return bool(np.all((a == b) | n))


def one(h, c):
    try:
        scenario(h, c)
    except Skip:
        h.skipped += 1


def scenario(h, c):
    l = h.lib()
    fmt, data, how = c['fmt'], bytes.fromhex(c['data']), c['how']
    if how == 'pipe' and fmt == 'pgm' and c.get('bad'):
        how = 'file'
    P = {'pgm': 'C16', 'pfm': 'C17', 'y4m': 'C18'}[fmt]
    R = ref(fmt, data)
    src = Source(h, how, data, fmt if c['by'] != 'type' else 'bin')
    try:
        l.reset()
        l._max_alloc.value = 1 << 26
        w, hh, e, img = SZ(77), SZ(78), C.c_int(99), C.c_void_p(0xA5A5A5A5A0)
        fault = bool(c.get('failat') or c.get('seekfail'))
        if c.get('failat'):
            l._fail_at.value = c['failat']
        if c.get('seekfail'):
            l._seek_fail_at.value = c['seekfail']
        buf = C.addressof(img) if c.get('buf', True) else None
        a = (C.addressof(w), C.addressof(hh), buf, C.addressof(e))
        if c['by'] == 'reader':
            p = l.open_image_with_reader(src.name, NAMES[fmt][c.get('var', 0) & 1], *a)
        elif c['by'] == 'type' or src.name == b'-':
            p = l.open_image(src.name, [fmt.encode(), fmt.upper().encode(), {'pgm': b'image/x-portable-graymap', 'pfm': b'image/x-portable-floatmap', 'y4m': b'video/yuv4mpeg'}[fmt]][c.get('var', 0) % 3], *a)
        else:
            p = l.open_image(src.name, None, *a)
        failed_alloc = c.get('failat') and l.count >= c['failat']
        ins = 'C20 C22'
        if not p:
            h.check(e.value != 0, '%s: null with status 0' % fmt, ins)
            h.check(w.value == 0 and hh.value == 0, '%s: failed open leaves size %dx%d' % (fmt, w.value, hh.value), 'C20')
            h.check(not buf or not img.value, '%s: failed open leaves a buffer' % fmt, 'C20')
            h.check(l.live == 0 and l.bad_free == 0 and l.files == 0, '%s: failed open leaves %d allocations, %d streams, %d bad releases' % (fmt, l.live, l.files, l.bad_free), 'C22 C20')
            if R is None or fault:
                return
            if R['open'] == 'invalid':
                h.check(e.value == 3, '%s: a malformed file gives status %d' % (fmt, e.value), P)
                return
            W, H_ = R['open']
            big = W * H_ * 4 >= 1 << 64 or W == 0 or H_ == 0
            if big:
                h.check(e.value in ((5,) if fmt != 'y4m' or (W and H_) else (3,)), '%s: %dx%d gives status %d' % (fmt, W, H_, e.value), 'C03')
                return
            if W * H_ * 4 * 4 >= 1 << 64 and fmt == 'y4m':
                return
            if W * H_ * 16 > 1 << 26:
                h.check(e.value in (1, 5), '%s: %dx%d gives status %d' % (fmt, W, H_, e.value), P)
                return
            h.check(False, '%s: a well-formed %dx%d file gives status %d' % (fmt, W, H_, e.value), P)
            return
        h.check(e.value == 0, '%s: opened with status %d' % (fmt, e.value), 'C20')
        h.check(not failed_alloc, '%s: a failed allocation was ignored' % fmt, 'C22 C20')
        if R is not None:
            h.check(R['open'] != 'invalid', lambda: '%s: a malformed file is opened as %dx%d' % (fmt, w.value, hh.value), P)
            h.check((w.value, hh.value) == R['open'], lambda: '%s: size %dx%d, expected %s' % (fmt, w.value, hh.value, R['open']), P)
        n = w.value * hh.value
        h.check(0 < n and n * 4 < 1 << 64, '%s: %dx%d is accepted' % (fmt, w.value, hh.value), 'C03')
        if n > 1 << 24:
            l.close_image(p)
            if buf:
                l.free(img.value)
            h.check(l.live == 0 and l.bad_free == 0 and l.files == 0, '%s: closing leaves %d allocations' % (fmt, l.live), 'C22')
            return
        own = Buf(np.full(n, 7, F32))
        if buf:
            h.check(l.biggest >= n * 4, '%s: no buffer of %d pixels' % (fmt, n), 'C03 C20')
            # the whole buffer can be written
            C.memset(img.value, 0x5A, n * 4)
        pos = 0              # next frame of the reference
        state = 'ok'
        frames = R['frames'] if R is not None else None
        fr = lambda: frames[pos] if pos < len(frames) else None
        for op in c['ops']:
            sure = frames is not None and state == 'ok' and not fault
            e.value = 99
            if op[0] == 'read':
                target = img.value if buf and op[1] else own.p
                ret = l.read_image_frame(p, target, C.addressof(e))
                got = np.frombuffer(C.string_at(target, n * 4), F32).copy()
                h.check(ret == 0 or e.value == 0, '%s: a frame with status %d' % (fmt, e.value), P)
                if not sure:
                    if not ret:
                        state = 'failed'
                    continue
                last = pos + 1 >= len(frames)
                if pos >= len(frames):
                    if R['end'] == 'either':
                        state = 'unknown'
                        continue
                    h.check(not ret and e.value == 0, lambda: '%s: reading after the last of %d frames: %s, status %d' % (fmt, len(frames), bool(ret), e.value), P)
                elif frames[pos] is None:
                    h.check(not ret and (e.value == 3), lambda: '%s: reading frame %d, which is damaged: %s, status %d' % (fmt, pos, bool(ret), e.value), P)
                    state = 'failed'
                    if fmt == 'pgm':
                        pos, state = 1, 'ok'
                elif last and R.get('lax') and not ret:
                    state = 'failed'
                else:
                    h.check(ret, lambda: '%s: frame %d of %d is not read, status %d' % (fmt, pos, len(frames), e.value), P + ' C19')
                    ex = np.ascontiguousarray(frames[pos], F32)
                    h.check(same_frame(got, ex), lambda: '%s %dx%d: frame %d differs at %s: %s' % (fmt, w.value, hh.value, pos, np.flatnonzero(got.view(np.uint32) != ex.reshape(-1).view(np.uint32))[:5], got[:6]), P + (' C19' if any(x[0] == 'seek' for x in c['ops']) else ''))
                    pos += 1
            else:
                k, pr = op[1], op[2]
                seen, bad = [], []
                token = C.c_int(5)

                def prog(ctx, v):
                    seen.append(v)
                    if ctx != C.addressof(token):
                        bad.append(ctx)
                cb = PROG(prog)
                ret = l.seek_frame(p, k, C.cast(cb, C.c_void_p) if pr else None, C.addressof(token) if pr else None, C.addressof(e))
                h.check(not bad, '%s: progress gets another context' % fmt, 'C19')
                if k == 0:
                    h.check((ret and e.value == 0) or fault, '%s: seeking by 0 gives %s, status %d' % (fmt, bool(ret), e.value), 'C19')
                    h.check(not seen, '%s: progress called when seeking by 0' % fmt, 'C19')
                    if not ret:
                        state = 'failed'
                    continue
                h.check(seen == list(range(1, len(seen) + 1)), lambda: '%s: progress called with %s' % (fmt, seen[:9]), 'C19')
                h.check(not ret or not pr or len(seen) == k, lambda: '%s: seeking by %d succeeded, progress called with %s' % (fmt, k, seen[:9]), 'C19')
                if not sure or any(x is None for x in frames[pos:pos + k]) or R['end'] == 'either':
                    if not ret:
                        state = 'failed'
                    elif sure:
                        state = 'unknown'
                    continue
                left = len(frames) - pos
                if k <= left:
                    h.check(ret and e.value == 0, lambda: '%s: seeking by %d with %d frames left gives %s, status %d' % (fmt, k, left, bool(ret), e.value), 'C19')
                    pos += k
                else:
                    h.check(not ret and e.value == 0, lambda: '%s: seeking by %d with %d frames left gives %s, status %d' % (fmt, k, left, bool(ret), e.value), 'C19')
                    h.check(not pr or len(seen) == left, lambda: '%s: %d frames were left, progress called with %s' % (fmt, left, seen[:9]), 'C19')
                    pos = len(frames)
                    if fmt != 'pgm':
                        state = 'end'
        l.close_image(p)
        if buf:
            l.free(img.value)
        h.check(l.live == 0 and l.bad_free == 0 and l.files == 0, '%s: closing leaves %d allocations, %d streams, %d bad releases' % (fmt, l.live, l.files, l.bad_free), 'C22')
    finally:
        src.done()


def rops(r, seeks):
    ops = []
    for _ in range(r.randint(1, 7)):
        if seeks and r.random() < .4:
            ops.append(['seek', r.choice([0, 1, 1, 1, 2, 2, 3, 5, 2**40]), r.random() < .7])
        else:
            ops.append(['read', r.random() < .5])
    return ops


def rnd(h, fmts, p):
    r = h.rnd
    fmt = r.choice(fmts)
    b = GEN[fmt](r)
    c = dict(fmt=fmt, how=r.choice(['file'] * 5 + ['pipe', 'stdin', 'stdinpipe']), by=r.choice(['ext', 'type', 'reader']), var=r.randrange(6), buf=r.random() < .7)
    if r.random() < .45 or p == 'C22' and r.random() < .6:
        b = mutate(r, b, fmt)
    if r.random() < (.4 if p == 'C22' else .08):
        c['failat'] = r.randrange(1, 7)
    if r.random() < (.2 if p in ('C22', 'C19', 'C18', 'C17') else .03):
        c['seekfail'] = r.randrange(1, 5)
    c['data'] = b.hex()
    c['ops'] = rops(r, p in ('C19', 'C22') or r.random() < .2)
    return c


def fixed(p, fmts):
    R = random.Random(7)
    rd = [['read', True], ['read', False], ['read', True], ['read', False], ['read', True]]

    def mk(fmt, b, ops=rd, **k):
        return dict(dict(fmt=fmt, data=b.hex(), how='file', by='ext', ops=ops, buf=True), **k)
    if 'pgm' in fmts:
        base = b'P5\n3 2\n255\n' + bytes([0, 1, 127, 128, 254, 255])
        for d in range(0, 260):
            yield mk('pgm', b'P5 2 1 %d\n' % d + bytes([255, d % 256]))
        for i in range(len(base) + 1):
            yield mk('pgm', base[:i])
        for i in range(11):
            for v in (0, 9, 10, 32, 35, 45, 48, 80, 90, 255):
                yield mk('pgm', base[:i] + bytes([v]) + base[i + 1:])
        for x in (b'P5\n#c\n3 2\n255\n', b'P5#c\n3 2\n255\n', b'P5\n#\n#\n3 2 255 ', b'P5 3 2 255x', b'P5 3 2 #\n255\n', b'P6 3 2 255\n', b'P2 3 2 255\n', b'P53 2 255\n', b'P5\n  #c\n   3 2 255\t', b'P5\n#c\n#d\n\n3 2 255\r', b'P5\n#' + b'\n3 2 255\n', b'P5\n#c\n #d\n3 2 255\n'):
            yield mk('pgm', x + bytes(range(250, 256)))
        yield mk('pgm', b'P5 16 16 255\n' + bytes(range(256)))
        for w, hh in ((0, 1), (1, 0), (2**32, 2**32), (2**62, 1), (2**63, 2), (2**31, 2**31), (2**64 - 1, 1), (65536, 65536), (2**33, 2**29), (2**34, 2**30), (2**61, 2), (2**62 + 1, 4)):
            yield mk('pgm', b'P5 %d %d 255\n' % (w, hh) + bytes(99))
            yield mk('pgm', b'P5 %d %d 255\n' % (w, hh) + bytes(99), buf=False)
    if 'pfm' in fmts:
        for f in (b'f', b'F'):
            for s in (b'-1.0', b'1.0', b'0', b'-0.0', b'-1e-30', b'3'):
                for w, hh in ((1, 1), (3, 2), (1, 4), (4, 1), (5, 5)):
                    n = w * hh * (3 if f == b'F' else 1)
                    fr = b'P' + f + b'\n%d %d\n%s\n' % (w, hh, s) + struct.pack('<%df' % n, *[i + .25 for i in range(n)])
                    yield mk('pfm', fr)
                    yield mk('pfm', fr * 3)
                    g = b'Pf' if f == b'F' else b'PF'
                    n2 = w * hh * (1 if f == b'F' else 3)
                    fr2 = g + b'\n#x\n%d %d\n-1\n' % (w, hh) + struct.pack('<%df' % n2, *[i + .5 for i in range(n2)])
                    yield mk('pfm', fr + fr2 + fr)
                    yield mk('pfm', fr2 + fr + fr2, how='pipe')
                    yield mk('pfm', fr + fr2[:-1])
                    for bad in (b'Pf\n%d %d\n-1\n' % (w + 1, hh), b'Pf\n%d %d\n-1\n' % (w, hh + 1), b'Pg\n%d %d\n-1\n' % (w, hh), b'P', b'Pf', b'Pf\n', b'Pf\n%d' % w, b'Pf\n%d %d' % (w, hh), b'Pf\n%d %d\n-1' % (w, hh), b'Pf\n%d %d\n-1x' % (w, hh), b'x', b'\n', b'Pf\n%d %d\n-1\n' % (hh, w)):
                        yield mk('pfm', fr + bad + b'\0' * 400)
                        yield mk('pfm', fr + bad)
        base = b'Pf\n2 2\n-1.0\n' + struct.pack('<4f', 1, 2, 3, 4)
        for i in range(len(base) + 1):
            yield mk('pfm', base[:i])
            yield mk('pfm', base + base[:i])
            yield mk('pfm', base + base[:i], how='pipe')
    if 'y4m' in fmts:
        for cs in CSP + [b'mono7', b'mono17', b'420p7', b'420p17', b'420p0', b'410', b'foo', b'43', b'4', b'44', b'444p', b'mon']:
            for w, hh in ((1, 1), (2, 2), (3, 3), (5, 3), (4, 5), (7, 2), (3, 4)):
                try:
                    k, d = y4m_csp(cs)
                except (Invalid, Unknown):
                    k, d = 'mono', 8
                bw = 2 if d > 8 else 1
                fr = b'FRAME\n' + b''.join(struct.pack('<H', (i * 257 + 13) % (1 << d)) if bw == 2 else bytes([(i * 37 + 5) % 256]) for i in range(w * hh)) + (b'FRAME\n' * 999)[:chroma(k, w, hh) * bw]
                b = b'YUV4MPEG2 W%d H%d F25:1 Ip A1:1 C%s XFOO\n' % (w, hh, cs) + fr * 3
                for how in ('file', 'pipe'):
                    yield mk('y4m', b, how=how)
                    yield mk('y4m', b, how=how, seekfail=1)
        b = b'YUV4MPEG2 W3 H2 C420jpeg\n' + (b'FRAME Ip\n' + bytes(range(6)) + bytes(4)) * 2
        for i in range(len(b) + 1):
            for how in ('file', 'pipe'):
                yield mk('y4m', b[:i], how=how)
        for i in range(len(b)):
            yield mk('y4m', b[:i] + b'\n' + b[i + 1:])
            yield mk('y4m', b[:i] + b'x' + b[i + 1:])
        for w, hh in ((0, 1), (1, 0), (2**32, 2**32), (2**62, 1), (2**63, 2), (2**31, 2**31), (2**64 - 1, 1), (65536, 65536), (2**60, 4), (2**61, 2)):
            for cs in (b'mono', b'444alpha', b'444p16', b'420', b'mono16'):
                yield mk('y4m', b'YUV4MPEG2 W%d H%d C%s\nFRAME\n' % (w, hh, cs) + bytes(99))
        for hd in (b'W3 ', b'H3 ', b'', b'W3 H3 C', b'Wx H3', b'W3 Hx'):
            yield mk('y4m', b'YUV4MPEG2 ' + hd + b'\nFRAME\n' + bytes(99))
    # seeks
    for fmt in fmts:
        for n in range(20):
            b = GEN[fmt](R)
            for ops in ([['seek', 1, True], ['read', True], ['read', True]], [['seek', 0, True], ['read', True], ['seek', 1, True], ['read', True]], [['read', True], ['seek', 2, True], ['read', True]], [['seek', 2, False], ['read', False]],
                        [['seek', 9, True]], [['read', True], ['seek', 1, True], ['seek', 1, True], ['read', True]], [['seek', 2**63, True]]):
                yield mk(fmt, b, ops, how=('file', 'pipe')[n & 1])
                if n < 6:
                    yield mk(fmt, b, ops, seekfail=1 + n % 3)
        for n in range(8):
            for k in range(1, 7):
                yield mk(fmt, GEN[fmt](R), [['read', True], ['seek', 1, True], ['read', True]], how=('file', 'pipe', 'stdin', 'stdinpipe')[n & 3], failat=k, by=('ext', 'type', 'reader')[n % 3])


def go(h):
    p = h.prop
    fmts = FMT.get(p, ['pgm', 'pfm', 'y4m'])
    for c in fixed(p, fmts):
        h.case(**c)
        one(h, c)
    while h.more():
        c = rnd(h, fmts, p)
        h.case(**c)
        one(h, c)
