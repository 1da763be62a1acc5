"""resdetect_file against open, create, read and analyse every frame, results."""
from h_ana import *
from h_files import Source, GEN, mutate
import h_files
import files

MIME = {'pgm': b'image/x-portable-graymap', 'pfm': b'image/x-portable-floatmap', 'y4m': b'video/yuv4mpeg'}


def one(h, c):
    l = h.lib()
    data, fmt, mask = bytes.fromhex(c['data']), c['fmt'], c['mask']
    pp = None
    l.reset()
    l._max_alloc.value = 1 << 26
    pp = mkparams(l, c['params'])
    live0 = l.live
    use = c['method']
    bad = bool((mask & 1 and not mask & 2) or (mask & 4 and not mask & 8))

    def meth():
        cm = Custom(h, NAMES[c['name']], c['mth'], c['seed'], c.get('fail', ()), c.get('palette'))
        return cm, (cm.p if use == 'custom' else None if use == 'default' else l.get_method(use.encode()))
    ftype = {'ext': None, 'type': fmt.encode(), 'mime': MIME[fmt], 'wrong': b'nope'}[c['type']]

    def src():
        s = Source(h, c['how'], data, fmt if c['type'] != 'type' else 'bin')
        if c.get('missing'):
            s.name += b'x.' + fmt.encode()
        return s
    if c['how'] in ('stdin', 'stdinpipe') and ftype is None:
        ftype = fmt.encode()
    # the sequence
    cm1, mp = meth()
    o = Out(mask)
    lists, stage, nread = None, 'none', 0
    s = src()
    try:
        if bad:
            exp = 6
        else:
            w, hh, e, img = SZ(), SZ(), C.c_int(), C.c_void_p()
            p = l.open_image(s.name, ftype, C.addressof(w), C.addressof(hh), C.addressof(img), C.addressof(e))
            exp, stage = e.value, 'open'
            if p:
                a = l.create_analysis(mp, w.value, hh.value, pp, C.addressof(e))
                exp, stage = e.value, 'create'
                if a:
                    while True:
                        r = l.read_image_frame(p, img.value, C.addressof(e))
                        exp, stage = e.value, 'read %d' % nread
                        if not r:
                            break
                        nread += 1
                        exp = l.analyze_image(a, img.value)
                        stage = 'analyse %d' % nread
                        if exp:
                            break
                    if not exp:
                        exp, stage = l.analysis_results(a, *o.args()), 'results'
                        if not exp:
                            cnts = [o.v[1].value if mask & 2 else 0, o.v[3].value if mask & 8 else 0]
                            lists = o.lists(l)
                    l.destroy_analysis(a)
                l.free(img.value)
                l.close_image(p)
    finally:
        s.done()
    h.check(l.live == live0 and l.files == 0, 'the sequence leaks')
    cm2, mp = meth()
    o2 = Out(mask)
    cnt0 = l.count
    s = src()
    try:
        if c.get('failat'):
            l._fail_at.value = cnt0 + c['failat']
        if c.get('seekfail'):
            l._seek_fail_at.value = l.seeks + c['seekfail']
        r = l.resdetect_file(s.name, ftype, *(o2.args() + [mp, pp]))
        nomem = bool(c.get('failat')) and l.count >= cnt0 + c['failat']
        l._fail_at.value = l._seek_fail_at.value = -1
    finally:
        s.done()
    what = 'resdetect_file (%s, %s), outputs %s' % (fmt, c['how'], bin(mask))
    h.check(o2.untouched(), what + ': an argument that was not given was written')
    seekf = bool(c.get('seekfail'))
    if not nomem and not seekf:
        h.check(r == exp, lambda: '%s: status %d, the sequence ends in "%s" with %d after %d frames' % (what, r, stage, exp, nread))
    elif nomem:
        h.check(r != 0, lambda: '%s: a failed allocation was ignored' % what)
    if r:
        h.check(o2.zero(), lambda: '%s: status %d but outputs are %s' % (what, r, [hex(x.value) for x in o2.v]))
    else:
        got = [o2.v[1].value if mask & 2 else 0, o2.v[3].value if mask & 8 else 0]
        gl = o2.lists(l)
        if not seekf:
            h.check(got == cnts and gl == lists, lambda: '%s: results %s, the sequence gives %s' % (what, gl, lists))
    h.check(l.live == live0 and l.plans == 0 and l.files == 0 and l.bad_free == 0, lambda: '%s: status %d leaves %d allocations, %d streams, %d bad releases' % (what, r, l.live - live0, l.files, l.bad_free))
    if use == 'custom' and not nomem and not seekf:
        def view(cm):
            return [(x['length'], x['n'], x['stride'], x['dist'], x['range'], x['bounds'], x['before'].tobytes(), x['f'].tobytes(), x['code']) for x in cm.calls]
        h.check(view(cm1) == view(cm2), lambda: '%s: the method is called %d times, in sequence %d times, or with other data' % (what, len(cm2.calls), len(cm1.calls)))
    if pp:
        l.free(pp)


def y4m(w, h, frames):
    return b'YUV4MPEG2 W%d H%d Cmono\n' % (w, h) + b''.join(b'FRAME\n' + bytes((i * 31 + k * 7 + i * i * (k + 3)) % 256 for i in range(w * h)) for k in range(frames))


def pfm(w, h, vals):
    return b''.join(b'Pf\n%d %d\n-1\n' % (w, h) + np.array(v, '<f4').tobytes() for v in vals)


def fixed():
    base = dict(fmt='y4m', data=y4m(8, 7, 3).hex(), how='file', type='ext', mask=15, params=dict(range=1, th=0.0, cf=0), name=0, mth=.5, seed=1, method='custom', palette=[0.0, .25, .5, .75, 1.0], fail=[])

    def b(**k):
        d = dict(base)
        d.update(k)
        return d
    for m in range(16):
        for n in (0, 1, 3):
            yield b(mask=m, data=y4m(8, 7, n).hex())
        yield b(mask=m, missing=True)
        yield b(mask=m, data=y4m(8, 7, 3)[:-1].hex())
        yield b(mask=m, data=(y4m(8, 7, 3)[:-1] + b'FRAM').hex())
    for n in range(0, 4):
        d = y4m(8, 7, n)
        for x in (b'F', b'FRAME', b'FRAME\n', b'FRAME\n' + bytes(55), b'XXXXX\n' + bytes(56)):
            for how in ('file', 'pipe', 'stdin', 'stdinpipe'):
                yield b(data=(d + x).hex(), how=how)
    r = np.random.RandomState(3)
    for n in (1, 2, 3):
        for k in range(n):
            for v in (np.nan, np.inf):
                f = [r.rand(56) for _ in range(n)]
                f[k][17 * k] = v
                yield b(fmt='pfm', data=pfm(8, 7, f).hex())
        for k in range(2 * n):
            yield b(data=y4m(8, 7, n).hex(), fail=[0] * k + [3])
    for k in range(1, 20):
        yield b(failat=k)
        yield b(failat=k, params=None, data=y4m(30, 28, 2).hex(), how='pipe')
        yield b(failat=k, fmt='pgm', data=(b'P5 9 9 255\n' + bytes(81)).hex())
    for k in range(1, 6):
        yield b(seekfail=k, data=(b'YUV4MPEG2 W3 H3 C420\n' + (b'FRAME\n' + bytes(17)) * 3).hex())
    for t in ('ext', 'type', 'mime', 'wrong'):
        for f, d in (('y4m', y4m(5, 4, 2)), ('pgm', b'P5 5 4 255\n' + bytes(range(20))), ('pfm', pfm(5, 4, [r.rand(20), r.rand(20)]))):
            yield b(fmt=f, data=d.hex(), type=t)
            yield b(fmt=f, data=d[:-1].hex(), type=t)
    for w, hh in ((0, 5), (2**40, 2**40), (2**31, 2), (70000, 70000)):
        yield b(data=(b'YUV4MPEG2 W%d H%d Cmono\n' % (w, hh)).hex())
        yield b(fmt='pgm', data=(b'P5 %d %d 255\n' % (w, hh)).hex())
    for s in ('sign', 'mag', 'orig', 'zerox', 'default'):
        yield b(method=s, data=y4m(40, 30, 3).hex(), params=None)


def rnd(r):
    fmt = r.choice(['y4m', 'y4m', 'pfm', 'pfm', 'pgm'])
    d = GEN[fmt](r)
    if r.random() < .4:
        d = mutate(r, d, fmt)
    c = dict(fmt=fmt, data=d.hex(), how=r.choice(['file'] * 4 + ['pipe', 'stdin', 'stdinpipe']), type=r.choice(['ext', 'type', 'mime']), mask=r.choice([15] * 6 + list(range(16))), params=rparams(r), name=r.choice([0, 0, 1]), mth=.5,
             seed=r.randrange(1 << 30), method=r.choice(['custom'] * 4 + ['default', 'mag', 'orig', 'zerox']), palette=[0.0, .25, .5, .75, 1.0], fail=[])
    if r.random() < .2:
        c['fail'] = [0] * r.randrange(6) + [r.choice([1, 3, -5])]
    if r.random() < .2:
        c['failat'] = r.randrange(1, 16)
    if r.random() < .05:
        c['seekfail'] = r.randrange(1, 5)
    return c


def run(h):
    for c in fixed():
        h.case(**c)
        one(h, c)
    while h.more():
        c = rnd(h.rnd)
        h.case(**c)
        one(h, c)
