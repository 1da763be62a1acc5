"""resdetect against the sequential interface, with the same scripted method."""
from h_ana import *


def one(h, c):
    l = h.lib(kind=c.get('backend', 'fftw'))
    w, hh, n, mask = c['w'], c['h'], c['n'], c['mask']
    l.reset()
    small = w * hh * n < 1 << 20
    pix = None
    if small and c.get('image', True):
        pix = np.concatenate([image(h, c['kind'], w, hh, c['iseed'] + i).reshape(-1) for i in range(n)] + [np.zeros(0, F32)]).astype(F32)
        for pos, v in c.get('bad', ()):
            if pix.size:
                pix[pos % pix.size] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[v]
    buf = Buf(pix if pix is not None else np.zeros(0, F32))
    im = buf.p if c.get('image', True) else None
    pp = mkparams(l, c['params'])
    use = c['method']

    def meth():
        cm = Custom(h, NAMES[c['name']], c['mth'], c['seed'], c.get('fail', ()), c.get('palette'))
        return cm, (cm.p if use == 'custom' else None if use == 'default' else l.get_method(use.encode()))
    # the sequence
    cm1, mp = meth()
    exp, lists = 0, None
    o = Out(mask)
    bad = bool((mask & 1 and not mask & 2) or (mask & 4 and not mask & 8))
    done = 0
    live0 = l.live
    if bad or im is None:
        exp = (6,) if bad or n else (6, 7)
    elif n == 0:
        exp = (7,)
    else:
        e = C.c_int()
        a = l.create_analysis(mp, w, hh, pp, C.addressof(e))
        if not a:
            exp = (e.value,)
        else:
            r = 0
            for i in range(n):
                r = l.analyze_image(a, im + 4 * w * hh * i)
                done += 1
                if r:
                    break
            if not r:
                r = l.analysis_results(a, *o.args())
                if not r:
                    lists = o.lists(l)
            exp = (r,)
            l.destroy_analysis(a)
    h.check(l.live == live0 and l.plans == 0, 'the sequence leaks')
    if lists is not None:
        zeros = [o.v[1].value if mask & 2 else 0, o.v[3].value if mask & 8 else 0]
    # one call
    cm2, mp = meth()
    o2 = Out(mask)
    cnt0 = l.count
    if c.get('failat'):
        l._fail_at.value = cnt0 + c['failat']
    r = l.resdetect(im, n, w, hh, *(o2.args() + [mp, pp]))
    nomem = c.get('failat') and l.count >= cnt0 + c['failat']
    l._fail_at.value = -1
    what = 'resdetect of %d images of %dx%d, outputs %s' % (n, w, hh, bin(mask))
    if pix is not None:
        h.check(np.array_equal(buf.get().view(np.uint32), pix.view(np.uint32)), what + ': the images were modified')
    h.check(o2.untouched(), what + ': an argument that was not given was written')
    if nomem:
        h.check(r in exp + (1, 2), what + ': a failing allocation gives %d' % r)
        if r == 0:
            h.check(False, what + ': a failing allocation is ignored')
    else:
        h.check(r in exp, lambda: '%s: status %d, the sequence gives %s (after %d images)' % (what, r, exp, done))
    if r:
        h.check(o2.zero(), lambda: '%s: status %d but outputs are %s' % (what, r, [hex(x.value) for x in o2.v]))
    else:
        h.check([o2.v[1].value if mask & 2 else 0, o2.v[3].value if mask & 8 else 0] == zeros, what + ': counts differ')
        got = o2.lists(l)
        h.check(got == lists, lambda: '%s: results %s, the sequence gives %s' % (what, got, lists))
    h.check(l.live == live0 and l.plans == 0 and l.bad_free == 0, lambda: '%s: status %d leaves %d allocations, %d plans, %d bad releases' % (what, r, l.live - live0, l.plans, l.bad_free))
    if not nomem and use == 'custom':
        def view(cm):
            return [(x['length'], x['n'], x['stride'], x['dist'], x['range'], x['bounds'], x['before'].tobytes(), x['f'].tobytes(), x['code']) for x in cm.calls]
        h.check(view(cm1) == view(cm2), lambda: '%s: the method is called %d times, in sequence %d times, or with other data' % (what, len(cm2.calls), len(cm1.calls)))
    if pp:
        l.free(pp)


def rnd(r):
    c = dict(w=r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 25, 26]), h=r.choice([1, 2, 3, 5, 7, 8, 24, 27]), n=r.choice([0, 1, 1, 2, 2, 3, 4, 7]), mask=r.choice([15] * 6 + list(range(16))),
             params=rparams(r), name=r.choice([0, 0, 1, 3]), mth=r.choice([0.0, .5, 1.0, .25]), seed=r.randrange(1 << 30), iseed=r.randrange(1 << 30), kind=r.choice(['rand', 'rand', 'grad', 'mix', 'big']),
             method=r.choice(['custom'] * 5 + ['default', 'sign', 'mag', 'orig', 'zerox']), palette=r.choice([[0.0, 1.0], [0.0, .25, .5, .75, 1.0]]), fail=[])
    if r.random() < .25:
        c['fail'] = [0] * r.randrange(8) + [r.choice([1, 2, 3, -5])]
    if r.random() < .25:
        c['bad'] = [[r.randrange(1 << 20), r.choice(['nan', 'inf', '-inf'])]]
    if r.random() < .2:
        c['failat'] = r.randrange(1, 14)
    if r.random() < .05:
        c['image'] = False
    if r.random() < .1:
        c['backend'] = 'kissfft'
        c.pop('failat', None)        # kissfft allocates inside the transform, which reports nothing (C15)
    return c


def fixed():
    base = dict(w=8, h=7, n=3, mask=15, params=dict(range=1, th=0.0, cf=0), name=0, mth=.5, seed=1, iseed=9, kind='rand', method='custom', palette=[0.0, .25, .5, .75, 1.0], fail=[])

    def b(**k):
        d = dict(base)
        d.update(k)
        return d
    for m in range(16):
        for n in (0, 1, 3):
            for im in (True, False):
                yield b(mask=m, n=n, image=im)
                yield b(mask=m, n=n, image=im, params=None, method='sign')
    for n in (1, 2, 3):
        for k in range(2 * n):
            yield b(n=n, fail=[0] * k + [3])
            yield b(n=n, fail=[0] * k + [-4], w=2)
        for k in range(n):
            for pos in (0, 55):
                yield b(n=n, bad=[[56 * k + pos, 'nan']])
    for k in range(1, 16):
        yield b(failat=k)
        yield b(failat=k, params=None, w=30, h=30, n=2)
    for w, hh in ((0, 0), (0, 5), (5, 0), (2**32, 2**32), (2**62, 4), (2**64 - 1, 2**64 - 1), (2**63, 2)):
        for n in (1, 2):
            yield b(w=w, h=hh, n=n)
    for s in ('sign', 'mag', 'orig', 'zerox', 'default'):
        for w, hh in ((40, 30), (24, 25), (25, 24), (60, 3)):
            yield b(method=s, w=w, h=hh, params=None)


def run(h):
    for c in fixed():
        h.case(**c)
        one(h, c)
    while h.more():
        c = rnd(h.rnd)
        h.case(**c)
        one(h, c)
