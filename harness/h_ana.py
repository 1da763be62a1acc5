"""Analysis scenarios against an independent model: a scripted detection method observes every call and dictates the accumulators."""
import math
import random
import numpy as np
from hx import *
import h_meth

F32 = np.float32
NAMES = [b'custom', b'zerox', b'zeroxx', b'zero', b'sign', b'orig']


def dct2(img):
    """unnormalised 2-D DCT-II, float64, img[h][w]"""
    def mat(n):
        k, j = np.arange(n)[:, None], np.arange(n)[None, :]
        return 2 * np.cos(np.pi * k * (2 * j + 1) / (2.0 * n))
    h, w = img.shape
    return mat(h) @ img.astype(np.float64) @ mat(w).T


class Custom:
    """detection method in Python: records its arguments, adds scripted values to the accumulators"""

    def __init__(self, h, name, th, seed, fail=(), palette=None):
        self.h, self.calls, self.err = h, [], []
        self.rnd = random.Random(seed)
        self.fail = fail
        self.n = 0
        self.palette = palette or [0.0, 1.0, .5, .25]
        self.cb = FUNC(self.call)
        self.m = Method(name, C.cast(self.cb, C.c_void_p), th)
        self.p = C.addressof(self.m)
        self.record = True

    def call(self, f, length, n, stride, dist, rg, res, s, e):
        try:
            k = self.n
            self.n += 1
            co = np.frombuffer(C.string_at(f, length * n * 4), F32).copy() if self.record else None
            b = (C.c_size_t.from_address(s).value, C.c_size_t.from_address(e).value)
            m = max(0, b[1] - b[0]) if b[1] - b[0] < 1 << 24 else 0
            acc = np.frombuffer(C.string_at(res, m * 8), np.float64).copy()
            code = self.fail[k] if k < len(self.fail) else 0
            add = np.array([self.rnd.choice(self.palette) for _ in range(m)])
            if not code:
                new = acc + add
                C.memmove(res, new.ctypes.data, m * 8)
            else:
                new = acc
            self.calls.append(dict(f=co, fp=f, length=length, n=n, stride=stride, dist=dist, range=rg, bounds=b, before=acc, after=new, code=code, res=res))
            return code
        except Exception as x:
            self.err.append(repr(x))
            return 0


def mkparams(l, p):
    """params object from dict or None"""
    if p is None:
        return None
    o = l.alloc_default_parameters()
    if p.get('range') is not None:
        assert l.parameters_set_range(o, p['range']) == 0
    if p.get('th') is not None:
        assert l.parameters_set_threshold(o, p['th']) == 0
    if p.get('cf') is not None:
        assert l.parameters_set_compression_filter(o, p['cf']) == 0
    return o


def filtered(i, length, cf):
    """what the code removes (a recorded finding: not the documented sizes)"""
    if not cf:
        return False
    fi = F32(F32(length) / F32(1 << cf))
    if fi == 0:
        return False
    a = F32(F32(F32(i) * fi) / F32(length))
    r = cround(float(a))
    b = cround(r * length / float(fi))
    return b != float(i)


def cround(x):
    return math.copysign(math.floor(abs(x) + .5), x) if abs(x) < 1 << 52 else x


def expected(acc, n, rg, dim, th, cf, on):
    """list of (index, float32 confidence) sorted by descending confidence, native last"""
    out = []
    if on:
        for i in range(dim - 2 * rg):
            mean = np.float64(acc[i]) / np.float64(n)
            if mean >= np.float64(F32(th)) and not filtered(i, dim, cf):
                out.append((i + rg, F32(mean)))
    out.sort(key=lambda x: -x[1])
    return out + [(dim, F32(-1))]


def cmp_results(h, tag, got, exp, props='C10'):
    h.check(len(got) == len(exp), lambda: '%s: %d results, expected %d: %s ... %s' % (tag, len(got), len(exp), got[:8], exp[:8]), props)
    h.check(got[-1:] == exp[-1:], lambda: '%s: last entry is %s, expected %s' % (tag, got[-1:], exp[-1:]), props)
    for a, b in zip(got, got[1:]):
        h.check(a[1] >= b[1], lambda: '%s: not ordered by confidence: %s then %s' % (tag, a, b), props)
    h.check(sorted(got) == sorted(exp), lambda: '%s: results %s, expected %s' % (tag, sorted(set(got) - set(exp))[:5], sorted(set(exp) - set(got))[:5]), props)


class Out:
    """output arguments of the result calls, pre-filled with garbage"""

    def __init__(self, mask):
        self.mask = mask
        self.v = [C.c_size_t(0xA5A5A5A5A0 + i) for i in range(4)]
        self.a = [C.addressof(x) if mask >> i & 1 else None for i, x in enumerate(self.v)]

    def args(self):
        return self.a

    def untouched(self):
        return all(self.mask >> i & 1 or x.value == 0xA5A5A5A5A0 + i for i, x in enumerate(self.v))

    def zero(self):
        return all(not (self.mask >> i & 1) or x.value == 0 for i, x in enumerate(self.v))

    def lists(self, l):
        """consume the lists"""
        out = []
        for i in (0, 2):
            if not self.mask >> i & 1:
                out.append(None)
                continue
            p, n = self.v[i].value, self.v[i + 1].value
            if not p:
                out.append('null')
                continue
            a = C.string_at(p, n * 16)
            out.append([(int.from_bytes(a[16 * k:16 * k + 8], 'little'), np.frombuffer(a, F32, 1, 16 * k + 8)[0]) for k in range(n)])
            l.free(p)
        return out


def image(h, kind, w, hh, seed, bad=None):
    r = np.random.RandomState(seed)
    if kind == 'rand':
        a = r.rand(hh, w)
    elif kind == 'flat':
        a = np.full((hh, w), 0.5)
    elif kind == 'big':
        a = r.choice([1e30, -1e30, 3e38, 0.0], (hh, w))
    elif kind == 'grad':
        a = np.outer(np.linspace(0, 1, hh), np.linspace(0, 1, w))
    else:
        a = r.choice([0.0, -0.0, 1.0, 1e-45, -1.0, .5], (hh, w))
    a = a.astype(F32)
    if bad:
        pos, v = bad
        a.reshape(-1)[pos % a.size] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[v]
    return a


def alive(l):
    return l.live


def one(h, c):
    try:
        scenario(h, c)
    except Skip:
        h.skipped += 1


def scenario(h, c):
    """one scenario on one analysis"""
    k = dict(kind=c.get('backend', 'fftw'), defs=tuple(c.get('defs', ())))
    white = h.prop == 'C04' and not getattr(h, 'noacc', False)
    if white:
        try:
            l = h.lib(extra=('acc_ana.c',), **k)
        except RuntimeError:
            h.noacc, white = True, False
    if not white:
        l = h.lib(**k)
    w, hh = c['w'], c['h']
    p = c['params']
    cm = Custom(h, NAMES[c['name']], c['mth'], c['seed'], c.get('fail', ()), c.get('palette'))
    use = c['method']       # 'custom', 'default' or a listed name
    mp = cm.p if use == 'custom' else None if use == 'default' else l.get_method(use.encode())
    th0 = None
    l.reset()
    pp = mkparams(l, p)
    base = l.live
    cnt0 = l.count
    if c.get('failat'):
        l._fail_at.value = cnt0 + c['failat']
    e = C.c_int(12345)
    a = l.create_analysis(mp, w, hh, pp, C.addressof(e) if c['status'] else None)
    failed = c.get('failat') and l.count >= cnt0 + c['failat']
    l._fail_at.value = -1
    lim = 1 << 64
    pm = c.get('pixel_max')
    if w == 0 or hh == 0:
        exp = 3
    elif w * hh * 4 >= 1 << 64 or (pm and w * hh > pm):
        exp = 5
    else:
        exp = None
    if c.get('refuse'):
        # huge but representable: memory cannot be had here
        h.check(not a and e.value in (1, 2, 5) if exp is None else not a and e.value == exp, 'create %dx%d gives %s, status %d, expected %s' % (w, hh, a, e.value, exp), 'C03 C04')
        h.check(l.live == base and l.bad_free == 0, 'refused creation: %d live, %d bad' % (l.live - base, l.bad_free), 'C04')
        return
    if exp is not None or failed:
        h.check(not a, 'create %dx%d returns an analysis (expected refusal %s)' % (w, hh, exp), 'C03 C04')
        if c['status']:
            if exp is not None:
                h.check(e.value == exp or (failed and e.value == 1), 'create %dx%d: status %d, expected %d' % (w, hh, e.value, exp), 'C03 C04')
            else:
                h.check(e.value in (1, 2), 'failed creation has status %d' % e.value, 'C04')
        h.check(l.live == base and l.plans == 0 and l.bad_free == 0, 'failed creation leaves %d allocations, %d bad releases' % (l.live - base, l.bad_free), 'C04')
        return
    h.check(a, 'create %dx%d returns null, status %d' % (w, hh, e.value), 'C03 C04')
    h.check(not c['status'] or e.value == 0, 'created with status %d' % e.value, 'C04')
    # the parameters were copied
    rg = p['range'] if p and p.get('range') is not None else l.default_range()
    zx = (use == 'custom' and NAMES[c['name']] == b'zerox') or use == 'zerox'
    if zx:
        rg = 1
    cf = p['cf'] if p and p.get('cf') is not None else 0
    th = p['th'] if p and p.get('th') is not None else None
    if pp:
        l.parameters_set_range(pp, 7777777)
        l.parameters_set_threshold(pp, 1.0 if th != 1.0 else 0.0)
        l.parameters_set_compression_filter(pp, 31 if cf != 31 else 0)
        l.free(pp)
    if th is None:
        if use == 'custom':
            th = c['mth']
        else:
            ms = l.methods()
            i = 0
            while use != 'default' and ms[i].name.decode() != use:
                i += 1
            th = ms[i].threshold
    on = [w > 2 * rg, hh > 2 * rg]
    if white:
        o, t = (C.c_ulonglong * 8)(), C.c_float()
        l.l.hx_analysis_get(C.c_void_p(a), o, C.byref(t))
        m = mp if use != 'default' else C.addressof(l.methods()[0])
        exp = (w, hh, 0, rg, cf, on[0], on[1], m, float(F32(th)))
        got = tuple(o) + (t.value,)
        h.check(got == exp, lambda: 'analysis %dx%d of %s: fields (width, height, nimages, range, filter, x, y, method, threshold) are %s, expected %s' % (w, hh, p, got, exp), 'C04')
    dims = [w, hh]
    acc = [np.zeros(max(0, d - 2 * rg)) for d in dims]
    nimg = 0
    sure = True
    ncall = 0
    for op in c['ops']:
        if op[0] == 'img':
            img = image(h, op[1], w, hh, op[2], op[3] if len(op) > 3 else None)
            b = Buf(img)
            live0 = l.live
            cnt0 = l.count
            if len(op) > 4 and op[4]:
                l._fail_at.value = cnt0 + op[4]
            r = l.analyze_image(a, b.p)
            nomem = len(op) > 4 and op[4] and l.count >= cnt0 + op[4]
            l._fail_at.value = -1
            h.check(np.array_equal(b.get().view(np.uint32), img.reshape(-1).view(np.uint32)), 'the image was modified', 'C05')
            h.check(l.live == live0 and l.bad_free == 0, 'analysing leaks or releases wrongly', 'C05')
            h.check(not cm.err, lambda: 'detection method: %s' % cm.err, 'C05')
            finite = bool(np.isfinite(img).all())
            if not finite:
                h.check(r == 3, 'a non-finite image gives %d' % r, 'C05')
                h.check(len(cm.calls) == ncall, 'the method was applied to a refused image', 'C05')
                continue
            if use == 'custom':
                new = cm.calls[ncall:]
                want = []
                for d in (0, 1):
                    if on[d]:
                        want.append(d)
                code = 0
                for k, cl in enumerate(new):
                    h.check(k < len(want), lambda: 'the method was applied %d times, %d dimensions are searched' % (len(new), len(want)), 'C04 C05')
                    d = want[k]
                    exp = (dims[d], dims[1 - d], w if d == 0 else 1, 1 if d == 0 else w, rg, (rg, dims[d] - rg))
                    got = (cl['length'], cl['n'], cl['stride'], cl['dist'], cl['range'], cl['bounds'])
                    h.check(got == exp, lambda: 'dimension %s: method called with %s, expected %s' % ('xy'[d], got, exp), 'C05')
                    h.check(np.array_equal(cl['before'], acc[d]), lambda: 'dimension %s: accumulators before the call are %s, expected %s' % ('xy'[d], cl['before'][:5], acc[d][:5]), 'C04 C05')
                    if np.abs(img).max() < 1e6 and w * hh <= 4096:
                        ref = dct2(img)
                        g = cl['f'].reshape(hh, w).astype(np.float64)
                        sc = c.get('scale') or 1.0
                        s = np.abs(ref).max()
                        # one positive scale factor
                        j = np.unravel_index(np.abs(ref).argmax(), ref.shape)
                        f = g[j] / ref[j] if s > 1e-6 else 1
                        h.check(f > 0, 'the transform has scale %g' % f, 'C05')
                        if s > 1e-6:
                            er = np.abs(g / f - ref).max() / s
                            h.check(er < 1e-4, lambda: 'coefficients of the %dx%d image are not its DCT (relative error %g)' % (w, hh, er), 'C05')
                    acc[d] = cl['after']
                    code = cl['code']
                    if code:
                        break
                ncall = len(cm.calls)
                h.check(r == code, 'method returns %d but analysing %d' % (code, r), 'C05')
                if code:
                    h.check(len(new) == k + 1, 'the method was applied after it failed', 'C05')
                    if c.get('stop_after_fail', True) and len(new) > 1:
                        sure = False     # finding C05: the first dimension keeps its contribution
                    continue
                h.check(len(new) == len(want), lambda: 'the method was applied %d times, %d dimensions are searched' % (len(new), len(want)), 'C04 C05')
            else:
                if nomem and r == 1:
                    sure = False
                    continue
                h.check(r == 0, 'analysing gives %d' % r, 'C05')
            nimg += 1
        elif op[0] == 'null':
            h.check(l.analyze_image(None if op[1] & 1 else a, None if op[1] & 2 else Buf(np.zeros(4, F32)).p) == 6, 'null argument is not a parameter error', 'C05')
            h.check(len(cm.calls) == ncall, 'the method was applied', 'C05')
        else:
            mask = op[1]
            o = Out(mask)
            live0 = l.live
            cnt0 = l.count
            if len(op) > 2 and op[2]:
                l._fail_at.value = cnt0 + op[2]
            r = l.analysis_results(a if not (len(op) > 3 and op[3]) else None, *o.args())
            nomem = len(op) > 2 and op[2] and l.count >= cnt0 + op[2]
            l._fail_at.value = -1
            h.check(o.untouched(), 'an argument that was not given was written', 'C12')
            if (mask & 1 and not mask & 2) or (mask & 4 and not mask & 8) or (len(op) > 3 and op[3]):
                exp = 6
            elif not nimg:
                exp = 7
            elif nomem:
                exp = 1
            else:
                exp = 0
            h.check(r == exp, 'results (%s given) after %d frames give %d, expected %d' % (bin(mask), nimg, r, exp), 'C10 C12')
            if exp:
                h.check(o.zero(), lambda: 'failed with %d but outputs are %s' % (exp, [hex(x.value) for x in o.v]), 'C12')
                h.check(l.live == live0 and l.bad_free == 0, 'failed results leak %d allocations (%d bad releases)' % (l.live - live0, l.bad_free), 'C12')
                continue
            h.check(l.live == live0 + bool(mask & 1) + bool(mask & 4), 'results leave %d allocations' % (l.live - live0), 'C12')
            for i in (0, 2):
                if not mask >> i & 1:
                    h.check(not mask >> (i + 1) & 1 or o.v[i + 1].value == 0, 'a dimension not asked for has a count', 'C10 C12')
            ls = o.lists(l)
            h.check(l.bad_free == 0, 'a result list is not one allocation', 'C12')
            for d in (0, 1):
                if ls[d] is None or not sure:
                    continue
                h.check(ls[d] != 'null', 'a requested list is null', 'C12')
                if use == 'custom':
                    cmp_results(h, 'dimension %s (%d, range %d, %d frames, threshold %r, filter %d)' % ('xy'[d], dims[d], rg, nimg, th, cf), ls[d], expected(acc[d], nimg, rg, dims[d], th, cf, on[d]), 'C11' if cf else 'C10')
                else:
                    h.check(ls[d][-1] == (dims[d], F32(-1)), 'last result is %s' % (ls[d][-1],), 'C10')
    l.destroy_analysis(a)
    h.check(l.live == 0 and l.plans == 0 and l.bad_free == 0, 'destroying leaves %d allocations, %d bad releases' % (l.live, l.bad_free), 'C04')


def rparams(r, big=False):
    if r.random() < .2:
        return None
    return dict(range=r.choice([None, 1, 1, 2, 2, 3, 4, 5, 12, 200, 2**63, 2**64 - 1]), th=r.choice([None, None, 0.0, 1.0, .5, .25, 0.3, 1 / 3., 1e-30]), cf=r.choice([None, None, 0, 0, 1, 2, 3, 4, 5, 8, 23, 24, 31]))


def rcase(r, ops=True):
    w, hh = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 23, 24, 25, 26, 31, 40, 64]), r.choice([1, 2, 3, 4, 5, 6, 7, 9, 13, 16, 24, 25, 26, 33])
    p = rparams(r)
    th = (p and p['th']) or .5
    mth = r.choice([0.0, 1.0, .5, .75, .25])
    f = float(F32(th))
    pal = r.choice([[0.0, 1.0], [0.0, .25, .5, .75, 1.0], [f, float(np.nextafter(f, 0)), float(np.nextafter(f, 2)), 0.0], [float(F32(mth)), 0.0, 1.0], [1 / 3., 2 / 3.], [0.0, 0.0, 0.0, .9]])
    ops = []
    for _ in range(r.randint(1, 7)):
        x = r.random()
        if x < .55:
            bad = None
            if r.random() < .2:
                bad = (r.choice([0, -1, r.randrange(1 << 20)]), r.choice(['nan', 'inf', '-inf']))
            ops.append(['img', r.choice(['rand', 'rand', 'flat', 'grad', 'mix', 'big']), r.randrange(1 << 30), bad, 0])
        elif x < .6:
            ops.append(['null', r.choice([1, 2, 3])])
        else:
            ops.append(['res', r.choice([15, 15, 15, 3, 12, 0, 10, 14, 11, 5, 1, 4, 7, 13]), r.choice([0, 0, 0, 1, 2]), r.random() < .05])
    ops.append(['img', 'rand', r.randrange(1 << 30)])
    ops.append(['res', 15])
    fail = ()
    if r.random() < .15:
        fail = [0] * r.randrange(6) + [r.choice([1, 2, 3, -5])]
    return dict(w=w, h=hh, params=p, name=r.choice([0, 0, 0, 1, 2, 3]), mth=mth, seed=r.randrange(1 << 30), fail=list(fail), palette=pal, method='custom', status=r.random() < .8, ops=ops)


def fixed():
    out = []
    std = [['img', 'rand', 5], ['res', 15], ['img', 'grad', 6], ['res', 15], ['res', 15]]

    def add(**k):
        c = dict(w=8, h=6, params=None, name=0, mth=.5, seed=1, fail=[], palette=[0.0, .25, .5, .75, 1.0], method='custom', status=True, ops=std)
        c.update(k)
        out.append(c)
    # every size near the range limit
    for rg in (1, 2, 3, 4):
        for d in range(2 * rg - 1, 2 * rg + 4):
            if d >= 1:
                add(w=d, h=3, params=dict(range=rg, th=0.0, cf=0))
                add(w=4, h=d, params=dict(range=rg, th=.5, cf=0))
    for w, hh in ((24, 24), (25, 24), (24, 25), (26, 27), (1, 1), (1, 30), (30, 1)):
        add(w=w, h=hh)
        add(w=w, h=hh, name=1)
        add(w=w, h=hh, name=2)
        add(w=w, h=hh, method='default')
    # every allocation fails once
    for k in range(1, 8):
        for st in (True, False):
            add(w=30, h=30, failat=k, status=st)
            add(w=30, h=4, failat=k, status=st, params=dict(range=3, th=None, cf=None))
            add(w=4, h=30, failat=k, status=st)
    for k in range(0, 4):
        for m in range(16):
            add(w=30, h=28, ops=[['res', m, 0], ['img', 'rand', 1], ['res', m, k], ['res', m, k, True], ['res', 15]])
    # sizes
    for w, hh in ((0, 0), (0, 5), (5, 0), (0, 2**64 - 1), (2**64 - 1, 0)):
        for st in (True, False):
            add(w=w, h=hh, status=st)
    B = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**61, 2**62 - 1, 2**62, 2**62 + 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 3]
    for w in B:
        for hh in [1, 2, 3, 4, 5] + B:
            if w * hh * 4 >= 1 << 33:
                add(w=w, h=hh, refuse=True, status=True)
                if hh < 6:
                    add(w=hh, h=w, refuse=True, status=True)
    for w, hh in ((10, 100), (1001, 1), (1, 1001), (1000, 1), (1, 1000), (25, 40), (37, 28), (33, 30), (33, 31)):
        add(w=w, h=hh, defs=['-DPIXEL_MAX=1000'], pixel_max=1000, ops=std[:2])
    for cf in range(0, 32):
        for d in (16, 25, 40, 64):
            add(w=d, h=33, params=dict(range=1 + cf % 3, th=0.0, cf=cf), palette=[.5, 1.0])
    # non-finite pixel at every position
    for pos in range(20):
        for v in ('nan', 'inf', '-inf'):
            add(w=5, h=4, params=dict(range=1, th=0.0, cf=0), ops=[['img', 'rand', 1, [pos, v]], ['res', 15], ['img', 'rand', 2], ['img', 'rand', 3, [pos, v]], ['res', 15], ['img', 'rand', 4], ['res', 15]])
    for f in ([1], [0, 1], [0, 0, 1], [0, 0, 0, 1], [-9]):
        add(w=8, h=9, params=dict(range=1, th=0.0, cf=0), fail=f, ops=[['img', 'rand', 1], ['img', 'rand', 2], ['img', 'rand', 3], ['res', 15]])
        add(w=2, h=9, params=dict(range=1, th=0.0, cf=0), fail=f, ops=[['img', 'rand', 1], ['img', 'rand', 2], ['img', 'rand', 3], ['res', 15]])
    for w, hh in ((97, 3), (2, 101), (64, 64), (35, 77), (1, 128), (63, 65)):
        add(w=w, h=hh, params=dict(range=1, th=0.5, cf=0))
    return out


def go(h, first=None):
    fx = fixed()
    if first:
        fx.sort(key=lambda c: 0 if first(c) else 1)
    for c in fx:
        h.case(**c)
        one(h, c)
    while h.more():
        c = rcase(h.rnd)
        h.case(**c)
        one(h, c)
