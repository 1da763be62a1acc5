"""C15: the transform interface of both backends against a naive DCT-II; allocation failures."""
import numpy as np
from hx import *
from h_ana import dct2


def api(l):
    L = l.l
    L.resdet_alloc_coeffs.restype = C.c_void_p
    L.resdet_alloc_coeffs.argtypes = [SZ, SZ]
    L.resdet_create_plan.restype = C.c_void_p
    L.resdet_create_plan.argtypes = [C.c_void_p, SZ, SZ, C.c_void_p]
    for n in ('resdet_transform', 'resdet_free_plan', 'resdet_free_coeffs'):
        f = getattr(L, n)
        f.restype, f.argtypes = None, [C.c_void_p]
    return L


def image(rnd, w, h, style):
    if style == 'noise':
        return rnd.random((h, w), np.float32)
    if style == 'impulse':
        a = np.zeros((h, w), np.float32)
        a[rnd.integers(h), rnd.integers(w)] = 1
        return a
    if style == 'ramp':
        return (np.arange(h)[:, None] * 3 + np.arange(w)[None, :] + 1).astype(np.float32) / (3 * h + w)
    if style == 'signed':
        return ((rnd.random((h, w)) - .5) * 1e4).astype(np.float32)
    return np.full((h, w), .75, np.float32)


def one(h, c):
    kind, w, hh = c['kind'], c['w'], c['h']
    l = h.lib(kind)
    L = api(l)
    l.reset()
    e = C.c_int(99)
    if c['what'] == 'null':
        L.resdet_free_plan(None)
        L.resdet_free_coeffs(None)
        h.check(l.bad_free == 0 and l.live == 0, 'releasing null')
        return
    if c['what'] == 'big':
        buf = (C.c_float * 4)()
        p = L.resdet_create_plan(buf, w, hh, C.byref(e))
        h.check(not p and e.value == 5, 'size beyond the backend: %s, status %d' % (p, e.value))
        h.check(l.live == 0 and l.plans == 0 and l.bad_free == 0, 'a refused size leaves something behind')
        return
    f = L.resdet_alloc_coeffs(w, hh)
    h.check(f, 'no coefficients')
    try:
        base = l.live
        if c['what'] == 'fail':
            l._fail_at.value = l.count + c['at']
            C.memset(f, 0, w * hh * 4)
            p = L.resdet_create_plan(f, w, hh, C.byref(e))
            failed = l.count >= l._fail_at.value
            l._fail_at.value = 0
            if failed:
                h.check(not p and e.value in (1, 2), 'allocation %d fails: plan %s, status %d' % (c['at'], p, e.value))
                h.check(l.live == base and l.plans == 0, 'a creation that failed at allocation %d leaves %d blocks' % (c['at'], l.live - base))
            else:
                h.check(p and e.value == 0, 'no plan, status %d' % e.value)
                L.resdet_free_plan(p)
                h.check(l.live == base and l.plans == 0, 'a plan is not released entirely: %d blocks' % (l.live - base))
            h.check(l.bad_free == 0, 'something is released twice or not by its own function')
            return failed
        p = L.resdet_create_plan(f, w, hh, C.byref(e))
        h.check(p and e.value == 0, 'no plan for %d x %d, status %d' % (w, hh, e.value))
        rnd = np.random.default_rng(c['seed'])
        scale = None
        for k in range(c['times']):
            a = image(rnd, w, hh, c['style'][k % len(c['style'])])
            C.memmove(f, a.ctypes.data, a.nbytes)
            frees = l.count
            if c['what'] == 'starve':
                l._fail_at.value = l.count + 1
            L.resdet_transform(p)
            starved = c['what'] == 'starve' and l.count > frees
            l._fail_at.value = 0
            got = np.frombuffer(C.string_at(f, w * hh * 4), np.float32).reshape(hh, w).astype(np.float64)
            ref = dct2(a)
            size = 4 * np.abs(a).sum(dtype=np.float64) + 1e-30
            s = float((got * ref).sum() / max((ref * ref).sum(), 1e-300)) if np.isfinite(got).all() else float('nan')
            d = float(np.abs(got - s * ref).max()) if s == s else float('inf')
            wrong = not s > 0 or d > 2e-5 * s * size
            if wrong and starved:
                h.known('kiss-scratch', 'without memory for its scratch space the transform of %d x %d silently gives wrong coefficients' % (w, hh))
                break
            i = np.unravel_index(int(np.argmax(np.abs(got - s * ref))), got.shape) if s == s else (0, 0)
            h.check(not wrong, lambda: '%s: transform %d of %d x %d (%s): coefficient (row %d, column %d) is %g, the DCT-II times %g is %g' % (
                kind, k + 1, w, hh, c['style'][k % len(c['style'])], i[0], i[1], got[i], s, s * ref[i]))
            h.check(scale is None or abs(s - scale) < 1e-3 * scale, lambda: 'the scale changes from %g to %g between uses of a plan' % (scale, s))
            scale = s
        L.resdet_free_plan(p)
        h.check(l.live == base and l.plans == 0 and l.bad_free == 0, 'a used plan is not released entirely: %d blocks, %d plans, %d wrong releases' % (l.live - base, l.plans, l.bad_free))
    finally:
        pass
    L.resdet_free_coeffs(f)
    h.check(l.live == base - 1 or l.live == 0, 'the coefficients are not released')


SIZES = [(1, 1), (1, 2), (2, 1), (1, 7), (5, 1), (2, 2), (3, 3), (4, 4), (5, 5), (7, 7), (8, 4), (4, 8), (3, 5), (6, 9), (9, 6), (16, 12), (15, 25), (25, 15), (11, 13), (49, 14), (64, 3),
         (3, 64), (1, 121), (121, 1), (60, 77), (36, 36), (100, 18), (17, 17), (125, 8), (128, 1), (101, 6), (97, 97), (180, 210), (243, 4), (2, 243), (169, 11), (256, 256)]


def run(h):
    for kind in ('kissfft', 'fftw'):
        lim = (1 << 31) - 1 if kind == 'fftw' else ((1 << 31) - 1) // 3
        h.case(kind=kind, what='null', w=1, h=1)
        one(h, h.kw)
        for w, hh in ((lim + 1, 1), (1, lim + 1), (1 << 32, 1), ((1 << 32) + 1, 1), (1, 1 << 33), (1 << 63, 2)):
            h.case(kind=kind, what='big', w=w, h=hh)
            one(h, h.kw)
        for w, hh in ((4, 4), (3, 5), (1, 1), (1, 7), (11, 2)):
            for at in range(1, 20):
                h.case(kind=kind, what='fail', w=w, h=hh, at=at)
                if not one(h, h.kw):
                    break
    for w, hh in SIZES:
        for kind in ('kissfft', 'fftw'):
            h.case(kind=kind, what='transform', w=w, h=hh, seed=1, times=3, style=['noise', 'impulse', 'ramp'])
            one(h, h.kw)
    for w, hh in ((4, 6), (30, 20), (16, 16)):
        h.case(kind='kissfft', what='starve', w=w, h=hh, seed=1, times=2, style=['noise'])
        one(h, h.kw)
    for w, hh in ((7, 4), (22, 22)):
        h.case(kind='kissfft', what='starve', w=w, h=hh, seed=1, times=2, style=['noise'])
        one(h, h.kw)
    while h.more():
        r = h.rnd
        m = r.choice((8, 40, 160, 400))
        w, hh = r.randint(1, m), r.randint(1, m)
        if r.random() < .25:
            w = r.choice((1, 2, 3, 4, 5, 7, 11)) ** r.randint(1, 3)
        if r.random() < .2:
            hh = w
        h.case(kind=r.choice(('kissfft', 'kissfft', 'fftw')), what='transform', w=w, h=hh, seed=r.randint(0, 10**9), times=r.randint(1, 3), style=r.sample(('noise', 'impulse', 'ramp', 'signed', 'flat'), 3))
        one(h, h.kw)
