"""Detection methods against an independent oracle, for arrays with every kind of float."""
import numpy as np
from hx import *

EPS = np.float32(2.0 ** -52)
SPECIAL = np.array([0.0, -0.0, 1e-45, -1e-45, 1e-38, 2.0**-53, -2.0**-53, 2.0**-52, -2.0**-52, 2.0**-51, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0,
                    1.5, -1.5, 1e30, -1e30, 1e37, -1e37, 3.4e38, -3.4e38, np.inf, -np.inf, np.nan, 1.9999999, -1.9999999, 2.0000002, -2.0000002], dtype=np.float32)


def sgn(a):
    return np.signbit(a)


def oracle(name, A, rg):
    """A[line][pos] float32; fraction per candidate, and whether it is well determined"""
    n, L = A.shape
    m = L - 2 * rg
    out = np.zeros(m)
    sure = np.ones(m, bool)
    with np.errstate(all='ignore'):
        if name in ('sign', 'mag', 'orig'):
            cnt = np.zeros(m)
            for i in range(1, rg + 1):
                a, b = A[:, rg - i:L - rg - i], A[:, rg + i:L - rg + i]
                if name == 'mag':
                    den = np.copysign(np.where(np.abs(b) > EPS, np.abs(b), EPS), b).astype(np.float32)
                    v = ((a / den).astype(np.float32) + np.float32(1)).astype(np.float32)
                    hit = np.abs(v) < 1
                    cnt += hit.sum(0)
                    d = np.abs(np.abs(a.astype(np.float64) / den.astype(np.float64) + 1) - 1)
                    doubt = ((d > 0) & (d < 1e-6)) | np.isnan(b) | np.isnan(a)
                    sure &= ~doubt.any(0)
                else:
                    cnt += (sgn(a) != sgn(b)).sum(0)
            out = cnt / (float(n) * rg)
        if name == 'zerox':
            l, c, r = A[:, :-2], A[:, 1:-1], A[:, 2:]
            z = (sgn(l) != sgn(r)) & (((l < c) & (c < r)) | ((l > c) & (c > r)))
            out = z.sum(0) / float(n)
        if name == 'orig':
            mean = np.abs(A.astype(np.float64)).sum(0) / n
            left, right = np.zeros(m), np.zeros(m)
            for i in range(1, rg + 1):
                left += mean[rg - i:L - rg - i]
                right += mean[rg + i:L - rg + i]
            mid = mean[rg:L - rg] * rg
            d = np.abs(left - right)
            q = np.array([np.minimum(left, right) - mid, np.abs(left - mid) - d, np.abs(right - mid) - d])
            sc = np.maximum(np.maximum(left, right), mid)
            out = np.where((q > 0).all(0), out, 0)
            sure &= np.isfinite(sc) & (np.abs(q) > 1e-9 * sc).all(0)
            sure |= (sc == 0)
    return out, sure


def gen(h, kind, L, n):
    r = np.random.RandomState(h.rnd.randrange(2**31))
    if kind == 'special':
        return r.choice(SPECIAL, (n, L))
    if kind == 'finite':
        return r.choice(SPECIAL[np.isfinite(SPECIAL)], (n, L))
    if kind == 'normal':
        return r.randn(n, L).astype(np.float32)
    if kind == 'flip':      # inversions around a centre, with a dip
        A = np.abs(r.randn(n, L)).astype(np.float32) + np.float32(0.5)
        c = r.randint(1, L - 1)
        A[:, c] *= np.float32(0.01)
        A[:, c + 1:] *= -1
        return A
    if kind == 'mono':
        return np.tile(np.linspace(-1, 1, L).astype(np.float32), (n, 1)) * r.choice([1, -1], (n, 1)).astype(np.float32)
    if kind == 'alt':
        return (np.where(np.arange(L)[None, :] % 2, 1, -1) * np.ones((n, 1))).astype(np.float32)
    return np.full((n, L), np.float32(-0.0))


def one(h, c):
    lib = h.lib()
    name = c['method']
    i = 0
    ms = lib.methods()
    while ms[i].name and ms[i].name.decode() != name:
        i += 1
    h.check(ms[i].name, 'method %s is not listed' % name)
    func = FUNC(ms[i].func)
    h.rnd.seed(c['seed'])
    L, n, rg = c['length'], c['lines'], c['range']
    A = gen(h, c['kind'], L, n)
    rr = np.random.RandomState(c['seed'])
    m = L - 2 * rg
    old = rr.rand(m) * c['old']
    if c['mode'] == 'x':
        f, stride, dist = A.copy(), L, 1
    else:
        f, stride, dist = A.T.copy(), 1, n
    fb, rb, bb = Buf(f), Buf(old), Buf(np.array([rg, L - rg], dtype=np.uint64))
    lib.reset()
    if c.get('nomem'):
        lib._fail_at.value = 1
    r = func(fb.p, L, n, stride, dist, rg, rb.p, bb.p, bb.p + 8)
    got, bnd = rb.get(), bb.get()
    h.check(np.array_equal(fb.get().view(np.uint32), f.reshape(-1).view(np.uint32)), 'coefficients were modified')
    h.check(lib.live == 0 and lib.bad_free == 0, 'memory is leaked or released wrongly')
    nomem = c.get('nomem') and lib.count >= 1
    if nomem:
        h.check(r == 1, 'running out of memory returns %d' % r)
        h.check(np.array_equal(got, old), 'results changed although memory ran out')
        return
    h.check(r == 0, 'returns %d' % r)
    h.check(list(bnd) == [rg, L - rg], 'candidate bounds changed to %s' % list(bnd))
    exp, sure = oracle(name, A, rg)
    bad = sure & ~(np.abs(got - old - exp) <= 1e-9 * (1 + np.abs(old)))
    for k in np.nonzero(bad)[0][:1]:
        if True:
            h.check(abs(got[k] - old[k] - exp[k]) <= 1e-9 * (1 + abs(old[k])), lambda: 'candidate %d of %d (range %d, %d lines): added %.17g, expected %.17g' % (k + rg, L, rg, n, got[k] - old[k], exp[k]))


def go(h, name):
    ranges = [1] if name == 'zerox' else None
    kinds = ['special', 'normal', 'flip', 'mono', 'alt', 'finite', 'zero']
    big = [(5, 70000, 1), (70003, 2, 1), (70003, 2, 3), (601, 3, 300), (3, 1, 1), (3, 2, 1), (4, 1, 1), (2000, 40, 12), (300, 300, 120), (140, 300, 60)]
    t = 0
    while h.more():
        if t < 2 * len(big) * 3 and t % 3 == 2:
            L, n, rg = big[(t // 3) // 2 % len(big)]
            mode = 'xy'[(t // 3) % 2]
        else:
            L, n = h.rnd.randint(3, 30), h.rnd.randint(1, 12)
            rg = h.rnd.randint(1, (L - 1) // 2)
            if h.rnd.random() < .4:
                rg = (L - 1) // 2
            mode = h.rnd.choice('xy')
        if ranges:
            rg = 1
        if name == 'orig' and rg * 2 >= L:
            continue
        c = dict(method=name, mode=mode, length=L, lines=n, range=rg, kind=kinds[t % len(kinds)] if L * n < 100000 else h.rnd.choice(['normal', 'alt', 'mono', 'flip']),
                 seed=h.rnd.randrange(2**31), old=h.rnd.choice([0, 1, 100.0]), nomem=(name == 'orig' and t % 10 == 0))
        h.case(**c)
        st = h.rnd.getstate()
        one(h, c)
        h.rnd.setstate(st)
        t += 1
