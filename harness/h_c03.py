"""Sizes near the limits: creating analyses, opening headers, bulk reading."""
import h_ana
import h_c21
from h_files import Source
from hx import *

LIMS = [None, 1, 1000, 65536, 2**32 - 1, 2**32, 0x123456789a, 2**63 - 1]


def one(h, c):
    if 'bulk' in c:
        return h_c21.one(h, c)
    if 'fmt' not in c:
        return h_ana.one(h, c)
    m = c['limit']
    l = h.lib(**(dict(defs=['-DPIXEL_MAX=%dULL' % m]) if m else {}))
    l.reset()
    l._max_alloc.value = 1 << 26
    w, hh = c['w'], c['h']
    data = dict(pgm=b'P5 %d %d 255\n', pfm=b'Pf %d %d -1\n', y4m=b'YUV4MPEG2 W%d H%d Cmono\n')[c['fmt']] % (w, hh)
    s = Source(h, 'file', data, c['fmt'])
    W, H_, e, img = SZ(7), SZ(7), C.c_int(77), C.c_void_p(7)
    try:
        p = l.open_image(s.name, None, C.addressof(W), C.addressof(H_), C.addressof(img) if c['buf'] else None, C.addressof(e))
    finally:
        s.done()
    lim = min(m or 2**64 - 1, (2**64 - 1) // 4)
    ok = w * hh >= 1 and w * hh <= lim
    what = 'opening a %s of %dx%d, limit %s' % (c['fmt'], w, hh, m)
    if ok and c['buf'] and w * hh * 4 > 1 << 26:
        h.check(not p and e.value == 1, lambda: '%s: status %d, the buffer cannot be allocated (largest request %d)' % (what, e.value, l.biggest))
    elif ok:
        h.check(p and e.value == 0 and (W.value, H_.value) == (w, hh), lambda: '%s: status %d' % (what, e.value))
        if c['buf']:
            h.check(l.biggest >= w * hh * 4, lambda: '%s: largest block %d bytes' % (what, l.biggest))
    elif c['fmt'] == 'y4m':
        # the reader itself may refuse sizes whose frames it cannot represent
        h.check(not p and e.value in (3, 5), lambda: '%s: status %d' % (what, e.value))
    else:
        h.check(not p and e.value == 5, lambda: '%s: status %d instead of too big' % (what, e.value))
    if p:
        if c['buf']:
            l.free(img.value)
        l.close_image(p)


def fixed():
    B = [0, 1, 2, 3, 31, 32, 33, 999, 1000, 1001, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**61, 2**62 - 1, 2**62, 2**62 + 1, 2**63 - 1, 2**63, 2**64 - 1]
    for m in LIMS:
        for fmt in ('pgm', 'pfm'):
            for w in B:
                for hh in B:
                    if m in (None, 1000) or fmt == 'pgm' and (w in B[3:9] or hh in B[:4]):
                        yield dict(fmt=fmt, w=w, h=hh, limit=m, buf=bool((w + hh) & 1))


def run(h):
    for c in fixed():
        h.case(**c)
        one(h, c)
    for c in h_c21.fixed():
        if c.get('limit'):
            c['bulk'] = 1
            h.case(**c)
            one(h, c)
    h_ana.go(h)
