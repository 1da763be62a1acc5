import math
import struct
from hx import *


def get(l, p):
    r, t, c = SZ(), C.c_float(), C.c_uint()
    l.l.hx_params_get(C.c_void_p(p), C.byref(r), C.byref(t), C.byref(c))
    return r.value, struct.pack('<f', t.value) if t.value == t.value else b'nan', c.value


def one(h, c):
    l = h.lib(extra=('acc.c',))
    l.l.hx_params_size.restype = SZ
    l.l.hx_default_range.restype = SZ
    l.reset()
    if c['what'] == 'alloc':
        if c['fail']:
            l._fail_at.value = 1
            h.check(not l.alloc_default_parameters(), 'no memory but not null')
            h.check(l.live == 0, 'leak')
            return
        p = l.alloc_default_parameters()
        r, t, cf = get(l, p)
        h.check(r == l.l.hx_default_range() == l.default_range() and cf == 0 and struct.unpack('<f', t)[0] < 0, 'wrong defaults %s' % ((r, t, cf),))
        h.check(l.live == 1, 'leak')
        l.free(p)
        return
    p = l.alloc_default_parameters()
    for w, v in c['before']:
        call(l, p, w, v)
    n = l.l.hx_params_size()
    old, raw = get(l, p), C.string_at(p, n)
    w, v = c['what'], c['value']
    if w == 'threshold':
        v = struct.unpack('<f', struct.pack('<I', v))[0]
    valid = {'range': lambda: v >= 1, 'threshold': lambda: 0 <= v <= 1, 'filter': lambda: v <= 31}[w]()
    h.check(call(l, None, w, c['value']) == 6, 'null object is not a parameter error')
    e = call(l, p, w, c['value'])
    new = get(l, p)
    if not valid:
        h.check(e == 6 and C.string_at(p, n) == raw, '%s %r gives %d and %s' % (w, v, e, new))
    else:
        exp = list(old)
        exp[{'range': 0, 'threshold': 1, 'filter': 2}[w]] = struct.pack('<f', v) if w == 'threshold' else v
        h.check(e == 0 and new == tuple(exp), '%s %r gives %d and %s instead of %s' % (w, v, e, new, exp))
    l.free(p)
    h.check(l.live == 0 and l.bad_free == 0, 'leak')


def call(l, p, w, v):
    if w == 'range':
        return l.parameters_set_range(p, v)
    if w == 'filter':
        return l.parameters_set_compression_filter(p, v)
    return l.parameters_set_threshold(p, C.c_float.from_buffer_copy(struct.pack('<I', v)))


def run(h):
    for f in (0, 1):
        h.case(what='alloc', fail=f, value=0, before=[])
        one(h, h.kw)
    F = [0, 0x80000000, 1, 0x80000001, 0x3f800000, 0x3f800001, 0x3f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0xbf800000, 0x3f000000, 0x7f7fffff, 0x00800000, 0x7f800001, 0xff800001]
    R = [0, 1, 2, 12, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1]
    R += [2**k + d for k in range(64) for d in (-1, 0, 1) if 0 < 2**k + d < 2**64]
    cs = [('filter', v) for v in range(256)] + [('range', v) for v in R] + [('threshold', v) for v in F]
    while True:
        for w, v in cs:
            b = [[h.rnd.choice(['range', 'filter', 'threshold']), None] for _ in range(h.rnd.randint(0, 3))]
            for x in b:
                x[1] = h.rnd.choice(F if x[0] == 'threshold' else R if x[0] == 'range' else list(range(40)))
            h.case(what=w, value=v, before=b)
            one(h, h.kw)
        cs = [('threshold', h.rnd.getrandbits(32)) for _ in range(500)] + [('range', h.rnd.getrandbits(h.rnd.randint(1, 64))) for _ in range(50)]
        if not h.more() or h.n > 20000:
            break
