import os
from hx import *


def one(h, c):
    l = h.lib()
    mx = l.get_max_error()
    h.check(mx == 7, 'highest error is %d' % mx)
    w = c['what']
    if w == 'error':
        s = l.error_str(c['value'])
        v = c['value']
        if v < 0:
            h.check(s is not None and s.decode() == os.strerror(-v), 'error %d gives %r' % (v, s))
        elif v <= mx:
            h.check(s is not None, 'error %d has no text' % v)
            h.check(l.error_str(v) == s, 'error %d changes its text' % v)
        else:
            h.check(s is None, 'error %d beyond the last one gives %r' % (v, s))
    elif w == 'method':
        ms, i, exp = l.methods(), 0, None
        addr = C.cast(ms, C.c_void_p).value
        sz = C.sizeof(Method)
        nm = c['name'].encode() if c['name'] is not None else None
        while ms[i].name:
            h.check(ms[i].func and 0 <= ms[i].threshold <= 1 and ms[i].name, 'method %d is incomplete' % i)
            if exp is None and (nm is None or ms[i].name == nm):
                exp = addr + i * sz
            i += 1
        h.check(i >= 4, 'only %d methods' % i)
        h.check(l.get_method(nm) == exp, 'looking up %r gives the wrong method' % c['name'])
    else:
        rs, i, names = l.list_image_readers(), 0, []
        while rs[i]:
            names.append(rs[i].decode())
            i += 1
        h.check(len(set(names)) == len(names) and names, 'reader names %s' % names)
        # each listed name opens with that reader: a file only this reader accepts
        samples = {'PGM': b'P5\n2 2\n255\n\x00\x40\x80\xff', 'PFM': b'Pf\n2 2\n-1.0\n' + b'\0' * 16, 'Y4M': b'YUV4MPEG2 W2 H2 F1:1 Cmono\nFRAME\n\0\0\0\0'}
        for k in samples:
            h.check(k in [x.upper() for x in names], '%s is not listed in %s' % (k, names))
        p = os.path.join(h.outdir, 'in')
        for n in names:
            for k, d in samples.items():
                open(p, 'wb').write(d)
                wd, hh, b, e = SZ(), SZ(), C.c_void_p(), C.c_int()
                im = l.open_image_with_reader(p.encode(), n.encode(), C.byref(wd), C.byref(hh), C.byref(b), C.byref(e))
                if n.upper() in samples:
                    h.check(bool(im) == (k == n.upper()), 'reader %s on a %s file: %s' % (n, k, bool(im)))
                if im:
                    l.close_image(im)
                    l.free(b.value)


def run(h):
    for v in list(range(-140, 300)) + [2**31 - 1, 2**30, 255, 256, 257, -1000, -2**31 + 1]:
        h.case(what='error', value=v)
        one(h, h.kw)
    ms = h.lib().methods()
    names = []
    while ms[len(names)].name:
        names.append(ms[len(names)].name.decode())
    for n in [None, ''] + names + [x + 'x' for x in names] + [x[:-1] for x in names] + [x.upper() for x in names] + [' ' + x for x in names] + ['nope', 'a' * 1000]:
        h.case(what='method', name=n)
        one(h, h.kw)
    h.case(what='readers')
    one(h, h.kw)
