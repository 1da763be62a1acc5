"""C23: calls on distinct objects do not influence each other: interleaved, repeated and concurrent histories give what each gives alone
in a fresh process; the library's global data and the inputs stay as they were."""
import hashlib
import os
import subprocess
import tempfile
import threading
import h_c24
from h_ana import image, mkparams, Out
from files import *
from hx import *

EXTRA = ('acc.c', 'jpegtool.c')
LOCK = threading.Lock()     # FFTW's planner is not reentrant, as documented


def globals_of(h, l, kind):
    """(name, address, size) of the writable global objects of the library"""
    so = [f for f in os.listdir(h.outdir) if f.startswith('hx-%s' % kind) and f.endswith('.so') and 'acc.c' in f][0]
    own, hooks = set(), set()
    for d in os.listdir(h.outdir):
        if d.startswith('o-%s-' % kind):
            for o in os.listdir(os.path.join(h.outdir, d)):
                s = subprocess.run(['nm', os.path.join(h.outdir, d, o)], capture_output=True, text=True).stdout
                names = {x.split()[-1] for x in s.splitlines() if len(x.split()) >= 2 and x.split()[-2] in 'bBdDC'}
                (hooks if any(t in o for t in ('hooks', 'acc', 'jpegtool')) else own).update(names)
    out, ref = [], None
    for x in subprocess.run(['nm', '-S', os.path.join(h.outdir, so)], capture_output=True, text=True).stdout.splitlines():
        x = x.split()
        if x[-1] == 'resdet_error_str':
            ref = int(x[0], 16)
        if len(x) == 4 and x[3] in own - hooks and x[2] in 'bBdD' and not x[3].startswith(('__', '.L', '_')):
            out.append((x[3], int(x[0], 16), int(x[1], 16)))
    base = C.cast(l.l.resdet_error_str, C.c_void_p).value - ref
    return [(n, base + a, s) for n, a, s in out if 0 < s < 1 << 20]


def snap(g):
    return {(n, a): C.string_at(a, s) for n, a, s in g}


def data(h, fmt, seed):
    r = random.Random(seed)
    w, hh = r.randint(1, 9), r.randint(1, 9)
    n = r.randint(1, 3)
    rb = lambda k: bytes(r.randrange(256) for _ in range(k))
    if fmt == 'pgm':
        mv = r.choice((255, 65535, 100))
        px = lambda: rb(w * hh * 2) if mv > 255 else bytes(x % (mv + 1) for x in rb(w * hh))
        return b''.join(b'P5\n# c\n%d %d\n%d\n' % (w, hh, mv) + px() for _ in range(n))
    if fmt == 'pfm':
        t = r.choice((b'Pf', b'PF'))
        return b''.join(t + b'\n%d %d\n%s\n' % (w, hh, r.choice((b'-1.0', b'1.0'))) + np.random.RandomState(seed).rand(w * hh * (3 if t == b'PF' else 1)).astype(F32).tobytes() for _ in range(n))
    if fmt == 'y4m':
        return b'YUV4MPEG2 W%d H%d Cmono\n' % (w, hh) + b''.join(b'FRAME\n' + rb(w * hh) for _ in range(n))
    if fmt == 'png':
        return h_c24.png(dict(w=w, h=hh, color=r.choice((0, 2, 6)), depth=8, trns=0, inter=r.randint(0, 1), seed=seed % 1000))[0]
    return h_c24.jpeg(h, dict(fmt='jpeg', w=w, h=hh, ch=r.choice((1, 3)), quality=80, flags=0, seed=seed % 1000))[0]


class Note:
    def __init__(self):
        self.v = []

    def __call__(self, *a):
        self.v.append(a)

    def digest(self):
        return hashlib.sha256(repr(self.v).encode()).hexdigest(), self.v


def analysis(h, l, c, note):
    m = l.get_method(c['method'].encode())
    mb = C.string_at(m, 24)
    p = mkparams(l, c['params'])
    n = l.l.hx_params_size()
    pb = C.string_at(p, n) if p else None
    e = C.c_int(9)
    yield
    with LOCK:
        a = l.create_analysis(m, c['w'], c['h'], p, C.addressof(e))
    note('create', bool(a), e.value)
    yield
    for k, s in c['images']:
        img = image(h, k, c['w'], c['h'], s)
        b = Buf(img)
        note('analyze', l.analyze_image(a, b.p))
        h.check(np.array_equal(b.get().view(np.uint32), img.reshape(-1).view(np.uint32)), 'analysing changed the image')
        b.free()
        yield
    o = Out(15)
    note('results', l.analysis_results(a, *o.args()))
    note(o.lists(l))
    yield
    with LOCK:
        l.destroy_analysis(a)
    h.check(C.string_at(m, 24) == mb, 'the method was changed')
    h.check(not p or C.string_at(p, n) == pb, 'the parameters were changed')
    if p:
        l.free(p)


def bulk(h, l, c, note):
    img = np.stack([image(h, k, c['w'], c['h'], s) for k, s in c['images']])
    b = Buf(img)
    m = l.get_method(c['method'].encode())
    p = mkparams(l, c['params'])
    n = l.l.hx_params_size()
    pb = C.string_at(p, n) if p else None
    yield
    o = Out(15)
    with LOCK:
        note('resdetect', l.resdetect(b.p, len(img), c['w'], c['h'], *o.args(), m, p))
    note(o.lists(l))
    h.check(np.array_equal(b.get().view(np.uint32), img.reshape(-1).view(np.uint32)), 'resdetect changed the images')
    h.check(not p or C.string_at(p, n) == pb, 'the parameters were changed')
    if p:
        l.free(p)


def file(h, l, c, note):
    d = data(h, c['fmt'], c['seed'])
    fd, path = tempfile.mkstemp(suffix='.' + c['fmt'], dir=h.outdir)
    os.write(fd, d)
    os.close(fd)
    name = C.create_string_buffer(path.encode())
    kind = C.create_string_buffer(c['fmt'].encode())
    try:
        yield
        w, hh, e, img = SZ(), SZ(), C.c_int(9), C.c_void_p()
        p = l.open_image(C.cast(name, C.c_char_p), C.cast(kind, C.c_char_p), C.addressof(w), C.addressof(hh), C.addressof(img), C.addressof(e))
        note('open', bool(p), w.value, hh.value, e.value)
        if not p:
            return
        size = w.value * hh.value * 4
        for op in c['ops']:
            yield
            e.value = 9
            if op == 'r':
                r = l.read_image_frame(p, img, C.addressof(e))
                note('read', bool(r), e.value, hashlib.md5(C.string_at(img.value, size)).hexdigest() if r else None)
            else:
                q = C.c_uint64(99)
                r = l.seek_frame(p, op, None, C.addressof(q), C.addressof(e))
                note('seek', bool(r), e.value, q.value)
        yield
        l.close_image(p)
        l.free(img.value)
        if c.get('all'):
            yield
            n = SZ()
            e.value = 9
            w2, h2 = SZ(), SZ()
            im = C.c_void_p()
            note(l.read_image(C.cast(name, C.c_char_p), C.cast(kind, C.c_char_p), C.addressof(im), C.addressof(n), C.addressof(w2), C.addressof(h2)), n.value, w2.value, h2.value)
            if im.value:
                note(hashlib.md5(C.string_at(im.value, n.value * w2.value * h2.value * 4)).hexdigest())
                l.free(im.value)
        h.check(name.value == path.encode() and kind.value == c['fmt'].encode(), 'the name or type given was changed')
    finally:
        os.remove(path)


def tables(h, l, c, note):
    for _ in range(c['times']):
        ms, i = l.methods(), 0
        while ms[i].name:
            note(ms[i].name, ms[i].threshold, l.get_method(ms[i].name.upper()) == l.get_method(ms[i].name))
            i += 1
        yield
        for e in range(-2, 12):
            note(l.error_str(e))
        rs, i = l.list_image_readers(), 0
        while rs[i]:
            note(rs[i])
            i += 1
        yield
        p = l.alloc_default_parameters()
        note(C.string_at(p, l.l.hx_params_size()), l.default_range(), l.parameters_set_range(p, c['seed'] % 5), l.parameters_set_threshold(p, c['seed'] % 3 * .7), l.parameters_set_compression_filter(p, c['seed'] % 40), C.string_at(p, l.l.hx_params_size()) != b'')
        l.free(p)


ACTORS = dict(analysis=analysis, bulk=bulk, file=file, tables=tables)


def alone(h, l, c):
    """what the history gives by itself in a fresh process"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            n = Note()
            for _ in ACTORS[c['actor']](h, l, c, n):
                pass
            os.write(w, n.digest()[0].encode())
            os._exit(0)
        except Violation as e:
            os.write(w, ('!' + str(e)).encode()[:4000])
            os._exit(0)
        except BaseException as e:
            os.write(w, ('?' + repr(e)).encode()[:4000])
            os._exit(1)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 8192)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    b = b.decode()
    h.check(not b.startswith('!'), b[1:])
    if b.startswith('?') or not b:
        raise RuntimeError('a history alone ended without a result: ' + b)
    return b


STATE, ALONE = {}, {}


def one(h, c):
    kind = c['kind']
    l = h.lib(kind, extra=EXTRA)
    l.l.hx_params_size.restype = SZ
    if kind not in STATE:
        g = globals_of(h, l, kind)
        STATE[kind] = (g, snap(g))
    g, before = STATE[kind]
    for a in c['actors']:
        k = kind + repr(sorted(a.items()))
        if k not in ALONE:
            ALONE[k] = alone(h, l, a)
    want = [ALONE[kind + repr(sorted(a.items()))] for a in c['actors']]
    notes = [Note() for _ in c['actors']]
    gens = [ACTORS[a['actor']](h, l, a, n) for a, n in zip(c['actors'], notes)]
    if c['how'] == 'threads':
        errs = []

        def go(gen):
            try:
                for _ in gen:
                    pass
            except BaseException as e:
                errs.append(e)
        ths = [threading.Thread(target=go, args=(x,)) for x in gens]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
    else:
        r = random.Random(c['seed'])
        live = list(gens)
        while live:
            x = live[0] if c['how'] == 'sequence' else r.choice(live)
            try:
                next(x)
            except StopIteration:
                live.remove(x)
    for a, n, w in zip(c['actors'], notes, want):
        h.check(n.digest()[0] == w, lambda: '%s gives something else %s with the other calls than alone: %s' % (a, 'interleaved' if c['how'] != 'threads' else 'concurrently', str(n.v)[:300]))
    after = snap(g)
    ch = [k[0] for k in before if before[k] != after[k]]
    h.check(not ch, 'global data of the library changed: %s' % ', '.join(ch))


def actor(r):
    k = r.choice(('analysis', 'analysis', 'analysis', 'bulk', 'file', 'file', 'tables'))
    if k in ('analysis', 'bulk'):
        return dict(actor=k, method=r.choice(('sign', 'mag', 'orig', 'zerox')), w=r.randint(1, 40), h=r.randint(1, 40), images=[(r.choice(('rand', 'flat', 'grad')), r.randint(0, 99)) for _ in range(r.randint(1, 3))],
                    params=r.choice((None, dict(range=r.randint(1, 6), th=0.0), dict(range=2, th=.1, cf=r.randint(0, 3)))))
    if k == 'file':
        return dict(actor=k, fmt=r.choice(('pgm', 'pfm', 'y4m', 'png', 'jpeg')), seed=r.randint(0, 10**6), ops=[r.choice(('r', 'r', 0, 1)) for _ in range(r.randint(1, 4))], all=r.random() < .5)
    return dict(actor=k, seed=r.randint(0, 99), times=2)


def run(h):
    r = h.rnd
    first = [dict(actor='tables', seed=3, times=1)]
    for m in ('sign', 'mag', 'orig', 'zerox'):
        A = dict(actor='analysis', method=m, w=24, h=17, images=[('rand', 1), ('grad', 2)], params=dict(range=3, th=0.0))
        B = dict(A, w=33, h=20, images=[('rand', 3), ('rand', 4)])
        for kind in ('kissfft', 'fftw'):
            for how in ('sequence', 'mixed', 'threads'):
                h.case(kind=kind, how=how, seed=1, actors=[A, B, A, dict(B, params=None)] + first)
                one(h, h.kw)
    for f in ('pgm', 'pfm', 'y4m', 'png', 'jpeg'):
        A = dict(actor='file', fmt=f, seed=5, ops=['r', 'r', 0, 'r'], all=True)
        for how in ('sequence', 'mixed', 'threads'):
            h.case(kind='fftw', how=how, seed=2, actors=[A, dict(A, seed=6), A, dict(A, seed=7, ops=['r', 1, 'r'])])
            one(h, h.kw)
    while h.more():
        a = [actor(r) for _ in range(r.randint(2, 5))]
        if r.random() < .5:
            a.append(a[0])
        h.case(kind=r.choice(('kissfft', 'fftw')), how=r.choice(('sequence', 'mixed', 'mixed', 'threads')), seed=r.randint(0, 10**6), actors=a)
        one(h, h.kw)
