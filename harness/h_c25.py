"""C25: the command line tool, built from src/resdet.c and the library with sanitizers, against what the library itself gives for the
same file and options; option values, frame limits, start frames, failures at every call and scripted detection outcomes."""
import os
import subprocess
import tempfile
import h_c23
from h_ana import mkparams, Out
from hx import *
from files import *

WRAPC = ['resdet_create_analysis', 'resdet_analyze_image', 'resdet_read_image_frame', 'resdet_analysis_results']
READERS = dict(pgm='PGM', pfm='PFM', y4m='Y4M', png='libpng', jpeg='libjpeg')
libc = C.CDLL(None)


def fmt(f, *a):
    b = C.create_string_buffer(400)
    libc.snprintf(b, C.c_size_t(400), f.encode(), *[C.c_double(x) if isinstance(x, float) else C.c_size_t(x) for x in a])
    return b.value.decode()


def cli(h):
    exe = os.path.join(h.outdir, 'cli')
    if os.path.exists(exe):
        return exe
    R = build.REPO
    fl = ['-std=gnu99', '-g', '-O1', '-w', '-DUSE_BUILTIN_SIGNBIT', '-DHAVE_LIBJPEG=2', '-DHAVE_LIBPNG=1', '-DRESDET_EXPORT', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    td = os.path.join(h.outdir, 'o-cli')
    os.makedirs(td, exist_ok=True)
    ps, objs = [], []
    for s in [os.path.join(R, s) for s in build.sources('fftw') + ['src/resdet.c']] + [os.path.join(HERE, x) for x in ('hooks.c', 'clihooks.c')]:
        o = os.path.join(td, s.replace('/', '_') + '.o')
        objs.append(o)
        f = ['-O1', '-g', '-w', '-DHX_FFTW'] if 'hooks' in s else fl
        ps.append((s, subprocess.Popen(['gcc'] + f + build.inc() + ['-c', s, '-o', o], stderr=subprocess.PIPE)))
    for s, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError('cannot build %s: %s' % (s, err.decode()[-1500:]))
    r = subprocess.run(['gcc', '-o', exe + '.tmp', '-fsanitize=address,undefined'] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAP + WRAPF + WRAPC), '-lfftw3f', '-ljpeg', '-lpng', '-lm'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cannot link: ' + r.stderr[-1500:])
    os.rename(exe + '.tmp', exe)
    return exe


def upscaled(seed):
    """a small file whose images were enlarged, so that there is something to detect"""
    r = np.random.RandomState(seed)
    w, hh = r.randint(6, 20), r.randint(6, 20)
    W, HH = w + r.randint(0, 20), hh + r.randint(0, 20)
    out = b''
    for _ in range(r.randint(1, 5)):
        a = r.rand(hh, w)

        def mat(n, m):
            k, j = np.arange(n)[:, None], np.arange(n)[None, :]
            d = np.cos(np.pi * k * (2 * j + 1) / (2.0 * n))
            k2, j2 = np.arange(n)[:, None], np.arange(m)[None, :]
            e = np.cos(np.pi * k2 * (2 * j2 + 1) / (2.0 * m)) * np.where(k2 == 0, 1, 2) / n
            return d.T @ np.eye(n) if False else (e.T @ d)
        b = mat(hh, HH) @ a @ mat(w, W).T
        out += b'Pf\n%d %d\n-1.0\n' % (W, HH) + b.astype(F32).tobytes()
    return out


BAD = {'v': (), 'm': ('bogus', '', 'sig'), 't': (), 'R': ('bogus', '', 'PG'), 'x': ('abc', '', '-1', '101', '1e9', 'inf'), 'r': ('abc', '', '0'), 'f': ('abc', '', '256', '999999', '-1', '31337'),
       'o': ('abc', ''), 'n': ('abc', '', '0'), '?': ('-z', '-Q')}


def atoi(s):
    m = re.match(r'\s*[+-]?\d+', s)
    return int(m.group()) if m else 0


def expect(h, l, c, path, fmtname):
    """-> dict(rc=, out=, err=) with out/err None when not fixed; 'created': analysis may have started"""
    o = {}
    for k, v in c['args']:
        if k == '?':
            return dict(rc=1, err=True, out='', created=0)
        if k == 'h':
            return dict(rc=0, out=None, err=None, created=0)
        if k == 'V':
            rs, i = l.list_image_readers(), 0
            names = []
            while rs[i]:
                names.append(rs[i].decode())
                i += 1
            ver = C.c_char_p(C.cast(l.l.resdet_libversion, C.CFUNCTYPE(C.c_void_p))()).value.decode()
            return dict(rc=0, tail='\nlibresdet version %s\nBuilt with image readers: %s\n' % (ver, ', '.join(names)), out=None, err=None, created=0)
        if k == 'R':
            rs, i = l.list_image_readers(), 0
            names = []
            while rs[i]:
                names.append(rs[i].decode())
                i += 1
            if v.lower() not in [x.lower() for x in names]:
                if v == 'list':
                    return dict(rc=0, out=''.join(x + '\n' for x in names), err=None, created=0)
                return dict(rc=1, err=True, out=None, created=0)
        if k == 'o' and not re.match(r'\d', v):
            return dict(rc=1, err=True, out='', created=0)
        if k == 'n' and (not re.match(r'\d', v) or not int(v)):
            return dict(rc=1, err=True, out='', created=0)
        o[k] = v
    bad = dict(rc=1, err=True, out='', created=0)
    if c.get('noinput'):
        return bad
    m = l.get_method(o['m'].encode() if 'm' in o else None)
    if not m:
        return bad
    p = l.alloc_default_parameters()
    try:
        if 'x' in o:
            if not re.match(r'-?\d|inf', o['x']) or l.parameters_set_threshold(p, F32(float(o['x']) / 100)):
                return bad
        if 'r' in o:
            if not re.match(r'\d', o['r']) or l.parameters_set_range(p, int(o['r'])):
                return bad
        if 'f' in o and o['f'] != 'auto':
            if not re.match(r'\d', o['f']) or int(o['f']) > 255 or l.parameters_set_compression_filter(p, int(o['f'])):
                return bad
        if 'R' in o and 't' in o:
            return bad
        w, hh, e, img = SZ(), SZ(), C.c_int(9), C.c_void_p()
        if 'R' in o:
            im = l.open_image_with_reader(path.encode(), o['R'].encode(), C.addressof(w), C.addressof(hh), C.addressof(img), C.addressof(e))
        else:
            im = l.open_image(path.encode(), o['t'].encode() if 't' in o else None, C.addressof(w), C.addressof(hh), C.addressof(img), C.addressof(e))
        err = lambda e, n: dict(rc=1, err=l.error_str(e).decode(), out='', created=n)
        if not im or e.value:
            return err(e.value, 0)
        a = None
        try:
            if int(o.get('o', 0)):
                if not l.seek_frame(im, int(o['o']), None, None, C.addressof(e)):
                    return err(e.value, 0) if e.value else bad
            if o.get('f') == 'auto':
                x = path.rsplit('.', 1)[1].lower() if '.' in path else ''
                l.parameters_set_compression_filter(p, dict(jpeg=3, jpg=3, mp4=3, mkv=3, webp=2, webm=2, avif=5, heic=5).get(x, 0))
            if c.get('cerr'):
                return err(c['cerr'], 1)
            a = l.create_analysis(m, w.value, hh.value, p, C.addressof(e))
            if e.value:
                return err(e.value, 1)
            n = 0
            k = 0
            while True:
                k += 1
                if k == c.get('rfail'):
                    if c['rerr']:
                        return err(c['rerr'], 1)
                    break
                if not l.read_image_frame(im, img, C.addressof(e)):
                    if e.value:
                        return err(e.value, 1)
                    break
                if k == c.get('afail'):
                    return err(c['aerr'], 1)
                r = l.analyze_image(a, img)
                if r:
                    return err(r, 1)
                n += 1
                if n == int(o.get('n', -1)):
                    break
            if not n:
                return dict(bad, created=1)
            if c.get('xerr'):
                return err(c['xerr'], 1)
            out = Out(15)
            if c.get('res'):
                rw, rh = c['res']
            else:
                r = l.analysis_results(a, *out.args())
                if r:
                    return err(r, 1)
                rw, rh = out.lists(l)[:2]
                rw, rh = [list(x) for x in rw], [list(x) for x in rh]
            rw, rh = [(i, F32(x)) for i, x in rw], [(i, F32(x)) for i, x in rh]
        finally:
            l.destroy_analysis(a)
            l.close_image(im)
            l.free(img.value)
    finally:
        l.free(p)
    v = atoi(o['v']) if 'v' in o else -1
    if v == 0:
        return dict(rc=int(len(rw) == 1 and len(rh) == 1), out='', created=1, err=None, n=n)
    pc = lambda x: float(x * F32(100))
    if v == 1:
        s = '%d %d\n' % (rw[0][0], rh[0][0])
    elif v in (2, 3):
        s = ''.join(''.join('%d' % i + (fmt(':%f', float(x)) if v == 3 else '') + ' ' for i, x in q) + '\n' for q in (rw, rh))
    else:
        s = 'given: %dx%d\nbest guess: %dx%d%s\n' % (rw[-1][0], rh[-1][0], rw[0][0], rh[0][0], ' (not upsampled)' if len(rw) == 1 and len(rh) == 1 else '')
        cw, ch = len(rw) - 1, len(rh) - 1
        if max(cw, ch):
            s += 'all width        height\n'
        for i in range(max(cw, ch)):
            s += fmt('%5zu (%5.2f%%)   ', rw[i][0], pc(rw[i][1])) if i < cw else ' ' * 17
            s += fmt('%5zu (%5.2f%%)', rh[i][0], pc(rh[i][1])) if i < ch else ''
            s += '\n'
    return dict(rc=0, out=s, err=None, created=1, n=n)


def one(h, c):
    l = h.lib('fftw', extra=h_c23.EXTRA)
    exe = cli(h)
    d = upscaled(c['seed']) if c['fmt'] == 'up' else h_c23.data(h, c['fmt'], c['seed'])
    f = 'pfm' if c['fmt'] == 'up' else c['fmt']
    if c.get('cut'):
        d = d[:max(0, len(d) - c['cut'])]
    with tempfile.TemporaryDirectory(dir=h.outdir) as td:
        path = os.path.join(td, 'in.' + c.get('ext', f))
        if not c.get('missing'):
            with open(path, 'wb') as fo:
                fo.write(d)
        want = expect(h, l, c, path, f)
        args = []
        for k, v in c['args']:
            args += [v] if k == '?' else ['-' + k] + ([v] if v is not None else [])
        if c.get('noarg'):
            args += [c['noarg']]
            want = dict(rc=1, err=True, out='', created=0) if want['rc'] or want.get('created') else want
        elif not c.get('noinput'):
            args += [path]
        rp, wp = os.pipe()
        env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        env['HX_FD'] = str(wp)
        for k in ('fail_at', 'afail', 'aerr', 'rfail', 'rerr', 'xerr', 'cerr'):
            if c.get(k):
                env['HX_' + k.upper()] = str(c[k])
        if c.get('res'):
            env['HX_RES'] = ';'.join(','.join('%d:%r' % (i, x) for i, x in q) for q in c['res'])
        try:
            r = subprocess.run([exe] + args, capture_output=True, env=env, pass_fds=(wp,), timeout=60)
        except subprocess.TimeoutExpired:
            h.fail('the tool does not end: %s' % args)
        finally:
            os.close(wp)
            tally = os.read(rp, 100).split()
            os.close(rp)
    out, err = r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    what = lambda m: '%s: resdet %s gives status %d, output %r, messages %r' % (m, ' '.join(args), r.returncode, out[:300], err[-300:])
    h.check(r.returncode not in (66, 67, 99) and r.returncode >= 0, what('crash'))
    h.check(len(tally) == 3, what('abnormal end'))
    if c.get('fail_at'):
        if r.returncode == 0 and want['rc'] == 0:
            h.check(want['out'] is None or out == want['out'], what('after a failed allocation, expected %r' % want['out']))
        else:
            h.check(r.returncode == 1, what('expected an error status'))
            h.check(err or want['rc'] == 1, what('no message'))
        return
    h.check(r.returncode == want['rc'], what('expected status %d' % want['rc']))
    if want['out'] is not None:
        h.check(out == want['out'], what('expected %r' % want['out']))
    if want.get('tail'):
        h.check(out.endswith(want['tail']) and out.startswith('resdet version '), what('expected %r' % want['tail']))
    if want['err']:
        h.check(err.strip() and (want['err'] is True or want['err'] in err), what('expected a message %s' % want['err']))
    if not want['created']:
        h.check(int(tally[0]) == 0, what('the analysis was started'))
    if 'n' in want:
        h.check(int(tally[1]) == want['n'], what('%d frames analysed instead of %d' % (int(tally[1]), want['n'])))


def rnd_args(r, f):
    a = []
    for k, vs in (('v', ('-1', '0', '1', '2', '3', '4', 'x')), ('m', ('sign', 'mag', 'orig', 'zerox', 'SIGN')), ('x', ('0', '0', '0', '10', '100', '33.3', '1e1')), ('r', ('1', '2', '3', '5', '12')),
                  ('f', ('0', '1', '3', '5', 'auto')), ('o', ('0', '1', '2', '3', '99')), ('n', ('1', '2', '3', '50')), ('p', (None,)), ('t', (f,)), ('R', (READERS[f], READERS[f].lower()))):
        if r.random() < (.35 if k not in 'tR' else .15):
            a.append((k, r.choice(vs)))
    r.shuffle(a)
    if r.random() < .15:
        a += [r.choice(a)] if a else []
    return a


def run(h):
    r = h.rnd
    base = dict(fmt='up', seed=3)

    def case(**kw):
        h.case(**dict(base, **kw))
        one(h, h.kw)
    # every verbosity and result shape
    for v in ('-1', '0', '1', '2', '3', '7'):
        for s in (1, 2, 3):
            case(args=[('v', v), ('x', '0')], seed=s)
        for res in ([[(5, 1.0)], [(6, 1.0)]], [[(5, .9), (8, 1.0)], [(6, 1.0)]], [[(8, 1.0)], [(3, .75), (6, 1.0)]], [[(1, .9), (2, .8), (3, .7), (10, .1)], [(4, .99), (6, .5)]],
                    [[(100000, .123456), (123456, 1.0)], [(4, .99), (5, .42), (6, .5), (99999, 0.0)]]):
            case(args=[('v', v)], res=res)
    # options that are refused
    for k, vs in BAD.items():
        for v in vs:
            case(args=[(k, v)])
            case(args=[('v', '2'), (k, v), ('x', '0')])
            case(args=[(k, v)], missing=True)
    case(args=[('R', 'PFM'), ('t', 'pfm')])
    case(args=[('t', 'pfm'), ('R', 'libpng')])
    for k in 'vmtxrnoRf':
        case(args=[('x', '0')], noarg='-' + k)
    for a in ([('h', None)], [('V', None)], [('R', 'list')], [], [('v', '2')], [('R', 'LIST')]):
        case(args=a, noinput=True)
    # frames: limits and starts
    for s in (2, 4, 5, 7):
        for n in ('1', '2', '3', '9', '18446744073709551615'):
            case(args=[('n', n), ('x', '0'), ('v', '3')], seed=s)
        for o in ('0', '1', '2', '4', '5', '9'):
            case(args=[('o', o), ('x', '0'), ('v', '3'), ('p', None)], seed=s)
            case(args=[('o', o), ('n', '2'), ('x', '0'), ('v', '2')], seed=s)
    for f in ('pgm', 'y4m', 'png', 'jpeg', 'pfm'):
        case(args=[('x', '0'), ('r', '1')], fmt=f)
        case(args=[('x', '0'), ('R', READERS[f])], fmt=f, ext='dat')
        case(args=[('x', '0'), ('t', f)], fmt=f, ext='dat')
        case(args=[('x', '0')], fmt=f, cut=1)
        case(args=[('t', 'bogus'), ('v', '1')], fmt=f)
        case(args=[('f', 'auto'), ('x', '0'), ('v', '3')], fmt=f)
    for x in ('jpg', 'JPG', 'jpeg', 'mp4', 'mkv', 'webp', 'webm', 'avif', 'heic', 'AVIF', 'pfm'):
        case(args=[('f', 'auto'), ('x', '0'), ('v', '3'), ('R', 'PFM'), ('r', '2')], ext=x, seed=11)
    # failures
    for v in ('-1', '0', '2'):
        case(args=[('v', v)], missing=True)
        for e in range(1, 8):
            case(args=[('v', v)], xerr=e)
            case(args=[('v', v)], cerr=e)
            for k in (1, 2, 3):
                case(args=[('v', v)], afail=k, aerr=e, seed=7)
                case(args=[('v', v)], rfail=k, rerr=e, seed=7)
        for k in (1, 2, 3):
            case(args=[('v', v)], rfail=k, rerr=0, seed=7)
    for k in range(1, 16):
        case(args=[('x', '0'), ('v', '3')], fail_at=k)
        case(args=[('x', '0')], fail_at=k, fmt='y4m')
    while h.more():
        f = r.choice(('up', 'up', 'up', 'pgm', 'y4m', 'png', 'jpeg', 'pfm'))
        c = dict(fmt=f, seed=r.randint(0, 10**5), args=rnd_args(r, 'pfm' if f == 'up' else f))
        if r.random() < .15:
            k = r.choice([k for k in BAD if BAD[k]])
            c['args'].insert(r.randint(0, len(c['args'])), (k, r.choice(BAD[k])))
        if r.random() < .2:
            c['cut'] = r.randint(1, 200)
        if r.random() < .1:
            c['fail_at'] = r.randint(1, 30)
        case(**c)
