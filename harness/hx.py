"""Concrete replay harness: the library rebuilt from /repo's current sources with ASan/UBSan and allocation accounting,
driven through ctypes.  A harness module defines run(H); it calls H.case(...) before each case and H.fail(...) on a violation.
Executed as  python hx.py <module> <outdir> <seconds> <seed> [case-json]  under LD_PRELOAD=libasan."""
import ctypes as C
import importlib
import json
import os
import random
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'rdv'))
import build

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'fopen', 'fclose', 'fseek', 'fseeko']
WRAPF = ['fftwf_malloc', 'fftwf_free', 'fftwf_alloc_real', 'fftwf_plan_r2r_2d', 'fftwf_plan_r2r', 'fftwf_destroy_plan']


def build_lib(outdir, kind, san=True, defs=(), extra=()):
    """shared library of one configuration, without the ffmpeg and ImageMagick readers"""
    so = os.path.join(outdir, 'hx-%s%s%s.so' % (kind, '' if san else '-nosan', ''.join(d.replace('=', '_') for d in list(defs) + list(extra))))
    if os.path.exists(so):
        return so
    R = build.REPO
    flags = ['-std=gnu99', '-g', '-O1', '-w', '-fPIC', '-DUSE_BUILTIN_SIGNBIT', '-DHAVE_LIBJPEG=2', '-DHAVE_LIBPNG=1', '-DRESDET_EXPORT', '-fno-omit-frame-pointer', '-ffp-contract=off'] + list(defs)
    if san:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    srcs = [s for s in build.sources(kind)]
    if kind == 'kissfft':
        srcs = [s for s in srcs if not s.endswith('kfc.c')]
        nd = ['lib/kissfft/kiss_fftnd.c', 'lib/kissfft/kiss_fftndr.c']
        srcs += [s for s in nd if s not in srcs]
    td = os.path.join(outdir, 'o-%s-%d-%d' % (kind, san, abs(hash(tuple(defs) + tuple(extra))) % 10000))
    os.makedirs(td, exist_ok=True)
    ps = []
    objs = []
    for s in [os.path.join(R, s) for s in srcs] + [os.path.join(HERE, 'hooks.c')] + [os.path.join(HERE, e) for e in extra]:
        o = os.path.join(td, s.replace('/', '_') + '.o')
        objs.append(o)
        fl = flags if not s.endswith('hooks.c') else ['-O1', '-g', '-fPIC', '-w'] + (['-DHX_FFTW'] if kind == 'fftw' else [])
        ps.append((s, subprocess.Popen(['gcc'] + fl + build.inc() + ['-c', s, '-o', o], stderr=subprocess.PIPE)))
    for s, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError('cannot build %s: %s' % (s, err.decode()[-1500:]))
    wr = WRAP + (WRAPF if kind == 'fftw' else [])
    cmd = ['gcc', '-shared', '-o', so + '.tmp'] + (['-fsanitize=address,undefined'] if san else []) + objs + ['-Wl,-Bsymbolic', '-Wl,' + ','.join('--wrap=' + w for w in wr)]
    cmd += (['-lfftw3f'] if kind == 'fftw' else []) + ['-ljpeg', '-lpng', '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cannot link: ' + r.stderr[-1500:])
    os.rename(so + '.tmp', so)
    return so


class RES(C.Structure):
    _fields_ = [('index', C.c_size_t), ('confidence', C.c_float)]


RP = C.POINTER(RES)
SZ = C.c_size_t
FP = C.POINTER(C.c_float)


class Method(C.Structure):
    _fields_ = [('name', C.c_char_p), ('func', C.c_void_p), ('threshold', C.c_float)]


FUNC = C.CFUNCTYPE(C.c_int, C.c_void_p, SZ, SZ, SZ, SZ, SZ, C.c_void_p, C.c_void_p, C.c_void_p)
PROG = C.CFUNCTYPE(None, C.c_void_p, C.c_uint64)


class Lib:
    def __init__(self, so):
        l = self.l = C.CDLL(so)
        P = C.c_void_p

        def sig(n, r, *a):
            f = getattr(l, n)
            f.restype = r
            f.argtypes = a
            setattr(self, n.replace('resdet_', ''), f)
        sig('resdet_create_analysis', P, P, SZ, SZ, P, P)
        sig('resdet_analyze_image', C.c_int, P, P)
        sig('resdet_analysis_results', C.c_int, P, P, P, P, P)
        sig('resdet_destroy_analysis', None, P)
        sig('resdet_alloc_default_parameters', P)
        sig('resdet_parameters_set_range', C.c_int, P, SZ)
        sig('resdet_parameters_set_threshold', C.c_int, P, C.c_float)
        sig('resdet_parameters_set_compression_filter', C.c_int, P, C.c_uint8)
        sig('resdet_default_range', SZ)
        sig('resdet_methods', C.POINTER(Method))
        sig('resdet_get_method', P, C.c_char_p)
        sig('resdet_error_str', C.c_char_p, C.c_int)
        sig('resdetect', C.c_int, P, SZ, SZ, SZ, P, P, P, P, P, P)
        sig('resdetect_file', C.c_int, C.c_char_p, C.c_char_p, P, P, P, P, P, P)
        sig('resdet_open_image', P, C.c_char_p, C.c_char_p, P, P, P, P)
        sig('resdet_open_image_with_reader', P, C.c_char_p, C.c_char_p, P, P, P, P)
        sig('resdet_list_image_readers', C.POINTER(C.c_char_p))
        sig('resdet_get_max_error', C.c_int)
        sig('resdet_read_image_frame', C.c_bool, P, P, P)
        sig('resdet_seek_frame', C.c_bool, P, C.c_uint64, P, P, P)
        sig('resdet_close_image', None, P)
        sig('resdet_read_image', C.c_int, C.c_char_p, C.c_char_p, P, P, P, P)
        l.hx_free.argtypes = [P]
        self.free = l.hx_free
        for v in ('live', 'count', 'fail_at', 'bad_free', 'files', 'seek_fail_at', 'seeks', 'plans', 'frees'):
            setattr(self, '_' + v, C.c_long.in_dll(l, 'hx_' + v))
        self._max_alloc = C.c_size_t.in_dll(l, 'hx_max_alloc')
        self._biggest = C.c_size_t.in_dll(l, 'hx_biggest')
        self.reset = l.hx_reset

    def __getattr__(self, n):
        return self.__dict__['_' + n].value


_libc = C.CDLL(None)
_libc.malloc.restype = C.c_void_p
_libc.malloc.argtypes = [SZ]
_libc.free.argtypes = [C.c_void_p]


class Buf:
    """exactly sized block with sanitizer red zones around it"""

    def __init__(self, arr):
        import numpy as np
        a = np.ascontiguousarray(arr)
        self.dtype, self.n = a.dtype, a.nbytes
        self.p = _libc.malloc(max(self.n, 1))
        C.memmove(self.p, a.ctypes.data, self.n)
        self.copy0 = a.copy()

    def get(self):
        import numpy as np
        b = C.string_at(self.p, self.n)
        return np.frombuffer(b, dtype=self.dtype).copy()

    def free(self):
        if self.p:
            _libc.free(self.p)
            self.p = None

    __del__ = free


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class H:
    def __init__(self, mod, outdir, seconds, seed, case=None):
        self.mod, self.outdir, self.seed = mod, outdir, seed
        self.prop = mod.split('_')[-1].upper()
        self.skipped = 0
        self.knowns = set()
        pre = 'finding: property=%s ' % self.prop
        with open(os.path.join(HERE, '..', 'known_findings.txt')) as f:
            self.listed = {x[len(pre):].split()[0] for x in f if x.startswith(pre)}
        self.end = time.time() + seconds
        self.rnd = random.Random(seed)
        self.n = 0
        self.distinct = set()
        self.only = case
        self.samples = []
        self.cur = os.path.join(outdir, 'case-%s.json' % mod)
        self.libs = {}

    def lib(self, kind='fftw', san=True, defs=(), extra=()):
        k = (kind, san, tuple(defs), tuple(extra))
        if k not in self.libs:
            self.libs[k] = Lib(build_lib(self.outdir, kind, san, defs, extra))
            self.libs[k].san = san
        return self.libs[k]

    def more(self):
        return time.time() < self.end

    def case(self, **kw):
        """announce a case; written out first so that a crash identifies it"""
        self.n += 1
        s = json.dumps(kw, sort_keys=True, default=str)
        self.distinct.add(s if len(s) < 200 else hash(s))
        if len(self.samples) < 3:
            self.samples.append(kw)
        self.kw = kw
        with open(self.cur, 'w') as f:
            f.write(s)
        return True

    def known(self, key, msg):
        """a deviation that may be a recorded finding"""
        if key not in self.listed:
            raise Violation(msg)
        self.knowns.add(key)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, c, msg, tag=None):
        if not c:
            # a deviation that belongs to another property only ends the case
            if tag and self.prop not in tag:
                raise Skip(msg if isinstance(msg, str) else msg())
            raise Violation(msg if isinstance(msg, str) else msg())


def main():
    mod, outdir, seconds, seed = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    sys.path.insert(0, HERE)
    h = H(mod, outdir, seconds, seed)
    m = importlib.import_module(mod)
    try:
        if len(sys.argv) > 5:
            h.end = time.time() + 10**6
            try:
                h.kw = json.load(open(sys.argv[5]))
                m.one(h, h.kw)
            except Skip:
                pass
        else:
            m.run(h)
    except Violation as e:
        print('FOUND ' + json.dumps(dict(case=h.kw, what=str(e)), default=str))
        sys.exit(3)
    print('DONE ' + json.dumps(dict(n=h.n, distinct=len(h.distinct), samples=h.samples, known=sorted(h.knowns)), default=str))


def execute(mod, outdir, seconds, seed, casefile=None, hard=None):
    """run a harness in its own process -> dict(status='ok'|'found'|'error', ...)"""
    env = dict(os.environ)
    env['LD_PRELOAD'] = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip() + ' ' + \
        subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=67:print_stacktrace=1'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    cmd = [sys.executable, os.path.join(HERE, 'hx.py'), mod, outdir, str(seconds), str(seed)] + ([casefile] if casefile else [])
    cur = os.path.join(outdir, 'case-%s.json' % mod)
    if os.path.exists(cur):
        os.remove(cur)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, timeout=hard or seconds + 120, cwd=outdir)
    except subprocess.TimeoutExpired:
        if os.path.exists(cur):
            c = json.load(open(cur))
            if time.time() - os.path.getmtime(cur) > 90:
                return dict(status='found', case=c, what='the call did not return within 90 s', output='')
        return dict(status='error', what='harness time limit')
    out = r.stdout + r.stderr
    for l in r.stdout.splitlines():
        if l.startswith('FOUND '):
            d = json.loads(l[6:])
            return dict(status='found', output=out[-4000:], **d)
        if l.startswith('DONE '):
            return dict(status='ok', wall=time.time() - t0, **json.loads(l[5:]))
    if os.path.exists(cur) and (r.returncode in (66, 67) or r.returncode < 0 or 'ERROR: AddressSanitizer' in out or 'runtime error' in out):
        i = out.find('ERROR: AddressSanitizer')
        if i < 0:
            i = out.find('runtime error')
        return dict(status='found', case=json.load(open(cur)), what='sanitizer or crash (exit %d): %s' % (r.returncode, out[max(i, 0):][:300]), output=out[-6000:])
    return dict(status='error', what='harness failed: ' + out[-2000:])


if __name__ == '__main__':
    main()
