"""Mechanical extraction: /repo's current sources -> LLVM IR (clang -O0, registers promoted) -> Module."""
import os
import subprocess
import sys
import tempfile
import hashlib
from concurrent.futures import ThreadPoolExecutor
from ir import Module, Unsupported

REPO = os.environ.get('RDV_REPO', '/repo')
BASE = ['-std=c99', '-D_POSIX_C_SOURCE=200809L', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
        '-ffp-contract=off', '-D__NO_CTYPE', '-DUSE_BUILTIN_SIGNBIT', '-DHAVE_LIBJPEG=2', '-DHAVE_LIBPNG=1', '-DHAVE_FFMPEG=1',
        '-DHAVE_MAGICKWAND=6', '-DRESDET_EXPORT', '-w']
SKIP = {'lib/image/ffmpeg.c', 'lib/image/magickwand.c', 'lib/kissfft/kfc.c', 'lib/kissfft/kiss_fftnd.c', 'lib/kissfft/kiss_fftndr.c'}


MEDIA = ('lib/image/ffmpeg.c', 'lib/image/magickwand.c')


def media_flags(src):
    """where the headers of the media libraries are"""
    if src not in MEDIA:
        return []
    r = subprocess.run(['pkg-config', '--cflags', 'MagickWand', 'libavformat', 'libavcodec', 'libswscale'], capture_output=True, text=True)
    f = [x for x in r.stdout.split() if x != '-fopenmp'] if r.returncode == 0 else []
    return f or ['-I/usr/include/x86_64-linux-gnu/ImageMagick-6', '-I/usr/include/ImageMagick-6', '-DMAGICKCORE_HDRI_ENABLE=0', '-DMAGICKCORE_QUANTUM_DEPTH=16', '-I/usr/include/x86_64-linux-gnu']


class ExtractError(Unsupported):
    pass


def inc():
    return ['-I%s/include' % REPO, '-I%s/lib' % REPO, '-I%s/lib/kissfft' % REPO]


def sources(kind):
    """library sources of one configuration ('fftw' or 'kissfft'); 'media' adds the FFmpeg and MagickWand readers, 'cli' the command line tool"""
    out = []
    for d in ('lib', 'lib/image'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith('.c'):
                out.append(d + '/' + f)
    if kind != 'kissfft':
        out.append('lib/transform/fftw.c')
    else:
        out.append('lib/transform/kiss_fft.c')
        for f in sorted(os.listdir(os.path.join(REPO, 'lib/kissfft'))):
            if f.endswith('.c'):
                out.append('lib/kissfft/' + f)
    if kind == 'cli':
        out.append('src/resdet.c')
    return [s for s in out if s not in SKIP or kind == 'media' and s in MEDIA]


def compile_one(src, defs, outdir):
    o = os.path.join(outdir, hashlib.sha1((src + ' '.join(defs)).encode()).hexdigest()[:12])
    base = BASE if not src.startswith('src/') else ['-std=gnu99'] + BASE[2:]      # as Makefile's CFLAGS_LIB and CFLAGS_CLI
    cmd = ['clang-18'] + base + list(defs) + inc() + media_flags(src) + ['-S', '-emit-llvm', os.path.join(REPO, src), '-o', o + '.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('cannot extract %s: %s' % (src, r.stderr[-800:]))
    r = subprocess.run(['opt-18', '-passes=mem2reg', '-S', o + '.ll', '-o', o + '.m.ll'], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('opt failed on %s: %s' % (src, r.stderr[-800:]))
    return open(o + '.m.ll').read()


def extract(kind='fftw', defs=(), only=None, extra=()):
    """-> dict source name -> Module; extra: client programs of the specifications (drivers/)"""
    srcs = [s for s in sources(kind) if only is None or any(s.endswith(x) for x in only)]
    srcs += [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drivers', x + '.c') for x in extra]
    with tempfile.TemporaryDirectory(prefix='rdv-ir-') as td:
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: compile_one(s, defs, td), srcs))
    mods = {}
    for s, t in zip(srcs, texts):
        nm = os.path.basename(s)[:-2]
        if nm in mods:
            nm = s.lstrip('/').replace('/', '_')[:-2]      # e.g. src/resdet.c beside lib/resdet.c
        mods[nm] = Module(nm, t)
    return mods


def source_hash():
    h = hashlib.sha256()
    for root in ('lib', 'include', 'src'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                if f.endswith(('.c', '.h')):
                    h.update(f.encode())
                    h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()
