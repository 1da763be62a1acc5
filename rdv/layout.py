"""Struct layouts and constants of the current tree, obtained from the compiler."""
import os
import subprocess
import tempfile
import build
from ir import Module, Unsupported

FIELDS = {
    'RDParameters': ('struct RDParameters', ['range', 'threshold', 'compression_filter']),
    'RDResolution': ('RDResolution', ['index', 'confidence']),
    'RDMethod': ('struct RDMethod', ['name', 'func', 'threshold']),
    'RDAnalysis': ('struct RDAnalysis', ['method', 'width', 'height', 'nimages', 'params', 'f', 'p', 'xresult', 'yresult', 'xbound', 'ybound']),
    'RDImage': ('struct RDImage', ['reader', 'reader_ctx', 'width', 'height']),
    'image_reader': ('struct image_reader', ['open', 'read_frame', 'seek_frame', 'close', 'supports_ext']),
}
CONSTS = ['RDEOK', 'RDENOMEM', 'RDEINTERNAL', 'RDEINVAL', 'RDEUNSUPP', 'RDETOOBIG', 'RDEPARAM', 'RDENOIMG', 'DEFAULT_RANGE',
          'sizeof(coeff)', 'sizeof(intermediate)', 'sizeof(rdint_index)', 'sizeof(rdint_storage)', 'PIXEL_MAX', 'SIZE_MAX', 'INT_MAX',
          'sizeof(unsigned int)*CHAR_BIT']


class Layout:
    pass


_cache = {}


def get(defs=()):
    k = tuple(defs)
    if k in _cache:
        return _cache[k]
    src = ['#include "image.h"', '#include <stddef.h>']
    names = {}
    for s, (ct, fs) in FIELDS.items():
        names['S_%s' % s] = 'sizeof(%s)' % ct
        for f in fs:
            names['F_%s_%s' % (s, f)] = 'offsetof(%s,%s)' % (ct, f)
            names['Z_%s_%s' % (s, f)] = 'sizeof(((%s*)0)->%s)' % (ct, f)
    for i, c in enumerate(CONSTS):
        names['C_%d' % i] = c
    for n, e in names.items():
        src.append('const unsigned long %s = %s;' % (n, e))
    with tempfile.TemporaryDirectory(prefix='rdv-lay-') as td:
        p = os.path.join(td, 'l.c')
        open(p, 'w').write('\n'.join(src) + '\n')
        r = subprocess.run(['clang-18'] + build.BASE + list(defs) + build.inc() + ['-S', '-emit-llvm', p, '-o', p + '.ll'], capture_output=True, text=True)
        if r.returncode:
            raise build.ExtractError('layout of the library structures: ' + r.stderr[-800:])
        m = Module('layout', open(p + '.ll').read())
    L = Layout()
    L.size, L.off, L.fsz, L.const = {}, {}, {}, {}

    def val(n):
        v = m.globals['@' + n]['init']
        return v[1] % (1 << 64) if v[0] == 'c' else 0
    for s, (ct, fs) in FIELDS.items():
        L.size[s] = val('S_' + s)
        L.off[s] = {f: val('F_%s_%s' % (s, f)) for f in fs}
        L.fsz[s] = {f: val('Z_%s_%s' % (s, f)) for f in fs}
    for i, c in enumerate(CONSTS):
        L.const[c] = val('C_%d' % i)
    _cache[k] = L
    return L


def private(src, struct, fields, defs=()):
    """offsets and sizes of the fields of a structure private to a source file"""
    k = (src, struct, tuple(fields), tuple(defs))
    if k not in _cache:
        text = ['#include "%s"' % os.path.join(build.REPO, src), '#include <stddef.h>', 'const unsigned long S_ = sizeof(%s);' % struct]
        for f in fields:
            text.append('const unsigned long O_%s = offsetof(%s,%s), Z_%s = sizeof(((%s*)0)->%s);' % (f, struct, f, f, struct, f))
        with tempfile.TemporaryDirectory(prefix='rdv-lay-') as td:
            p = os.path.join(td, 'l.c')
            open(p, 'w').write('\n'.join(text) + '\n')
            r = subprocess.run(['clang-18'] + build.BASE + list(defs) + build.inc() + build.media_flags(src) + ['-S', '-emit-llvm', p, '-o', p + '.ll'], capture_output=True, text=True)
            if r.returncode:
                raise Unsupported('the private state %s of %s has other fields than the representation invariant speaks of' % (struct, src))
            m = Module('layout', open(p + '.ll').read())

        def val(n):
            v = m.globals['@' + n]['init']
            return v[1] % (1 << 64) if v[0] == 'c' else 0
        _cache[k] = (val('S_'), {f: (val('O_' + f), val('Z_' + f)) for f in fields})
    return _cache[k]


if __name__ == '__main__':
    L = get()
    print(L.size, L.off, L.const)
