"""C03: image sizes are refused or every buffer is big enough."""
from specs import c04, c20, c21
from task import *

TEXT = dict(c20.TEXT)
TEXT.update(c21.TEXT)
LIMITS = [None, '1', '1000', '0xffffffff', '0x100000000', '0x123456789a', '0x7fffffffffffffff']

# the other obligations of these specifications belong to C04, C20 and C21
ONLY = ('a zero size is an invalid image', 'null only for a refused size', 'only for sizes within the limits', 'of sufficient size', 'coefficient buffer', 'accumulators for every candidate', 'plan for that buffer', 'searched only when', 'resdet_alloc_coeffs', 'resdet_create_plan',
        'within the limits', 'beyond the limits', 'too big', 'the buffer holds', 'the size of the image is delivered', 'reader read_frame', 'reader seek_frame: the size', 'belongs to the block', 'vacuity')


def tasks(tier):
    out = []
    for m in LIMITS:
        defs = ('-DPIXEL_MAX=' + m,) if m else ()
        lim = ', PIXEL_MAX=%s' % (m or 'SIZE_MAX')
        for mth, par, err in ((0, 0, 1), (1, 1, 0)) if m else [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]:
            out.append(Task('resdet_create_analysis (method %d, params %d, status %d)%s' % (mth, par, err, lim),
                            lambda cx, eng, a=mth, b=par, c=err: c04.create(cx, eng, a, b, c, None), defs=defs, exits=('null',) if m == '1' else ('ok', 'null')))
        out.append(Task('resdet_open_image' + lim, lambda cx, eng: c20.dispatch(cx, eng, False, not m), defs=defs, exits=('ok', 'toobig', 'nomem')))
        out.append(Task('resdet_read_image' + lim, lambda cx, eng: c21.run(cx, eng, 0), defs=defs, exits=('ok', 'openfail', 'fail') if m == '1' else ('ok', 'openfail', 'allocfail', 'fail')))
    for t in out:
        t.opts = dict(only=ONLY)
    return out
