"""C12: failure behaviour of resdet_analysis_results (and, through its contract, of the callers in C13 and C14)."""
from specs.res import *


def tasks(tier):
    out = [Task('lemma: rank', lemma, exits=('lemma',))]
    cf = lambda: var('cfilter', 0, 31)
    for xs in (1, 0):
        for ys in (1, 0):
            n = '%s%s' % ('x' if xs else '-', 'y' if ys else '-')
            for mask in range(16):
                bad = (mask & 1 and not mask & 2) or (mask & 4 and not mask & 8)
                if mask != 15 and (xs, ys) != (1, 1):
                    continue
                out.append(Task('results %s searched, outputs %d' % (n, mask), lambda cx, eng, xs=xs, ys=ys, mask=mask: results(cx, eng, xs, ys, cf(), mask, 'C12'),
                                exits=('RDEPARAM',) if bad else ('RDEOK', 'RDENOMEM') if mask & 5 else ('RDEOK',)))
                if (xs, ys) == (1, 1):
                    out.append(Task('null analysis, outputs %d' % mask, lambda cx, eng, xs=xs, ys=ys, mask=mask: results(cx, eng, xs, ys, cf(), mask, 'C12', null=True), exits=('RDEPARAM',)))
                    if not bad:
                        out.append(Task('no frame, outputs %d' % mask, lambda cx, eng, xs=xs, ys=ys, mask=mask: results(cx, eng, xs, ys, cf(), mask, 'C12', zero=True), exits=('RDENOIMG',)))
    return out
