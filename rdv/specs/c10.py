"""C10: resdet_analysis_results without a filter."""
from specs.res import *


def tasks(tier):
    out = [Task('lemma: rank', lemma, exits=('lemma',))]
    for xs in (1, 0):
        for ys in (1, 0):
            n = '%s%s' % ('x' if xs else '-', 'y' if ys else '-')
            for mask in (15, 3, 12):
                out.append(Task('results %s searched, outputs %d' % (n, mask), lambda cx, eng, xs=xs, ys=ys, mask=mask: results(cx, eng, xs, ys, ZERO, mask, 'C10'), exits=('RDEOK', 'RDENOMEM')))
            out.append(Task('results %s searched, no frame' % n, lambda cx, eng, xs=xs, ys=ys: results(cx, eng, xs, ys, ZERO, 15, 'C10', zero=True), exits=('RDENOIMG',)))
    return out
