"""C11: the compression filter."""
from specs.res import *


def tasks(tier):
    out = [Task('lemma: rank', lemma, exits=('lemma',))]
    cf = lambda: var('cfilter', 1, 31)
    # the documented meaning, for sizes that are multiples of two to the value: exactly the multiples of size/2^value are removed
    out.append(Task('the removed sizes are the multiples of size / 2^value', lambda cx, eng: results(cx, eng, 1, 0, I(1), 3, 'C11', documented=True), opts=dict(timeout=3000), group='documented'))
    for xs, ys, mask in ((1, 0, 3), (0, 1, 12), (1, 1, 15)):
        out.append(Task('filtered results, %s%s searched' % ('x' if xs else '-', 'y' if ys else '-'),
                        lambda cx, eng, xs=xs, ys=ys, mask=mask: results(cx, eng, xs, ys, cf(), mask, 'C11'), exits=('RDEOK',), group='relative-index-multiples'))
        out.append(Task('value 0, %s%s searched' % ('x' if xs else '-', 'y' if ys else '-'),
                        lambda cx, eng, xs=xs, ys=ys, mask=mask: results(cx, eng, xs, ys, ZERO, mask, 'C11'), exits=('RDEOK',)))
    return out
