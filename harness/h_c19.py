"""Seeking in all formats: reference decoders for the native formats, then PNG and JPEG."""
import h_c24
import h_files


def one(h, c):
    if c.get('fmt') in ('png', 'jpeg'):
        try:
            return h_c24.one(h, c)
        except h_c24.Skip:
            h.skipped += 1
            return
    h_files.one(h, c)


def run(h):
    k = 0
    for s in (dict(fmt='png', w=9, h=7, color=2, depth=8, trns=0, inter=0, seed=3), dict(fmt='png', w=3, h=3, color=0, depth=8, trns=0, inter=1, seed=3), dict(fmt='jpeg', w=17, h=18, ch=3, quality=60, flags=0, seed=1)):
        for o in h_c24.OPS + (['s2', 's0', 's1'], ['s1', 's1'], ['q3', 's0', 'r'], ['s0', 's0', 's1', 's0'], ['r', 's1', 'q1'], ['s%d' % (2**64 - 1), 'r'], ['s%d' % 2**32, 'r']):
            c = dict(s, ops=o)
            h.case(**c)
            one(h, c)
            k += 1
    h_files.go(h)
