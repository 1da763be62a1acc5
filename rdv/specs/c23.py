"""C23: the frame conditions of every function under contract: no store to memory that is neither an argument,
reachable from one, nor allocated by the call; inputs are only read."""
import importlib
from task import *

PARTS = ('c18', 'c08', 'c17', 'c01', 'c02', 'c04', 'c05', 'c06', 'c07', 'c09', 'c10', 'c13', 'c14', 'c15', 'c16', 'c20', 'c21', 'c24', 'c26')
TEXT = {}
KEPT = 'ffmpeg-read-error-as-end'      # of the alternatives of C26, which differ in a postcondition only
ASIDE = {'fftw': ('resdet_libversion', 'jerr_emit_message', 'jerr_reset_error_mgr', 'pngerr_warning_fn'), 'kissfft': ()}


def mentions(x, out):
    """globals an operand refers to"""
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            mentions(y, out)


def aside(kind):
    """functions not under a contract of their own: they refer to no writable global at all, so a store of theirs can only
    reach memory they were given or allocated"""
    def setup(cx, eng):
        st = State()
        n = 0
        for name, m in sorted(cx.mods.items()):
            kernel = 'kiss' in name and '@resdet_transform' not in m.funcs
            for f in m.funcs.values():
                if not f.blocks or not (kernel or f.name.lstrip('@') in ASIDE[kind]):
                    continue
                n += 1
                used = set()
                for b in f.blocks.values():
                    for ins in getattr(b, 'ins', b):
                        for s in getattr(ins, '__slots__', ()) or ins.__dict__:
                            mentions(getattr(ins, s, None), used)
                bad = sorted(g for g in used if g in m.globals and not m.globals[g]['const'] and g not in ('@stderr', '@stdin', '@stdout'))
                eng.oblige(st, '%s refers to no writable global%s' % (f.name.lstrip('@'), ': ' + ', '.join(bad) if bad else ''), 'frame', Bc(not bad), assume=False, loc=name)
        exits_reached(eng, st, 'looked at %d functions' % n if not n else 'functions')
    return setup


def tasks(tier):
    out = [Task('functions without a contract of their own, %s' % k, aside(k), kind=k, exits=('functions',)) for k in ('fftw', 'kissfft')]
    for t in out:
        t.opts = dict(kinds=('frame', 'shared', 'vacuity'))
    for p in PARTS:
        m = importlib.import_module('specs.' + p)
        TEXT.update(getattr(m, 'TEXT', {}))
        for t in m.tasks(tier):
            if t.group and t.group != KEPT or 'lemma' in t.name:
                continue
            t.opts = dict(t.opts, kinds=('frame', 'shared'))
            t.name = '%s: %s' % (p.upper(), t.name)
            t.exits = ()
            out.append(t)
    return out
