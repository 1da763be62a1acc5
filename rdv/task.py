"""Verification tasks: a task sets up the inputs of one function, runs it and states its postcondition."""
import time
import traceback
import os
import solver
import build
import layout
import externs
from terms import *
from engine import *
from engine import Obj
from ir import Unsupported, Ty, PTR, IntTy, F32T, F64T, VOID


class Task:
    def __init__(self, name, setup, kind='fftw', defs=(), entry=None, contracts=None, externs=None, opts=None, templates=None, bounded=None, exits=(), group=None, drivers=()):
        self.drivers = tuple(drivers)
        self.name, self.setup, self.kind, self.defs = name, setup, kind, tuple(defs)
        self.contracts = contracts or {}
        self.externs = externs or {}
        self.opts = opts or {}
        self.templates = templates or {}
        self.bounded = bounded
        self.exits = exits          # exits of the function that must be reachable (vacuity guard)
        self.group = group


_mods = {}


def modules(kind, defs=(), drivers=()):
    k = (kind, tuple(defs), tuple(drivers))
    if k not in _mods:
        _mods[k] = build.extract(kind, defs, extra=drivers)
    return _mods[k]


class Ctx:
    """environment of one run of a task"""

    def __init__(self, task):
        self.task = task
        self.mods = modules(task.kind, task.defs, task.drivers)
        self.L = layout.get(task.defs)

    def fn(self, name):
        for m in self.mods.values():
            f = m.funcs.get('@' + name)
            if f and not f.internal:
                return f
        raise Unsupported('function %s not found' % name)


def run_task(task, deadline=None):
    t0 = time.time()
    res = dict(name=task.name, status='ok', obligations=[], trusted=[], contracts=[], inlined=[], functions={}, error=None,
               bounded=task.bounded)
    solver.STATS.__init__()
    if deadline:
        solver.DEADLINE[0] = deadline
    eng = None
    try:
        cx = Ctx(task)
        ex = dict(externs.EXT)
        ex.update(task.externs)
        eng = Engine(cx.mods, task.contracts, ex, dict(task.opts))
        eng.templates = task.templates
        eng.cx = cx
        cx.eng = eng
        eng.prove_task(lambda e: task.setup(cx, e))
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['error'] = '%s (at %s)' % (e, eng.curloc if eng else '-')
        if os.environ.get('RDV_TRACE'):
            traceback.print_exc()
    except solver.OutOfTime:
        res['status'] = 'timeout'
        res['error'] = 'time limit reached at %s' % (eng.curloc if eng else '-')
    except RecursionError:
        res['status'] = 'unsupported'
        res['error'] = 'recursion limit'
    except Exception as e:
        res['status'] = 'unsupported'
        res['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-3000:]
        if os.environ.get('RDV_TRACE'):
            traceback.print_exc()
    if eng:
        for (n, k), o in sorted(eng.obls.items(), key=lambda x: (x[0][1], x[0][0])):
            res['obligations'].append(dict(name=n, kind=k, loc=o.loc, instances=o.n, proved=o.proved, backends=o.backends, fails=o.fails[:3], nfails=len(o.fails)))
        if res['status'] == 'ok':
            for x in task.exits:
                good = getattr(eng, 'reached', {}).get(x, 0) > 0
                res['obligations'].append(dict(name='exit "%s" is reachable' % x, kind='vacuity', loc='-', instances=1, proved=1 if good else 0, backends={'symbolic execution': 1},
                                               fails=[] if good else [dict(result='unreachable', info=None, goal='a path to this exit', at='-', path=[], pc=[])], nfails=0 if good else 1))
            for key, (loc, ok) in eng.termok.items():
                res['obligations'].append(dict(name='termination of loop %s' % key, kind='term', loc=loc, instances=1, proved=1 if ok else 0,
                                               backends={'z3': 1}, fails=[] if ok else [dict(result='unknown', info=None, goal='a decreasing measure', at=loc, path=[], pc=[])], nfails=0 if ok else 1))
        if res['status'] == 'ok' and 'frame' in (task.opts.get('kinds') or ()) and eng.paths and eng.funcs_seen:
            # every path was executed and each of its stores went through an obligation of kind 'frame' above, or reached a local of the call
            res['obligations'].append(dict(name='all stores of %s are accounted for' % ', '.join(sorted(eng.funcs_seen)), kind='frame', loc='-', instances=eng.paths, proved=eng.paths,
                                           backends={'symbolic execution': eng.paths}, fails=[], nfails=0))
        res['trusted'] = sorted(eng.used_externs)
        res['contracts'] = sorted(eng.used_contracts)
        res['inlined'] = sorted(eng.inlined)
        res['functions'] = dict(eng.funcs_seen)
        res['paths'] = eng.paths
        res['invariants'] = sum(len(eng.active_cands(k)) for k in eng.cands)
    res['solver'] = solver.STATS.__dict__.copy()
    res['wall'] = time.time() - t0
    return res


def exits_reached(eng, st, name):
    """vacuity guard: the exit `name` is reachable in the model"""
    eng.reached = getattr(eng, 'reached', {})
    eng.reached[name] = eng.reached.get(name, 0) + 1


# ---------------------------------------------------------------- helpers for specifications
def struct_obj(eng, st, L, name, sname, kind='param', writable=True, fields=None, types=None):
    """an input structure with unknown contents; `fields` overrides field values"""
    p = eng.new_obj(st, name, kind, I(L.size[sname]), default='lazy')
    o = st.objs[name]
    o.writable = writable
    for f, v in (fields or {}).items():
        off, n = L.off[sname][f], L.fsz[sname][f]
        o.cells[off] = (n, v)
    if types:
        o.meta['layout'] = sorted((L.off[sname][f], L.fsz[sname][f], t) for f, t in types.items())
    return p


def params_obj(eng, st, L, name='params', writable=True, **kw):
    rg = kw.get('range', VInt(64, var('range', 0, (1 << 64) - 1)))
    th = kw.get('threshold', VF(fvar(32, 'threshold')))
    cf = kw.get('cf', VInt(8, var('cfilter', 0, 255)))
    return struct_obj(eng, st, L, name, 'RDParameters', writable=writable, fields=dict(range=rg, threshold=th, compression_filter=cf),
                      types=dict(range=IntTy(64), threshold=F32T, compression_filter=IntTy(8)))


def field(eng, st, L, ptr, sname, f, ty):
    return eng.load(st, ty, VPtr(ptr.obj, add(ptr.off, I(L.off[sname][f]))), eng.cx.anymod(), True)


def no_leak(eng, st, keep=(), tag='everything allocated is released'):
    for o in st.objs.values():
        if o.kind in ('heap', 'resource') and o.live and o.name not in keep and not o.meta.get('owned'):
            eng.oblige(st, '%s: %s' % (tag, o.name), 'leak', FALSE, assume=False)
            return
    eng.oblige(st, tag, 'leak', TRUE, assume=False)


def ret_int(eng, st, rv, signed=True):
    if isinstance(rv, VUndef):
        return None
    return eng.sview(st, rv) if signed else eng.uview(st, rv)


Ctx.anymod = lambda self: next(iter(self.mods.values()))
