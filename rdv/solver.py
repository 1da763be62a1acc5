"""Discharging of verification conditions: z3 (primary) and cvc5 (second opinion through SMT-LIB)."""
import functools
import time
import z3
from terms import *

F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()


def zsort(s):
    return {'I': z3.IntSort(), 'F32': F32, 'F64': F64, 'B': z3.BoolSort()}[s]


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.maxq = 0.0


STATS = Stats()


class Tr:
    """term -> z3; lin: abstract nonlinear monomials; fp: interpret float arithmetic"""

    def __init__(self, lin, fp):
        self.lin = lin
        self.fp = fp
        self.memo = {}
        self.ax = []            # axioms of the term being translated
        self.deps = []          # what its translation asked for
        self.info = {}          # term -> (its own axioms, what it asked for)
        self.uf = {}

    def fn(self, name, doms, ran):
        k = (name, tuple(str(d) for d in doms), str(ran))
        f = self.uf.get(k)
        if f is None:
            f = z3.Function(name, *(doms + [ran]))
            self.uf[k] = f
        return f

    def z(self, t):
        self.deps.append(t)
        r = self.memo.get(t)
        if r is None:
            saved = self.ax, self.deps
            self.ax, self.deps = [], []
            try:
                r = self._mono(t) if isinstance(t, tuple) else self._z(t)
                self.memo[t] = r
                self.info[t] = (self.ax, [d for d in self.deps if d is not t])
            finally:
                self.ax, self.deps = saved
        return r

    def axioms(self, roots):
        """the axioms of everything below the given terms"""
        out, seen, work = [], set(), list(roots)
        self.found = seen
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            ax, deps = self.info[t]
            out += ax
            work += deps
        return out

    def _mono(self, m):
        x = z3.Int('mono!' + '!'.join(str(a.id) for a in m))
        for a in m:
            self.z(a)
        l, h = mono_range(m)
        if l is not None:
            self.ax.append(x >= l)
        if h is not None:
            self.ax.append(x <= h)
        return x

    def poly(self, p):
        terms = []
        k = 0
        for m, c in p.a:
            if m == ():
                k = c
                continue
            if len(m) == 1:
                x = self.z(m[0])
            elif self.lin:
                x = self.z(m)
            else:
                x = self.z(m[0])
                for a in m[1:]:
                    x = x * self.z(a)
            terms.append(x if c == 1 else x * c)
        if not terms:
            return z3.IntVal(k)
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return r + k if k else r

    def rngax(self, x, t):
        l, h = atom_range(t)
        if l is not None:
            self.ax.append(x >= l)
        if h is not None:
            self.ax.append(x <= h)

    def _z(self, t):
        op = t.op
        z = self.z
        if op == 'P':
            return self.poly(t)
        if op == 'var':
            x = z3.Int(t.a[0])
            self.rngax(x, t)
            return x
        if op == 'app':
            args = t.a[3:]
            zs = [z(a) for a in args]
            f = self.fn(t.a[0], [y.sort() for y in zs], z3.IntSort())
            x = f(*zs) if zs else z3.Int(t.a[0])
            self.rngax(x, t)
            return x
        if op == 'sel' or op == 'fsel':
            arr = t.a[0]
            assert arr.op == 'abase'
            f = self.fn(arr.a[0], [z3.IntSort()], zsort(arr.sort[1:]))
            x = f(z(t.a[1]))
            if op == 'sel':
                self.rngax(x, t)
            return x
        if op == 'mod':
            y = cval(t.a[1])
            m = z3.Int('mod!%d' % t.id)
            q = z3.Int('modq!%d' % t.id)
            self.ax += [m >= 0, m < y, z(t.a[0]) == m + q * y]
            return m
        if op == 'div':
            y = cval(t.a[1])
            if y is not None:
                q = z3.Int('div!%d' % t.id)
                p = z(t.a[0])
                self.ax += [p - q * y >= 0, p - q * y < y]
                return q
            q = z3.Int('div!%d' % t.id)
            self.memo[t] = q
            p = z(t.a[0])
            prod = z(mul(t.a[1], atom(t)))
            yy = z(t.a[1])
            self.ax.append(z3.Implies(yy > 0, z3.And(p >= prod, p < prod + yy)))
            self.ax.append(z3.Implies(z3.And(yy > 0, p >= 0), z3.And(q >= 0, q <= p)))
            return q
        if op == 'ite':
            return z3.If(z(t.a[0]), z(t.a[1]), z3.IntVal(0))
        if op == 'ite3':
            return z3.If(z(t.a[0]), z(t.a[1]), z(t.a[2]))
        if op == 'fbits':
            f = t.a[0]
            w = fw(f)
            if f.op == 'fsel':
                g = self.fn('bits!' + f.a[0].a[0], [z3.IntSort()], z3.IntSort())
                x = g(z(f.a[1]))
            elif f.op == 'fvar':
                x = z3.Int('bits!' + f.a[0])
            else:
                x = z3.Int('bits!%d' % f.id)
            self.rngax(x, t)
            ff = z(f)
            h = 1 << (w - 1)
            self.ax.append(z3.Or(z3.fpIsNaN(ff), (x >= h) == z3.fpIsNegative(ff)))
            return x
        # Bool
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'bvar':
            return z3.Bool(t.a[0])
        if op == 'bapp':
            zs = [z(a) for a in t.a[1:]]
            return self.fn(t.a[0], [y.sort() for y in zs], z3.BoolSort())(*zs)
        if op == 'le0':
            return z(t.a[0]) <= 0
        if op == 'eq0':
            return z(t.a[0]) == 0
        if op == 'not':
            return z3.Not(z(t.a[0]))
        if op == 'and':
            return z3.And([z(x) for x in t.a])
        if op == 'iff':
            return z(t.a[0]) == z(t.a[1])
        if op == 'fcmp':
            o, x, y = t.a
            x = z(x)
            y = z(y)
            if o == 'lt':
                return z3.fpLT(x, y)
            if o == 'le':
                return z3.fpLEQ(x, y)
            if o == 'eq':
                return z3.fpEQ(x, y)
            return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if op == 'fclass':
            n, x = t.a
            x = z(x)
            return {'nan': z3.fpIsNaN, 'inf': z3.fpIsInf, 'zero': z3.fpIsZero,
                    'fin': lambda v: z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))}[n](x)
        if op == 'fsame':
            return z(t.a[0]) == z(t.a[1])
        # Float
        if op == 'fconst':
            w = fw(t)
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(t.a[0], w), zsort(t.sort)))
        if op == 'fvar':
            return z3.Const(t.a[0], zsort(t.sort))
        if op == 'fite':
            return z3.If(z(t.a[0]), z(t.a[1]), z(t.a[2]))
        if op == 'i2f':
            f = self.fn('i2f' + t.sort, [z3.IntSort()], zsort(t.sort))
            p = z(t.a[0])
            x = f(p)
            lim = 2**127 if t.sort == 'F32' else 2**1000
            self.ax.append(z3.Implies(z3.And(p < lim, p > -lim), z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))))
            zero = z3.fpPlusZero(zsort(t.sort))
            self.ax.append(z3.Implies(p == 0, x == zero))
            self.ax.append(z3.Implies(p > 0, z3.fpGEQ(x, z3.FPVal(1.0, zsort(t.sort)))))
            self.ax.append(z3.Implies(p < 0, z3.fpLEQ(x, z3.FPVal(-1.0, zsort(t.sort)))))
            return x
        if op == 'bits2f':
            f = self.fn('bits2f' + t.sort, [z3.IntSort()], zsort(t.sort))
            return f(z(t.a[0]))
        if op == 'fapp':
            zs = [z(a) for a in t.a[1:]]
            return self.fn(t.a[0] + t.sort, [y.sort() for y in zs], zsort(t.sort))(*zs)
        if op == 'fop':
            n = t.a[0]
            zs = [z(a) for a in t.a[1:]]
            s = zsort(t.sort)
            if n == 'fneg':
                return z3.fpNeg(zs[0])
            if n == 'fabs':
                return z3.fpAbs(zs[0])
            if n == 'fpext':
                return z3.fpFPToFP(RNE, zs[0], s)
            if n == 'copysign':
                a = z3.fpAbs(zs[0])
                return z3.If(self.z(fsign(t.a[2])), z3.fpNeg(a), a)
            if self.fp:
                if n == 'fadd':
                    return z3.fpAdd(RNE, *zs)
                if n == 'fsub':
                    return z3.fpSub(RNE, *zs)
                if n == 'fmul':
                    return z3.fpMul(RNE, *zs)
                if n == 'fdiv':
                    return z3.fpDiv(RNE, *zs)
                if n == 'fptrunc':
                    return z3.fpFPToFP(RNE, zs[0], s)
                if n == 'round':
                    return z3.fpRoundToIntegral(z3.RNA(), zs[0])
                if n == 'floor':
                    return z3.fpRoundToIntegral(z3.RTN(), zs[0])
                if n == 'sqrt':
                    return z3.fpSqrt(RNE, zs[0])
            f = self.fn(n + t.sort, [y.sort() for y in zs], s)
            if n in ('fadd', 'fmul'):
                self.ax.append(f(*zs) == f(zs[1], zs[0]))
            return f(*zs)
        raise ValueError('translate ' + op)

U32 = z3.DeclareSort('U32')
U64 = z3.DeclareSort('U64')
BIG = {'F32': z3.RealVal(2**128), 'F64': z3.RealVal(2**1024)}


def usort(s):
    return {'I': z3.IntSort(), 'F32': U32, 'F64': U64, 'B': z3.BoolSort()}[s]


class TrAb(Tr):
    """floats abstracted to uninterpreted elements with a NaN predicate and an ordering key (a real number;
    infinities are the extreme keys): every fact stated here holds of IEEE 754, so what is proved here is proved.
    Decides order reasoning without bit-blasting."""

    def __init__(self, lin):
        Tr.__init__(self, lin, False)

    def key(self, x):
        s = 'F32' if x.sort() == U32 else 'F64'
        return self.fn('key' + s, [x.sort()], z3.RealSort())(x)

    def nan(self, x):
        s = 'F32' if x.sort() == U32 else 'F64'
        return self.fn('nan' + s, [x.sort()], z3.BoolSort())(x)

    def seen(self, x, s):
        self.ax += [self.key(x) <= BIG[s], self.key(x) >= -BIG[s]]
        return x

    def _z(self, t):
        op = t.op
        z = self.z
        if t.sort in ('F32', 'F64'):
            return self.seen(self._f(t), t.sort)
        if op == 'fbits':
            f = t.a[0]
            w = fw(f)
            if f.op == 'fsel':
                x = self.fn('bits!' + f.a[0].a[0], [z3.IntSort()], z3.IntSort())(z(f.a[1]))
            elif f.op == 'fvar':
                x = z3.Int('bits!' + f.a[0])
            else:
                x = z3.Int('bits!%d' % f.id)
            self.rngax(x, t)
            ff = z(f)
            h = 1 << (w - 1)
            self.ax.append(z3.Or(self.nan(ff), z3.And(z3.Implies(x >= h, self.key(ff) <= 0), z3.Implies(x < h, self.key(ff) >= 0))))
            return x
        if op == 'fcmp':
            o, x, y = t.a
            x = z(x)
            y = z(y)
            ok = z3.And(z3.Not(self.nan(x)), z3.Not(self.nan(y)))
            if o == 'lt':
                return z3.And(ok, self.key(x) < self.key(y))
            if o == 'le':
                return z3.And(ok, self.key(x) <= self.key(y))
            if o == 'eq':
                return z3.And(ok, self.key(x) == self.key(y))
            return z3.Not(ok)
        if op == 'fclass':
            n, x = t.a
            b = BIG[x.sort]
            x = z(x)
            k = self.key(x)
            return {'nan': self.nan(x), 'inf': z3.And(z3.Not(self.nan(x)), z3.Or(k == b, k == -b)),
                    'zero': z3.And(z3.Not(self.nan(x)), k == 0),
                    'fin': z3.And(z3.Not(self.nan(x)), k < b, k > -b)}[n]
        return Tr._z(self, t)

    def _f(self, t):
        op = t.op
        z = self.z
        s = usort(t.sort)
        if op == 'fsel':
            return self.fn(t.a[0].a[0], [z3.IntSort()], s)(z(t.a[1]))
        if op == 'fconst':
            import math
            from fractions import Fraction
            x = z3.Const('fc%d!%d' % (fw(t), t.a[0]), s)
            v = fpy(t)
            if v != v:
                self.ax.append(self.nan(x))
            else:
                self.ax.append(z3.Not(self.nan(x)))
                if math.isinf(v):
                    self.ax.append(self.key(x) == (BIG[t.sort] if v > 0 else -BIG[t.sort]))
                else:
                    q = Fraction(v)
                    self.ax.append(self.key(x) == z3.Q(q.numerator, q.denominator))
            return x
        if op == 'fvar':
            return z3.Const(t.a[0], s)
        if op == 'fite':
            return z3.If(z(t.a[0]), z(t.a[1]), z(t.a[2]))
        if op == 'i2f':
            p = z(t.a[0])
            x = self.fn('i2f' + t.sort, [z3.IntSort()], s)(p)
            k = self.key(x)
            lim = 2**127 if t.sort == 'F32' else 2**1000
            ex = 2**24 if t.sort == 'F32' else 2**53
            self.ax += [z3.Not(self.nan(x)), z3.Implies(z3.And(p < lim, p > -lim), z3.And(k < BIG[t.sort], k > -BIG[t.sort])),
                        z3.Implies(p == 0, k == 0), z3.Implies(p > 0, k >= 1), z3.Implies(p < 0, k <= -1),
                        z3.Implies(z3.And(p <= ex, p >= -ex), k == z3.ToReal(p)), z3.Implies(p <= 2**64, k <= 2**64)]
            return x
        if op == 'bits2f':
            return self.fn('bits2f' + t.sort, [z3.IntSort()], s)(z(t.a[0]))
        if op == 'fapp':
            zs = [z(a) for a in t.a[1:]]
            return self.fn(t.a[0] + t.sort, [y.sort() for y in zs], s)(*zs) if zs else z3.Const(t.a[0] + t.sort, s)
        if op == 'fop':
            n = t.a[0]
            zs = [z(a) for a in t.a[1:]]
            f = self.fn(n + t.sort, [y.sort() for y in zs], s)
            x = f(*zs)
            k = self.key(x)
            if n in ('fadd', 'fsub', 'fmul', 'fdiv', 'sqrt', 'round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint'):
                for y in zs:
                    self.ax.append(z3.Implies(self.nan(y), self.nan(x)))
            if n == 'fneg':
                self.ax += [self.nan(x) == self.nan(zs[0]), k == -self.key(zs[0])]
            elif n == 'fabs':
                k0 = self.key(zs[0])
                self.ax += [self.nan(x) == self.nan(zs[0]), k == z3.If(k0 < 0, -k0, k0)]
            elif n == 'fpext':
                k0 = self.key(zs[0])
                b = BIG['F32']
                self.ax += [self.nan(x) == self.nan(zs[0]),
                            k == z3.If(k0 >= b, BIG['F64'], z3.If(k0 <= -b, -BIG['F64'], k0)),
                            self.fn('fpext!inv', [U64], U32)(x) == zs[0]]
            elif n == 'copysign':
                k0 = self.key(zs[0])
                self.ax += [self.nan(x) == self.nan(zs[0]),
                            k == z3.If(self.z(fsign(t.a[2])), z3.If(k0 < 0, k0, -k0), z3.If(k0 < 0, -k0, k0))]
            elif n == 'fdiv':
                kx, ky = self.key(zs[0]), self.key(zs[1])
                ok = z3.And(z3.Not(self.nan(zs[0])), z3.Not(self.nan(zs[1])), kx >= 0, kx < BIG[t.sort], ky > 0)
                self.ax += [z3.Implies(ok, z3.And(z3.Not(self.nan(x)), k >= 0)), z3.Implies(z3.And(ok, kx >= 1, ky <= 2**100), k > 0)]
            elif n == 'fptrunc':
                k0 = self.key(zs[0])
                self.ax += [self.nan(x) == self.nan(zs[0]), z3.Implies(k0 >= 0, k >= 0), z3.Implies(k0 <= 0, k <= 0),
                            z3.Implies(k0 >= 1, k >= 1), z3.Implies(k0 <= 1, k <= 1), z3.Implies(k0 >= -1, k >= -1), z3.Implies(k0 <= -1, k <= -1)]
            elif n in ('fadd', 'fmul'):
                self.ax.append(x == f(zs[1], zs[0]))
            elif n == 'fsub':
                y = f(zs[1], zs[0])
                self.ax += [self.nan(x) == self.nan(y), k == -self.key(y)]
            return x
        raise ValueError('translate ' + op)


def has_float(ts):
    return any(floaty(t) for t in ts)


@functools.lru_cache(None)
def floaty(t):
    return t.sort in ('F32', 'F64') or any(x.sort in ('F32', 'F64') for x in atoms_of(t))


def truncs_ab(tr):
    """pairwise monotonicity of the narrowing conversions that occur"""
    ts = sorted((t for t in tr.found if not isinstance(t, tuple) and t.op == 'fop' and t.a[0] == 'fptrunc'), key=lambda t: t.id)[:8]
    ax = []
    for i, x in enumerate(ts):
        for y in ts[:i]:
            ka, kb = tr.key(tr.z(y.a[1])), tr.key(tr.z(y))
            k0, k = tr.key(tr.z(x.a[1])), tr.key(tr.z(x))
            ax += [z3.Implies(ka <= k0, kb <= k), z3.Implies(k0 <= ka, k <= kb)]
    return ax


TRS = {}


def translator(lin, ab, fp=False):
    k = (lin, ab, fp)
    if k not in TRS:
        TRS[k] = TrAb(lin) if ab else Tr(lin, fp)
    return TRS[k]


@functools.lru_cache(None)
def monos_of(t):
    s = set()
    for x in atoms_of(t) | {t}:
        if x.op == 'P':
            for m, _ in x.a:
                if len(m) > 1:
                    s.add(m)
        if x.op == 'div' and cval(x.a[1]) is None:
            for m, _ in mul(x.a[1], atom(x)).a:
                if len(m) > 1:
                    s.add(m)
    return frozenset(s)


@functools.lru_cache(None)
def i2fs_of(t):
    return frozenset(x for x in atoms_of(t) | {t} if x.op == 'i2f')


@functools.lru_cache(None)
def vars_of(t):
    return frozenset(x for x in atoms_of(t) | {t} if x.op in ('var', 'app', 'sel', 'fsel', 'fvar', 'bvar', 'bapp', 'div', 'mod', 'fbits', 'fapp'))


@functools.lru_cache(None)
def lin_of(t):
    out = []
    lin_facts(t, out)
    return tuple(out)


def i2f_monotone_ab(tr, ts):
    xs = set()
    for t in ts:
        xs |= i2fs_of(t)
    xs = sorted(xs, key=lambda t: t.id)
    ax = []
    if len(xs) <= 8:
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                if x.sort == y.sort:
                    kx, ky = tr.key(tr.z(x)), tr.key(tr.z(y))
                    ax.append(z3.Implies(tr.z(x.a[0]) <= tr.z(y.a[0]), kx <= ky))
                    ax.append(z3.Implies(tr.z(y.a[0]) <= tr.z(x.a[0]), ky <= kx))
    return ax


def atoms_of(t):
    """all terms below t (set), cached"""
    if t._atoms is not None:
        return t._atoms
    out = set()
    for c in children(t):
        out.add(c)
        out |= atoms_of(c)
    t._atoms = frozenset(out)
    return t._atoms


def nonlinear_monos(ts):
    s = set()
    for t in ts:
        s |= monos_of(t)
    return s


def lin_facts(t, out):
    """inequalities h >= 0 implied by t"""
    if t.op == 'le0':
        out.append(neg(t.a[0]))
    elif t.op == 'eq0':
        out.append(t.a[0])
        out.append(neg(t.a[0]))
    elif t.op == 'and':
        for x in t.a:
            lin_facts(x, out)


def product_hints(pc, goal_neg, limit=400):
    ts = list(pc) + [goal_neg]
    # only monomials related to the goal matter for the choice of products
    gm = nonlinear_monos([goal_neg])
    allm = nonlinear_monos(ts)
    if not allm:
        return []
    work = gm or allm
    facts = []
    for t in ts:
        facts += lin_of(t)
    at_in = set(a for m in allm for a in m)
    for a in at_in:
        l, h = atom_range(a)
        p = atom(a)
        if l is not None:
            facts.append(sub(p, I(l)))
        if a.op == 'div' and cval(a.a[1]) is None:
            # 0 <= x - q*y < y
            x, y = a.a
            facts.append(sub(x, mul(y, p)))
            facts.append(sub(add(mul(y, p), y), add(x, ONE)))
    # degree-1 facts about atoms that occur in nonlinear monomials
    by = {}
    deg1 = []
    seen = set()
    for f in facts:
        if f in seen:
            continue
        seen.add(f)
        if all(len(m) <= 1 for m, _ in f.a):
            ats = [m[0] for m, _ in f.a if m]
            rel = [a for a in ats if a in at_in]
            if rel and len(ats) <= 4:
                deg1.append((f, set(rel)))
    pairs = set()
    for m in (work | allm if len(allm) < 30 else work):
        if len(m) == 2:
            pairs.add((m[0], m[1]))
        elif len(m) == 3:
            pairs |= {(m[0], m[1]), (m[0], m[2]), (m[1], m[2])}
    out = []
    outs = set()

    def put(p):
        if p not in outs and cval(p) is None:
            outs.add(p)
            out.append(le0(neg(p)))
    for a, b in pairs:
        fa = [f for f, r in deg1 if a in r]
        fb = [f for f, r in deg1 if b in r]
        for f in fa:
            for g in fb:
                put(mul(f, g))
                if len(out) > limit:
                    return out
    # triple products: (degree-2 hint) * atom for degree 3 monomials
    for m in work:
        if len(m) == 3:
            for i in range(3):
                fs = [f for f, r in deg1 if m[i] in r][:6]
                j, k = [x for x in range(3) if x != i]
                gs = [f for f, r in deg1 if m[j] in r][:6]
                hs = [f for f, r in deg1 if m[k] in r][:6]
                for f in fs:
                    for g in gs:
                        for h in hs:
                            put(mul(f, g, h))
                            if len(out) > limit * 2:
                                return out
    return out


CACHE = {}
DEADLINE = [None]


class OutOfTime(Exception):
    pass


def i2f_monotone(tr, ts):
    """pairwise monotonicity of the integer to float conversions that occur"""
    xs = set()
    for t in ts:
        xs |= i2fs_of(t)
    xs = sorted(xs, key=lambda t: t.id)
    ax = []
    if len(xs) <= 8:
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                if x.sort == y.sort:
                    ax.append(z3.Implies(tr.z(x.a[0]) <= tr.z(y.a[0]), z3.fpLEQ(tr.z(x), tr.z(y))))
                    ax.append(z3.Implies(tr.z(y.a[0]) <= tr.z(x.a[0]), z3.fpLEQ(tr.z(y), tr.z(x))))
    return ax


def relevant(pc, g):
    """cone of influence: assumptions sharing non-global atoms, transitively"""
    want = set(vars_of(g))
    rest = [(t, vars_of(t)) for t in pc]
    chosen = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for t, s in rest:
            if s & want or not s:
                chosen.append(t)
                if not s <= want:
                    want |= s
                    changed = True
            else:
                nr.append((t, s))
        rest = nr
    return chosen


def check(pc, goal, timeout=8000, fp=False, want_model=False, cheap=False):
    """is goal implied by pc?  -> ('proved', None) | ('failed', model) | ('unknown', reason)"""
    if goal is TRUE:
        return ('proved', None)
    pc = [t for t in pc if t is not TRUE]
    if goal in pc:
        return ('proved', None)
    g = Not(goal)
    pc = relevant(pc, goal) if goal is not FALSE else pc
    key = (frozenset(t.id for t in pc), goal.id, fp)
    r = CACHE.get(key)
    if r is None and cheap:
        r = CACHE.get((key, 'cheap'))
    if r is not None and (not want_model or r[0] == 'proved' or r[1] is not None):
        return r
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise OutOfTime()
    t0 = time.time()
    res = None
    allt = pc + [g]
    nl = nonlinear_monos(allt)
    fl = has_float(allt)
    modes = []
    if nl:
        modes.append((True, fl))
    if fl:
        modes.append((False, True))
    if nl and fl:
        modes.append((True, False))
    modes.append((False, False))
    if cheap:
        # only to find facts, never to report a failure: the float theory and the full timeout are not tried
        modes = [m for m in modes if not fl or m[1]]
    for i, (lin, ab) in enumerate(modes):
        last = i == len(modes) - 1
        tr = translator(lin, ab, fp and not ab)
        s = z3.Solver()
        s.set('timeout', timeout if last else min(timeout, 2500 if ab else 4000))
        tr.deps = []
        fs = [tr.z(t) for t in allt]
        if lin:
            fs += [tr.z(h) for h in product_hints(pc, g)]
        fs += (i2f_monotone_ab if ab else i2f_monotone)(tr, allt)
        ax = tr.axioms(tr.deps)
        if ab:
            tr.deps = []
            fs += truncs_ab(tr)
        cx, sv = s.ctx.ref(), s.solver
        for f in fs:
            z3.Z3_solver_assert(cx, sv, f.as_ast())
        for f in ax:
            z3.Z3_solver_assert(cx, sv, f.as_ast())
        c = s.check()
        STATS.queries += 1
        if c == z3.unsat:
            res = ('proved', None)
            break
        if last:
            if c == z3.sat:
                m = None if cheap else s.model()
                res = ('failed', {} if cheap else {d.name(): str(m[d])[:200] for d in m.decls()})
            else:
                res = ('unknown', s.reason_unknown())
    dt = time.time() - t0
    STATS.time += dt
    STATS.maxq = max(STATS.maxq, dt)
    if dt > 1 and __import__('os').environ.get('RDV_DEBUG'):
        print('SLOW %.1f' % dt, res[0], str(goal)[:150], len(allt), 'nl', len(nl), 'fl', fl, modes, i)
    if dt > 3:
        STATS.by[str(goal)[:100]] = round(dt, 2)
    if cheap and res[0] != 'proved':
        key = (key, 'cheap')
    CACHE[key] = res
    return res


def smtlib(pc, goal, fp=False):
    tr = Tr(False, fp)
    s = z3.Solver()
    s.add(*[tr.z(t) for t in pc])
    s.add(tr.z(Not(goal)))
    s.add(*tr.axioms(tr.deps))
    return s.to_smt2()
