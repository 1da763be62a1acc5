"""Hash-consed term language of the verification condition generator.

Integers are mathematical integers kept as polynomials over atoms (normal form), so that
address arithmetic written in different ways becomes the same term.  Floats are IEEE terms:
comparisons and classification keep their IEEE meaning, arithmetic is either uninterpreted
(identical operations on identical operands) or, on request, z3's floating point theory.
Arrays (memory regions) never reach the solver: a read of a written/copied region is expanded
to case distinctions over reads of base arrays, which are uninterpreted functions.
"""
import struct
from math import gcd

_tab = {}
_byid = []


class T:
    __slots__ = ('op', 'a', 'id', 'sort', '_rng', '_atoms', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, a, sort):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.sort = sort
        t.id = len(_byid)
        t._rng = None
        t._atoms = None
        _byid.append(t)
        _tab[k] = t
    return t


_ctr = [0]


def fresh_name(base):
    _ctr[0] += 1
    return '%s!%d' % (base, _ctr[0])


# ---------------------------------------------------------------- Int
# poly: op 'P', a = tuple of (mono, coef), mono = tuple of atom terms (sorted by id)

def _poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0]))))
    return mk('P', items, 'I')


def I(n):
    return mk('P', (((), n),) if n else (), 'I')


ZERO = I(0)
ONE = I(1)


def atom(t):
    """wrap an integer atom as a polynomial"""
    return mk('P', (((t,), 1),), 'I')


def is_const(p):
    return len(p.a) == 0 or (len(p.a) == 1 and p.a[0][0] == ())


def cval(p):
    if not p.a:
        return 0
    if len(p.a) == 1 and p.a[0][0] == ():
        return p.a[0][1]
    return None


def toI(x):
    if isinstance(x, bool):
        return I(int(x))
    if isinstance(x, int):
        return I(x)
    return x


def add(*xs):
    d = {}
    for x in xs:
        for m, c in toI(x).a:
            d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(x, k):
    if k == 0:
        return ZERO
    if k == 1:
        return x
    return mk('P', tuple((m, c * k) for m, c in x.a), 'I')


def neg(x):
    return scale(toI(x), -1)


def sub(x, y):
    return add(x, neg(y))


def mul(*xs):
    r = toI(xs[0])
    for y in xs[1:]:
        y = toI(y)
        c = cval(y)
        if c is not None:
            r = scale(r, c)
            continue
        c = cval(r)
        if c is not None:
            r = scale(y, c)
            continue
        d = {}
        for m1, c1 in r.a:
            for m2, c2 in y.a:
                m = tuple(sorted(m1 + m2, key=lambda t: t.id))
                d[m] = d.get(m, 0) + c1 * c2
        r = _poly(d)
    return r


def var(name, lo=None, hi=None):
    return atom(mk('var', (name, lo, hi), 'I'))


def fresh(base, lo=None, hi=None):
    return var(fresh_name(base), lo, hi)


def app(fn, *args, lo=None, hi=None):
    return atom(mk('app', (fn, lo, hi) + tuple(toI(x) if isinstance(x, int) else x for x in args), 'I'))


def ite(c, x, y):
    """integer if-then-else"""
    if c is TRUE:
        return toI(x)
    if c is FALSE:
        return toI(y)
    x = toI(x)
    y = toI(y)
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x)
    # pull the common part out
    return add(y, atom(mk('ite', (c, sub(x, y)), 'I'))) if cval(y) == 0 else atom(mk('ite3', (c, x, y), 'I'))


def b2i(c):
    return ite(c, ONE, ZERO)


def idiv(x, y):
    """floor division, y > 0 assumed by the caller"""
    x = toI(x)
    y = toI(y)
    cy = cval(y)
    cx = cval(x)
    if cy == 1:
        return x
    if cx is not None and cy:
        return I(cx // cy)
    if cy:
        if all(c % cy == 0 for _, c in x.a):
            return mk('P', tuple((m, c // cy) for m, c in x.a), 'I')
        # split off the divisible part
        divp = {}
        rest = {}
        for m, c in x.a:
            q, r = divmod(c, cy)
            if m == () or r != 0:
                if m == ():
                    if q:
                        divp[m] = q
                    if r:
                        rest[m] = r
                else:
                    rest[m] = c
            else:
                divp[m] = q
        rp = _poly(rest)
        if cval(rp) is not None:
            return _poly(divp)
        if divp:
            return add(_poly(divp), atom(mk('div', (rp, y), 'I')))
    # x == k*y + rest syntactically
    return atom(mk('div', (x, y), 'I'))


def imod(x, y):
    x = toI(x)
    y = toI(y)
    cy = cval(y)
    cx = cval(x)
    if cx is not None and cy:
        return I(cx % cy)
    if cy == 1:
        return ZERO
    if cy:
        red = {}
        for m, c in x.a:
            r = c % cy
            if r:
                red[m] = r if r <= cy // 2 or m == () else r - cy
        x2 = _poly(red)
        c2 = cval(x2)
        if c2 is not None:
            return I(c2 % cy)
        return atom(mk('mod', (x2, y), 'I'))
    return sub(x, mul(y, idiv(x, y)))


# ---------------------------------------------------------------- Bool
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def Bc(b):
    return TRUE if b else FALSE


def bvar(name):
    return mk('bvar', (name,), 'B')


def bfresh(base):
    return bvar(fresh_name(base))


def bapp(fn, *args):
    return mk('bapp', (fn,) + tuple(toI(x) if isinstance(x, int) else x for x in args), 'B')


def le0(p):
    c = cval(p)
    if c is not None:
        return Bc(c <= 0)
    g = 0
    k = 0
    for m, cf in p.a:
        if m == ():
            k = cf
        else:
            g = gcd(g, cf)
    if g > 1:
        # sum g*x + k <= 0  <=>  sum x + ceil(k/g) <= 0
        p = _poly({**{m: cf // g for m, cf in p.a if m != ()}, (): -((-k) // g)})
    return mk('le0', (p,), 'B')


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), ONE))


def ge(x, y):
    return le(y, x)


def gt(x, y):
    return lt(y, x)


def eq0(p):
    c = cval(p)
    if c is not None:
        return Bc(c == 0)
    g = 0
    k = 0
    for m, cf in p.a:
        if m == ():
            k = cf
        else:
            g = gcd(g, cf)
    if k % g:
        return FALSE
    lead = p.a[-1][1]
    if lead < 0:
        g = -g
    if g != 1:
        p = mk('P', tuple((m, cf // g) for m, cf in p.a), 'I')
    # ite-equalities with constants fold
    if len(p.a) <= 2:
        ms = [m for m, _ in p.a if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and p.a[-1][1] == 1:
            at = ms[0][0]
            kk = -(p.a[0][1] if p.a[0][0] == () else 0)
            if at.op == 'ite' and cval(at.a[1]) is not None:
                v = cval(at.a[1])
                if kk == v and v != 0:
                    return at.a[0]
                if kk == 0 and v != 0:
                    return Not(at.a[0])
                if v != 0:
                    return FALSE
            if at.op == 'ite3' and cval(at.a[1]) is not None and cval(at.a[2]) is not None:
                v, w = cval(at.a[1]), cval(at.a[2])
                if v != w:
                    return at.a[0] if kk == v else Not(at.a[0]) if kk == w else FALSE
    return mk('eq0', (p,), 'B')


def eq(x, y):
    return eq0(sub(x, y))


def ne(x, y):
    return Not(eq(x, y))


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le0':
        return le0(sub(ONE, b.a[0]))
    return mk('not', (b,), 'B')


def And(*bs):
    out = []
    seen = set()
    for b in bs:
        if b.op == 'and':
            sub_ = b.a
        else:
            sub_ = (b,)
        for x in sub_:
            if x is FALSE:
                return FALSE
            if x is TRUE or x in seen:
                continue
            if Not(x) in seen:
                return FALSE
            seen.add(x)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def Or(*bs):
    return Not2(And(*[Not(b) for b in bs]))


def Not2(b):
    if b.op == 'and':
        return mk('not', (b,), 'B')
    return Not(b)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if Not(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('iff', (a, b), 'B')


def Xor(a, b):
    return Not(Iff(a, b))


def bite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    return And(Implies(c, x), Implies(Not(c), y))


# ---------------------------------------------------------------- Float
def fconst(w, bits):
    return mk('fconst', (bits,), 'F%d' % w)


def fval(w, x):
    if w == 32:
        return fconst(32, struct.unpack('<I', struct.pack('<f', x))[0])
    return fconst(64, struct.unpack('<Q', struct.pack('<d', x))[0])


def fpy(t):
    if t.sort == 'F32':
        return struct.unpack('<f', struct.pack('<I', t.a[0]))[0]
    return struct.unpack('<d', struct.pack('<Q', t.a[0]))[0]


def fw(t):
    return 32 if t.sort == 'F32' else 64


def fvar(w, name):
    return mk('fvar', (name,), 'F%d' % w)


def ffresh(w, base):
    return fvar(w, fresh_name(base))


COMM = {'fadd', 'fmul'}


def rnd(w, x):
    return struct.unpack('<f', struct.pack('<f', x))[0] if w == 32 else x


def fop(name, w, *args):
    """uninterpreted-by-default IEEE operation"""
    if all(a.op == 'fconst' for a in args if isinstance(a, T)) and args:
        import math
        v = [fpy(a) for a in args]
        try:
            if name == 'fadd':
                return fval(w, rnd(w, v[0] + v[1]))
            if name == 'fsub':
                return fval(w, rnd(w, v[0] - v[1]))
            if name == 'fmul':
                return fval(w, rnd(w, v[0] * v[1]))
            if name == 'fdiv' and v[1] != 0:
                return fval(w, rnd(w, v[0] / v[1]))
            if name == 'fneg':
                return fconst(w, args[0].a[0] ^ (1 << (w - 1)))
            if name == 'fabs':
                return fconst(w, args[0].a[0] & ~(1 << (w - 1)))
            if name == 'fpext':
                return fval(64, v[0])
            if name == 'fptrunc':
                return fval(32, v[0])
        except OverflowError:
            pass
    if name == 'fmul':
        # the rounded product of two exactly converted naturals is the converted product
        x, y = as_nat(args[0]), as_nat(args[1])
        if x is not None and y is not None:
            return i2f(w, mul(x, y))
    if name == 'fptrunc' and args[0].op == 'fop' and args[0].a[0] == 'fpext' and fw(args[0].a[1]) == w:
        return args[0].a[1]
    if name in ('fabs', 'copysign', 'fneg') and args[0].op == 'fop':
        x = args[0]
        if x.a[0] in ('fabs', 'fneg', 'copysign') and name != 'fneg':
            return fop(name, w, x.a[1], *args[1:])       # the sign of the operand is dropped
        if name in ('fabs', 'fneg') and x.a[0] == 'fpext':
            return fop('fpext', w, fop(name, fw(x.a[1]), x.a[1]))
    if name == 'copysign' and args[0] is args[1]:
        return args[0]
    if name in COMM and args[1].id < args[0].id:
        args = (args[1], args[0])
    return mk('fop', (name,) + args, 'F%d' % w)


def as_nat(t):
    """natural number exactly represented by a float term, or None"""
    lim = 2**24 if t.sort == 'F32' else 2**53
    if t.op == 'i2f':
        lo, hi = rng(t.a[0])
        if lo is not None and lo >= 0 and hi is not None and hi <= lim:
            return t.a[0]
    elif t.op == 'fconst':
        v = fpy(t)
        if v == v and 0 <= v <= lim and v == int(v) and t.a[0] < (1 << (fw(t) - 1)):
            return I(int(v))
    return None


def i2f(w, p, signed=False):
    """exact integer value converted (rounded) to float; p is the mathematical integer"""
    c = cval(p)
    if c is not None and abs(c) < 2**53:
        return fval(w, rnd(w, float(c)))
    return mk('i2f', (p,), 'F%d' % w)


def fite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    return mk('fite', (c, x, y), x.sort)


def fapp(fn, w, *args):
    return mk('fapp', (fn,) + tuple(toI(x) if isinstance(x, int) else x for x in args), 'F%d' % w)


def bits2f(w, p):
    """float with the given bit pattern (integer in [0,2^w))"""
    c = cval(p)
    if c is not None:
        return fconst(w, c)
    if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1:
        at = p.a[0][0][0]
        if at.op == 'fbits' and fw(at.a[0]) == w:
            return at.a[0]
    return mk('bits2f', (p,), 'F%d' % w)


def fbits(t):
    if t.op == 'fconst':
        return I(t.a[0])
    if t.op == 'bits2f':
        return t.a[0]
    if t.op == 'fite':
        return ite(t.a[0], fbits(t.a[1]), fbits(t.a[2]))
    if t.op == 'fop' and t.a[0] in ('fneg', 'fabs', 'copysign'):
        h = 1 << (fw(t) - 1)
        b = fbits(t.a[1])
        s = ge(b, I(h))
        mag = ite(s, sub(b, I(h)), b)
        if t.a[0] == 'fabs':
            return mag
        if t.a[0] == 'fneg':
            return ite(s, sub(b, I(h)), add(b, I(h)))
        return add(mag, scale(b2i(fsign(t.a[2])), h))
    return atom(mk('fbits', (t,), 'I'))


def fsign(t):
    """sign bit of a float as Bool (also defined for NaN)"""
    return ge(fbits(t), I(1 << (fw(t) - 1)))


def fcmp(op, x, y):
    """op in lt, le, eq (ordered), uno"""
    if x.op == 'fconst' and y.op == 'fconst':
        a, b = fpy(x), fpy(y)
        return Bc({'lt': a < b, 'le': a <= b, 'eq': a == b, 'uno': a != a or b != b}[op])
    if x.sort == 'F64':
        a, b = narrow(x), narrow(y)
        if a is not None and b is not None:
            return fcmp(op, a, b)
    if op in ('eq', 'uno') and y.id < x.id:
        x, y = y, x
    return mk('fcmp', (op, x, y), 'B')


def narrow(x):
    """the float a double was exactly converted from"""
    if x.op == 'fop' and x.a[0] == 'fpext':
        return x.a[1]
    if x.op == 'fconst':
        v = fpy(x)
        try:
            if v == v and rnd(32, v) == v:
                return fval(32, v)
        except OverflowError:
            pass
    return None


def fclass(name, x):
    """name in nan, inf, fin, zero"""
    if x.op == 'fconst':
        v = fpy(x)
        import math
        return Bc({'nan': v != v, 'inf': math.isinf(v), 'fin': math.isfinite(v), 'zero': v == 0}[name])
    return mk('fclass', (name, x), 'B')


def fsame(x, y):
    """identical value (SMT equality)"""
    if x is y:
        return TRUE
    if x.op == 'fconst' and y.op == 'fconst':
        return Bc(x.a == y.a)
    if y.id < x.id:
        x, y = y, x
    return mk('fsame', (x, y), 'B')


# ---------------------------------------------------------------- Arrays
def abase(name, sort, lo=None, hi=None):
    """sort: 'I' (with element range lo..hi), 'F32', 'F64'"""
    return mk('abase', (name, lo, hi), 'A' + sort)


def aconst(val):
    return mk('aconst', (val,), 'A' + val.sort)


def astore(arr, idx, val):
    if arr.op == 'astore' and arr.a[1] is idx:
        arr = arr.a[0]
    return mk('astore', (arr, idx, val), arr.sort)


def acopy(dst, dstart, n, src, sstart, mode='same'):
    """dst[dstart+i] := src[sstart+i] for 0<=i<n; mode 'f32le': src is a byte array,
    element i is the float of bytes sstart+4i..+3"""
    return mk('acopy', (dst, toI(dstart), toI(n), src, toI(sstart), mode), dst.sort)


def vite(c, x, y):
    if x.sort == 'I':
        return ite(c, x, y)
    if x.sort == 'B':
        return bite(c, x, y)
    return fite(c, x, y)


def select(arr, idx, decide=None):
    """decide(cond) -> True/False/None may settle index comparisons in context"""
    idx = toI(idx)

    def dec(c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return decide(c) if decide else None
    if arr.op == 'abase':
        if arr.sort == 'AI':
            return atom(mk('sel', (arr, idx), 'I'))
        return mk('fsel', (arr, idx), arr.sort[1:])
    if arr.op == 'aconst':
        return arr.a[0]
    if arr.op == 'astore':
        base, j, v = arr.a
        c = eq(idx, j)
        d = dec(c)
        if d is True:
            return v
        if d is False:
            return select(base, idx, decide)
        return vite(c, v, select(base, idx, decide))
    if arr.op == 'acopy':
        dst, ds, n, src, ss, mode = arr.a
        c = And(le(ds, idx), lt(idx, add(ds, n)))
        d = dec(c)
        if d is False:
            return select(dst, idx, decide)
        rel = sub(idx, ds)
        if mode == 'same':
            v = select(src, add(ss, rel), decide)
        elif mode == 'f32le':
            bs = [select(src, add(ss, scale(rel, 4), I(k)), decide) for k in range(4)]
            v = bits2f(32, le32(bs))
        else:
            raise ValueError(mode)
        if d is True:
            return v
        return vite(c, v, select(dst, idx, decide))
    raise ValueError(arr.op)


def le32(bs):
    return add(*[scale(b, 1 << (8 * k)) for k, b in enumerate(bs)])


# ---------------------------------------------------------------- ranges, atoms
def atom_range(t):
    op = t.op
    if op in ('var',):
        return t.a[1], t.a[2]
    if op == 'app':
        return t.a[1], t.a[2]
    if op == 'sel':
        return t.a[0].a[1], t.a[0].a[2]
    if op == 'mod':
        c = cval(t.a[1])
        return (0, c - 1) if c else (0, None)
    if op == 'fbits':
        return 0, (1 << fw(t.a[0])) - 1
    if op == 'ite':
        l, h = rng(t.a[1])
        return (None if l is None else min(l, 0)), (None if h is None else max(h, 0))
    if op == 'ite3':
        l, h = rng(t.a[1])
        l2, h2 = rng(t.a[2])
        return (None if l is None or l2 is None else min(l, l2)), (None if h is None or h2 is None else max(h, h2))
    if op == 'div':
        c = cval(t.a[1])
        l, h = rng(t.a[0])
        if c and c > 0:
            return (None if l is None else l // c), (None if h is None else h // c)
        if l is not None and l >= 0:
            return 0, h
        return None, None
    return None, None


def mono_range(m, env=None):
    lo, hi = 1, 1
    for t in m:
        l, h = (env and env.get(t)) or atom_range(t)
        # only products of nonnegatives are tracked precisely
        if l is None and h is None:
            return None, None
        if lo is None or hi is None or l is None or h is None:
            if lo is not None and l is not None and lo >= 0 and l >= 0:
                lo, hi = lo * l, None
                continue
            return None, None
        c = [lo * l, lo * h, hi * l, hi * h]
        lo, hi = min(c), max(c)
    return lo, hi


def rng(p, env=None):
    if env is None and p._rng is not None:
        return p._rng
    lo = hi = 0
    for m, c in p.a:
        l, h = mono_range(m, env)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    if env is None:
        p._rng = (lo, hi)
    return lo, hi


def children(t):
    if t.op == 'P':
        return [x for m, _ in t.a for x in m]
    return [x for x in t.a if isinstance(x, T)]


def show(t, depth=0):
    if depth > 12:
        return '...'
    d = depth + 1
    op = t.op
    if op == 'P':
        if not t.a:
            return '0'
        out = []
        for m, c in reversed(t.a):
            s = '*'.join(show(x, d) for x in m)
            if m == ():
                out.append('%d' % c)
            elif c == 1:
                out.append(s)
            else:
                out.append('%d*%s' % (c, s))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op in ('var', 'bvar', 'fvar'):
        return t.a[0]
    if op == 'app':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d) for x in t.a[3:]))
    if op == 'abase':
        return t.a[0]
    if op in ('sel', 'fsel'):
        return '%s[%s]' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'le0':
        return show(t.a[0], d) + '<=0'
    if op == 'eq0':
        return show(t.a[0], d) + '=0'
    if op == 'not':
        return '!' + show(t.a[0], d)
    if op == 'fconst':
        return '%r' % fpy(t)
    if op == 'true':
        return 'T'
    if op == 'false':
        return 'F'
    return '%s(%s)' % (op, ','.join(show(x, d) if isinstance(x, T) else str(x) for x in t.a))


def subst(t, m, memo=None):
    """replace terms (atoms/vars) by map m: T->T (poly for int atoms)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    op = t.op
    S = lambda x: subst(x, m, memo)
    if op == 'P':
        acc = ZERO
        for mono, c in t.a:
            p = I(c)
            for at in mono:
                if at in m:
                    x = m[at]
                else:
                    x = S(at)
                    if x.op != 'P':
                        x = atom(x)
                p = mul(p, x)
            acc = add(acc, p)
        r = acc
    elif not any(isinstance(x, T) for x in t.a):
        r = t
    else:
        a = tuple(S(x) if isinstance(x, T) else x for x in t.a)
        if a == t.a:
            r = t
        elif op == 'le0':
            r = le0(a[0])
        elif op == 'eq0':
            r = eq0(a[0])
        elif op == 'not':
            r = Not(a[0])
        elif op == 'and':
            r = And(*a)
        elif op == 'iff':
            r = Iff(*a)
        elif op == 'ite':
            r = ite(a[0], a[1], ZERO)
        elif op == 'ite3':
            r = ite(*a)
        elif op == 'mod':
            r = imod(*a)
        elif op == 'div':
            r = idiv(*a)
        elif op == 'sel':
            r = select(a[0], a[1])
        elif op == 'fsel':
            r = select(a[0], a[1])
        elif op == 'fop':
            r = fop(a[0], int(t.sort[1:]), *a[1:])
        elif op == 'fite':
            r = fite(*a)
        elif op == 'i2f':
            r = i2f(int(t.sort[1:]), a[0])
        elif op == 'fcmp':
            r = fcmp(*a)
        elif op == 'fclass':
            r = fclass(*a)
        elif op == 'fsame':
            r = fsame(*a)
        elif op == 'fbits':
            r = fbits(a[0])
        elif op == 'bits2f':
            r = bits2f(int(t.sort[1:]), a[0])
        else:
            r = mk(op, a, t.sort)
    memo[t] = r
    return r
