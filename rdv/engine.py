"""Verification condition generator: path-wise symbolic execution of LLVM IR between loop heads.

Every load/store/free/call produces obligations; loops are cut at their heads and handled by
invariants (candidates generated from the loop itself and from the function's specification,
filtered to the inductive subset); calls of functions under contract use the contract, other
functions defined in the library are executed in place; external functions have trusted contracts.
"""
import copy
import os
import time
from terms import *
import solver
from ir import Unsupported, Ty, PTR, IntTy, F32T, F64T


DEBUG = bool(os.environ.get('RDV_DEBUG'))


class VInt:
    __slots__ = ('w', 'p')

    def __init__(self, w, p):
        self.w = w
        self.p = p

    def __repr__(self):
        return 'i%d:%r' % (self.w, self.p)


class VBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'b:%r' % self.b


class VF:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'f:%r' % self.t


class VPtr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=ZERO):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'null' if self.obj is None else '&%s+%r' % (self.obj, self.off)


class VFn:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod=None):
        self.name = name
        self.mod = mod

    def __repr__(self):
        return 'fn' + self.name


class VUndef:
    def __repr__(self):
        return 'undef'


UNDEF = VUndef()
NULL = VPtr(None)


def is_null(v):
    return isinstance(v, VPtr) and v.obj is None


class Obj:
    __slots__ = ('name', 'kind', 'size', 'live', 'writable', 'cells', 'stride', 'fields', 'default', 'meta', 'born', 'lazy')

    def __init__(self, name, kind, size, **kw):
        self.name = name
        self.kind = kind          # heap stack global const param opaque
        self.size = toI(size)
        self.live = True
        self.writable = kw.get('writable', True)
        self.cells = {}
        self.stride = kw.get('stride')
        self.fields = {}
        self.default = kw.get('default', 'undef')   # undef | zero | lazy
        self.meta = kw.get('meta', {})
        self.born = 0
        self.lazy = None

    def clone(self):
        o = copy.copy(self)
        o.cells = dict(self.cells)
        o.fields = dict(self.fields)
        o.meta = dict(self.meta)
        return o


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'env', 'allocas', 'path', 'loops', 'retdst', 'unroll', 'depthobj')

    def __init__(self, fn, path):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.ip = 0
        self.env = {}
        self.allocas = []
        self.path = path
        self.loops = []      # active cut loops: list of (header, key, info)
        self.retdst = None
        self.unroll = {}

    def clone(self):
        f = copy.copy(self)
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        f.loops = list(self.loops)
        f.unroll = dict(self.unroll)
        return f


JUMPED = object()       # outcome of a call that continues elsewhere (longjmp)


def single_div(p):
    """(x, y) if p is x / y; the code divides only where the divisor is known not to be zero"""
    if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0].op == 'div':
        return p.a[0][0][0].a
    return None


class Dead(Exception):
    """the current path is infeasible"""


class State:
    def __init__(self):
        self.pc = []
        self.pcset = set()
        self.bounds = {}
        self.objs = {}
        self.frames = []
        self.ghost = {}
        self.counts = {}
        self.clock = 0
        self.steps = 0
        self.note = []
        self.q = {}

    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.bounds = dict(self.bounds)
        s.objs = dict(self.objs)
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.counts = dict(self.counts)
        s.clock = self.clock
        s.steps = self.steps
        s.note = list(self.note)
        s.q = self.q
        return s

    def site(self, base):
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        return '%s#%d' % (base, n)

    def assume(self, b):
        if b is TRUE:
            return
        if b is FALSE:
            raise Dead()
        if b.op == 'and':
            for x in b.a:
                self.assume(x)
            return
        if b in self.pcset:
            return
        if Not(b) in self.pcset:
            raise Dead()
        self.pc.append(b)
        self.pcset.add(b)
        if b.op in ('le0', 'eq0'):
            p = b.a[0]
            nz = [(m, c) for m, c in p.a if m != ()]
            if len(nz) == 1 and len(nz[0][0]) == 1:
                at = nz[0][0][0]
                c = nz[0][1]
                k = p.a[0][1] if p.a[0][0] == () else 0
                lo, hi = self.bounds.get(at) or atom_range(at)
                if b.op == 'eq0':
                    if (-k) % c == 0:
                        lo = hi = (-k) // c
                elif c > 0:       # c*x + k <= 0  -> x <= floor(-k/c)
                    h = (-k) // c
                    hi = h if hi is None else min(hi, h)
                else:             # x >= ceil(k/-c)
                    l = -((-k) // (-c)) if False else -(-k // -c)
                    l = -((-k) // (-c))
                    lo = l if lo is None else max(lo, l)
                if lo is not None and hi is not None and lo > hi:
                    raise Dead()
                self.bounds[at] = (lo, hi)

    def obj(self, name):
        return self.objs[name]

    def wobj(self, name):
        o = self.objs[name].clone()
        self.objs[name] = o
        return o

    @property
    def fr(self):
        return self.frames[-1]


class Obl:
    """one proof obligation (aggregated over the paths that generate it)"""

    def __init__(self, name, kind, loc):
        self.name, self.kind, self.loc = name, kind, loc
        self.n = 0
        self.proved = 0
        self.fails = []
        self.backends = {}


class Restart(Exception):
    pass


class Engine:
    def __init__(self, modules, contracts=None, externs=None, opts=None):
        self.mods = modules
        self.contracts = contracts or {}
        self.externs = externs or {}
        self.opts = opts or {}
        self.obls = {}
        self.final = True
        self.cands = {}      # key -> list of [id, formula]
        self.dropped = {}    # key -> set of ids
        self.modset = {}     # key -> set
        self.exits = {}
        self.mconds = {}      # key -> {cond}
        self.deltas = {}     # key -> var -> delta or False
        self.loopvars = {}
        self.mode = {}
        self.templates = {}  # function name -> callable(ctx) -> [(id, formula)]
        self.measures = {}   # key -> {measure id: (formula, ok)}
        self.termok = {}
        self.changed = False
        self.growing = False
        self.pending = {}
        self.instances = {}
        self.inlined = set()
        self.used_contracts = set()
        self.ptrto = {}
        self.used_externs = set()
        self.gl_done = {}
        self.paths = 0
        self.global_writes = []
        self.uid = ''
        self.on_exit = None
        self.timeout = self.opts.get('timeout', 10000)
        self.maxpaths = self.opts.get('maxpaths', 20000)
        self.funcs_seen = {}
        self.smoke = []

    # ------------------------------------------------------------ proving
    def quick(self, st, b):
        if b is TRUE or b in st.pcset:
            return True
        if b is FALSE or Not(b) in st.pcset:
            return False
        if b.op == 'le0':
            lo, hi = rng(b.a[0], st.bounds)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif b.op == 'eq0':
            lo, hi = rng(b.a[0], st.bounds)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        elif b.op == 'not' and b.a[0].op == 'eq0':
            lo, hi = rng(b.a[0].a[0], st.bounds)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
        elif b.op == 'and':
            rs = [self.quick(st, x) for x in b.a]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif b.op == 'not' and b.a[0].op == 'and':
            rs = [self.quick(st, x) for x in b.a[0].a]
            if any(r is False for r in rs):
                return True
            if all(r is True for r in rs):
                return False
        return None

    def ctx(self, st, goal):
        """path condition plus the instances of the array facts at the indices that occur"""
        if not st.q:
            return st.pc
        pc = list(st.pc)
        done = set()
        work = pc + [goal]
        for _ in range(3):
            new = []
            for t in work:
                for x in solver.atoms_of(t):
                    if x.op in ('sel', 'fsel') and x.a[0] in st.q and x not in done:
                        done.add(x)
                        for fn in st.q[x.a[0]]:
                            f = self.instances.get((fn, x.a[1]))
                            if f is None:
                                f = self.instances[(fn, x.a[1])] = fn(x.a[1])
                            new.append(f)
            if not new or len(done) > 400:
                break
            new = [x for x in new if x is not TRUE]
            pc += new
            work = new
        return pc

    def proves(self, st, b, timeout=None, fp=False, cheap=False):
        q = self.quick(st, b)
        if q is not None:
            if q is True:
                return True
            # quick False: b contradicts pc syntactically; only provable if pc is unsat
        r = solver.check(self.ctx(st, b), b, timeout or min(self.timeout, 3000), fp, cheap=cheap)
        return r[0] == 'proved'

    def decide(self, st, b):
        """True / False / None"""
        q = self.quick(st, b)
        if q is not None:
            return q
        if solver.check(self.ctx(st, b), b, 2000, cheap=True)[0] == 'proved':
            return True
        if solver.check(self.ctx(st, b), Not(b), 2000, cheap=True)[0] == 'proved':
            return False
        return None

    def feasible(self, st):
        return solver.check(self.ctx(st, FALSE), FALSE, 2000, cheap=True)[0] != 'proved'

    def decider(self, st):
        return lambda c: self.decide(st, c)

    def oblige(self, st, name, kind, b, fp=False, assume=True, loc=None):
        """proof obligation: pc => b"""
        kinds = self.opts.get('kinds')
        if kinds and kind not in kinds:
            if assume:
                st.assume(b)
            return
        only = self.opts.get('only')
        if only and kind in ('post', 'pre', 'leak') and not any(x in name for x in only):
            if assume:
                st.assume(b)
            return
        if self.final:
            f = st.frames[-1] if st.frames else None
            if loc is None:
                loc = self.where(st)
            o = self.obls.get((name, kind))
            if o is None:
                o = self.obls[(name, kind)] = Obl(name, kind, loc)
            o.n += 1
            if self.quick(st, b) is True:
                o.proved += 1
                o.backends['normalisation'] = o.backends.get('normalisation', 0) + 1
            else:
                r = solver.check(self.ctx(st, b), b, self.timeout, fp, want_model=True)
                if r[0] != 'proved' and not fp and b.op != 'false' and any(x.op == 'fop' for t in [b] for x in solver.atoms_of(t)):
                    r2 = solver.check(self.ctx(st, b), b, self.timeout, True, want_model=True)
                    if r2[0] == 'proved':
                        r = r2
                if r[0] == 'proved':
                    o.proved += 1
                    o.backends['z3'] = o.backends.get('z3', 0) + 1
                else:
                    o.fails.append(dict(result=r[0], info=r[1], goal=show(b)[:2000], at=loc, path=list(st.note)[-12:],
                                        pc=[show(x)[:300] for x in solver.relevant(self.ctx(st, b), b)][-40:]))
        if assume:
            st.assume(b)

    def where(self, st):
        return self.curloc

    curloc = ''

    # ------------------------------------------------------------ integer views
    def uview(self, st, v):
        p, w = v.p, v.w
        M = 1 << w
        lo, hi = rng(p, st.bounds)
        if lo is not None and hi is not None:
            if lo >= 0 and hi < M:
                return p
            if lo >= -M and hi < 0:
                return add(p, I(M))
        if cval(p) is not None:
            return I(cval(p) % M)
        if self.proves(st, And(ge(p, ZERO), lt(p, I(M)))):
            return p
        if lo is None or lo < 0:
            if self.proves(st, And(lt(p, ZERO), ge(p, I(-M)))):
                return add(p, I(M))
        return imod(p, I(M))

    def sview(self, st, v):
        p, w = v.p, v.w
        H = 1 << (w - 1)
        lo, hi = rng(p, st.bounds)
        if lo is not None and hi is not None:
            if lo >= -H and hi < H:
                return p
            if lo >= H and hi < 2 * H:
                return sub(p, I(2 * H))
        if cval(p) is not None:
            c = cval(p) % (2 * H)
            return I(c - 2 * H if c >= H else c)
        if self.proves(st, And(ge(p, I(-H)), lt(p, I(H)))):
            return p
        u = self.uview(st, v)
        d = self.decide(st, lt(u, I(H)))
        if d is True:
            return u
        if d is False:
            return sub(u, I(2 * H))
        return ite(lt(u, I(H)), u, sub(u, I(2 * H)))

    def as_int(self, st, v, w=None):
        """coerce to VInt"""
        if isinstance(v, VInt):
            return v
        if isinstance(v, VBool):
            return VInt(w or 1, b2i(v.b))
        if isinstance(v, VUndef):
            return VInt(w or 32, fresh('undef', 0, (1 << (w or 32)) - 1))
        raise Unsupported('not an integer: %r' % v)

    def as_bool(self, st, v):
        if isinstance(v, VBool):
            return v.b
        if isinstance(v, VInt):
            return ne(self.uview(st, v), ZERO)
        if isinstance(v, VUndef):
            return bfresh('undef')
        raise Unsupported('not a bool')

    # ------------------------------------------------------------ memory
    def new_obj(self, st, name, kind, size, **kw):
        o = Obj(name, kind, size, **kw)
        st.clock += 1
        o.born = st.clock
        if name in st.objs:
            raise Unsupported('object name clash ' + name)
        st.objs[name] = o
        for fr in st.frames:
            pass
        return VPtr(name)

    def mem_ok(self, st, ptr, size, what, write=False):
        """obligations of an access of `size` bytes (poly) at ptr"""
        if not isinstance(ptr, VPtr):
            if isinstance(ptr, VUndef):
                self.oblige(st, 'uninitialised pointer at %s' % self.curloc, 'mem', FALSE)
                raise Dead()
            raise Unsupported('access through %r' % ptr)
        if ptr.obj is None:
            self.oblige(st, 'null dereference (%s) at %s' % (what, self.curloc), 'mem', FALSE)
            raise Dead()
        o = st.objs[ptr.obj]
        if not o.live:
            self.oblige(st, 'use of released memory %s (%s) at %s' % (o.name, what, self.curloc), 'mem', FALSE)
            raise Dead()
        if o.kind in ('opaque', 'resource'):
            raise Unsupported('access to opaque object %s' % o.name)
        self.oblige(st, '%s in bounds at %s' % (what, self.curloc), 'mem',
                    And(ge(ptr.off, ZERO), le(add(ptr.off, toI(size)), o.size)))
        if write and not o.writable:
            self.oblige(st, 'write to constant object %s at %s' % (o.name, self.curloc), 'frame', FALSE)
            raise Dead()
        if write and self.opts.get('kinds'):
            self.oblige(st, '%s: every store goes to memory the call was given or allocated' % st.fr.fn.name, 'frame', Bc(o.kind not in ('global', 'const')), assume=False)
        if write and o.kind == 'global':
            self.global_writes.append((o.name, self.curloc))
            self.oblige(st, 'write to shared global %s at %s' % (o.name, self.curloc), 'shared', FALSE)
        return o

    probing = False
    stale = False

    def note_write(self, st, o, desc):
        if self.probing:
            return
        for fr in st.frames:
            for (h, key, info) in fr.loops:
                if o is None or info['clock'] >= o.born:
                    ms = self.modset.setdefault(key, set())
                    if desc not in ms:
                        ms.add(desc)
                        self.changed = True
                        self.stale = True       # finish this path, to find its other writes, then start again

    def split(self, o, off, n):
        """array addressing of offset: (field, index) for object o with stride"""
        nz = [(m, c) for m, c in off.a if m != ()]
        k = off.a[0][1] if off.a and off.a[0][0] == () else 0
        s = o.stride
        if s is None:
            g = 0
            for m, c in nz:
                g = gcd(g, c)
            if g == 0:
                return None
            s = g
            hint = self.gephint.get(o.name)
            if hint and n <= hint and g % hint == 0:
                s = hint
        for m, c in nz:
            if c % s:
                raise Unsupported('access to %s at %r not aligned to its element size %d' % (o.name, off, s))
        f = k % s
        if f + n > s:
            raise Unsupported('access of %d bytes at field %d of stride %d (%s)' % (n, f, s, o.name))
        return s, f, idiv(sub(off, I(f)), I(s))

    def to_array(self, st, name, stride):
        """switch an object from cells to array representation"""
        o = st.wobj(name)
        o.stride = stride
        for off, (n, v) in sorted(o.cells.items()):
            f = off % stride
            if f + n > stride:
                raise Unsupported('cell crosses stride')
            kind = self.kind_of(v, n)
            if kind is None:
                continue
            arr = o.fields.get(f)
            if arr is None:
                arr = (n, kind, self.fresh_field(o, f, n, kind))
            o.fields[f] = (n, kind, astore(arr[2], I(off // stride), self.raw(st, v, n)))
        o.cells = {}
        return o

    def kind_of(self, v, n):
        if isinstance(v, VF):
            return 'F%d' % fw(v.t)
        if isinstance(v, (VInt, VBool)):
            return 'I'
        if isinstance(v, VUndef):
            return None
        if isinstance(v, VPtr) and v.obj is not None:
            return 'I'
        if isinstance(v, (VPtr, VFn)):
            return 'P'
        raise Unsupported('array of %r' % v)

    def raw(self, st, v, n, o=None):
        if isinstance(v, VF):
            return v.t
        if isinstance(v, (VInt, VBool)):
            return self.uview(st, self.as_int(st, v, 8 * n))
        if isinstance(v, VPtr) and v.obj is not None and o is not None:
            # an array of pointers into one object: their offsets
            if self.ptrto.setdefault(o.name, v.obj) != v.obj:
                raise Unsupported('array of pointers into several objects')
            return v.off
        raise Unsupported('raw %r' % v)

    def fresh_field(self, o, f, n, kind):
        if kind == 'P':
            raise Unsupported('symbolic pointer array %s' % o.name)
        if o.default == 'zero':
            return aconst(ZERO if kind == 'I' else fconst(int(kind[1:]), 0))
        nm = '%s.%d' % (o.name, f) if o.default == 'lazy' else '%s.%d.uninit' % (o.name, f)
        if kind == 'I':
            return abase(nm, 'I', 0, (1 << (8 * n)) - 1)
        return abase(nm, kind)

    def load(self, st, ty, ptr, mod, checked=False):
        n = mod.size(ty)
        if not checked:
            self.mem_ok(st, ptr, n, 'load')
        o = st.objs[ptr.obj]
        if o.meta.get('hook_load'):
            r = o.meta['hook_load'](self, st, o, ptr, ty, n)
            if r is not None:
                return r
        off = ptr.off
        c = cval(off)
        if o.stride is None and c is not None:
            return self.load_cell(st, o, c, n, ty)
        if o.stride is None and o.cells and cval(o.size) is not None and cval(o.size) <= 128:
            # small object, symbolic index: the caller forks
            raise ForkIndex(ptr, off, n)
        sp = self.split(o, off, n)
        s, f, idx = sp
        if o.stride is None:
            o = self.to_array(st, o.name, s)
        want = 'F%d' % ty.w if ty.k == 'f' else 'I' if ty.k == 'i' or o.name in self.ptrto else 'P'
        fld = o.fields.get(f)
        if fld is None:
            # covering byte fields?
            fld = (n, want, self.fresh_field(o, f, n, want))
            if o.default != 'undef' or True:
                o = st.wobj(o.name)
                o.fields[f] = fld
        if fld[0] != n:
            raise Unsupported('load of %d bytes from field of %d bytes' % (n, fld[0]))
        t = select(fld[2], idx, self.decider(st))
        if o.meta.get('on_read'):
            for b in o.meta['on_read'](idx, t):
                st.assume(b)
        if ty.k == 'ptr' and t.sort == 'I' and o.name in self.ptrto:
            return VPtr(self.ptrto[o.name], t)
        return self.conv_raw(t, ty, n)

    def conv_raw(self, t, ty, n):
        if ty.k == 'f':
            if t.sort == 'I':
                return VF(bits2f(ty.w, t))
            return VF(t)
        if ty.k == 'i':
            if t.sort != 'I':
                t = fbits(t)
            if ty.w == 1:
                return VBool(ne(t, ZERO))
            return VInt(ty.w, t)
        raise Unsupported('raw to %r' % ty)

    def load_cell(self, st, o, off, n, ty):
        cell = o.cells.get(off)
        if cell and cell[0] == n:
            return self.retype(st, cell[1], ty, n)
        over = [(co, cn, cv) for co, (cn, cv) in o.cells.items() if co < off + n and off < co + cn]
        if not over:
            if o.default == 'zero':
                if ty.k == 'i':
                    return VBool(FALSE) if ty.w == 1 else VInt(ty.w, ZERO)
                if ty.k == 'f':
                    return VF(fconst(ty.w, 0))
                return NULL
            if o.default == 'lazy':
                nm = '%s@%d' % (o.name, off)
                if ty.k == 'i':
                    v = VInt(ty.w, var(nm, 0, (1 << ty.w) - 1))
                elif ty.k == 'f':
                    v = VF(fvar(ty.w, nm))
                else:
                    raise Unsupported('lazy pointer %s' % nm)
                w = st.wobj(o.name)
                w.cells[off] = (n, v)
                return v
            return UNDEF
        # assemble bytes
        acc = ZERO
        for i in range(n):
            b = self.byte_at(st, o, off + i)
            if b is None:
                return UNDEF
            acc = add(acc, scale(b, 1 << (8 * i)))
        if ty.k == 'f':
            return VF(bits2f(ty.w, acc))
        if ty.k == 'i':
            return VInt(ty.w, acc)
        raise Unsupported('pointer from bytes')

    def byte_at(self, st, o, off):
        for co, (cn, cv) in o.cells.items():
            if co <= off < co + cn:
                if isinstance(cv, VUndef):
                    return None
                if isinstance(cv, VF):
                    u = fbits(cv.t)
                elif isinstance(cv, (VInt, VBool)):
                    u = self.uview(st, self.as_int(st, cv, 8 * cn))
                else:
                    raise Unsupported('byte of pointer')
                k = off - co
                if cn == 1:
                    return u
                return imod(idiv(u, I(1 << (8 * k))), I(256))
        if o.default == 'zero':
            return ZERO
        return None

    def retype(self, st, v, ty, n):
        if ty.k == 'f' and isinstance(v, VInt):
            return VF(bits2f(ty.w, self.uview(st, v)))
        if ty.k == 'i' and isinstance(v, VF):
            return VInt(ty.w, fbits(v.t))
        if ty.k == 'i' and ty.w == 1 and isinstance(v, VInt):
            return VBool(ne(self.uview(st, v), ZERO))
        if ty.k == 'i' and isinstance(v, VInt) and v.w != ty.w:
            return VInt(ty.w, self.uview(st, v))
        if ty.k == 'ptr' and isinstance(v, VInt):
            if cval(v.p) == 0:
                return NULL
            raise Unsupported('integer as pointer')
        if ty.k == 'i' and isinstance(v, VPtr):
            raise Unsupported('pointer as integer')
        return v

    def store(self, st, ty, v, ptr, mod, checked=False):
        n = mod.size(ty)
        if not checked:
            self.mem_ok(st, ptr, n, 'store', True)
        o = st.objs[ptr.obj]
        if o.meta.get('hook_store'):
            if o.meta['hook_store'](self, st, o, ptr, v, n):
                return
        off = ptr.off
        c = cval(off)
        if o.stride is None and c is not None:
            self.note_write(st, o, ('cell', o.name, c, n))
            self.store_cell(st, o.name, c, n, v)
            return
        if o.stride is None and o.cells and cval(o.size) is not None and cval(o.size) <= 128:
            raise ForkIndex(ptr, off, n)
        s, f, idx = self.split(o, off, n)
        if o.stride is None:
            o = self.to_array(st, o.name, s)
        kind = self.kind_of(v, n)
        self.pass_strides.setdefault(o.name, s)
        if kind is not None:
            self.pass_kinds.setdefault((o.name, f), kind)
        self.note_write(st, o, ('field', o.name, f, n))
        if kind is None:
            if isinstance(v, VUndef):
                fld = o.fields.get(f)
                if fld is None:
                    return
                v = VF(ffresh(int(fld[1][1:]), 'undef')) if fld[1] != 'I' else VInt(8 * n, fresh('undef', 0, (1 << (8 * n)) - 1))
                kind = fld[1]
        fld = o.fields.get(f)
        if fld is None:
            fld = (n, kind, self.fresh_field(o, f, n, kind))
        if fld[0] != n:
            raise Unsupported('store of %d bytes to field of %d' % (n, fld[0]))
        rawv = self.raw(st, v, n, o)
        if fld[1] != kind:
            if fld[1] == 'I':
                rawv = fbits(rawv)
            else:
                rawv = bits2f(int(fld[1][1:]), rawv)
            kind = fld[1]
        o = st.wobj(o.name)
        o.fields[f] = (n, kind, astore(fld[2], idx, rawv))

    def store_cell(self, st, name, off, n, v):
        o = st.wobj(name)
        for co in list(o.cells):
            cn, cv = o.cells[co]
            if co < off + n and off < co + cn and not (co == off and cn == n):
                # keep the bytes outside the store
                bs = {}
                for i in range(cn):
                    if not (off <= co + i < off + n):
                        b = self.byte_at(st, st.objs[name], co + i)
                        bs[co + i] = b
                del o.cells[co]
                for k, b in bs.items():
                    o.cells[k] = (1, UNDEF if b is None else VInt(8, b))
        o.cells[off] = (n, v)

    def memcpy(self, st, dst, src, n, mod):
        c = cval(n)
        if c == 0:
            return
        if c is None:
            so = self.mem_ok(st, src, n, 'memcpy source')
            do = self.mem_ok(st, dst, n, 'memcpy destination', True)
            return self.bulk_copy(st, dst, src, n)
        so = self.mem_ok(st, src, n, 'memcpy source')
        do = self.mem_ok(st, dst, n, 'memcpy destination', True)
        vals = []
        if so.stride is None and cval(src.off) is not None:
            b = cval(src.off)
            done = 0
            items = sorted((co, cn, cv) for co, (cn, cv) in so.cells.items() if co < b + c and b < co + cn)
            for co, cn, cv in items:
                if co >= b and co + cn <= b + c:
                    vals.append((co - b, cn, cv))
                else:
                    for i in range(max(co, b), min(co + cn, b + c)):
                        x = self.byte_at(st, so, i)
                        vals.append((i - b, 1, UNDEF if x is None else VInt(8, x)))
            have = set(k for o_, n_, _ in vals for k in range(o_, o_ + n_))
            if so.default == 'zero' and len(have) < c:
                for i in range(c):
                    if i not in have:
                        vals.append((i, 1, VInt(8, ZERO)))
            elif so.default == 'lazy' and len(have) < c:
                lay = so.meta.get('layout')
                if not lay:
                    raise Unsupported('memcpy from lazy object without layout')
                for lo_, ln, lty in lay:
                    if b <= lo_ and lo_ + ln <= b + c and (lo_ - b) not in have:
                        vals.append((lo_ - b, ln, self.load_cell(st, st.objs[so.name], lo_, ln, lty)))
        else:
            if so.stride is None:
                sp = self.split(so, src.off, 1)
                so = self.to_array(st, so.name, sp[0] if sp else 1)
            s = so.stride
            fl = sorted(so.fields.items())
            if not fl and s <= 8:
                fl = [(0, (1, 'I', None))] if s == 1 else []
            i = 0
            if not fl:
                raise Unsupported('memcpy from unknown array')
            # iterate elements covered
            base = src.off
            nz = [(m, cc) for m, cc in base.a if m != ()]
            k = base.a[0][1] if base.a and base.a[0][0] == () else 0
            for e in range(-1, c // s + 2):
                for f, (fn_, kind, arr) in fl:
                    o_ = e * s + f - (k % s)
                    if o_ >= 0 and o_ + fn_ <= c:
                        ty = IntTy(8 * fn_) if kind == 'I' else (F32T if kind == 'F32' else F64T)
                        vals.append((o_, fn_, self.load(st, ty, VPtr(src.obj, add(src.off, I(o_))), mod, True)))
        for o_, n_, v in vals:
            ty = IntTy(8 * n_) if isinstance(v, (VInt, VBool, VUndef)) else (PTR if isinstance(v, (VPtr, VFn)) else Ty('f', fw(v.t)))
            if isinstance(v, VUndef) and st.objs[dst.obj].stride is not None:
                continue
            self.store(st, ty, v, VPtr(dst.obj, add(dst.off, I(o_))), mod, True)

    def bulk_copy(self, st, dst, src, n):
        so = st.objs[src.obj]
        do = st.objs[dst.obj]
        s = so.stride or do.stride
        if s is None:
            raise Unsupported('bulk copy of untyped memory')
        if so.stride is None:
            so = self.to_array(st, so.name, s)
        if do.stride is None:
            do = self.to_array(st, do.name, s)
        if so.stride != do.stride:
            raise Unsupported('bulk copy between different strides')
        for q in (src.off, dst.off, n):
            if any(c % s for m, c in q.a):
                raise Unsupported('bulk copy not aligned')
        for f, (fn_, kind, arr) in so.fields.items():
            d = do.fields.get(f) or (fn_, kind, self.fresh_field(do, f, fn_, kind))
            if d[1] != kind:
                raise Unsupported('bulk copy kinds')
            self.note_write(st, do, ('field', do.name, f, fn_))
            do = st.wobj(do.name)
            do.fields[f] = (fn_, kind, acopy(d[2], idiv(dst.off, I(s)), idiv(n, I(s)), arr, idiv(src.off, I(s))))

    def memset(self, st, dst, val, n, mod):
        if cval(n) == 0:
            return
        self.mem_ok(st, dst, n, 'memset', True)
        c = cval(n)
        v = cval(val) if val is not None else None
        if c is not None and c <= 4096 and cval(dst.off) is not None and st.objs[dst.obj].stride is None:
            b = cval(dst.off)
            o = st.wobj(dst.obj)
            self.note_write(st, o, ('cell', o.name, b, c))
            for co in list(o.cells):
                cn = o.cells[co][0]
                if co < b + c and b < co + cn:
                    if co >= b and co + cn <= b + c:
                        del o.cells[co]
                    else:
                        raise Unsupported('memset partial cell')
            if v == 0 and b == 0 and cval(o.size) == c:
                o.default = 'zero'
            else:
                for i in range(c):
                    o.cells[b + i] = (1, VInt(8, val))
            return
        do = st.objs[dst.obj]
        if v != 0:
            raise Unsupported('memset nonzero bulk')
        s = do.stride
        if not s:
            if cval(dst.off) == 0 and do.size is n:
                o = st.wobj(dst.obj)
                o.cells = {}
                o.fields = {}
                o.default = 'zero'
                self.note_write(st, o, ('all', o.name))
                return
            raise Unsupported('memset untyped')
        for f, (fn_, kind, arr) in list(do.fields.items()):
            self.note_write(st, do, ('field', do.name, f, fn_))
            do = st.wobj(do.name)
            do.fields[f] = (fn_, kind, acopy(arr, idiv(dst.off, I(s)), idiv(n, I(s)), aconst(ZERO if kind == 'I' else fconst(int(kind[1:]), 0)), ZERO))

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name, mod):
        g = mod.globals.get(name)
        if g is None:
            # function?
            if name in mod.funcs or name in mod.decls:
                return VFn(name, mod)
            raise Unsupported('unknown global ' + name)
        owner = mod
        if g['ext']:
            owner = None
            for m in self.mods.values():
                h = m.globals.get(name)
                if h and not h['ext'] and not h['internal']:
                    owner = m
                    g = h
                    break
            if owner is None:
                on = 'ext' + name
                if on not in st.objs:
                    if name in self.opts.get('extern_globals', {}):
                        self.opts['extern_globals'][name](self, st, on)
                    else:
                        st.objs[on] = Obj(on, 'opaque', I(0))
                return VPtr(on)
        on = owner.name + name
        if on not in st.objs:
            sz = owner.size(g['ty'])
            o = Obj(on, 'global', I(sz), default='zero')
            o.writable = not g['const']
            o.kind = 'const' if g['const'] else 'global'
            st.objs[on] = o
            self.init_global(st, o, 0, g['ty'], g['init'], owner)
        return VPtr(on)

    def init_global(self, st, o, off, ty, v, mod):
        t = mod.res(ty)
        if v[0] in ('zero', 'undef'):
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, VInt(8, I(b)))
            return
        if v[0] == 'agg':
            if t.k == 'arr':
                s = mod.size(t.el)
                for i, (et, ev) in enumerate(v[1]):
                    self.init_global(st, o, off + i * s, et, ev, mod)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self.init_global(st, o, off + mod.field_off(t, i), et, ev, mod)
            return
        o.cells[off] = (mod.size(t), self.const(st, ty, v, mod))

    def const(self, st, ty, v, mod):
        k = v[0]
        if k == 'c':
            if ty.k == 'i' and ty.w == 1:
                return VBool(Bc(v[1] & 1))
            return VInt(ty.w, I(v[1]))
        if k == 'f':
            return VF(fconst(ty.w, v[1]))
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return VInt(ty.w, ZERO) if ty.k == 'i' else VF(fconst(ty.w, 0)) if ty.k == 'f' else NULL
        if k == 'g':
            return self.global_ptr(st, v[1], mod)
        if k == 'gep':
            b = self.const(st, PTR, v[1], mod)
            return VPtr(b.obj, add(b.off, I(v[2])))
        raise Unsupported('const %r' % (v,))

    def val(self, st, ty, v):
        fr = st.fr
        if v[0] == 'r':
            return fr.env[v[1]]
        return self.const(st, ty, v, fr.fn.mod)

    # ------------------------------------------------------------ running
    def find(self, name, mod=None):
        if mod and name in mod.funcs:
            return mod.funcs[name]
        for m in self.mods.values():
            f = m.funcs.get(name)
            if f and not f.internal:
                return f
        return None

    def push(self, st, fn, args, retdst=None, path=''):
        if len(st.frames) > 40 or sum(1 for f in st.frames if f.fn is fn) > 2:
            raise Unsupported('recursion of ' + fn.name)
        fr = Frame(fn, path + '/' + fn.name.lstrip('@'))
        for (t, n), a in zip(fn.params, args):
            if n == '...':
                raise Unsupported('variadic definition')
            fr.env[n] = a
        fr.retdst = retdst
        st.frames.append(fr)
        self.funcs_seen[fn.name.lstrip('@')] = fn.mod.name

    def run(self, st, fn, args, on_exit):
        """execute until all paths ended; on_exit(st, retval)"""
        saved = self.on_exit, getattr(self, 'base', 0)
        self.on_exit = on_exit
        depth0 = len(st.frames)
        self.base = depth0
        self.push(st, fn, args)
        work = [st]
        while work:
            s = work.pop()
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths')
            new = ()
            try:
                new = self.exec(s)
            except Dead:
                pass
            if DEBUG and not new:
                import collections
                self.ends = getattr(self, 'ends', None) or collections.Counter()
                self.ends[self.curloc + ' ' + '|'.join(s.note[-4:])] += 1
            if self.stale and not new:
                raise Restart()
            work += new
        self.on_exit, self.base = saved

    # ------------------------------------------------------------ joining paths
    joins = None

    def signature(self, st):
        def val(v):
            if isinstance(v, VInt):
                return ('i', v.w, v.p)
            if isinstance(v, VBool):
                return ('b', v.b)
            if isinstance(v, VF):
                return ('f', v.t)
            if isinstance(v, VPtr):
                return ('p', v.obj, v.off)
            if isinstance(v, VFn):
                return ('n', v.name, getattr(v.mod, 'name', None))
            if isinstance(v, VUndef):
                return 'u'
            if isinstance(v, dict):
                return tuple(sorted((k, val(x)) for k, x in v.items()))
            if isinstance(v, (list, tuple)):
                return tuple(val(x) for x in v)
            if isinstance(v, set):
                return tuple(sorted(map(repr, v)))
            return v if isinstance(v, (T, str, int, bool, type(None))) else repr(v)
        objs = tuple((n, o.kind, o.size, o.writable, o.stride, o.born, val(o.default), val(o.lazy), tuple(sorted((k, c[0], val(c[1])) for k, c in o.cells.items())),
                      tuple(sorted((k, f[0], f[1], f[2]) for k, f in o.fields.items())), tuple(sorted((k, val(x)) for k, x in o.meta.items() if not callable(x))))
                     for n, o in sorted(st.objs.items()) if o.live)
        fr = tuple((f.fn.name, f.block, f.ip, f.path, tuple(sorted((k, val(v)) for k, v in f.env.items())), tuple((h, k) for h, k, _ in f.loops), tuple(sorted(f.unroll.items()))) for f in st.frames)
        return (objs, fr, tuple(sorted((k, val(v)) for k, v in st.ghost.items())), tuple(sorted((a.id, fs) for a, fs in st.q.items())))

    def join(self, st, tag):
        """several paths that arrive here in the same state, up to the path condition, go on as one, under what they all know
        (found in the previous pass; a path that does not know it goes on by itself)"""
        if self.opts.get('prune'):
            self.prune(st)
        key = (tag, self.signature(st))
        known = self.joins.setdefault(key, [None, None, None])     # known to all (previous pass), in this pass, pass number of the representative
        pc = frozenset(st.pc)
        if known[1] is None or known[2] != self.passno:
            known[0], known[1], known[2] = known[1], pc, self.passno
            if known[0] is None:
                self.changed = self.changed or True
                return
            common = known[0]
            old = st.pc
            st.pc, st.pcset, st.bounds = [], set(), {}
            for b in old:
                if b in common:
                    st.assume(b)
            known.append(frozenset(st.pc))
            del known[3:-1]
            return
        known[1] = known[1] & pc
        if len(known) > 3 and known[3] <= pc:
            self.joined += 1
            raise Dead()
        self.changed = True

    def prune(self, st):
        """forget the registers no instruction that can still be reached uses"""
        for fr in st.frames:
            cache = fr.fn.__dict__.setdefault('_reach', {})
            if fr.block not in cache:
                seen, work = set(), [fr.block]
                while work:
                    for x in fr.fn.succs(work.pop()):
                        if x not in seen:
                            seen.add(x)
                            work.append(x)
                used = set()
                for b in seen | {fr.block}:
                    for i in fr.fn.blocks[b]:
                        regs(i.a, used)
                cache[fr.block] = used
            for r in list(fr.env):
                if r not in cache[fr.block]:
                    del fr.env[r]

    def exec(self, st):
        """run one state until it forks or ends; returns successor states"""
        while True:
            fr = st.fr
            ins = fr.fn.blocks[fr.block][fr.ip]
            if ins.line:
                self.curloc = '%s:%d' % (fr.fn.mod.name, ins.line)
            st.steps += 1
            if st.steps > self.opts.get('maxsteps', 200000):
                raise Unsupported('too many steps')
            try:
                r = self.step(st, fr, ins)
            except ForkIndex as e:
                return self.fork_index(st, e)
            if r is None:
                continue
            return r

    def fork_index(self, st, e):
        o = st.objs[e.ptr.obj]
        out = []
        size = cval(o.size)
        # replace the symbolic offset by each concrete value
        for k in range(0, size - e.n + 1):
            s = st.clone()
            c = eq(e.off, I(k))
            try:
                s.assume(c)
            except Dead:
                continue
            if self.decide(s, TRUE) and not self.feasible(s):
                continue
            # concretise in env of the top frame: all VPtr values with that offset
            f = s.fr
            for r_, v in list(f.env.items()):
                if isinstance(v, VPtr) and v.obj == e.ptr.obj and v.off is e.off:
                    f.env[r_] = VPtr(v.obj, I(k))
            out.append(s)
        return out

    def goto(self, st, target):
        """transfer control to block `target`; may end the path (returns list) or None to continue"""
        fr = st.fr
        fr.prev = fr.block
        # leave loops
        while fr.loops and target not in fr.fn.loops[fr.loops[-1][0]]:
            fr.loops.pop()
        for h in list(fr.unroll):
            if target not in fr.fn.loops[h]:
                del fr.unroll[h]
        # phis
        blk = fr.fn.blocks[target]
        newv = {}
        k = 0
        while k < len(blk) and blk[k].op == 'phi':
            ty, inc = blk[k].a
            for v, b in inc:
                if b == fr.prev or b.strip('"') == fr.prev.strip('"'):
                    newv[blk[k].dst] = self.val(st, ty, v)
                    break
            else:
                raise Unsupported('phi without incoming')
            k += 1
        back = False
        if target in fr.fn.loops:
            back = fr.prev in fr.fn.loops[target]
            r = self.loop_head(st, fr, target, newv, back, k)
            if r is not None:
                return r
        else:
            fr.env.update(newv)
        fr.block = target
        fr.ip = k
        return None

    # ------------------------------------------------------------ loops
    def loop_key(self, st, fr, h):
        u = ','.join('%s=%d' % (x, n) for x, n in sorted(fr.unroll.items()))
        outer = st.frames[-1].path
        uo = ';'.join(','.join('%s=%d' % (x, n) for x, n in sorted(f.unroll.items())) for f in st.frames[self.base:-1])
        return '%s:%s[%s%s]' % (outer, h, u, uo)

    def loop_head(self, st, fr, h, newv, back, nphi):
        if back and h in fr.unroll:
            fr.unroll[h] += 1
            if fr.unroll[h] > self.opts.get('maxunroll', 80):
                raise Unsupported('unrolling limit')
            if fr.unroll[h] == 1 and not self.probing:
                # the second iteration must be decided as well
                k = fr.unroll.pop(h)
                key = self.loop_key(st, fr, h)
                if self.mode.get(key) == 'unroll' and self.probe(st, fr, h, newv, nphi) == 'cut':
                    self.mode[key] = 'cut'
                    self.changed = True
                    raise Restart()
                fr.unroll[h] = k
            fr.env.update(newv)
            return None
        if back:
            # must be an active cut loop
            while fr.loops and fr.loops[-1][0] != h:
                fr.loops.pop()
            if not fr.loops:
                raise Unsupported('back edge without loop')
            return self.loop_back(st, fr, h, newv)
        key = self.loop_key(st, fr, h)
        mode = self.mode.get(key)
        if mode is None:
            mode = self.mode[key] = self.probe(st, fr, h, newv, nphi)
        if mode == 'unroll':
            fr.unroll[h] = 0
            fr.env.update(newv)
            return None
        self.loop_enter(st, fr, h, newv, key)
        return None

    def probe(self, st, fr, h, newv, nphi):
        """unroll the loop iff an exit is decided by constants in the first iteration"""
        ov = self.opts.get('loopmode')
        if ov:
            m = ov(fr.fn.name, h, self)
            if m:
                return m
        body = fr.fn.loops[h]
        s = st.clone()
        f = s.fr
        f.env.update(newv)
        f.prev = f.block
        f.block = h
        f.ip = nphi
        fin = self.final
        self.final = False
        found = [None]
        pr, self.probing = self.probing, True
        try:
            work = [s]
            n = 0
            seen = []
            forked = open_ = False
            while work and n < 30:
                n += 1
                x = work.pop()
                found[0] = None
                try:
                    w = self.probe_iter(x, h, body, len(st.frames), found)
                    forked |= len(w) > 1
                    work += w
                    open_ |= not w and found[0] is None
                except Dead:
                    pass
                except (Restart, Unsupported):
                    open_ = True
                if found[0] is not None:
                    seen.append(found[0])
                    if not forked:
                        break
        finally:
            self.final = fin
            self.probing = pr
        # decided by constants: on the only path, or in the same way on all of them
        return 'unroll' if seen and all(x == seen[0] for x in seen) and not (forked and open_) else 'cut'

    def probe_iter(self, s, h, body, depth, found):
        while True:
            f = s.fr
            ins = f.fn.blocks[f.block][f.ip]
            if len(s.frames) == depth:
                if f.block not in body:
                    return []
                if ins.op in ('condbr', 'switch'):
                    sc = f.fn.succs(f.block)
                    if any(x not in body for x in sc):
                        if ins.op == 'condbr':
                            c = self.as_bool(s, self.val(s, IntTy(1), ins.a[0]))
                            if c in (TRUE, FALSE):
                                found[0] = (f.block, c is TRUE)
                                return []
                if ins.op in ('br', 'condbr') and h in f.fn.succs(f.block) and f.block != h:
                    if ins.op == 'br':
                        return []
                if ins.op in ('br', 'condbr', 'switch'):
                    # do not enter nested loops
                    if any(x in f.fn.loops and x != h and f.block not in f.fn.loops[x] for x in f.fn.succs(f.block)):
                        return []
            try:
                r = self.step(s, f, ins)
            except ForkIndex as e:
                return []
            if r is None:
                continue
            return r

    def hname(self, key, v):
        return 'H{%s}%s' % (key, v)

    def var_view(self, st, v, signed):
        if isinstance(v, VInt):
            return self.sview(st, v) if signed else self.uview(st, v)
        if isinstance(v, VBool):
            return v.b
        if isinstance(v, VF):
            return v.t
        return None

    def is_signed_var(self, fn, reg):
        uses = fn.__dict__.setdefault('_uses', None)
        if uses is None:
            uses = {}
            for b in fn.blocks.values():
                for i in b:
                    def rec(x):
                        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r':
                            uses.setdefault(x[1], []).append(i)
                        elif isinstance(x, (list, tuple)):
                            for y in x:
                                rec(y)
                    rec(list(i.a))
            fn._uses = uses
        seen = set()
        work = [reg]
        while work:
            r = work.pop()
            if r in seen or len(seen) > 20:
                continue
            seen.add(r)
            for i in uses.get(r, []):
                if i.op == 'icmp' and i.a[0] in ('slt', 'sgt', 'sle', 'sge'):
                    return True
                if i.op == 'cast' and i.a[0] in ('sext', 'sitofp'):
                    return True
                if i.op == 'bin' and i.a[0] in ('add', 'sub', 'mul') and 'nsw' in i.a[4]:
                    return True
                if i.op == 'phi':
                    work.append(i.dst)
        return False

    def loop_enter(self, st, fr, h, newv, key):
        st0 = st.clone()
        info = dict(clock=st.clock, entry={}, cur={}, signed={}, key=key, st0=st0, fn=fr.fn, h=h, kinds={})
        entry, head = {}, {}
        sub_ = {}
        # phis
        for r, v in newv.items():
            nm = self.hname(key, r)
            if isinstance(v, VUndef):
                ty = [i for i in fr.fn.blocks[h] if i.op == 'phi' and i.dst == r][0].a[0]
                if ty.k == 'i':
                    v = VInt(ty.w, var(nm + '.undef', 0, (1 << ty.w) - 1)) if ty.w > 1 else VBool(bvar(nm + '.undef'))
                elif ty.k == 'f':
                    v = VF(fvar(ty.w, nm + '.undef'))
                else:
                    fr.env[r] = UNDEF
                    info['kinds'][r] = 'undefptr'
                    continue
            if isinstance(v, VInt):
                sg = self.is_signed_var(fr.fn, r) and v.w > 1
                H = 1 << (v.w - 1)
                hv = var(nm, -H, H - 1) if sg else var(nm, 0, 2 * H - 1)
                info['signed'][r] = sg
                entry[r] = self.var_view(st, v, sg)
                head[r] = hv
                info['kinds'][r] = 'i%d' % v.w
                fr.env[r] = VInt(v.w, hv)
            elif isinstance(v, VBool):
                entry[r] = v.b
                head[r] = bvar(nm)
                info['kinds'][r] = 'b'
                fr.env[r] = VBool(head[r])
            elif isinstance(v, VF):
                entry[r] = v.t
                head[r] = fvar(fw(v.t), nm)
                info['kinds'][r] = v.t.sort
                fr.env[r] = VF(head[r])
            elif isinstance(v, VPtr):
                v = self.nullable(v)
                if v.obj is None:
                    raise Unsupported('null pointer loop variable %s' % r)
                entry[r] = v.off
                head[r] = var(nm)
                info['kinds'][r] = ('ptr', v.obj)
                fr.env[r] = VPtr(v.obj, head[r])
            else:
                raise Unsupported('loop variable %r' % v)
        # memory and ghost state
        ds = set()
        for d in self.modset.get(key, ()):
            if d[0] == 'cell' and d[1] in st.objs and st.objs[d[1]].live:
                s = st.objs[d[1]].stride or (self.pass_strides.get(d[1]) if any(x[0] == 'field' and x[1] == d[1] for x in self.modset[key]) else None)
                if s is not None:
                    d = ('field', d[1], d[2] % s, d[3])
            ds.add(d)
        for d in sorted(ds, key=str):
            if d[0] == 'cell':
                _, on, off, n = d
                if on not in st.objs or not st.objs[on].live:
                    continue
                o = st.objs[on]
                cell = o.cells.get(off)
                nm = self.hname(key, 'mem:%s@%d' % (on, off))
                vn = 'mem:%s@%d' % (on, off)
                if cell is None or cell[0] != n:
                    if o.default == 'lazy' or o.default == 'zero':
                        ty = self.opts.get('celltype', {}).get((on, off)) or IntTy(8 * n)
                        v = self.load_cell(st, o, off, n, ty)
                    else:
                        ov = [c for c in o.cells if c < off + n and off < c + o.cells[c][0]]
                        w = st.wobj(on)
                        for c in ov:
                            del w.cells[c]
                        continue     # stays undefined
                else:
                    v = cell[1]
                if isinstance(v, VUndef):
                    w = st.wobj(on)
                    w.cells.pop(off, None)
                    continue
                if isinstance(v, VInt):
                    sg = bool(o.meta.get('signed', {}).get(off))
                    H = 1 << (v.w - 1)
                    hv = var(nm, -H, H - 1) if sg else var(nm, 0, 2 * H - 1)
                    entry[vn] = self.var_view(st, v, sg)
                    info['signed'][vn] = sg
                    head[vn] = hv
                    nv = VInt(v.w, hv)
                    info['kinds'][vn] = 'i%d' % v.w
                elif isinstance(v, VBool):
                    entry[vn] = v.b
                    head[vn] = bvar(nm)
                    nv = VBool(head[vn])
                    info['kinds'][vn] = 'b'
                elif isinstance(v, VF):
                    entry[vn] = v.t
                    head[vn] = fvar(fw(v.t), nm)
                    nv = VF(head[vn])
                    info['kinds'][vn] = v.t.sort
                elif isinstance(v, VPtr) and self.nullable(v).obj is not None:
                    v = self.nullable(v)
                    hk = st.objs[on].meta.get('renew', {}).get(off) or self.opts.get('renew', {}).get(vn)
                    if hk:
                        nv = hk(self, st, key, v)
                        info['kinds'][vn] = 'renew'
                    else:
                        entry[vn] = v.off
                        head[vn] = var(nm)
                        info['kinds'][vn] = ('ptr', v.obj)
                        nv = VPtr(v.obj, head[vn])
                else:
                    raise Unsupported('loop modifies %s which holds %r' % (vn, v))
                w = st.wobj(on)
                w.cells[off] = (n, nv)
            elif d[0] == 'field':
                _, on, f, n = d
                if on not in st.objs:
                    continue
                o = st.objs[on]
                if o.stride is None:
                    # element size fixed by the accesses in the loop
                    s = self.opts.get('strides', {}).get(on) or self.pass_strides.get(on)
                    if s is None:
                        raise Unsupported('element size of %s' % on)
                    o = self.to_array(st, on, s)
                fld = o.fields.get(f)
                if fld is None:
                    kind = self.pass_kinds.get((on, f))
                    if kind is None:
                        continue         # only undefined values were stored
                    fld = (n, kind, self.fresh_field(o, f, n, kind))
                nm = self.hname(key, 'arr:%s.%d' % (on, f))
                vn = 'arr:%s.%d' % (on, f)
                entry[vn] = fld[2]
                ha = abase(nm, 'I', 0, (1 << (8 * n)) - 1) if fld[1] == 'I' else abase(nm, fld[1])
                head[vn] = ha
                info['kinds'][vn] = 'A' + fld[1]
                w = st.wobj(on)
                w.fields[f] = (fld[0], fld[1], ha)
            elif d[0] == 'ghost':
                g = st.ghost.get(d[1])
                if not isinstance(g, T):
                    if g is None:
                        continue
                    raise Unsupported('loop changes ghost state %s' % d[1])
                vn = 'ghost:' + d[1]
                nm = self.hname(key, vn)
                entry[vn] = g
                if g.sort == 'I':
                    head[vn] = var(nm)
                elif g.sort == 'B':
                    head[vn] = bvar(nm)
                elif g.sort in ('F32', 'F64'):
                    head[vn] = fvar(fw(g), nm)
                else:
                    head[vn] = abase(nm, g.sort[1:])
                info['kinds'][vn] = g.sort
                info['signed'][vn] = True
                st.ghost[d[1]] = head[vn]
            elif d[0] == 'size':
                if d[1] not in st.objs:
                    continue
                w = st.wobj(d[1])
                vn = 'size:' + d[1]
                entry[vn] = w.size
                head[vn] = w.size = var(self.hname(key, vn), 0, None)
                info['kinds'][vn] = 'i64'
                info['signed'][vn] = True
            elif d[0] == 'all':
                raise Unsupported('loop rewrites whole object ' + d[1])
        info['entry'] = entry
        info['head'] = head
        fr.loops.append((h, key, info))
        lv = (tuple(sorted(head)))
        if key not in self.cands:
            self.cands[key] = []
            self.dropped[key] = set()
            self.candvars = {}
        self.gen_cands(st, info)
        # initialisation
        smap = {}
        for v, hv in head.items():
            a = hv.a[0][0][0] if hv.op == 'P' else hv
            smap[a] = entry[v]
        evmap = {self.E(key, v, head[v]): entry[v] for v in head}
        for c in self.active_cands(key) if not self.growing else ():
            if (key, c[0]) in self.pending:
                continue
            f0 = self.inst(self.form(key, c[1]), head, entry, entry, key)
            if not self.proves(st0, f0, cheap=not c[0].startswith('spec:')):
                if DEBUG and os.environ.get('RDV_DUMPQ') and os.environ['RDV_DUMPQ'] in key + ' ' + c[0]:
                    print('DUMPI', c[0], show(f0, 4))
                    for x in self.ctx(st, f0):
                        print('  pc', show(x, 5))
                self.drop(key, c, 'init')
            elif self.final:
                self.count_inv(key, c)
        # assume at the head
        for c in self.active_cands(key):
            if isinstance(c[1], PW):
                if c[1].arr in head:        # else: the object does not exist on this path
                    self.add_fact(st, head[c[1].arr], c[1], head, entry, key)
            else:
                st.assume(self.inst(c[1], head, head, entry, key))

    def form(self, key, f):
        return f.form(var('K!' + key)) if isinstance(f, PW) else f

    def add_fact(self, st, ha, pw, head, entry, key):
        st.q = dict(st.q)
        st.q[ha] = st.q.get(ha, ()) + (lambda idx: self.inst(pw.form(idx), head, head, entry, key),)

    def E(self, key, v, hv):
        if hv.op == 'P':
            a = hv.a[0][0][0]
            return mk('var', ('E' + a.a[0], a.a[1], a.a[2]), 'I')
        if hv.op == 'bvar':
            return bvar('E' + hv.a[0])
        if hv.op == 'fvar':
            return mk('fvar', ('E' + hv.a[0],), hv.sort)
        if hv.op == 'abase':
            return mk('abase', ('E' + hv.a[0],) + hv.a[1:], hv.sort)
        raise ValueError

    def inst(self, f, head, cur, entry, key):
        m = {}
        for v, hv in head.items():
            a = hv.a[0][0][0] if hv.op == 'P' else hv
            c = cur[v]
            if c is not hv:
                m[a] = c
            m[self.E(key, v, hv)] = entry[v]
        return subst(f, m)

    def active_cands(self, key):
        dr = self.dropped[key]
        return [c for c in self.cands[key] if c[0] not in dr]

    def drop(self, key, c, why):
        if DEBUG:
            print('DROP', why, key, c[0], show(self.form(key, c[1]))[:400])
        self.pending[(key, c[0])] = why

    def add_cand(self, key, cid, f):
        if f is TRUE or f is None:
            return
        for c in self.cands[key]:
            if c[1] is f or c[0] == cid:
                return
        self.cands[key].append((cid, f))
        self.changed = True

    invcount = 0

    def count_inv(self, key, c):
        o = self.obls.get(('invariants of %s' % key, 'inv'))
        if o is None:
            o = self.obls[('invariants of %s' % key, 'inv')] = Obl('invariants of %s' % key, 'inv', self.curloc)
        o.n += 1
        o.proved += 1
        o.backends['z3'] = o.backends.get('z3', 0) + 1

    def gen_cands(self, st, info):
        key, head = info['key'], info['head']
        ent = {v: (atom(self.E(key, v, hv)) if hv.op == 'P' else self.E(key, v, hv)) for v, hv in head.items()}
        info['E'] = ent
        skip = self.opts.get('skipcand')
        full = head
        if skip:
            head = {v: t for v, t in head.items() if not skip(info['fn'].name.lstrip('@'), v)}
        ints = [v for v in head if head[v].sort == 'I']
        for v in ints:
            self.add_cand(key, 'ge:' + v, ge(head[v], ent[v]))
            self.add_cand(key, 'le:' + v, le(head[v], ent[v]))
            if v.startswith('ghost:'):
                self.add_cand(key, 'nn:' + v, ge(head[v], ZERO))
        for v in head:
            if head[v].sort == 'B':
                self.add_cand(key, 'eq:' + v, Iff(head[v], ent[v]))
                self.add_cand(key, 'bt:' + v, head[v])
                self.add_cand(key, 'bf:' + v, Not(head[v]))
            if head[v].sort in ('F32', 'F64'):
                self.add_cand(key, 'eqf:' + v, fsame(head[v], ent[v]))
        # exit conditions, weakened by one
        for i, c in enumerate(sorted(self.exits.get(key, ()), key=lambda t: t.id)):
            if c.op == 'le0':
                self.add_cand(key, 'exit1:%d' % c.id, le0(sub(c.a[0], ONE)))
                self.add_cand(key, 'exit:%d' % c.id, c)
            elif c.op == 'not' and c.a[0].op == 'eq0':
                self.add_cand(key, 'exit>=:%d' % c.id, le0(c.a[0].a[0]))
                self.add_cand(key, 'exit<=:%d' % c.id, le0(neg(c.a[0].a[0])))
            elif c.op in ('not', 'bvar', 'eq0'):
                self.add_cand(key, 'exitb:%d' % c.id, c)
        # linear relations between variables with invariant steps
        ds = self.deltas.get(key, {})
        lin = [(v, ds[v]) for v in ints if isinstance(ds.get(v), T)]
        unit = [(v, d) for v, d in lin if cval(d) in (1, -1)]
        if unit:
            u, du = sorted(unit)[0]
            sgn = cval(du)
            for v, dv in lin:
                if v != u:
                    self.add_cand(key, 'lin:%s:%s' % (v, u), eq(sub(head[v], ent[v]), scale(mul(dv, sub(head[u], ent[u])), sgn)))
        elif len(lin) > 1:
            u, du = sorted(lin)[0]
            for v, dv in lin[1:]:
                if cval(du) and cval(dv) is not None:
                    self.add_cand(key, 'lin:%s:%s' % (v, u), eq(scale(sub(head[v], ent[v]), cval(du)), scale(sub(head[u], ent[u]), cval(dv))))
        for v, d in lin:
            c = cval(d)
            if c not in (None, 0, 1, -1):
                self.add_cand(key, 'mod:%s' % v, eq(imod(sub(head[v], ent[v]), I(abs(c))), ZERO))
        head = full
        # specification templates
        tf = self.templates.get(info['fn'].name.lstrip('@')) or self.templates.get('*')
        if tf:
            for cid, f in tf(LoopCtx(self, st, info, ent)):
                self.add_cand(key, 'spec:' + cid, f)

    def loop_back(self, st, fr, h, newv):
        h_, key, info = fr.loops[-1]
        head, entry = info['head'], info['entry']
        cur = {}
        for v, hv in head.items():
            k = info['kinds'][v]
            if v.startswith('mem:'):
                on, off = v[4:].rsplit('@', 1)
                o = st.objs[on]
                cell = o.cells.get(int(off))
                if cell is None:
                    raise Unsupported('cell %s changed shape in loop' % v)
                x = cell[1]
            elif v.startswith('arr:'):
                on, f = v[4:].rsplit('.', 1)
                cur[v] = st.objs[on].fields[int(f)][2]
                continue
            elif v.startswith('ghost:'):
                cur[v] = st.ghost[v[6:]]
                continue
            elif v.startswith('size:'):
                cur[v] = st.objs[v[5:]].size
                continue
            else:
                x = newv[v]
            if isinstance(k, tuple):
                if isinstance(x, VPtr):
                    x = self.nullable(x)
                if not isinstance(x, VPtr) or x.obj != k[1]:
                    raise Unsupported('loop pointer %s changes object' % v)
                cur[v] = x.off
            elif isinstance(x, VUndef):
                if hv.sort == 'I':
                    cur[v] = fresh('undef', 0, 255)
                elif hv.sort == 'B':
                    cur[v] = bfresh('undef')
                else:
                    cur[v] = ffresh(fw(hv), 'undef')
            else:
                if k == 'b':
                    cur[v] = self.as_bool(st, x)
                elif k in ('F32', 'F64'):
                    cur[v] = x.t
                else:
                    cur[v] = self.var_view(st, self.as_int(st, x, int(k[1:])), info['signed'].get(v))
        for v, k in info['kinds'].items():
            if k == 'renew':
                on, off = v[4:].rsplit('@', 1)
                x = st.objs[on].cells[int(off)][1]
                st.objs[on].meta.get('renew', self.opts.get('renew', {})) and self.opts['renew_check'](self, st, key, v, x)
        for d in self.modset.get(key, ()):
            if d[0] == 'field' and ('arr:%s.%d' % (d[1], d[2])) not in head and (d[1], d[2]) in self.pass_kinds:
                o = st.objs.get(d[1])
                if o is not None and o.born <= info['clock']:
                    self.changed = True
                    raise Restart()
        # objects allocated in this iteration must not be left behind
        for o in st.objs.values():
            if o.kind == 'heap' and o.live and o.born > info['clock'] and not o.meta.get('kept'):
                self.oblige(st, 'allocation of a loop iteration is released (%s)' % self.curloc, 'leak', FALSE)
        # steps
        hat = set(x.a[0][0][0] if x.op == 'P' else x for x in head.values())
        ds = self.deltas.setdefault(key, {})
        for v in head:
            if head[v].sort == 'I':
                d = sub(cur[v], head[v])
                if (solver.atoms_of(d) & hat):
                    d = False
                if v not in ds:
                    ds[v] = d
                    if d is not False:
                        self.changed = True
                elif ds[v] is not d:
                    if ds[v] is not False:
                        ds[v] = False
        for c in self.active_cands(key) if not self.growing else ():
            if (key, c[0]) in self.pending:
                continue
            f1 = self.inst(self.form(key, c[1]), head, cur, entry, key)
            if not self.proves(st, f1, cheap=not c[0].startswith('spec:')):
                if DEBUG and os.environ.get('RDV_DUMPQ') and os.environ['RDV_DUMPQ'] in key + ' ' + c[0]:
                    print('DUMPQ', c[0], solver.check(self.ctx(st, f1), f1, want_model=True))
                    print('  goal', show(f1, 3))
                    for x in self.ctx(st, f1):
                        print('  pc', show(x, 5))
                self.drop(key, c, 'step')
                if DEBUG and c[0].startswith('spec:res'):
                    print('GOAL', show(f1)); print('PATH', st.frames[-1].path)
                    for x in self.ctx(st, f1): print('   PC', show(x)[:1500])
                    import sys; sys.stdout.flush()
            elif self.final:
                self.count_inv(key, c)
        # termination measures
        if self.final and not self.opts.get('kinds'):
            self.check_measure(st, key, info, head, cur, entry)
        return []

    def check_measure(self, st, key, info, head, cur, entry):
        ms = self.measures.setdefault(key, {})
        cand = {}
        for c in sorted(set(self.exits.get(key, ())) | self.mconds.get(key, set()), key=lambda c: c.id):
            if c.op == 'le0':
                cand['exit:%d' % c.id] = neg(c.a[0])
            elif c.op == 'not' and c.a[0].op == 'eq0':
                cand['up:%d' % c.id] = neg(c.a[0].a[0])
                cand['dn:%d' % c.id] = c.a[0].a[0]
        tm = self.opts.get('measures', {}).get(info['fn'].name.lstrip('@')) or self.opts.get('measures', {}).get('*')
        if tm:
            for i, m in enumerate(tm(LoopCtx(self, st, info, info['E']))):
                cand['spec:%d' % i] = m
        good = set()
        for i, m in cand.items():
            if i in ms and not ms[i]:
                continue
            m0 = self.inst(m, head, head, entry, key)
            m1 = self.inst(m, head, cur, entry, key)
            ok = self.proves(st, And(lt(m1, m0), ge(m0, ZERO)))
            ms[i] = ok
            if ok:
                break
        else:
            pass
        # a measure must work on every back edge: keep those never refuted
        for i in cand:
            if i not in ms:
                m = cand[i]
                m0 = self.inst(m, head, head, entry, key)
                m1 = self.inst(m, head, cur, entry, key)
                ms[i] = self.proves(st, And(lt(m1, m0), ge(m0, ZERO)))
        self.termok[key] = (self.curloc, any(ms.values()))

    # ------------------------------------------------------------ instructions
    def step(self, st, fr, ins):
        op = ins.op
        a = ins.a
        env = fr.env
        mod = fr.fn.mod
        V = lambda t, v: self.val(st, t, v)
        if op == 'br':
            return self.goto(st, a[0])
        if op == 'condbr':
            cv = V(IntTy(1), a[0])
            if isinstance(cv, VUndef):
                self.oblige(st, 'branch on uninitialised value at %s' % self.curloc, 'uninit', FALSE)
                raise Dead()
            c = self.as_bool(st, cv)
            return self.branch(st, [(c, a[1]), (Not(c), a[2])])
        if op == 'switch':
            v = self.as_int(st, V(a[0], a[1]), a[0].w)
            outs = []
            conds = []
            neg_v = any(k < 0 for k, _ in a[3])
            u = self.sview(st, v)
            H = 1 << (v.w - 1)
            for k, b in a[3]:
                kk = k % (2 * H)
                kk = kk - 2 * H if kk >= H else kk
                c = eq(u, I(kk))
                conds.append(c)
                outs.append((c, b))
            outs.append((And(*[Not(c) for c in conds]), a[2]))
            return self.branch(st, outs)
        if op == 'ret':
            rv = None if a[1] is None else V(a[0], a[1])
            return self.do_ret(st, rv)
        if op == 'unreachable':
            # reached only if the compiler's assumption is wrong, or after noreturn calls
            self.oblige(st, 'unreachable code at %s' % self.curloc, 'ub', FALSE)
            raise Dead()
        fr.ip += 1
        if op == 'load':
            p = V(PTR, a[1])
            try:
                env[ins.dst] = self.load(st, a[0] if a[0].k != 'named' else mod.res(a[0]), p, mod)
            except ForkIndex:
                fr.ip -= 1
                raise
            return None
        if op == 'store':
            p = V(PTR, a[2])
            try:
                self.store(st, a[0], V(a[0], a[1]), p, mod)
            except ForkIndex:
                fr.ip -= 1
                raise
            return None
        if op == 'alloca':
            n = self.uview(st, self.as_int(st, V(a[1], a[2]), 64))
            nm = st.site('%s%s' % (fr.path, ins.dst))
            p = self.new_obj(st, nm, 'stack', mul(n, I(mod.size(a[0]))))
            fr.allocas.append(nm)
            env[ins.dst] = p
            return None
        if op == 'gep':
            env[ins.dst] = self.gep(st, mod, a[0], V(PTR, a[1]), [(t, V(t, v)) for t, v in a[2]])
            return None
        if op == 'bin':
            env[ins.dst] = self.binop(st, a[0], a[1], V(a[1], a[2]), V(a[1], a[3]), a[4])
            return None
        if op == 'fbin':
            x, y = V(a[1], a[2]), V(a[1], a[3])
            if isinstance(x, VUndef) or isinstance(y, VUndef):
                env[ins.dst] = UNDEF
            else:
                env[ins.dst] = VF(fop(a[0], a[1].w, x.t, y.t))
            return None
        if op == 'fneg':
            x = V(a[0], a[1])
            env[ins.dst] = UNDEF if isinstance(x, VUndef) else VF(fop('fneg', a[0].w, x.t))
            return None
        if op == 'icmp':
            env[ins.dst] = self.icmp(st, a[0], a[1], V(a[1], a[2]), V(a[1], a[3]))
            return None
        if op == 'fcmp':
            x, y = V(a[1], a[2]), V(a[1], a[3])
            env[ins.dst] = UNDEF if isinstance(x, VUndef) or isinstance(y, VUndef) else VBool(self.fcmp(a[0], x.t, y.t))
            return None
        if op == 'cast':
            env[ins.dst] = self.cast(st, a[0], a[1], V(a[1], a[2]), a[3])
            return None
        if op == 'select':
            c = V(IntTy(1), a[1])
            x, y = V(a[0], a[2]), V(a[0], a[3])
            if isinstance(c, VUndef):
                env[ins.dst] = UNDEF
                return None
            c = self.as_bool(st, c)
            if c is TRUE or c is FALSE:
                env[ins.dst] = x if c is TRUE else y
                return None
            if isinstance(x, VInt) and isinstance(y, VInt):
                env[ins.dst] = VInt(x.w, ite(c, self.uview(st, x), self.uview(st, y)))
                return None
            if isinstance(x, VBool) and isinstance(y, VBool):
                env[ins.dst] = VBool(bite(c, x.b, y.b))
                return None
            if isinstance(x, VF) and isinstance(y, VF):
                env[ins.dst] = VF(fite(c, x.t, y.t))
                return None
            outs = []
            for cc, v in ((c, x), (Not(c), y)):
                s = st.clone()
                try:
                    s.assume(cc)
                except Dead:
                    continue
                if not self.feasible(s):
                    continue
                s.fr.env[ins.dst] = v
                outs.append(s)
            return outs
        if op == 'freeze':
            env[ins.dst] = V(a[0], a[1])
            return None
        if op == 'call':
            return self.call(st, fr, ins)
        raise Unsupported('%s in %s' % (ins.text, fr.fn.name))

    def branch(self, st, outs):
        live = []
        fr = st.fr
        # record exit conditions of active cut loops in this frame
        for (h, key, info) in fr.loops:
            body = fr.fn.loops[h]
            if fr.block in body:
                stay = [c for c, b in outs if b in body]
                leave = [c for c, b in outs if b not in body]
                if stay and leave:
                    for c in stay:
                        self.add_exit(key, c, info)
                elif len(stay) == 2 and (h, key, info) == fr.loops[-1]:
                    # part of a short-circuit exit condition: only a candidate measure
                    for c in stay:
                        if len(self.mconds.setdefault(key, set())) < 8:
                            self.mconds[key].add(c)
        for c, b in outs:
            q = self.quick(st, c)
            if q is False:
                continue
            live.append((c, b, q))
        if len(live) == 1 and live[0][2] is True:
            return self.goto(st, live[0][1])
        res = []
        for i, (c, b, q) in enumerate(live):
            s = st.clone() if i < len(live) - 1 else st
            try:
                fast = self.opts.get('prune')
                if fast and q is not True and len(live) > 1 and solver.check(self.ctx(s, Not(c)), Not(c), 2000, cheap=True)[0] == 'proved':
                    continue
                s.assume(c)
                if not fast and q is not True and len(live) > 1 and not self.feasible(s):
                    continue
                s.note.append('%s:%s' % (fr.fn.name.lstrip('@'), b))
                r = self.goto(s, b)
            except Dead:
                continue
            if r is None:
                res.append(s)
            else:
                res += r
        return res

    def add_exit(self, key, c, info):
        cs = c.a if c.op == 'and' else (c,)
        hat = set(x.a[0][0][0] if x.op == 'P' else x for x in info['head'].values())
        for x in cs:
            if solver.atoms_of(x) & hat:
                ex = self.exits.setdefault(key, set())
                if x not in ex and len(ex) < 12:
                    ex.add(x)
                    self.changed = True

    def do_ret(self, st, rv):
        fr = st.frames.pop()
        for nm in fr.allocas:
            o = st.wobj(nm)
            o.live = False
        if len(st.frames) == self.base:
            if self.on_exit:
                self.on_exit(st, rv)
            return []
        if fr.retdst:
            st.fr.env[fr.retdst] = rv
        return None

    def gep(self, st, mod, t, base, idx):
        if isinstance(base, VUndef):
            return UNDEF
        if isinstance(base, VFn):
            raise Unsupported('gep on function')
        off = base.off
        cur = t
        first = True
        for ty, v in idx:
            if isinstance(v, VUndef):
                return UNDEF
            if first:
                off = add(off, self.idx_mul(st, v, mod.size(cur)))
                first = False
                continue
            r = mod.res(cur)
            if r.k == 'struct':
                k = cval(v.p)
                off = add(off, I(mod.field_off(r, k)))
                cur = r.fields[k]
            elif r.k == 'arr':
                cur = r.el
                off = add(off, self.idx_mul(st, v, mod.size(cur)))
            else:
                raise Unsupported('gep into %r' % r)
        if idx and base.obj is not None and self.opts.get('gephint') and not (isinstance(idx[0][1], VInt) and cval(idx[0][1].p) is not None):
            self.gephint.setdefault(base.obj, mod.size(t))
        if base.obj is None and cval(off) != 0:
            # arithmetic on null: kept as an invalid pointer
            return VPtr(None, off)
        return VPtr(base.obj, off)

    def idx_mul(self, st, v, size):
        if isinstance(v, VBool):
            v = self.as_int(st, v, 1)
        if v.w == 64:
            # inbounds gep: the byte offset cannot exceed half the address space, so a 64-bit index
            # congruent to a small number is that number; take the representative as is if the
            # polynomial is provably within signed range, else its signed view
            p = v.p
            lo, hi = rng(p, st.bounds)
            if lo is not None and hi is not None and lo >= -(1 << 63) and hi < (1 << 64):
                return scale(p, size)
            if self.proves(st, And(ge(p, I(-(1 << 63))), lt(p, I(1 << 64)))):
                return scale(p, size)
            return scale(self.sview(st, v), size)
        return scale(self.sview(st, v), size)

    def binop(self, st, op, ty, x, y, flags):
        w = ty.w
        if isinstance(x, VUndef) or isinstance(y, VUndef):
            return UNDEF
        if isinstance(x, (VPtr, VFn)) or isinstance(y, (VPtr, VFn)):
            raise Unsupported('pointer arithmetic on integers')
        if w == 1:
            bx, by = self.as_bool(st, x), self.as_bool(st, y)
            if op == 'and':
                return VBool(And(bx, by))
            if op == 'or':
                return VBool(Or(bx, by))
            if op in ('xor', 'add', 'sub'):
                return VBool(Xor(bx, by))
            raise Unsupported('i1 ' + op)
        x = self.as_int(st, x, w)
        y = self.as_int(st, y, w)
        if op in ('add', 'sub', 'mul'):
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            if 'nsw' in flags:
                xs, ys = self.sview(st, x), self.sview(st, y)
                r = f(xs, ys)
                H = 1 << (w - 1)
                self.oblige(st, 'no signed overflow at %s' % self.curloc, 'arith', And(ge(r, I(-H)), lt(r, I(H))))
                return VInt(w, r)
            return VInt(w, f(x.p, y.p))
        if op in ('udiv', 'urem'):
            ux, uy = self.uview(st, x), self.uview(st, y)
            if cval(uy) is None or cval(uy) == 0:
                self.oblige(st, 'division by zero at %s' % self.curloc, 'arith', ne(uy, ZERO))
            d = single_div(ux)
            if d is not None and op == 'udiv':
                # x / y / z = x / (y * z), all positive
                return VInt(w, idiv(d[0], mul(d[1], uy)))
            q = idiv(ux, uy)
            return VInt(w, q if op == 'udiv' else sub(ux, mul(uy, q)) if cval(uy) is None else imod(ux, uy))
        if op in ('sdiv', 'srem'):
            sx, sy = self.sview(st, x), self.sview(st, y)
            if cval(sy) is None or cval(sy) == 0:
                self.oblige(st, 'division by zero at %s' % self.curloc, 'arith', ne(sy, ZERO))
            if self.proves(st, And(ge(sx, ZERO), gt(sy, ZERO))):
                q = idiv(sx, sy)
                return VInt(w, q if op == 'sdiv' else sub(sx, mul(sy, q)))
            cy = cval(sy)
            if cy and cy > 0:
                q = ite(ge(sx, ZERO), idiv(sx, sy), neg(idiv(neg(sx), sy)))
                return VInt(w, q if op == 'sdiv' else sub(sx, scale(q, cy)))
            raise Unsupported('signed division')
        cy = cval(y.p)
        if op == 'shl':
            if cy is not None:
                return VInt(w, scale(x.p, 1 << cy))
            uy = self.uview(st, y)
            self.oblige(st, 'shift amount below width at %s' % self.curloc, 'arith', lt(uy, I(w)))
            return VInt(w, mul(x.p, self.pow2(st, uy, w)))
        if op == 'lshr':
            ux = self.uview(st, x)
            if cy is not None:
                return VInt(w, idiv(ux, I(1 << cy)))
            uy = self.uview(st, y)
            self.oblige(st, 'shift amount below width at %s' % self.curloc, 'arith', lt(uy, I(w)))
            return VInt(w, idiv(ux, self.pow2(st, uy, w)))
        if op == 'ashr':
            if cy is not None:
                return VInt(w, idiv(self.sview(st, x), I(1 << cy)))
            raise Unsupported('ashr by variable')
        if op == 'and':
            if cy is None and cval(x.p) is not None:
                x, y = y, x
                cy = cval(y.p)
            if cy is not None:
                c = cy % (1 << w)
                if c == 0:
                    return VInt(w, ZERO)
                if c & (c + 1) == 0:
                    return VInt(w, imod(self.uview(st, x), I(c + 1)))
                if c & (c - 1) == 0:      # single bit
                    k = c.bit_length() - 1
                    return VInt(w, scale(imod(idiv(self.uview(st, x), I(c)), I(2)), c))
            ux, uy = self.uview(st, x), self.uview(st, y)
            r = app('bvand%d' % w, *sorted((ux, uy), key=lambda t: t.id), lo=0, hi=(1 << w) - 1)
            st.assume(And(le(r, ux), le(r, uy)))
            return VInt(w, r)
        if op == 'or':
            ux, uy = self.uview(st, x), self.uview(st, y)
            for p, q in ((ux, uy), (uy, ux)):
                c = cval(p)
                if c == 0:
                    return VInt(w, q)
                # disjoint: q < 2^k and p multiple of 2^k
                lo, hi = rng(q, st.bounds)
                if lo is not None and lo >= 0 and hi is not None:
                    k = hi.bit_length()
                    if all(cc % (1 << k) == 0 for _, cc in p.a):
                        return VInt(w, add(p, q))
                if c is not None and c & (c - 1) == 0:
                    bit = imod(idiv(q, I(c)), I(2))
                    return VInt(w, add(q, scale(sub(ONE, bit), c)))
            r = app('bvor%d' % w, *sorted((ux, uy), key=lambda t: t.id), lo=0, hi=(1 << w) - 1)
            st.assume(And(ge(r, ux), ge(r, uy)))
            return VInt(w, r)
        if op == 'xor':
            if cy is not None and cy % (1 << w) == (1 << w) - 1:
                return VInt(w, sub(I(-1), x.p))
            ux, uy = self.uview(st, x), self.uview(st, y)
            if cval(uy) == 0:
                return VInt(w, ux)
            # 0/1 values
            if rng(ux, st.bounds)[1] in (0, 1) and rng(uy, st.bounds)[1] in (0, 1):
                return VInt(w, b2i(Not(eq(ux, uy))))
            return VInt(w, app('bvxor%d' % w, *sorted((ux, uy), key=lambda t: t.id), lo=0, hi=(1 << w) - 1))
        raise Unsupported('binop ' + op)

    def pow2(self, st, e, w):
        c = cval(e)
        if c is not None:
            return I(1 << c)
        lo, hi = rng(e, st.bounds)
        lo = max(lo or 0, 0)
        hi = min(hi if hi is not None else w - 1, w - 1)
        r = I(1 << hi)
        for k in range(hi - 1, lo - 1, -1):
            r = ite(eq(e, I(k)), I(1 << k), r)
        return r

    def icmp(self, st, pr, ty, x, y):
        if isinstance(x, VUndef) or isinstance(y, VUndef):
            return UNDEF
        if isinstance(x, (VPtr, VFn)) or isinstance(y, (VPtr, VFn)):
            return VBool(self.pcmp(st, pr, x, y))
        if isinstance(x, VBool) and isinstance(y, VBool):
            if pr == 'eq':
                return VBool(Iff(x.b, y.b))
            if pr == 'ne':
                return VBool(Xor(x.b, y.b))
        w = ty.w
        x = self.as_int(st, x, w)
        y = self.as_int(st, y, w)
        if pr in ('eq', 'ne'):
            if cval(y.p) == 0:
                # x / y == 0 exactly when x < y
                dv = single_div(x.p)
                if dv is not None:
                    lo, hi = rng(x.p, st.bounds)
                    if lo is not None and lo >= 0 and hi is not None and hi < 1 << w:
                        b = lt(dv[0], dv[1])
                        return VBool(b if pr == 'eq' else Not(b))
            # equal modulo 2^w: use a common view
            d = sub(x.p, y.p)
            lo, hi = rng(d, st.bounds)
            M = 1 << w
            if lo is not None and hi is not None and lo > -M and hi < M:
                b = eq0(d)
            else:
                def inr(v, l, h):
                    a, b_ = rng(v.p, st.bounds)
                    return a is not None and b_ is not None and a >= l and b_ < h
                H = M >> 1
                if inr(x, -H, H) or inr(y, -H, H):
                    b = eq(self.sview(st, x), self.sview(st, y))
                else:
                    b = eq(self.uview(st, x), self.uview(st, y))
            return VBool(b if pr == 'eq' else Not(b))
        if pr[0] == 'u':
            a, b = self.uview(st, x), self.uview(st, y)
        else:
            a, b = self.sview(st, x), self.sview(st, y)
        return VBool({'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pr[1:]](a, b))

    def nullable(self, v):
        """the null pointer as a pointer into the object whose pointers may be null (offset -1)"""
        n = self.opts.get('nullobj')
        return VPtr(n, I(-1)) if n and v.obj is None and v.off is ZERO else v

    def pcmp(self, st, pr, x, y):
        if isinstance(x, VFn) or isinstance(y, VFn):
            if isinstance(x, VFn) and isinstance(y, VFn):
                e = Bc(x.name == y.name)
            else:
                e = FALSE
            if pr == 'eq':
                return e
            if pr == 'ne':
                return Not(e)
            raise Unsupported('function pointer order')
        if x.obj is None or y.obj is None:
            if x.obj is None and y.obj is None:
                e = eq(x.off, y.off)
            else:
                z = x if y.obj is None else y
                e = eq(z.off, I(-1)) if st.objs[z.obj].meta.get('nullable') else FALSE
        elif x.obj == y.obj:
            if pr in ('ult', 'slt'):
                return lt(x.off, y.off)
            if pr in ('ule', 'sle'):
                return le(x.off, y.off)
            if pr in ('ugt', 'sgt'):
                return gt(x.off, y.off)
            if pr in ('uge', 'sge'):
                return ge(x.off, y.off)
            e = eq(x.off, y.off)
        else:
            e = FALSE
        if pr == 'eq':
            return e
        if pr == 'ne':
            return Not(e)
        raise Unsupported('pointer order between objects')

    def fcmp(self, pr, x, y):
        L, LE, E_, U = (lambda a, b: fcmp('lt', a, b)), (lambda a, b: fcmp('le', a, b)), (lambda a, b: fcmp('eq', a, b)), fcmp('uno', x, y)
        m = {'oeq': lambda: E_(x, y), 'ogt': lambda: L(y, x), 'oge': lambda: LE(y, x), 'olt': lambda: L(x, y), 'ole': lambda: LE(x, y),
             'one': lambda: And(Not(E_(x, y)), Not(U)), 'ord': lambda: Not(U), 'uno': lambda: U,
             'ueq': lambda: Or(E_(x, y), U), 'une': lambda: Not(E_(x, y)), 'ugt': lambda: Not(LE(x, y)), 'uge': lambda: Not(L(x, y)),
             'ult': lambda: Not(LE(y, x)), 'ule': lambda: Not(L(y, x)), 'true': lambda: TRUE, 'false': lambda: FALSE}
        return m[pr]()

    def cast(self, st, op, ty, v, to):
        if isinstance(v, VUndef):
            return UNDEF
        if op == 'zext':
            if isinstance(v, VBool):
                return VInt(to.w, b2i(v.b))
            return VInt(to.w, self.uview(st, v))
        if op == 'sext':
            if isinstance(v, VBool):
                return VInt(to.w, neg(b2i(v.b)))
            return VInt(to.w, self.sview(st, v))
        if op == 'trunc':
            if isinstance(v, VBool):
                return v
            if to.w == 1:
                return VBool(ne(imod(self.uview(st, v), I(2)), ZERO))
            return VInt(to.w, v.p)
        if op == 'bitcast':
            if isinstance(v, VF) and to.k == 'i':
                return VInt(to.w, fbits(v.t))
            if isinstance(v, VInt) and to.k == 'f':
                return VF(bits2f(to.w, self.uview(st, v)))
            return v
        if op == 'uitofp':
            v = self.as_int(st, v, ty.w)
            return VF(i2f(to.w, self.uview(st, v)))
        if op == 'sitofp':
            v = self.as_int(st, v, ty.w)
            return VF(i2f(to.w, self.sview(st, v)))
        if op == 'fpext':
            return VF(fop('fpext', 64, v.t))
        if op == 'fptrunc':
            return VF(fop('fptrunc', 32, v.t))
        if op in ('fptoui', 'fptosi'):
            r = atom(mk('app', ('f2i_' + op, 0 if op == 'fptoui' else -(1 << (to.w - 1)), (1 << to.w) - 1 if op == 'fptoui' else (1 << (to.w - 1)) - 1, v.t), 'I'))
            return VInt(to.w, r)
        if op in ('ptrtoint', 'inttoptr'):
            raise Unsupported(op)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        rt, callee, args = ins.a
        if callee[0] == 'g':
            tgt = VFn(callee[1], fr.fn.mod)
        else:
            tgt = self.val(st, PTR, callee)
        av = [self.val(st, t, v) for t, v in args]
        if isinstance(tgt, VPtr):
            if tgt.obj is None:
                self.oblige(st, 'call of a null function pointer at %s' % self.curloc, 'mem', FALSE)
                raise Dead()
            h = st.objs[tgt.obj].meta.get('call')
            if not h:
                raise Unsupported('call through %r' % tgt)
            return self.finish_call(st, ins, h(self, st, av, ins))
        if isinstance(tgt, VUndef):
            self.oblige(st, 'call through uninitialised pointer at %s' % self.curloc, 'mem', FALSE)
            raise Dead()
        name = tgt.name.lstrip('@')
        if name in self.contracts:
            self.used_contracts.add(name)
            return self.finish_call(st, ins, self.contracts[name](self, st, av, ins))
        fn = self.find(tgt.name, tgt.mod)
        if fn is not None:
            self.inlined.add(name)
            n = st.counts.get('call:' + fr.path + str(id(ins)), 0)
            self.push(st, fn, av, ins.dst, '%s@%s' % (fr.path, (ins.dst or str(fr.ip)).lstrip('%')))
            return None
        if name.startswith('llvm.'):
            return self.finish_call(st, ins, self.intrinsic(st, name, av, ins))
        h = self.externs.get(name)
        if h is None:
            raise Unsupported('external function %s has no contract' % name)
        self.used_externs.add(name)
        return self.finish_call(st, ins, h(self, st, av, ins))

    def finish_call(self, st, ins, r):
        """r: a value (single outcome) or a list of (state, value)"""
        if isinstance(r, list):
            out = []
            for s, v in r:
                if s is None:
                    continue
                if ins.dst and s.frames and v is not JUMPED:
                    s.fr.env[ins.dst] = v
                out.append(s)
            return out
        if ins.dst:
            st.fr.env[ins.dst] = r
        return None

    def intrinsic(self, st, name, a, ins):
        base = name.split('.')[1]
        if base == 'memcpy' or base == 'memmove':
            n = self.uview(st, a[2])
            self.memcpy(st, a[0], a[1], n, st.fr.fn.mod)
            return None
        if base == 'memset':
            self.memset(st, a[0], self.uview(st, a[1]), self.uview(st, a[2]), st.fr.fn.mod)
            return None
        if base in ('fabs', 'copysign', 'round', 'floor', 'ceil', 'sqrt', 'trunc', 'rint', 'nearbyint', 'minnum', 'maxnum'):
            if any(isinstance(x, VUndef) for x in a):
                return UNDEF
            return VF(fop(base, fw(a[0].t), *[x.t for x in a]))
        if name.startswith('llvm.is.fpclass'):
            m = cval(a[1].p)
            x = a[0].t
            if m == 504:
                return VBool(fclass('fin', x))
            if m == 3:
                return VBool(fclass('nan', x))
            if m == 516:
                return VBool(fclass('inf', x))
            raise Unsupported('fpclass %d' % m)
        if base == 'stacksave':
            return NULL
        if base in ('stackrestore', 'assume', 'expect', 'donothing'):
            return a[0] if base == 'expect' else None
        if base == 'umin' or base == 'umax':
            x, y = self.uview(st, a[0]), self.uview(st, a[1])
            return VInt(a[0].w, ite(lt(x, y), x, y) if base == 'umin' else ite(lt(x, y), y, x))
        raise Unsupported(name)

    # ------------------------------------------------------------ fixpoint driver
    pass_strides = {}
    gephint = {}        # element size an object was indexed with
    pass_kinds = {}

    def prove_task(self, setup, max_passes=60):
        """setup(engine) builds the initial states and runs them (calling self.run).
        Repeated until the vocabulary of the candidate invariants is stable, then until the
        candidates are inductive, then once more with the obligations on."""
        self.pass_strides = {}
        self.gephint = {}
        self.pass_kinds = {}
        self.growing = True
        self.final = False
        self.joins = {}
        for n in range(max_passes):
            self.changed = self.stale = False
            self.passno = n
            self.joined = 0
            self.pending = {}
            self.paths = 0
            if self.final:
                self.obls = {}
                self.measures = {}
                self.termok = {}
            if DEBUG:
                t0 = time.time()
                self.ends = None
            try:
                setup(self)
            except Restart:
                self.changed = True
            if DEBUG:
                print('PASS', n, 'changed', self.changed, 'growing', self.growing, 'final', self.final, 'paths', self.paths, '%.1fs' % (time.time() - t0), 'pending', len(self.pending))
                if self.paths > 1000 and self.ends:
                    for k, v in self.ends.most_common(40):
                        print('   END', v, k)
            if DEBUG and self.joined:
                print('   joined', self.joined)
            if self.changed:
                self.growing = True
                self.final = False
                continue
            if self.growing:
                self.growing = False
                continue
            if self.pending:
                if self.final:
                    raise Unsupported('unstable invariants')
                for k, c in self.pending:
                    self.dropped[k].add(c)
                continue
            if not self.final:
                self.final = True
                continue
            self.passes = n + 1
            return
        raise Unsupported('invariant inference did not converge')


def regs(x, out):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'r':
            out.add(x[1])
        else:
            for y in x:
                regs(y, out)


class PW:
    """invariant about every element of an array: form(index) over the loop's head values"""

    def __init__(self, arr, form):
        self.arr, self.form = arr, form


class ForkIndex(Exception):
    def __init__(self, ptr, off, n):
        self.ptr, self.off, self.n = ptr, off, n


class LoopCtx:
    """what a specification template sees of a loop: current (head) and entry values by role"""

    def __init__(self, eng, st, info, ent):
        self.eng, self.st, self.info, self.ent = eng, st, info, ent
        self.head = info['head']

    def ints(self):
        return [v for v in self.head if self.head[v].sort == 'I']

    def phis_int(self):
        return [v for v in self.head if self.head[v].sort == 'I' and v.startswith('%') and not isinstance(self.info['kinds'][v], tuple)]

    def floats(self, sort=None):
        return [v for v in self.head if self.head[v].sort in ('F32', 'F64') and (sort is None or self.head[v].sort == sort)]

    def arrays(self):
        return [v for v in self.head if v.startswith('arr:')]

    def ghosts(self):
        return [v for v in self.head if v.startswith('ghost:')]

    def outer_ints(self):
        """integer variables of the enclosing cut loops and of the frame: name -> poly"""
        out = {}
        for fr in self.st.frames:
            for (h, key, info) in fr.loops:
                if info is not self.info:
                    for v, t in info['head'].items():
                        if t.sort == 'I':
                            out[v + '^' + key[-20:]] = t
        return out
