"""C10-C12: resdet_analysis_results.

Ghost functions per dimension d over the candidates j (relative to the range):
  rank_d(j)  number of reported candidates below j        nth_d(r)  the candidate of rank r
"""
from specs.ana import *
from specs.meth import unit_iter, both
from engine import Frame

PFX = {'x': 'w', 'y': 'h'}
TEXT = {'qsort': 'qsort(a,n,s,cmp) permutes the n elements so that cmp(a[i],a[j]) <= 0 for i < j, provided cmp is a consistent order '
                 '(obligation: the actual comparator is executed and shown to order by descending confidence, antisymmetric and transitive on ties)'}


class Results:
    def __init__(self, cx, eng, xs, ys, cf, nonzero=True, documented=False):
        self.documented = documented
        self.cx, self.eng = cx, eng
        L = cx.L
        self.ib = L.const['sizeof(intermediate)']
        self.iw = 8 * self.ib
        self.ix = L.const['sizeof(rdint_index)']
        st = self.st = State()
        A = self.A = Ana(cx, eng, st, xs, ys, cf=cf, nonzero=nonzero)
        if not nonzero:
            st.assume(eq(A.N, ZERO))
        self.on = {'x': xs, 'y': ys}
        self.len = {'x': A.w, 'y': A.h}
        if documented:
            self.interval = {}
            for d in A.m:
                v = self.interval[d] = var('interval_' + d, 1, INT_MAX)
                st.assume(eq(self.len[d], mul(v, eng.pow2(st, A.cf, 32))))
        self.rs = L.size['RDResolution']
        self.io, self.co = L.off['RDResolution']['index'], L.off['RDResolution']['confidence']
        self.isz = L.fsz['RDResolution']['index']
        for d in A.m:
            # the lemma "rank is monotone and at most the number of candidates" (proved in the task of that name)
            st.assume(And(eq(self.rank(d, ZERO), ZERO), ge(self.rank(d, A.m[d]), ZERO), le(self.rank(d, A.m[d]), A.m[d])))
        eng.externs['qsort'] = self.qsort
        if cval(A.cf) is None and not documented:
            eng.pow2 = lambda st, e, w: app('pow2', e, lo=1, hi=1 << 31) if cval(e) is None else I(1 << cval(e))
        eng.templates = {'*': self.tmpl}

    def rank(self, d, j):
        return app('rank_' + d, j, lo=0)

    def nth(self, d, r):
        return app('nth_' + d, r, lo=0)

    def mean(self, d, j):
        return fop('fdiv', self.iw, select(self.A.arr[d], j), i2f(self.iw, self.A.N))

    def thr(self):
        t = self.A.threshold
        return fop('fpext', 64, t) if self.iw == 64 else t

    def conf(self, d, j):
        m = self.mean(d, j)
        return fop('fptrunc', 32, m) if self.iw == 64 else m

    def kept(self, d, j):
        """what the compression filter leaves"""
        A = self.A
        if cval(A.cf) == 0:
            return TRUE
        l = self.len[d]
        if self.documented:
            return Not(eq(imod(add(j, A.range), self.interval[d]), ZERO))
        fi = fop('fdiv', 32, i2f(32, l), i2f(32, self.eng.pow2(self.st, A.cf, 32)))
        u = fop('fdiv', 32, fop('fmul', 32, i2f(32, j), fi), i2f(32, l))
        u = fop('round', 64, fop('fpext', 64, u))
        u = fop('round', 64, fop('fdiv', 64, fop('fmul', 64, u, i2f(64, l)), fop('fpext', 64, fi)))
        k = fcmp('eq', u, i2f(64, j))
        return Or(eq(A.cf, ZERO), k) if rng(A.cf, self.st.bounds)[0] == 0 else k

    def cond(self, d, j):
        return And(fcmp('le', self.thr(), self.mean(d, j)), self.kept(d, j))

    def step(self, d, j):
        """definition of rank and nth at j"""
        r = self.rank
        return And(eq(r(d, add(j, ONE)), add(r(d, j), b2i(self.cond(d, j)))),
                   Implies(self.cond(d, j), eq(self.nth(d, r(d, j)), j)))

    def mono(self, d, j):
        """instance of the lemma"""
        r = self.rank
        return Implies(And(ge(j, ZERO), lt(j, self.A.m[d])), And(ge(r(d, j), ZERO), le(r(d, j), j), le(r(d, add(j, ONE)), r(d, self.A.m[d]))))

    def entry(self, d, e, idx, cf):
        """entry e >= 1 of the unsorted list"""
        n = self.nth(d, sub(e, ONE))
        out = [ge(n, ZERO), lt(n, self.A.m[d]), self.cond(d, n), eq(self.rank(d, n), sub(e, ONE))]
        if idx is not None:
            out.append(eq(idx, add(n, self.A.range)))
        if cf is not None:
            out.append(fsame(cf, self.conf(d, n)))
        return And(*out)

    def tmpl(self, ctx):
        ctx.info['entry_or'] = ctx.ent
        it = unit_iter(ctx.eng, ctx.info)
        if not it:
            return
        j = it[1]
        head, ent = ctx.head, ctx.ent
        # the dimension this loop is about, if the frame tells (a choice of candidates, not an assumption)
        seen = {v.obj for v in ctx.st.fr.env.values() if isinstance(v, VPtr)}
        dims = [d for d in self.A.m if d + 'result' in seen]
        for d in dims if len(dims) == 1 else self.A.m:
            both(ctx, And(self.step(d, j), self.mono(d, j), eq(self.rank(d, ZERO), ZERO)))
            for v in ctx.ints():
                if v == it[0] or isinstance(ctx.info['kinds'][v], tuple):
                    continue
                yield 'cnt:%s:%s' % (d, v), eq(head[v], add(ent[v], self.rank(d, j)))
            for a in ctx.arrays() if not self.light else ():
                A = head[a]
                n = add(ONE, self.rank(d, j))
                if a.endswith('.%d' % self.io):
                    yield 'idx:%s:%s' % (d, a), PW(a, lambda k, A=A, d=d, n=n: Implies(And(ge(k, ONE), lt(k, n)), self.entry(d, k, select(A, k), None)))
                    yield 'idx0:%s' % a, eq(select(A, ZERO), select(ent[a], ZERO))
                elif a.endswith('.%d' % self.co):
                    yield 'conf:%s:%s' % (d, a), PW(a, lambda k, A=A, d=d, n=n: Implies(And(ge(k, ONE), lt(k, n)), self.entry(d, k, None, select(A, k))))
                    yield 'conf0:%s' % a, fsame(select(A, ZERO), select(ent[a], ZERO))

    # ------------------------------------------------------------ qsort
    def compare(self, fn):
        """paths of the comparator for two entries: [(condition, result)] over (ca, ia, cb, ib) terms"""
        eng, cx = self.eng, self.cx
        out = []
        st = State()
        ps = []
        for nm in 'ab':
            p = struct_obj(eng, st, cx.L, 'cmp.' + nm, 'RDResolution', writable=False,
                           fields=dict(index=VInt(8 * self.isz, var('cmp.%s.i' % nm, 0, INT_MAX)), confidence=VF(fvar(32, 'cmp.%s.c' % nm))))
            ps.append(p)
        st.assume(And(Not(fclass('nan', fvar(32, 'cmp.a.c'))), Not(fclass('nan', fvar(32, 'cmp.b.c')))))
        tm, eng.templates = eng.templates, {}
        eng.run(st, eng.find(fn.name, fn.mod), ps, lambda s, rv: out.append((s, eng.sview(s, rv))))
        eng.templates = tm
        ca, cb = fvar(32, 'cmp.a.c'), fvar(32, 'cmp.b.c')
        for s, r in out:
            eng.oblige(s, 'comparator: higher confidence first', 'post', And(Implies(fcmp('lt', cb, ca), lt(r, ZERO)), Implies(fcmp('lt', ca, cb), gt(r, ZERO))), assume=False)
        # ties: a consistent order
        mapping = lambda x, y: {mk_atom('cmp.a.i'): var('cmp.%s.i' % x, 0, INT_MAX), mk_atom('cmp.b.i'): var('cmp.%s.i' % y, 0, INT_MAX),
                                fvar(32, 'cmp.a.c'): fvar(32, 'cmp.%s.c' % x), fvar(32, 'cmp.b.c'): fvar(32, 'cmp.%s.c' % y)}
        base = State()

        def at(x, y):
            m = mapping(x, y)
            return [(And(*[subst(c, m) for c in s.pc]), subst(r, m)) for s, r in out]
        tie = And(fcmp('eq', ca, cb))
        for c1, r1 in at('a', 'b'):
            for c2, r2 in at('b', 'a'):
                s = State()
                try:
                    s.assume(And(c1, c2, tie))
                except Dead:
                    continue
                eng.oblige(s, 'comparator: antisymmetric on ties', 'post', And(Iff(lt(r1, ZERO), gt(r2, ZERO)), Iff(eq(r1, ZERO), eq(r2, ZERO))), assume=False)
            for c2, r2 in at('b', 'c'):
                for c3, r3 in at('a', 'c'):
                    s = State()
                    try:
                        s.assume(And(c1, c2, c3, tie, fcmp('eq', cb, fvar(32, 'cmp.c.c')), fcmp('eq', ca, fvar(32, 'cmp.c.c'))))
                    except Dead:
                        continue
                    eng.oblige(s, 'comparator: transitive on ties', 'post', Implies(And(le(r1, ZERO), le(r2, ZERO)), le(r3, ZERO)), assume=False)

    def qsort(self, eng, st, a, ins):
        p, n, size, fn = a[0], eng.uview(st, a[1]), eng.uview(st, a[2]), a[3]
        if not isinstance(fn, VFn):
            raise Unsupported('qsort with an unknown comparator')
        eng.oblige(st, 'qsort: elements are results', 'pre', eq(size, I(self.rs)))
        o = eng.mem_ok(st, p, mul(n, I(self.rs)), 'qsort', True)
        eng.oblige(st, 'qsort: sorts from the start of the list', 'pre', eq(p.off, ZERO))
        self.compare(fn)
        o = st.objs[p.obj]
        if o.stride is None:
            o = eng.to_array(st, p.obj, self.rs)
        if o.stride != self.rs or self.io not in o.fields or self.co not in o.fields:
            raise Unsupported('qsort of an array of unknown shape')
        I0, C0 = o.fields[self.io][2], o.fields[self.co][2]
        e = fresh('e', 0, INT_MAX)
        s = st.clone()
        try:
            if self.light:
                raise Dead()       # proved in C10
            s.assume(ge(n, ONE))
            eng.oblige(s, 'qsort: the first confidence is not NaN', 'pre', Not(fclass('nan', select(C0, ZERO, eng.decider(s)))), assume=False)
        except Dead:
            pass
        s = st.clone()
        try:
            if self.light:
                raise Dead()
            s.assume(And(ge(e, ONE), lt(e, n)))
            eng.oblige(s, 'qsort: no confidence is NaN', 'pre', Not(fclass('nan', select(C0, e, eng.decider(s)))), assume=False)
        except Dead:
            pass
        nm = hname(st, ins, 'sorted')
        perm = lambda x: app('perm:' + nm, x, lo=0)
        inv = lambda x: app('inv:' + nm, x, lo=0)
        I1, C1 = abase(nm + '.i', 'I', 0, (1 << 64) - 1), abase(nm + '.c', 'F32')
        eng.note_write(st, o, ('field', p.obj, self.io, self.isz))
        eng.note_write(st, o, ('field', p.obj, self.co, 4))
        w = st.wobj(p.obj)
        w.fields[self.io] = (self.isz, 'I', I1)
        w.fields[self.co] = (4, 'F32', C1)
        inr = lambda x: And(ge(x, ZERO), lt(x, n))

        def permfact(x):
            return And(inr(perm(x)), eq(inv(perm(x)), x))
        w.meta['sorted'] = dict(I0=I0, C0=C0, I1=I1, C1=C1, n=n, perm=perm, inv=inv, inr=inr,
                                # the meaning of the contract, instantiated by the postcondition
                                at=lambda x: Implies(inr(x), And(permfact(x), eq(select(I1, x), select(I0, perm(x))), fsame(select(C1, x), select(C0, perm(x))),
                                                             Implies(eq(perm(x), ZERO), And(eq(select(I1, x), select(I0, ZERO)), fsame(select(C1, x), select(C0, ZERO)))))),
                                back=lambda x: Implies(inr(x), And(inr(inv(x)), eq(perm(inv(x)), x))),
                                order=lambda x, y: Implies(And(inr(x), inr(y), lt(x, y)), Not(fcmp('lt', select(C1, x), select(C1, y)))))
        return None

    # ------------------------------------------------------------ calls
    def outputs(self, mask, null=False):
        """the four output pointers, each with arbitrary previous contents"""
        eng, st, L = self.eng, self.st, self.cx.L
        out = []
        for i, nm in enumerate(('rw', 'cw', 'rh', 'ch')):
            if not mask >> i & 1:
                out.append(NULL)
                continue
            p = eng.new_obj(st, nm, 'param', I(8))
            o = st.objs[nm]
            if i % 2:
                o.cells[0] = (8, VInt(64, var('old ' + nm, 0, U64)))
            else:
                eng.new_obj(st, 'old.' + nm, 'param', I(16), default='lazy')
                st.objs['old.' + nm].writable = False
                o.cells[0] = (8, VPtr('old.' + nm))
            out.append(p)
        return out

    def out(self, st, nm):
        c = st.objs[nm].cells.get(0)
        return c[1] if c else None

    def zeroed(self, st, nm):
        v = self.out(st, nm)
        if nm in ('rw', 'rh'):
            return Bc(isinstance(v, VPtr) and v.obj is None)
        return eq(self.eng.uview(st, v), ZERO) if isinstance(v, VInt) else FALSE

    def check_list(self, st, d, tag, what):
        """the list of dimension d is the specified one"""
        eng, A = self.eng, self.A
        o_ = lambda name, b: eng.oblige(st, '%s, %s: %s' % (tag, d, name), 'post', b, assume=False)
        p, c = self.out(st, 'r' + PFX[d]), self.out(st, 'c' + PFX[d])
        good = isinstance(p, VPtr) and p.obj is not None and st.objs[p.obj].live and st.objs[p.obj].meta.get('alloc') == 'heap' and cval(p.off) == 0
        o_('the list is an allocation the caller can release', Bc(bool(good)))
        if not good or not isinstance(c, VInt):
            return
        count = eng.uview(st, c)
        on = d in A.m
        m = A.m[d] if on else ZERO
        n = add(ONE, self.rank(d, m)) if on else ONE
        o = st.objs[p.obj]
        if what == 'C12':
            o_('the list holds exactly the reported count', eq(o.size, scale(count, self.rs)))
            return
        o_('the count is one more than the number of reported candidates', eq(count, n))
        if self.light:
            return
        q = o.meta.get('sorted')
        if o.stride is None and not q:
            # not sorted: a single entry
            o_('an unsorted list has one entry', eq(n, ONE))
            i0, c0 = o.cells.get(self.io), o.cells.get(self.co)
            o_('the single entry is the native size', And(eq(eng.uview(st, i0[1]), self.len[d]), fsame(c0[1].t, fval(32, -1.0))) if i0 and c0 else FALSE)
            return
        if not q or o.fields[self.io][2] is not q['I1'] or o.fields[self.co][2] is not q['C1']:
            raise Unsupported('the list was not sorted last by qsort')
        o_('all entries were sorted', eq(q['n'], n))
        sel = lambda e: (select(q['I1'], e), select(q['C1'], e))
        dec = eng.decider(st)
        s0 = st.clone()
        # every entry is the native size or a reported candidate
        e = var('e0', 0, INT_MAX)
        s = st.clone()
        try:
            s.assume(And(lt(e, n), q['at'](e)))
            s1 = s.clone()
            try:
                s1.assume(eq(q['perm'](e), ZERO))
                eng.oblige(s1, '%s, %s: one entry is the native size with confidence -1' % (tag, d), 'post',
                           And(eq(select(q['I1'], e), self.len[d]), fsame(select(q['C1'], e), fval(32, -1.0)), eq(select(q['I0'], ZERO, dec), self.len[d])), assume=False)
            except Dead:
                pass
            s.assume(ge(q['perm'](e), ONE))
            if on:
                eng.oblige(s, '%s, %s: every other entry is a reported candidate with its mean confidence' % (tag, d), 'post',
                           self.entry(d, q['perm'](e), select(q['I1'], e), select(q['C1'], e)), assume=False)
            else:
                eng.oblige(s, '%s, %s: there is no other entry' % (tag, d), 'post', FALSE, assume=False)
        except Dead:
            pass
        # each reported candidate is there
        if on:
            s = st.clone()
            k = var('k0', 0, INT_MAX)
            try:
                s.assume(And(lt(k, m), self.cond(d, k), self.step(d, k), self.mono(d, k)))
                e = q['inv'](add(ONE, self.rank(d, k)))
                s.assume(And(q['back'](add(ONE, self.rank(d, k))), q['at'](e)))
                eng.oblige(s, '%s, %s: every candidate at or above the threshold is listed' % (tag, d), 'post',
                           And(ge(e, ZERO), lt(e, n), eq(select(q['I1'], e), add(k, A.range)), fsame(select(q['C1'], e), self.conf(d, k))), assume=False)
            except Dead:
                pass
        # order
        s = st.clone()
        e1, e2 = var('e1', 0, INT_MAX), var('e2', 0, INT_MAX)
        try:
            s.assume(And(lt(e1, e2), lt(e2, n), q['order'](e1, e2), q['at'](e1), q['at'](e2)))
            eng.oblige(s, '%s, %s: confidences do not increase' % (tag, d), 'post', fcmp('le', select(q['C1'], e2), select(q['C1'], e1)), assume=False)
        except Dead:
            pass
        last = sub(n, ONE)
        s = st.clone()
        try:
            s.assume(And(q['at'](last), q['back'](ZERO), q['at'](q['inv'](ZERO)), q['order'](q['inv'](ZERO), last)))
            eng.oblige(s, '%s, %s: the native size is last' % (tag, d), 'post', eq(q['inv'](ZERO), last), assume=False)
        except Dead:
            pass

    def call(self, tag, mask, what, null=False):
        eng, cx, A = self.eng, self.cx, self.A
        C = cx.L.const
        args = self.outputs(mask)
        names = [nm for i, nm in enumerate(('rw', 'cw', 'rh', 'ch')) if mask >> i & 1]
        badarg = (mask & 1 and not mask & 2) or (mask & 4 and not mask & 8) or null

        def done(st, rv):
            o_ = lambda name, b, k='post': eng.oblige(st, '%s: %s' % (tag, name), k, b, assume=False)
            r = ret_int(eng, st, rv)
            af = bool(st.ghost.get('allocfail'))
            keep = {'analysis', 'coeffs', 'plan', 'xresult', 'yresult'}
            exp = 'RDEPARAM' if badarg else 'RDENOIMG' if cval(A.N) == 0 or not self.nz else 'RDENOMEM' if af else 'RDEOK'
            exits_reached(eng, st, exp)
            if what in ('C10', 'C12'):
                o_({'RDEPARAM': 'a parameter error', 'RDENOIMG': 'no counted frame is the no-image error', 'RDENOMEM': 'lack of memory is reported', 'RDEOK': 'success'}[exp],
                   eq(r, I(C[exp])) if r is not None else FALSE)
            if exp != 'RDEOK':
                if what == 'C12':
                    for nm in names:
                        o_('failed: %s is %s' % (nm, 'null' if nm[0] == 'r' else 'zero'), self.zeroed(st, nm))
                    no_leak(eng, st, keep, '%s: failed: nothing is leaked' % tag)
            else:
                for d in 'xy':
                    rn, cn = 'r' + PFX[d], 'c' + PFX[d]
                    if rn in names:
                        self.check_list(st, d, tag, what)
                        p = self.out(st, rn)
                        if isinstance(p, VPtr) and p.obj:
                            keep.add(p.obj)
                    elif cn in names and what in ('C10', 'C12'):
                        o_('%s is not asked for: its count is zero' % d, self.zeroed(st, cn))
                if {'rw', 'rh'} <= set(names) and what in ('C10', 'C12'):
                    p, q = self.out(st, 'rw'), self.out(st, 'rh')
                    o_('the lists are distinct', Bc(isinstance(p, VPtr) and isinstance(q, VPtr) and p.obj != q.obj))
                if what == 'C12':
                    no_leak(eng, st, keep, '%s: only the lists remain allocated' % tag)
            if what == 'C10':
                A.unchanged(st, tag)
                for d in A.m:
                    o_('%s accumulators unchanged' % d, Bc(st.objs[d + 'result'].live and st.objs[d + 'result'].fields[0][2] is A.arr[d]), 'frame')
        self.nz = True
        if A.N is not None and rng(A.N, self.st.bounds)[1] == 0 or self.zero:
            self.nz = False
        eng.run(self.st, cx.fn('resdet_analysis_results'), [NULL if null else A.p] + args, done)

    zero = light = False


def mk_atom(name):
    t = var(name, 0, INT_MAX)
    return t.a[0][0][0]


def results(cx, eng, xs, ys, cf, mask, what, zero=False, null=False, documented=False):
    R = Results(cx, eng, xs, ys, cf, nonzero=not zero, documented=documented)
    R.zero = zero
    R.light = what == 'C12' or documented
    tag = 'results(%s%s searched, %s given%s%s)' % ('x' if xs else '-', 'y' if ys else '-', '+'.join(n for i, n in enumerate(('rw', 'cw', 'rh', 'ch')) if mask >> i & 1) or 'nothing',
                                                   ', no frame' if zero else '', ', null analysis' if null else '')
    if cval(cf) != 0:
        tag += ' filtered'
    R.call(tag, mask, what, null)


def lemma(cx, eng):
    """rank(j) <= j, monotone: by induction"""
    j, m = var('j', 0, INT_MAX), var('m', 0, INT_MAX)
    c = bapp('cond', j)
    r = lambda x: app('rank', x)
    st = State()
    st.assume(eq(r(ZERO), ZERO))
    eng.oblige(st, 'lemma: 0 <= rank(0) <= 0', 'lemma', And(ge(r(ZERO), ZERO), le(r(ZERO), ZERO)), assume=False)
    st.assume(And(eq(r(add(j, ONE)), add(r(j), b2i(c))), ge(r(j), ZERO), le(r(j), j)))
    eng.oblige(st, 'lemma: 0 <= rank(j) <= j is inductive', 'lemma', And(ge(r(add(j, ONE)), ZERO), le(r(add(j, ONE)), add(j, ONE))), assume=False)
    eng.oblige(st, 'lemma: rank does not decrease', 'lemma', le(r(j), r(add(j, ONE))), assume=False)
    st = State()
    c = bapp('cond', m)
    st.assume(And(le(r(j), r(m)), eq(r(add(m, ONE)), add(r(m), b2i(c)))))
    eng.oblige(st, 'lemma: rank(j) <= rank(m) for j <= m is inductive in m', 'lemma', le(r(j), r(add(m, ONE))), assume=False)
    exits_reached(eng, st, 'lemma')
