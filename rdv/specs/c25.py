"""C25: the command line tool's main, over contracts of getopt, the number parsers, stdio and the library's calls."""
from task import *
from externs import literal, EXT
import re

NAMES = 'vmtRxrfon'        # options with a value
LETTERS = dict([(c, True) for c in NAMES] + [('p', False), ('h', False), ('V', False)])
TEXT = {
    'getopt': 'getopt returns each option of the given letters in turn with optarg the start of its value (options without one: null), ? after printing a message for any other, and finally -1 with optind the first operand',
    'strtol': 'strtol, strtoul, strtoull(s, end, 10) convert the number at the start of s and set end past it, or give 0 and end = s when there is none',
    'strtod': 'strtod(s, end) converts the real number at the start of s and sets end past it, or end = s when there is none',
    'printf': 'printf, fprintf, puts, putchar, fputs... write the text of their format and arguments (assumed not to fail)',
    'exit': 'exit(n) ends the program with status n',
    'resdet_get_method': 'contract of C02: null gives the default method, a name its method or null',
    'resdet_open_image': 'contract of C14/C16-C18/C24: an image with its size and a buffer, or a null image, a null buffer and a nonzero error',
    'resdet_seek_frame': 'contract of C19: true, or false with no error past the end, or false with a nonzero error',
    'resdet_read_image_frame': 'contract of C14: true with the next frame in the buffer, false without an error at the end, false with a nonzero error',
    'resdet_create_analysis': 'contract of C04: an analysis for that method, size and parameters, or null with a nonzero error',
    'resdet_analyze_image': 'contract of C09: the frame contributes to the analysis, or a nonzero error',
    'resdet_analysis_results': 'contract of C10/C12: two nonempty lists, or a nonzero error',
    'resdet_destroy_analysis': 'contract of C04: releases the analysis, null is allowed',
    'resdet_close_image': 'contract of C14: releases the image, null is allowed',
    'resdet_error_str': 'contract of C02: the message of an error code',
}
W64 = 1 << 64


class Cli:
    def __init__(self, cx, eng):
        self.cx, self.eng = cx, eng
        L = cx.L
        self.ids = {}
        eng.opts.update(nullobj='args', prune=True, extern_globals={'@optarg': self.g_optarg, '@optind': self.g_optind, '@stderr': self.g_file('STDERR'), '@stdout': self.g_file('STDOUT'), '@stdin': self.g_file('STDIN')})
        C = eng.contracts
        C.update(getopt=self.getopt, strtod=self.strtod, strtol=self.strto('tol', -(1 << 63), (1 << 63) - 1), strtoll=self.strto('tol', -(1 << 63), (1 << 63) - 1), strtoul=self.strto('ull', 0, W64 - 1), strtoull=self.strto('ull', 0, W64 - 1),
                 exit=self.exit, printf=self.printf, fprintf=self.fprintf, puts=self.puts, putchar=self.putchar, fputs=self.fputs, fputc=self.fputc, putc=self.fputc, fflush=lambda e, st, a, i: VInt(32, ZERO),
                 resdet_get_method=self.get_method, resdet_open_image=self.open_, resdet_open_image_with_reader=self.open_reader, resdet_seek_frame=self.seek, resdet_read_image_frame=self.read,
                 resdet_create_analysis=self.create, resdet_analyze_image=self.analyze, resdet_analysis_results=self.results, resdet_destroy_analysis=self.destroy, resdet_close_image=self.close,
                 resdet_error_str=self.error_str)
        eng.templates = {'*': self.tmpl}
        self.fn = next(f for m in cx.mods.values() for f in m.funcs.values() if f.name == '@main')

    # ---- the world
    def g_optarg(self, eng, st, on):
        st.objs[on] = Obj(on, 'param', I(8))
        st.objs[on].cells[0] = (8, VPtr('args', I(-1)))

    def g_optind(self, eng, st, on):
        st.objs[on] = Obj(on, 'param', I(4))
        st.objs[on].cells[0] = (4, VInt(32, ONE))

    def g_file(self, name):
        def f(eng, st, on):
            if name not in st.objs:
                st.objs[name] = Obj(name, 'resource', ONE)
                st.objs[name].meta.update(alloc='stdio', owned=True)
            st.objs[on] = Obj(on, 'const', I(8))
            st.objs[on].writable = False
            st.objs[on].cells[0] = (8, VPtr(name))
        return f

    def start(self):
        eng = self.eng
        st = State()
        for n in ('args', 'input', 'argv0'):
            eng.new_obj(st, n, 'param', I(1 << 40), default='lazy')
            o = st.objs[n]
            o.writable = False
            o.meta.update(nullable=True, string=None, streq=self.streq, hook_load=self.no_text)
        st.objs['input'].meta['strrchr'] = self.rchr
        eng.new_obj(st, 'ext', 'param', I(1 << 40), default='lazy')
        st.objs['ext'].writable = False
        st.objs['ext'].meta.update(streq=self.streq, hook_load=self.no_text)
        argc = var('argc', 1, (1 << 31) - 1)
        eng.new_obj(st, 'argv', 'param', mul(add(argc, ONE), I(8)), default='lazy')
        st.objs['argv'].writable = False
        st.objs['argv'].meta['hook_load'] = self.load_argv
        self.argc = argc
        g = st.ghost
        for c in NAMES:
            g['o' + c] = I(-1)
        g['op'] = ZERO
        g['left'] = var('noptions', 0)
        g['frames'] = var('nframes_in_file', 0, 1 << 62)
        g['nread'] = g['nana'] = g['err'] = ZERO
        g['pos'] = I(-1)
        g['row'] = ZERO
        g['now'] = ''
        g['msg'] = g['errmsg'] = g['created'] = g['gotresults'] = g['sought'] = g['past'] = g['ended'] = g['nomem'] = g['bad'] = False
        return st, [VInt(32, argc), VPtr('argv')]

    def no_text(self, eng, st, o, ptr, ty, n):
        raise Unsupported('a character of an argument is looked at')

    def load_argv(self, eng, st, o, ptr, ty, n):
        c = cval(ptr.off)
        if c == 0:
            return VPtr('argv0')
        w = st.ghost.get('optind')
        if w is None or not eng.proves(st, eq(ptr.off, mul(w, I(8)))):
            if eng.final:
                raise Unsupported('an argument other than the first operand is used')
            return VPtr('input', ZERO)
        # argv[argc] is null
        return VPtr('input', ite(eq(w, self.argc), I(-1), ZERO))

    def sid(self, lit, fold):
        k = lit.lower() if fold else lit
        return self.ids.setdefault((k, fold), len(self.ids))

    def name(self, p):
        return p.obj

    def streq(self, eng, st, p, lit, fold):
        self.nonnull(st, p, 'comparison')
        return self.is_(p.obj, p.off, lit, fold)

    def is_(self, obj, off, lit, fold):
        return eq(app('%s:%s' % ('ifold' if fold else 'iexact', obj), off, lo=0), I(self.sid(lit, fold)))

    def nonnull(self, st, p, what):
        if isinstance(p, VUndef) or not isinstance(p, VPtr) or p.obj is None:
            self.eng.oblige(st, '%s of a null or uninitialised string at %s' % (what, self.eng.curloc), 'mem', FALSE)
            raise Dead()
        if st.objs[p.obj].meta.get('nullable'):
            self.eng.oblige(st, '%s of a string that is not null at %s' % (what, self.eng.curloc), 'mem', ge(p.off, ZERO))

    def rchr(self, eng, st, p, c, ins):
        self.nonnull(st, p, 'search')
        if c != ord('.') or not eng.proves(st, eq(p.off, ZERO)):
            raise Unsupported('search for another character')
        s2 = st.clone()
        s2.assume(eq(var('ext'), I(-1)))
        st.assume(ge(var('ext'), ZERO))
        return [(s2, NULL), (st, VPtr('ext', var('ext')))]

    def setg(self, st, **kw):
        for k, v in kw.items():
            st.ghost[k] = v
            if isinstance(v, T):
                self.eng.note_write(st, None, ('ghost', k))

    # ---- options
    def getopt(self, eng, st, a, ins):
        lit = literal(st, a[2])
        if lit is None:
            raise Unsupported('option letters are not constant')
        t = lit.decode()
        got = {}
        for m in re.finditer(r'([^:])(:*)', t):
            got[m.group(1)] = len(m.group(2)) == 1
        if t.startswith((':', '+', '-')):
            raise Unsupported('option string %s' % t)
        eng.oblige(st, 'the documented options are taken', 'post', Bc(all(got.get(c) is v for c, v in LETTERS.items())), assume=False)
        eng.oblige(st, 'the arguments given are parsed', 'post', Bc(isinstance(a[1], VPtr) and a[1].obj == 'argv' and a[1].off is ZERO and eng.uview(st, a[0]) is self.argc), assume=False)
        arg = eng.global_ptr(st, '@optarg', st.fr.fn.mod)
        ind = eng.global_ptr(st, '@optind', st.fr.fn.mod)
        out = []
        off = var(st.site('optarg'), 0)
        n = st.ghost['left']
        # the end
        s = st.clone()
        w = var(st.site('optind'), 1, (1 << 31) - 1)
        s.assume(le(w, self.argc))
        s.ghost.update(now='', optind=w)
        eng.store(s, IntTy(32), VInt(32, w), ind, st.fr.fn.mod)
        out.append((s, VInt(32, I(-1))))
        for c, has in sorted(got.items()) + [('?', False)]:
            s = st.clone()
            try:
                s.assume(gt(n, ZERO))
            except Dead:
                continue
            s.ghost['now'] = c
            self.setg(s, left=sub(n, ONE))
            eng.store(s, PTR, VPtr('args', off if has else I(-1)), arg, st.fr.fn.mod)
            if c == '?':
                s.ghost['msg'] = s.ghost['bad'] = True
            elif c in NAMES and has:
                self.setg(s, **{'o' + c: off})
            elif c == 'p':
                self.setg(s, op=ONE)
            s.note.append('option %s' % c)
            out.append((s, VInt(32, I(ord(c)))))
        return out

    def len_(self, off, what='ull'):
        return app('len:' + what, off, lo=0)

    def num(self, off, what='ull'):
        return app('num:' + what, off, lo=-(1 << 63) if what == 'tol' else 0, hi=(1 << 63) - 1 if what == 'tol' else W64 - 1)

    def endptr(self, eng, st, p, q, n):
        if isinstance(q, VPtr) and q.obj is not None:
            eng.store(st, PTR, VPtr(p.obj, add(p.off, n)), q, st.fr.fn.mod)
            st.ghost['ends'] = tuple(sorted(set(st.ghost.get('ends', ())) | {(q.obj, cval(q.off))}))

    def strto(self, what, lo, hi):
        def f(eng, st, a, ins):
            self.nonnull(st, a[0], 'conversion')
            base = cval(eng.uview(st, a[2]))
            if a[0].obj != 'args' or base is None:
                raise Unsupported('conversion of something else')
            w = what if base == 10 else '%s in base %d' % (what, base)
            v = app('num:' + w, a[0].off, lo=lo, hi=hi)
            n = app('len:' + ('ull' if base == 10 else w), a[0].off, lo=0)
            st.assume(Implies(eq(n, ZERO), eq(v, ZERO)))
            self.endptr(eng, st, a[0], a[1], n)
            return VInt(64, v)
        return f

    def strtod(self, eng, st, a, ins):
        self.nonnull(st, a[0], 'conversion')
        if a[0].obj != 'args':
            raise Unsupported('conversion of something else')
        self.endptr(eng, st, a[0], a[1], self.len_(a[0].off, 'dbl'))
        return VF(self.dbl(a[0].off))

    def dbl(self, off):
        return select(abase('num:dbl', 'F64'), off)

    def threshold(self, st, off):
        e = self.eng
        import struct
        c = fconst(64, struct.unpack('<Q', struct.pack('<d', 100.0))[0])
        return fop('fptrunc', 32, fop('fdiv', 64, self.dbl(off), c))

    def opt(self, st, c):
        return st.ghost['o' + c]

    def given(self, st, c):
        return ge(self.opt(st, c), ZERO)

    # ---- what makes the arguments invalid
    def bad(self, st):
        o = lambda c: self.opt(st, c)
        num = lambda c: And(self.given(st, c), eq(self.len_(o(c)), ZERO))
        t = self.threshold(st, o('x'))
        g = st.ghost
        auto = self.is_('args', o('f'), b'auto', False)
        out = [num('o'), num('n'), And(self.given(st, 'n'), eq(self.num(o('n')), ZERO)),
               And(self.given(st, 'x'), Or(eq(self.len_(o('x'), 'dbl'), ZERO), fcmp('uno', t, t), fcmp('lt', t, fconst(32, 0)), fcmp('lt', fconst(32, 0x3f800000), t))),
               num('r'), And(self.given(st, 'r'), eq(self.num(o('r')), ZERO)),
               And(self.given(st, 'f'), Not(auto), Or(eq(self.len_(o('f')), ZERO), gt(self.num(o('f')), I(31)))),
               And(self.given(st, 't'), self.given(st, 'R'))]
        if 'optind' in g:
            out.append(eq(g['optind'], self.argc))
        out.append(And(self.given(st, 'm'), Not(self.method_ok(o('m')))))
        if g['now'] == 'R':
            out.append(And(*[Not(self.is_('args', o('R'), n, True)) for n in self.readers()]))
        return out

    def method_ok(self, off):
        return bapp('ismethod', off)

    _readers = None

    def readers(self):
        """the names the library lists, by running its function"""
        if self._readers is None:
            eng = self.eng
            names = []

            def got(st, rv):
                o, i = st.objs[rv.obj], cval(rv.off)
                while True:
                    c = o.cells.get(i)
                    if c is None or not isinstance(c[1], VPtr) or c[1].obj is None:
                        break
                    names.append(literal(st, c[1]))
                    i += 8
            eng.run(State(), self.cx.fn('resdet_list_image_readers'), [], got)
            self._readers = names
        return self._readers

    # ---- library
    def get_method(self, eng, st, a, ins):
        p = a[0]
        if isinstance(p, VPtr) and p.obj is None:
            p = VPtr('args', I(-1))
        if not isinstance(p, VPtr) or p.obj != 'args':
            raise Unsupported('method name')
        eng.oblige(st, 'the method asked for is looked up', 'post', eq(p.off, self.opt(st, 'm')), assume=False)
        ok = Or(lt(p.off, ZERO), self.method_ok(p.off))
        s2 = st.clone()
        out = []
        try:
            s2.assume(Not(ok))
            out.append((s2, NULL))
        except Dead:
            pass
        st.assume(ok)
        if 'method' not in st.objs:
            eng.new_obj(st, 'method', 'opaque', I(1))
        out.append((st, VPtr('method')))
        return out

    def seterr(self, eng, st, q, v):
        if isinstance(q, VPtr) and q.obj is not None:
            eng.store(st, IntTy(32), VInt(32, v), q, st.fr.fn.mod)
        elif cval(v) != 0:
            raise Unsupported('the error is not asked for')

    def fails(self, eng, st, q, what, ins):
        """an error is returned in *q (q None: returned)"""
        e = var(st.site('error:' + what), -(1 << 31), (1 << 31) - 1)
        st.assume(ne(e, ZERO))
        self.setg(st, err=e)
        if q is not None:
            self.seterr(eng, st, q, e)
        st.note.append('%s fails' % what)
        return e

    def open_(self, eng, st, a, ins):
        t = a[1] if a[1].obj is not None else VPtr('args', I(-1))
        if t.obj != 'args':
            raise Unsupported('image type')
        eng.oblige(st, 'the file is opened as the type asked for', 'post', And(eq(t.off, self.opt(st, 't')), lt(self.opt(st, 'R'), ZERO)), assume=False)
        return self.opened(eng, st, a, ins)

    def open_reader(self, eng, st, a, ins):
        t = a[1] if a[1].obj is not None else VPtr('args', I(-1))
        if t.obj != 'args':
            raise Unsupported('reader name')
        eng.oblige(st, 'the file is opened with the reader asked for', 'post', And(eq(t.off, self.opt(st, 'R')), ge(t.off, ZERO), lt(self.opt(st, 't'), ZERO)), assume=False)
        return self.opened(eng, st, a, ins)

    def opened(self, eng, st, a, ins):
        eng.oblige(st, 'the file named is opened', 'post', And(eq(a[0].off, ZERO)) if isinstance(a[0], VPtr) and a[0].obj == 'input' else FALSE, assume=False)
        if 'image' in st.objs:
            raise Unsupported('opened twice')
        self.canon(st)
        self.ends(st)
        try:
            eng.join(st, 'opening')
        except Dead:
            return []
        s2 = st.clone()
        self.fails(eng, s2, a[5], 'opening', ins)
        mod = st.fr.fn.mod
        eng.store(s2, PTR, NULL, a[4], mod)
        self.seterr(eng, st, a[5], ZERO)
        p = eng.new_obj(st, 'image', 'resource', ONE)
        st.objs['image'].meta['alloc'] = 'image'
        b = eng.new_obj(st, 'buffer', 'heap', var('buffer', 4))
        st.objs['buffer'].meta['alloc'] = 'heap'
        eng.store(st, IntTy(64), VInt(64, var('width', 1, W64 - 1)), a[2], mod)
        eng.store(st, IntTy(64), VInt(64, var('height', 1, W64 - 1)), a[3], mod)
        eng.store(st, PTR, b, a[4], mod)
        return [(s2, NULL), (st, p)]

    def ends(self, st):
        """what a number parser left in an end pointer is not read again: forget it (reading it would fail an obligation)"""
        for on, off in st.ghost.pop('ends', ()):
            o = st.objs.get(on)
            if o is not None and o.live and off in o.cells:
                w = st.wobj(on)
                del w.cells[off]

    def params(self, st):
        for o in st.objs.values():
            if o.kind == 'heap' and o.live and o.name not in ('buffer', 'rw', 'rh'):
                return o
        return None

    def cells(self, st):
        L, o = self.cx.L, self.params(st)
        if o is None:
            return None
        return [o.cells.get(L.off['RDParameters'][f]) for f in ('range', 'threshold', 'compression_filter')]

    def want(self, st):
        """(condition, range correct), (.., threshold), (.., filter) as formulas over the current contents"""
        eng = self.eng
        c = self.cells(st)
        if c is None or any(x is None for x in c):
            return None
        o = lambda k: self.opt(st, k)
        d = self.defaults()
        rg = eng.uview(st, c[0][1])
        r = eq(rg, ite(self.given(st, 'r'), self.num(o('r')), d[0])) if rg is not WANT_R else TRUE
        t = c[1][1].t
        if t is WANT_T:
            h = TRUE
        else:
            w = self.threshold(st, o('x'))
            h = And(Implies(self.given(st, 'x'), fsame(t, w)), Implies(Not(self.given(st, 'x')), fsame(t, d[1])))
        cf = eng.uview(st, c[2][1])
        if cf is WANT_F:
            f = TRUE
        else:
            auto = self.is_('args', o('f'), b'auto', False)
            x = var('ext')
            e = lambda *n: Or(*[self.is_('ext', x, b'.' + k, True) for k in n])
            byext = ite(lt(x, ZERO), ZERO, ite(e(b'jpeg', b'jpg', b'mp4', b'mkv'), I(3), ite(e(b'webp', b'webm'), I(2), ite(e(b'avif', b'heic'), I(5), ZERO))))
            f = eq(cf, ite(self.given(st, 'f'), ite(auto, byext, self.num(o('f'))), d[2]))
        return r, h, f

    _defaults = None

    def defaults(self):
        if self._defaults is None:
            L, out = self.cx.L, []

            def got(st, rv):
                if rv.obj is not None:
                    c = st.objs[rv.obj].cells
                    g = lambda f: c[L.off['RDParameters'][f]][1]
                    out.append((self.eng.uview(st, g('range')), g('threshold').t, self.eng.uview(st, g('compression_filter'))))
            self.eng.run(State(), self.cx.fn('resdet_alloc_default_parameters'), [], got)
            self._defaults = out[0]
        return self._defaults

    def canon(self, st):
        """replace what is known to be as wanted by a name for it, so that the paths of different options join"""
        eng, L = self.eng, self.cx.L
        o = self.params(st)
        if o is None:
            return
        if not st.ghost.get('valid') and all(eng.proves(st, Not(b)) for b in self.bad(st)):
            st.ghost['valid'] = True
        w = self.want(st)
        if w is None:
            return
        k = st.wobj(o.name)
        for f, b, v in zip(('range', 'threshold', 'compression_filter'), w, (VInt(64, WANT_R), VF(WANT_T), VInt(8, WANT_F))):
            off = L.off['RDParameters'][f]
            if b is not TRUE and eng.proves(st, b):
                k.cells[off] = (L.fsz['RDParameters'][f], v)

    def seek(self, eng, st, a, ins):
        g = st.ghost
        off = eng.uview(st, a[1])
        eng.oblige(st, 'the start frame asked for is sought', 'post', And(Bc(self.isobj(a[0], 'image')), self.given(st, 'o'), eq(off, self.num(self.opt(st, 'o'))), eq(g['nread'], ZERO)), assume=False)
        eng.oblige(st, 'sought once', 'post', Bc(not g['sought']), assume=False)
        g['sought'] = True
        s2, s3 = st.clone(), st.clone()
        self.seterr(eng, st, a[4], ZERO)
        self.seterr(eng, s2, a[4], ZERO)
        s2.ghost['past'] = True
        self.fails(eng, s3, a[4], 'seeking', ins)
        return [(s3, VBool(FALSE)), (s2, VBool(FALSE)), (st, VBool(TRUE))]

    def isobj(self, p, name):
        return isinstance(p, VPtr) and p.obj == name and p.off is ZERO

    def create(self, eng, st, a, ins):
        g = st.ghost
        o_ = lambda n, b: eng.oblige(st, n, 'post', b, assume=False)
        o_('the analysis is made for the method asked for', Bc(self.isobj(a[0], 'method')))
        o_('the analysis is made for the size of the image', And(eq(eng.uview(st, a[1]), var('width', 1, W64 - 1)), eq(eng.uview(st, a[2]), var('height', 1, W64 - 1))))
        o = self.params(st)
        o_('the parameters are given to the analysis', Bc(o is not None and self.isobj(a[3], o.name)))
        self.canon(st)
        if not g.get('valid'):
            for i, b in enumerate(self.bad(st)):
                o_('invalid arguments are refused before analysing (%d)' % i, Not(b))
        w = self.want(st)
        for n, b in zip(('range', 'threshold', 'filter'), w or (FALSE,) * 3):
            o_('the %s asked for, or the default, is used' % n, b)
        o_('no error is passed over', eq(g['err'], ZERO))
        o_('nothing is analysed past the end', Bc(not g['past']))
        if 'analysis' in st.objs:
            raise Unsupported('analysis made twice')
        g['created'] = True
        self.ends(st)
        try:
            eng.join(st, 'creating')
        except Dead:
            return []
        s2 = st.clone()
        self.fails(eng, s2, a[4], 'making the analysis', ins)
        p = eng.new_obj(st, 'analysis', 'resource', ONE)
        st.objs['analysis'].meta['alloc'] = 'analysis'
        self.seterr(eng, st, a[4], ZERO)
        return [(s2, NULL), (st, p)]

    def limit(self, st):
        """the number of frames asked for is reached"""
        return And(self.given(st, 'n'), eq(st.ghost['nana'], self.num(self.opt(st, 'n'))))

    def read(self, eng, st, a, ins):
        g = st.ghost
        o_ = lambda n, b: eng.oblige(st, n, 'post', b, assume=False)
        o_('frames are read from the image into its buffer', Bc(self.isobj(a[0], 'image') and self.isobj(a[1], 'buffer')))
        o_('the start frame was sought', Or(Bc(g['sought']), lt(self.opt(st, 'o'), ZERO), eq(self.num(self.opt(st, 'o')), ZERO)))
        o_('every frame read is analysed before the next is read', eq(g['nread'], g['nana']))
        o_('no frame is read past the limit', Not(self.limit(st)))
        o_('no error is passed over', eq(g['err'], ZERO))
        o_('reading stops at the end', Bc(not g['ended']))
        s2, s3 = st.clone(), st.clone()
        out = [(s3, VBool(FALSE)), (s2, VBool(FALSE))]
        self.fails(eng, s3, a[2], 'reading', ins)
        self.seterr(eng, s2, a[2], ZERO)
        s2.ghost['ended'] = True
        try:
            st.assume(gt(g['frames'], ZERO))
            self.setg(st, frames=sub(g['frames'], ONE), nread=add(g['nread'], ONE))
            self.seterr(eng, st, a[2], ZERO)
            out.append((st, VBool(TRUE)))
        except Dead:
            pass
        return out

    def analyze(self, eng, st, a, ins):
        g = st.ghost
        o_ = lambda n, b: eng.oblige(st, n, 'post', b, assume=False)
        o_('the frame read is analysed', And(Bc(self.isobj(a[0], 'analysis') and self.isobj(a[1], 'buffer')), eq(g['nread'], add(g['nana'], ONE))))
        o_('no error is passed over', eq(g['err'], ZERO))
        s2 = st.clone()
        e = self.fails(eng, s2, None, 'analysing', ins)
        self.setg(st, nana=add(g['nana'], ONE))
        return [(s2, VInt(32, e)), (st, VInt(32, ZERO))]

    def results(self, eng, st, a, ins):
        g, L = st.ghost, self.cx.L
        o_ = lambda n, b: eng.oblige(st, n, 'post', b, assume=False)
        o_('the results of the analysis are asked for', Bc(self.isobj(a[0], 'analysis')))
        o_('every frame read contributes', eq(g['nread'], g['nana']))
        o_('frames are read up to the end or the limit', Or(Bc(g['ended']), self.limit(st)))
        o_('no error is passed over', eq(g['err'], ZERO))
        s2 = st.clone()
        e = self.fails(eng, s2, None, 'making the results', ins)
        if g['gotresults']:
            raise Unsupported('results asked twice')
        g.update(gotresults=True, ended=True, sought=True, msg=False)
        mod = st.fr.fn.mod
        sz = L.size['RDResolution']
        for n, lp, cp in (('rw', a[1], a[2]), ('rh', a[3], a[4])):
            c = var('c' + n[1], 1, 1 << 58)
            p = eng.new_obj(st, n, 'heap', mul(c, I(sz)))
            o = st.objs[n]
            o.meta['alloc'] = 'heap'
            o.stride = sz
            o.fields[L.off['RDResolution']['index']] = (8, 'I', self.arr(n)[0])
            o.fields[L.off['RDResolution']['confidence']] = (4, 'F32', self.arr(n)[1])
            if lp.obj is None or cp.obj is None:
                raise Unsupported('a list is not asked for')
            eng.store(st, PTR, p, lp, mod)
            eng.store(st, IntTy(64), VInt(64, c), cp, mod)
        self.setg(st, pos=ZERO)
        out = [(s2, VInt(32, e))]
        try:
            eng.join(st, 'results')
        except Dead:
            return out
        v = self.verb(st)
        for c, k in [(eq(v, I(i)), 1000 * i) for i in range(4)] + [(And(*[ne(v, I(i)) for i in range(4)]), 4000)]:
            s = st.clone()
            try:
                s.assume(c)
                if eng.feasible(s):
                    self.setg(s, pos=I(k))
                    out.append((s, VInt(32, ZERO)))
            except Dead:
                pass
        return out

    def arr(self, n):
        return abase(n + '.index', 'I', 0, W64 - 1), abase(n + '.confidence', 'F32')

    def release_(self, what, tag):
        def f(eng, st, a, ins):
            if isinstance(a[0], VPtr) and a[0].obj is None:
                return None
            externs.release(eng, st, a[0], what, kinds=(tag,))
            return None
        return f

    def destroy(self, eng, st, a, ins):
        return self.release_('destruction', 'analysis')(eng, st, a, ins)

    def close(self, eng, st, a, ins):
        return self.release_('closing', 'image')(eng, st, a, ins)

    def error_str(self, eng, st, a, ins):
        nm = st.site('errstr')
        p = eng.new_obj(st, nm, 'param', I(1), default='lazy')
        st.objs[nm].meta['errstr'] = eng.sview(st, a[0])
        st.objs[nm].writable = False
        return p

    # ---- output
    def printf(self, eng, st, a, ins):
        return self.emit(eng, st, self.parse(eng, st, a[0], a[1:]))

    def fprintf(self, eng, st, a, ins):
        if self.isobj(a[0], 'STDERR'):
            self.message(st, a[1:])
            return VInt(32, ONE)
        if self.isobj(a[0], 'STDOUT'):
            return self.emit(eng, st, self.parse(eng, st, a[1], a[2:]))
        raise Unsupported('another stream')

    def message(self, st, args):
        g = st.ghost
        l = literal(st, args[0]) if isinstance(args[0], VPtr) else None
        if l is not None and not l.strip(b'\r\n'):
            return
        g['msg'] = True
        for p in args:
            if isinstance(p, VPtr) and p.obj is not None and 'errstr' in st.objs[p.obj].meta:
                if l is None or b'%s' in l:
                    if self.eng.proves(st, eq(st.objs[p.obj].meta['errstr'], g['err'])):
                        g['errmsg'] = True

    def puts(self, eng, st, a, ins):
        return self.emit(eng, st, self.text(st, a[0]) + ['\n'])

    def putchar(self, eng, st, a, ins):
        c = cval(eng.uview(st, a[0]))
        if c is None:
            raise Unsupported('character written')
        return self.emit(eng, st, [chr(c)])

    def fputs(self, eng, st, a, ins):
        if self.isobj(a[1], 'STDERR'):
            self.message(st, a[:1])
            return VInt(32, ONE)
        if self.isobj(a[1], 'STDOUT'):
            return self.emit(eng, st, self.text(st, a[0]))
        raise Unsupported('another stream')

    def fputc(self, eng, st, a, ins):
        if self.isobj(a[1], 'STDERR'):
            return VInt(32, ONE)
        if self.isobj(a[1], 'STDOUT'):
            return self.putchar(eng, st, a, ins)
        raise Unsupported('another stream')

    def text(self, st, p):
        l = literal(st, p)
        return ['?text'] if l is None else list(l.decode('latin1'))

    def parse(self, eng, st, f, args):
        l = literal(st, f)
        if l is None:
            raise Unsupported('format is not constant')
        out, args, i, l = [], list(args), 0, l.decode('latin1')
        while i < len(l):
            if l[i] != '%':
                out.append(l[i])
                i += 1
                continue
            m = re.compile(r'%([-+ #0]*)(\d*)(?:\.(\d*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])').match(l, i)
            if not m:
                raise Unsupported('format %s' % l)
            i = m.end()
            fl, w, pr, ln, cv = m.groups()
            if cv == '%':
                out.append('%')
                continue
            v = args.pop(0)
            if cv == 's':
                t = self.text(st, v)
                if t != ['?text'] and pr is None:
                    pad = [' '] * max(0, int(w or 0) - len(t))
                    out += t + pad if '-' in fl else pad + t
                    continue
                out.append('?text')
                continue
            if cv == 'c' and cval(eng.uview(st, v)) is not None:
                out.append(chr(cval(eng.uview(st, v))))
                continue
            if cv in 'diuxXo' and isinstance(v, VInt):
                out.append(('%' + fl + w + ('.' + pr if pr is not None else '') + cv + str(v.w if ln in ('ll', 'l', 'z', 'j', 't') else 32), v))
                continue
            out.append(('%' + fl + w + ('.' + pr if pr is not None else '') + cv, v))
        return out

    def emit(self, eng, st, toks):
        g = st.ghost
        if not g['gotresults']:
            ok = not g['created'] and g['now'] in ('h', 'V', 'R') and 'image' not in st.objs
            if not g['created'] and g['now'] == '' and 'image' not in st.objs and toks:
                # a refused argument may be explained on standard output as well
                ok = g['msg']
            eng.oblige(st, 'nothing else is printed before the results', 'post', Bc(ok or not toks), assume=False)
            return VInt(32, ONE)
        todo = [(st, list(toks))]
        done = []
        while todo:
            s, t = todo.pop()
            try:
                if not t:
                    done.append((s, VInt(32, ONE)))
                    continue
                r = self.accept(eng, s, t[0])
                if r is None:
                    todo.append((s, t[1:]))
                else:
                    todo += [(x, t) for x in r]
            except Dead:
                pass
        return done

    def verb(self, st):
        v = self.opt(st, 'v')
        n = self.num(v, 'tol')
        w = imod(n, I(1 << 32))                 # conversion to int; the same term on every path
        return ite(ge(v, ZERO), ite(lt(w, I(1 << 31)), w, sub(w, I(1 << 32))), I(-1))

    # positions: 1000 * format + state
    def cases(self, st, conds):
        """the condition known here, else fork: (index, None) or (None, states)"""
        for i, c in enumerate(conds):
            if self.eng.proves(st, c):
                return i, None
        out = []
        for c in conds:
            s = st.clone()
            try:
                s.assume(c)
                if self.eng.feasible(s):
                    out.append(s)
            except Dead:
                pass
        if len(out) < 2:
            return (None, out)
        return None, out

    _fixed = None

    def accept(self, eng, st, tok):
        """one piece of output against what is expected next; a list: the state splits first"""
        g = st.ghost
        lo, hi = rng(g['pos'], st.bounds)
        if lo is None or lo != hi:
            if eng.final:
                if not eng.proves(st, Or(*[eq(g['pos'], I(k)) for k in POSITIONS])):
                    raise Unsupported('what has been printed so far is not known')
                i, f = self.cases(st, [eq(g['pos'], I(k)) for k in POSITIONS])
                if i is None:
                    return f
                lo = POSITIONS[i]
            else:
                self.setg(st, pos=g['pos'], row=g['row'])
                return None
        pos = lo
        cw, ch = var('cw', 1, 1 << 58), var('ch', 1, 1 << 58)
        o_ = lambda n, b: eng.oblige(st, n, 'post', b, assume=False)
        if pos == 0:
            o_('nothing is printed with verbosity 0', FALSE)
            raise Dead()
        mode, k = divmod(pos, 1000)
        row = g['row']
        iw, cwf = self.arr('rw')
        ih, chf = self.arr('rh')

        def conv(spec, want, n):
            good = isinstance(tok, tuple) and (tok[0] == spec or spec.rstrip('0123456789') in ('%u', '%5u') and tok[0] == spec)
            if not good:
                return FALSE
            v = tok[1]
            if isinstance(v, VInt):
                return eq(eng.uview(st, v), want)
            if isinstance(v, VF):
                return Bc(v.t is want) if v.t is want else Or(fcmp('eq', v.t, want), And(fcmp('uno', v.t, v.t), fcmp('uno', want, want)))
            return FALSE

        def script(items, at, nxt):
            """fixed sequence; items: characters or (spec, value)"""
            w = items[at]
            if isinstance(w, tuple):
                o_('%s: %s is printed' % (NAME[mode], w[2]), conv(w[0], w[1], w[2]))
            else:
                o_('%s: the text is as documented' % NAME[mode], Bc(tok == w))
            self.setg(st, pos=I(1000 * mode + nxt(at + 1)))

        f64 = lambda t: fop('fpext', 64, t)
        if mode == 1:
            s = [('%u64', select(iw, ZERO), 'the first width')] + list(' ') + [('%u64', select(ih, ZERO), 'the first height')] + list('\n')
            if k == len(s):
                o_('%s: nothing more is printed' % NAME[mode], FALSE)
                raise Dead()
            script(s, k, lambda n: n)
            return None
        if mode in (2, 3):
            item = lambda a, b: [('%u64', select(a, row), 'the size')] + ([':', ('%f', f64(select(b, row)), 'the confidence')] if mode == 3 else []) + [' ']
            d = k // 100
            if d > 1:
                o_('%s: nothing more is printed' % NAME[mode], FALSE)
                raise Dead()
            a, b, c = ((iw, cwf, cw), (ih, chf, ch))[d]
            if k % 100 == 0:
                if tok == '\n':
                    o_('%s: every candidate is printed' % NAME[mode], eq(row, c))
                    self.setg(st, pos=I(1000 * mode + 100 * (d + 1)), row=ZERO)
                    return None
                o_('%s: candidates are printed in order' % NAME[mode], lt(row, c))
            it = item(a, b)
            n = k % 100
            last = n + 1 == len(it)
            script(it, n, lambda m: 100 * d + (0 if last else m))
            if last:
                self.setg(st, row=add(row, ONE))
            return None
        # human readable
        both = And(eq(cw, ONE), eq(ch, ONE))
        if self._fixed is None:
            self._fixed = (list('given: ') + [('%u64', select(iw, sub(cw, ONE)), 'the given width'), 'x', ('%u64', select(ih, sub(ch, ONE)), 'the given height')] + list('\nbest guess: ') +
                           [('%u64', select(iw, ZERO), 'the best width'), 'x', ('%u64', select(ih, ZERO), 'the best height')])
        head, tail, table = self._fixed, ' (not upsampled)\n', 'all width        height\n'
        cell = lambda a, c, sp: [('%5u64', select(a, row), 'the size'), ' ', '(', ('%5.2f', f64(fop('fmul', 32, select(c, row), fconst(32, 0x42c80000))), 'the confidence')] + list('%)') + [' '] * sp
        if k < len(head):
            script(head, k, lambda n: n if n < len(head) else 100)
            return None
        if k == 100:
            i, f = self.cases(st, [both, Not(both)])
            if i is None:
                return f
            if i == 1:
                o_('%s: the text is as documented' % NAME[mode], Bc(tok == '\n'))
                self.setg(st, pos=I(4300))
                return None
            k = 100
        if 100 <= k < 200:
            n = k - 100
            o_('%s: the text is as documented' % NAME[mode], Bc(tok == tail[n]))
            self.setg(st, pos=I(4000 + (300 if n + 1 == len(tail) else k + 1)))
            return None
        if 300 <= k < 400:
            n = k - 300
            if n == 0:
                rows = ite(gt(cw, ch), sub(cw, ONE), sub(ch, ONE))
                o_('%s: a table is printed when there is more than the given size' % NAME[mode], gt(rows, ZERO))
            o_('%s: the text is as documented' % NAME[mode], Bc(tok == table[n]))
            self.setg(st, pos=I(4000 + (500 if n + 1 == len(table) else k + 1)))
            return None
        rows = ite(gt(cw, ch), sub(cw, ONE), sub(ch, ONE))
        inw, inh = lt(row, sub(cw, ONE)), lt(row, sub(ch, ONE))
        if k == 500:
            o_('%s: rows are printed in order' % NAME[mode], lt(row, rows))
            i, f = self.cases(st, [inw, Not(inw)])
            if i is None:
                return f
            k = 500 if i == 0 else 600
        if 500 <= k < 600:
            script(cell(iw, cwf, 3), k - 500, lambda n: 500 + n if n < 9 else 700)
            return None
        if 600 <= k < 700:
            n = k - 600
            o_('%s: the text is as documented' % NAME[mode], Bc(tok == ' '))
            self.setg(st, pos=I(4000 + (k + 1 if n + 1 < 17 else 700)))
            return None
        if k == 700:
            i, f = self.cases(st, [inh, Not(inh)])
            if i is None:
                return f
            k = 700 if i == 0 else 800
        if 700 <= k < 800:
            script(cell(ih, chf, 0), k - 700, lambda n: 700 + n if n < 6 else 800)
            return None
        o_('%s: the text is as documented' % NAME[mode], Bc(tok == '\n'))
        self.setg(st, pos=I(4500), row=add(row, ONE))
        return None

    def complete(self, st):
        """everything of the format asked for has been printed"""
        g = st.ghost
        cw, ch = var('cw', 1, 1 << 58), var('ch', 1, 1 << 58)
        v = self.verb(st)
        rows = ite(gt(cw, ch), sub(cw, ONE), sub(ch, ONE))
        p, r = g['pos'], g['row']
        return Or(And(eq(v, ZERO), eq(p, ZERO)), eq(p, I(1004)), eq(p, I(2200)), eq(p, I(3200)), And(Or(eq(p, I(4300)), eq(p, I(4500))), eq(r, rows)))

    # ---- the end
    def exit(self, eng, st, a, ins):
        self.end(st, a[0])
        raise Dead()

    def end(self, st, rv):
        eng, g = self.eng, st.ghost
        o_ = lambda n, b: eng.oblige(st, n, 'post', b, assume=False)
        s = eng.sview(st, rv) if not isinstance(rv, VUndef) else None
        if s is None:
            o_('the exit status is defined', FALSE)
            return
        fail = And(ge(s, ONE), le(s, I(255)))
        noerr = eng.proves(st, eq(g['err'], ZERO))
        if not g['created'] and noerr and not g['past']:
            if g['now'] in ('h', 'V'):
                o_('asking for help or the version is no failure', eq(s, ZERO))
                exits_reached(eng, st, 'information')
                return
            if g['now'] == 'R' and eng.proves(st, self.is_('args', self.opt(st, 'R'), b'list', False)):
                o_('listing the readers is no failure', eq(s, ZERO))
                exits_reached(eng, st, 'information')
                return
            o_('arguments are refused with a nonzero status', fail)
            o_('arguments are refused with a message', Bc(g['msg']))
            why = self.bad(st)
            o_('only invalid arguments, or lack of memory, are refused', Or(Bc(bool(g['bad'] or g.get('allocfail'))), *why))
            exits_reached(eng, st, 'refused')
            return
        if not noerr:
            o_('an error gives a nonzero status', fail)
            o_('an error is reported', Bc(g['errmsg']))
            exits_reached(eng, st, 'error')
            return
        if g['past']:
            o_('a start frame past the end gives a nonzero status', fail)
            o_('a start frame past the end is reported', Bc(g['msg']))
            exits_reached(eng, st, 'past')
            return
        if not g['gotresults']:
            o_('without results the status is nonzero', fail)
            o_('that there is no frame is reported', Bc(g['msg']))
            o_('only having no frame gives no results', And(Bc(g['ended']), eq(g['nana'], ZERO)))
            exits_reached(eng, st, 'no frame')
            return
        v = self.verb(st)
        cw, ch = var('cw', 1, 1 << 58), var('ch', 1, 1 << 58)
        o_('success gives status 0', Implies(ne(v, ZERO), eq(s, ZERO)))
        o_('with verbosity 0 the status tells whether an upscaling was found', Implies(eq(v, ZERO), eq(s, b2i(And(eq(cw, ONE), eq(ch, ONE))))))
        o_('the results are printed completely in the format asked for', self.complete(st))
        exits_reached(eng, st, 'success')

    # ---- invariants of the loops
    def tmpl(self, ctx):
        head, kinds, st = ctx.head, ctx.info['kinds'], ctx.st
        ghosts = {v[6:]: head[v] for v in ctx.ghosts()}
        g = lambda n: ghosts.get(n, st.ghost.get(n))
        for v, k in kinds.items():
            if v.startswith('%') and k == ('ptr', 'args'):
                yield 'ge:' + v, ge(head[v], I(-1))
                for c in NAMES:
                    if 'o' + c in ghosts:
                        yield '%s=o%s' % (v, c), eq(head[v], ghosts['o' + c])
        for c in NAMES:
            if 'o' + c in ghosts:
                yield 'o%s' % c, ge(ghosts['o' + c], I(-1))
        if 'oo' in ghosts:
            yield 'o:valid', Or(eq(ghosts['oo'], I(-1)), gt(self.len_(ghosts['oo']), ZERO))
            yield 'n:valid', Or(eq(ghosts['on'], I(-1)), And(gt(self.len_(ghosts['on']), ZERO), ne(self.num(ghosts['on']), ZERO)))
            for v in ctx.phis_int():
                x = head[v]
                for c in 'on':
                    yield '%s=num %s' % (v, c), eq(x, ite(ge(ghosts['o' + c], ZERO), self.num(ghosts['o' + c]), ZERO))
                n = self.num(ghosts['ov'], 'tol')
                for sg in (True, False):
                    w = self.eng.cast(st, 'trunc', IntTy(64), VInt(64, n), IntTy(32))
                    w = self.eng.sview(st, w) if sg else self.eng.uview(st, w)
                    yield '%s=num v %d' % (v, sg), eq(x, ite(ge(ghosts['ov'], ZERO), w, I(-1) if sg else I((1 << 32) - 1)))
                yield '%s=op' % v, eq(x, ghosts['op'])
        if 'nana' in ghosts:
            yield 'nread=nana', eq(ghosts['nread'], ghosts['nana'])
            yield 'nana>=0', And(ge(ghosts['nana'], ZERO), ge(ghosts['frames'], ZERO))
            yield 'nana+frames', eq(add(ghosts['nana'], ghosts['frames']), var('nframes_in_file', 0, 1 << 62))
            yield 'err', eq(g('err'), ZERO)
            yield 'limit', Or(lt(g('on'), ZERO), lt(ghosts['nana'], self.num(g('on'))))
            for v in ctx.phis_int():
                for d in (-1, 0, 1):
                    yield '%s=nana%+d' % (v, d), eq(head[v], add(ghosts['nana'], I(d)))
        if 'pos' in ghosts:
            cw, ch = var('cw', 1, 1 << 58), var('ch', 1, 1 << 58)
            rows = ite(gt(cw, ch), sub(cw, ONE), sub(ch, ONE))
            for k in POSITIONS:
                yield 'pos=%d' % k, eq(ghosts['pos'], I(k))
            if 'ov' not in ghosts:
                for k in (0, 100, 200):
                    yield 'pos=v+%d' % k, eq(ghosts['pos'], ite(eq(self.verb(st), I(3)), I(3000 + k), I(2000 + k)))
            yield 'pos in table', eq(ghosts['pos'], ite(gt(rows, ZERO), I(4500), I(4300)))
            yield 'row>=0', ge(ghosts['row'], ZERO)
            for v in ctx.phis_int():
                yield 'row=%s' % v, eq(ghosts['row'], head[v])
            for n, b in (('cw', cw), ('ch', ch), ('rows', rows)):
                yield 'row<=' + n, le(ghosts['row'], b)

    def measures(self, ctx):
        cw, ch = var('cw', 1, 1 << 58), var('ch', 1, 1 << 58)
        for n in ('left', 'frames'):
            if 'ghost:' + n in ctx.head:
                yield ctx.head['ghost:' + n]
        for v in ctx.phis_int():
            yield sub(ite(gt(cw, ch), sub(cw, ONE), sub(ch, ONE)), ctx.head[v])


WANT_R, WANT_T, WANT_F = var('range wanted', 0, W64 - 1), fvar(32, 'threshold wanted'), var('filter wanted', 0, 255)
POSITIONS = [0, 1000, 1004, 2000, 2100, 2200, 3000, 3100, 3200, 4000, 4300, 4500]
NAME = {1: 'best guess only', 2: 'sizes only', 3: 'sizes and confidences', 4: 'human readable'}


def whole(cx, eng):
    c = Cli(cx, eng)
    c.readers()
    c.defaults()
    st, args = c.start()
    eng.opts['measures'] = {'*': c.measures}
    eng.run(st, c.fn, args, c.end)


def tasks(tier):
    return [Task('main', whole, kind='cli', opts=dict(maxpaths=100000, timeout=20), exits=('information', 'refused', 'error', 'past', 'no frame', 'success'))]
