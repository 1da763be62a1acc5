"""Streams: the C library functions that read a file, over a ghost file, and the client loop of the image functions.

The file is an arbitrary byte array D of arbitrary length N; `pos` is the ghost position.  The grammar of headers is given
by ghost functions of the position (white space, comments, numbers, tokens); their defining equations are made available
at every position the code reads."""
from task import *
from terms import *
from engine import PW
import externs
from externs import hname, alloc, release, literal

EOF = -1
TEXT = {
    'fopen': 'fopen(name,"r..") returns null and sets errno, or a stream at the start of the file',
    'fclose': 'fclose(f) releases the stream',
    'fgetc': 'fgetc(f) returns the next byte and advances, or EOF at the end (or a read error at some point, for good)',
    'ungetc': 'ungetc(c,f) of the character just read steps back',
    'fread': 'fread(p,size,n,f) reads size*n bytes if there are so many and returns n, otherwise all that is left and returns the number of whole items',
    'fseek': 'fseek(f,d,SEEK_CUR) moves by d, also past the end, if the stream is seekable; otherwise or on failure returns -1 and sets errno',
    'feof': 'feof(f): the last read met the end of the file (and not an error)',
    'fscanf': 'fscanf: white space, literals, %c, %zu, %f, %s with width, %* as in C; a failed match may leave the stream anywhere further on',
    '__errno_location': 'errno is an integer object',
    'isspace': 'isspace in the C locale', 'isdigit': 'isdigit in the C locale', 'tolower': 'tolower in the C locale',
    'memcmp': 'memcmp is 0 exactly when the bytes are equal', 'strncmp': 'strncmp is 0 exactly when the first n bytes up to a nul are equal',
    'strtoul': 'strtoul(s,0,10) of a string that starts with a digit is the number of its leading digits',
    'spec_opened': 'specification point', 'spec_more': 'specification point (any number of operations)', 'spec_choice': 'specification point (any operation)',
    'spec_count': 'specification point (any count)', 'spec_progress': 'specification point (with or without callback)', 'spec_context': 'specification point',
    'spec_any': 'specification point (any state that satisfies the representation invariant)', 'spec_read': 'specification point', 'spec_seek': 'specification point',
}
U64 = (1 << 64) - 1
LONG_MAX = (1 << 63) - 1


def isspace(c):
    return Or(eq(c, I(32)), And(ge(c, I(9)), le(c, I(13))))


def isdigit(c):
    return And(ge(c, I(48)), le(c, I(57)))


def mn(x, y):
    return ite(lt(x, y), x, y)


class Stream:
    def __init__(self, cx, eng, name, seekable=None):
        self.cx, self.eng = cx, eng
        self.D = abase('file', 'I', 0, 255)
        self.N = var('filesize', 0, LONG_MAX)
        self.ioerr = bvar('readerror')          # the readable part ends with an error instead of the end of the file
        self.seekable = bvar('seekable') if seekable is None else seekable
        self.name = name
        self.defs = []                          # functions (stream, st, p) -> facts about position p
        for f in ('fopen', 'fclose', 'fgetc', 'ungetc', 'fread', 'fseek', 'feof', 'fscanf', 'memcmp', 'strncmp', 'strtoul', 'isspace', 'isdigit', 'tolower'):
            eng.externs[f] = getattr(self, 'x_' + f)
        eng.externs['getc'] = eng.externs['_IO_getc'] = eng.externs['fgetc_unlocked'] = eng.externs['getc_unlocked'] = self.x_fgetc
        eng.externs['fseeko'] = self.x_fseek
        eng.externs['__isoc99_fscanf'] = eng.externs['__isoc23_fscanf'] = self.x_fscanf
        eng.externs['__isoc23_strtoul'] = self.x_strtoul
        eng.externs['__errno_location'] = self.x_errno
        eng.opts['extern_globals'] = {'@stdin': self.mk_stdin}

    # ------------------------------------------------------------ ghost functions of the position
    def at(self, p):
        return select(self.D, p)

    def nl(self, p):
        return app('nl', p, lo=-1, hi=LONG_MAX)

    def cm(self, p):
        return app('cm', p, lo=-1, hi=LONG_MAX)

    def ws(self, p):
        if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0].op == 'app' and p.a[0][0][0].a[0] == 'ws':
            return p        # no white space is left behind white space
        return app('ws', p, lo=0)

    def numok(self, q, k='zu'):
        return bapp('numok:' + k, q)

    def numend(self, q, k='zu'):
        return app('numend:' + k, q, lo=0, hi=LONG_MAX)

    def numval(self, q, k='zu'):
        return app('numval:' + k, q, lo=0, hi=U64)

    def slen(self, q):
        return app('slen', q, lo=1, hi=LONG_MAX)

    def f32(self, p, big=False):
        bs = [self.at(add(p, I(k))) for k in range(4)]
        return bits2f(32, le32(bs[::-1] if big else bs))

    def facts(self, st, p):
        """defining equations at position p"""
        N, D = self.N, self.at(p)
        end = ge(p, N)
        out = []
        n, n1 = self.nl(p), self.nl(add(p, ONE))
        out += [Implies(end, eq(n, I(-1))), Implies(And(Not(end), eq(D, I(10))), eq(n, p)), Implies(And(Not(end), ne(D, I(10))), eq(n, n1)),
                Implies(ne(n, I(-1)), And(ge(n, p), lt(n, N)))]
        for f in self.defs:
            out += f(self, st, p)
        for x in out:
            st.assume(x)

    def ws_facts(self, st, p):
        w = self.ws(p)
        st.assume(And(ge(w, p), Implies(le(p, self.N), le(w, self.N))))
        return w

    @staticmethod
    def comments(S, st, p):
        N, D = S.N, S.at(p)
        end = ge(p, N)
        c, e = S.cm(p), S.nl(add(p, ONE))
        hash_ = And(Not(end), eq(D, I(35)))
        return [Implies(end, eq(c, I(-1))), Implies(And(Not(end), ne(D, I(35))), eq(c, p)),
                Implies(And(hash_, eq(e, I(-1))), eq(c, I(-1))), Implies(And(hash_, ne(e, I(-1))), eq(c, S.cm(add(e, ONE))))]

    # ------------------------------------------------------------ ghost state
    def set(self, st, name, v):
        self.eng.note_write(st, None, ('ghost', name))
        st.ghost[name] = v

    def start(self, st):
        st.ghost.update(pos=ZERO, eof=FALSE, seekfail=FALSE, err=ZERO)
        self.eng.new_obj(st, 'errno', 'param', I(4))
        st.objs['errno'].cells[0] = (4, VInt(32, var('errno', 0, 4095)))

    def errno(self, st, ins, tag):
        v = var(hname(st, ins, tag), 1, 4095)
        self.eng.store(st, IntTy(32), VInt(32, v), VPtr('errno'), self.cx.anymod(), True)
        self.set(st, 'err', v)

    def x_errno(self, eng, st, a, ins):
        return VPtr('errno')

    def mk_stdin(self, eng, st, on):
        if st.ghost.get('inop'):
            raise Unsupported('standard input is treated differently after opening')
        st.objs['STDIN'] = Obj('STDIN', 'resource', ONE)
        st.objs['STDIN'].meta.update(alloc='stdin', owned=True)
        st.objs[on] = Obj(on, 'const', I(8))
        st.objs[on].writable = False
        st.objs[on].cells[0] = (8, VPtr('STDIN'))

    def x_fopen(self, eng, st, a, ins):
        mode = literal(st, a[1])
        eng.oblige(st, 'fopen: the given name, for reading, once', 'pre', And(Bc(isinstance(a[0], VPtr) and a[0].obj == self.name and mode is not None and mode[:1] == b'r' and b'+' not in mode and not st.ghost.get('opened')), eq(a[0].off, ZERO) if isinstance(a[0], VPtr) else FALSE))
        s2 = st.clone()
        s2.note.append('fopen fails')
        s2.ghost['openfail'] = True
        self.errno(s2, ins, 'errno')
        nm = 'FILE'
        if nm in st.objs:
            raise Unsupported('second stream')
        p = eng.new_obj(st, nm, 'resource', ONE)
        st.objs[nm].meta['alloc'] = 'FILE'
        st.ghost['opened'] = True
        return [(s2, NULL), (st, p)]

    def stream(self, eng, st, p, what):
        if isinstance(p, VUndef):
            eng.oblige(st, '%s of an uninitialised stream at %s' % (what, eng.curloc), 'mem', FALSE)
            raise Dead()
        o = st.objs.get(p.obj) if isinstance(p, VPtr) and p.obj else None
        good = o is not None and o.live and o.meta.get('alloc') in ('FILE', 'stdin')
        eng.oblige(st, '%s of an open stream at %s' % (what, eng.curloc), 'mem', Bc(good))
        if not good:
            raise Dead()

    def x_fclose(self, eng, st, a, ins):
        self.stream(eng, st, a[0], 'fclose')
        release(eng, st, a[0], 'fclose', ('FILE',))
        return VInt(32, ZERO)

    def x_feof(self, eng, st, a, ins):
        self.stream(eng, st, a[0], 'feof')
        return VInt(32, b2i(And(st.ghost['eof'], Not(self.ioerr))))

    def fork(self, eng, st, c):
        """(state with c, state without c), infeasible ones None"""
        d = eng.decide(st, c)
        if d is True:
            return st, None
        if d is False:
            return None, st
        s2 = st.clone()
        out = []
        for s, x in ((st, c), (s2, Not(c))):
            try:
                s.assume(x)
                out.append(s)
            except Dead:
                out.append(None)
        return out

    def x_fgetc(self, eng, st, a, ins):
        self.stream(eng, st, a[0], 'fgetc')
        p = st.ghost['pos']
        self.facts(st, p)
        more, end = self.fork(eng, st, lt(p, self.N))
        out = []
        if more:
            self.set(more, 'pos', add(p, ONE))
            out.append((more, VInt(32, self.at(p))))
        if end:
            self.set(end, 'eof', TRUE)
            out.append((end, VInt(32, I(EOF))))
        return out

    def x_ungetc(self, eng, st, a, ins):
        self.stream(eng, st, a[1], 'ungetc')
        p = st.ghost['pos']
        c = eng.sview(st, eng.as_int(st, a[0], 32))
        eng.oblige(st, 'ungetc of the character just read at %s' % eng.curloc, 'pre', And(ge(p, ONE), eq(c, self.at(sub(p, ONE)))))
        self.set(st, 'pos', sub(p, ONE))
        self.set(st, 'eof', FALSE)
        return VInt(32, c)

    def x_fseek(self, eng, st, a, ins):
        self.stream(eng, st, a[0], 'fseek')
        d, wh = eng.sview(st, eng.as_int(st, a[1], 64)), cval(eng.uview(st, eng.as_int(st, a[2], 32)))
        if wh != 1:
            raise Unsupported('fseek whence %r' % wh)
        p = st.ghost['pos']
        s2 = st.clone()
        s2.note.append('fseek fails')
        self.errno(s2, ins, 'errno')
        if d is not ZERO:
            self.set(s2, 'seekfail', TRUE)
        out = [(s2, VInt(32, I(-1)))]
        try:
            st.assume(self.seekable)
            st.assume(And(ge(add(p, d), ZERO), le(add(p, d), I(LONG_MAX))))
            self.set(st, 'pos', add(p, d))
            if d is not ZERO:
                self.set(st, 'eof', FALSE)
            out.append((st, VInt(32, ZERO)))
        except Dead:
            pass
        return out

    def put_bytes(self, eng, st, dst, src, n, mod):
        """n bytes of the file from src into memory"""
        c = cval(n)
        o = st.objs[dst.obj]
        if c is not None and c <= 64 and o.stride is None:
            for k in range(c):
                eng.store(st, IntTy(8), VInt(8, self.at(add(src, I(k)))), VPtr(dst.obj, add(dst.off, I(k))), mod, True)
            return
        s = o.stride or eng.opts.get('strides', {}).get(o.name) or eng.pass_strides.get(o.name) or 1
        if o.stride is None:
            o = eng.to_array(st, o.name, s)
        eng.pass_strides.setdefault(o.name, s)
        kinds = {1: 'I', 4: 'F32'}
        kind = o.fields[0][1] if 0 in o.fields else eng.pass_kinds.get((o.name, 0)) or kinds.get(s)
        if s not in kinds or kind != kinds[s] or any(f for f in o.fields if f):
            raise Unsupported('fread into memory with elements of %d bytes' % s)
        if any(x % s for q in (dst.off, n) for _, x in q.a):
            raise Unsupported('fread of a part of an element')
        eng.pass_kinds.setdefault((o.name, 0), kind)
        eng.note_write(st, o, ('field', o.name, 0, s))
        d = o.fields.get(0) or (s, kind, eng.fresh_field(o, 0, s, kind))
        w = st.wobj(o.name)
        w.fields[0] = (s, kind, acopy(d[2], idiv(dst.off, I(s)), idiv(n, I(s)), self.D, src, 'same' if s == 1 else 'f32le'))

    def x_fread(self, eng, st, a, ins):
        mod = st.fr.fn.mod
        self.stream(eng, st, a[3], 'fread')
        dst, size, n = a[0], eng.uview(st, a[1]), eng.uview(st, a[2])
        p = st.ghost['pos']
        total = mul(size, n)
        if cval(size) is None and cval(n) is None:
            raise Unsupported('fread with two symbolic sizes')
        if cval(size) is None:
            size, n, one = n, size, True
            if cval(size) != 1:
                raise Unsupported('fread of items of symbolic size')
            # one item of `total` bytes
            item = total
        else:
            item = size
            one = False
        eng.oblige(st, 'size of the read at %s does not wrap' % eng.curloc, 'arith', le(total, I(U64)))
        if cval(total) == 0:
            return VInt(64, ZERO)
        eng.mem_ok(st, dst, total, 'fread', True)
        self.facts(st, p)
        zero, st = self.fork(eng, st, eq(total, ZERO))
        out = []
        if zero:
            out.append((zero, VInt(64, ZERO)))
        if not st:
            return out
        full, short = self.fork(eng, st, le(add(p, total), self.N))
        if full:
            self.put_bytes(eng, full, dst, p, total, mod)
            self.set(full, 'pos', add(p, total))
            out.append((full, VInt(64, ONE if one else n)))
        if short:
            short.note.append('short read')
            got = ite(lt(p, self.N), sub(self.N, p), ZERO)
            r = ZERO if one else idiv(got, size)
            self.put_junk(eng, short, dst, total, ins, mod)
            self.set(short, 'eof', TRUE)
            self.set(short, 'pos', ite(lt(p, self.N), self.N, p))
            out.append((short, VInt(64, r)))
        return out

    def put_junk(self, eng, st, dst, n, ins, mod):
        c = cval(n)
        o = st.objs[dst.obj]
        nm = hname(st, ins, 'shortread')
        if c is not None and c <= 64 and o.stride is None:
            for k in range(c):
                eng.store(st, IntTy(8), VInt(8, var('%s.%d' % (nm, k), 0, 255)), VPtr(dst.obj, add(dst.off, I(k))), mod, True)
            return
        D = self.D
        self.D = abase(nm, 'I', 0, 255)
        try:
            self.put_bytes(eng, st, dst, ZERO, n, mod)
        finally:
            self.D = D

    # ------------------------------------------------------------ formatted input
    def x_fscanf(self, eng, st, a, ins):
        mod = st.fr.fn.mod
        self.stream(eng, st, a[0], 'fscanf')
        fmt = literal(st, a[1])
        if fmt is None:
            raise Unsupported('fscanf with an unknown format')
        dirs = parse_format(fmt)
        out = []
        self.scan(eng, st, dirs, 0, a[2:], 0, ins, mod, out)
        return out

    def fin(self, st, out, n, pos=None):
        if pos is not None:
            self.set(st, 'pos', pos)
        out.append((st, VInt(32, I(n))))

    def failure(self, eng, st, n, supp, q, ins, out, cond):
        """a directive at q that fails: input failure at the end of the file, a failed match otherwise"""
        st.note.append('fscanf fails')
        nm = hname(st, ins, 'scan')
        r, e, v = var(nm + '.pos', 0, LONG_MAX), bvar(nm + '.eof'), var(nm + '.result', -1, max(n, 0))
        end = ge(q, self.N)
        st.assume(And(ge(r, q), Implies(le(q, self.N), le(r, self.N)), Implies(end, And(eq(r, q), e)), Or(eq(v, I(n)), And(Bc(n == 0), eq(v, I(-1)), e))))
        if n == 0 and not supp:
            st.assume(Implies(end, eq(v, I(-1))))
        self.set(st, 'eof', e)
        self.set(st, 'pos', r)
        out.append((st, VInt(32, v)))

    def scan(self, eng, st, dirs, i, args, n, ins, mod, out, supp=False):
        while i < len(dirs):
            d = dirs[i]
            p = st.ghost['pos']
            if d[0] == 'ws':
                q = self.ws_facts(st, p)
                if i == len(dirs) - 1 and n == 0:
                    st, end = self.fork(eng, st, lt(q, self.N))
                    if end:
                        self.set(end, 'eof', TRUE)
                        s2 = end.clone()
                        self.fin(s2, out, -1, q)
                        self.fin(end, out, 0, q)
                    if not st:
                        return
                self.set(st, 'pos', q)
                i += 1
                continue
            if d[0] in ('lit', 'c'):
                q = p
            else:
                q = self.ws_facts(st, p)
            self.facts(st, q)
            if d[0] == 'lit':
                good = eq(self.at(q), I(d[1]))
            elif d[0] in ('u', 'f'):
                key = 'f' if d[0] == 'f' else {8: 'zu', 4: 'u', 2: 'hu', 1: 'hhu'}[d[3]]
                if d[2]:
                    key += str(d[2])
                good = self.numok(q, key)
            else:
                good = TRUE
            st, bad = self.fork(eng, st, And(lt(q, self.N), good))
            if bad:
                self.failure(eng, bad, n, supp, q, ins, out, good)
            if not st:
                return
            if d[0] == 'lit':
                self.set(st, 'pos', add(q, ONE))
                i += 1
                continue
            _, suppress, width, size = d
            ptr = None
            if not suppress:
                if not args:
                    eng.oblige(st, 'fscanf: an argument for every conversion at %s' % eng.curloc, 'mem', FALSE)
                    raise Dead()
                ptr, args = args[0], args[1:]
            if d[0] == 'c':
                if ptr is not None:
                    eng.store(st, IntTy(8), VInt(8, self.at(q)), ptr, mod)
                end_ = add(q, ONE)
            elif d[0] in ('u', 'f'):
                end_ = self.numend(q, key)
                st.assume(And(gt(end_, q), le(end_, self.N)))
                if ptr is not None:
                    if d[0] == 'f':
                        if size != 4:
                            raise Unsupported('fscanf of a double')
                        eng.store(st, F32T, VF(self.fnum(q)), ptr, mod)
                    else:
                        v = app('numval:' + key, q, lo=0, hi=(1 << 8 * size) - 1)
                        eng.store(st, IntTy(8 * size), VInt(8 * size, v), ptr, mod)
            elif d[0] == 's':
                L = self.slen(q)
                st.assume(le(add(q, L), self.N))
                if width:
                    L = mn(L, I(width))
                if ptr is not None:
                    if not width:
                        eng.oblige(st, 'fscanf: a token is stored with a bounded width at %s' % eng.curloc, 'mem', FALSE)
                        raise Dead()
                    eng.mem_ok(st, ptr, I(width + 1), 'fscanf', True)
                    for k in range(width + 1):
                        pk = VPtr(ptr.obj, add(ptr.off, I(k)))
                        old = eng.load(st, IntTy(8), pk, mod, True)
                        ov = eng.uview(st, old) if not isinstance(old, VUndef) else var('%s.%d' % (hname(st, ins, 'token'), k), 0, 255)
                        v = ite(lt(I(k), L), self.at(add(q, I(k))), ite(eq(I(k), L), ZERO, ov)) if k < width else ite(eq(I(k), L), ZERO, ov)
                        eng.store(st, IntTy(8), VInt(8, v), pk, mod, True)
                end_ = add(q, L)
            if suppress:
                supp = True
            else:
                n += 1
            self.set(st, 'pos', end_)
            i += 1
        out.append((st, VInt(32, I(n))))

    def fnum(self, q):
        return bits2f(32, app('numval:f', q, lo=0, hi=(1 << 32) - 1))

    # ------------------------------------------------------------ small library functions
    def bytes_(self, eng, st, p, n, what):
        """n bytes at p"""
        mod = st.fr.fn.mod
        eng.mem_ok(st, p, I(n), what)
        out = []
        for k in range(n):
            v = eng.load(st, IntTy(8), VPtr(p.obj, add(p.off, I(k))), mod, True)
            if isinstance(v, VUndef):
                eng.oblige(st, '%s of uninitialised memory at %s' % (what, eng.curloc), 'uninit', FALSE)
                raise Dead()
            out.append(eng.uview(st, v))
        return out

    def cmpres(self, eng, st, ins, b, what):
        r = var('cmp:%s' % hname(st, ins, what), -(1 << 31), (1 << 31) - 1)
        st.assume(Iff(b, eq(r, ZERO)))
        return VInt(32, r)

    def x_memcmp(self, eng, st, a, ins):
        n = cval(eng.uview(st, a[2]))
        if n is None or n > 256:
            raise Unsupported('memcmp of symbolic length')
        x, y = self.bytes_(eng, st, a[0], n, 'memcmp'), self.bytes_(eng, st, a[1], n, 'memcmp')
        return self.cmpres(eng, st, ins, And(*[eq(u, v) for u, v in zip(x, y)]), 'memcmp')

    def x_strncmp(self, eng, st, a, ins):
        n = cval(eng.uview(st, a[2]))
        if n is None:
            raise Unsupported('strncmp of symbolic length')
        return self.strn(eng, st, a, n, ins)

    def strn(self, eng, st, a, n, ins):
        lit = literal(st, a[1])
        p = a[0]
        if lit is None:
            lit, p = literal(st, a[0]), a[1]
        if lit is None:
            raise Unsupported('strncmp of two unknown strings')
        want = (list(lit) + [0])[:n] if n is not None else list(lit) + [0]
        b = self.bytes_(eng, st, p, len(want), 'strncmp')
        return self.cmpres(eng, st, ins, And(*[eq(u, I(v)) for u, v in zip(b, want)]), 'strncmp')

    def x_strtoul(self, eng, st, a, ins):
        if not is_null(a[1]) or cval(eng.uview(st, a[2])) != 10:
            raise Unsupported('strtoul with end pointer or base')
        o = st.objs[a[0].obj]
        left = cval(sub(o.size, a[0].off))
        if left is None or left > 32:
            raise Unsupported('strtoul of a long string')
        b = self.bytes_(eng, st, a[0], left, 'strtoul')
        eng.oblige(st, 'strtoul of a string that starts with a digit at %s' % eng.curloc, 'pre', isdigit(b[0]))
        eng.oblige(st, 'strtoul of a terminated string at %s' % eng.curloc, 'mem', Or(*[Not(isdigit(x)) for x in b]))
        return VInt(64, decimal(b))

    def x_isspace(self, eng, st, a, ins):
        return VInt(32, ite(isspace(eng.sview(st, eng.as_int(st, a[0], 32))), I(8192), ZERO))

    def x_isdigit(self, eng, st, a, ins):
        return VInt(32, ite(isdigit(eng.sview(st, eng.as_int(st, a[0], 32))), I(2048), ZERO))

    def x_tolower(self, eng, st, a, ins):
        c = eng.sview(st, eng.as_int(st, a[0], 32))
        return VInt(32, ite(And(ge(c, I(65)), le(c, I(90))), add(c, I(32)), c))


def decimal(bs):
    """the number of the leading digits"""
    v, going = ZERO, TRUE
    for b in bs:
        going = And(going, isdigit(b))
        v = ite(going, add(scale(v, 10), sub(b, I(48))), v)
        if going is FALSE:
            break
    return v


def parse_format(fmt):
    out = []
    i = 0
    s = fmt.decode('latin1')
    while i < len(s):
        ch = s[i]
        if ch.isspace():
            if not (out and out[-1][0] == 'ws'):
                out.append(('ws',))
            i += 1
            continue
        if ch != '%':
            out.append(('lit', ord(ch)))
            i += 1
            continue
        i += 1
        if s[i] == '%':
            out += [('ws',), ('lit', 37)]
            i += 1
            continue
        sup = s[i] == '*'
        i += sup
        w = 0
        while s[i].isdigit():
            w = w * 10 + int(s[i])
            i += 1
        size = 4
        for m, z in (('hh', 1), ('h', 2), ('ll', 8), ('l', 8), ('z', 8), ('j', 8), ('t', 8)):
            if s.startswith(m, i):
                size = z
                i += len(m)
                break
        c = s[i]
        i += 1
        if c == 'u':
            out.append(('u', sup, w, size))
        elif c == 'f' or c == 'g' or c == 'e':
            out.append(('f', sup, w, size))
        elif c == 's':
            out.append(('s', sup, w, 1))
        elif c == 'c' and w <= 1:
            out.append(('c', sup, 1, 1))
        else:
            raise Unsupported('fscanf conversion %%%s' % c)
    return out


# ---------------------------------------------------------------- the client of the image functions
class Client:
    """opens the file, then any sequence of reads and seeks, then closes; the format gives the meaning:
       header(st) -> dict(ok, w, h), frame start and end as functions of the position"""
    fmt = None
    # private state of the reader: where it is defined, and the fields that reads and seeks change
    src = struct = None
    state = {}
    known = ()

    def __init__(self, cx, eng, name, seekable=None, mode='all', failed=FALSE, case=()):
        self.cx, self.eng = cx, eng
        self.mode, self.failed0, self.case = mode, failed, case
        self.S = Stream(cx, eng, name, seekable)
        for f in ('opened', 'any', 'more', 'choice', 'count', 'progress', 'context', 'read', 'seek'):
            eng.externs['spec_' + f] = getattr(self, 's_' + f)
        eng.templates = {'*': self.templates}
        eng.opts['skipcand'] = self.skipcand
        eng.opts['measures'] = {'*': self.measures}
        self.it = abase('it', 'I')
        self.k0 = var('pixel', 0, U64)
        eng.opts.setdefault('celltype', {})

    def oblige(self, st, name, b, kind='post'):
        if kind == 'post' and self.eng.opts.get('nopost'):
            return      # only memory safety is at stake
        self.eng.oblige(st, '%s: %s' % (self.fmt, name), kind, b, assume=False)

    def arg(self, st, p, ty):
        return self.eng.load(st, ty, p, self.cx.anymod(), True)

    # the format
    def header(self, st):
        raise NotImplementedError

    def opened_state(self, st):
        pass

    def tmpl(self, ctx, P, E):
        return ()

    # ------------------------------------------------------------ specification points
    def start(self, st):
        self.S.start(st)
        st.ghost.update(fuel=var('operations', 0, U64), failed=FALSE, calls=ZERO)

    def s_opened(self, eng, st, a, ins):
        S = self.S
        img = a[0]
        w, h = (eng.uview(st, self.arg(st, x, IntTy(64))) for x in a[1:3])
        buf = self.arg(st, a[3], PTR)
        ev = self.arg(st, a[4], IntTy(32))
        e = eng.sview(st, ev) if not isinstance(ev, VUndef) else None
        if e is None or isinstance(img, VUndef):
            self.oblige(st, 'opening returns an image or null and a status', FALSE)
            raise Dead()
        C = self.cx.L.const
        hd = self.header(st)
        pm = C['PIXEL_MAX']
        big = Or(eq(hd['w'], ZERO), eq(hd['h'], ZERO), gt(mul(hd['w'], hd['h']), I(min(pm, U64 // 4))))
        if is_null(img):
            g = st.ghost
            exits_reached(eng, st, 'openfail')
            self.oblige(st, 'a failed open gives a status, no size and no buffer', And(ne(e, ZERO), eq(w, ZERO), eq(h, ZERO), Bc(is_null(buf))))
            if g.get('allocfail'):
                self.oblige(st, 'a failed allocation is reported', eq(e, I(C['RDENOMEM'])))
            elif g.get('openfail'):
                self.oblige(st, 'a file that cannot be opened is reported with its errno', eq(e, neg(g['err'])))
            else:
                exits_reached(eng, st, 'invalid')
                self.oblige(st, 'only an invalid or too big image is refused, as such',
                            Or(And(eq(e, I(C['RDEINVAL'])), Not(hd['ok'])), And(eq(e, I(C['RDETOOBIG'])), Or(big, hd.get('big', FALSE)), hd.get('sized', hd['ok']))))
            no_leak(eng, st, tag='%s: everything is released by a failed open' % self.fmt)
            return None
        exits_reached(eng, st, 'opened')
        self.oblige(st, 'opening succeeds only on a valid header, at the end of which the stream is', And(hd['ok'], eq(st.ghost['pos'], hd['end'])), 'inv')
        self.oblige(st, 'success is reported with the size of the header', And(eq(e, ZERO), eq(w, hd['w']), eq(h, hd['h'])), 'inv')
        self.oblige(st, 'a size beyond the limits is refused', Not(big), 'inv')
        for b in (hd['ok'], eq(w, hd['w']), eq(h, hd['h']), eq(st.ghost['pos'], hd['end']), Not(big)):
            st.assume(b)
        good = isinstance(buf, VPtr) and buf.obj is not None and st.objs[buf.obj].live
        self.oblige(st, 'the buffer holds an image of that size', And(eq(buf.off, ZERO), ge(st.objs[buf.obj].size, scale(mul(w, h), 4))) if good else FALSE, 'inv')
        if not good:
            raise Dead()
        eng.pass_strides.setdefault(buf.obj, 4)
        st.ghost['W'], st.ghost['H'] = w, h
        self.opened_img = img
        self.opened_state(st)
        eng.join(st, 'opened')
        return None

    # ------------------------------------------------------------ one operation from any state
    def inv(self, st, val):
        """the representation invariant: what the private fields say about the ghost state"""
        return TRUE

    def fresh_ghosts(self, st):
        pass

    def keep(self, st):
        """facts about what opening has set up (they are proved first)"""
        return []

    def context(self, st, img):
        L = self.cx.L
        p = field(self.eng, st, L, img, 'RDImage', 'reader_ctx', PTR)
        if not isinstance(p, VPtr) or p.obj not in st.objs or cval(p.off) != 0:
            raise Unsupported('the reader keeps its state elsewhere')
        size, offs = layout.private(self.src, self.struct, tuple(self.state) + tuple(self.known), self.cx.task.defs)
        if cval(st.objs[p.obj].size) != size:
            raise Unsupported('the reader keeps its state elsewhere')
        return p.obj, {f: offs[f] for f in self.state}

    def values(self, st):
        """the private fields"""
        out = {}
        for f, (off, n) in self.priv[1].items():
            v = self.eng.load(st, self.state[f], VPtr(self.priv[0], I(off)), self.cx.anymod(), True)
            if isinstance(v, VUndef):
                raise Unsupported('the private field %s is not always defined' % f)
            out[f] = v.t if isinstance(v, VF) else self.eng.uview(st, v)
        return out

    def rest(self, st):
        """everything else in the heap"""
        obj, offs = self.priv
        mine = {o for o, _ in offs.values()}
        return {(o.name, off): v for o in st.objs.values() if o.kind == 'heap' and o.stride is None for off, v in o.cells.items() if not (o.name == obj and off in mine)}

    def s_any(self, eng, st, a, ins):
        self.priv = self.context(st, a[0])
        if a[1].obj is not None:
            eng.to_array(st, a[1].obj, 4) if st.objs[a[1].obj].stride is None else None
        self.oblige(st, 'opening establishes the representation invariant', self.inv(st, self.values(st)), 'inv')
        S = self.S
        # what is known from here on: the size, what the buffers hold, and the invariant
        w, h = st.ghost['W'], st.ghost['H']
        keep = [ge(w, ONE), ge(h, ONE), le(mul(w, h), I(min(self.cx.L.const['PIXEL_MAX'], U64 // 4)))] + self.keep(st)
        for b in keep:
            self.oblige(st, 'the size is within the limits and the buffers hold a frame', b, 'inv')
        st.pc, st.pcset, st.bounds = [], set(), {}
        for b in keep:
            st.assume(b)
        S.set(st, 'pos', var('position', 0, LONG_MAX))
        S.set(st, 'eof', bvar('eofseen'))
        S.set(st, 'failed', self.failed0)
        self.fresh_ghosts(st)
        for f, (off, n) in self.priv[1].items():
            t = self.state[f]
            v = VF(fvar(32, 'state:' + f)) if t is F32T else VInt(8 * n, var('state:' + f, 0, (1 << 8 * n) - 1))
            eng.store(st, t, v, VPtr(self.priv[0], I(off)), self.cx.anymod(), True)
        st.assume(self.inv(st, self.values(st)))
        if self.case:
            st.assume(self.case[1](self, st))
        st.ghost['inop'] = True
        self.restv = self.rest(st)
        return None

    def kept(self, st):
        st.ghost['inop'] = False
        if self.mode == 'all':
            return
        if {k: repr(v) for k, v in self.rest(st).items()} != {k: repr(v) for k, v in self.restv.items()}:
            raise Unsupported('an operation changes state that the representation invariant does not speak of')
        self.oblige(st, 'the operation keeps the representation invariant', self.inv(st, self.values(st)), 'inv')

    def s_more(self, eng, st, a, ins):
        if self.mode == 'open':
            return VBool(FALSE)
        fuel = st.ghost['fuel']
        s2 = st.clone()
        out = []
        try:
            s2.assume(le(fuel, ZERO))
            out.append((s2, VBool(FALSE)))
        except Dead:
            pass
        st.assume(gt(fuel, ZERO))
        self.S.set(st, 'fuel', sub(fuel, ONE))
        out.append((st, VBool(TRUE)))
        return out

    def s_choice(self, eng, st, a, ins):
        S = self.S
        S.set(st, 'seekfail', FALSE)
        S.set(st, 'calls', ZERO)
        S.set(st, 'err', ZERO)
        st.ghost['p0'] = st.ghost['pos']
        self.before(st)
        if self.mode in ('read', 'seek'):
            st.ghost['op'] = self.mode
            return VBool(Bc(self.mode == 'read'))
        s2 = st.clone()
        st.ghost['op'], s2.ghost['op'] = 'read', 'seek'
        return [(st, VBool(TRUE)), (s2, VBool(FALSE))]

    def before(self, st):
        pass

    def s_count(self, eng, st, a, ins):
        st.ghost['n'] = var('seekcount', 0, U64)
        self.iterate(st)
        return VInt(64, st.ghost['n'])

    def iterate(self, st):
        """it[k]: where the stream is after k frames from here"""
        g = dict(st.ghost)
        st.q = dict(st.q)
        st.q[self.it] = (lambda k: self.it_fact(g, k),)

    def s_progress(self, eng, st, a, ins):
        if 'cb' not in st.objs:
            eng.new_obj(st, 'cb', 'opaque', ONE)
            st.objs['cb'].meta['call'] = self.progress
        if len(self.case) > 2:
            st.ghost['cb'] = self.case[2]
            return VPtr('cb') if self.case[2] else NULL
        s2 = st.clone()
        s2.ghost['cb'] = False
        st.ghost['cb'] = True
        return [(s2, NULL), (st, VPtr('cb'))]

    def s_context(self, eng, st, a, ins):
        if 'cbctx' not in st.objs:
            eng.new_obj(st, 'cbctx', 'opaque', ONE)
        return VPtr('cbctx')

    def progress(self, eng, st, a, ins):
        n = st.ghost['calls']
        self.oblige(st, 'the progress callback gets its context and the number of frames skipped so far, counting up by one',
                    And(Bc(isinstance(a[0], VPtr) and a[0].obj == 'cbctx'), eq(eng.uview(st, a[1]), add(n, ONE))))
        self.S.set(st, 'calls', add(n, ONE))
        return None

    def status(self, eng, st, r, ep):
        ev = self.arg(st, ep, IntTy(32))
        if isinstance(ev, VUndef) or isinstance(r, VUndef):
            self.oblige(st, 'a result and a status are returned', FALSE)
            raise Dead()
        return eng.as_bool(st, r), eng.sview(st, ev)

    def s_read(self, eng, st, a, ins):
        r, e = self.status(eng, st, a[0], a[2])
        for ok in (True, False):
            pass
        ok, bad = self.S.fork(eng, st, r)
        C = self.cx.L.const
        out = []
        if ok:
            exits_reached(eng, ok, 'read')
            self.read_ok(ok, e, a[1])
            self.kept(ok)
            out.append((ok, None))
        if bad:
            exits_reached(eng, bad, 'noread')
            self.read_bad(bad, e)
            self.S.set(bad, 'failed', Or(bad.ghost['failed'], ne(e, ZERO)))
            self.kept(bad)
            out.append((bad, None))
        return out

    def s_seek(self, eng, st, a, ins):
        r, e = self.status(eng, st, a[0], a[1])
        ok, bad = self.S.fork(eng, st, r)
        out = []
        if ok:
            exits_reached(eng, ok, 'seek')
            self.seek_ok(ok, e)
            self.kept(ok)
            out.append((ok, None))
        if bad:
            exits_reached(eng, bad, 'noseek')
            self.seek_bad(bad, e)
            self.S.set(bad, 'failed', Or(bad.ghost['failed'], ne(e, ZERO)))
            self.kept(bad)
            out.append((bad, None))
        return out

    def image(self, st, p, k):
        """element k of the image"""
        o = st.objs[p.obj]
        if o.stride != 4 or 0 not in o.fields or o.fields[0][1] != 'F32':
            return None
        return select(o.fields[0][2], k, self.eng.decider(st))

    # ------------------------------------------------------------ invariants
    flags = ()              # ghosts that flags of the code may mirror

    def skipcand(self, fn, v):
        """variables about which no invariant is guessed"""
        if v in ('ghost:err', 'ghost:fuel', 'ghost:failed', 'mem:errno@0'):
            return True
        return fn == 'client' and not v.startswith('mem:heap:')

    def templates(self, ctx):
        H, E = ctx.head, ctx.ent
        S = self.S
        kinds = ctx.info['kinds']
        if 'ghost:pos' in H:
            P, P0 = H['ghost:pos'], E['ghost:pos']
            yield 'pos<=N', le(P, S.N)
            yield 'pos>=0', ge(P, ZERO)
            yield 'nl', eq(S.nl(P), S.nl(P0))
            yield 'cm', eq(S.cm(P), S.cm(P0))
            yield 'ws', eq(S.ws(P), S.ws(P0))
            op = ctx.st.ghost.get('op')
            if op == 'seek' and 'n' in ctx.st.ghost:
                for v in ctx.ints():
                    if kinds[v] == 'i64':
                        yield 'it:' + v, eq(P, select(self.it, H[v]))
                        if 'ghost:calls' in H and ctx.st.ghost.get('cb'):
                            yield 'calls:' + v, eq(H['ghost:calls'], H[v])
            yield from self.tmpl(ctx, P, P0)
        if 'ghost:failed' in H:
            # the client loop: what a failed operation leaves behind is not specified
            F = H['ghost:failed']
            for g in self.flags:
                if g not in H:
                    continue
                for v in H:
                    if not v.startswith('mem:heap:'):
                        continue
                    if H[v].sort == 'B':
                        for tag, c in (('', H[g]), ('!', Not(H[g]))):
                            yield 'flag%s:%s:%s' % (tag, v, g), Or(F, Iff(H[v], c))
                    elif H[v].sort == 'I' and kinds[v] in ('i8', 'i32'):
                        for tag, c in (('', H[g]), ('!', Not(H[g]))):
                            m = And(Iff(ne(H[v], ZERO), c), ge(H[v], ZERO), le(H[v], ONE))
                            yield 'flag%s:%s:%s' % (tag, v, g), m
                            yield 'flag_%s:%s:%s' % (tag, v, g), Or(F, m)
            yield from self.client_tmpl(ctx, F)
        yield from self.pix_tmpl(ctx)

    def client_tmpl(self, ctx, F):
        return ()

    def pix_tmpl(self, ctx):
        return ()

    def measures(self, ctx):
        H = ctx.head
        out = []
        if 'ghost:fuel' in H:
            out.append(H['ghost:fuel'])
        if 'ghost:pos' in H:
            out.append(sub(self.S.N, H['ghost:pos']))
        return out


def client_tasks(cls, typ, exits=('invalid', 'opened', 'read', 'noread', 'seek', 'noseek', 'closed'), kinds=None):
    """one task per kind of stream: a file or standard input, seekable or not"""
    out = []
    for stdin in (False, True):
        for seekable in (True, False):
            out.append(Task('%s: open, any reads and seeks, close (%s, %s)' % (cls.fmt, 'standard input' if stdin else 'a named file', 'seekable' if seekable else 'not seekable'),
                            lambda cx, eng, a=stdin, b=seekable: run_client(cls, cx, eng, typ, a, Bc(b)), drivers=('client',),
                            exits=exits + (() if stdin else ('openfail',))))
    return out


def op_tasks(cls, typ, what, failed=FALSE, exits=None, cases=((),)):
    """what: 'open' (open and close), 'read' or 'seek' (one operation in any state that satisfies the representation invariant);
    cases: assumptions that together cover everything, each a task of its own (name, function (client, st) -> condition)"""
    out = []
    for stdin in (False, True) if what == 'open' else (False,):
        for seekable in (True, False) if what == 'seek' else (None,):
            for case in cases:
                ex = exits if exits is not None else {'open': ('invalid', 'opened', 'closed') + (() if stdin else ('openfail',)), 'read': ('read', 'noread', 'closed'), 'seek': ('seek', 'noseek', 'closed')}[what]
                nm = {'open': 'open, close', 'read': 'one read, any state', 'seek': 'one seek, any state'}[what]
                add_ = ['standard input' if stdin else 'a named file'] if what == 'open' else []
                add_ += [] if seekable is None else ['seekable' if seekable else 'not seekable']
                add_ += [case[0]] if case else []
                out.append(Task('%s: %s%s%s' % (cls.fmt, nm, ', also after failures' if failed is not FALSE else '', ' (%s)' % ', '.join(add_) if add_ else ''),
                                lambda cx, eng, a=stdin, b=seekable, c=case: run_client(cls, cx, eng, typ, a, None if b is None else Bc(b), what, failed, c), drivers=('client',), exits=ex))
    return out


def run_client(cls, cx, eng, typ, stdin=None, seekable=None, mode='all', failed=FALSE, case=()):
    st = State()
    name = 'filename'
    p = eng.new_obj(st, name, 'opaque', ONE)
    st.objs[name].meta['string'] = 'filename'
    t = eng.new_obj(st, 'filetype', 'const', I(len(typ) + 1))
    for i, b in enumerate(typ + b'\0'):
        st.objs['filetype'].cells[i] = (1, VInt(8, I(b)))
    st.objs['filetype'].writable = False
    if stdin is not None:
        st.objs[name].meta['streq'] = lambda eng, st, sp, lit, fold: Bc(stdin) if lit == b'-' else FALSE if stdin else bvar('filename=%r' % lit)
    c = cls(cx, eng, name, seekable, mode, failed, case)
    c.start(st)

    def done(st, rv):
        no_leak(eng, st, tag='%s: everything is released in the end' % c.fmt)
        exits_reached(eng, st, 'closed')
    eng.run(st, cx.fn('client_one' if mode in ('read', 'seek') else 'client'), [p, t], done)
