"""B01: a buffered channel delivers every byte once, in order, at the position it reports.

Each channel primitive is interpreted abstractly from an arbitrary well-formed channel: buffer pointers, file
offset, lengths and the amounts the system calls transfer are integer terms with interval facts; the buffer,
the caller's block and the file are maps from ranges of positions to ranges of byte sources.  At every return
the file overlaid with the buffer must be what the primitive's contract says, whatever branch was taken, and
the channel must again be well-formed."""
from . import cir, cflow, checks, arith
from .arith import Arith, Giveup, Fork, Infeasible, State, padd, pscale, const, atom, isconst, cval, shows
from .cbuild import AnalysisError
from .report import Result
from .pser import Ana, addfacts, val, bname, heads, succs

BUF = 'chan.buff'
BIG = 1 << 60
RMAX = 0x7ffff000      # the most one read or write transfers


def le(a, b):
    return padd(b, a, -1)          # >= 0


class Chan(Ana):
    def __init__(s, P, F, fn, size, file):
        s.P, s.F, s.f = P, F, P.fns[fn]
        s.A = Arith(P, s.f, inputs=s.loads, noret=F, maxstates=40000)
        s.A.lazy8, s.A.cap = True, 60
        s.A.turns = 6
        s.A.oncall, s.A.onstore = s.oncall, s.onstore
        s.size, s.file = size, file
        s.input = None
        s.n = 0
        s.oob = []             # (line, message)
        s.signs = False

    # -- decisions
    def dec(s, st, p, op):
        c = arith.cases(st, p, op)
        if c is True or c is False:
            return c
        raise Fork(c[0] + c[1])

    def low(s, st, a, b):
        return a if b is None or (a is not None and s.dec(st, le(a, b), '>=')) else b

    # -- byte ranges: (start, end, source, source offset); None is infinity
    def slice(s, st, segs, a, b):
        out = []
        for lo, hi, src, off in segs:
            if a is not None and (lo is None or s.dec(st, le(lo, a), '>')):
                if hi is not None and not s.dec(st, le(a, hi), '>'):
                    continue
                nlo = a
            else:
                nlo = lo
            if b is not None and (hi is None or s.dec(st, le(b, hi), '>')):
                if nlo is not None and not s.dec(st, le(nlo, b), '>'):
                    continue
                nhi = b
            else:
                nhi = hi
            if nlo is not None and nhi is not None and not s.dec(st, le(nlo, nhi), '>'):
                continue
            noff = off
            if nlo is not None and lo is not None:
                noff = padd(off, padd(nlo, lo, -1))
            elif nlo is not None:
                noff = padd(nlo, off)           # an unbounded source is its own coordinate
            out.append((nlo, nhi, src, noff))
        return out

    def put(s, st, segs, a, b, new):
        """new: segments whose coordinates start at a"""
        left = s.slice(st, segs, None, a)
        right = s.slice(st, segs, b, None)
        return tuple(left + list(new) + right)

    def shift(s, segs, d):
        return [(padd(lo, d), None if hi is None else padd(hi, d), src, off) for lo, hi, src, off in segs]

    def region(s, st, base):
        k = ('R', base)
        if k in st.mem:
            return st.mem[k]
        return ((None, None, ('B', base), ()),)

    def content(s, st, p, n):
        """segments of the n bytes at p, from coordinate 0"""
        a, b = p[2], padd(p[2], n)
        return s.shift(s.slice(st, s.region(st, p[1]), a, b), pscale(a, -1))

    def same(s, st, x, y, a, b):
        """None, or the position where two lists of segments first differ on [a, b)"""
        at = a
        for k in range(40):
            if not s.dec(st, le(at, b), '>'):
                return None
            f = [t for t in x if s.holds(st, t, at)]
            g = [t for t in y if s.holds(st, t, at)]
            if not f or not g:
                return at
            f, g = f[0], g[0]
            fo = padd(f[3], padd(at, f[0], -1) if f[0] is not None else at)
            go = padd(g[3], padd(at, g[0], -1) if g[0] is not None else at)
            if f[2][0] == 'val' or g[2][0] == 'val':
                if f[2][0] != 'val' or g[2][0] != 'val' or not s.samebyte(st, f[2][1], g[2][1]):
                    return at
            elif f[2] != g[2] or not st.zero(padd(fo, go, -1)):
                return at
            e = f[1] if g[1] is None else g[1] if f[1] is None else (f[1] if s.dec(st, le(f[1], g[1]), '>=') else g[1])
            if e is None:
                return None
            at = e
        raise Giveup('ranges')

    def samebyte(s, st, v, w):
        if v[0] not in 'zw' or w[0] not in 'zw':
            return v == w
        d = padd(v[1], w[1], -1)
        for p in (d, st.reduce(d), st.rnorm(st.reduce(d)), st.expand(d)):
            if st.zero(p) or all(c % 256 == 0 for m, c in p):
                return True
        return False

    def holds(s, st, t, at):
        if t[0] is not None and not s.dec(st, le(t[0], at), '>='):
            return False
        return t[1] is None or s.dec(st, le(at, t[1]), '>')

    def inside(s, st, p, n, line, what):
        """writes to the buffer stay inside it"""
        if p[1] != BUF:
            return
        for q, w in ((p[2], 'before'), (le(padd(p[2], n), const(s.size)), 'past the end of')):
            c = arith.cases(st, q, '>=')
            if c is not True:
                t = (line, '%s %s the channel\'s buffer' % (what, w))
                if c is not False:
                    raise Fork(c[0] + c[1])
                if t not in s.oob:
                    s.oob.append(t)
                raise Infeasible

    # -- memory
    def loads(s, a, st, e):
        if a[0] != 'p':
            raise Giveup('load through an unknown address')
        if a[1] == BUF or ('R', a[1]) in st.mem:
            t = s.A.ty(e)
            w = s.A.wid(t)
            if not w or w[0] != 8:
                raise Giveup('the buffer is read in words')
            g = [x for x in s.region(st, a[1]) if s.holds(st, x, a[2])]
            if not g:
                t = (e.line if hasattr(e, 'line') else None, 'a byte outside the channel\'s buffer is read')
                if t not in s.oob:
                    s.oob.append(t)
                raise Infeasible
            lo, hi, src, off = g[0]
            off = padd(off, padd(a[2], lo, -1) if lo is not None else a[2])
            if src[0] == 'val':
                return src[1]
            new = s.byte(st, src[1], off)
            if w[1] and s.signs:
                return val(new if s.dec(st, padd(new, const(127), -1), '<=') else padd(new, const(-256)))
            return ('w', new, 8, True) if w[1] else val(new)
        return None

    def byte(s, st, base, off):
        """the term for a byte of a source; one name per position"""
        reg = st.mem.get(('bytes', base), ())
        for o, u in reg:
            if st.zero(padd(o, off, -1)):
                return atom(u)
        u = 'byte:%s[%s]' % (base, shows(off))
        st.mem[('bytes', base)] = reg + ((off, u),)
        return addfacts(st, u, 0, 255)

    def onstore(s, a, v, st, i, size):
        if a[0] != 'p':
            raise Giveup('store through an unknown address')
        if a[1] == BUF or ('R', a[1]) in st.mem:
            if size != 1:
                raise Giveup('the buffer is written in words')
            s.inside(st, a, const(1), i.line, 'a byte is stored')
            b = padd(a[2], const(1))
            st.mem[('R', a[1])] = s.put(st, s.region(st, a[1]), a[2], b, [(a[2], b, ('val', v), ())])
            return True
        return None

    # -- system calls
    def oncall(s, base, i, st):
        if s.F.is_noreturn(i, s.A.cur):
            return None
        h = getattr(s, 'c_' + base, None)
        if h:
            return h([s.A.ev(x, st) for x in i.a[2]], st, i)
        f = s.P.fns.get(i.a[1]) if isinstance(i.a[1], str) else None
        if f is not None and f.file == s.file:
            return None
        return s.opq(i, base, st)

    def fresh(s, st, name, lo, hi):
        k = len([t for t in st.trace if t[0] == 'new'])
        st.trace += (('new', name),)
        return addfacts(st, '%s%d' % (name, k), lo, hi)

    def pick(s, st, i, n):
        """a choice among n outcomes of this call, made before anything else"""
        k = ('pick', i.line, len(st.trace))
        m = atom(repr(k))
        b = st.bounds(m)
        if b[0] is not None and b[0] == b[1]:
            return b[0]
        raise Fork([[('cmp', m, j, j)] for j in range(n)])

    def failed(s, st):
        return any(t[0] == 'fail' for t in st.trace)

    def num(s, v):
        if v[0] != 'z':
            raise Giveup('a count or position is not followed')
        return v[1]

    def own(s, st, v):
        return v == val(atom('fd')) or v[0] == 'z' and st.zero(padd(v[1], atom('fd'), -1))

    def c_write(s, a, st, i):
        n = s.num(a[2])
        if a[1][0] != 'p':
            raise Giveup('what is written')
        if len([t for t in st.trace if t[0] == 'write']) > 2:
            raise Infeasible         # three partial writes are followed
        if not any(t[0] in ('fail', 'write') for t in st.trace) and s.pick(st, i, 2):
            st.trace += (('fail', 'write'),)
            return val(const(-1))
        src = s.region(st, a[1][1])
        k = len([t for t in st.trace if t[0] == 'new'])
        r = atom('written%d' % k)
        one = s.dec(st, n, '>')
        # decisions about where the written bytes come from need the amount; so the facts come first
        t = st.copy()
        addfacts(t, 'written%d' % k, 1 if one else 0, RMAX)
        t.afact(padd(n, r, -1), 0, None)
        try:
            seg = s.shift(s.slice(t, src, a[1][2], padd(a[1][2], r)), padd(t.mem['fdpos'], a[1][2], -1))
            file = s.put(t, t.mem[('R', 'file')], t.mem['fdpos'], padd(t.mem['fdpos'], r), seg)
        except Fork as F:
            facts = [('cmp', r, 1 if one else 0, RMAX), ('cmp', padd(n, r, -1), 0, None)]
            raise Fork([facts + list(x) for x in F.alts])
        addfacts(st, 'written%d' % k, 1 if one else 0, RMAX)
        st.afact(padd(n, r, -1), 0, None)
        st.trace += (('new', 'written'), ('write', n, r, i.line))
        st.mem[('R', 'file')] = file
        st.mem['fdpos'] = padd(st.mem['fdpos'], r)
        if not s.own(st, a[0]):
            st.trace += (('otherfd', i.line),)
        return val(r)

    def c_read(s, a, st, i):
        n = s.num(a[2])
        if a[1][0] != 'p':
            raise Giveup('where to read')
        if not s.failed(st) and s.pick(st, i, 2):
            st.trace += (('fail', 'read'),)
            return val(const(-1))
        k = len([t for t in st.trace if t[0] == 'new'])
        r = atom('got%d' % k)
        t = st.copy()
        facts = [('cmp', r, 0, RMAX), ('cmp', padd(n, r, -1), 0, None)]
        for f in facts:
            t.afact(*f[1:])
        p, pos = a[1][2], t.mem['fdpos']
        try:
            seg = s.shift(s.slice(t, t.mem[('R', 'file')], pos, padd(pos, r)), padd(p, pos, -1))
            s.inside(t, a[1], n, i.line, 'a read may store')
            to = s.put(t, s.region(t, a[1][1]), p, padd(p, r), seg)
        except Fork as F:
            raise Fork([facts + list(x) for x in F.alts])
        for f in facts:
            st.afact(*f[1:])
        st.trace += (('new', 'got'), ('read', n, r, i.line))
        if a[1][1] not in (BUF,):
            st.trace += (('into', a[1], n),)
        st.mem[('R', a[1][1])] = to
        st.mem['fdpos'] = padd(pos, r)
        if not s.own(st, a[0]):
            st.trace += (('otherfd', i.line),)
        return val(r)

    def c_lseek(s, a, st, i):
        w = a[2][1] if a[2][0] == 'z' and isconst(a[2][1]) else None
        if w is None:
            raise Giveup('lseek')
        w = cval(w)
        if not s.failed(st) and s.pick(st, i, 2):
            st.trace += (('fail', 'lseek'),)
            return val(const(-1))
        if w == 0:
            r = s.num(a[1])
        elif w == 1:
            r = padd(st.mem['fdpos'], s.num(a[1]))
        else:
            r = padd(s.fresh(st, 'fileend', 0, BIG), s.num(a[1]))
        if not s.dec(st, r, '>='):
            st.trace += (('fail', 'lseek'),)
            return val(const(-1))
        st.mem['fdpos'] = r
        st.trace += (('lseek', r, w, i.line),)
        if not s.own(st, a[0]):
            st.trace += (('otherfd', i.line),)
        return val(r)

    def c_fcntl(s, a, st, i):
        if not s.failed(st) and s.pick(st, i, 2):
            st.trace += (('fail', 'fcntl'),)
            return val(const(-1))
        return val(s.fresh(st, 'flags', 0, (1 << 31) - 1))

    def c_close(s, a, st, i):
        if s.pick(st, i, 2):
            st.trace += (('closed', a[0], i.line),)
            return val(const(-1))
        st.trace += (('closed', a[0], i.line),)
        return val(())

    def c_stat_free(s, a, st, i):
        st.trace += (('free', a[0], i.line),)
        return ('o', 'free')
    c_free = c_stat_free

    def c_stat_alloc(s, a, st, i):
        return ('p', 'chan', ()) if s.f.name == 'open_descr' else ('p', 'mem%d' % i.line, ())

    def c_alloc(s, a, st, i):
        return ('p', 'block', ())

    def c_bcopy(s, a, st, i):
        return s.move(a[1], a[0], a[2], st, i)

    def c_memcpy(s, a, st, i):
        if a[0][0] == 'p' and a[1][0] == 'p' and a[0][1] == a[1][1]:
            d = padd(a[0][2], a[1][2], -1)
            n = s.num(a[2])
            if not (s.dec(st, padd(d, n, -1), '>=') or s.dec(st, padd(pscale(d, -1), n, -1), '>=') or s.dec(st, n, '==')):
                t = (i.line, 'memcpy between overlapping parts of the buffer')
                if t not in s.oob:
                    s.oob.append(t)
        return s.move(a[0], a[1], a[2], st, i)

    def c_memmove(s, a, st, i):
        return s.move(a[0], a[1], a[2], st, i)

    def move(s, d, f, n, st, i):
        n = s.num(n)
        if d[0] != 'p' or f[0] != 'p':
            raise Giveup('copy')
        if not s.dec(st, n, '>='):
            t = (i.line, 'a negative or huge number of bytes is copied')
            if t not in s.oob:
                s.oob.append(t)
            raise Infeasible
        if not s.dec(st, n, '>'):
            return d
        s.inside(st, d, n, i.line, 'a copy stores')
        seg = s.shift(s.slice(st, s.region(st, f[1]), f[2], padd(f[2], n)), padd(d[2], f[2], -1))
        new = s.put(st, s.region(st, d[1]), d[2], padd(d[2], n), seg)
        st.mem[('R', d[1])] = new
        if d[1] != BUF:
            st.trace += (('into', d, n),)
        return d

    # -- states
    def begin(s, out, args, facts=()):
        st = State()
        st.lp = True
        c, x, o = (addfacts(st, k, 0, hi) for k, hi in (('c', s.size), ('x', s.size), ('o', BIG)))
        addfacts(st, 'fd', 0, (1 << 31) - 1)
        st.afact(le(c, x), 0, None)
        for a, lo, hi in facts:
            addfacts(st, a, lo, hi)
        st.mem[('p', 'chan.fd', ())] = val(atom('fd'))
        st.mem[('p', 'chan.offset', ())] = val(o)
        st.mem[('p', 'chan.curr', ())] = ('p', BUF, c)
        st.mem[('p', 'chan.max', ())] = ('p', BUF, x)
        st.mem[('p', 'chan.end', ())] = ('p', BUF, const(s.size))
        st.mem['fdpos'] = o
        st.mem[('R', 'file')] = ((None, None, ('B', 'F'), ()),)
        if out:
            st.mem[('R', BUF)] = (((), const(s.size), ('B', 'buffer'), ()),)
        else:
            st.afact(le(x, o), 0, None)
            st.mem[('R', BUF)] = (((), x, ('B', 'F'), le(x, o)), (x, const(s.size), ('B', 'stale'), x))
        st.trace = ()
        for (u, t), v in zip(s.f.params, args):
            st.v[u] = v
        if len(args) != len(s.f.params):
            raise Giveup('%s has %d parameters' % (s.f.name, len(s.f.params)))
        return st

    def fields(s, st):
        g = lambda k: st.mem.get(('p', 'chan.' + k, ()))
        o, c, x, e = g('offset'), g('curr'), g('max'), g('end')
        if o is None or c is None or x is None or o[0] != 'z' or c[0] != 'p' or x[0] != 'p' or c[1] != BUF or x[1] != BUF:
            raise Giveup('the fields of the channel are not followed')
        return o[1], c[2], x[2], e


CH = ('p', 'chan', ())


class B:
    def __init__(s, P, F, R, file='io.c'):
        s.P, s.F, s.R = P, F, R
        s.n = dict(functions=0, paths=0, obligations=0, states=0)
        s.un = []
        s.file = None
        for f in P.fns.values():
            if f.file.endswith('/' + file):
                s.file = f.file
        if s.file is None:
            raise AnalysisError('%s not found' % file)
        s.size = 1 << 12
        s.ev = dict(fullwrite=0, refill=0)

    def need(s, ok, f, line, rule, msg):
        s.n['obligations'] += 1
        if not ok:
            s.R.add(f.file, line or f.line, f.name, rule, msg, '%s:%s:%s' % (f.name, rule, msg[:60]))
        return ok

    def run(s, fn, out, args, facts, check, prep=None, entry=None, name=None):
        if fn not in s.P.fns:
            raise AnalysisError('function %s not found' % fn)
        w = Chan(s.P, s.F, fn, s.size, s.P.fns[fn].file)
        st = w.begin(out, args, facts)
        if prep:
            prep(w, st)
        res = w.A.run(st, w.f.entry)
        s.n['functions'] += 1
        seen = set()
        for k, i, e in res:
            s.n['paths'] += 1
            if k not in ('ret', 'raise'):
                raise Giveup('end of %s' % fn)
            seen.add(k)
            work = [e]
            m = 0
            while work:
                x = work.pop()
                m += 1
                if m > 400:
                    raise Giveup('cases at the end of %s' % fn)
                try:
                    check(w, k, i, x.copy())
                    s.n['states'] += 1
                except Fork as F:
                    work += w.A.forks(x, F.alts)
                except Infeasible:
                    pass
        for line, msg in w.oob:
            s.need(False, w.f, line, 'buffer', msg)
        if 'ret' not in seen:
            s.need(False, w.f, None, 'result', 'no path returns')
        return w

    def shape(s, w, st, out):
        """the channel is well-formed again"""
        f = w.f
        o, c, x, e = w.fields(st)
        ok = w.dec(st, c, '>=') and w.dec(st, le(c, x), '>=') and w.dec(st, le(x, const(s.size)), '>=')
        s.need(ok, f, None, 'shape', 'the buffer\'s pointers are not in order (start, current, end of contents, end of buffer)')
        s.need(e == ('p', BUF, const(s.size)), f, None, 'shape', 'the end of the buffer is changed')
        return ok, o, c, x

    # -- output
    def outend(s, w, k, i, st, at, n, want, pos, f=None, what='the bytes'):
        """the file, overlaid with the buffer, is as before except for n bytes at position at; the position is pos"""
        f = w.f
        if k == 'raise':
            return
        ok, o, c, x = s.shape(w, st, True)
        if not ok:
            return
        s.need(st.zero(padd(st.mem['fdpos'], o, -1)), f, None, 'position', 'the recorded file position is not where the file is')
        s.need(not any(t[0] == 'otherfd' for t in st.trace), f, None, 'descriptor', 'a system call does not use the channel\'s descriptor')
        z = atom('o')
        old = w.put(st, (((None, None, ('B', 'F'), ())),), z, padd(z, atom('x')), [(z, padd(z, atom('x')), ('B', 'buffer'), ())])
        exp = w.put(st, old, at, padd(at, n), want) if n != () and w.dec(st, n, '>') else old
        buf = w.shift(w.slice(st, w.region(st, BUF), (), x), o)
        got = w.put(st, st.mem[('R', 'file')], o, padd(o, x), buf)
        end = padd(padd(z, const(4 * s.size)), n)
        p = w.same(st, got, exp, padd(z, const(-4)), end)
        s.need(p is None, f, None, 'contents', 'file and buffer together do not hold what was written: a byte is lost, repeated or misplaced')
        if pos is not None:
            s.need(st.zero(padd(padd(o, c), pos, -1)), f, None, 'position', 'the next byte will not be written where it should')

    def pos(s):
        return padd(atom('o'), atom('c'))

    def src(s, base, n, st=None):
        return [(s.pos(), padd(s.pos(), n), ('B', base), ())]

    def flush(s, fn='flush'):
        def check(w, k, i, st):
            s.outend(w, k, i, st, s.pos(), (), [], s.pos())
            if k == 'ret':
                o, c, x, e = w.fields(st)
                s.need(st.zero(x), w.f, None, 'flush', 'bytes remain in the buffer')
        s.run(fn, True, [CH], (), check)

    def output_char(s):
        def check(w, k, i, st):
            b = [(s.pos(), padd(s.pos(), const(1)), ('val', val(atom('k'))), ())]
            s.outend(w, k, i, st, s.pos(), const(1), b, padd(s.pos(), const(1)))
        s.run('output_char', True, [CH, val(padd(pscale(atom('k'), 2), const(1)))], [('k', 0, 255)], check)

    def word(s, fn, v, facts):
        def check(w, k, i, st):
            b = []
            for j in range(4):
                a = padd(s.pos(), const(j))
                q = ('z', atom('w')) if j == 3 else s.div(w, atom('w'), 1 << (24 - 8 * j), st)
                b.append((a, padd(a, const(1)), ('val', q), ()))
            s.outend(w, k, i, st, s.pos(), const(4), b, padd(s.pos(), const(4)))
        s.run(fn, True, [CH, v], facts, check)

    def div(s, w, p, d, st):
        return ('z', w.A.floordiv(p, d, st)[0])

    def putword(s):
        s.word('putword', val(atom('w')), [('w', 0, (1 << 32) - 1)])

    def output_int(s):
        s.word('output_int', val(padd(pscale(atom('w'), 2), const(1))), [('w', -(1 << 31), (1 << 31) - 1)])

    def putblock(s):
        def check(w, k, i, st):
            s.outend(w, k, i, st, s.pos(), atom('n'), s.src('P', atom('n')), padd(s.pos(), atom('n')))
        s.run('putblock', True, [CH, ('p', 'P', ()), val(atom('n'))], [('n', 0, 1 << 40)], check)

    def tagged(s, a):
        return val(padd(pscale(atom(a), 2), const(1)))

    def output(s):
        def check(w, k, i, st):
            b = [(s.pos(), padd(s.pos(), atom('n')), ('B', 'P'), atom('q'))]
            s.outend(w, k, i, st, s.pos(), atom('n'), b, padd(s.pos(), atom('n')))
        s.run('output', True, [CH, ('p', 'P', ()), s.tagged('q'), s.tagged('n')], [('n', 0, 1 << 40), ('q', 0, 1 << 40)], check)

    def seek_out(s):
        def check(w, k, i, st):
            s.outend(w, k, i, st, s.pos(), (), [], atom('d'))
        s.run('seek_out', True, [CH, s.tagged('d')], [('d', -(1 << 61), 1 << 61)], check)

    def pos_out(s):
        def check(w, k, i, st):
            s.outend(w, k, i, st, s.pos(), (), [], s.pos())
            if k == 'ret':
                s.isint(w, i, st, s.pos(), 'the position returned is not where the next byte goes')
        s.run('pos_out', True, [CH], (), check)

    def isint(s, w, v, st, p, msg, rule='result'):
        s.need(v[0] == 'z' and st.zero(padd(v[1], padd(pscale(p, 2), const(1)), -1)), w.f, None, rule, msg + (' %r' % (v,)))

    def freed(s, w, k, st):
        """events of a close"""
        cl = [t for t in st.trace if t[0] == 'closed']
        fr = [t for t in st.trace if t[0] == 'free']
        fd = atom('fd')
        for t in cl:
            s.need(w.own(st, t[1]), w.f, t[2], 'close', 'another descriptor is closed')
        s.need(len(cl) <= 1, w.f, None, 'close', 'the descriptor is closed twice')
        s.need(len(fr) <= 1, w.f, None, 'close', 'the channel is freed twice')
        for t in fr:
            s.need(t[1] == CH, w.f, t[2], 'close', 'something else than the channel is freed')
            if not w.dec(st, padd(fd, const(3), -1), '>='):
                s.need(False, w.f, t[2], 'close', 'the channel of a standard descriptor, which other streams share, is freed')
        return cl, fr

    def close_out(s):
        def check(w, k, i, st):
            if k == 'raise' and not any(t[0] == 'closed' for t in st.trace):
                return
            cl, fr = s.freed(w, k, st)
            std = not w.dec(st, padd(atom('fd'), const(3), -1), '>=')
            if std:
                if w.dec(st, atom('fd'), '>') and not cl:
                    return        # flushed when the program ends
            else:
                s.need(cl and fr, w.f, None, 'close', 'a channel is neither closed nor freed')
            z = atom('o')
            exp = w.put(st, (((None, None, ('B', 'F'), ())),), z, padd(z, atom('x')), [(z, padd(z, atom('x')), ('B', 'buffer'), ())])
            p = w.same(st, st.mem[('R', 'file')], exp, padd(z, const(-4)), padd(z, const(4 * s.size)))
            s.need(p is None, w.f, None, 'contents', 'bytes in the buffer are not written before the channel is closed')
            s.order(w, st)
        s.run('close_out', True, [CH], (), check)

    def order(s, w, st):
        c = [n for n, t in enumerate(st.trace) if t[0] == 'closed']
        wr = [n for n, t in enumerate(st.trace) if t[0] == 'write']
        s.need(not c or not wr or max(wr) < c[0], w.f, None, 'close', 'bytes are written after the descriptor is closed')

    # -- input
    def ipos(s):
        return padd(padd(atom('o'), atom('c')), atom('x'), -1)

    def inend(s, w, k, i, st, pos):
        """the buffer holds the file's bytes before the recorded position; the position is pos"""
        f = w.f
        if k == 'raise' and w.failed(st):
            return
        ok, o, c, x = s.shape(w, st, False)
        if not ok:
            return
        s.need(st.zero(padd(st.mem['fdpos'], o, -1)), f, None, 'position', 'the recorded file position is not where the file is')
        s.need(not any(t[0] == 'otherfd' for t in st.trace), f, None, 'descriptor', 'a system call does not use the channel\'s descriptor')
        exp = [((), x, ('B', 'F'), padd(o, x, -1))]
        p = w.same(st, list(w.region(st, BUF)), exp, (), x)
        s.need(p is None, f, None, 'contents', 'the buffer does not hold the bytes of the file that precede the recorded position')
        if pos is not None:
            s.need(st.zero(padd(padd(padd(o, c), x, -1), pos, -1)), f, None, 'position', 'the next byte will not be read where it should')

    def eof(s, st):
        return any(t[0] == 'read' and st.bounds(t[2]) == (0, 0) for t in st.trace)

    def byte(s, w, st, p):
        return w.byte(st, 'F', p)

    def chars(s, fn, n, value):
        def check(w, k, i, st):
            if k == 'raise':
                if not w.failed(st):
                    s.need(s.eof(st), w.f, None, 'end', 'the end of the file is reported although there are bytes')
                    o, c, x, e = w.fields(st)
                    got = padd(padd(padd(o, c), x, -1), s.ipos(), -1)
                    if n == 1:
                        s.inend(w, k, i, st, s.ipos())
                    else:
                        s.inend(w, k, i, st, None)
                return
            s.inend(w, k, i, st, padd(s.ipos(), const(n)))
            b = [s.byte(w, st, padd(s.ipos(), const(j))) for j in range(n)]
            value(w, i, st, b)
        s.run(fn, False, [CH], (), check)

    def input_char(s):
        s.chars('input_char', 1, lambda w, v, st, b: s.isint(w, v, st, b[0], 'the byte returned is not the next one of the file'))

    def wordof(s, b):
        r = ()
        for x in b:
            r = padd(pscale(r, 256), x)
        return r

    def getword(s):
        def value(w, v, st, b):
            s.need(v[0] == 'z' and st.zero(padd(v[1], s.wordof(b), -1)), w.f, None, 'result', 'the word returned is not the next four bytes of the file')
        s.chars('getword', 4, value)

    def input_int(s):
        def value(w, v, st, b):
            p = s.wordof(b)
            if not w.dec(st, padd(p, const(1 << 31), -1), '<'):
                p = padd(p, const(-(1 << 32)))
            s.isint(w, v, st, p, 'the integer returned is not the next four bytes of the file')
        s.chars('input_int', 4, value)

    def block(s, fn, args, facts, at, result):
        def check(w, k, i, st):
            n = atom('n')
            if k == 'raise':
                s.need(w.failed(st), w.f, None, 'end', 'an exception although no system call failed')
                return s.inend(w, k, i, st, s.ipos())
            r = result(w, i, st)
            if r is None:
                return
            if r == 'none':
                s.need(w.failed(st), w.f, None, 'result', 'reports that there is no data although the system did not say so')
                return s.inend(w, k, i, st, s.ipos())
            ok = w.dec(st, r, '>=') and w.dec(st, le(r, n), '>=')
            if not s.need(ok, w.f, None, 'result', 'the number of bytes returned may be negative or more than was asked for'):
                return
            s.inend(w, k, i, st, padd(s.ipos(), r))
            exp = [(at, padd(at, r), ('B', 'F'), s.ipos())]
            p = w.same(st, list(w.region(st, 'D')), exp, at, padd(at, r))
            s.need(p is None, w.f, None, 'contents', 'the bytes delivered are not the next ones of the file')
            if not w.dec(st, r, '>'):
                s.need(st.zero(n) or s.eof(st), w.f, None, 'end', 'the end of the file is reported although there are bytes')
            for t in st.trace:
                if t[0] == 'into':
                    ok = t[1][1] == 'D' and w.dec(st, padd(t[1][2], at, -1), '>=') and w.dec(st, padd(padd(at, n), padd(t[1][2], t[2]), -1), '>=')
                    s.need(ok, w.f, None, 'buffer', 'bytes are stored outside the part of the caller\'s block asked for')
        s.run(fn, False, args, facts, check)

    def plainres(s, w, v, st):
        if v[0] != 'z':
            raise Giveup('result')
        if w.failed(st) and st.zero(padd(v[1], const(1))):
            return 'none'
        return v[1]

    def getblock(s):
        for nb in (0, 1):
            s.block('getblock', [CH, ('p', 'D', ()), val(atom('n')), val(const(nb))], [('n', 0, 1 << 40)], (), s.plainres)

    def input_(s):
        def res(w, v, st):
            return s.half(v, st)
        s.block('input', [CH, ('p', 'D', ()), s.tagged('q'), s.tagged('n')], [('n', 0, 1 << 40), ('q', 0, 1 << 40)], atom('q'), res)

    def half(s, v, st):
        if v[0] != 'z':
            raise Giveup('result %r' % (v,))
        h = atom('half')
        st.afact(padd(padd(v[1], const(-1)), h, -2), 0, 0)
        return h

    def input_nonblocking(s):
        def res(w, v, st):
            if v == ('p', 'block', ()):
                return s.half(st.mem[('p', 'block', ())], st)
            return 'none'
        s.block('input_nonblocking', [CH, ('p', 'D', ()), s.tagged('q'), s.tagged('n')], [('n', 0, 1 << 40), ('q', 0, 1 << 40)], atom('q'), res)

    def seek_in(s):
        def check(w, k, i, st):
            if k == 'ret':
                s.inend(w, k, i, st, atom('d'))
        s.run('seek_in', False, [CH, s.tagged('d')], [('d', -(1 << 61), 1 << 61)], check)

    def pos_in(s):
        def check(w, k, i, st):
            s.inend(w, k, i, st, s.ipos())
            if k == 'ret':
                s.isint(w, i, st, s.ipos(), 'the position returned is not where the next byte comes from')
        s.run('pos_in', False, [CH], (), check)

    def channel_size(s):
        def check(w, k, i, st):
            if k == 'raise':
                s.need(w.failed(st), w.f, None, 'result', 'an exception although no system call failed')
                return
            s.inend(w, k, i, st, s.ipos())
            e = [t for t in st.trace if t[0] == 'lseek' and t[2] == 2]
            s.need(e and i[0] == 'z' and st.zero(padd(i[1], padd(pscale(e[-1][1], 2), const(1)), -1)), w.f, None, 'result', 'the size returned is not that of the file')
        s.run('channel_size', False, [CH], (), check)

    def close_in(s):
        def prep(w, st):
            st.afact(atom('fd'), -1, None)

        def check(w, k, i, st):
            cl, fr = s.freed(w, k, st)
            fd = atom('fd')
            std = not w.dec(st, padd(fd, const(3), -1), '>=')
            s.need(cl, w.f, None, 'close', 'the descriptor is not closed')
            if not std:
                s.need(fr, w.f, None, 'close', 'the channel is not freed')
                return
            v = st.mem.get(('p', 'chan.fd', ()))
            g = [(a, x) for a, x in st.mem.items() if a[0] == 'p' and a[1].startswith('std_channel')]
            s.need(v is not None and v[0] == 'z' and not w.own(st, v) and w.dec(st, v[1], '<'), w.f, None, 'close', 'a stream that shares the channel of a closed standard descriptor can still use the descriptor')
            s.need(any(st.zero(padd(a[2], pscale(fd, 8), -1)) and x == val(()) for a, x in g), w.f, None, 'close', 'the channel of a closed standard descriptor is handed to the next file that gets the descriptor')
            o, c, x, e = w.fields(st)
            s.need(st.zero(padd(x, c, -1)), w.f, None, 'close', 'bytes can still be read from a closed standard channel')
        s.run('close_in', False, [CH], (), check)

    def open_descr(s):
        def prep(w, st):
            for k in ('fd', 'offset', 'curr', 'max', 'end'):
                st.mem.pop(('p', 'chan.' + k, ()), None)
            st.mem['fdpos'] = addfacts(st, 'at', 0, BIG)

        def check(w, k, i, st):
            if k == 'raise':
                return
            f = w.f
            fd = atom('fd')
            if i != CH:
                # an existing channel: the one remembered for this descriptor
                ok = i[0] == 'p' and i[1].startswith('ld:std_channel')
                return s.need(ok, f, None, 'open', 'the channel returned is neither new nor the one remembered for the descriptor')
            o, c, x, e = w.fields(st)
            s.need(c == () and x == (), f, None, 'open', 'a new channel\'s buffer is not empty')
            s.need(st.zero(padd(o, st.mem['fdpos'], -1)) or w.failed(st) and o == (), f, None, 'open', 'a new channel does not record where the file is')
            v = st.mem.get(('p', 'chan.fd', ()))
            s.need(v is not None and w.own(st, v), f, None, 'open', 'a new channel does not have the descriptor')
            s.need(e is not None and e[0] == 'p' and e[1] == BUF and isconst(e[2]), f, None, 'open', 'the end of a new channel\'s buffer is not set')
            if e and e[0] == 'p' and isconst(e[2]):
                s.ends.add(cval(e[2]))
            g = [(a, y) for a, y in st.mem.items() if a[0] == 'p' and a[1].startswith('std_channel') and y == CH]
            for a, y in g:
                s.need(st.zero(padd(a[2], pscale(fd, 8), -1)) and w.dec(st, padd(fd, const(3), -1), '<'), f, None, 'open', 'a channel is remembered for another descriptor')
        s.ends = set()
        s.run('open_descr', False, [val(atom('fd'))], (), check, prep)
        n = s.bufsize()
        s.need(len(s.ends) == 1 and all(e <= n for e in s.ends), s.P.fns['open_descr'], None, 'open', 'the end of the buffer is set outside the buffer (%d bytes)' % n)
        s.size = min(s.ends | {n})

    def bufsize(s):
        for key in ('struct channel', 'channel'):
            for f, ty, dty in s.P.records.get(key, []):
                if f == 'buff':
                    return cir.arraydim(s.P.resolve(dty or ty))
        raise AnalysisError('struct channel has no buffer')

    # -- lines: every turn of the scanning loop, from any number of bytes already scanned
    def scan(s, fn='input_scan_line'):
        f = s.P.fns[fn]
        hs = set(heads(f))
        w = Chan(s.P, s.F, fn, s.size, f.file)
        w.signs = True
        w.A.turns = 40
        inner = set()
        st0 = w.begin(False, [CH], ())
        if not hs:
            raise Giveup('no loop')
        h = outermost(f, hs)
        w.A.stop = {h}
        rec = lambda a, st: st.v.get(a)
        first = w.A.run(st0, f.entry)
        ent = [st for k, i, st in first if k == 'enter']
        if len(ent) != 1:
            raise Giveup('%d ways into the loop' % len(ent))
        base = ent[0]
        par = {u for u, t in f.params}
        loc = {u: v for u, v in base.v.items() if u[0] != '%' and '#g' not in u and u not in par}
        w.A.n = 0
        turn = [st for k, i, st in w.A.run(clean(base), h) if k == 'enter']
        steps = {}
        for st in turn:
            if any(t[0] in ('read', 'lseek') for t in st.trace):
                continue
            for u, v in loc.items():
                n = st.v.get(u)
                if n is None or n[0] != v[0] or v[0] not in 'zp' or v[0] == 'p' and n[1] != v[1]:
                    continue
                # in terms of the fields then and now
                d = padd(n[2] if v[0] == 'p' else n[1], v[2] if v[0] == 'p' else v[1], -1)
                if isconst(d) and w.fields(st)[1] == atom('c'):
                    steps.setdefault(u, set()).add(cval(d))
        steps = {u: d.pop() for u, d in steps.items() if len(d) == 1}
        if not any(steps.values()):
            raise Giveup('the loop does not advance')

        def templ(u, c, x, o, j):
            v = loc[u]
            q = v[2] if v[0] == 'p' else v[1]
            for a, b in (('c', c), ('x', x), ('o', o)):
                n = State().subst(q, a, b)
                q = q if n is None else n
            q = padd(q, pscale(j, steps[u]))
            return ('p', v[1], q) if v[0] == 'p' else val(q)
        j = atom('j')
        st = clean(base)
        addfacts(st, 'j', 0, s.size)
        st.afact(padd(le(atom('c'), atom('x')), j, -1), 0, None)
        for u in loc:
            if u in steps:
                st.v[u] = templ(u, atom('c'), atom('x'), atom('o'), j)
            else:
                del st.v[u]
        w.A.n = 0
        res = w.A.run(st, h)
        s.n['functions'] += 1

        def check(w, k, i, st):
            z = s.ipos()
            if k == 'raise':
                return s.need(w.failed(st), w.f, None, 'end', 'an exception although no system call failed')
            s.inend(w, k, i, st, z)
            o, c, x, e = w.fields(st)
            nl = None
            for off, u in st.mem.get(('bytes', 'F'), ()):
                if st.zero(padd(off, padd(z, j), -1)):
                    b = st.bounds(atom(u))
                    nl = arith.cases(st, padd(atom(u), const(10), -1), '==')
            if k == 'enter':
                j2 = padd(j, const(1))
                ok = all(u in st.v and same(st, st.v[u], templ(u, c, x, o, j2)) for u, d in steps.items())
                s.need(ok and nl is False, w.f, None, 'line', 'a turn of the loop does not pass exactly one byte that is not a newline')
                s.need(w.dec(st, padd(le(c, x), j2, -1), '>='), w.f, None, 'line', 'the scan leaves the bytes in the buffer')
                return
            if i[0] != 'z':
                raise Giveup('result')
            n = s.half(i, st)
            if w.dec(st, n, '>'):
                s.need(nl is True and st.zero(padd(n, padd(j, const(1)), -1)), w.f, None, 'line', 'the length returned is not that of a line')
                s.need(w.dec(st, padd(le(c, x), n, -1), '>='), w.f, None, 'line', 'the line returned is longer than what is in the buffer')
            else:
                s.need(st.zero(padd(padd(x, c, -1), n)), w.f, None, 'line', 'the length returned is not that of what is in the buffer')
                s.need(st.zero(padd(padd(x, c, -1), j, -1)), w.f, None, 'line', 'bytes in the buffer have not been looked at')
                s.need(s.eof(st) or st.zero(padd(padd(x, c, -1), const(s.size), -1)), w.f, None, 'end', 'the end of the file is reported although there are bytes and room for them')
        kinds = set()
        for k, i, e in res + [r for r in first if r[0] != 'enter']:
            s.n['paths'] += 1
            kinds.add(k)
            work = [e]
            m = 0
            while work:
                x = work.pop()
                m += 1
                if m > 400:
                    raise Giveup('cases at the end of %s' % fn)
                try:
                    check(w, k, i, x.copy())
                    s.n['states'] += 1
                except Fork as F:
                    work += w.A.forks(x, F.alts)
                except Infeasible:
                    pass
        for line, msg in w.oob:
            s.need(False, w.f, line, 'buffer', msg)
        if not {'ret', 'enter'} <= kinds:
            raise Giveup('the loop has no exit or no turn')


def clean(st):
    n = st.copy()
    n.visits = {}
    return n


def same(st, v, y):
    if y[0] == 'p':
        return v[0] == 'p' and v[1] == y[1] and st.zero(padd(v[2], y[2], -1))
    return v[0] == 'z' and st.zero(padd(v[1], y[1], -1))


def outermost(f, hs):
    """the loop head reached first"""
    work, seen = [f.entry], set()
    while work:
        b = work.pop(0)
        if b in hs:
            return b
        if b not in seen:
            seen.add(b)
            work += succs(f, b)


PARTS = ['open_descr', 'flush', 'output_char', 'putword', 'output_int', 'putblock', 'output', 'seek_out', 'pos_out', 'close_out',
         'input_char', 'getword', 'input_int', 'getblock', 'input_', 'input_nonblocking', 'seek_in', 'pos_in', 'channel_size', 'close_in', 'scan']


FIX = 'vsa_chan.c'


def B01(tier='quick'):
    R = Result()
    P = checks.program((FIX,))
    F = cflow.Facts(P)
    D = B(P, F, R)
    und = []
    for q in PARTS:
        try:
            getattr(D, q)()
        except Giveup as e:
            und.append('%s: %s' % (q.strip('_'), e))
    if len(und) > 3:
        raise AnalysisError('not decided: %s' % '; '.join(und))
    T = B(P, F, Result())
    T.size = D.size
    for fn in ('vch_flush_good', 'vch_flush_bad', 'vch_flush_short'):
        T.flush(fn)
    n = checks.selftest(FIX, 'B01', [v['line'] for v in T.R.violations])
    for u in und:
        print('UNDECIDED property=B01 %s' % u)
    if not R.violations and not und:
        for k, lo in dict(functions=20, paths=1500, obligations=10000).items():
            if D.n[k] < lo:
                raise AnalysisError('only %d %s (at least %d expected)' % (D.n[k], k, lo))
    R.coverage = dict(explanation='Abstract interpretation of every channel primitive from an arbitrary well-formed channel; the contents of buffer, caller\'s block and file are maps of symbolic ranges, relations between lengths are a convex polyhedron. At each return file and buffer together, the position, and the channel\'s own invariants are compared with the primitive\'s contract; the line scanner by induction over its loop.',
                      primitives=PARTS, buffer_size=D.size, undecided=und, selftest_instances=n, **D.n)
    R.assumptions = ['read and write transfer between 1 and the requested number of bytes, at the file position, which they advance; read returns 0 only at the end of the file',
                     'a write is split into at most three parts, and at most one system call per operation fails',
                     'descriptors opened in append mode and descriptors shared with another process are out of scope',
                     'after an operation has raised because a system call failed only memory safety is claimed']
    return R
