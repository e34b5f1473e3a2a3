"""S01: what the value writers emit is what the readers decode, and a short file raises.

The writer is analysed abstractly on each class of value (arith.py: exact integers with interval facts, no
solver); the sequence of byte expressions it stores into the channel is then the input of the reader's
analysis, started in the writer's final facts.  Every pair of paths must agree on the value, the tag, the
size and the counters.
"""
import os
from . import checks, cir, arith, cflow
from .arith import Arith, State, const, atom, padd, pscale, pmul, isconst, cval, shows, Infeasible, Giveup, Fork
from .cbuild import AnalysisError
from .report import Result

FAR = 1 << 40
CLOSURE, WEAK, ABSTRACT, STRING, DOUBLE, FINAL = 249, 251, 252, 253, 254, 255
RAISES = ('failwith', 'invalid_argument', 'raise_out_of_memory', 'mlraise', 'sys_error', 'raiseprimitive0', 'raiseprimitive1',
          'raise_with_string', 'fatal_error')


def callees(P, f):
    r = []
    for b in f.order():
        for i in f.blocks[b].ins:
            if i.op == 'call' and isinstance(i.a[1], str) and i.a[1] in P.fns and i.a[1] not in r:
                r.append(i.a[1])
    return r


def worker(P, top):
    """the recursive function of top's file that top hands the value to"""
    file = P.fns[top].file
    seen, work = [], [top]
    while work:
        n = work.pop(0)
        for c in callees(P, P.fns[n]):
            if P.fns[c].file == file and c not in seen and c != top:
                seen.append(c)
                work.append(c)

    def again(n):
        s, w = set(), [n]
        while w:
            for c in callees(P, P.fns[w.pop()]):
                if c == n:
                    return True
                if P.fns[c].file == file and c not in s:
                    s.add(c)
                    w.append(c)
        return False
    r = [n for n in seen if again(n)]
    if not r:
        raise AnalysisError('no recursive function under %s' % top)
    return r[0]


def heads(f):
    """targets of back edges, in the function's block order"""
    color, out = {f.entry: 1}, []
    st = [(f.entry, iter(succs(f, f.entry)))]
    while st:
        b, it = st[-1]
        for c in it:
            if color.get(c) == 1:
                out.append(c)
            elif c not in color:
                color[c] = 1
                st.append((c, iter(succs(f, c))))
                break
        else:
            color[b] = 2
            st.pop()
    return out


def succs(f, b):
    t = f.blocks[b].term
    if t is None:
        return []
    if t.op == 'jmp':
        return [t.a[0]]
    if t.op == 'br':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [x for k, x in t.a[1]] + [t.a[2]]
    return []


def outer(f):
    """the loop head that every path from the entry reaches before any other loop: the tail-call label"""
    hs = set(heads(f))
    if not hs:
        return ()
    b, seen = f.entry, set()
    while b not in hs:
        if b in seen:
            return ()
        seen.add(b)
        s = set(succs(f, b))
        if len(s) != 1:
            return ()
        b = s.pop()
    return (b,)


def bname(base, off):
    return 'ld:%s%s' % (base, '[%s]' % shows(off) if off else '')


def addfacts(st, a, lo, hi):
    st.afact(atom(a), lo, hi)
    return atom(a)


class Ana:
    """one function analysed with the channel as a byte stream"""

    def __init__(s, P, F, fn):
        s.P, s.F, s.f = P, F, P.fns[fn]
        s.A = Arith(P, s.f, inputs=s.loads, noret=F, maxstates=20000)
        s.A.nonnull = {'v'} | {'v%d' % k for k in range(9)}
        s.A.lazy8, s.A.quietloops, s.A.cap = True, 2, 24
        s.A.restop = set(outer(s.f))
        s.A.oncall, s.A.onstore = s.oncall, s.onstore
        s.input = None          # reader: the bytes
        s.stoprec = False
        s.head = {}
        s.n = 0

    def params(s):
        ps = [(u, s.P.resolve(t)) for u, t in s.f.params]
        ch = [u for u, t in ps if 'struct channel' in t]
        va = [u for u, t in ps if u not in ch]
        if len(ch) != 1 or len(va) != 1:
            raise AnalysisError('%s: parameters not recognised' % s.f.name)
        return ch[0], va[0]

    def start(s, value, facts=None):
        st = State()
        if facts is not None:
            st.facts, st.ne, st.ids = dict(facts.facts), set(facts.ne), dict(facts.ids)
        c, v = s.params()
        st.v[c], st.v[v] = ('p', 'chan', ()), value
        base = 'out' if s.input is None else 'in'
        st.mem[('p', 'chan.curr', ())] = ('p', base, ())
        for k in ('max', 'end'):
            st.mem[('p', 'chan.' + k, ())] = ('p', base, const(FAR))
        return st

    def loads(s, a, st, e):
        if a[0] == 'p' and a[1] == 'in' and isconst(a[2]):
            k = cval(a[2])
            st.trace += (('in', k),)
            if s.input is None or k >= len(s.input):
                raise Mismatch('reads more bytes than were written')
            return s.input[k]
        return s.oload(a, st, e)

    def oload(s, a, st, e):
        return None

    def onstore(s, a, v, st, i, size):
        if a[0] != 'p':
            raise Giveup('store through an unknown address')
        if a[1] == 'out':
            if not isconst(a[2]):
                raise Giveup('output position')
            st.trace += (('byte', cval(a[2]), v, i.line),)
        elif not a[1].startswith('chan.'):
            st.trace += (('store', a, v, size, i.line),)

    def oncall(s, base, i, st):
        args = None
        f = s.P.fns.get(i.a[1]) if isinstance(i.a[1], str) else None
        if f is s.f:
            args = [s.A.ev(x, st) for x in i.a[2]]
            st.trace += (('rec', tuple(args), s.globs(st), i.line),)
            if s.stoprec:
                return 'stop'
            s.regl(st)
            return ('o', 'rec')
        if base in RAISES:
            return None
        if base in ('memcpy', 'bcopy', 'memmove'):
            args = [s.A.ev(x, st) for x in i.a[2]]
            if base == 'bcopy':
                args[0], args[1] = args[1], args[0]
            d, sr, n = args
            if d[0] == 'p' and sr[0] == 'p' and n[0] == 'z' and isconst(n[1]) and cval(n[1]) <= 8:
                for k in range(cval(n[1])):
                    st.mem[('p', d[1], padd(d[2], const(k)))] = s.byteof(st, sr, k)
                return ('o', 'copy')
        r = s.special(base, i, st)
        if r is not None:
            return r
        if f is not None and f.file != s.f.file and base not in INLINE and not s.F.is_noreturn(i, s.A.cur):
            return s.opq(i, base, st)
        return None

    def opq(s, i, base, st):
        s.n += 1
        if not i.a[0]:
            return ('o', base)
        ty = s.P.resolve(s.A.cur.vars[i.a[0]][1])
        if ty.endswith('*'):
            return ('p', 'call:%s:%d' % (base, s.n), ())
        w = s.A.wid(ty)
        if not w:
            return ('o', base)
        n, sg = w
        return ('z', addfacts(st, 'call:%s:%d' % (base, s.n), *((-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1))))

    def byteof(s, st, p, k):
        a = ('p', p[1], padd(p[2], const(k)))
        if a not in st.mem:
            st.mem[a] = ('z', addfacts(st, bname(a[1], a[2]), -128, 127))
        return st.mem[a]

    def globs(s, st):
        return {u: v for u, v in st.v.items() if '#g' in u}

    def regl(s, st):
        """a recursive call changes the file's globals"""
        s.n += 1
        for u in written(s.P, s.f):
            if u in st.v:
                v = st.v[u]
                if v[0] == 'p':
                    st.v[u] = ('p', '%s@%d' % (v[1], s.n), ())
                elif v[0] in 'zw':
                    st.v[u] = ('z', addfacts(st, 'g%d:%s' % (s.n, u), 0, (1 << 63) - 1))

    def special(s, base, i, st):
        return None


INLINE = ('string_length',)


class Mismatch(Exception):
    pass


# ---------------------------------------------------------------- compact format
class Writer(Ana):
    fresh = False       # the probe of the table of seen objects meets a free entry at once

    def oload(s, a, st, e):
        if a == ('p', 'v', const(-8)):
            return None
        if a[0] != 'p':
            return None
        if a[1] == 'v':
            t = s.A.ty(e)
            if s.A.wid(t) and s.A.wid(t)[0] == 8:
                if s.sz is not None and st.zero(padd(padd(a[2], pscale(s.sz, -8)), const(1))):
                    return ('z', addfacts(st, 'pad', 0, 7))
            if t == 'double':
                return ('d', ('in', 'dbl'))
            if s.A.wid(t) and s.A.wid(t)[0] == 64:
                return ('z', addfacts(st, 'field[%s]' % shows(a[2]), -(1 << 63), (1 << 63) - 1))
        if 'extern_table_size#g' in a[1]:
            return val(addfacts(st, 'g:' + a[1], 1, (1 << 58) - 1))
        if '#g:' in a[1]:
            t = s.A.ty(e)
            if t.endswith('*'):
                return None
            return ('z', addfacts(st, 'g:' + a[1], 0, (1 << 32) - 1))
        if a[1].endswith('.obj') and s.fresh:
            return val(())
        if a[1].endswith('.ofs'):
            n = 'ofs'
            p = addfacts(st, n, 0, (1 << 32) - 1)
            # the entries of the table are numbers of earlier objects
            st.afact(padd(atom('g:' + s.counter), p, -1), 1, None)
            return ('z', p)
        return None

    def special(s, base, i, st):
        if base == 'putblock':
            a = [s.A.ev(x, st) for x in i.a[2]]
            k = len([t for t in st.trace if t[0] == 'byte'])
            by = tuple(s.byteof(st, a[1], j) for j in range(8)) if a[2][0] == 'z' and isconst(a[2][1]) and cval(a[2][1]) == 8 and a[1][0] == 'p' else None
            st.trace += (('block', k, a[1], a[2], by, i.line),)
            return ('o', base)
        return None

    def outbytes(s, tr):
        b = [t for t in tr if t[0] == 'byte']
        if [t[1] for t in b] != list(range(len(b))):
            raise Mismatch('the bytes are not written in sequence')
        return [t[2] for t in b]

    def run(s, value, hd=None, sz=None, facts=()):
        st = s.start(value)
        s.sz = sz
        for a, lo, hi in facts:
            addfacts(st, a, lo, hi)
        if hd is not None:
            st.mem[('p', 'v', const(-8))] = ('z', hd)
        s.init = {u for u, v in st.v.items() if v == value}
        return s.A.run(st, s.f.entry)


def val(p):
    return ('z', p)


def isw(v, p, st):
    """equal as words of 64 bits"""
    return v is not None and v[0] == 'z' and any(st.zero(padd(padd(v[1], p, -1), const(k << 64))) for k in (-1, 0, 1))


def isz(v, p, st):
    return v is not None and v[0] == 'z' and st.zero(padd(v[1], p, -1))


class Top(Ana):
    """extern_compact_val / intern_compact_val: the header words and what the globals hold around the worker"""

    def __init__(s, P, F, fn, work):
        Ana.__init__(s, P, F, fn)
        s.work = work
        s.snap = []

    def oncall(s, base, i, st):
        f = s.P.fns.get(i.a[1]) if isinstance(i.a[1], str) else None
        if f is s.P.fns[s.work]:
            st.trace += (('work', s.globs(st), tuple(s.A.ev(x, st) for x in i.a[2]), dict(st.mem)),)
            for g in written(s.P, f):
                if g in s.gl:
                    st.v[g] = val(addfacts(st, 'G:' + g, 0, (1 << 63) - 1)) if not s.gl[g].endswith('*') else ('p', 'G:' + g, ())
            return ('o', 'work')
        return Ana.oncall(s, base, i, st)

    def special(s, base, i, st):
        if base == 'putword':
            st.trace += (('putword', s.A.ev(i.a[2][1], st), i.line),)
            return ('o', base)
        if base in ('alloc_shr', 'stat_alloc'):
            n = [t for t in st.trace if t[0] == base]
            st.trace += ((base, s.A.ev(i.a[2][0], st), i.line),)
            return ('p', {'alloc_shr': 'A', 'stat_alloc': 'T'}[base] + ('%d' % len(n) if n else ''), ())
        if base == 'getword':
            n = len([t for t in st.trace if t[0] == 'getword'])
            st.trace += (('getword', n, i.line),)
            return val(addfacts(st, 'w%d' % n, 0, (1 << 32) - 1))
        if base in ('pos_out', 'seek_out'):
            r = val(addfacts(st, 'pos%d' % len(st.trace), 0, 1 << 62)) if base == 'pos_out' else s.A.ev(i.a[2][1], st)
            st.trace += ((base, r, i.line),)
            return r
        return None

    def run(s):
        st = State()
        for u, t in s.f.params:
            st.v[u] = ('p', 'chan', ()) if 'struct channel' in s.P.resolve(t) else val(addfacts(st, 'v', -(1 << 63), (1 << 63) - 1))
        s.gl = s.globals()
        return s.A.run(st, s.f.entry)

    def globals(s):
        """the file's own static variables"""
        r = {}
        for f in s.P.fns.values():
            if f.file != s.f.file:
                continue
            for b in f.order():
                B = f.blocks[b]
                for x in list(B.ins) + ([B.term] if B.term is not None else []):
                    walk(x, r, s.P)
        me = '#g:' + os.path.basename(s.f.file)
        return {u: t for u, t in r.items() if u.endswith(me)}


def written(P, f, _c={}):
    """the global variables f, or a function of its file that it calls, assigns"""
    if f.key in _c:
        return _c[f.key]
    seen, work, r = {f.name}, [f], set()
    while work:
        g = work.pop()
        for b in g.order():
            for i in g.blocks[b].ins:
                if i.op == 'set' and i.a[0].kind == 'var' and '#g' in i.a[0].a[0]:
                    r.add(i.a[0].a[0])
        for c in callees(P, g):
            if P.fns[c].file == f.file and c not in seen:
                seen.add(c)
                work.append(P.fns[c])
    _c[f.key] = r
    return r


def walk(x, r, P):
    if isinstance(x, (list, tuple)):
        for y in x:
            walk(y, r, P)
        return
    if getattr(x, 'kind', None) == 'var' and '#g' in x.a[0]:
        r[x.a[0]] = P.resolve(x.ty)
    for y in getattr(x, 'a', None) or ():
        if not isinstance(y, (str, int, bytes)):
            walk(y, r, P)


class Reader(Ana):
    def __init__(s, P, F, fn, snap):
        Ana.__init__(s, P, F, fn)
        s.snap = snap

    def special(s, base, i, st):
        if base == 'really_getblock':
            a = [s.A.ev(x, st) for x in i.a[2]]
            n = len([t for t in st.trace if t[0] == 'get'])
            st.trace += (('get', len([t for t in st.trace if t[0] == 'in']), a[1], a[2], st.mem.get(('p', 'A', const(-8))), i.line),)
            if a[1][0] == 'p' and a[2][0] == 'z' and isconst(a[2][1]) and cval(a[2][1]) == 8:
                for k in range(8):
                    st.mem[('p', a[1][1], padd(a[1][2], const(k)))] = val(addfacts(st, 'blk%d[%d]' % (n, k), -128, 127))
            return val(addfacts(st, 'got%d' % n, 0, 1))
        if base == 'refill':
            raise Giveup('refill')
        return None

    def loads(s, a, st, e):
        if a[0] == 'p' and a[1] == 'in':
            m = st.mem.get(('p', 'A', const(-8)))
            r = Ana.loads(s, a, st, e)
            st.trace = st.trace[:-1] + (('in', cval(a[2]), m),)
            return r
        if a[0] == 'p' and a[1] == 'T' and a[2] and s.A.wid(s.A.ty(e)):
            st.trace += (('tabload', a[2], e.line),)
            return val(addfacts(st, 'shared', -(1 << 63), (1 << 63) - 1))
        return None

    def run(s, input, wst, first, nobj):
        s.input = input
        st = s.start(('p', 'dest', ()), wst)
        for u, v in s.snap.items():
            if v == ('p', 'A', const(-8)) and not first:
                v = ('p', 'A', padd(const(-8), pscale(addfacts(st, 'ip', 1, FAR), 8)))
            if v == val(()) and not first:
                v = val(addfacts(st, s.num, 1, (1 << 32) - 1))
            st.v[u] = v
        for u, t in s.gl.items():
            if u not in st.v and not t.endswith('*'):
                st.v[u] = val(addfacts(st, 'g:' + u, 0, (1 << 63) - 1))
        s.init = {u for u, v in st.v.items() if v == ('p', 'dest', ())}
        return s.A.run(st, s.f.entry)


class Compact:
    """writer paths against reader paths"""

    def __init__(s, P, F, R):
        s.P, s.F, s.R = P, F, R
        s.wtop = Top(P, F, 'extern_compact_val', worker(P, 'extern_compact_val'))
        s.rtop = Top(P, F, 'intern_compact_val', worker(P, 'intern_compact_val'))
        s.w = Writer(P, F, s.wtop.work)
        s.n = dict(writer_paths=0, reader_paths=0, obligations=0)

    def bad(s, f, line, rule, msg, key=None):
        s.R.add(f.file, line or f.line, f.name, rule, msg, key or '%s:%s:%s' % (f.name, rule, msg[:60]))

    def need(s, ok, f, line, rule, msg):
        s.n['obligations'] += 1
        if not ok:
            s.bad(f, line, rule, msg)
        return ok

    # -- the header words
    def tops(s):
        P = s.P
        f = s.wtop.f
        names = None
        rets = 0
        for k, i, st in s.wtop.run():
            tr = st.trace
            if k != 'ret':
                continue
            rets += 1
            wi = [j for j, t in enumerate(tr) if t[0] == 'work']
            pw = [(j, t) for j, t in enumerate(tr) if t[0] == 'putword']
            if len(wi) != 1:
                raise AnalysisError('extern_compact_val: the worker is called %d times' % len(wi))
            before = [t for j, t in pw if j < wi[0]]
            after = [t for j, t in pw if j > wi[0]]
            if len(before) != 4 or len(after) != 3:
                s.need(False, f, None, 'header', 'the file header has %d words before the value and %d filled in after it, not 4 and 3' % (len(before), len(after)))
                continue
            s.magic = before[0][1]
            g = tr[wi[0]][1]
            ns = []
            for t in after:
                v = t[1]
                a = v[1][0][0][0] if v[0] in 'zw' and len(v[1]) == 1 and v[1][0][1] == 1 and len(v[1][0][0]) == 1 else ''
                if not a.startswith('G:'):
                    s.need(False, f, t[2], 'header', 'a header word is not one of the counters kept while writing')
                    return
                ns.append(a[2:])
                s.need(g.get(a[2:]) == val(()), f, t[2], 'counter reset', 'the counter %s written to the header is not reset before the value is written' % a[2:].split('#')[0])
            if names is not None and names != ns:
                s.need(False, f, None, 'header', 'the header words differ between paths')
            names = ns
            for t in after[1:]:
                s.need(t[1][0] == 'z', f, t[2], 'header', 'the size written to the header can exceed the 32 bits it is given')
            pos = [(j, t) for j, t in enumerate(tr) if t[0] in ('pos_out', 'seek_out')]
            j4, jl = pw[3][0], pw[-1][0]
            j0 = pw[0][0]
            start = [t for j, t in pos if t[0] == 'pos_out' and j0 < j < pw[1][0]]
            end = [t for j, t in pos if t[0] == 'pos_out' and wi[0] < j < pw[4][0]]
            sk = [t for j, t in pos if t[0] == 'seek_out' and wi[0] < j < pw[4][0]]
            sk2 = [t for j, t in pos if t[0] == 'seek_out' and j > jl]
            s.need(len(start) == len(sk) == 1 and start[0][1] == sk[0][1], f, None, 'header', 'the counters are not written over the three words reserved for them')
            s.need(len(end) == len(sk2) == 1 and end[0][1] == sk2[0][1], f, None, 'header', 'the channel is not left at the end of the value')
        if not rets or names is None:
            raise AnalysisError('extern_compact_val: no analysed path')
        s.cnt, s.s32, s.s64 = names
        s.w.counter = s.cnt
        # reader
        f = s.rtop.f
        s.snap, s.stash, s.stashed = None, None, True
        n = 0
        for k, i, st in s.rtop.run():
            if k != 'ret':
                continue
            tr = st.trace
            wk = [t for t in tr if t[0] == 'work']
            if len(wk) != 1:
                raise AnalysisError('intern_compact_val: the worker is called %d times' % len(wk))
            al = [t for t in tr if t[0] == 'alloc_shr']
            ta = [t for t in tr if t[0] == 'stat_alloc']
            gw = [t for t in tr if t[0] == 'getword']
            s.need(len(gw) == 3, f, None, 'header', 'the reader takes %d header words, the writer writes 3' % len(gw))
            if not al:
                # no block: only when the announced size is 0
                s.need(st.bounds(atom('w2')) == (0, 0), f, None, 'header', 'no block is allocated although the announced size is not 0')
                continue
            n += 1
            s.need(isz(al[0][1], padd(atom('w2'), const(-1)), st), f, al[0][2], 'header', 'the block allocated is not the size_64 words that the writer counted')
            s.need(len(ta) == 1 and isz(ta[0][1], pscale(atom('w0'), 8), st), f, ta[0][2] if ta else None, 'header', 'the object table does not have one entry per object that the writer counted')
            s.snap = wk[0][1]
            fin = [t for t in tr[tr.index(wk[0]):] if t[0] == 'store' and t[1] == ('p', 'A', const(-8))]
            if fin:
                v = fin[-1][2]
                a = v[1][0][0][0] if v[0] == 'z' and len(v[1]) == 1 and len(v[1][0][0]) == 1 else ''
                s.stash = a[2:] if a.startswith('G:') else None
                s.need(s.stash is not None, f, fin[-1][4], 'header', 'the header stored over the block after reading is not the one the reader made')
            v = i
            s.need(v == val(atom('ld:' + wk[0][2][1][1])) if wk[0][2][1][0] == 'p' else False, f, None, 'result', 'the value returned is not the one the reader stored')
        if not n or s.snap is None:
            raise AnalysisError('intern_compact_val: no analysed path that allocates')
        cur = [u for u, v in s.snap.items() if v == ('p', 'A', const(-8))]
        tab = [u for u, v in s.snap.items() if v == ('p', 'T', ())]
        if not s.need(len(cur) >= 1 and len(tab) == 1, s.rtop.f, None, 'header', 'the reader does not start at the head of the new block with an empty object table'):
            return False
        s.cur = cur[0]
        zero = [u for u, v in s.snap.items() if v == val(())]
        col = [u for u, v in s.snap.items() if v[0] in 'zw' and v[1] and "ld:A[-8]" in repr(v[1]) and u not in zero and v[1] != atom('ld:A[-8]')]
        s.zero = zero
        if len(col) != 1:
            raise AnalysisError('intern_compact_val: colour variable not recognised')
        s.color = s.snap[col[0]][1]
        s.rd = Reader(s.P, s.F, s.rtop.work, s.snap)
        s.rd.gl = s.rtop.globals()
        s.rd.num = 'g:' + s.cnt         # both sides have counted the same objects
        return True

    # -- one class of value
    def both(s, what, ends, check, sz=None):
        w = s.w.f
        for k, i, wst in ends:
            s.n['writer_paths'] += 1
            if k == 'raise' and i != w.name:
                continue
            try:
                by = s.w.outbytes(wst.trace)
            except Mismatch as m:
                s.need(False, w, None, 'sequence', '%s: %s' % (what, m))
                continue
            for first in (False, True):
                if first and not any(t[0] == 'store' and t[1][1].endswith('.obj') for t in wst.trace):
                    continue
                s.rd.stoprec = s.w.stoprec
                try:
                    ends2 = s.rd.run(by, wst, first, 0)
                except Mismatch as m:
                    s.need(False, s.rd.f, None, 'decode', '%s: the reader %s' % (what, m))
                    continue
                ok = 0
                for k2, i2, rst in ends2:
                    s.n['reader_paths'] += 1
                    gots = [t for t in rst.trace if t[0] == 'get']
                    ins = [t for t in rst.trace if t[0] == 'in']
                    if first:
                        for t in gots + ins:
                            m = t[4] if t[0] == 'get' else t[2]
                            s.need(m is None or m == val(atom('ld:A[-8]')), s.rd.f, None, 'heap while reading', '%s: the header of the new block has been overwritten when a read can still raise: the collector would then walk unfilled words' % what)
                    if k2 == 'raise' and i2 != s.rd.f.name:
                        s.need(any(rst.bounds(atom('got%d' % j)) == (0, 0) for j in range(len(gots))), s.rd.f, None, 'decode', '%s: the reader can reject what the writer wrote' % what)
                        continue
                    if not s.need(all(rst.bounds(atom('got%d' % j)) == (1, 1) for j in range(len(gots))), s.rd.f, gots and gots[0][5], 'truncation', '%s: the result of really_getblock is not tested: a file that ends early yields a value' % what):
                        continue
                    ok += 1
                    if not s.need(len(ins) == len(by), s.rd.f, None, 'decode', '%s: the writer wrote %d code bytes and the reader takes %d' % (what, len(by), len(ins))):
                        continue
                    m = check(k, wst, k2, rst, by, first)
                    s.need(m is None, s.rd.f, None, 'agreement', '%s: %s' % (what, m))
                s.need(ok > 0, s.rd.f, None, 'decode', '%s: no path of the reader accepts the bytes written' % what)

    def dest(s, rst):
        v = [t for t in rst.trace if t[0] == 'store' and t[1] == ('p', 'dest', ())]
        return v[-1][2] if v else None

    def cint(s, k, wst, k2, rst, by, first):
        if k != 'ret' or k2 != 'ret':
            return 'a small value is not finished in one step'
        if not isz(s.dest(rst), padd(pscale(atom('n'), 2), const(1)), rst):
            return 'an integer is read back as a different value'
        if any(t[0] == 'store' and t[1] != ('p', 'dest', ()) for t in rst.trace):
            return 'reading an integer changes other memory'

    def catom(s, k, wst, k2, rst, by, first):
        d = s.dest(rst)
        if k != 'ret' or k2 != 'ret':
            return 'an atom is not finished in one step'
        if d is None or d[0] != 'p' or not d[1].startswith('first_atoms') or not rst.zero(padd(d[2], padd(pscale(atom('tag'), 8), const(8)), -1)):
            return 'an empty block is not read back as the atom with its tag'

    def start(s, first):
        return const(-8) if first else padd(const(-8), pscale(atom('ip'), 8))

    def regd(s, rst, sz, tag, g, first):
        """common to the kinds of object; sz, tag polys; g: the reader's globals when the object is set up"""
        ip = s.start(first)
        a = ('p', 'A', padd(ip, const(8)))
        cs = [u for u in s.zero if u in g and isz(g[u], padd((() if first else atom(s.rd.num)), const(1)), rst)]
        if not cs:
            return 'the object is not counted'
        x = [] if first else atom(s.rd.num)
        ts = [t for t in rst.trace if t[0] == 'store' and t[1][1] == 'T']
        if not any(rst.zero(padd(t[1][2], pscale(x, 8) if x else (), -1)) and t[2] == a for t in ts) or len(ts) != 1:
            return 'the object is not entered in the object table at the number the writer gave it'
        c = g.get(s.cur)
        if c is None or c[0] != 'p' or c[1] != 'A' or not rst.zero(padd(c[2], padd(padd(ip, pscale(sz, 8)), const(8)), -1)):
            return 'the place for the next object is not behind the header and the %s words of this one' % shows(sz)
        if first and s.stash:
            h = g.get(s.stash)
        else:
            h = [t[2] for t in rst.trace if t[0] == 'store' and t[1] == ('p', 'A', ip)]
            h = h[-1] if h else None
        if h is None or h[0] not in 'zw' or not rst.zero(padd(h[1], padd(padd(pscale(sz, 1024), tag), s.color), -1)):
            return 'the header made for the object does not have the size, tag and colour it should'
        return None

    def wreg(s, wst, g, d64, d32, what):
        f = s.w.f
        s.need(isz(g.get(s.cnt), padd(atom('g:' + s.cnt), const(1)), wst), f, None, 'counters', '%s: the writer does not count the object' % what)
        s.need(isz(g.get(s.s64), padd(atom('g:' + s.s64), d64), wst), f, None, 'counters', '%s: size_64 is not increased by the words the reader needs' % what)
        s.need(isz(g.get(s.s32), padd(atom('g:' + s.s32), d32), wst), f, None, 'counters', '%s: size_32 is not increased by the words a 32-bit reader needs' % what)
        fi = next((j for j, t in enumerate(wst.trace) if t[0] == 'rec'), len(wst.trace))
        st = [t for t in wst.trace[:fi] if t[0] == 'store' and t[1][1].endswith('.obj')]
        so = [t for t in wst.trace[:fi] if t[0] == 'store' and t[1][1].endswith('.ofs')]
        s.need(len(st) == 1 and st[0][2] == ('p', 'v', ()) and len(so) == 1 and isz(so[0][2], atom('g:' + s.cnt), wst) and st[0][1][2] == so[0][1][2],
               f, None, 'sharing', '%s: the object is not entered in the table of seen objects with its number before its contents' % what)

    def at(s, rst, k2, snap=False):
        """reader globals right after setting the object up"""
        r = [t for t in rst.trace if t[0] == 'rec']
        return r[0][2] if r else {u: v for u, v in rst.v.items() if '#g:' in u}

    def value(s, wst, off):
        """the value the writer loaded from the field at that offset"""
        return val(atom('field[%s]' % shows(const(off))))

    def cshared(s, k, wst, k2, rst, by, first):
        if k2 != 'ret':
            return 'a reference to an earlier object is not finished in one step'
        d = padd(atom('g:' + s.cnt), atom('ofs'), -1)
        t = [t for t in rst.trace if t[0] == 'tabload']
        xs = [u for u in s.zero if len(t) == 1 and rst.zero(padd(t[0][1], pscale(padd(atom(s.rd.num), d, -1), 8), -1))]
        if not xs or s.dest(rst) != val(atom('shared')):
            return 'a reference to an earlier object is not read as the object that many objects back'

    def cstring(s, k, wst, k2, rst, by, first):
        sz = atom('sz')
        ln = padd(padd(pscale(sz, 8), atom('pad'), -1), const(-1))
        b = [t for t in wst.trace if t[0] == 'block']
        if len(b) != 1 or b[0][1] != len(by) or b[0][2] != ('p', 'v', ()) or not isz(b[0][3], ln, wst):
            return 'the writer does not put the bytes of the string after its code'
        m = s.regd(rst, sz, const(STRING), s.at(rst, k2), first)
        if m:
            return m
        B = padd(s.start(first), const(8))
        g = [t for t in rst.trace if t[0] == 'get']
        if len(g) != 1 or g[0][1] != len(by) or g[0][2][0] != 'p' or g[0][2][1] != 'A' or not rst.zero(padd(g[0][2][2], B, -1)) or not isz(g[0][3], ln, rst):
            return 'the bytes of the string are not read into the new block, as many as were written'
        tr = rst.trace
        last = padd(B, padd(pscale(sz, 8), const(-8)))
        z = [j for j, t in enumerate(tr) if t[0] == 'store' and t[1][1] == 'A' and t[3] == 8 and t[2] == val(()) and rst.zero(padd(t[1][2], last, -1))]
        pd = [j for j, t in enumerate(tr) if t[0] == 'store' and t[1][1] == 'A' and t[3] == 1 and t[2][0] in 'zw' and rst.zero(padd(t[2][1], atom('pad'), -1)) and rst.zero(padd(t[1][2], padd(last, const(7)), -1))]
        ig = tr.index(g[0])
        if len(z) != 1 or len(pd) != 1 or not (z[0] < pd[0] and z[0] < ig):
            return 'the last word of the string is not cleared and then given its padding count'
        if s.dest(rst) != ('p', 'A', B):
            return 'the string is not what is stored for its code'

    def cdouble(s, k, wst, k2, rst, by, first):
        b = [t for t in wst.trace if t[0] == 'block']
        if len(b) != 1 or b[0][1] != len(by) or b[0][2][0] != 'p' or not isz(b[0][3], const(8), wst):
            return 'the writer does not put the 8 bytes of the real after its code'
        base = b[0][2][1]
        src = wst.v.get(base) if base != 'v' else ('d', ('in', 'dbl'))
        if src != ('d', ('in', 'dbl')) or b[0][4] is None:
            return 'what the writer puts is not the real'
        names = {atom(bname(base, const(j))): j for j in range(8)}
        wp = [names.get(x[1]) if x[0] in 'zw' else None for x in b[0][4]]
        m = s.regd(rst, const(1), const(DOUBLE), s.at(rst, k2), first)
        if m:
            return m
        B = padd(s.start(first), const(8))
        g = [t for t in rst.trace if t[0] == 'get']
        if len(g) != 1 or g[0][1] != len(by) or not isz(g[0][3], const(8), rst) or g[0][2][0] != 'p':
            return 'the 8 bytes of the real are not read'
        rp = []
        blk = {atom('blk0[%d]' % j): j for j in range(8)}
        for j in range(8):
            x = rst.mem.get(('p', 'A', padd(B, const(j))))
            rp.append(blk.get(x[1]) if x and x[0] in 'zw' else None)
        if None in wp or None in rp or [wp[j] for j in rp] != list(range(8)):
            return 'the bytes of a real do not come back in their places'
        if s.dest(rst) != ('p', 'A', B):
            return 'the real is not what is stored for its code'

    def cblock(s, sz, n):
        def check(k, wst, k2, rst, by, first):
            m = s.regd(rst, sz, atom('tag'), s.at(rst, k2), first)
            if m:
                return m
            B = padd(s.start(first), const(8))
            if s.dest(rst) != ('p', 'A', B) and k2 != 'raise':
                return 'the block is not what is stored for its code'
            wr = [t for t in wst.trace if t[0] == 'rec']
            rr = [t for t in rst.trace if t[0] == 'rec']
            di = [j for j, t in enumerate(rst.trace) if t[0] == 'store' and t[1] == ('p', 'dest', ())]
            if not di or (rr and di[0] > rst.trace.index(rr[0])):
                return 'the block is not stored before its contents are read'
            if n is None:
                return None
            wv = [[x for x in t[1] if x != ('p', 'chan', ())] for t in wr]
            rv = [[x for x in t[1] if x != ('p', 'chan', ())] for t in rr]
            if any(len(x) != 1 for x in wv + rv):
                return 'contents written or read on another channel'
            wv, rv = [x[0] for x in wv], [x[0] for x in rv]
            if k == 'again':
                c = [wst.v.get(u) for u in s.w.init]
                e = s.value(wst, 8 * len(wv))
                wv.append(e if e in c and e is not None else None)
            if k2 == 'again':
                c = [rst.v.get(u) for u in s.rd.init]
                e = ('p', 'A', padd(B, const(8 * len(rv))))
                rv.append(e if e in c else None)
            if wv != [s.value(wst, 8 * j) for j in range(n)] or None in wv:
                return 'the writer does not write the %d fields of a block in order' % n
            if rv != [('p', 'A', padd(B, const(8 * j))) for j in range(n)]:
                return 'the reader does not read %d fields in order into the block' % n
        return check

    def raises(s, what, ends, spec):
        """the writer refuses only what cannot be written"""
        for k, i, st in ends:
            if k == 'raise' and i != s.w.f.name:
                for alt in spec:
                    n = st.copy()
                    try:
                        for p, lo, hi in alt:
                            n.afact(p, lo, hi)
                    except Infeasible:
                        continue
                    s.need(False, s.w.f, None, 'refusal', '%s: the writer can refuse a value that has a representation' % what)

    def refuses(s, what, ends):
        for k, i, st in ends:
            s.need(k == 'raise' and i != s.w.f.name, s.w.f, None, 'refusal', '%s: must be refused, since it has no representation in the file' % what)

    V = ('p', 'v', ())
    COL, SZ, OTHERS = ('col', 0, 3), ('sz', 1, (1 << 54) - 1), [('tag', 0, 248), ('tag', 250, 250)]

    def hd(s, z, t):
        return padd(padd(pscale(z, 1024), pscale(atom('col'), 256)), t)

    def ints(s):
        e = s.w.run(val(padd(pscale(atom('n'), 2), const(1))), facts=[('n', arith.MINL, arith.MAXL)])
        s.raises('integer', e, [[]])
        s.both('integer', e, s.cint)

    def empty(s):
        e = s.w.run(s.V, s.hd((), atom('tag')), (), [s.COL, ('tag', 0, 255)])
        s.raises('empty block', e, [[]])
        s.both('empty block', e, s.catom)

    def strings(s):
        w, sz = s.w, atom('sz')
        e = w.run(s.V, s.hd(sz, const(STRING)), sz, [s.COL, s.SZ])
        new, old = s.split(e)
        s.raises('string', e, [[(padd(pscale(sz, 8), const(-1)), None, (1 << 32) - 1)]])
        s.both('string', new, s.cstring)
        for k, i, st in new:
            if k != 'raise':
                s.need(st.bounds(padd(pscale(sz, 8), padd(atom('pad'), const(1)), -1))[1] is not None and st.bounds(padd(padd(pscale(sz, 8), atom('pad'), -1), const(-1)))[1] < 1 << 32,
                       w.f, None, 'width', 'a string of 2^32 bytes or more is written with a length cut to 32 bits')
                n32 = w.A.floordiv(padd(padd(pscale(sz, 8), atom('pad'), -1), const(3)), 4, st)[0]
                s.wreg(st, w.globs(st), padd(sz, const(1)), padd(n32, const(1)), 'string')
        # shared objects: any kind
        s.both('shared object', old, s.cshared)
        s.need(bool(old), w.f, None, 'sharing', 'no path of the writer refers back to an object already written')

    def reals(s):
        w = s.w
        w.fresh = True
        e = w.run(s.V, s.hd(const(1), const(DOUBLE)), const(1), [s.COL])
        new, old = s.split(e)
        s.raises('real', e, [[]])
        s.both('real', new, s.cdouble)
        for k, i, st in new:
            s.wreg(st, w.globs(st), const(2), const(3), 'real')

    def refused(s):
        w = s.w
        w.fresh = w.stoprec = True
        for n, t in (('closure', CLOSURE), ('weak array', WEAK), ('abstract value', ABSTRACT), ('finalised value', FINAL)):
            e = w.run(s.V, s.hd(atom('sz'), const(t)), atom('sz'), [s.COL, s.SZ])
            if not e:
                raise AnalysisError('emit_compact: no path for a %s' % n)
            s.refuses(n, [x for x in e if x[0] != 'ret' or any(t[0] == 'store' for t in x[2].trace)])
        w.stoprec = False

    def blocks(s):
        """of any size, up to the first field"""
        w, sz = s.w, atom('sz')
        w.fresh = w.stoprec = True
        for tg in s.OTHERS:
            e = w.run(s.V, s.hd(sz, atom('tag')), sz, [s.COL, s.SZ, tg])
            new, old = s.split(e)
            s.raises('block', e, [[(sz, None, (1 << 22) - 1)]])
            s.both('block', new, s.cblock(sz, None))
            for k, i, st in new:
                if k == 'raise' and i != w.f.name:
                    continue
                s.need(st.bounds(sz)[1] < 1 << 22, w.f, None, 'width', 'a block of 2^22 fields or more is written with a size cut to 22 bits')
                g = next((t[2] for t in st.trace if t[0] == 'rec'), w.globs(st))
                s.wreg(st, g, padd(sz, const(1)), padd(sz, const(1)), 'block')
        w.stoprec = False

    def small(s):
        s.w.fresh = True
        for n in (1, 2, 3, 7, 8, 9):
            e = s.w.run(s.V, s.hd(const(n), atom('tag')), const(n), [s.COL, s.OTHERS[0]])
            new, old = s.split(e)
            s.both('block of %d fields' % n, new, s.cblock(const(n), n))

    def run(s, undecided):
        if not s.tops():
            return
        for n in ('ints', 'empty', 'strings', 'reals', 'refused', 'blocks', 'small'):
            s.w.fresh = s.w.stoprec = s.rd.stoprec = False
            try:
                getattr(s, n)()
            except Giveup as e:
                undecided.append('compact format, %s: %s' % (n, e))
        s.w.fresh = s.w.stoprec = s.rd.stoprec = False

    def split(s, ends):
        new, old = [], []
        for x in ends:
            if x[0] == 'raise' and x[1] != s.w.f.name:
                new.append(x)
            elif any(t[0] == 'store' and t[1][1].endswith('.obj') for t in x[2].trace):
                new.append(x)
            else:
                old.append(x)
        return [x for x in new], old


# ---------------------------------------------------------------- plain format
class Flat(Ana):
    """a function over word arrays: memory is a map from (base, offset) to values of known size"""

    def __init__(s, P, F, fn, stop=True):
        Ana.__init__(s, P, F, fn)
        if not stop:
            s.A.restop = set()
            s.A.quietloops = False
            s.A.cap = 40
        s.words = {}        # (base, offset poly) -> value, initial contents
        s.events = {}       # callee -> function(args, st, line) -> value

    def key(s, a, size):
        return ('m', a[1], a[2], size)

    def loads(s, a, st, e):
        if a[0] != 'p':
            raise Giveup('load through an unknown address')
        t = s.A.ty(e)
        w = s.A.wid(t)
        n = w[0] // 8 if w else 8
        if t == 'double':
            n = 8
        k = s.key(a, n)
        if k in st.mem:
            return st.mem[k]
        r = s.word(st, a, n)
        if r is not None and w and n < 8:
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if w[1] else (0, (1 << 8 * n) - 1)
            b = st.bounds(r[1]) if r[0] == 'z' else (None, None)
            if r[0] == 'z' and (b[0] is None or b[1] is None or b[0] < lo or b[1] > hi):
                # the same bytes seen with the other sign
                c = arith.cases(st, padd(r[1], const(hi + 1), -1), '<') if w[1] else arith.cases(st, r[1], '>=')
                if c is True:
                    return r
                if c is False:
                    return val(padd(r[1], const((1 << 8 * n) * (-1 if w[1] else 1))))
                raise Fork(c[0] + c[1])
        return r

    def word(s, st, a, n):
        # bytes stored separately
        if n in (4, 8):
            by = [st.mem.get(('m', a[1], padd(a[2], const(j)), 1)) for j in range(n)]
            if any(b is not None for b in by):
                names = {atom(s.bn(a, j)): j for j in range(n)}
                perm = [names.get(b[1]) if b is not None and b[0] in 'zw' else (j if b is None else None) for j, b in enumerate(by)]
                return s.permuted(st, a, n, perm)
        for (b, off, m), v in s.words.items():
            if b == a[1] and m == n and st.zero(padd(off, a[2], -1)):
                return v
        if n == 1 and any(b == a[1] for b, off, m in s.words):
            return val(addfacts(st, s.bn(a, 0), -128, 127))
        return None

    def bn(s, a, j):
        return bname(a[1], padd(a[2], const(j)))

    def permuted(s, st, a, n, perm):
        raise Giveup('bytes')

    def onstore(s, a, v, st, i, size):
        if a[0] != 'p':
            raise Giveup('store through an unknown address')
        st.mem[s.key(a, size)] = v
        st.trace += (('store', a, v, size, i.line),)
        return True

    def oncall(s, base, i, st):
        if base in ('bcopy', 'memcpy', 'memmove'):
            return s.special(base, i, st)
        return Ana.oncall(s, base, i, st)

    def special(s, base, i, st):
        h = s.events.get(base)
        if h:
            return h([s.A.ev(x, st) for x in i.a[2]], st, i)
        if base in ('bcopy', 'memcpy', 'memmove'):
            a = [s.A.ev(x, st) for x in i.a[2]]
            if base == 'bcopy':
                a[0], a[1] = a[1], a[0]
            st.trace += (('copy', a[0], a[1], a[2], i.line),)
            return a[0]
        return None

    def go(s, vals, facts=(), names=None):
        st = State()
        for a, lo, hi in facts:
            addfacts(st, a, lo, hi)
        for (u, t), v in zip(s.f.params, vals):
            st.v[u] = v
        return st

    def stored(s, st, a, size):
        """value last stored at an address"""
        for t in reversed(st.trace):
            if t[0] == 'store' and t[3] == size and t[1][1] == a[1] and st.zero(padd(t[1][2], a[2], -1)):
                return t[2]
        return None


def glob(P, name):
    """the key of a global variable"""
    r = {}
    for f in P.fns.values():
        if os.path.basename(f.file) in ('extern.c',):
            for b in f.order():
                B = f.blocks[b]
                for x in list(B.ins) + ([B.term] if B.term is not None else []):
                    walk(x, r, P)
    k = [u for u in r if u.split('#')[0] == name]
    if len(k) != 1:
        raise AnalysisError('global %s not found' % name)
    return k[0], r


class Plain:
    def __init__(s, P, F, R, counter='obj_counter#g:externcp.c'):
        s.counter = counter
        s.P, s.F, s.R = P, F, R
        s.n = dict(plain_paths=0, obligations=0)
        for n in ('emit', 'emit_all', 'extern_val', 'adjust_pointers', 'rev_pointers', 'rev_pointers_32', 'size_after_expansion', 'expand_block', 'intern_fast_val', 'intern_val'):
            if n not in P.fns:
                raise AnalysisError('function %s not found' % n)
        s.gpos, s.gty = glob(P, 'extern_pos')
        s.gblk, t = glob(P, 'extern_block')
        s.gsize, t = glob(P, 'extern_size')

    def need(s, ok, f, line, rule, msg):
        s.n['obligations'] += 1
        if not ok:
            s.R.add(f.file, line or f.line, f.name, rule, msg, '%s:%s:%s' % (f.name, rule, msg[:60]))
        return ok

    # -- emit: one object copied
    def emit(s):
        f = s.P.fns['emit']
        POS = atom('POS')

        class W(Flat):
            fresh = True

            def loads(w, a, st, e):
                if a[1].startswith('v') and a[1] == 'v':
                    t = w.A.ty(e)
                    n = w.A.wid(t)
                    if n and n[0] == 8 and a[2] == const(-8):
                        return val(atom('tag'))
                    if a[2] == const(-8):
                        return val(w.hd)
                    lo, hi = (-(1 << 63), -1) if isconst(a[2]) and cval(a[2]) % 16 else (0, (1 << 63) - 1)
                    return val(addfacts(st, 'field[%s]' % shows(a[2]), lo, hi))
                if a[1].endswith('.obj'):
                    return val(()) if w.fresh else None
                if a[1].endswith('.ofs'):
                    return val(addfacts(st, 'ofs', 0, (1 << 63) - 1))
                if a[1] == s.gpos:
                    return val(addfacts(st, 'POS', 0, (1 << 56)))
                if a[1] == s.gblk:
                    return ('p', 'B', ())
                if '#g' in a[1] and not w.A.ty(e).endswith('*'):
                    return val(addfacts(st, 'g:' + a[1], 1 if 'table_size' in a[1] else 0, (1 << 58) - 1))
                return None

            def special(w, base, i, st):
                if base in ('stat_resize', 'realloc'):
                    if st.trace[-1:] != (('resize',),):
                        st.trace += (('resize',),)
                    return ('p', 'B%d' % len(st.trace), ())
                return Flat.special(w, base, i, st)

            def oncall(w, base, i, st):
                f = s.P.fns.get(i.a[1]) if isinstance(i.a[1], str) else None
                if f is not None and f.file == w.f.file and written(s.P, f) and grows(s.P, f) and loops(s.P, f):
                    # a function that makes the image or the table larger
                    st.trace += (('resize',),)
                    for u in sorted(written(s.P, f)):
                        k = '%s@%d' % (u, len(st.trace))
                        st.v[u] = ('p', 'B%d' % len(st.trace) if u == s.gblk else k, ()) if s.gty[u].endswith('*') else val(addfacts(st, k, 1 << 57, (1 << 58) - 1))
                    return ('o', base)
                return Flat.oncall(w, base, i, st)
        V = ('p', 'v', ())

        def run(value, sz, fresh=True, tag=(0, 255)):
            w = W(s.P, s.F, 'emit')
            w.fresh = fresh
            w.A.restop = set() if fresh else set(heads(w.f))
            st = w.go([value], [('n', arith.MINL, arith.MAXL), ('tag',) + tag, ('col', 0, 3), ('sz', 1, (1 << 54) - 1)])
            w.hd = padd(padd(pscale(sz, 1024), pscale(atom('col'), 256)), atom('tag')) if sz is not None else None
            out = []
            for k, i, st in w.A.run(st, w.f.entry):
                if k == 'ret' or k == 'again' and stores(st):
                    s.n['plain_paths'] += 1
                    out.append((i if k == 'ret' else None, st, w))
            if not out:
                raise AnalysisError('emit: no path returns')
            return out
        x = padd(pscale(atom('n'), 2), const(1))
        for r, st, w in run(val(x), None):
            s.need(isw(r, x, st) and not stores(st), f, None, 'word', 'an integer is not written as itself')
        for r, st, w in run(V, ()):
            s.need(isz(r, padd(pscale(atom('tag'), 4), const(2)), st) and not stores(st), f, None, 'word', 'an empty block is not written as 4 * tag + 2')
        seen = 0
        for n in (None, 1, 2, 3, 8):
            sz = atom('sz') if n is None else const(n)
            for r, st, w in run(V, sz, n is not None):
                if isz(r, atom('ofs'), st) and not stores(st):
                    seen += 1
                    continue
                res = pscale(padd(POS, const(1)), 8)
                if r is None and not any(t[0] == 'store' and t[1][1].endswith('.obj') for t in st.trace):
                    continue
                s.need(r is None or isz(r, res, st), f, None, 'word', 'a block is not written as its byte offset in the file image')
                b = st.v.get(s.gblk, ('p', 'B', ()))[1]
                h = w.stored(st, ('p', b, pscale(POS, 8)), 8)
                s.need(h is not None and h[0] == 'z' and any(st.zero(padd(padd(h[1], padd(pscale(sz, 1024), atom('tag')), -1), const(c), -1)) for c in (0, 256, 512, 768)), f, None, 'header', 'the header written does not have the size and tag of the block')
                s.need(r is None or isz(st.v.get(s.gpos), padd(padd(POS, sz), const(1)), st), f, None, 'position', 'the image does not grow by the header and the fields of the block')
                if r is not None:
                    z = st.v.get(s.gsize) or val(atom('g:' + s.gsize))
                    lo = st.bounds(padd(padd(padd(z[1], POS, -1), sz, -1), const(-1)))[0]
                    s.need(lo is not None and lo >= 0, f, None, 'room', 'the image is not made large enough for the block copied into it')
                o = [t for t in st.trace if t[0] == 'store' and t[1][1].endswith('.obj')]
                q = [t for t in st.trace if t[0] == 'store' and t[1][1].endswith('.ofs')]
                s.need(len(o) == 1 and o[0][2] == V and len(q) == 1 and isz(q[0][2], res, st) and o[0][1][2] == q[0][1][2], f, None, 'sharing', 'the block is not entered in the table of seen objects with its offset')
                cp = [t for t in st.trace if t[0] == 'copy']
                if n is not None and len(cp) == 1 and cp[0][1] == ('p', b, padd(pscale(POS, 8), const(8))) and cp[0][2] == V and isz(cp[0][3], const(8 * n), st):
                    pass
                elif n is not None:
                    for j in range(n):
                        c = w.stored(st, ('p', b, pscale(padd(POS, const(1 + j)), 8)), 8)
                        s.need(isw(c, atom('field[%s]' % shows(const(8 * j))), st), f, None, 'fields', 'a block of %d fields: field %d is not copied into the image' % (n, j))
                if n is not None:
                    oth = [t for t in st.trace if t[0] == 'store' and t[1][1][:1] == 'B' and t[1][1] != b]
                    s.need(not oth, f, None, 'fields', 'the image is written at its old place after it has been moved')
        s.need(seen > 0, f, None, 'sharing', 'no path returns the offset of an object already written')

    # -- the table of seen objects
    def table(s):
        tsize, ttab, tused = glob(s.P, 'extern_table_size')[0], glob(s.P, 'extern_table')[0], glob(s.P, 'extern_table_used')[0]
        V = ('p', 'v', ())
        fs = sorted({f.name: f for f in s.P.fns.values() if os.path.basename(f.file) == 'extern.c' and ttab in written(s.P, f) and grows(s.P, f) and s.gblk not in written(s.P, f)}.items())

        def tabload(st, a, last):
            """the old table holds v in its last entry; the new one what has been stored"""
            if a[0] == 'p' and a[1] == 'O.obj':
                return V if last is not None and a[2] == const(16 * last) else val(())
            if a[0] == 'p' and a[1] == 'O.ofs':
                return val(atom('ofs')) if last is not None and a[2] == const(16 * last) else val(addfacts(st, 'junk', 0, 1 << 60))
            if a[0] == 'p' and a[1] == 'N.obj':
                for t in reversed(st.trace):
                    if t[0] == 'store' and t[1][1] == 'N.obj' and st.zero(padd(t[1][2], a[2], -1)):
                        return t[2]
                n = len({cval(t[1][2]) for t in st.trace if t[0] == 'store' and t[1][1] == 'N.obj' and t[2] == val(()) and isconst(t[1][2])})
                if (last is not None or not isconst(a[2])) and n <= (last or 0):
                    raise Mismatch('looks at entries of the new table before all of them are cleared')
                return val(())
            return None

        def tabcall(w, base, i, st):
            if base in ('stat_alloc', 'malloc', 'stat_resize', 'realloc'):
                st.trace += (('alloc', w.A.ev(i.a[2][-1], st), i.line),)
                return ('p', 'N', ())
            return None
        slots = {}
        names = {n for n, f in fs}
        moved = 0
        for name, f in fs:
            for N in (3, 6):
                class W(Flat):
                    def loads(w, a, st, e):
                        r = tabload(st, a, N - 1)
                        return r if r is not None else Flat.loads(w, a, st, e)

                    def special(w, base, i, st):
                        r = tabcall(w, base, i, st)
                        return r if r is not None else Flat.special(w, base, i, st)
                w = W(s.P, s.F, name, False)
                w.A.cap = 60
                st = w.go([], [('ofs', 0, 1 << 60)])
                st.v[tsize], st.v[ttab] = val(const(N)), ('p', 'O', ())
                try:
                    ends = w.A.run(st, w.f.entry)
                except Mismatch as m:
                    s.need(False, f, None, 'table', str(m))
                    continue
                rets = 0
                for k, i, st in ends:
                    if k != 'ret':
                        continue
                    s.n['plain_paths'] += 1
                    rets += 1
                    n = cval(st.v[tsize][1])
                    al = [t for t in st.trace if t[0] == 'alloc']
                    s.need(len(al) == 1 and isz(al[0][1], const(16 * n), st) and st.v.get(ttab) == ('p', 'N', ()), f, None, 'table', 'the table of seen objects does not get room for the entries its size says')
                    z = {cval(t[1][2]) for t in st.trace if t[0] == 'store' and t[1][1] == 'N.obj' and isconst(t[1][2]) and t[2] == val(())}
                    s.need(z >= {16 * j for j in range(n)}, f, None, 'table', 'an entry of the new table of seen objects is not cleared')
                    if n != N:
                        moved += 1
                        s.need(n > N, f, None, 'table', 'the table of seen objects does not become larger')
                        o = [t for t in st.trace if t[0] == 'store' and t[1][1] == 'N.obj' and t[2] == V]
                        q = [t for t in st.trace if t[0] == 'store' and t[1][1] == 'N.ofs' and t[2] == val(atom('ofs'))]
                        if s.need(len(o) == 1 and len(q) == 1 and o[0][1][2] == q[0][1][2], f, None, 'sharing', 'an object already written is not in the larger table with its offset or number'):
                            slots.setdefault(n, set()).add(o[0][1][2])
                s.need(rets > 0, f, None, 'table', 'no path makes a table')
        if not moved:
            raise AnalysisError('extern.c: no function moves the table of seen objects to a larger one')
        # the same place is looked at first, before and after the table grows, and it never fills up
        HD = val(const(1024 + DOUBLE + 768))
        for f, mk in ((s.P.fns['emit'], 0), (s.P.fns[worker(s.P, 'extern_compact_val')], 1)):
            class X(Writer if mk else Flat):
                def loads(w, a, st, e):
                    r = tabload(st, a, None)
                    if r is not None:
                        return r
                    if a[0] == 'p' and a[1][:1] == 'v' and a[2] == const(-8):
                        n = w.A.wid(w.A.ty(e))
                        return val(const(DOUBLE)) if n and n[0] == 8 else HD
                    if a[1] == s.gpos:
                        return val(addfacts(st, 'POS', 0, 1 << 56))
                    if a[0] == 'p' and a[1][:1] == 'v' and mk and w.A.ty(e) == 'double':
                        return ('d', ('in', 'dbl'))
                    return super().loads(a, st, e) if mk else None

                def special(w, base, i, st):
                    r = tabcall(w, base, i, st)
                    return r if r is not None else super().special(base, i, st)

                def oncall(w, base, i, st):
                    if base in names:
                        return None
                    return super().oncall(base, i, st)
            w = X(s.P, s.F, f.name)
            w.A.quietloops = 30
            w.A.cap = 90
            if mk:
                w.fresh = True
                w.counter, w.sz, w.init = s.counter, const(1), set()
                st = w.start(V)
                st.v[s.counter] = val(())
            else:
                w.A.restop = set()
                st = w.go([V])
                st.v[s.gblk], st.v[s.gsize] = ('p', 'B', ()), val(const(1 << 60))
                st.v[tused] = val(())
            st.v[tsize], st.v[ttab] = val(const(6)), ('p', 'O', ())
            vp = [u for u, v in st.v.items() if v == V]
            try:
                for j in range(6):
                    Vj = ('p', 'v%d' % j, ())
                    for u in vp:
                        st.v[u] = Vj
                    st.visits = {}
                    nxt = None
                    for k, i, t in w.A.run(st, w.f.entry):
                        o = [x for x in t.trace if x[0] == 'store' and x[1][1].endswith('.obj') and x[2] == Vj]
                        if k != 'ret' or not o:
                            continue
                        s.n['plain_paths'] += 1
                        nxt = nxt or t
                        N = cval(t.v[tsize][1])
                        want = {repr(x).replace('v+0', 'v%d+0' % j) for x in slots.get(N, ())}
                        s.need(N not in slots or all(repr(x[1][2]) in want for x in o), f, None, 'sharing', 'an object is not looked for and entered where the table, when it has grown, has it')
                        s.need(N > j + 1, f, None, 'table', 'the table of seen objects can become full, so that the search does not end')
                    if nxt is None:
                        s.need(False, f, None, 'sharing', 'no path enters a new object in the table of seen objects')
                        break
                    st = nxt
            except Mismatch as m:
                s.need(False, f, None, 'table', str(m))

    # -- emit_all: one object's fields
    def emit_all(s):
        f = s.P.fns['emit_all']
        POS = atom('POS')
        res = {}
        for lo, hi, what in ((0, 248, 'block'), (CLOSURE, CLOSURE, 'closure'), (250, 250, 'block'), (WEAK, WEAK, 'weak array'), (ABSTRACT, ABSTRACT, 'abstract value'), (STRING, STRING, 'string'), (DOUBLE, DOUBLE, 'real'), (FINAL, FINAL, 'finalised value')):
            for n in (1, 2, 3):
                class W(Flat):
                    cnt = 0

                    def loads(w, a, st, e):
                        if a[1] == s.gpos:
                            return val(addfacts(st, 'POS', 0, 1 << 56))
                        if a[1] == s.gblk:
                            return ('p', 'B', ())
                        if a[1][:1] == 'B' and (a[1] == 'B' or a[1][1:].isdigit()):
                            if not any(t[0] == 'emit' for t in st.trace):
                                raise Mismatch('the image is read before the root is entered')
                            if st.zero(padd(a[2], pscale(POS, 8), -1)):
                                return val(padd(padd(const(1024 * n), atom('tag')), const(768)))
                            for j in range(n):
                                if st.zero(padd(a[2], pscale(padd(POS, const(1 + j)), 8), -1)):
                                    return val(addfacts(st, 'w[%d]' % j, -(1 << 63), (1 << 63) - 1))
                        return None

                    def special(w, base, i, st):
                        if base == 'emit':
                            k = len([t for t in st.trace if t[0] == 'emit'])
                            st.trace += (('emit', w.A.ev(i.a[2][0], st), i.line),)
                            # the image may grow and move
                            st.v[s.gblk] = ('p', 'B%d' % (k + 1), ())
                            if k == 0:
                                st.v[s.gpos] = val(padd(POS, const(1 + n)))
                            return val(addfacts(st, 'e%d' % k, 0, (1 << 63) - 1))
                        return Flat.special(w, base, i, st)
                w = W(s.P, s.F, 'emit_all')
                w.A.restop = set(outer1(w.f, 'emit'))
                st = w.go([('z', atom('root'))], [('tag', lo, hi), ('root', -(1 << 63), (1 << 63) - 1)])
                try:
                    ends = w.A.run(st, w.f.entry)
                except Mismatch as m:
                    s.need(False, f, None, 'traversal', str(m))
                    continue
                good = 0
                for k, i, st in ends:
                    s.n['plain_paths'] += 1
                    if k == 'raise':
                        s.need(what not in ('block', 'string', 'real'), f, None, 'refusal', 'a %s is refused' % what)
                        good += 1
                        continue
                    if k == 'ret':
                        if any(t[0] == 'emit' for t in st.trace):
                            s.need(isz(i, atom('e0'), st), f, None, 'result', 'what is returned is not the word of the root')
                        if not w.A.restop:
                            good += 1
                        elif not stores(st) and len([t for t in st.trace if t[0] == 'emit']) == 1:
                            continue
                    good += 1
                    if what not in ('block', 'string', 'real'):
                        s.need(False, f, None, 'refusal', 'a %s is written although it has no representation in the file' % what)
                        continue
                    em = [t for t in st.trace if t[0] == 'emit']
                    s.need(em and em[0][1] == val(atom('root')), f, None, 'traversal', 'the root is not entered first')
                    if what == 'block':
                        s.need([t[1] for t in em[1:]] == [val(atom('w[%d]' % j)) for j in range(n)], f, None, 'traversal', 'the %d fields of a block are not entered in order' % n)
                        for j in range(n):
                            c = [t for t in st.trace if t[0] == 'store' and st.zero(padd(t[1][2], pscale(padd(POS, const(1 + j)), 8), -1))]
                            s.need(len(c) == 1 and c[0][2] == val(atom('e%d' % (j + 1))) and c[0][1][1] == 'B%d' % (j + 2), f, None, 'traversal', 'field %d of a block is not replaced, in the present image, by the word emit returned for it' % j)
                    else:
                        s.need(len(em) == 1 and not stores(st), f, None, 'traversal', 'the bytes of a %s are changed in the image' % what)
                    e = padd(POS, const(1 + n))
                    c = [u for u, v in st.v.items() if '#l' in u and v[0] == 'z' and st.zero(padd(v[1], e, -1))]
                    s.need(k == 'ret' or bool(c), f, None, 'traversal', 'a %s: the scan does not go on behind its %d words' % (what, n))
                s.need(good > 0, f, None, 'traversal', 'no path scans a %s' % what)

    # -- adjust_pointers: one object relocated
    def classes(s, n, rot):
        """word classes of the fields: (file word, decoded value)"""
        out = []
        for j in range(n):
            k = (j + rot) % 3
            if k == 0:
                x = padd(pscale(atom('n%d' % j), 2), const(1))
                out.append((x, val(x)))
            elif k == 1:
                t = atom('t%d' % j)
                out.append((padd(pscale(t, 4), const(2)), ('p', 'first_atoms#g', padd(pscale(t, 8), const(8)))))
            else:
                o = pscale(atom('o%d' % j), 8)
                out.append((o, ('p', 'S', o)))
        return out

    def cfacts(s, n, big=61):
        r = []
        for j in range(n):
            r += [('n%d' % j, -(1 << big), (1 << big) - 1), ('t%d' % j, 0, 255), ('o%d' % j, 1, 1 << (big - 8))]
        return r

    def adjust(s, fn='adjust_pointers'):
        f = s.P.fns[fn]
        color = pscale(atom('col'), 256)
        for lo, hi, conv in ((0, 248, True), (250, 250, True), (STRING, DOUBLE, False)):
            for n in (1, 2, 3, 4):
                for rot in ((0, 1, 2) if conv and n > 1 else (0,) if not conv else (0, 1, 2)):
                    w = Flat(s.P, s.F, fn, False)
                    cl = s.classes(n, rot)
                    w.words = {('S', const(0), 8): val(padd(padd(const(1024 * n), atom('tag')), const(768)))}
                    for j, (x, y) in enumerate(cl):
                        w.words[('S', const(8 + 8 * j), 8)] = val(x)
                    st = w.go([('p', 'S', ()), val(const(n + 1)), val(color)], s.cfacts(n) + [('tag', lo, hi), ('col', 0, 3)])
                    rets = 0
                    for k, i, st in w.A.run(st, w.f.entry):
                        s.n['plain_paths'] += 1
                        if k != 'ret':
                            continue
                        rets += 1
                        h = w.stored(st, ('p', 'S', ()), 8)
                        s.need(isz(h, padd(padd(const(1024 * n), atom('tag')), color), st), f, None, 'relocation', 'the header of a block does not keep its size and tag and get the colour')
                        for j, (x, y) in enumerate(cl):
                            v = w.stored(st, ('p', 'S', const(8 + 8 * j)), 8)
                            v = val(x) if v is None else v
                            kind = ('integer', 'empty block', 'block')[(j + rot) % 3]
                            if conv:
                                s.need(same(st, v, y), f, None, 'relocation', 'the word emit makes for %s %s is not turned back into it' % ('an' if kind[0] in 'ie' else 'a', kind))
                            else:
                                s.need(same(st, v, val(x)), f, None, 'relocation', 'the bytes of a string or real are changed')
                    s.need(rets > 0, f, None, 'relocation', 'no path relocates a block of %d words' % n)

    # -- byte order
    def rev(s, fn, size):
        f = s.P.fns[fn]

        class W(Flat):
            def permuted(w, st, a, n, perm):
                if n == size and perm == list(range(n))[::-1]:
                    for (b, off, m), v in w.words.items():
                        if b == a[1] and m == n and off == a[2]:
                            return v
                raise Mismatch('takes for a header what is not one in the other byte order')
        for lo, hi, what in ((0, 248, 'block'), (250, 250, 'block'), (STRING, STRING, 'string'), (DOUBLE, DOUBLE, 'real')):
            for n in (1, 2, 3) if what != 'real' else (8 // size,):
                w = W(s.P, s.F, fn, False)
                w.words = {('S', (), size): val(padd(padd(const(1024 * n), atom('tag')), const(768))),
                           ('S', const(size * (n + 1)), size): val(padd(padd(const(1024 * 1), const(STRING)), const(768)))}
                st = w.go([('p', 'S', ()), val(const(n + 3))], [('tag', lo, hi)])
                try:
                    ends = w.A.run(st, w.f.entry)
                except Mismatch as m:
                    s.need(False, f, None, 'byte order', 'after a %s of %d words it %s' % (what, n, m))
                    continue
                rets = 0
                for k, i, st in ends:
                    s.n['plain_paths'] += 1
                    if k != 'ret':
                        continue
                    rets += 1
                    unit = {'block': size, 'string': 1, 'real': 8}[what]
                    for j in range(size * (n + 3)):
                        if j < size or size * (n + 1) <= j < size * (n + 2):
                            e = j - j % size + size - 1 - j % size
                        elif j < size * (n + 1):
                            q = j - size
                            e = size + q - q % unit + unit - 1 - q % unit
                        else:
                            e = j
                        v = w.stored(st, ('p', 'S', const(j)), 1)
                        v = v[1] if v is not None and v[0] in 'zw' else atom(bname('S', const(j))) if v is None else None
                        if not s.need(v == atom(bname('S', const(e))), f, None, 'byte order', 'a %s of %d words: byte %d is not the one of the other byte order' % (what, n, j)):
                            break
                s.need(rets > 0, f, None, 'byte order', 'no path converts a %s' % what)

    # -- 32-bit images
    def expand(s):
        f, g = s.P.fns['expand_block'], s.P.fns['size_after_expansion']
        color = pscale(atom('col'), 256)
        for lo, hi, what in ((0, 248, 'block'), (250, 250, 'block'), (STRING, STRING, 'string'), (DOUBLE, DOUBLE, 'real')):
            for n in (1, 2, 3, 4) if what != 'real' else (2,):
                for rot in (0, 1, 2):
                    hd = padd(padd(const(1024 * n), atom('tag')), const(768))
                    words = {('S', (), 4): val(hd)}
                    facts = s.cfacts(n, 29) + [('tag', lo, hi), ('col', 0, 3), ('pad', 0, 3)]
                    new = {'block': n, 'string': (n + 1) // 2, 'real': 1}[what]
                    cl = []
                    for j in range(n):
                        k = (j + rot) % 3
                        if k == 0:
                            x = padd(pscale(atom('n%d' % j), 2), const(1))
                            y = val(x)
                        elif k == 1:
                            x = padd(pscale(atom('t%d' % j), 4), const(2))
                            y = ('p', 'first_atoms#g', padd(pscale(atom('t%d' % j), 8), const(8)))
                        else:
                            # the block that follows: its first field is at word n + 2 there, new + 2 here
                            x = const(4 * (n + 2))
                            y = ('p', 'D', const(8 * (new + 2)))
                        cl.append((x, y))
                        if what != 'string':
                            words[('S', const(4 + 4 * j), 4)] = val(x) if what == 'block' else val(atom('r%d' % j))
                    facts += [('r0', -(1 << 31), (1 << 31) - 1), ('r1', -(1 << 31), (1 << 31) - 1)]
                    words[('S', const(4 * (n + 1)), 4)] = val(const(1024 + 7 + 768))
                    words[('S', const(4 * (n + 2)), 4)] = val(const(4))        # it points back to the first
                    total = n + 3

                    class W(Flat):
                        def word(w, st, a, m):
                            if m == 1 and what == 'string' and a[1] == 'S' and a[2] == const(4 + 4 * n - 1):
                                return val(atom('pad'))
                            return Flat.word(w, st, a, m)
                    # size
                    w = W(s.P, s.F, 'size_after_expansion', False)
                    w.words = words
                    for k, i, st in w.A.run(w.go([('p', 'S', ()), val(const(total))], facts), w.f.entry):
                        if k == 'ret':
                            s.need(isz(i, const(new + 3), st), g, None, 'expansion', 'the size computed for a %s of %d 32-bit words is not what it needs' % (what, n))
                    w = W(s.P, s.F, 'expand_block', False)
                    w.words = words
                    ends = w.A.run(w.go([('p', 'S', ()), ('p', 'D', ()), val(const(total)), val(const(new + 3)), val(color)], facts), w.f.entry)
                    rets = 0
                    for k, i, st in ends:
                        s.n['plain_paths'] += 1
                        if k != 'ret':
                            continue
                        rets += 1
                        tg = atom('tag')
                        h = w.stored(st, ('p', 'D', ()), 8)
                        s.need(isz(h, padd(padd(const(1024 * new), tg), color), st), f, None, 'expansion', 'a %s of %d 32-bit words does not get the size, tag and colour it needs' % (what, n))
                        h = w.stored(st, ('p', 'D', const(8 * (new + 1))), 8)
                        s.need(isz(h, padd(const(1024 + 7), color), st), f, None, 'expansion', 'the object after a %s is not put behind it' % what)
                        b = w.stored(st, ('p', 'D', const(8 * (new + 2))), 8)
                        s.need(same(st, b, ('p', 'D', const(8))), f, None, 'expansion', 'an offset is not turned into a pointer to the first field of the block it means')
                        if what == 'block':
                            for j, (x, y) in enumerate(cl):
                                v = w.stored(st, ('p', 'D', const(8 + 8 * j)), 8)
                                kind = ('integer', 'empty block', 'block')[(j + rot) % 3]
                                s.need(same(st, v, y), f, None, 'expansion', 'field %d, an %s, of a 32-bit block is not expanded to the same' % (j, kind))
                        elif what == 'string':
                            c = [t for t in st.trace if t[0] == 'copy']
                            ln = padd(const(4 * n - 1), atom('pad'), -1)
                            s.need(len(c) == 1 and c[0][1] == ('p', 'D', const(8)) and c[0][2] == ('p', 'S', const(4)) and isz(c[0][3], ln, st), f, None, 'expansion', 'the bytes of a 32-bit string are not copied')
                            tr = st.trace
                            z = [j for j, t in enumerate(tr) if t[0] == 'store' and t[1] == ('p', 'D', const(8 * new)) and t[3] == 8]
                            p = [j for j, t in enumerate(tr) if t[0] == 'store' and t[1] == ('p', 'D', const(8 * new + 7)) and t[3] == 1]
                            s.need(len(z) == 1 and len(p) == 1 and len(c) == 1 and tr[z[0]][2] == val(()) and z[0] < tr.index(c[0]) < p[0] and tr[p[0]][2][0] in 'zw'
                                   and st.zero(padd(tr[p[0]][2][1], padd(const(8 * new - 1), ln, -1), -1)), f, None, 'expansion', 'the last word of an expanded string is not cleared and then given its padding count')
                        else:
                            for j in (0, 1):
                                v = w.stored(st, ('p', 'D', const(8 + 4 * j)), 4)
                                s.need(v == val(atom('r%d' % j)), f, None, 'expansion', 'the halves of a real are not copied')
                    s.need(rets > 0, f, None, 'expansion', 'no path expands a %s' % what)

        # a string of any size, and a block far away
        n = atom('N')
        hd = padd(pscale(n, 1024), const(STRING + 768))
        last = padd(pscale(n, 4), const(3))

        class B(Flat):
            def word(w, st, a, m):
                if m == 1 and a[1] == 'S' and st.zero(padd(a[2], last, -1)):
                    return val(atom('pad'))
                if m == 4 and a[1] == 'S' and a[2] == const(0):
                    return val(hd)
                if a[1] == 'S' and m == 4 and st.zero(padd(a[2], pscale(atom('far'), 4), -1)):
                    return val(atom('fwd'))
                return Flat.word(w, st, a, m)
        facts = [('N', 1, (1 << 22) - 1), ('col', 0, 3), ('pad', 0, 3), ('far', 1 << 29, (1 << 30) - 1), ('fwd', 1, (1 << 31) - 1)]
        for fn in ('size_after_expansion', 'expand_block', 'rev_pointers_32', 'rev_pointers'):
            h = s.P.fns[fn]
            w = B(s.P, s.F, fn, False)
            size = 8 if fn == 'rev_pointers' else 4
            w.permuted = lambda st, a, m, perm: val(hd)
            w.words = {('S', (), size): val(hd)}
            st = w.go([], facts)
            new = w.A.floordiv(padd(n, const(1)), 2, st)[0]
            args = [('p', 'S', ()), val(padd(n, const(1)))]
            if fn == 'expand_block':
                args = [('p', 'S', ()), ('p', 'D', ()), val(padd(n, const(1))), val(padd(new, const(1))), val(color)]
            for (u, t), v in zip(w.f.params, args):
                st.v[u] = v
            rets = 0
            for k, i, st in w.A.run(st, w.f.entry):
                s.n['plain_paths'] += 1
                if k != 'ret':
                    continue
                rets += 1
                if fn == 'size_after_expansion':
                    s.need(isz(i, padd(new, const(1)), st), h, None, 'expansion', 'the size computed for a long string is not what it needs')
                elif fn == 'expand_block':
                    x = w.stored(st, ('p', 'D', ()), 8)
                    s.need(isz(x, padd(padd(pscale(new, 1024), const(STRING)), color), st), h, None, 'expansion', 'a long string does not get the size, tag and colour it needs')
                    c = [t for t in st.trace if t[0] == 'copy']
                    s.need(len(c) == 1 and c[0][1] == ('p', 'D', const(8)) and c[0][2] == ('p', 'S', const(4)) and isz(c[0][3], padd(padd(pscale(n, 4), const(-1)), atom('pad'), -1), st), h, None, 'expansion', 'the bytes of a long string are not copied')
                else:
                    s.need(not [t for t in st.trace if t[0] == 'store' and t[3] != 1] and len(stores(st)) == size, h, None, 'byte order', 'the bytes of a long string are changed')
            s.need(rets > 0, h, None, 'byte order' if fn[:3] == 'rev' else 'expansion', 'no path passes over a long string')
        w = B(s.P, s.F, 'expand_block', False)
        w.words = {('S', const(4), 4): val(pscale(atom('far'), 4))}
        w.word = lambda st, a, m: val(const(1024 + 768)) if a == ('p', 'S', ()) else B.word(w, st, a, m)
        for k, i, st in w.A.run(w.go([('p', 'S', ()), ('p', 'D', ()), val(const(2)), val(const(2)), val(color)], facts), w.f.entry):
            if k == 'ret':
                s.need(same(st, w.stored(st, ('p', 'D', const(8)), 8), ('p', 'D', pscale(atom('fwd'), 8))), f, None, 'expansion', 'an offset of 2^31 bytes or more is not turned into a pointer to the block it means')

    # -- the entry points
    def fast(s):
        f = s.P.fns['intern_fast_val']
        M = dict(le32=0x8495A6BA, be32=0x8495A6B9, be64=0x8495A6BB, le64=0x8495A6BC)
        native = None
        for name, magic in sorted(M.items()):
            class W(Flat):
                def special(w, base, i, st):
                    a = [w.A.ev(x, st) for x in i.a[2]]
                    if base == 'getword':
                        n = len([t for t in st.trace if t[0] == 'getword'])
                        st.trace += (('getword', n),)
                        return val(addfacts(st, 'w%d' % n, 0, (1 << 32) - 1))
                    if base == 'really_getblock':
                        n = len([t for t in st.trace if t[0] == 'get'])
                        if a[1][0] == 'p' and a[1][1] in st.v and not a[1][2]:
                            st.v[a[1][1]] = val(addfacts(st, 'file%d' % n, 0, (1 << 64) - 1))
                        st.trace += (('get', a[1], a[2], i.line),)
                        return val(addfacts(st, 'got%d' % n, 0, 1))
                    if base in ('alloc_shr', 'stat_alloc'):
                        st.trace += ((base, a[0], i.line),)
                        return ('p', 'A' if base == 'alloc_shr' else 'T', ())
                    if base in ('rev_pointers', 'rev_pointers_32', 'adjust_pointers', 'expand_block', 'size_after_expansion'):
                        st.trace += ((base, a, i.line),)
                        return val(addfacts(st, 'xs', 2, 1 << 40)) if base == 'size_after_expansion' else ('o', base)
                    return Flat.special(w, base, i, st)

                def oncall(w, base, i, st):
                    r = w.special(base, i, st)
                    return r if r is not None else Flat.oncall(w, base, i, st)
            w = W(s.P, s.F, 'intern_fast_val', False)
            st = State()
            for u, t in w.f.params:
                st.v[u] = ('p', 'chan', ()) if 'struct channel' in s.P.resolve(t) else val(const(magic))
            w0 = atom('w0')
            for k, i, st in w.A.run(st, w.f.entry):
                s.n['plain_paths'] += 1
                gots = [t for t in st.trace if t[0] == 'get']
                if k == 'raise':
                    s.need(any(st.bounds(atom('got%d' % j)) == (0, 0) for j in range(len(gots))), f, None, 'decode', 'a complete file can be rejected')
                    continue
                ev = [t for t in st.trace if t[0] in ('rev_pointers', 'rev_pointers_32', 'adjust_pointers', 'expand_block', 'size_after_expansion')]
                if not st.bounds(w0) == (0, 0) and st.bounds(w0)[0] == 0:
                    s.need(False, f, None, 'decode', 'a block count of 0 is not told apart')
                    continue
                if st.bounds(w0) == (0, 0):
                    w1 = atom('w1')
                    if s.need(len([t for t in st.trace if t[0] == 'getword']) == 2 and not gots, f, None, 'immediate', 'an immediate value is not read from one word'):
                        if i[0] == 'p':
                            s.need(i[1] == 'first_atoms#g' and even(st, w1) and s.atomof(st, i[2], w1), f, None, 'immediate', 'the word of an empty block is not read back as it')
                        else:
                            n = st.copy()
                            ok = i[0] == 'z'
                            if ok:
                                for lo, hi, d in ((0, (1 << 31) - 1, 0), (1 << 31, (1 << 32) - 1, 1 << 32)):
                                    n = st.copy()
                                    try:
                                        n.afact(w1, lo, hi)
                                    except Infeasible:
                                        continue
                                    ok = ok and n.zero(padd(padd(i[1], w1, -1), const(d)))
                            s.need(ok, f, None, 'immediate', 'the 32-bit word of an integer is not sign-extended')
                    continue
                if not s.need(gots and all(st.bounds(atom('got%d' % j)) == (1, 1) for j in range(len(gots))), f, gots and gots[0][3], 'truncation', 'the result of really_getblock is not tested: a file that ends early yields a value'):
                    continue
                s.need(i == ('p', 'A', ()), f, None, 'result', 'the value returned is not the block read')
                al = [t for t in st.trace if t[0] == 'alloc_shr']
                hp = ('p', 'A', const(-8))
                for t in gots:
                    s.need(t[1] != hp, f, t[3], 'heap while reading', 'the header of the new block is overwritten by a read that can still raise')
                if name.endswith('64'):
                    ok = len(al) == 1 and isz(al[0][1], padd(w0, const(-1)), st)
                    s.need(ok, f, None, 'size', 'the block allocated does not have the size written')
                    h = w.stored(st, hp, 8)
                    ok = len(gots) == 2 and gots[0][1][0] == 'p' and gots[0][1][1] not in ('A', 'T') and isz(gots[0][2], const(8), st) and gots[1][1] == ('p', 'A', ()) and isz(gots[1][2], padd(pscale(w0, 8), const(-8)), st) and h == val(atom('file0'))
                    ok = ok or (len(gots) == 1 and gots[0][1] == hp and isz(gots[0][2], pscale(w0, 8), st))
                    s.need(ok, f, None, 'size', 'the block is not filled with the words written')
                    want = (['rev_pointers'] if name == 'be64' else []) + ['adjust_pointers']
                    s.need([t[0] for t in ev] == want, f, None, 'conversion', 'a %s-endian 64-bit image is not converted as such' % ('big' if name[0] == 'b' else 'little'))
                    for t in ev:
                        s.need(t[1][0] == hp and isz(t[1][1], w0, st), f, t[2], 'conversion', 'the conversion does not cover the block read')
                    col = ev[-1][1][-1] if ev else None
                else:
                    ok = len(gots) == 1 and gots[0][1] == ('p', 'T', ()) and isz(gots[0][2], pscale(w0, 4), st)
                    ta = [t for t in st.trace if t[0] == 'stat_alloc']
                    s.need(ok and len(ta) == 1 and isz(ta[0][1], pscale(w0, 4), st), f, None, 'size', 'the 32-bit words written are not read into a block of their size')
                    want = (['rev_pointers_32'] if name == 'be32' else []) + ['size_after_expansion', 'expand_block']
                    s.need([t[0] for t in ev] == want, f, None, 'conversion', 'a %s-endian 32-bit image is not converted as such' % ('big' if name[0] == 'b' else 'little'))
                    if [t[0] for t in ev] == want:
                        xs = atom('xs')
                        for t in ev[:-1]:
                            s.need(t[1][0] == ('p', 'T', ()) and isz(t[1][1], w0, st), f, t[2], 'conversion', 'the conversion does not cover the block read')
                        x = ev[-1][1]
                        s.need(len(al) == 1 and isz(al[0][1], padd(xs, const(-1)), st) and x[0] == ('p', 'T', ()) and x[1] == hp and isz(x[2], w0, st) and isz(x[3], xs, st), f, ev[-1][2], 'conversion', 'the expansion does not go from the block read to one of the computed size')
                    col = ev[-1][1][-1] if ev else None
                cc = atom("ld:A[-8]")
                s.need(col is not None and col[0] == 'z' and 'ld:A[-8]' in repr(col[1]) and st.bounds(col[1])[1] is not None and st.bounds(col[1])[1] <= 768, f, None, 'colour', 'the objects read do not get the colour of the block allocated for them')

    def atomof(s, st, off, w1):
        q, r = Arith(s.P, s.P.fns['intern_fast_val']).floordiv(w1, 4, st)
        n = st.copy()
        try:
            n.afact(w1, 0, 1023)
        except Infeasible:
            return True
        return n.zero(padd(off, padd(pscale(q, 8), const(8)), -1))

    def entry(s):
        """intern_val: dispatch on the magic number; extern_val: what it writes"""
        f = s.P.fns['intern_val']
        base = 0x8495A6B9

        class W(Flat):
            def oncall(w, b, i, st):
                a = None
                if b == 'getword':
                    st.trace += (('getword',),)
                    return val(addfacts(st, 'w0', 0, (1 << 32) - 1))
                if b in ('intern_compact_val', 'intern_fast_val'):
                    st.trace += ((b, [w.A.ev(x, st) for x in i.a[2]]),)
                    return val(addfacts(st, 'res:' + b, -(1 << 63), (1 << 63) - 1))
                return Flat.oncall(w, b, i, st)
        w = W(s.P, s.F, 'intern_val', False)
        st = w.go([('p', 'chan', ())])
        w0 = atom('w0')
        seen = set()
        for k, i, st in w.A.run(st, w.f.entry):
            s.n['plain_paths'] += 1
            b = st.bounds(w0)
            if k == 'raise':
                n = st.copy()
                try:
                    n.afact(w0, base, base + 4)
                    s.need(False, f, None, 'magic', 'a file with a known magic number can be rejected')
                except Infeasible:
                    pass
                continue
            c = [t for t in st.trace if t[0] in ('intern_compact_val', 'intern_fast_val')]
            if not s.need(len(c) == 1, f, None, 'magic', 'a file is not read by exactly one of the readers'):
                continue
            s.need(i == val(atom('res:' + c[0][0])), f, None, 'result', 'the value returned is not the one read')
            if c[0][0] == 'intern_compact_val':
                s.need(b == (base + 4, base + 4), f, None, 'magic', 'the compact reader is used for a file that does not start with the compact magic number')
            else:
                s.need(b[0] >= base and b[1] <= base + 3 and val(w0) in c[0][1], f, None, 'magic', 'a file that does not start with a known magic number is read')
            seen.add(c[0][0])
        s.need(len(seen) == 2, f, None, 'magic', 'one of the two readers is never used')
        f = s.P.fns['extern_val']

        class X(Flat):
            def loads(w, a, st, e):
                if a[1] == s.gblk:
                    return ('p', 'B', ())
                return None

            def oncall(w, b, i, st):
                g = s.P.fns.get(b)
                if g is not None and b != 'emit_all' and g.file == w.f.file and written(s.P, g) and grows(s.P, g):
                    for u in sorted(written(s.P, g)):
                        k = '%s@%s' % (u, b)
                        st.v[u] = ('p', 'B' if u == s.gblk else k, ()) if s.gty[u].endswith('*') else val(addfacts(st, k, 1 << 57, (1 << 58) - 1))
                    return ('o', b)
                if b == 'emit_all':
                    st.trace += (('emit_all', [w.A.ev(x, st) for x in i.a[2]], w.globs(st)),)
                    st.v[s.gblk] = ('p', 'B', ())
                    st.v[s.gpos] = val(addfacts(st, 'POS', 0, 1 << 56))
                    return val(addfacts(st, 'root', -(1 << 63), (1 << 63) - 1)) if w.signed else val(addfacts(st, 'root', 0, (1 << 64) - 1))
                if b in ('putword', 'putblock'):
                    st.trace += ((b, [w.A.ev(x, st) for x in i.a[2]][1:], i.line),)
                    return ('o', b)
                if b == worker(s.P, 'extern_compact_val'):
                    st.trace += (('compact', [w.A.ev(x, st) for x in i.a[2]]),)
                    return ('o', b)
                if b in s.P.fns and os.path.basename(s.P.fns[b].file) == 'externcp.c':
                    return None
                return Flat.oncall(w, b, i, st)
        w = X(s.P, s.F, 'extern_val', False)
        w.signed = False
        st = w.go([('p', 'chan', ()), val(atom('v'))], [('v', -(1 << 63), (1 << 63) - 1)])
        kinds = set()
        R, POS = atom('root'), atom('POS')
        for k, i, st in w.A.run(st, w.f.entry):
            s.n['plain_paths'] += 1
            if k == 'raise':
                n = st.copy()
                try:
                    n.afact(POS, None, (1 << 29) - 1)
                    s.need(False, f, None, 'refusal', 'a value that fits the format can be refused')
                except Infeasible:
                    pass
                continue
            pw = [t for t in st.trace if t[0] == 'putword']
            pb = [t for t in st.trace if t[0] == 'putblock']
            cp = [t for t in st.trace if t[0] == 'compact']
            ea = [t for t in st.trace if t[0] == 'emit_all']
            s.need(len(ea) == 1 and ea[0][1] == [val(atom('v'))] and isz(ea[0][2].get(s.gpos), (), st), f, None, 'image', 'the image is not made from the value, from position 0')
            if cp:
                kinds.add('compact')
                s.need(st.bounds(POS) == (0, 0) and [t[1][0] for t in pw] == [val(const(base + 4)), val(()), val(()), val(())] and val(atom('v')) in cp[0][1] and not pb, f, None, 'immediate', 'an integer too large for one word is not written in the compact format')
                continue
            if not s.need(pw and pw[0][1][0] == val(const(base + 3)), f, None, 'magic', 'the magic number written is not the one of this machine\'s word size and byte order'):
                continue
            if st.bounds(POS) == (0, 0):
                kinds.add('imm')
                ok = len(pw) == 3 and isz(pw[1][1][0], (), st) and not pb
                s.need(ok, f, None, 'immediate', 'an immediate value is not written as a count of 0 and its word')
                if ok:
                    # the root word is an integer of 64 bits seen unsigned
                    for lo, hi in (((1 << 31), (1 << 64) - (1 << 31) - 1),):
                        n = st.copy()
                        try:
                            n.afact(R, lo, hi)
                            s.need(False, f, pw[2][2], 'immediate', 'an immediate value that does not fit 32 bits is written with 32 bits')
                        except Infeasible:
                            pass
                    for lo, hi, d in ((0, (1 << 31) - 1, 0), ((1 << 64) - (1 << 31), (1 << 64) - 1, (1 << 64) - (1 << 32))):
                        n = st.copy()
                        try:
                            n.afact(R, lo, hi)
                        except Infeasible:
                            continue
                        p = pw[2][1][0]
                        x = padd(padd(p[1], R, -1), const(d))
                        xb = n.bounds(n.reduce(x)) if p[0] in 'zw' else None
                        s.need(p[0] in 'zw' and (n.zero(x) or (p[0] == 'w' and p[2] == 32 and (n.zero(padd(p[1], R, -1))))), f, pw[2][2], 'immediate', 'the word written is not the low 32 bits of the value')
            else:
                kinds.add('block')
                ok = len(pw) == 2 and len(pb) == 1
                s.need(ok and isz(pw[1][1][0], POS, st), f, None, 'size', 'the size in words of the image is not written exactly')
                s.need(ok and pb[0][1][0] == ('p', 'B', ()) and isz(pb[0][1][1], pscale(POS, 8), st), f, None, 'size', 'the image is not written whole')
        s.need({'imm', 'block'} <= kinds, f, None, 'image', 'no path writes immediate values or blocks')

    # -- the block reader
    def getblock(s):
        """really_getblock returns nonzero only when all bytes have been delivered"""
        f = s.P.fns['really_getblock']

        class W(Flat):
            def oncall(w, b, i, st):
                if b == 'getblock':
                    a = [w.A.ev(x, st) for x in i.a[2]]
                    n = len([t for t in st.trace if t[0] == 'getblock'])
                    st.trace += (('getblock', a, i.line),)
                    r = val(addfacts(st, 'r%d' % n, 0, (1 << 31) - 1))
                    if a[2][0] == 'z':
                        st.afact(padd(a[2][1], r[1], -1), 0, None)     # at most what was asked for
                    return r
                return Flat.oncall(w, b, i, st)
        w = W(s.P, s.F, 'really_getblock', False)
        w.A.turns = 4
        st = w.go([('p', 'chan', ()), ('p', 'D', ()), val(atom('n'))], [('n', 0, (1 << 31) - 1)])
        out = w.A.run(st, w.f.entry)
        rets = 0
        for k, i, st in out:
            s.n['plain_paths'] += 1
            if k != 'ret' or i[0] != 'z':
                continue
            g = [t for t in st.trace if t[0] == 'getblock']
            done = ()
            for j, t in enumerate(g):
                a = t[1]
                s.need(a[1] == ('p', 'D', done) and isz(a[2], padd(atom('n'), done, -1), st), f, t[2], 'delivery', 'the next bytes are not read behind those already read, up to the count asked for')
                done = padd(done, atom('r%d' % j))
            c = arith.cases(st, i[1], '==')
            if c is True:
                s.need(not st.zero(padd(atom('n'), done, -1)) or st.bounds(atom('n')) != (0, 0), f, None, 'delivery', 'failure is reported although all bytes were read')
                s.need(any(st.bounds(atom('r%d' % j)) == (0, 0) for j in range(len(g))), f, None, 'delivery', 'failure is reported without an end of file')
            else:
                rets += 1
                s.need(c is False and st.zero(padd(atom('n'), done, -1)), f, None, 'truncation', 'success is reported although fewer bytes than asked for may have been read')
        s.need(rets > 0, f, None, 'delivery', 'no path reports success')


def grows(P, f):
    seen, work = set(), [f]
    while work:
        g = work.pop()
        for b in g.order():
            for i in g.blocks[b].ins:
                if i.op == 'call' and isinstance(i.a[1], str):
                    if i.a[1] in ('stat_alloc', 'stat_resize', 'malloc', 'realloc'):
                        return True
                    c = P.fns.get(i.a[1])
                    if c is not None and c.file == f.file and c.name not in seen:
                        seen.add(c.name)
                        work.append(c)
    return False


def loops(P, f):
    """f, or a function of its file that it calls, has a loop"""
    seen, work = {f.name}, [f]
    while work:
        g = work.pop()
        if heads(g):
            return True
        for c in callees(P, g):
            if P.fns[c].file == f.file and c not in seen:
                seen.add(c)
                work.append(P.fns[c])
    return False


def outer1(f, callee):
    """the loop head first reached after the first call of callee"""
    hs = heads(f)
    o = list(f.order())
    return [sorted(set(hs), key=o.index)[0]] if hs else []


def stores(st):
    return [t for t in st.trace if t[0] == 'store']


def even(st, p):
    for (n, d), (q, r) in st.ids.items():
        if st.zero(padd(n, p, -1)) and d == const(2):
            return st.bounds(atom(r)) == (0, 0)
    return True


def same(st, v, y):
    if v is None:
        return False
    if y[0] == 'p':
        return v[0] == 'p' and v[1] == y[1] and st.zero(padd(v[2], y[2], -1))
    return v[0] == 'z' and st.zero(padd(v[1], y[1], -1))


PARTS = ('emit', 'table', 'emit_all', 'adjust', 'rev64', 'rev32', 'expand', 'fast', 'entry', 'getblock')
FIX = 'vsa_ser.c'


def tampered(C):
    """self-test: the reader must not agree on a byte sequence with two bytes exchanged"""
    w = C.w
    n = 0
    for k, i, wst in w.run(val(padd(pscale(atom('n'), 2), const(1))), facts=[('n', arith.MINL, arith.MAXL)]):
        by = w.outbytes(wst.trace)
        if k != 'ret' or len(by) < 3:
            continue
        by = by[:-2] + [by[-1], by[-2]]
        for k2, i2, rst in C.rd.run(by, wst, False, 0):
            n += k2 == 'ret' and C.cint(k, wst, k2, rst, by, False) is not None
    if not n:
        raise AnalysisError('self-test of S01: exchanged bytes are not noticed')
    return n


def S01(tier='quick'):
    R = Result()
    P = checks.program((FIX,))
    F = cflow.Facts(P)
    undecided = []
    C = Compact(P, F, R)
    try:
        C.run(undecided)
        n = tampered(C) if not R.violations else 1
    except Giveup as e:
        undecided.append('compact format: %s' % e)
        n = 0
    R.coverage.update(C.n)
    D = Plain(P, F, R, getattr(C, 'cnt', 'obj_counter#g:externcp.c'))
    for q in PARTS:
        try:
            if q.startswith('rev'):
                D.rev('rev_pointers' if q == 'rev64' else 'rev_pointers_32', 8 if q == 'rev64' else 4)
            else:
                getattr(D, q)()
        except Giveup as e:
            undecided.append('%s: %s' % (q, e))
    if len(undecided) > 3:
        raise AnalysisError('not decided: %s' % '; '.join(undecided))
    T = Plain(P, F, Result(), D.counter)
    T.adjust('vser_adjust_good')
    T.adjust('vser_adjust_bad')
    T.rev('vser_rev_bad', 8)
    n += checks.selftest(FIX, 'S01', [v['line'] for v in T.R.violations])
    R.coverage.update({k: v + (R.coverage.get(k, 0) if k == 'obligations' else 0) for k, v in D.n.items()})
    for k, lo in dict(writer_paths=120, reader_paths=200, plain_paths=180, obligations=2500).items():
        if R.coverage.get(k, 0) < lo and not R.violations and not undecided:
            raise AnalysisError('only %d %s (at least %d expected)' % (R.coverage.get(k, 0), k, lo))
    for u in undecided:
        print('UNDECIDED property=S01 %s' % u)
    R.coverage = dict(explanation='Abstract interpretation of both writers and all readers over exact integers, partitioned by kind of value, size range and branch; every byte the compact writer stores is fed to the reader\'s analysis, and every word of the plain image, in each of the four word-size/byte-order variants, to the conversion functions; value, tag, size, counters, sharing table and the block header kept during the read must agree, and every read of a block must be tested.',
                      parts=['compact'] + list(PARTS), undecided=undecided, selftest_instances=n, **R.coverage)
    R.assumptions = ['the 64-bit little-endian configuration that is built is analysed; the code under !SIXTYFOUR and MOSML_BIG_ENDIAN is not compiled',
                     'plain images are analysed with up to 4 fields per block (each word class in each position) and two blocks; the loops treat every block alike',
                     'a file with a correct magic number that is not truncated was made by one of the writers',
                     'putch/putword/putblock/seek_out and getch/getword deliver the bytes in order; getch raises at the end of the file']
    return R
