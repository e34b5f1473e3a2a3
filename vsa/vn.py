"""Value numbering over the CFG: the effect of a piece of code as terms in a normal form.

Terms are hashable tuples; 64-bit integers are kept as linear sums, memory as a log of stores over an
initial state, so equal effects get equal terms whatever temporaries, statement order or helper blocks
the source uses.  No solver is involved: terms are normalised and compared syntactically.
"""
from . import cir
from .cir import strip_quals, elemty, width
from .cbuild import AnalysisError

M64 = 1 << 64
import math


class Giveup(Exception):
    pass


def s64(v):
    v &= M64 - 1
    return v - M64 if v >> 63 else v


def K(v):
    return ('k', s64(v))


def sym(n, lo=None, hi=None):
    return ('sym', n, lo, hi)


def lin(t):
    """(const, {term: coef})"""
    if t[0] == 'k':
        return t[1], {}
    if t[0] == '+':
        return t[1], dict(t[2])
    if t[0] == 'f' and t[1] == '!':
        return 1, {t[2]: -1}
    return 0, {t: 1}


def mk(c, d):
    d = {t: s64(k) for t, k in d.items() if s64(k)}
    if not d:
        return K(c)
    c = s64(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('+', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, kb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k * kb
    return mk(ca + kb * cb, d)


def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {t: q * k for t, q in d.items()})


def rng(t):
    """(lo, hi) of the mathematical value, or None"""
    if t[0] == 'k':
        return t[1], t[1]
    if t[0] == 'sym':
        return None if t[2] is None else (t[2], t[3])
    if t[0] == '+':
        lo = hi = t[1]
        for x, k in t[2]:
            r = rng(x)
            if r is None:
                return None
            a, b = sorted((r[0] * k, r[1] * k))
            lo += a
            hi += b
        return (lo, hi) if -(1 << 63) <= lo and hi < 1 << 63 else None
    if t[0] == 'ext':
        n, s = t[1], t[2]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
    if t[0] == 'ld' and isinstance(t[1], int) and (t[1] < 8):
        n = 8 * t[1]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t[2] else (0, (1 << n) - 1)
    if t[0] == 'f' and t[1] in ('==', '<s', '<u', '!', '<=s', '<=u', '<d', '<=d', '==d'):
        return 0, 1
    if t[0] == 'f' and t[1] == '&' and t[3][0] == 'k' and t[3][1] >= 0:
        return 0, t[3][1]
    if t[0] == 'f' and t[1] == '>>u' and t[3][0] == 'k' and 0 < t[3][1] < 64:
        return 0, (1 << (64 - t[3][1])) - 1
    if t[0] == 'f' and t[1] == '>>s' and t[3][0] == 'k' and 0 < t[3][1] < 64:
        return -(1 << (63 - t[3][1])), (1 << (63 - t[3][1])) - 1
    return None


def ext(t, n, s):
    """value of t converted to n bits"""
    if n >= 64:
        return t
    if t[0] == 'k':
        v = t[1] & ((1 << n) - 1)
        if s and v >> (n - 1):
            v -= 1 << n
        return K(v)
    r = rng(t)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
    if r and lo <= r[0] and r[1] <= hi:
        return t
    if t[0] == 'ext' and t[1] >= n:
        return ext(t[3], n, s)
    if t[0] == '+':
        c, d = lin(t)
        d2 = {x: ((k + (1 << (n - 1))) % (1 << n)) - (1 << (n - 1)) for x, k in d.items()}
        c2 = ((c + (1 << (n - 1))) % (1 << n)) - (1 << (n - 1))
        t2 = mk(c2, d2)
        if t2 != t:
            return ext(t2, n, s)
    return ('ext', n, s, t)


def split(t, m):
    """t = m*q + r with r provably in [0,m): (q, r) or None"""
    c, d = lin(t)
    q, r = {}, {}
    for x, k in d.items():
        if k % m == 0:
            q[x] = k // m
        else:
            r[x] = k
    rc = c % m
    qt, rt = mk((c - rc) // m, q), mk(rc, r)
    g = rng(rt)
    if g and 0 <= g[0] and g[1] < m:
        return qt, rt
    return None


def op2(op, a, b, sg):
    """sg: signed?"""
    if op == '+':
        return add(a, b)
    if op == '-':
        return add(a, b, -1)
    if op == '*':
        if a[0] == 'k':
            return scale(b, a[1])
        if b[0] == 'k':
            return scale(a, b[1])
        return ('f', '*') + tuple(sorted((a, b), key=repr))
    if a[0] == 'k' and b[0] == 'k':
        x, y = a[1], b[1]
        if not sg:
            x, y = x % M64, y % M64
        if op == '<<':
            return K(x << y)
        if op == '>>':
            return K(x >> y)
        if op == '&':
            return K(x & y)
        if op == '|':
            return K(x | y)
        if op == '^':
            return K(x ^ y)
        if op in ('/', '%') and y:
            qq = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return K(qq if op == '/' else x - qq * y)
        if op == '==':
            return K(x == y)
        if op == '<':
            return K(x < y)
        if op == '<=':
            return K(x <= y)
    if op == '<<' and b[0] == 'k' and 0 <= b[1] < 64:
        return scale(a, 1 << b[1])
    if op == '>>' and b[0] == 'k' and 0 <= b[1] < 64:
        g = rng(a)
        if g and (sg or g[0] >= 0):
            q = split(a, 1 << b[1])
            if q:
                return q[0]
        if b[1] == 0:
            return a
        if g and g[0] >= 0:
            # the low bits that fall out may be dropped first
            for j in range(b[1] - 1, 0, -1):
                q = split(a, 1 << j)
                if q:
                    return op2('>>', q[0], K(b[1] - j), sg)
            return ('f', '>>u', a, b)
    if op == '&' and a[0] == 'k':
        a, b = b, a
    if op == '&' and b[0] == 'k' and b[1] > 0 and (b[1] + 1) & b[1] == 0:
        q = split(a, b[1] + 1)
        if q:
            return q[1]
        # only the low bits of a matter
        c, d = lin(a)
        m = b[1] + 1
        a2 = mk(c % m, {x: k % m for x, k in d.items()})
        return ('f', '&', a2, b)
    if op == '|' and a[0] == 'k':
        a, b = b, a
    if op == '|' and b[0] == 'k' and b[1] >= 0:
        m = 1 << b[1].bit_length()
        c, d = lin(a)
        if c % m == 0 and all(k % m == 0 for k in d.values()):
            return add(a, b)
    if op in ('&', '|', '^'):
        return ('f', op) + tuple(sorted((a, b), key=repr))
    if op == '==':
        d = add(a, b, -1)
        if d[0] == 'k':
            return K(d[1] == 0)
        g = rng(d)
        if g and (g[0] > 0 or g[1] < 0):
            return K(0)
        c, m = lin(d)
        if len(m) == 1:
            (x, k), = m.items()
            if rng(x) == (0, 1) and x[0] == 'f':
                return lnot(x) if c == 0 else truth(x) if c == -k else K(0)
        if g and m:
            q = 0
            for k in list(m.values()) + [c]:
                q = math.gcd(q, k)
            if q > 1:
                d = mk(c // q, {x: k // q for x, k in m.items()})
        # canonical: nonneg leading
        n = scale(d, -1)
        if repr(n) < repr(d):
            d = n
        return ('f', '==', d, K(0))
    if op in ('<', '<='):
        ga, gb = rng(a), rng(b)
        if ga and gb and (sg or (ga[0] >= 0 and gb[0] >= 0)):
            if op == '<':
                if ga[1] < gb[0]:
                    return K(1)
                if ga[0] >= gb[1]:
                    return K(0)
            else:
                if ga[1] <= gb[0]:
                    return K(1)
                if ga[0] > gb[1]:
                    return K(0)
        if a == b:
            return K(op == '<=')
        if op == '<=':      # a <= b  ==  not (b < a)
            return lnot(('f', '<s' if sg else '<u', b, a))
        return ('f', '<s' if sg else '<u', a, b)
    return ('f', op + ('s' if sg else 'u') if op in ('/', '%', '>>', '<<') else op, a, b)


def lnot(t):
    if t[0] == 'k':
        return K(not t[1])
    if t[0] == 'f' and t[1] == '!':
        return truth(t[2])
    return ('f', '!', truth(t))


def truth(t):
    """0/1 condition: strip comparisons with 0"""
    if t[0] == 'k':
        return K(bool(t[1]))
    if t[0] == 'f' and t[1] == '!':
        return ('f', '!', truth(t[2]))
    if t[0] == '+' and t[1] == 1 and len(t[2]) == 1 and t[2][0][1] == -1 and t[2][0][0][0] == 'f' and rng(t[2][0][0]) == (0, 1):
        return lnot(t[2][0][0])
    if t[0] == 'f' and t[1] in ('==', '<s', '<u', '<d', '<=d', '==d'):
        if t[1] == '==' and t[3] == K(0):
            inner = t[2]
            if inner[0] == 'f' and inner[1] in ('==', '<s', '<u', '!', '<d', '<=d', '==d'):
                return lnot(inner)
        return t
    return lnot(('f', '==', t, K(0))) if not (t[0] == 'f' and t[1] == '==') else t


_ts = {}


def tsize(t):
    """written-out size of a term"""
    if not isinstance(t, tuple):
        return 1
    k = _ts.get(id(t))
    if k:
        return k[1]
    n = 1 + sum(tsize(x) for x in t)
    if n > 64:
        if len(_ts) > 200000:
            _ts.clear()
        _ts[id(t)] = (t, n)
    return n


class St:
    __slots__ = ('v', 'log', 'epoch', 'events', 'conds', 'visits', 'aux', 'frames')

    def __init__(s):
        s.v, s.log, s.epoch, s.events, s.conds, s.visits, s.aux = {}, [], 0, [], {}, {}, []
        s.frames = ()

    def copy(s):
        n = St()
        n.v, n.log, n.epoch, n.events, n.conds, n.visits = dict(s.v), list(s.log), s.epoch, list(s.events), dict(s.conds), dict(s.visits)
        n.aux = list(s.aux)
        n.frames = s.frames
        return n


class VN:
    def __init__(s, P, f, init=None, oracle=None, maxvisit=40, maxpaths=400, mayread=(), inline=()):
        s.P, s.f = P, f
        s.init = init or {}
        s.oracle = oracle or (lambda st, addr, size, sg: None)
        s.maxvisit, s.maxpaths = maxvisit, maxpaths
        s.readonly = set(mayread)
        s.onset = None
        s.top = f
        s.inline = set(inline) | {n for n, g in P.fns.items() if g.static and g.file == f.file and g is not f} if hasattr(f, 'static') else set(inline)
        s.loopfree = None
        s.stopat = ()
        s.prune = None

    # ---- addresses ----------------------------------------------------------------------------
    def region(s, base):
        r = 'heap'
        for t, k in base:
            if t[0] == 'addr':
                return ('g', t[1])
            if t[0] == 'sym' and t[1] in ('sp',):
                return 'stack'
            if t[0] == 'sym' and t[1] == 'END':
                return 'code'
            if t[0] == 'sym' and t[1].startswith('reg:'):
                return t[1]
            if t[0] == 'ld' and t[3][0] == 'addr':
                n = t[3][1].split('#')[0]
                if n in ('extern_sp', 'trapsp', 'stack_high', 'stack_low', 'stack_threshold'):
                    return 'stack'
                if n == 'young_ptr':
                    r = 'fresh'
            if t[0] == 'ret' and r == 'heap':
                r = 'ret'
        return r

    def lvaddr(s, lv, st):
        """address term of an l-value"""
        if lv.kind == 'var':
            return ('addr', lv.a[0])
        if lv.kind == 'mem':
            return s.ev(lv.a[0], st)
        if lv.kind == 'fld':
            base = s.lvaddr(lv.a[0], st)
            return add(base, K(s.fieldoff(lv)))
        raise Giveup('lvalue ' + lv.kind)

    def fieldoff(s, lv):
        ty = s.P.resolve(lv.a[0].dty or lv.a[0].ty)
        key = ty if ty in s.P.records else ty.split(' ', 1)[-1]
        if key not in s.P.records:
            ty = s.P.resolve(lv.a[0].ty)
            key = ty if ty in s.P.records else ty.split(' ', 1)[-1]
        if key not in s.P.records:
            raise Giveup('record ' + ty)
        if key in s.P.unions:
            return 0
        off = 0
        for f, fty, fd in s.P.records[key]:
            a = s.P.alignof(fd or fty)
            off = (off + a - 1) // a * a
            if f == lv.a[1]:
                return off
            off += s.P.sizeof(fd or fty)
        raise Giveup('field ' + lv.a[1])

    def tyinfo(s, e):
        """(size, signed) ; ('d',8) for floating"""
        t = s.P.resolve(e.dty or e.ty)
        if t in ('double', 'float', 'long double'):
            return {'double': 8, 'float': 4, 'long double': 16}[t], 'd'
        w = width(t)
        if w:
            return max(1, w[0] // 8), bool(w[1])
        try:
            return s.P.sizeof(t), False
        except AnalysisError:
            return 8, False

    def islocal(s, u):
        return u in s.f.vars and '#g' not in u and '#s' not in u and u not in s.f.addr_taken and cir.arraydim(s.P.resolve(s.f.vars[u][1])) is None and not s.P.resolve(s.f.vars[u][1]).startswith(('struct', 'union'))

    def read(s, addr, size, sg, st):
        c, d = lin(addr)
        base = tuple(sorted(d.items(), key=repr))
        r = s.oracle(st, addr, size, sg)
        if r is not None:
            return r
        reg = s.region(base)
        rel = []
        for L in reversed(st.log):
            lreg, lbase, loff, lsize, val = L
            if lreg != reg:
                continue
            if lbase == base:
                if loff == c and lsize == size and not rel:
                    if sg == 'd' or (isinstance(val, tuple) and val[0] == 'dbl'):
                        return val
                    return ext(val, 8 * size, sg) if size < 8 else val
                if loff + lsize <= c or c + size <= loff:
                    continue
            elif apart(L, (reg, base, c, size)):
                continue
            rel.append(L)
        r = ('ld', size, None if size == 8 and sg != 'd' else sg, addr, (st.epoch, tuple(reversed(rel))))
        if rel and tsize(r) > 400000:
            raise Giveup('term size')
        return r

    def write(s, addr, size, val, st):
        c, d = lin(addr)
        base = tuple(sorted(d.items(), key=repr))
        reg = s.region(base)
        # a later store to exactly the same place with no possible reader in between replaces it (reads are resolved at once)
        st.log = [L for L in st.log if not (L[0] == reg and L[1] == base and c <= L[2] and L[2] + L[3] <= c + size)]
        st.log.append((reg, base, c, size, val))

    # ---- expressions --------------------------------------------------------------------------
    def ev(s, e, st):
        op = e.op
        if op == 'const':
            return K(e.a[0])
        if op == 'load':
            lv = e.a[0]
            if lv.kind == 'var' and s.islocal(lv.a[0]):
                if lv.a[0] in st.v:
                    return st.v[lv.a[0]]
                sz, sg = s.tyinfo(e)
                n = lv.a[0].split('#')[0]
                if sg != 'd' and sz < 8:
                    b = 8 * sz
                    return sym(n, *((-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)))
                return sym(n)
            if cir.arraydim(s.P.resolve(lv.ty)) is not None:
                return s.lvaddr(lv, st)
            sz, sg = s.tyinfo(e)
            return s.read(s.lvaddr(lv, st), sz, sg, st)
        if op == 'addr':
            return s.lvaddr(e.a[0], st)
        if op == 'fn':
            return ('fn', e.a[0])
        if op == 'lab':
            return ('lab', e.a[0])
        if op == 'str':
            return ('str', e.a[0])
        if op == 'flt':
            return ('dbl', 'const', str(e.a[0]))
        if op == 'un':
            a = s.ev(e.a[1], st)
            if e.a[0] == '!':
                return lnot(a) if a[0] != 'dbl' else ('f', '!', a)
            if s.P.resolve(e.dty) in ('double', 'float'):
                return ('dbl', e.a[0], a)
            if e.a[0] == '-':
                return s.norm(scale(a, -1), e)
            if e.a[0] == '~':
                return s.norm(add(K(-1), a, -1), e)
            raise Giveup('unary ' + e.a[0])
        if op == 'padd':
            a, i = s.ev(e.a[0], st), s.ev(e.a[1], st)
            et = elemty(s.P.resolve(e.a[0].dty or e.a[0].ty)) or elemty(s.P.resolve(e.a[0].ty))
            sz = s.P.sizeof(et) if et else 1
            return add(a, scale(i, sz))
        if op == 'pdiff':
            a, b = s.ev(e.a[0], st), s.ev(e.a[1], st)
            et = elemty(s.P.resolve(e.a[0].dty or e.a[0].ty))
            sz = s.P.sizeof(et) if et else 1
            d = add(a, b, -1)
            c, m = lin(d)
            if c % sz == 0 and all(k % sz == 0 for k in m.values()):
                return mk(c // sz, {t: k // sz for t, k in m.items()})
            return op2('/', d, K(sz), True)
        if op == 'cast':
            a = s.ev(e.a[0], st)
            t = s.P.resolve(e.dty or e.ty)
            ft = s.P.resolve(e.a[0].dty or e.a[0].ty)
            if t in ('double', 'float', 'long double'):
                return a if ft == t else ('dbl', 'of:' + t, a)
            if ft in ('double', 'float', 'long double'):
                return ('f', 'int_of_dbl', a, t)
            return s.norm(a, e)
        if op == 'bin':
            o = e.a[0]
            a, b = s.ev(e.a[1], st), s.ev(e.a[2], st)
            ta = s.P.resolve(e.a[1].dty or e.a[1].ty)
            tb = s.P.resolve(e.a[2].dty or e.a[2].ty)
            if ta in ('double', 'float', 'long double') or tb in ('double', 'float', 'long double'):
                if o in ('+', '-', '*', '/'):
                    return ('dbl', o, a, b)
                if o == '>':
                    return ('f', '<d', b, a)
                if o == '>=':
                    return ('f', '<=d', b, a)
                if o == '<=':
                    return ('f', '<=d', a, b)
                if o == '<':
                    return ('f', '<d', a, b)
                if o == '==':
                    return ('f', '==d', a, b)
                return ('f', '!', ('f', '==d', a, b))
            wa, wb = width(ta), width(tb)
            # usual arithmetic conversions (the AST has them as casts); comparison signedness
            sg = bool(wa and wa[1]) and bool(wb and wb[1]) if o not in ('<<', '>>') else bool(wa and wa[1])
            if o in ('<', '>', '<=', '>=', '==', '!='):
                if o == '>':
                    return op2('<', b, a, sg)
                if o == '>=':
                    return op2('<=', b, a, sg)
                if o == '!=':
                    return lnot(op2('==', a, b, sg))
                return op2(o, a, b, sg)
            r = op2(o, a, b, sg)
            if o in ('+', '-', '*', '<<') and wa and wa[1] and (wa[0] >= 32):
                return r            # signed overflow is undefined, no wrap
            return s.norm(r, e)
        raise Giveup('expression ' + op)

    def norm(s, t, e):
        w = width(s.P.resolve(e.dty or e.ty))
        if w and w[0] < 64 and t[0] not in ('dbl', 'addr', 'fn', 'lab', 'str'):
            return ext(t, w[0], bool(w[1]))
        return t

    # ---- running -------------------------------------------------------------------------------
    def assign(s, lv, val, st, line):
        if lv.kind == 'var' and s.islocal(lv.a[0]):
            st.v[lv.a[0]] = val
            return
        sz, sg = s.tyinfo(lv)
        addr = s.lvaddr(lv, st)
        if s.onset:
            s.onset(addr, sz, val, st, line)
        s.write(addr, sz, val, st)

    def snapshot(s, st):
        return canon(st.log)

    def docall(s, i, st):
        cal = i.a[1] if isinstance(i.a[1], str) else s.ev(i.a[1], st)
        args = tuple(s.ev(a, st) for a in i.a[2])
        name = cal if isinstance(cal, str) else ''
        ev = ('call', cal, args, st.epoch, None if name.split('@')[0] in s.readonly else s.snapshot(st))
        st.events.append(ev)
        if i.a[0]:
            st.v[i.a[0]] = ('ret', len(st.events), cal)
        if name.split('@')[0] not in s.readonly:
            st.log = []
            st.epoch += 1

    def inlinable(s, i, st):
        cal = i.a[1]
        if not isinstance(cal, str):
            cal = s.ev(cal, st)
            cal = cal[1] if isinstance(cal, tuple) and cal[0] == 'fn' else None
        if cal in s.inline and cal in s.P.fns and all(fr[0] is not s.P.fns[cal] for fr in st.frames) and s.P.fns[cal] is not s.f:
            g = s.P.fns[cal]
            if len(g.params) == len(i.a[2]):
                return g
        return None

    def run(s, st, block, isend):
        """explore from block; isend(term, state) -> final value or None to go on (only asked for igoto/switch/ret).
        Returns a list of (final, state)."""
        out = []
        work = [(s.f, block, 0, st)]
        while work:
            s.f, b, k0, st = work.pop()
            while True:
                if k0 == 0:
                    if b in s.stopat and not st.frames and st.visits.get(b, 0):
                        out.append((('again', b), st))
                        break
                    st.visits[b] = st.visits.get(b, 0) + 1
                    if st.visits[b] > s.maxvisit:
                        if s.loopfree is None:
                            raise Giveup('loop')
                        if st.visits[('v', b)] != tuple(st.v.get(u) for u in s.loopfree):
                            raise Giveup('loop changes a register')
                        break       # one more turn of a loop that leaves the registers of interest alone
                    if s.loopfree is not None:
                        st.visits[('v', b)] = tuple(st.v.get(u) for u in s.loopfree)
                B = s.f.blocks[b]
                entered = False
                for k in range(k0, len(B.ins)):
                    i = B.ins[k]
                    if i.op == 'set':
                        v = s.ev(i.a[1], st)
                        t = i.a[0]
                        if t.kind == 'var' and s.islocal(t.a[0]):
                            w = width(s.P.resolve(t.dty or t.ty))
                            if w and w[0] < 64 and v[0] not in ('dbl',):
                                v = ext(v, w[0], bool(w[1]))
                        s.assign(t, v, st, i.line)
                    elif i.op == 'call':
                        g = s.inlinable(i, st)
                        if g is not None:
                            args = [s.ev(a, st) for a in i.a[2]]
                            st.frames += ((s.f, b, k + 1, i.a[0], st.visits),)
                            s.f = g
                            for (u, ty), v in zip(g.params, args):
                                w = width(s.P.resolve(ty))
                                if w and w[0] < 64 and v[0] != 'dbl':
                                    v = ext(v, w[0], bool(w[1]))
                                s.bindparam(u, ty, v, st, i.line)
                            st.visits = {}
                            b, k0, entered = g.entry, 0, True
                            break
                        s.docall(i, st)
                if entered:
                    continue
                k0 = 0
                t = B.term
                if t is None or t.op == 'stop':
                    out.append((('stop',), st))
                    break
                if t.op == 'jmp':
                    b = t.a[0]
                    continue
                if t.op == 'ret':
                    v = s.ev(t.a[0], st) if t.a[0] is not None else None
                    if st.frames:
                        s.f, b, k0, rv, st.visits = st.frames[-1]
                        st.visits = dict(st.visits)
                        st.frames = st.frames[:-1]
                        if rv and v is not None:
                            st.v[rv] = v
                        if k0 == 0:
                            k0 = len(s.f.blocks[b].ins)
                        continue
                    out.append((('ret', v), st))
                    break
                if t.op == 'br':
                    if s.prune:
                        s.prune(st)
                    c = truth(s.ev(t.a[0], st))
                    pos = True
                    if c[0] == 'f' and c[1] == '!':
                        c, pos = c[2], False
                    if c[0] == 'k':
                        val = bool(c[1])
                    elif c in st.conds:
                        val = st.conds[c]
                    else:
                        st2 = st.copy()
                        st2.conds[c] = False
                        work.append((s.f, (t.a[1] if not pos else t.a[2]), 0, st2))
                        if len(work) + len(out) > s.maxpaths:
                            raise Giveup('paths')
                        st.conds[c] = True
                        val = True
                    b = t.a[1] if val == pos else t.a[2]
                    continue
                if t.op == 'switch':
                    v = s.ev(t.a[0], st)
                    e = isend(v, st)
                    if e is not None:
                        out.append((e, st))
                        break
                    if v[0] == 'op':
                        v = K(v[1])
                    if v[0] != 'k':
                        tgt = {}
                        for k, bb in t.a[1]:
                            tgt.setdefault(bb, []).append(k)
                        for bb, ks in tgt.items():
                            st2 = st.copy()
                            st2.conds[('case', v)] = tuple(ks)
                            work.append((s.f, bb, 0, st2))
                        st.conds[('case', v)] = 'default'
                        b = t.a[2]
                        continue
                    b = next((bb for k, bb in t.a[1] if s64(k) == v[1]), t.a[2])
                    continue
                if t.op == 'igoto':
                    v = s.ev(t.a[0], st)
                    e = isend(v, st)
                    if e is not None:
                        out.append((e, st))
                        break
                    if v[0] != 'lab' or v[1] not in s.f.labels:
                        raise Giveup('indirect goto to %r' % (v,))
                    b = s.f.labels[v[1]]
                    continue
                raise Giveup('terminator ' + t.op)
        s.f = s.top
        return out

    def bindparam(s, u, ty, v, st, line):
        if s.islocal(u):
            st.v[u] = v
        else:
            s.write(('addr', u), 8, v, st)


def apart(a, b):
    """the distance of the two addresses is known to exceed the sizes"""
    g = rng(add(mk(a[2], dict(a[1])), mk(b[2], dict(b[1])), -1))
    return bool(g) and (g[0] >= b[3] or g[1] <= -a[3])


def mayalias(a, b):
    if a[0] != b[0]:
        return False
    if a[1] == b[1]:
        return not (a[2] + a[3] <= b[2] or b[2] + b[3] <= a[2])
    return not apart(a, b)


def canon(log):
    """order-normalised store log: independent neighbours are sorted"""
    l = list(log)
    ch = True
    while ch:
        ch = False
        for i in range(len(l) - 1):
            a, b = l[i], l[i + 1]
            if not mayalias(a, b) and repr(b) < repr(a):
                l[i], l[i + 1] = b, a
                ch = True
    return tuple(l)
