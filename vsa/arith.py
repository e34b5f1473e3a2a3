"""Abstract interpretation of C integer code over exact (mathematical) integers.

A value is a polynomial over input and quotient/remainder atoms; a state carries interval facts about linear
forms of monomials and the division identities n = d*q + r it has met.  States are partitioned where an
operation's outcome depends on a sign, on wrap-around or on a comparison, so on every partition an
expression has one exact value.  No solver: entailment is interval arithmetic with substitution of identities.
"""
import math
from fractions import Fraction
from . import cir, poly
from .cir import width, elemty
from .cbuild import AnalysisError

INF = None
M63 = 1 << 63
MINL, MAXL = -(1 << 62), (1 << 62) - 1


class Giveup(Exception):
    pass


class Fork(Exception):
    """re-evaluate the instruction in each of the refined states"""
    def __init__(s, alts):
        s.alts = alts


class Bad(Exception):
    def __init__(s, msg):
        s.msg = msg


# ---- polynomials: dict mono(tuple of atoms) -> coef, as sorted tuples ----------------------------
def P(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=repr))


def const(n):
    return P({(): n})


def wrapc(p):
    """an offset: its constant part as a signed word"""
    c = dict(p).get((), 0)
    d = (c + M63) % (1 << 64) - M63
    return p if c == d else padd(p, const(d - c))


def atom(a):
    return P({(a,): 1})


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return P(d)


def pmul(a, b):
    d = {}
    for m, c in a:
        for m2, c2 in b:
            mm = tuple(sorted(m + m2))
            d[mm] = d.get(mm, 0) + c * c2
    return P(d)


def pscale(a, k):
    return P({m: c * k for m, c in a})


def isconst(p):
    return not p or (len(p) == 1 and p[0][0] == ())


def cval(p):
    return p[0][1] if p else 0


def shows(p):
    if not p:
        return '0'
    return ' + '.join(('%d' % c if m == () else ('' if c == 1 else '-' if c == -1 else '%d*' % c) + '*'.join(m)) for m, c in p).replace('+ -', '- ')


def form(p):
    """(form, k, c): p = k*form + c with form primitive, leading coefficient positive"""
    d = dict(p)
    c = d.pop((), 0)
    if not d:
        return None, 0, c
    g = 0
    for x in d.values():
        g = math.gcd(g, x)
    f = P(d)
    if f[0][1] < 0:
        g = -g
    return P({m: x // g for m, x in d.items()}), g, c


def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def iscale(a, k):
    if k >= 0:
        return (None if a[0] is None else a[0] * k, None if a[1] is None else a[1] * k) if k else (0, 0)
    return (None if a[1] is None else a[1] * k, None if a[0] is None else a[0] * k)


def imul(a, b):
    if None in a or None in b:
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    v = [x * y for x in a for y in b]
    return (min(v), max(v))


def imeet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


def empty(i):
    return i[0] is not None and i[1] is not None and i[0] > i[1]


class Infeasible(Exception):
    pass


class State:
    def __init__(s):
        s.v, s.facts, s.ne, s.ids, s.mem = {}, {}, set(), {}, {}
        s.dbl = {}          # double input -> (lo, loopen, hi, hiopen, maynan, isint: True/False/None)
        s.trace, s.visits, s.frames = (), {}, ()
        s.undef = None
        s.lp = False        # relations between several facts count too

    def copy(s):
        n = State()
        n.v, n.facts, n.ne, n.ids, n.mem = dict(s.v), dict(s.facts), set(s.ne), dict(s.ids), dict(s.mem)
        n.dbl, n.lp = dict(s.dbl), s.lp
        n.trace, n.visits, n.frames = s.trace, dict(s.visits), s.frames
        return n

    # ---- facts
    def afact(s, p, lo, hi):
        """p in [lo,hi]"""
        f, k, c = form(p)
        if f is None:
            if (lo is not None and c < lo) or (hi is not None and c > hi):
                raise Infeasible()
            return
        lo2 = None if lo is None else lo - c
        hi2 = None if hi is None else hi - c
        if k < 0:
            lo2, hi2 = (None if hi2 is None else -hi2), (None if lo2 is None else -lo2)
            k = -k
        lo2 = None if lo2 is None else -((-lo2) // k)
        hi2 = None if hi2 is None else hi2 // k
        old = s.facts.get(f, (None, None))
        new = imeet(old, (lo2, hi2))
        new = s.shave(f, new)
        if empty(new):
            raise Infeasible()
        if new != old:
            s.facts[f] = new
            s.close()

    def shave(s, f, i):
        lo, hi = i
        while lo is not None and (f, lo) in s.ne and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and (f, hi) in s.ne and (lo is None or lo <= hi):
            hi -= 1
        return lo, hi

    def close(s):
        for _ in range(6):
            ch = False
            for f, iv in list(s.facts.items()):
                if len(f) < 2:
                    continue
                ms = [(m, c, s.mono(m)) for m, c in f]
                for j, (m, c, mi) in enumerate(ms):
                    rest = (0, 0)
                    for k, (m2, c2, mi2) in enumerate(ms):
                        if k != j:
                            rest = iadd(rest, iscale(mi2, c2))
                    r = iadd(iv, iscale(rest, -1))          # c*m in r
                    if c < 0:
                        r = iscale(r, -1)
                    a = abs(c)
                    r = (None if r[0] is None else -((-r[0]) // a), None if r[1] is None else r[1] // a)
                    mf = ((m, 1),)
                    old = s.facts.get(mf, (None, None))
                    new = s.shave(mf, imeet(old, r))
                    if empty(new):
                        raise Infeasible()
                    if new != old:
                        s.facts[mf] = new
                        ch = True
            if not ch:
                return

    def mono(s, m):
        if m == ():
            return (1, 1)
        f = s.facts.get(((m, 1),), (None, None))
        if len(m) > 1:
            i = (1, 1)
            for a in m:
                i = imul(i, s.mono((a,)))
            f = imeet(f, i)
        return f

    def direct(s, p):
        r = (0, 0)
        for m, c in p:
            r = iadd(r, iscale(s.mono(m), c))
        return r

    def once(s, p):
        r = s.direct(p)
        f, k, c = form(p)
        if f is None:
            return (c, c)
        if f in s.facts:
            r = imeet(r, iadd(iscale(s.facts[f], k), (c, c)))
        d = dict(p)
        for g, iv in s.facts.items():
            if len(g) < 2 or g == f:
                continue
            for m, cm in g:
                if m in d and d[m] % cm == 0:
                    q = d[m] // cm
                    r = imeet(r, iadd(iscale(iv, q), s.direct(padd(p, g, -q))))
        return r

    def bounds(s, p):
        r = s.once(p)
        for alt in s.alts(p):
            r = imeet(r, s.once(alt))
        f, k, c = form(p)
        if f is not None:
            b = iadd(iscale(s.shave(f, s.inv(r, k, c)), k), (c, c))
            r = imeet(r, b)
        return r

    def sign(s, p, lo, hi):
        """bounds of p narrowed to its possible signs, by all linear facts together"""
        d = {m: c for m, c in p if m != ()}
        c0 = dict(p).get((), 0)
        nd = {m: -c for m, c in d.items()}
        eqs = []
        for (nn, dd), (q, r) in s.ids.items():
            e = dict(padd(padd(nn, pmul(dd, atom(q)), -1), atom(r), -1))
            k = e.pop((), 0)
            eqs.append((e, k))
        neg = (lo is None or lo < 0) and not poly.empty(s.facts, eqs, nd, -c0 - 1)
        pos = (hi is None or hi > 0) and not poly.empty(s.facts, eqs, d, c0 - 1)
        if not neg or not pos:
            zer = (lo is None or lo <= 0) and (hi is None or hi >= 0) and not poly.empty(s.facts, eqs + [(d, c0)], d, c0)
            if not neg:
                lo = max(0 if zer else 1, 0 if lo is None else lo)
            if not pos:
                hi = min(0 if zer else -1, 0 if hi is None else hi)
            if not (neg or pos or zer):
                raise Infeasible()
        return lo, hi

    @staticmethod
    def inv(r, k, c):
        lo = None if r[0] is None else r[0] - c
        hi = None if r[1] is None else r[1] - c
        if k < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            k = -k
        return (None if lo is None else -((-lo) // k), None if hi is None else hi // k)

    def alts(s, p):
        """equal polynomials by the division identities"""
        out = []
        n = s.reduce(p)
        if n != p:
            out.append(n)
        for (nn, dd), (q, r) in s.ids.items():
            # replace R by n - d*q
            x = s.subst(p, r, padd(nn, pmul(dd, atom(q)), -1))
            if x is not None and x != p:
                out.append(x)
            # replace a single-atom n by d*q + r
            if len(nn) == 1 and len(nn[0][0]) == 1:
                c = nn[0][1]
                if abs(c) == 1:
                    x = s.subst(p, nn[0][0][0], pscale(padd(pmul(dd, atom(q)), atom(r)), c))
                    if x is not None and x != p:
                        out.append(x)
        return out

    def subst(s, p, a, val):
        out = ()
        hit = False
        for m, c in p:
            k = m.count(a)
            if not k:
                out = padd(out, P({m: c}))
                continue
            hit = True
            rest = tuple(x for x in m if x != a)
            t = P({rest: c})
            for _ in range(k):
                t = pmul(t, val)
            out = padd(out, t)
        return out if hit else None

    def reduce(s, p):
        """rewrite d*q -> n - r"""
        for _ in range(12):
            done = True
            for (n, d), (q, r) in s.ids.items():
                if len(d) != 1:
                    continue
                (dm, dc), = d
                for m, c in p:
                    if q in m and c % dc == 0:
                        rest = list(m)
                        rest.remove(q)
                        ok = True
                        for a in dm:
                            if a in rest:
                                rest.remove(a)
                            else:
                                ok = False
                        if not ok:
                            continue
                        t = pmul(P({tuple(rest): c // dc}), padd(n, atom(r), -1))
                        p = padd(padd(p, P({m: c}), -1), t)
                        done = False
                        break
            if done:
                break
        return p

    def points(s, p):
        for a in {a for m, c in p for a in m}:
            b = s.facts.get((((a,), 1),))
            if b and b[0] is not None and b[0] == b[1]:
                p = s.subst(p, a, const(b[0]))
        return p

    def rnorm(s, p):
        """remainders rewritten as n - d*q, then d*q as n - r where that cancels"""
        for _ in range(12):
            for (n, d), (q, r) in s.ids.items():
                x = s.subst(p, r, padd(n, pmul(d, atom(q)), -1))
                if x is not None:
                    p = x
                    break
            else:
                break
        return s.points(p)

    def expand(s, p):
        """numbers that were divided by a constant rewritten as their digits"""
        for _ in range(24):
            for (n, d), (q, r) in s.ids.items():
                if isconst(d) and len(n) == 1 and len(n[0][0]) == 1 and abs(n[0][1]) == 1:
                    x = s.subst(p, n[0][0][0], pscale(padd(pmul(d, atom(q)), atom(r)), n[0][1]))
                    if x is not None:
                        p = x
                        break
            else:
                break
        return s.points(p)

    def zero(s, p):
        """provably 0"""
        if not p:
            return True
        if not s.reduce(p) or not s.rnorm(p) or not s.expand(p) or not s.reduce(s.expand(p)):
            return True
        return any(not s.reduce(a) for a in s.alts(p)) or s.bounds(p) == (0, 0) or s.bounds(s.rnorm(p)) == (0, 0) or s.lp and form(p)[0] is not None and s.sign(p, *s.bounds(p)) == (0, 0)

    # ---- splitting on a comparison p op 0
    def assume(s, p, op):
        """list of refinements (as closures' data): op in < <= == != > >="""
        return [(p, op)]


def apply_alt(st, alt):
    """alt: list of ('cmp', poly, lo, hi) / ('ne', poly, c) / ('dbl', input, tuple); raises Infeasible"""
    for x in alt:
        if x[0] == 'cmp':
            st.afact(x[1], x[2], x[3])
        elif x[0] == 'dbl':
            meet_dbl(st, x[1], x[2])


def cases(st, p, op):
    """truth of  p op 0  -> True/False, or ([true alts],[false alts])"""
    b = st.bounds(p)
    lo, hi = b
    f, k, c = form(p)
    if st.lp and f is not None and not (lo is not None and lo > 0 or hi is not None and hi < 0 or lo == hi == 0):
        lo, hi = st.sign(p, lo, hi)
    if f is None:
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0, '>': c > 0, '>=': c >= 0}[op]
    neg = [('cmp', p, None, -1)]
    zer = [('cmp', p, 0, 0)]
    pos = [('cmp', p, 1, None)]
    parts = []
    if lo is None or lo < 0:
        parts.append(('n', neg))
    if (lo is None or lo <= 0) and (hi is None or hi >= 0):
        z = True
        if c % k:
            z = False
        if f is not None and c % k == 0 and (f, -c // k) in st.ne:
            z = False
        if z:
            parts.append(('z', zer))
    if hi is None or hi > 0:
        parts.append(('p', pos))
    sel = {'<': 'n', '<=': 'nz', '==': 'z', '!=': 'np', '>': 'p', '>=': 'zp'}[op]
    t = [a for kx, a in parts if kx in sel]
    e = [a for kx, a in parts if kx not in sel]

    def merge(l, ks):
        # adjacent classes need no split
        names = [kx for kx, a in parts if a in l]
        if names == ['n', 'z']:
            return [[('cmp', p, None, 0)]]
        if names == ['z', 'p']:
            return [[('cmp', p, 0, None)]]
        return l
    t, e = merge(t, 0), merge(e, 0)
    if not e:
        return True
    if not t:
        return False
    return t, e


# ---- doubles ----------------------------------------------------------------------------------------
DTOP = (-math.inf, False, math.inf, False, True, None)


def dnorm(d):
    lo, lop, hi, hop, nan, isint = d
    if lop and lo > -math.inf:
        lo, lop = math.nextafter(lo, math.inf), False
    elif lop:
        lo, lop = -1.7976931348623157e308, False
    if hop and hi < math.inf:
        hi, hop = math.nextafter(hi, -math.inf), False
    elif hop:
        hi, hop = 1.7976931348623157e308, False
    if isint is False:
        # a double that is not an integer is below 2^52 in magnitude (or infinite, which is handled apart)
        B = float(1 << 52)
        lo, hi = max(lo, math.nextafter(-B, 0)), min(hi, math.nextafter(B, 0))
        if lo == int(lo) if abs(lo) < math.inf else False:
            lo = math.nextafter(lo, math.inf)
        if hi == int(hi) if abs(hi) < math.inf else False:
            hi = math.nextafter(hi, -math.inf)
    return lo, False, hi, False, nan, isint


def meet_dbl(st, name, d):
    a = st.dbl.get(name, DTOP)
    isint = a[5] if d[5] is None else d[5]
    if a[5] is not None and d[5] is not None and a[5] != d[5]:
        raise Infeasible()
    n = (max(a[0], d[0]), False, min(a[2], d[2]), False, a[4] and d[4], isint)
    n = dnorm(n)
    if n[0] > n[2]:
        if not n[4]:
            raise Infeasible()
        n = (math.inf, False, -math.inf, False, True, None)     # only NaN left
    st.dbl[name] = n
    # integer atoms derived from this input
    for g in ('trunc', 'rint'):
        f = atom('%s(%s)' % (g, name))
        if n[0] <= n[2]:
            fn = (lambda x: math.trunc(x)) if g == 'trunc' else (lambda x: round(x))
            st.afact(f, fn(n[0]) if n[0] > -math.inf else None, fn(n[2]) if n[2] < math.inf else None)


def half(op, c):
    """double set {x : x op c} without NaN"""
    return {'<': (-math.inf, False, math.nextafter(c, -math.inf) if c < math.inf else 1.7976931348623157e308, False, False, None),
            '<=': (-math.inf, False, c, False, False, None),
            '>': (math.nextafter(c, math.inf) if c > -math.inf else -1.7976931348623157e308, False, math.inf, False, False, None),
            '>=': (c, False, math.inf, False, False, None)}[op]


NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
NANONLY = (math.inf, False, -math.inf, False, True, None)


class Arith:
    """forward analysis of one function from a given block"""

    def __init__(s, P_, f, inputs=None, stop=(), noret=None, maxstates=4000, inline=True):
        s.P, s.f = P_, f
        s.stop = set(stop)
        s.noret = noret          # call graph facts
        s.bad = []           # (line, msg)
        s.max = maxstates
        s.n = 0
        s.loads = inputs or (lambda a, st, e: None)
        s.doinline = inline
        s.oncall = None
        s.lazy8 = False
        s.restop = ()
        s.quietloops = False
        s.onstore = None
        s.cap = 6
        s.turns = None
        s.nonnull = ()
        s.divs = s.wraps = 0

    # -- types
    def ty(s, e):
        return s.P.resolve(e.dty or e.ty)

    def isd(s, e):
        return s.ty(e) in ('double', 'float', 'long double')

    def wid(s, t):
        w = width(t)
        if w:
            return w[0], bool(w[1])
        if t.endswith('*') or t.endswith(')'):
            return 64, False
        return None

    def fit(s, p, w, st, wrap, what, line):
        """value of p in an integer type; signed overflow is a finding unless wrapping is defined"""
        n, sg = w
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        b = st.bounds(p)
        if b[0] is not None and b[1] is not None and lo <= b[0] and b[1] <= hi:
            return ('z', p)
        if not wrap:
            msg = '%s may overflow: the exact value %s is in [%s, %s]' % (what, shows(p), b[0], b[1])
            s.note(line, msg)
            return ('w', p, n, sg)
        s.wraps += 1
        if s.lazy8 and n == 8:
            return ('w', p, n, sg)
        if b[0] is None or b[1] is None:
            return ('w', p, n, sg)
        j0, j1 = (b[0] - lo) >> n, (b[1] - lo) >> n
        if j1 - j0 > 3:
            return ('w', p, n, sg)
        alts = []
        if j0 == j1:
            return ('z', padd(p, const(j0 << n), -1))
        for j in range(j0, j1 + 1):
            alts.append([('cmp', p, lo + (j << n), hi + (j << n))])
        raise Fork(alts)

    def note(s, line, msg):
        if (line, msg) not in s.bad:
            s.bad.append((line, msg))

    # -- l-values
    def addr(s, lv, st):
        if lv.kind == 'var':
            return ('p', lv.a[0], ())
        if lv.kind == 'mem':
            return s.ev(lv.a[0], st)
        if lv.kind == 'fld':
            a = s.addr(lv.a[0], st)
            if a[0] == 'p':
                return ('p', '%s.%s' % (a[1], lv.a[1]), a[2])
            return a
        raise Giveup('lvalue')

    def load(s, lv, st, e):
        if lv.kind == 'var' and lv.a[0] in st.v:
            return st.v[lv.a[0]]
        if cir.arraydim(s.P.resolve(lv.ty)) is not None:
            return s.addr(lv, st)
        a = s.addr(lv, st)
        if a in st.mem:
            return st.mem[a]
        r = s.loads(a, st, e)
        if r is None:
            r = s.opaque('ld:%s%s' % (a[1], ('[%s]' % shows(a[2])) if a[0] == 'p' and a[2] else '') if a[0] == 'p' else 'ld:%r' % (a,), e, st)
            st.mem[a] = r
        return r

    def opaque(s, key, e, st):
        if s.isd(e):
            return ('d', ('in', key))
        t = s.ty(e)
        if t.endswith('*'):
            return ('p', key, ())
        w = s.wid(t)
        if not w:
            return ('o', key)
        n, sg = w
        st.afact(atom(key), *((-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)))
        return ('z', atom(key))

    # -- expressions
    def ev(s, e, st):
        op = e.op
        if op == 'const':
            return ('z', const(e.a[0]))
        if op == 'flt':
            return ('d', ('const', Fraction(float(e.a[0]))))
        if op == 'str':
            return ('p', 'str:%r' % (e.a[0],), ())
        if op in ('fn', 'lab'):
            return (op, e.a[0])
        if op == 'load':
            return s.load(e.a[0], st, e)
        if op == 'addr':
            return s.addr(e.a[0], st)
        if op == 'padd':
            a, i = s.ev(e.a[0], st), s.ev(e.a[1], st)
            et = elemty(s.P.resolve(e.a[0].dty or e.a[0].ty)) or elemty(s.P.resolve(e.a[0].ty))
            try:
                sz = s.P.sizeof(et) if et else 1
            except AnalysisError:
                sz = 1
            if a[0] == 'p' and i[0] == 'z':
                return ('p', a[1], wrapc(padd(a[2], pscale(i[1], sz))))
            if a[0] == 'z' and i[0] == 'z':
                return ('z', padd(a[1], pscale(i[1], sz)))
            return ('o', 'padd')
        if op == 'pdiff':
            a, b = s.ev(e.a[0], st), s.ev(e.a[1], st)
            et = elemty(s.P.resolve(e.a[0].dty or e.a[0].ty))
            sz = s.P.sizeof(et) if et else 1
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                d = padd(a[2], b[2], -1)
                if all(c % sz == 0 for m, c in d):
                    return ('z', P({m: c // sz for m, c in d}))
            return s.opaque('pdiff:%d' % e.line, e, st)
        if op == 'cast':
            return s.cast(e, st)
        if op == 'un':
            return s.unary(e, st)
        if op == 'bin':
            return s.binary(e, st)
        raise Giveup('expression ' + op)

    def cast(s, e, st):
        a = s.ev(e.a[0], st)
        t, ft = s.ty(e), s.ty(e.a[0])
        if t in ('double', 'float', 'long double'):
            if a[0] == 'd':
                return a if t != 'float' else ('d', ('?',))
            if a[0] == 'z':
                if isconst(a[1]):
                    return ('d', ('const', Fraction(float(cval(a[1])))))
                return ('d', ('ofint', a[1]))
            return ('d', ('?',))
        w = s.wid(t)
        if a[0] == 'd':
            if not w:
                return ('o', 'cast')
            return s.toint(a[1], w, st, e)
        if t == 'void' or not w:
            return a
        if t == '_Bool' or t == 'bool':
            return s.boolval(s.cond_v(a, st, e))
        if a[0] == 'z':
            return s.fit(a[1], w, st, True, 'conversion', e.line)
        if a[0] == 'w':
            if a[2] == 8 or a[2] == 32 and w[0] > 32:
                n = a[2]
                r = s.floordiv(a[1], 1 << n, st)[1]
                if w == (n, False) or (w[0] > n and not a[3]):
                    return ('z', r)
                if w == (8, True):
                    return ('w', r, 8, True)
                c = cases(st, padd(r, const(-(1 << (n - 1)))), '<')
                if c is True or c is False:
                    return ('z', r if c else padd(r, const(-(1 << n))))
                raise Fork(c[0] + c[1])
            if w[0] <= a[2]:
                return ('w', a[1], w[0], w[1])
            return s.opaque('cast:%d' % e.line, e, st)
        return a

    def toint(s, d, w, st, e):
        n, sg = w
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        if d[0] == 'const':
            v = int(d[1])
            if lo <= v <= hi:
                return ('z', const(v))
        if d[0] == 'neg' and d[1][0] == 'in' or d[0] in ('floor', 'ceil', 'trunc', 'rint', 'in'):
            x, g = (d[1], d[0]) if d[0] != 'in' else (d, 'trunc')
            if x[0] != 'in':
                raise Giveup('conversion of a computed real')
            cur = st.dbl.get(x[1], DTOP)
            if cur[4]:
                s.note(e.line, 'a NaN can reach the conversion of a real to an integer')
                if cur[0] > cur[2]:
                    return s.opaque('nan:%d' % e.line, e, st)
                raise Fork([[('dbl', x[1], cur[:4] + (False, None))]])
            if g in ('floor', 'ceil'):
                neg = g == 'floor'
                if cur[0] < 0 <= cur[2] or (cur[0] <= 0 < cur[2] and not neg):
                    raise Fork([[('dbl', x[1], half('<', 0.0))], [('dbl', x[1], half('>=', 0.0))]])
                if (cur[2] < 0) == neg and cur[5] is None:
                    raise Fork([[('dbl', x[1], cur[:5] + (True,))], [('dbl', x[1], cur[:5] + (False,))]])
                p = atom('trunc(%s)' % x[1])
                if (cur[2] < 0) == neg and cur[5] is False:
                    p = padd(p, const(-1 if neg else 1))
            else:
                p = atom('%s(%s)' % (g, x[1]))
            b = st.bounds(p)
            if b[0] is None or b[1] is None or b[0] < lo or b[1] > hi:
                s.note(e.line, 'a real outside the range of the integer type can reach the conversion (%s in [%s, %s])' % (shows(p), b[0], b[1]))
                return s.opaque('conv:%d' % e.line, e, st)
            return ('z', p)
        return s.opaque('conv:%r:%d' % (d, e.line), e, st)

    def unary(s, e, st):
        o = e.a[0]
        if o == '!':
            return s.boolval(s.cond(e, st))
        a = s.ev(e.a[1], st)
        if a[0] == 'd':
            if o == '-':
                return ('d', ('const', -a[1][1]) if a[1][0] == 'const' else ('neg', a[1]))
            return a
        if a[0] not in 'zw':
            return ('o', 'un')
        p = pscale(a[1], -1) if o == '-' else padd(pscale(a[1], -1), const(-1)) if o == '~' else a[1]
        w = s.wid(s.ty(e)) or (64, True)
        if a[0] == 'w':
            return ('w', p, a[2], w[1])
        return s.fit(p, w, st, not w[1], 'negation', e.line)

    def boolval(s, c):
        if c is True or c is False:
            return ('z', const(int(c)))
        raise Fork(c[0] + c[1])

    def binary(s, e, st):
        o = e.a[0]
        if o in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'):
            return s.boolval(s.cond(e, st))
        a, b = s.ev(e.a[1], st), s.ev(e.a[2], st)
        if a[0] == 'd' or b[0] == 'd':
            if a[0] == b[0] == 'd' and a[1][0] == b[1][0] == 'const' and o in '+-*':
                x, y = float(a[1][1]), float(b[1][1])
                return ('d', ('const', Fraction(x + y if o == '+' else x - y if o == '-' else x * y)))
            return ('d', ('op', o, a[1], b[1]))
        if a[0] == 'p' or b[0] == 'p':
            if a[0] == 'p' and b[0] == 'z' and o == '&' and isconst(b[1]) and cval(b[1]) in (1, 3, 7):
                m = cval(b[1]) + 1          # allocated objects are aligned
                if all(c % m == 0 for mm, c in a[2] if mm != ()):
                    return ('z', const(dict(a[2]).get((), 0) % m))
            if b[0] == 'p' and a[0] == 'z' and o == '+':
                return ('p', b[1], wrapc(padd(b[2], a[1])))
            if a[0] == 'p' and b[0] == 'z' and o in '+-':
                return ('p', a[1], wrapc(padd(a[2], b[1], 1 if o == '+' else -1)))
            x, y = (shows(v[1]) if v[0] == 'z' else '%s+%s' % (v[1], shows(v[2])) if v[0] == 'p' else '?%d' % e.line for v in (a, b))
            return s.opaque('ptr(%s %s %s)' % (x, o, y), e, st)
        if a[0] not in 'zw' or b[0] not in 'zw':
            return s.opaque('bin:%d' % e.line, e, st)
        w = s.wid(s.ty(e)) or (64, True)
        n, sg = w
        line = e.line
        p, q = a[1], b[1]
        lazy = a[0] == 'w' or b[0] == 'w'
        if o in '+-*':
            r = padd(p, q) if o == '+' else padd(p, q, -1) if o == '-' else pmul(p, q)
            if lazy:
                if (a[0] == 'w' and a[2] < n) or (b[0] == 'w' and b[2] < n):
                    return s.opaque('wrapped:%d' % line, e, st)
                return ('w', r, n, sg)
            return s.fit(r, w, st, not sg, {'+': 'addition', '-': 'subtraction', '*': 'multiplication'}[o], line)
        if o == '<<' and isconst(q):
            r = pscale(p, 1 << cval(q))
            if lazy:
                return ('w', r, n, sg)
            return s.fit(r, w, st, True, 'shift', line)
        if o in '|^' and not (isconst(p) and isconst(q)) and p and q:
            for x, y, vx, vy in ((p, q, a, b), (q, p, b, a)):
                if vy[0] != 'z' or vx[0] == 'w' and vx[2] < n:
                    continue
                g = 0
                for m, c in x:
                    g |= c
                k = g & -g      # x is a multiple of this power of 2
                lo, hi = st.bounds(y)
                if k > 1 and lo is not None and hi is not None and lo >= 0 and hi < k:
                    r = padd(x, y)      # no bit in common
                    return ('w', r, n, sg) if lazy else s.fit(r, w, st, True, 'or', line)
        if o in ('/', '%'):
            s.divs += 1
        if lazy:
            if o == '>>' and a[0] == 'w' and isconst(q) and a[2] == n:
                k = cval(q)
                r = P({m: c // (1 << k) for m, c in p})
                if all(c % (1 << k) == 0 for m, c in p if m != ()):
                    return ('w', r, n - k, sg)
            if o in ('/', '%'):
                c = s.zerodiv(b, st, line)
            return s.opaque('wrapped:%d' % line, e, st)
        if o in ('/', '%'):
            return s.divide(o, p, q, w, st, e)
        if o == '>>':
            if isconst(q):
                return ('z', s.floordiv(p, 1 << cval(q), st)[0])
            return ('z', s.bitatom('>>' if sg else '>>u', p, q, st, e))
        if o == '&' and (isconst(q) or isconst(p)):
            if isconst(p):
                p, q = q, p
            m = cval(q)
            if m >= 0 and (m + 1) & m == 0:
                return ('z', s.floordiv(p, m + 1, st)[1])
        if o in ('&', '|', '^', '<<'):
            return ('z', s.bitatom(o, p, q, st, e))
        raise Giveup('operator ' + o)

    def low(s, p, st):
        """p = 2*p' + c, c a known bit; or (p', None) when the low bit is not known"""
        d = dict(p)
        c0 = d.get((), 0)
        if all(c % 2 == 0 for m, c in d.items() if m != ()):
            return P({m: (c if m != () else c - (c0 & 1)) // 2 for m, c in d.items()}), c0 & 1
        return None

    def bits(s, p, st):
        """k with -2^k <= p < 2^k, and whether p >= 0"""
        b = st.bounds(p)
        if b[0] is None or b[1] is None:
            return 63, False
        return max(b[1].bit_length(), (-b[0] - 1).bit_length() if b[0] < 0 else 0), b[0] >= 0

    def bitatom(s, o, p, q, st, e):
        n, sg = s.wid(s.ty(e)) or (64, True)
        if isconst(p) and isconst(q):
            x, y = cval(p), cval(q)
            if o in '&|^':
                return const({'&': x & y, '|': x | y, '^': x ^ y}[o])
            if 0 <= y < 64:
                return const(x >> y if o[0] == '>' else x << y)
        if o in '&|^':
            a, b = s.low(p, st), s.low(q, st)
            if b is None and a is not None:
                p, q, a, b = q, p, b, a
            if a is None and b is not None and o in '&|' and b[1] == (1 if o == '|' else 0) and not p == q:
                qq, r = s.floordiv(p, 2, st)
                a = (qq, b[1])
            if a and b:
                c = {'&': a[1] & b[1], '|': a[1] | b[1], '^': a[1] ^ b[1]}[o]
                if a[0] != p or b[0] != q:
                    return padd(pscale(s.bitatom(o, a[0], b[0], st, e), 2), const(c))
                return const(c)
            if isconst(q) and cval(q) == 0:
                return const(0) if o == '&' else p
            if isconst(p) and cval(p) == 0:
                return const(0) if o == '&' else q
            k = '(%s)%s(%s)' % tuple([min(shows(p), shows(q)), o, max(shows(p), shows(q))])
            (kp, pp), (kq, pq) = s.bits(p, st), s.bits(q, st)
            kk = max(kp, kq)
            if o == '&' and (pp or pq):
                kk = min([x for x, y in ((kp, pp), (kq, pq)) if y])
            st.afact(atom(k), 0 if (pp and pq) or (o == '&' and (pp or pq)) else -(1 << kk), (1 << kk) - 1)
            return atom(k)
        if o == '<<':
            a = s.low(p, st)
            j = 0
            while a and a[1] == 0 and a[0] and j < 8:
                p, j = a[0], j + 1
                a = s.low(p, st)
            if not p:
                return ()
            k = '(%s)<<(%s)' % (shows(p), shows(q))
            st.afact(atom(k), -(1 << (n - j - 1)) if sg else 0, (1 << (n - j - (1 if sg else 0))) - 1)
            return pscale(atom(k), 1 << j)
        if not p:
            return ()
        k = '(%s)%s(%s)' % (shows(p), o, shows(q))
        kp, pp = s.bits(p, st)
        st.afact(atom(k), 0 if pp else -(1 << kp), (1 << kp) - 1)
        return atom(k)

    def floordiv(s, p, d, st):
        """(quotient, remainder) polys of floor division by a positive constant"""
        if d == 1:
            return p, ()
        q, r = {}, {}
        for m, c in p:
            if m == ():
                continue
            if c % d == 0:
                q[m] = c // d
            else:
                r[m] = c
        c0 = dict(p).get((), 0)
        for cc in (c0 % d, c0):
            rp = padd(P(r), const(cc))
            b = st.bounds(rp)
            if b[0] is not None and b[1] is not None and 0 <= b[0] and b[1] < d:
                return padd(P(q), const((c0 - cc) // d)), rp
        n2 = st.rnorm(p)
        if n2 != p and len(n2) <= len(p):
            return s.floordiv(n2, d, st)
        # quotient atom of the part that does not divide
        rp = padd(P(r), const(c0 % d))
        if d > 256 and d & (d - 1) == 0 and (d.bit_length() - 1) % 8 == 0:
            q1, r1 = s.floordiv(rp, 256, st)
            q2, r2 = s.floordiv(q1, d // 256, st)
            rem = padd(rp, pscale(q2, -d))
            st.afact(rem, 0, d - 1)
            return padd(padd(P(q), const((c0 - c0 % d) // d)), q2), rem
        g = d
        for m, c in rp:
            g = math.gcd(g, c) if m != () else g
        if g > 1:
            k = dict(rp).get((), 0) % g
            rp2 = P({m: (c if m != () else c - k) // g for m, c in rp})
            qq, rr = s.floordiv(rp2, d // g, st)
            return padd(padd(P(q), const((c0 - c0 % d) // d)), qq), padd(pscale(rr, g), const(k))
        Q, R = s.qr(rp, const(d), st)
        return padd(padd(P(q), const((c0 - c0 % d) // d)), atom(Q)), atom(R)

    def qr(s, n, d, st):
        """atoms of n = d*Q + R, 0 <= R < d (floor), d > 0"""
        if (n, d) in st.ids:
            return st.ids[(n, d)]
        Q, R = 'q[%s / %s]' % (shows(n), shows(d)), 'r[%s / %s]' % (shows(n), shows(d))
        st.ids[(n, d)] = (Q, R)
        bn, bd = st.bounds(n), st.bounds(d)
        dl = max(1, bd[0] or 1)
        lo = hi = None
        if bn[1] is not None:
            hi = bn[1] // dl if bn[1] >= 0 else (-1 if bd[1] is None else bn[1] // bd[1])
        if bn[0] is not None:
            lo = bn[0] // dl if bn[0] < 0 else (0 if bd[1] is None else bn[0] // bd[1])
        st.afact(atom(Q), lo, hi)
        st.afact(atom(R), 0, None if bd[1] is None else bd[1] - 1)
        st.afact(padd(d, atom(R), -1), 1, None)
        if isconst(d):
            st.afact(padd(padd(n, atom(R), -1), pscale(atom(Q), -cval(d))), 0, 0)
        if lo is not None and lo >= 0:
            st.afact(padd(n, atom(R), -1), 0, None)
            st.afact(padd(n, atom(Q), -1), 0, None)
        return Q, R

    def zerodiv(s, b, st, line):
        if b[0] == 'z':
            f, k, c = form(b[1])
            if f is None:
                return c == 0
            t = cases(st, b[1], '==')
            if t is True:
                return True
            if t is False:
                return False
            return None
        return None

    def divide(s, o, p, q, w, st, e):
        z = cases(st, q, '==')
        if z is not False:
            s.note(e.line, 'the divisor %s can be zero' % shows(q))
            if z is True:
                raise Infeasible()
            raise Fork(z[1])
        sq = cases(st, q, '<')
        if sq is not True and sq is not False:
            raise Fork(sq[0] + sq[1])
        sp = cases(st, p, '<')
        if sp is not True and sp is not False:
            raise Fork(sp[0] + sp[1])
        n, d = (pscale(p, -1) if sp else p), (pscale(q, -1) if sq else q)
        if w[1] and sp and sq:
            bn, bd = st.bounds(n), st.bounds(d)
            if (bn[1] is None or bn[1] >= 1 << (w[0] - 1)) and (bd[0] is None or bd[0] <= 1):
                s.note(e.line, 'the most negative number can be divided by -1')
        g = 0
        for m, c in n + d:
            g = math.gcd(g, c)
        g = g or 1
        n2, d2 = P({m: c // g for m, c in n}), P({m: c // g for m, c in d})
        if isconst(d2):
            Q, R = s.floordiv(n2, cval(d2), st)
        elif isconst(n2) and cval(n2) == 0:
            Q, R = (), ()
        else:
            Q, R = s.qr(n2, d2, st)
            Q, R = atom(Q), atom(R)
        if o == '/':
            r = pscale(Q, -1) if sp != sq else Q
        else:
            r = pscale(R, -g if sp else g)
        return s.fit(r, w, st, not w[1], 'division', e.line)

    # -- conditions: True/False or (true alts, false alts)
    def cond(s, e, st):
        op = e.op
        if op == 'un' and e.a[0] == '!':
            c = s.cond(e.a[1], st)
            return (not c) if isinstance(c, bool) else (c[1], c[0])
        if op == 'bin' and e.a[0] in ('<', '<=', '>', '>=', '==', '!='):
            a, b = s.ev(e.a[1], st), s.ev(e.a[2], st)
            o = e.a[0]
            if a[0] == 'd' or b[0] == 'd':
                return s.dcond(o, a, b, st, e)
            if a[0] == 'z' and b[0] == 'z':
                return cases(st, padd(a[1], b[1], -1), o)
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                return cases(st, padd(a[2], b[2], -1), o)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'p' and x[1] in s.nonnull and y == ('z', ()) and o in ('==', '!='):
                    return o == '!='
            return s.unknown(e)
        if op == 'cast' and not s.isd(e.a[0]):
            t = s.ty(e)
            w, wf = s.wid(t), s.wid(s.ty(e.a[0]))
            if w and wf and w[0] >= wf[0]:
                return s.cond(e.a[0], st)
        return s.cond_v(s.ev(e, st), st, e)

    def cond_v(s, a, st, e):
        if a[0] == 'z':
            return cases(st, a[1], '!=')
        if a[0] == 'd':
            return s.dcond('!=', a, ('d', ('const', Fraction(0))), st, e)
        if a[0] == 'p' and not a[1].startswith('ld:'):
            return True
        return s.unknown(e)

    def unknown(s, e):
        return ([[('mark', 1)]], [[('mark', 0)]])

    def dcond(s, o, a, b, st, e):
        if a[0] != 'd' or b[0] != 'd':
            return s.unknown(e)
        x, y = a[1], b[1]
        if x[0] == 'const' and y[0] != 'const':
            x, y, o = y, x, FLIP[o]
        if x == y and x[0] == 'in':
            cur = st.dbl.get(x[1], DTOP)
            nan = [[('dbl', x[1], NANONLY)]] if cur[4] else []
            num = [[('dbl', x[1], cur[:4] + (False, None))]] if cur[0] <= cur[2] else []
            if o in ('==', '<=', '>='):
                t, f = num, nan
            elif o == '!=':
                t, f = nan, num
            else:
                return False
            return True if not f else False if not t else (t, f)
        if x[0] == 'const' and y[0] == 'const':
            u, v = x[1], y[1]
            return {'<': u < v, '<=': u <= v, '>': u > v, '>=': u >= v, '==': u == v, '!=': u != v}[o]
        if x[0] == 'neg' and y[0] == 'const':
            return s.dcond(FLIP[o], ('d', x[1]), ('d', ('const', -y[1])), st, e)
        if x[0] == 'ofint' and y[0] == 'in':
            x, y, o = y, x, FLIP[o]
        if x[0] in ('in', 'floor', 'ceil', 'rint', 'trunc') and y[0] == 'const':
            c = float(y[1])
            r = x if x[0] == 'in' else x[1]
            if r[0] != 'in':
                return s.unknown(e)
            cur = st.dbl.get(r[1], DTOP)
            if x[0] != 'in':
                # monotone integer-valued function of the input: pull the threshold back
                ci = int(math.floor(c))
                if abs(c) >= float(1 << 53):
                    pass
                elif x[0] == 'floor' and c == ci:
                    o, c = {'<': ('<', c), '>=': ('>=', c), '<=': ('<', c + 1), '>': ('>=', c + 1)}.get(o, (None, c))
                elif x[0] == 'ceil' and c == ci:
                    o, c = {'>': ('>', c), '<=': ('<=', c), '<': ('<=', c - 1), '>=': ('>', c - 1)}.get(o, (None, c))
                else:
                    return s.unknown(e)
                if o is None:
                    return s.unknown(e)

            def feas(d):
                t = State()
                t.dbl = {r[1]: cur}
                try:
                    meet_dbl(t, r[1], d)
                    return True
                except Infeasible:
                    return False
            if o in ('==', '!='):
                eq = [('dbl', r[1], (c, False, c, False, False, None))]
                t = [eq]
                f = [[('dbl', r[1], half('<', c))], [('dbl', r[1], half('>', c))], [('dbl', r[1], NANONLY)]]
                if o == '!=':
                    t, f = f, t
            else:
                t = [[('dbl', r[1], half(o, c))]]
                f = [[('dbl', r[1], half(NEG[o], c)[:4] + (True, None))]]
            t = [q for q in t if feas(q[0][2])]
            f = [q for q in f if feas(q[0][2])]
            return True if not f else False if not t else (t, f)
        if x[0] == 'in' and y[0] == 'ofint':
            # the integer is trunc(x): equal exactly when x is an integer
            T = atom('trunc(%s)' % x[1])
            cur = st.dbl.get(x[1], DTOP)
            if y[1] == T and not cur[4]:
                if cur[5] is None:
                    if cur[0] < 0 <= cur[2]:
                        raise Fork([[('dbl', x[1], half('<', 0.0))], [('dbl', x[1], half('>=', 0.0))]])
                    raise Fork([[('dbl', x[1], cur[:5] + (True,))], [('dbl', x[1], cur[:5] + (False,))]])
                if cur[5]:
                    return o in ('==', '<=', '>=')
                below = cur[2] < 0      # x < trunc(x)
                return {'<': below, '<=': below, '>': not below, '>=': not below, '==': False, '!=': True}[o]
        return s.unknown(e)

    # -- running
    def run(s, st, block):
        """[(kind, info, state)]: kind in ret/igoto/stop/raise/enter"""
        out = []
        work = [(s.f, block, 0, st)]
        while work:
            f, b, k0, st = work.pop()
            s.n += 1
            if s.n > s.max:
                raise Giveup('too many states')
            s.cur = f
            if k0 == 0:
                if not st.frames and b in s.stop and s.n > 1:
                    out.append(('enter', b, st))
                    continue
                if not st.frames and b in s.restop and st.visits.get(b, 0):
                    out.append(('again', b, st))
                    continue
                st.visits[b] = st.visits.get(b, 0) + 1
                if s.quietloops:
                    k = ('t', b)
                    old = st.visits.get(k)
                    if old is not None and old[0] == len(st.trace):
                        if old[1] >= (3 if s.quietloops is True else s.quietloops):
                            continue        # turns of a loop that do nothing observable
                        st.visits[k] = (old[0], old[1] + 1)
                    else:
                        st.visits[k] = (len(st.trace), 1)
                if s.turns and st.visits[b] > s.turns:
                    continue        # a loop followed for that many turns
                if st.visits[b] > s.cap:
                    raise Giveup('loop in %s' % f.name)
            B = f.blocks[b]
            again = None
            k = k0
            dead = False
            while k < len(B.ins):
                i = B.ins[k]
                try:
                    if i.op == 'set':
                        s.assign(i, st)
                    elif i.op == 'call':
                        r = s.call(i, st, f, b, k)
                        if r is not None:
                            again = r
                            break
                except Fork as F:
                    again = [(f, b, k, n) for n in s.forks(st, F.alts)]
                    for x in again:
                        x[3].visits[b] = x[3].visits.get(b, 0)
                    break
                except Infeasible:
                    dead = True
                    break
                k += 1
            if dead:
                continue
            if again is not None:
                for x in again:
                    if x[0] == 'out':
                        out.append(x[1:])
                    else:
                        # restart inside the block without counting a new visit
                        if x[2] == 0 and x[1] == b and x[0] is f:
                            x[3].visits[b] -= 1
                        work.append(x)
                continue
            t = B.term
            try:
                if t is None or t.op == 'stop':
                    out.append(('stop', None, st))
                elif t.op == 'jmp':
                    work.append((f, t.a[0], 0, st))
                elif t.op == 'ret':
                    v = s.ev(t.a[0], st) if t.a and t.a[0] is not None else None
                    if st.frames:
                        f2, b2, k2, dst, vis, tmp = st.frames[-1]
                        st.frames = st.frames[:-1]
                        for u in [u for u in st.v if u[0] == '%']:
                            del st.v[u]
                        st.v.update(tmp)
                        st.visits = dict(vis)
                        if dst and v is not None:
                            st.v[dst] = v
                        if k2 == 0:
                            raise Giveup('return point')
                        work.append((f2, b2, k2, st))
                    else:
                        out.append(('ret', v, st))
                elif t.op == 'br':
                    c = s.cond(t.a[0], st)
                    if c is True or c is False:
                        work.append((f, t.a[1] if c else t.a[2], 0, st))
                    else:
                        for n in s.forks(st, c[0]):
                            work.append((f, t.a[1], 0, n))
                        for n in s.forks(st, c[1]):
                            work.append((f, t.a[2], 0, n))
                elif t.op == 'switch':
                    v = s.ev(t.a[0], st)
                    if v[0] != 'z':
                        raise Giveup('switch')
                    rest = []
                    done = False
                    for kk, bb in t.a[1]:
                        c = cases(st, padd(v[1], const(kk), -1), '==')
                        if c is True:
                            work.append((f, bb, 0, st))
                            done = True
                            break
                        if c is False:
                            continue
                        for n in s.forks(st, c[0]):
                            work.append((f, bb, 0, n))
                        fm, kf, cc = form(padd(v[1], const(kk), -1))
                        if (-cc) % kf == 0:
                            st.ne.add((fm, -cc // kf))
                    if not done:
                        work.append((f, t.a[2], 0, st))
                elif t.op == 'igoto':
                    out.append(('igoto', s.ev(t.a[0], st), st))
                else:
                    raise Giveup('terminator')
            except Fork as F:
                for n in s.forks(st, F.alts):
                    n.visits[b] = n.visits.get(b, 0) - (1 if not len(B.ins) else 0)
                    work.append((f, b, len(B.ins), n)) if B.ins else work.append((f, b, 0, n))
            except Infeasible:
                pass
        return out

    def forks(s, st, alts):
        out = []
        for a in alts:
            n = st.copy()
            try:
                apply_alt(n, a)
                out.append(n)
            except Infeasible:
                pass
        return out

    def assign(s, i, st):
        lv = i.a[0]
        if lv.kind == 'var' and cir.arraydim(s.P.resolve(lv.ty)) is None:
            v = s.ev(i.a[1], st)
            w = s.wid(s.P.resolve(lv.dty or lv.ty))
            if v[0] == 'z' and w:
                v = s.fit(v[1], w, st, True, 'assignment', i.line)
            if v[0] == 'w' and w and w[0] < v[2]:
                v = ('w', v[1], w[0], w[1])
            st.v[lv.a[0]] = v
            return
        v = s.ev(i.a[1], st)
        a = s.addr(lv, st)
        w = s.wid(s.P.resolve(lv.dty or lv.ty))
        if v[0] == 'z' and w:
            v = s.fit(v[1], w, st, True, 'assignment', i.line)
        if s.onstore and s.onstore(a, v, st, i, s.P.sizeof(s.P.resolve(lv.dty or lv.ty))):
            return
        st.mem[a] = v

    def call(s, i, st, f, b, k):
        cal = i.a[1]
        name = cal if isinstance(cal, str) else None
        if name is None:
            v = s.ev(cal, st)
            name = v[1] if v[0] == 'fn' else None
        base = (name or '').split('@')[0]
        if s.oncall:
            r = s.oncall(base, i, st)
            if r == 'stop':
                return [('out', 'raise', base, st)]
            if r is not None:
                if i.a[0]:
                    st.v[i.a[0]] = r
                return None
        if base in ('floor', 'ceil', 'rint', 'nearbyint', 'trunc', 'fabs'):
            v = s.ev(i.a[2][0], st)
            g = 'rint' if base == 'nearbyint' else base
            if i.a[0]:
                st.v[i.a[0]] = ('d', (g, v[1])) if v[0] == 'd' and base != 'fabs' else ('d', ('?',))
            return None
        if base in ('isnan', '__builtin_isnan', 'isnan_') and i.a[0]:
            v = s.ev(i.a[2][0], st)
            if v[0] == 'd' and v[1][0] == 'in':
                c = s.dcond('!=', v, v, st, i.a[2][0])
                st.v[i.a[0]] = s.boolval(c)
                return None
        if s.noret and s.noret.is_noreturn(i, f):
            return [('out', 'raise', base, st)]
        g = s.P.fns.get(name)
        if g is not None and s.doinline and len(st.frames) < 6 and all(fr[0] is not g for fr in st.frames) and g is not s.f and len(g.params) == len(i.a[2]):
            vals = [s.ev(a, st) for a in i.a[2]]
            n = st
            for (u, ty), v in zip(g.params, vals):
                w = s.wid(s.P.resolve(ty))
                if v[0] == 'z' and w:
                    v = s.fit(v[1], w, n, True, 'argument', i.line)
                n.v[u] = v
            n.frames = n.frames + ((f, b, k + 1, i.a[0], dict(n.visits), {u: v for u, v in n.v.items() if u[0] == '%'}),)
            n.visits = {}
            return [(g, g.entry, 0, n)]
        if i.a[0]:
            ty = f.vars[i.a[0]][1] if i.a[0] in f.vars else 'long'
            class T:
                pass
            e = T()
            e.ty = e.dty = ty
            st.v[i.a[0]] = s.opaque('call:%s:%d:%d' % (base, b if isinstance(b, int) else 0, k), e, st)
        return None
