"""C01: no write leaves a fixed-size or just-allocated buffer.

Forward abstract interpretation of every function with convex polyhedra.  Dimensions: the integer variables, the
byte offset of each pointer inside its region, and per region its size, the position of its first NUL and (ML
strings) its length.  C wrap-around is exact: a result that cannot be shown to stay inside its type is unknown.
States are kept apart by the regions the pointers point to; at loop heads the inequalities that are not stable are
dropped (guards and obligations serve as templates), equalities are joined by their affine hull."""
import os
import re
from fractions import Fraction
from . import checks, cir, cflow, poly, pstate, cbuild
from .cir import E, LV, strip_quals, is_ptr_ty, elemty, show, showlv, width
from .cbuild import AnalysisError
from .report import Result

HUGE = 1 << 57
ALLOCS = {'malloc': 0, 'stat_alloc': 0, 'alloc_string': 0, 'caml_stat_alloc': 0, 'xmalloc': 0, 'allocate': 0, '__builtin_alloca': 0, 'alloca': 0}
PURE = set('''strlen strcmp strncmp memcmp atoi atol atof strtol strtod getenv access stat lstat open close lseek printf fprintf puts fputs putc fputc putchar fwrite write send
 isspace isdigit isalpha isalnum isupper islower toupper tolower abs labs free perror exit fflush fclose fopen unlink strerror string_length is_printable'''.split())


def lin(c=0, **k):
    return ({}, c)


def ladd(a, b, k=1):
    d = dict(a[0])
    for m, v in b[0].items():
        w = d.get(m, 0) + k * v
        if w:
            d[m] = w
        else:
            d.pop(m, None)
    return d, a[1] + k * b[1]


def lscale(a, k):
    if k == 0:
        return {}, 0
    return {m: v * k for m, v in a[0].items()}, a[1] * k


def C(n):
    return {}, n


def D(m):
    return {m: 1}, 0


def norm(d, c):
    d, c = poly.tighten(d, c)
    return tuple(sorted(d.items())), c


class Poly:
    """ine: {form: c} meaning form + c >= 0;  eqs: list of (dict, c)"""
    __slots__ = ('ine', 'eqs')

    def __init__(s, ine=None, eqs=None):
        s.ine = dict(ine or {})
        s.eqs = list(eqs or [])

    def copy(s):
        return Poly(s.ine, s.eqs)

    def add(s, l):
        """l >= 0; False if trivially impossible"""
        d, c = l
        if not d:
            return c >= 0
        k, c = norm(d, c)
        if k not in s.ine or c < s.ine[k]:
            s.ine[k] = c
        return True

    def canon(s):
        """l >= 0 and -l >= 0 is l = 0"""
        for k, c in list(s.ine.items()):
            n = tuple((m, -v) for m, v in k)
            if k in s.ine and s.ine.get(n) == -c:
                del s.ine[n], s.ine[k]
                s.eqs.append((dict(k), c))

    def addeq(s, l):
        d, c = l
        d = {m: v for m, v in d.items() if v}
        if not d:
            return c == 0
        s.eqs.append((d, c))
        return True

    def dims(s):
        r = set()
        for k in s.ine:
            r.update(m for m, _ in k)
        for d, _ in s.eqs:
            r.update(d)
        return r

    def component(s, act):
        act = set(act)
        pool = [(dict(k), c, 0) for k, c in s.ine.items()] + [(d, c, 1) for d, c in s.eqs]
        pick = []
        ch = True
        while ch:
            ch = False
            rest = []
            for t in pool:
                if act & t[0].keys():
                    act |= t[0].keys()
                    pick.append(t)
                    ch = True
                else:
                    rest.append(t)
            pool = rest
        return act, pick

    def subst(s, m, l):
        """replace dimension m by l (a form without m)"""
        ne = []
        for d, c in s.eqs:
            q = d.get(m)
            if q:
                d2 = {x: v for x, v in d.items() if x != m}
                ne.append(ladd((d2, c), l, q))
            else:
                ne.append((d, c))
        s.eqs = [(d, c) for d, c in ne if d]
        ni = {}
        for k, c in s.ine.items():
            q = 0
            for x, v in k:
                if x == m:
                    q = v
            if q:
                d, c = ladd(({x: v for x, v in k if x != m}, c), l, q)
                if not d:
                    continue
                k, c = norm(d, c)
            if k not in ni or c < ni[k]:
                ni[k] = c
        s.ine = ni


class St:
    __slots__ = ('P', 'reg', 'breg', 'nul', 'memo')

    def __init__(s):
        s.P, s.reg, s.breg, s.nul, s.memo = Poly(), {}, {}, frozenset(), {}

    def copy(s):
        n = St()
        n.P, n.reg, n.breg, n.nul, n.memo = s.P.copy(), dict(s.reg), dict(s.breg), s.nul, dict(s.memo)
        return n


# the links of the trap frames stay inside the stack: the shape of a chain, not an offset (I02)
CHAINS = {('realloc_stack', 'store'): 'a walk along the chain of trap frames'}
# counters of the words of an object in memory
COUNTS = {'extern_pos': (0, 1 << 59), 'extern_size': (0, 1 << 59)}
ANYMEM = {'*1', '*2', '*4', '*8', '*16', '*?'}


class Undec(Exception):
    pass


def natural(f, heads, pos):
    """head -> blocks of its loop"""
    pred = {}
    for b in f.blocks.values():
        if b.id in pos:
            for k in b.succs(f):
                pred.setdefault(k, []).append(b.id)
    out = {}
    for h in heads:
        body = {h}
        st = [p for p in pred.get(h, ()) if pos[p] >= pos[h]]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st += [p for p in pred.get(x, ()) if pos[p] > pos[h]]
        out[h] = body
    return out


def clear(S, pred):
    pass


class Fun:
    """analysis of one function"""

    def __init__(s, T, f):
        s.arith = {}
        s.two = set()
        s.T, s.f, s.prog = T, f, T.P
        s.rng = {}
        s.templates = set()
        s.size0 = {}
        s.live = cflow.liveness(f)
        s.check = False
        s.n = 0
        s.vty = {}
        s.late = {}

    # ---- ranges -----------------------------------------------------------------------------------
    def tyrange(s, ty):
        w = width(s.prog.resolve(ty)) if ty else None
        if not w:
            return None
        b, sg = w
        return (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, (1 << b) - 1)

    def range(s, m):
        if m in s.rng:
            return s.rng[m]
        if m[:2] in ('o:', 'b:'):
            return None
        if m.startswith(('len:', 'slen:', 'z:')):
            return (0, HUGE)
        if m.startswith('size:'):
            return (0, (1 << 64) - 1)
        return None

    def entails(s, S, l):
        """l >= 0 in every concrete state"""
        d, c = l
        if not d:
            return c >= 0
        # interval shortcut
        k, cc = norm(d, c)
        if S.P.ine.get(k, cc + 1) <= cc:
            return True
        act, pick = S.P.component(d)
        cons = {}
        eqs = []
        rows = []
        for e, f, q in pick:
            if q:
                eqs.append((e, f))
            else:
                rows.append((e, f))
        for m in act:
            r = s.range(m)
            if r:
                rows.append(({m: 1}, -r[0]))
                rows.append(({m: -1}, r[1]))
        return poly.empty(rows, eqs, {m: -v for m, v in d.items()}, -c - 1)

    def feasible(s, S, l):
        return not s.entails(S, ladd(C(-1), l, -1))

    # ---- updates ----------------------------------------------------------------------------------
    def project(s, S, m):
        P = S.P
        for n, (d, c) in enumerate(P.eqs):
            if abs(d.get(m, 0)) == 1:
                k = d[m]
                rest = ({x: -v * k for x, v in d.items() if x != m}, -c * k)
                r = s.range(m)
                del P.eqs[n]
                P.subst(m, rest)
                if r and r[1] - r[0] < 1 << 40 and rest[0]:
                    P.add(ladd(rest, C(-r[0])))
                    P.add(ladd(C(r[1]), rest, -1))
                elif r and r[0] == 0 and rest[0]:
                    P.add(rest)
                return
        ne = []
        for d, c in P.eqs:
            if m in d:
                P.add((d, c))
                P.add(lscale((d, c), -1))
            else:
                ne.append((d, c))
        P.eqs = ne
        lo, hi, rest = [], [], {}
        for k, c in P.ine.items():
            q = dict(k).get(m, 0)
            if q > 0:
                lo.append((dict(k), c))
            elif q < 0:
                hi.append((dict(k), c))
            else:
                rest[k] = c
        if not lo and not hi:
            return
        r = s.range(m)
        if r:
            lo.append(({m: 1}, -r[0]))
            if r[1] < 1 << 58:
                hi.append(({m: -1}, r[1]))
        if len(lo) * len(hi) > 60:
            # without the redundant ones
            for t in (lo, hi):
                for d, c in sorted(t, key=lambda x: -len(x[0])):
                    k = tuple(sorted(d.items()))
                    if P.ine.get(k) == c:
                        del P.ine[k]
                        if s.entails(S, (d, c)):
                            t.remove((d, c))
                        else:
                            P.ine[k] = c
            while len(lo) * len(hi) > 150:
                t = max(lo, hi, key=len)
                t.remove(max(t, key=lambda x: len(x[0])))
        P.ine = rest
        for d, c in lo:
            for e, f in hi:
                a, b = d[m], -e[m]
                l = ladd(lscale(({x: v for x, v in d.items() if x != m}, c), b), lscale(({x: v for x, v in e.items() if x != m}, f), a))
                P.add(l)

    def assign(s, S, m, l):
        q = l[0].get(m, 0)
        if q:
            if q == 1:
                rest = ladd(l, D(m), -1)
                if not rest[0] and rest[1] == 0:
                    return
                S.P.subst(m, ladd(D(m), rest, -1)) if m not in rest[0] else None
                return
            t = 'v:%tmp~'
            s.rng[t] = None
            S.P.subst(m, D(t))
            l = ladd(({x: v for x, v in l[0].items() if x != m}, l[1]), D(t), q)
            S.P.addeq(ladd(D(m), l, -1))
            s.project(S, t)
            return
        s.project(S, m)
        S.P.addeq(ladd(D(m), l, -1))

    def havoc(s, S, m):
        s.project(S, m)

    def killdeps(s, S, loc):
        for t in [t for t, d in S.memo.items() if loc in d]:
            s.forget(S, t)

    def forget(s, S, t):
        S.memo.pop(t, None)
        s.project(S, 'v:' + t)
        if t in S.reg:
            del S.reg[t]
            s.project(S, 'o:' + t)
        s.unbyte(S, t)

    def unbyte(s, S, t):
        if t in S.breg:
            del S.breg[t]
            s.project(S, 'b:' + t)

    def killmem(s, S, ty=None):
        k = s.star(ty) if ty else None
        hit = ANYMEM if k in (None, '*?', '*1') else {k, '*1', '*?'}
        for t in [t for t, d in S.memo.items() if d & hit]:
            s.forget(S, t)

    def killloc(s, S, loc):
        s.killdeps(S, loc)
        s.project(S, 'v:' + loc)
        if loc in S.reg:
            del S.reg[loc]
            s.project(S, 'o:' + loc)
        s.unbyte(S, loc)

    # ---- naming -----------------------------------------------------------------------------------
    def deps(s, e):
        r = set()

        def w(x):
            if x.op == 'load':
                l = x.a[0]
                if l.root().kind == 'var':
                    u = l.root().a[0]
                    r.add(u)
                    if l.kind != 'var' and (u in s.f.addr_taken or '#g' in u):
                        r.add(s.star(l.dty))
                else:
                    r.add(s.star(l.dty))
        cflow.walk_e(e, w)
        return frozenset(r)

    def star(s, ty):
        """memory of this effective type (an object is read and written with one type, or as bytes: C11 6.5p7)"""
        t = s.prog.resolve(ty) if ty else ''
        if is_ptr_ty(t):
            return '*8'
        w = width(t)
        return '*%d' % (w[0] // 8) if w else '*?'

    def depslv(s, l):
        return s.deps(E('load', (l,), l.ty, l.dty))

    def key(s, lv):
        """location key of an l-value, None when it is reached through a pointer"""
        if lv.kind == 'var':
            return lv.a[0]
        if lv.kind == 'fld':
            b = s.key(lv.a[0])
            return b and b + '.' + lv.a[1]
        return None

    def memkey(s, e):
        def sl(l):
            if l.kind == 'var':
                return l.a[0]
            if l.kind == 'mem':
                return '*(%s)' % se(l.a[0])
            return sl(l.a[0]) + '.' + l.a[1]

        def se(x):
            if x.op in ('load', 'addr'):
                return ('&' if x.op == 'addr' else '') + sl(x.a[0])
            return '%s(%s:%s)' % (x.op, s.prog.resolve(x.ty) if x.op == 'cast' else '', ','.join(se(k) if isinstance(k, E) else str(k) for k in x.a))
        return se(e)

    def memo(s, S, e, ty=None):
        t = s.memkey(e)
        new = t not in S.memo
        if new:
            S.memo[t] = s.deps(e)
        s.rng['v:' + t] = s.tyrange(ty or e.ty)
        return t, new

    def fresh(s, S, e):
        t, _ = s.memo(S, e)
        return D('v:' + t)

    def newregion(s, S, name, nul=True):
        """forget whatever pointed to the previous instance"""
        for t in [t for t, r in S.reg.items() if r == name]:
            if t in S.memo:
                s.forget(S, t)
            else:
                del S.reg[t]
                s.project(S, 'o:' + t)
        for t in [t for t, r in S.breg.items() if r == name]:
            s.unbyte(S, t)
        for g in ('len:', 'slen:', 'size:', 'z:'):
            s.project(S, g + name)
        S.nul = S.nul - {name}
        if nul:
            s.isnul(S, name)
        return name

    def isnul(s, S, R):
        if R not in S.nul:
            S.nul = S.nul | {R}
            s.project(S, 'len:' + R)
            s.project(S, 'z:' + R)
            if not R.startswith('s:'):
                S.P.add(ladd(D('z:' + R), D('len:' + R), -1))
            else:
                S.P.addeq(ladd(D('z:' + R), D('len:' + R), -1))

    # ---- expressions ------------------------------------------------------------------------------
    def isval(s, ty):
        return strip_quals(ty) == 'value'

    def fits(s, S, l, ty):
        r = s.tyrange(ty)
        if not r:
            return True
        if not l[0]:
            return r[0] <= l[1] <= r[1]
        return s.entails(S, ladd(l, C(-r[0]))) and s.entails(S, ladd(C(r[1]), l, -1))

    def isint(s, ty):
        return bool(width(s.prog.resolve(ty))) and not is_ptr_ty(s.prog.resolve(ty))

    def ev(s, S, e):
        op = e.op
        if op == 'const' and isinstance(e.a[0], int):
            return C(e.a[0])
        if op == 'load':
            l = e.a[0]
            k = s.key(l)
            if k is None and l.kind in ('mem', 'fld'):
                k = s.elemloc(S, l)
            if k is not None:
                m = 'v:' + k
                if m not in s.rng:
                    s.rng[m] = COUNTS.get(k.split('#')[0]) or (s.tyrange(l.dty) if s.isint(l.dty) else None)
                return D(m)
            return s.fresh(S, e)
        if op == 'cast':
            ty = s.prog.resolve(e.ty)
            src = e.a[0]
            if not s.isint(e.ty) or not s.isint(src.ty):
                if s.isval(e.ty) or s.isval(src.ty):
                    pass
                return s.fresh(S, e)
            l = s.ev(S, src)
            if s.fits(S, l, e.ty):
                return l
            r = s.fresh(S, e)
            if s.entails(S, l):          # keeping the low bits of a non-negative number makes it no larger
                S.P.add(ladd(l, r, -1))
            return r
        if op == 'un':
            if e.a[0] == '-':
                l = lscale(s.ev(S, e.a[1]), -1)
                return l if s.fits(S, l, e.ty) else s.fresh(S, e)
            if e.a[0] == '~':
                l = s.ev(S, e.a[1])
                w = width(s.prog.resolve(e.ty))
                if not l[0] and w:
                    return C(~l[1] if w[1] else (1 << w[0]) - 1 - l[1])
            if e.a[0] == '!':
                t, _ = s.memo(S, e)
                s.rng['v:' + t] = (0, 1)
                return D('v:' + t)
            return s.fresh(S, e)
        if op == 'bin':
            o = e.a[0]
            if o in ('<', '>', '<=', '>=', '==', '!='):
                t, _ = s.memo(S, e)
                s.rng['v:' + t] = (0, 1)
                return D('v:' + t)
            if not s.isint(e.ty):
                return s.fresh(S, e)
            a, b = s.ev(S, e.a[1]), s.ev(S, e.a[2])
            if o not in '+-':
                a, b = s.konst(S, a), s.konst(S, b)
            r = None
            if o == '+':
                r = ladd(a, b)
            elif o == '-':
                r = ladd(a, b, -1)
            elif o == '*':
                if not a[0]:
                    r = lscale(b, a[1])
                elif not b[0]:
                    r = lscale(a, b[1])
            elif o == '<<' and not b[0] and 0 <= b[1] < 64:
                r = lscale(a, 1 << b[1])
            if r is not None:
                if s.fits(S, r, e.ty):
                    return r
                s.arith[s.memkey(e)] = e
                return s.fresh(S, e)
            if not b[0] and b[1] > 0 and (o == '>>' or o in '/%'):
                k = (1 << b[1]) if o == '>>' else b[1]
                if not a[0]:
                    q = a[1] // k if o == '>>' or a[1] >= 0 else -(-a[1] // k)
                    return C(a[1] - q * k if o == '%' else q)
                nn = o == '>>' or s.entails(S, a)
                if o == '%':
                    l = s.fresh(S, e)
                    if nn:
                        S.P.add(l)
                        S.P.add(ladd(a, l, -1))
                    else:
                        S.P.add(ladd(l, C(k - 1)))
                    S.P.add(ladd(C(k - 1), l, -1))
                    return l
                l = s.fresh(S, e)
                if nn:
                    S.P.add(ladd(a, l, -k))
                    S.P.add(ladd(ladd(C(k - 1), l, k), a, -1))
                return l
            if o == '&':
                if not a[0] and b[0]:
                    a, b = b, a
                if not b[0]:
                    l = s.fresh(S, e)
                    if b[1] >= 0:
                        S.P.add(l)
                        S.P.add(ladd(C(b[1]), l, -1))
                        if s.entails(S, a):
                            S.P.add(ladd(a, l, -1))
                            w = width(s.prog.resolve(e.ty))[0]
                            low = (1 << w) - b[1]
                            if low > 1 and low & low - 1 == 0 and s.entails(S, ladd(C((1 << w) - 1), a, -1)):
                                # clears the low bits: a multiple of the power of two below a
                                q = 'v:%%q~%s' % s.memkey(e)
                                s.rng[q] = (0, 1 << w)
                                s.late[q] = 1
                                S.P.addeq(ladd(l, D(q), -low))
                                S.P.add(ladd(l, ladd(a, C(1 - low)), -1))
                    elif s.entails(S, a):
                        S.P.add(ladd(a, l, -1))
                        S.P.add(ladd(l, ladd(a, C(b[1] + 1)), -1))
                    return l
            return s.fresh(S, e)
        if op == 'pdiff':
            a, b = s.evp(S, e.a[0]), s.evp(S, e.a[1])
            if a and b and a[0] == b[0]:
                z = s.sz(elemty(s.prog.resolve(e.a[0].ty)) or 'char')
                d = ladd(a[1], b[1], -1)
                if z == 1:
                    return d
                l = s.fresh(S, e)
                S.P.addeq(ladd(d, l, -z))
                return l
            return s.fresh(S, e)
        return s.fresh(S, e)

    def konst(s, S, l):
        """a form of one dimension whose value is known"""
        if len(l[0]) == 1:
            (m, k), = l[0].items()
            for d, c in S.P.eqs:
                if len(d) == 1 and m in d and c % d[m] == 0:
                    return C(l[1] - k * (c // d[m]))
        return l

    def sz(s, ty):
        t = s.prog.resolve(ty)
        if t == 'void':
            return 1
        try:
            return s.prog.sizeof(t) or 1
        except AnalysisError:
            return 1

    def evp(s, S, e):
        """pointer value: (region, byte offset) or None"""
        op = e.op
        if op == 'cast':
            return s.evp(S, e.a[0])
        if op == 'const':
            return ('null', C(e.a[0])) if isinstance(e.a[0], int) else None
        if op == 'str':
            v = e.a[0]
            name = 's:' + repr(v)
            n = len(v)
            if 'size:' + name not in s.size0:
                s.size0['size:' + name] = n + 1
                s.rng['size:' + name] = (n + 1, n + 1)
                z = v.find(b'\0') if isinstance(v, bytes) else v.find('\0')
                z = n if z < 0 else z
                s.rng['len:' + name] = (z, z)
            s.isnul(S, name)
            return name, C(0)
        if op == 'addr':
            return s.addr(S, e.a[0])
        if op == 'padd':
            b = s.evp(S, e.a[0])
            if b is None:
                return None
            x = e.a[1]
            # minus an unsigned amount is the same bytes back
            i = lscale(s.ev(S, x.a[1]), -1) if x.op == 'un' and x.a[0] == '-' else s.ev(S, x)
            return b[0], ladd(b[1], i, s.sz(elemty(s.prog.resolve(e.a[0].ty)) or 'char'))
        if op == 'load':
            l = e.a[0]
            k = s.key(l)
            if k is None:
                k = s.elemloc(S, l)
            isp = is_ptr_ty(s.prog.resolve(l.dty)) or s.isval(l.dty) or self_long(s.prog.resolve(l.dty))
            if k is None:
                if not isp:
                    return None
                k, _ = s.memo(S, e)
            if k in S.reg:
                if S.reg[k] is None:
                    return None
                return S.reg[k], D('o:' + k)
            if not isp:
                return None
            R = 'u:' + k
            if R in S.reg.values() or R in S.breg.values():
                return None
            s.newregion(S, R)
            S.reg[k] = R
            s.assign(S, 'o:' + k, C(0))
            return R, C(0)
        return None

    def addr(s, S, l):
        if l.kind == 'var':
            R = 'a:' + l.a[0]
            if 'size:' + R not in s.size0:
                try:
                    n = s.prog.sizeof(l.dty or l.ty)
                except AnalysisError:
                    n = None
                if n is None or n == 0:
                    return None
                s.size0['size:' + R] = n
                s.rng['size:' + R] = (n, n)
            return R, C(0)
        if l.kind == 'mem':
            return s.evp(S, l.a[0])
        # field
        k = s.key(l)
        if k is not None:
            R = 'a:' + k
        else:
            R = 'f:' + s.memkey(E('addr', (l,), 'char *'))
        try:
            n = s.prog.sizeof(l.dty or l.ty)
        except AnalysisError:
            return None
        if not n:
            return None
        s.size0['size:' + R] = n
        s.rng['size:' + R] = (n, n)
        return R, C(0)

    def elemloc(s, S, l):
        """constant element of a local or static array: a location of its own"""
        if l.kind != 'mem' or l.a[0].op not in ('padd', 'addr', 'load', 'cast'):
            return None
        p = l.a[0]
        while p.op == 'cast':
            p = p.a[0]
        if p.op == 'addr' and p.a[0].kind == 'var':
            return p.a[0].a[0] + '@0'
        if p.op == 'padd' and p.a[0].op == 'addr' and p.a[0].a[0].kind == 'var' and p.a[1].op == 'const':
            return '%s@%d' % (p.a[0].a[0].a[0], p.a[1].a[0] * s.sz(elemty(s.prog.resolve(p.a[0].ty)) or 'char'))
        q = cir.fold(p.a[1]) if p.op == 'padd' else None
        if q is not None and getattr(q, 'op', '') == 'const' and p.a[0].op == 'addr' and p.a[0].a[0].kind == 'var':
            return '%s@%d' % (p.a[0].a[0].a[0], q.a[0] * s.sz(elemty(s.prog.resolve(p.a[0].ty)) or 'char'))
        return None

    def place(s, S, l):
        """where a store goes: (region, offset, width) or None"""
        if l.kind == 'mem':
            p = s.evp(S, l.a[0])
            return p and (p[0], p[1], s.sz(l.dty))
        if l.kind == 'fld':
            if s.key(l) is not None:
                return None
            p = s.place(S, l.a[0])
            return p
        return None

    # ---- obligations ------------------------------------------------------------------------------
    def buffer(s, R):
        return R[:2] in ('a:', 'm:', 's:', 'f:', 'g:')

    def oblige(s, S, R, off, w, i, what):
        """[off, off+w) lies inside R; off, w linear forms"""
        if R is None or not s.buffer(R):
            return
        l1 = ladd(off, C(8)) if R.startswith(('m:alloc', 'm:alloc_')) and not R.startswith('m:allocate') else off
        l2 = ladd(ladd(D('size:' + R), off, -1), w, -1)
        for l in (l1, l2):
            if l[0] and not any(m.startswith('v:%') for m in l[0]):
                s.templates.add((tuple(sorted(l[0].items())), l[1]))
        if not s.check:
            return
        s.T.stats['obligations'] += 1
        s.T.where.add((i.file or s.f.file, i.line))
        bad = None
        if not w[0] and w[1] <= 0:
            return
        if w[0] and s.entails(S, lscale(w, -1)):
            return
        if R in s.two or (s.f.name, what) in CHAINS:
            s.T.stats['out of scope'] = s.T.stats.get('out of scope', 0) + 1
            s.T.scope.add((i.file or s.f.file, s.f.name, 'sized by a pass over the contents' if R in s.two else CHAINS[s.f.name, what]))
            return
        if not s.entails(S, l1):
            bad = 'before the start of'
        elif not s.entails(S, l2):
            bad = 'beyond the end of'
        if bad:
            s.T.report(s, i, R, what, bad, show_lin(off), show_lin(w))

    # ---- contents ---------------------------------------------------------------------------------
    def wrote(s, S, R, off, nul, w):
        """w (a form, or None for an unknown number of) bytes of R from off changed; nul: True a NUL byte, False a
        byte known not NUL, None unknown.  len:R is the position of the first NUL, z:R of some NUL."""
        for t in [t for t, r in S.breg.items() if r == R]:
            s.unbyte(S, t)
        L, Z = 'len:' + R, 'z:' + R
        if nul is True:
            if R in S.nul and s.entails(S, ladd(D(L), off, -1)):
                s.assign(S, L, off)
                s.assign(S, Z, off)
            elif R in S.nul and s.entails(S, ladd(ladd(off, D(L), -1), C(-1))):
                pass
            else:
                t = 'v:%zz~'
                s.rng[t] = None
                S.P.addeq(ladd(D(t), off, -1))
                s.project(S, L)
                s.project(S, Z)
                S.P.addeq(ladd(D(Z), D(t), -1))
                S.P.add(ladd(D(Z), D(L), -1))
                s.project(S, t)
                S.nul = S.nul | {R}
            return
        if R not in S.nul:
            return
        if s.entails(S, ladd(ladd(off, D(Z), -1), C(-1))):
            return
        if w is not None and s.entails(S, ladd(ladd(D(Z), off, -1), w, -1)):
            if nul is False and s.entails(S, ladd(ladd(D(L), off, -1), C(-1))):
                return
            s.project(S, L)
            S.P.add(ladd(D(Z), D(L), -1))
            return
        s.project(S, L)
        s.project(S, Z)
        S.nul = S.nul - {R}

    # ---- instructions -----------------------------------------------------------------------------
    def isbyte(s, ty):
        return s.prog.resolve(ty) in ('char', 'unsigned char', 'signed char')

    def byteload(s, S, e):
        """e reads one byte: (region, offset)"""
        while e.op == 'cast' and s.isint(e.ty):
            e = e.a[0]
        if e.op == 'load':
            k = s.key(e.a[0])
            if k is not None and k in S.breg:
                return S.breg[k], D('b:' + k)
            if e.a[0].kind == 'mem' and s.isbyte(e.a[0].dty):
                return s.evp(S, e.a[0].a[0])
        return None

    def setloc(s, S, k, e, ty, dims=None):
        """location k := e"""
        byte = s.byteload(S, e) if s.isint(ty) else None
        pv, iv = None, None
        rty = s.prog.resolve(ty)
        isp = is_ptr_ty(rty)
        if isp or self_long(rty) or s.isval(ty):
            pv = s.evp(S, e)
        if s.isint(ty) and not isp:
            iv = s.ev(S, e)
            if not s.fits(S, iv, ty):
                iv = s.fresh(S, E('cast', (e,), ty, ty))
            s.rng['v:' + k] = COUNTS.get(k.split('#')[0]) or s.tyrange(ty)
        if byte and any(m in ('o:' + k, 'v:' + k) for m in byte[1][0]):
            byte = None
        # self-referring updates use substitution
        s.killdeps_except(S, k, iv, pv)
        s.unbyte(S, k)
        if pv is not None and pv[0] != 'null':
            if 'o:' + k in pv[1][0] and k in S.reg:
                s.assign(S, 'o:' + k, pv[1])
            else:
                s.assign(S, 'o:' + k, pv[1])
            S.reg[k] = pv[0]
        else:
            if k in S.reg:
                del S.reg[k]
                s.project(S, 'o:' + k)
            if pv is not None:
                S.reg[k] = 'null'
            elif isp:
                S.reg[k] = None
        if iv is not None:
            s.assign(S, 'v:' + k, iv)
        else:
            s.project(S, 'v:' + k)
        if byte and byte[0] is not None:
            s.assign(S, 'b:' + k, byte[1])
            S.breg[k] = byte[0]

    def killdeps_except(s, S, loc, iv, pv):
        """memoised expressions that mention loc are renamed away when the new value needs them"""
        need = set()
        for l in (iv, pv and pv[1]):
            if l:
                need |= set(l[0])
        for t in [t for t, d in S.memo.items() if loc in d or t == loc]:
            m = 'v:' + t
            if m in need or 'o:' + t in need:
                for p in ('v:', 'o:'):
                    if p + t in need:
                        z = '%s%%old~%s' % (p, t)
                        s.rng[z] = s.range(p + t)
                        S.P.subst(p + t, D(z))
                        s.late[z] = 1
                        for l in (iv, pv and pv[1]):
                            if l and p + t in l[0]:
                                l[0][z] = l[0].pop(p + t)
                S.memo.pop(t)
                if t in S.reg:
                    del S.reg[t]
            else:
                s.forget(S, t)

    def flush(s, S):
        for z in list(s.late):
            s.project(S, z)
        s.late.clear()

    def store(s, S, lv, e, i):
        k = s.key(lv)
        if k is not None:
            if lv.kind == 'var' and '[' in (lv.dty or '') and not is_ptr_ty(lv.dty):
                return
            s.setloc(S, k, e, lv.dty)
            if k.endswith('#g') or '#g' in k:
                s.killmemif(S, k)
            s.flush(S)
            return
        pl = s.place(S, lv)
        el = s.elemloc(S, lv) if lv.kind == 'mem' else None
        if pl is None:
            s.killmem(S)
            return
        R, off, w = pl
        if lv.kind == 'fld':
            w = s.sz(lv.a[0].dty) if lv.a[0].kind == 'mem' else w
        s.oblige(S, R, off, C(w), i, 'store')
        if R[:2] == 'a:':
            base = R[2:]
            if el is not None:
                s.setloc(S, el, e, lv.dty)
            else:
                s.killelems(S, base)
        else:
            s.killmem(S, lv.dty)
        nul = None
        if w == 1:
            v = cir.fold(e)
            c = e
            while c.op == 'cast':
                c = c.a[0]
            if c.op == 'const' and isinstance(c.a[0], int):
                nul = c.a[0] == 0
            elif s.knownnonzero(S, e):
                nul = False
            elif s.knownzero(S, e):
                nul = True
        elif w > 1:
            nul = None
        s.wrote(S, R, off, nul, C(w))
        s.flush(S)

    def knownnonzero(s, S, e):
        b = s.byteload(S, e)
        return bool(b and b[0] in S.nul and s.entails(S, ladd(ladd(D('len:' + b[0]), b[1], -1), C(-1))))

    def knownzero(s, S, e):
        b = s.byteload(S, e)
        return bool(b and b[0] in S.nul and s.entails(S, ladd(b[1], D('len:' + b[0]), -1)) and s.entails(S, ladd(D('len:' + b[0]), b[1], -1)))

    def killelems(s, S, base):
        for t in [t for t in list(S.reg) if t.startswith((base + '@', base + '.'))]:
            s.killloc(S, t)
        for m in [m for m in S.P.dims() if m.startswith(('v:' + base + '@', 'v:' + base + '.', 'b:' + base + '@'))]:
            s.project(S, m)
        for t in [t for t in S.breg if t.startswith((base + '@', base + '.'))]:
            s.unbyte(S, t)
        for t in [t for t, d in S.memo.items() if base in d]:
            s.forget(S, t)

    def killmemif(s, S, k):
        for t in [t for t, d in S.memo.items() if k in d]:
            s.forget(S, t)

    # ---- calls ------------------------------------------------------------------------------------
    def setres(s, S, i, val=None, ptr=None, ty=None):
        """result of call i"""
        if not i.a[0]:
            return
        k = i.a[0]
        ty = ty or s.vty.get(k)
        if val is not None:
            # clamp when the declared type is narrower
            r = s.tyrange(ty) if ty else None
            s.killdeps_except(S, k, val, None)
            s.unbyte(S, k)
            if k in S.reg:
                del S.reg[k]
                s.project(S, 'o:' + k)
            s.assign(S, 'v:' + k, val)
            if r:
                s.rng['v:' + k] = r
            s.flush(S)
            return
        if ptr is not None:
            s.killdeps_except(S, k, None, ptr)
            s.unbyte(S, k)
            s.project(S, 'v:' + k)
            s.assign(S, 'o:' + k, ptr[1])
            S.reg[k] = ptr[0]
            s.flush(S)
            return
        s.killloc(S, k)
        if ty and s.isint(ty):
            s.rng['v:' + k] = s.tyrange(ty)

    def strl(s, S, p):
        """length of the C string at p: a form with its facts added; None if unknown"""
        R, off = p
        if R is None or R == 'null':
            return None
        if R not in S.nul:
            if s.buffer(R):
                return None
            s.isnul(S, R)
        L = D('len:' + R)
        if s.entails(S, ladd(L, off, -1)):
            return ladd(L, off, -1)
        if s.entails(S, ladd(D('z:' + R), off, -1)):
            g = s.ghost(S, 'zl')
            S.P.add(ladd(ladd(D('z:' + R), off, -1), g, -1))
            return g
        return None

    def ghost(s, S, base):
        """a fresh non-negative quantity of this instruction"""
        s.n += 1
        z = 'v:%%g%d~%s' % (s.n, base)
        s.rng[z] = (0, HUGE)
        s.late[z] = 1
        return D(z)

    def strlen_of(s, S, p):
        l = s.strl(S, p) if p else None
        if l is None:
            l = s.ghost(S, 'sl')
        return l

    def call(s, S, i):
        f = i.a[1] if isinstance(i.a[1], str) else None
        A = i.a[2]
        name = f and f.split('#')[0]
        h = MODELS.get(name)
        if name in ALLOCS:
            n = s.allocsize(S, A[ALLOCS[name]])
            return s.alloc(S, i, n, name)
        if name in ('alloc', 'alloc_tuple', 'alloc_shr', 'alloc_shr_garbage'):
            n = s.allocsize(S, A[0])
            return s.alloc(S, i, lscale(n, 8), name)
        if name in ('calloc',):
            a, b = s.ev(S, A[0]), s.ev(S, A[1])
            n = lscale(a, b[1]) if not b[0] else lscale(b, a[1]) if not a[0] else None
            return s.alloc(S, i, n, name)
        if name in ('realloc', 'stat_resize', 'xrealloc'):
            p = s.evp(S, A[0])
            n = s.allocsize(S, A[1])
            return s.alloc(S, i, n, name, nul=False)
        if h:
            s.n = 0
            h(s, S, i, A)
            s.flush(S)
            return
        # unknown function
        fn = s.T.F.lookup(i.a[1], s.f) if f else None
        if name not in PURE:
            for n, a in enumerate(A):
                rt = s.prog.resolve(a.ty)
                if not is_ptr_ty(rt):
                    continue
                p = s.evp(S, a)
                if not p or p[0] is None:
                    continue
                R = p[0]
                if s.buffer(R) and s.check and fn is not None and (fn.key, n) in s.T.writers:
                    s.T.undecided.add((s.f.file, s.f.name, '%s writes through its argument %d' % (fn.name, n + 1)))
                if R[:2] == 'a:':
                    b = R[2:]
                    s.killelems(S, b)
                    s.killloc(S, b)
                if not const_param(s, fn, n):
                    S.nul = S.nul - {R} if s.buffer(R) else S.nul
                    for t in [t for t, r in S.breg.items() if r == R]:
                        s.unbyte(S, t)
            s.killmem(S)
            mods = s.T.modset(i, s.f)
            for k in list({t for t in S.reg if '#g' in t} | {m[2:] for m in S.P.dims() if m[:2] in ('v:', 'o:') and '#g' in m and m[2:] not in S.memo}):
                if mods is None or k.split('.')[0].split('@')[0] in mods:
                    s.killloc(S, k)
            for u in s.f.addr_taken:
                if mods is not None and not A:
                    break
                if u in s.escaped:
                    s.killloc(S, u)
            for R in [r for r in S.nul if r.startswith('a:') and '#g' in r]:
                S.nul = S.nul - {R}
            for t in [t for t, r in S.breg.items()]:
                r = S.breg[t]
                if not r.startswith(('a:', 'm:', 's:')):
                    s.unbyte(S, t)
        s.setres(S, i)
        if i.a[0]:
            ty = s.vty.get(i.a[0])
            if ty and (is_ptr_ty(s.prog.resolve(ty)) or s.isval(ty)):
                R = 'c:%s:%d' % (name, i.id)
                s.newregion(S, R)
                S.reg[i.a[0]] = R
                s.assign(S, 'o:' + i.a[0], C(0))

    def evz(s, S, e):
        """value of a size expression as an exact integer, conversions ignored; None when not linear"""
        if e.op == 'cast' and s.isint(e.ty) and s.isint(e.a[0].ty) and width(s.prog.resolve(e.ty))[0] >= width(s.prog.resolve(e.a[0].ty))[0]:
            return s.evz(S, e.a[0])
        if e.op == 'bin' and e.a[0] in ('+', '-', '*', '<<') and width(s.prog.resolve(e.ty)) and width(s.prog.resolve(e.ty))[0] == 64:
            a, b = s.evz(S, e.a[1]), s.evz(S, e.a[2])
            if a is None or b is None:
                return None
            o = e.a[0]
            if o in '+-':
                return ladd(a, b, 1 if o == '+' else -1)
            if o == '*':
                return lscale(b, a[1]) if not a[0] else lscale(a, b[1]) if not b[0] else None
            return lscale(a, 1 << b[1]) if not b[0] and 0 <= b[1] < 32 else None
        return s.ev(S, e)

    def allocsize(s, S, e):
        """the amount asked for; when it is a small integer before conversion to an unsigned type, a negative one
        asks for more memory than there is, and the allocation does not return a block"""
        l = s.ev(S, e)
        z = s.evz(S, e)
        if z is not None and z[0] and z != l:
            M = 1 << 60
            if s.entails(S, ladd(z, C(M))) and s.entails(S, ladd(C(M), z, -1)):
                S.P.add(z)
                return z
        return l

    def alloc(s, S, i, n, name, nul=False):
        R = 'm:%s:%d' % (name, i.id)
        if any(s.T.twopass(s, a) for a in i.a[2]):
            s.two.add(R)
        if n is not None:
            # the size form may mention the previous instance
            n = (dict(n[0]), n[1])
            for m in list(n[0]):
                if m.endswith(':' + R):
                    z = 'v:%%old~%s' % m
                    s.rng[z] = s.range(m)
                    S.P.subst(m, D(z))
                    s.late[z] = 1
                    n[0][z] = n[0].pop(m)
        s.newregion(S, R, nul=False)
        if name == 'alloc_string':
            if n is not None:
                S.P.addeq(ladd(D('slen:' + R), n, -1))
                S.P.addeq(ladd(ladd(D('size:' + R), n, -1), C(-1)))
                s.isnul(S, R)
                S.P.addeq(ladd(D('slen:' + R), D('z:' + R), -1))
        elif n is not None:
            S.P.addeq(ladd(D('size:' + R), n, -1))
        s.T.bufs.add(R)
        if i.a[0]:
            s.setres(S, i, ptr=(R, C(0)))
        s.flush(S)
        s.killmem(S) if name in ('alloc', 'alloc_string') else None

    # ---- conditions -------------------------------------------------------------------------------
    def refine(s, S, c, truth):
        """S restricted to c == truth, or None"""
        while c.op == 'cast' and s.isint(c.ty) and s.isint(c.a[0].ty) and c.a[0].op in ('bin', 'un', 'cast'):
            if c.a[0].op == 'bin' and c.a[0].a[0] not in ('<', '>', '<=', '>=', '==', '!='):
                break
            c = c.a[0]
        if c.op == 'un' and c.a[0] == '!':
            return s.refine(S, c.a[1], not truth)
        if c.op == 'bin' and c.a[0] in ('<', '>', '<=', '>=', '==', '!='):
            o, a, b = c.a
        else:
            o, a, b = '!=', c, E('const', (0,), 'int')
        if not truth:
            o = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[o]
        pa, pb = is_ptr_ty(s.prog.resolve(a.ty)), is_ptr_ty(s.prog.resolve(b.ty))
        if pa or pb:
            x, y = s.evp(S, a), s.evp(S, b)
            if x and y and x[0] == y[0] and x[0] is not None and x[0] != 'null':
                return s.cmp(S, o, x[1], y[1])
            if x and y and x[0] is not None and y[0] is not None and o in ('==', '!='):
                for u, v in ((x, y), (y, x)):
                    if u[0] == 'null' and v[0][:2] in ('a:', 's:', 'f:'):
                        return S if o == '!=' else None
                    if u[0] == 'null' and v[0] == 'null':
                        return S if o == '==' else None
            if x and y and x[0] != y[0] and x[0] and y[0] and o in ('==',) and x[0][:2] in ('a:', 'm:') and y[0][:2] in ('a:', 'm:'):
                return None
            return S
        for u, v, oo in ((a, b, o), (b, a, o)):
            if oo not in ('==', '!='):
                break
            w = cir.fold(v)
            k = v
            while k.op == 'cast':
                k = k.a[0]
            if k.op == 'const' and isinstance(k.a[0], int):
                bl = s.byteload(S, u)
                if bl and bl[0] in S.nul:
                    L = D('len:' + bl[0])
                    t = ladd(L, bl[1], -1)
                    tz = ladd(D('z:' + bl[0]), bl[1], -1)
                    s.tmpl(t)
                    s.tmpl(tz)
                    if (k.a[0] == 0) == (oo == '=='):
                        if k.a[0] == 0:          # the byte is NUL: offset >= len
                            if not s.add(S, lscale(t, -1)):
                                return None
                        else:                    # the byte is not NUL
                            for q in (t, tz):
                                if s.entails(S, q) and not s.add(S, ladd(q, C(-1))):
                                    return None
                    elif k.a[0] == 0:            # != 0
                        for q in (t, tz):
                            if s.entails(S, q) and not s.add(S, ladd(q, C(-1))):
                                return None
        if s.isint(a.ty) and s.isint(b.ty):
            x, y = s.ev(S, a), s.ev(S, b)
            S = s.cmp(S, o, x, y)
            if S is not None:
                # arithmetic that is now known not to have wrapped around
                for t in list(S.memo):
                    if t in s.arith:
                        r = s.ev(S, s.arith[t])
                        if r != D('v:' + t):
                            S.P.addeq(ladd(D('v:' + t), r, -1))
                for e in (a, b):
                    if e.op == 'cast' and s.isint(e.a[0].ty):
                        w, v = width(s.prog.resolve(e.ty)), width(s.prog.resolve(e.a[0].ty))
                        if w[0] >= v[0] and v[1] and not w[1]:       # signed to unsigned: equal when small
                            l = s.ev(S, e)
                            q = s.ev(S, e.a[0])
                            if l != q and s.entails(S, ladd(C((1 << v[0] - 1) - 1), l, -1)):
                                S.P.addeq(ladd(l, q, -1))
            return S
        return S

    def tmpl(s, l):
        if l[0]:
            s.templates.add((tuple(sorted(l[0].items())), l[1]))

    def add(s, S, l):
        if not s.feasible(S, l):
            return False
        r = S.P.add(l)
        # seen through the equalities, the bound may round to a better one
        todo = [(l, 0)]
        while todo:
            x, depth = todo.pop()
            for d, c in list(S.P.eqs):
                for m in x[0]:
                    if abs(d.get(m, 0)) == 1:
                        t = ladd(x, (d, c), -x[0][m] * d[m])
                        if not t[0]:
                            continue
                        k, n = norm(*t)
                        if abs(k[0][1]) != abs(t[0][k[0][0]]):
                            S.P.add(t)
                        elif depth < 1 and len(t[0]) <= len(x[0]) + 1:
                            todo.append((t, depth + 1))
        S.P.canon()
        return r

    def cmp(s, S, o, x, y):
        d = ladd(x, y, -1)
        if d[0]:
            for t in (d, lscale(d, -1)):
                s.tmpl(t)
                s.tmpl(ladd(t, C(-1)))
                s.tmpl(ladd(t, C(1)))
        if o == '==':
            if not (s.feasible(S, d) and s.feasible(S, lscale(d, -1))):
                return None
            return S if S.P.addeq(d) else None
        if o == '!=':
            if not d[0]:
                return S if d[1] else None
            if s.entails(S, d):
                return S if s.add(S, ladd(d, C(-1))) else None
            if s.entails(S, lscale(d, -1)):
                return S if s.add(S, ladd(lscale(d, -1), C(-1))) else None
            return S
        l = {'<': ladd(lscale(d, -1), C(-1)), '<=': lscale(d, -1), '>': ladd(d, C(-1)), '>=': d}[o]
        return S if s.add(S, l) else None

    # ---- joins ------------------------------------------------------------------------------------
    def sig(s, S, live):
        return tuple(sorted((k, r) for k, r in S.reg.items() if r is not None and s.buffer(r) and r[:2] != 's:' and k not in S.memo))

    def trim(s, S, live):
        """drop what is dead at a block boundary"""
        f = s.f

        def dead(loc):
            u = re.split(r'[@.]', loc)[0]
            if '#g' in u:
                return False
            return u not in live and u not in f.addr_taken and not s.isarr(u)
        for t in list(S.memo):
            if any(u[0] != '*' and dead(u) for u in S.memo[t]):
                s.forget(S, t)
        for t in [t for t in S.reg if t not in S.memo and dead(t)]:
            del S.reg[t]
            s.project(S, 'o:' + t)
        for t in [t for t in S.breg if t not in S.memo and dead(t)]:
            s.unbyte(S, t)
        for m in list(S.P.dims()):
            if m[:2] == 'v:' and m[2:] not in S.memo and (m[2:].startswith('%') or dead(m[2:])):
                if m[2:] in live:
                    continue
                s.project(S, m)
        used = set(S.reg.values()) | set(S.breg.values())
        for m in list(S.P.dims()):
            if m.startswith(('len:', 'slen:', 'size:', 'z:')):
                R = m.split(':', 1)[1]
                if R not in used and R[:2] not in ('a:',):
                    s.project(S, m)
        S.nul = frozenset(r for r in S.nul if r in used or r[:2] in ('a:', 's:'))
        if len(S.P.ine) > 40:
            s.reduce(S)

    def reduce(s, S):
        for k, c in sorted(S.P.ine.items(), key=lambda t: -len(t[0])):
            del S.P.ine[k]
            if not s.entails(S, (dict(k), c)):
                S.P.ine[k] = c
            if len(S.P.ine) <= 24:
                break
        if len(S.P.ine) > 60:
            for k in sorted(S.P.ine, key=lambda k: -len(k))[:len(S.P.ine) - 60]:
                del S.P.ine[k]

    def isarr(s, u):
        v = s.f.vars.get(u)
        return bool(v and '[' in (v[2] or v[1]) and not is_ptr_ty(v[2] or v[1]))

    def join(s, A, B, widen, pairs=False, head=None):
        N = St()
        N.reg = {k: r for k, r in A.reg.items() if B.reg.get(k, 0) == r}
        N.breg = {k: r for k, r in A.breg.items() if B.breg.get(k) == r}
        N.nul = A.nul & B.nul
        N.memo = {t: d for t, d in A.memo.items() if t in B.memo}
        A, B = A.copy(), B.copy()
        for X in (A, B):
            for t in [t for t in X.memo if t not in N.memo]:
                s.forget(X, t)
            for t in [t for t in X.reg if t not in N.reg]:
                del X.reg[t]
                s.project(X, 'o:' + t)
            for t in [t for t in X.breg if t not in N.breg]:
                s.unbyte(X, t)
        dims = A.P.dims() & B.P.dims()
        for X in (A, B):
            for m in X.P.dims():
                if m not in dims and not (m in B.P.dims() or m in A.P.dims()):
                    s.project(X, m)
        # a dimension without facts on one side is unconstrained there, unless its range is fixed
        N.P.eqs = hull(A.P, B.P, s)
        cand = []

        def splits(P):
            for k, c in P.ine.items():
                yield k, c
            for d, c in P.eqs:
                k, cc = norm(d, c)
                yield k, cc
                k, cc = norm({m: -v for m, v in d.items()}, -c)
                yield k, cc
        for k, c in splits(A.P):
            cand.append((k, c, B))
        if not widen or head is not None:
            for k, c in splits(B.P):
                cand.append((k, c, A))
        seen = {}
        for k, c, X in cand:
            if seen.get(k, c + 1) <= c:
                continue
            if widen and X is A and len(k) < 3:
                continue
            if s.entails(X, (dict(k), c)):
                N.P.add((dict(k), c))
                seen[k] = c
                if head is not None and X is B and len(k) > 2 and any(m[2:] in s.moving.get(int(head[2:]), ()) for m, _ in k):
                    # the slack gained each time around
                    for j in (-1, -8):
                        l = ladd((dict(k), c), D(head), j)
                        if s.entails(B, l) and s.entails(A, l):
                            N.P.add(l)
            elif head is not None and len(k) > 1:
                # one that moves by a constant each time around the loop
                for j in (1, -1, 2, 8, 4, -8, -4):
                    l = ladd((dict(k), c), D(head), j)
                    if s.entails(B, l) and s.entails(A, l):
                        N.P.add(l)
                        break
        for k, c in list(s.templates):
            d = dict(k)
            if not all(m in dims or m.startswith('size:') for m in d):
                if not any(m in dims for m in d):
                    continue
            if widen and not s.entails(A, (d, c)):
                continue
            kk, cc = norm(d, c)
            if N.P.ine.get(kk, cc + 1) <= cc or seen.get(kk, cc + 1) <= cc:
                continue
            if s.entails(B, (d, c)) and (widen or s.entails(A, (d, c))):
                N.P.add((d, c))
        if not widen and not pairs:
            for m in dims:
                if m[:2] == 'v:' and m[2:] not in N.memo and (m[2] != '%' or m[3] == 't') and not ((s.range(m) or (-1,))[0] >= 0):
                    k = ((m, 1),)
                    if N.P.ine.get(k, 1) > 0 and s.entails(A, D(m)) and s.entails(B, D(m)):
                        N.P.add(D(m))
        if not widen and pairs:
            def try_(l):
                if s.entails(A, l) and s.entails(B, l):
                    N.P.add(l)
            byr = {}
            for k, R in N.reg.items():
                byr.setdefault(R, []).append(k)
            for R, ks in byr.items():
                if R is None or R == 'null' or not any(isdim(A, B, 'o:' + k) for k in ks):
                    continue
                for k in ks:
                    if not isdim(A, B, 'o:' + k):
                        continue
                    try_(D('o:' + k))
                    if R in N.nul:
                        try_(ladd(D('z:' + R), D('o:' + k), -1))
                    if s.buffer(R):
                        try_(ladd(D('size:' + R), D('o:' + k), -1))
                    for q in ks:
                        if q != k:
                            try_(ladd(D('o:' + q), D('o:' + k), -1))
            iv = [m for m in sorted(dims) if m[:2] == 'v:' and m[2:] not in N.memo and not m.startswith('v:%')][:7]
            for x in iv:
                try_(D(x))
                for y in iv:
                    if x != y:
                        try_(ladd(D(x), D(y), -1))
        # inequalities that the equalities already give are kept out
        for k, c in list(N.P.ine.items()):
            if len(N.P.eqs):
                del N.P.ine[k]
                T = St()
                T.P = Poly({}, N.P.eqs)
                if not s.entails(T, (dict(k), c)):
                    N.P.ine[k] = c
        N.P.canon()
        return N

    def leq(s, A, B):
        """A is included in B"""
        if not (B.nul <= A.nul and set(B.memo) <= set(A.memo) and all(A.reg.get(k, 0) == r for k, r in B.reg.items()) and all(A.breg.get(k) == r for k, r in B.breg.items())):
            return False
        for k, c in B.P.ine.items():
            if not s.entails(A, (dict(k), c)):
                return False
        for d, c in B.P.eqs:
            if not (s.entails(A, (d, c)) and s.entails(A, lscale((d, c), -1))):
                return False
        return True

    # ---- fixpoint ---------------------------------------------------------------------------------
    def block(s, S, b):
        """outgoing (successor, state)"""
        f = s.f
        for i in b.ins:
            s.cur = i
            if i.op == 'set':
                s.store(S, i.a[0], i.a[1], i)
            elif i.op == 'call':
                s.call(S, i)
                if s.T.F.is_noreturn(i, f):
                    return []
            s.flush(S)
        t = b.term
        out = []
        if t is None or t.op in ('ret', 'stop', 'igoto'):
            return out
        if t.op == 'jmp':
            out.append((t.a[0], S))
        elif t.op == 'br':
            for tr, k in ((True, t.a[1]), (False, t.a[2])):
                X = s.refine(S.copy(), t.a[0], tr)
                if X is not None:
                    out.append((k, X))
        elif t.op == 'switch':
            for v, k in t.a[1]:
                X = S.copy()
                vs = v if isinstance(v, (list, tuple)) else (v,)
                if len(vs) == 1 and isinstance(vs[0], int):
                    X = s.refine(X, E('bin', ('==', t.a[0], E('const', (vs[0],), t.a[0].ty)), 'int'), True)
                if X is not None:
                    out.append((k, X))
            out.append((t.a[2], S.copy()))
        res = []
        for k, X in out:
            s.flush(X)
            s.trim(X, s.live[k])
            res.append((k, X))
        return res

    def counters(s, X, b, k):
        """iteration counters of the loops entered, continued and left on the edge b -> k"""
        for m in [m for m in X.P.dims() if m[:2] == 'n:']:
            if k not in s.loops.get(int(m[2:]), ()):
                s.project(X, m)
        if k in s.loops:
            m = 'n:%d' % k
            s.rng[m] = (0, 1 << 62)
            if b in s.loops[k]:
                s.assign(X, m, ladd(D(m), C(1)))
            else:
                s.assign(X, m, C(0))

    def run(s):
        f = s.f
        for u, v in f.vars.items():
            s.vty[u] = v[2] or v[1]
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'set' and i.a[0].kind == 'var':
                    s.vty.setdefault(i.a[0].a[0], i.a[0].dty)
                for e in cflow.ins_exprs(i):
                    def w(x):
                        if x.op == 'load' and x.a[0].kind == 'var':
                            s.vty.setdefault(x.a[0].a[0], x.a[0].dty)
                    cflow.walk_e(e, w)
                if i.op == 'call' and i.a[0] and isinstance(i.a[1], str):
                    h = s.T.F.lookup(i.a[1], f)
                    if h is not None:
                        s.vty.setdefault(i.a[0], h.ret)
        s.escaped = set(f.addr_taken)
        ins = {}
        order = f.order()
        pos = {b: n for n, b in enumerate(order)}
        entries = [f.entry] + (f.labeladdr_blocks() if f.addrlabels else [])
        for x in list(f.blocks):
            if x in pos:
                continue
        count = {}
        S0 = St()
        work = set()
        for e in entries:
            S = St()
            if e == f.entry:
                s.T.assume(s, S)
            ins[e] = {(): S}
            work.add(e)
        heads = {k for b in f.blocks.values() for k in b.succs(f) if k in pos and b.id in pos and pos[k] <= pos[b.id]}
        s.loops = natural(f, heads, pos)
        s.pos = pos
        s.moving = {h: {i.a[0].a[0] for b in L for i in f.blocks[b].ins if i.op == 'set' and i.a[0].kind == 'var'} for h, L in s.loops.items()}
        steps = 0
        while work:
            b = min(work, key=lambda x: pos.get(x, 1 << 30))
            work.discard(b)
            steps += 1
            if steps > 60 * len(f.blocks) + 400:
                raise Undec('no fixed point')
            for sg, S in list(ins[b].items()):
                if count.get(('done', b, sg)) is S:
                    continue
                count['done', b, sg] = S
                for k, X in s.block(S.copy(), f.blocks[b]):
                    s.counters(X, b, k)
                    tb = ins.setdefault(k, {})
                    g = s.sig(X, s.live[k])
                    old = tb.get(g)
                    if old is None:
                        if len(tb) > 14:
                            raise Undec('too many region assignments')
                        tb[g] = X
                        work.add(k)
                        continue
                    if s.leq(X, old):
                        continue
                    n = count[k, g] = count.get((k, g), 0) + 1
                    q = ('head', k, g, k in s.loops and b in s.loops[k])
                    if k in s.loops:
                        count[q] = count.get(q, 0) + 1
                    tb[g] = s.join(old, X, k in heads and n > 2 or n > 12, k in heads, 'n:%d' % k if k in s.loops and count[q] <= 4 else None)
                    work.add(k)
        s.check = True
        for b in order:
            for S in ins.get(b, {}).values():
                s.T.stats['states'] += 1
                s.block(S.copy(), f.blocks[b])
        return ins


def isdim(A, B, m):
    return m in A.P.dims() or m in B.P.dims()


def self_long(t):
    return t in ('long', 'unsigned long', 'long long')


def const_param(s, fn, n):
    if fn is None or n >= len(fn.params):
        return False
    return (fn.key, n) not in s.T.writers


def show_lin(l):
    r = []
    for m, v in sorted(l[0].items()):
        t = re.sub(r'[~#][\w~]*', '', m.split(':', 1)[1]) if m[:2] in ('v:', 'o:') else re.sub(r'[~#][\w~]*', '', m)
        if m.startswith('o:'):
            t = 'offset(%s)' % t
        r.append(('' if v == 1 else '-' if v == -1 else '%d*' % v) + t[:60])
    if l[1] or not r:
        r.append(str(l[1]))
    return ' + '.join(r)


def rref(rows):
    """reduced row echelon form over the rationals; rows: list of dict (with key None for the constant)"""
    out = []
    for r in rows:
        r = dict(r)
        for p, q in out:
            if r.get(p):
                k = r[p]
                for m, v in q.items():
                    w = r.get(m, 0) - k * v
                    if w:
                        r[m] = w
                    else:
                        r.pop(m, None)
        ps = [m for m in r if m is not None]
        if not ps:
            continue
        p = min(ps)
        k = Fraction(1) / r[p]
        r = {m: v * k for m, v in r.items()}
        for j, (pp, q) in enumerate(out):
            if q.get(p):
                k = q[p]
                q2 = dict(q)
                for m, v in r.items():
                    w = q2.get(m, 0) - k * v
                    if w:
                        q2[m] = w
                    else:
                        q2.pop(m, None)
                out[j] = (pp, q2)
        out.append((p, r))
    return out


def hull(A, B, s):
    """equalities that hold in both: intersection of the row spaces"""
    def rows(P, dims):
        R = [dict({m: Fraction(v) for m, v in d.items()}, **{}) | {None: Fraction(c)} for d, c in P.eqs]
        for m in dims:
            r = s.range(m)
            if r and r[0] == r[1]:
                R.append({m: Fraction(1), None: Fraction(-r[0])})
        return R
    dims = A.dims() | B.dims()
    ra, rb = [q for _, q in rref(rows(A, dims))], [q for _, q in rref(rows(B, dims))]
    if not ra or not rb:
        return []
    # sum la_i ra_i - sum lb_j rb_j = 0 : null space of the transposed system
    cols = set()
    for q in ra + rb:
        cols |= set(q)
    n = len(ra) + len(rb)
    eqs = []
    for c in cols:
        row = {}
        for j, q in enumerate(ra):
            if q.get(c):
                row[j] = q[c]
        for j, q in enumerate(rb):
            if q.get(c):
                row[len(ra) + j] = -q[c]
        if row:
            eqs.append(row)
    piv = rref([dict(r) for r in eqs])
    pset = {p for p, _ in piv}
    out = []
    for fvar in range(n):
        if fvar in pset:
            continue
        sol = {fvar: Fraction(1)}
        for p, q in piv:
            if q.get(fvar):
                sol[p] = -q[fvar]
        comb = {}
        for j, k in sol.items():
            if j < len(ra):
                for m, v in ra[j].items():
                    w = comb.get(m, 0) + k * v
                    if w:
                        comb[m] = w
                    else:
                        comb.pop(m, None)
        if any(m is not None for m in comb):
            out.append(comb)
    res = []
    for _, q in rref(out):
        den = 1
        for v in q.values():
            den = den * v.denominator // __import__('math').gcd(den, v.denominator)
        d = {m: int(v * den) for m, v in q.items() if m is not None}
        c = int(q.get(None, 0) * den)
        if len(d) == 1:
            m = next(iter(d))
            r = s.range(m)
            if r and r[0] == r[1]:
                continue
        res.append((d, c))
    return res


# ---- library models ---------------------------------------------------------------------------------
MODELS = {}


def model(*names):
    def w(h):
        for n in names:
            MODELS[n] = h
        return h
    return w


def changed(s, S, p):
    """contents of the region of p are unknown now"""
    if not p or p[0] is None:
        return
    R = p[0]
    if R[:2] == 'a:':
        s.killelems(S, R[2:])
    for t in [t for t, r in S.breg.items() if r == R]:
        s.unbyte(S, t)
    if not R[:2] == 'a:':
        s.killmem(S)


@model('strlen', '__builtin_strlen')
def _strlen(s, S, i, A):
    p = s.evp(S, A[0])
    s.setres(S, i, val=s.strlen_of(S, p))


@model('string_length', 'caml_string_length')
def _slen(s, S, i, A):
    p = s.evp(S, A[0])
    if p and p[0] and not p[1][0] and p[1][1] == 0 or p and p[0] and p[0] != 'null' and s.entails(S, p[1]) and s.entails(S, lscale(p[1], -1)):
        m = 'slen:' + p[0]
        if p[0] in S.nul:
            S.P.add(ladd(D(m), D('len:' + p[0]), -1))
        s.setres(S, i, val=D(m))
    else:
        s.setres(S, i, val=s.ghost(S, 'slen'))


@model('strcpy', '__builtin_strcpy', '__strcpy_chk')
def _strcpy(s, S, i, A):
    d, q = s.evp(S, A[0]), s.evp(S, A[1])
    n = s.strlen_of(S, q)
    if d and d[0]:
        s.oblige(S, d[0], d[1], ladd(n, C(1)), i, 'strcpy')
        end = ladd(d[1], n)
        changed(s, S, d)
        setlen(s, S, d, end)
    ret(s, S, i, d)


@model('__vsa_strinit')
def _strinit(s, S, i, A):
    d, v = s.evp(S, A[0]), strconst(A[1])
    if not d or not d[0]:
        return
    changed(s, S, d)
    n = s.size0.get('size:' + d[0])
    if v is None or n is None:
        S.nul = S.nul - {d[0]}
        return
    z = v.find(b'\0')
    z = len(v) if z < 0 else z
    if z < n:
        setlen(s, S, d, C(z))
    else:
        S.nul = S.nul - {d[0]}


def setlen(s, S, d, end):
    """the first NUL of d's region at or after d's offset is at end"""
    R = d[0]
    L = 'len:' + R
    # (off and end may mention L itself)
    z = 'v:%end~'
    s.rng[z] = None
    S.P.addeq(ladd(D(z), end, -1))
    o = 'v:%off~'
    s.rng[o] = None
    S.P.addeq(ladd(D(o), d[1], -1))
    exact = not d[1][0] and d[1][1] == 0 or R in S.nul and s.entails(S, ladd(D(L), d[1], -1))
    s.project(S, L)
    s.project(S, 'z:' + R)
    S.P.addeq(ladd(D('z:' + R), D(z), -1))
    if exact:
        S.P.addeq(ladd(D(L), D(z), -1))
    else:
        S.P.add(ladd(D(z), D(L), -1))
    S.nul = S.nul | {R}
    s.project(S, z)
    s.project(S, o)


def ret(s, S, i, p):
    if i.a[0]:
        if p and p[0]:
            s.setres(S, i, ptr=p)
        else:
            s.setres(S, i)


@model('strcat', '__builtin_strcat')
def _strcat(s, S, i, A):
    d, q = s.evp(S, A[0]), s.evp(S, A[1])
    n = s.strlen_of(S, q)
    if d and d[0]:
        l = s.strl(S, d)
        if l is None:
            l = s.ghost(S, 'cat')
        end = ladd(ladd(d[1], l), n)
        s.oblige(S, d[0], ladd(d[1], l), ladd(n, C(1)), i, 'strcat')
        changed(s, S, d)
        setlen(s, S, d, end)
    ret(s, S, i, d)


@model('strncat', '__builtin_strncat')
def _strncat(s, S, i, A):
    d, q = s.evp(S, A[0]), s.evp(S, A[1])
    n = s.strlen_of(S, q)
    m = s.ev(S, A[2])
    if d and d[0]:
        l = s.strl(S, d)
        if l is None:
            l = s.ghost(S, 'cat')
        k = n if s.entails(S, ladd(m, n, -1)) else m
        end = ladd(ladd(d[1], l), k)
        s.oblige(S, d[0], ladd(d[1], l), ladd(k, C(1)), i, 'strncat')
        changed(s, S, d)
        g = s.ghost(S, 'nc')
        S.P.add(ladd(end, g, -1))
        setlen(s, S, d, g)
    ret(s, S, i, d)


@model('strncpy', '__builtin_strncpy')
def _strncpy(s, S, i, A):
    d = s.evp(S, A[0])
    m = s.ev(S, A[2])
    if d and d[0]:
        s.oblige(S, d[0], d[1], m, i, 'strncpy')
        changed(s, S, d)
        S.nul = S.nul - {d[0]} if s.buffer(d[0]) else S.nul
    ret(s, S, i, d)


@model('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', '__builtin___memcpy_chk', '__builtin___memmove_chk')
def _memcpy(s, S, i, A):
    d, q = s.evp(S, A[0]), s.evp(S, A[1])
    m = s.ev(S, A[2])
    if d and d[0]:
        s.oblige(S, d[0], d[1], m, i, 'copy')
        # a copy that includes the source's NUL
        end = None
        if q and q[0] and q[0] in S.nul and q[0] != d[0]:
            l = s.strl(S, q)
            if l is not None and s.entails(S, ladd(ladd(m, l, -1), C(-1))):
                end = ladd(d[1], l)
        changed(s, S, d)
        if end is not None:
            setlen(s, S, d, end)
        else:
            s.wrote(S, d[0], d[1], None, m)
    ret(s, S, i, d)


@model('bcopy_never')
def _bcopy(s, S, i, A):
    _memcpy(s, S, i, [A[1], A[0], A[2]])


@model('memset', '__builtin_memset')
def _memset(s, S, i, A):
    d = s.evp(S, A[0])
    m = s.ev(S, A[2])
    v = s.ev(S, A[1])
    if d and d[0]:
        s.oblige(S, d[0], d[1], m, i, 'memset')
        changed(s, S, d)
        if not v[0] and v[1] == 0 and s.entails(S, ladd(m, C(-1))):
            s.wrote(S, d[0], d[1], True, C(1))
        else:
            s.wrote(S, d[0], d[1], None, m)
    ret(s, S, i, d)


def bounded_reader(d_, n_, retmax=True, exact=False, lo=-1):
    def h(s, S, i, A):
        d = s.evp(S, A[d_])
        m = s.ev(S, A[n_])
        if d and d[0]:
            s.oblige(S, d[0], d[1], m, i, i.a[1].split('#')[0])
            changed(s, S, d)
            s.wrote(S, d[0], d[1], None, m)
        if i.a[0]:
            ty = s.vty.get(i.a[0])
            s.setres(S, i)
            if retmax and ty and s.isint(ty):
                r = D('v:' + i.a[0])
                S.P.add(ladd(r, C(-lo)))
                if s.entails(S, m):
                    S.P.add(ladd(m, r, -1))
    return h


for _n in ('read', 'recv', 'readlink'):
    MODELS[_n] = bounded_reader(1, 2)
MODELS['recvfrom'] = bounded_reader(1, 2)
MODELS['ui_read'] = bounded_reader(1, 2)


@model('fread')
def _fread(s, S, i, A):
    d = s.evp(S, A[0])
    a, b = s.ev(S, A[1]), s.ev(S, A[2])
    n = lscale(a, b[1]) if not b[0] else lscale(b, a[1]) if not a[0] else None
    if d and d[0]:
        s.oblige(S, d[0], d[1], n if n is not None else s.ghost(S, 'fr'), i, 'fread')
        changed(s, S, d)
        s.wrote(S, d[0], d[1], None, n)
    s.setres(S, i)
    if i.a[0]:
        r = D('v:' + i.a[0])
        s.rng['v:' + i.a[0]] = (0, (1 << 64) - 1)
        S.P.add(ladd(b, r, -1))


@model('getcwd', 'fgets', 'gethostname')
def _getcwd(s, S, i, A):
    d = s.evp(S, A[0])
    m = s.ev(S, A[1])
    if d and d[0]:
        s.oblige(S, d[0], d[1], m, i, i.a[1].split('#')[0])
        changed(s, S, d)
        if s.buffer(d[0]):
            g = s.ghost(S, 'gs')
            S.P.add(ladd(ladd(m, g, -1), C(-1)))
            setlen(s, S, d, ladd(d[1], g))
    if i.a[0]:
        s.setres(S, i)
        if d and d[0]:
            s.setres(S, i, ptr=d)


@model('strftime')
def _strftime(s, S, i, A):
    d = s.evp(S, A[0])
    m = s.ev(S, A[1])
    if d and d[0]:
        s.oblige(S, d[0], d[1], m, i, 'strftime')
        changed(s, S, d)
        s.wrote(S, d[0], d[1], None, m)
    s.setres(S, i)


@model('regerror')
def _regerror(s, S, i, A):
    d = s.evp(S, A[2])
    m = s.ev(S, A[3])
    if d and d[0] and d[0] != 'null':
        s.oblige(S, d[0], d[1], m, i, 'regerror')
        changed(s, S, d)
    z = s.ghost(S, 'n')
    S.P.add(ladd(C(1 << 30), z, -1))
    s.setres(S, i, val=ladd(z, C(1)))


FMT = re.compile(rb'%([-+ 0#]*)(\d*|\*)(?:\.(\d+|\*))?(hh|h|ll|l|L|z)?([a-zA-Z%])')


def fmtlen(s, S, fmt, args, i):
    """(minimum 0, maximum) length of the formatted output as a form, or None when unbounded"""
    tot = C(0)
    pos = 0
    args = list(args)
    for m in FMT.finditer(fmt):
        lit = fmt[pos:m.start()]
        tot = ladd(tot, C(len(lit)))
        pos = m.end()
        fl, wid, prec, ln, cv = m.groups()
        cv = cv.decode()
        if cv == '%':
            tot = ladd(tot, C(1))
            continue
        if wid == b'*' or prec == b'*':
            return None
        w = int(wid or 0)
        if not args:
            return None
        a = args.pop(0)
        p = int(prec) if prec else None
        if cv in 'di':
            k = max({None: 11, b'h': 6, b'hh': 4}.get(ln, 20), w, (p or 0) + 1)
            if cv in 'di':
                x = s.ev(S, a)
                k2 = digits(s, S, x)
                if k2 is not None:
                    k = max(min(k, k2), w, (p or 0))
            tot = ladd(tot, C(k))
        elif cv in 'uxXo':
            k = {'u': (10, 20), 'x': (8, 16), 'X': (8, 16), 'o': (11, 22)}[cv][ln in (b'l', b'll', b'z')] + (2 if b'#' in fl else 0)
            tot = ladd(tot, C(max(k, w, p or 0)))
        elif cv == 'c':
            tot = ladd(tot, C(max(1, w)))
        elif cv == 'p':
            tot = ladd(tot, C(max(18, w)))
        elif cv in 'gG':
            pp = 6 if p is None else max(p, 1)
            tot = ladd(tot, C(max(pp + 8, w)))
        elif cv in 'eE':
            tot = ladd(tot, C(max((6 if p is None else p) + 9, w)))
        elif cv in 'f':
            tot = ladd(tot, C(max((6 if p is None else p) + 312, w)))
        elif cv == 's':
            if p is not None:
                tot = ladd(tot, C(max(p, w)))
            else:
                q = s.evp(S, a)
                n = s.strl(S, q) if q else None
                if n is None:
                    n = s.ghost(S, 'fs%d' % len(args))
                if w:
                    g = s.ghost(S, 'fw%d' % len(args))
                    S.P.add(ladd(g, n, -1))
                    if s.entails(S, ladd(C(w), n, -1)):
                        n = C(w)
                    elif not s.entails(S, ladd(n, C(-w))):
                        n = ladd(n, C(w))
                tot = ladd(tot, n)
        else:
            return None
    return ladd(tot, C(len(fmt) - pos))


def digits(s, S, x):
    for k in range(1, 20):
        if s.entails(S, ladd(C(10 ** k - 1), x, -1)):
            if s.entails(S, x):
                return k
            if s.entails(S, ladd(x, C(10 ** (k - 1) - 1))):
                return k
    return None


def strconst(e):
    while e.op == 'cast':
        e = e.a[0]
    if e.op == 'str':
        v = e.a[0]
        return v if isinstance(v, bytes) else v.encode('latin1')
    return None


@model('sprintf', '__builtin_sprintf', 'vsprintf')
def _sprintf(s, S, i, A):
    d = s.evp(S, A[0])
    fm = strconst(A[1])
    n = fmtlen(s, S, fm, A[2:], i) if fm is not None else None
    if n is None:
        n = s.ghost(S, 'fmt')
    if d and d[0]:
        s.oblige(S, d[0], d[1], ladd(n, C(1)), i, 'sprintf')
        changed(s, S, d)
        g = s.ghost(S, 'sp')
        S.P.add(ladd(n, g, -1))
        S.nul = S.nul - {d[0]}
        setlen(s, S, (d[0], d[1]), ladd(d[1], g))
    s.setres(S, i)


@model('snprintf', '__builtin_snprintf', 'vsnprintf', '_snprintf')
def _snprintf(s, S, i, A):
    d = s.evp(S, A[0])
    m = s.ev(S, A[1])
    fm = strconst(A[2])
    if d and d[0] and d[0] != 'null':
        s.oblige(S, d[0], d[1], m, i, 'snprintf')
        changed(s, S, d)
        if s.entails(S, ladd(m, C(-1))):
            g = s.ghost(S, 'sn')
            S.P.add(ladd(ladd(m, g, -1), C(-1)))
            S.nul = S.nul - {d[0]}
            setlen(s, S, d, ladd(d[1], g))
    s.setres(S, i)


def finder(off):
    def h(s, S, i, A):
        p = s.evp(S, A[0])
        if i.a[0]:
            if p and p[0] and p[0] != 'null' and s.strl(S, p) is not None:
                g = s.ghost(S, 'at')
                S.P.add(ladd(ladd(s.strl(S, p), g, -1), C(0)))
                s.setres(S, i, ptr=(p[0], ladd(p[1], g)))
            elif p and p[0] and p[0] != 'null':
                g = s.ghost(S, 'at')
                s.setres(S, i, ptr=(p[0], ladd(p[1], g)))
            else:
                s.setres(S, i)
    return h


for _n in ('strchr', 'strrchr', 'strstr', 'strpbrk'):
    MODELS[_n] = finder(0)


@model('strdup')
def _strdup(s, S, i, A):
    p = s.evp(S, A[0])
    n = s.strlen_of(S, p)
    s.alloc(S, i, ladd(n, C(1)), 'strdup')
    R = 'm:strdup:%d' % i.id
    setlen(s, S, (R, C(0)), n)


@model('modify', 'initialize')
def _modify(s, S, i, A):
    d = s.evp(S, A[0])
    if d and d[0]:
        s.oblige(S, d[0], d[1], C(8), i, 'store')
        changed(s, S, d)
        s.wrote(S, d[0], d[1], None, C(8))
    else:
        s.killmem(S)


@model('adjust_pointers')
def _adjust(s, S, i, A):
    d = s.evp(S, A[0])
    n = lscale(s.ev(S, A[1]), 8)
    if d and d[0]:
        s.oblige(S, d[0], d[1], n, i, 'relocation')
        changed(s, S, d)
        s.wrote(S, d[0], d[1], None, n)
    s.killmem(S)


@model('mpz_sizeinbase', '__gmpz_sizeinbase')
def _sib(s, S, i, A):
    s.setres(S, i, val=s.ghost(S, 'sib'))
    if i.a[0]:
        s.rng['v:' + i.a[0]] = (0, HUGE)


# ---- driver -----------------------------------------------------------------------------------------
EXCL = {'expand.c', 'intern.c', 'interncp.c', 'extern.c', 'externcp.c', 'io.c', 'freelist.c', 'major_gc.c', 'minor_gc.c'}


class Bufs:
    def __init__(s, P, files=None):
        s.P = P
        s.sites = None
        s.F = cflow.Facts(P)
        s.mods = pstate.modsets(s.F)
        s.stats = dict(functions=0, obligations=0, states=0)
        s.where, s.bufs, s.undecided, s.rep = set(), set(), set(), {}
        s.helpers = cflow.internal_helpers(s.F)
        s.sized = s.givensize()
        s.writers = s._writers()
        s.failed = {}
        s.scope = set()

    def modset(s, i, f):
        if not isinstance(i.a[1], str):
            t, unk = s.F.targets(i, f)
            r = set()
            for k in t:
                r |= s.mods[k][0]
            return None if unk else r
        h = s.F.lookup(i.a[1], f)
        if h is None:
            return set()
        return s.mods[h.key][0]

    def givensize(s):
        """functions, called from C only, that allocate what their caller asks for: analysed inlined at every call"""
        s.constants(None)
        r = set()
        for k in s.sites:
            f = s.P.fns[k]
            ps = {u for u, _ in f.params}
            if f.name in s.F.addr_taken or f.addrlabels or f.name in MODELS or f.name in ALLOCS:
                continue
            for i in s.F.calls[k]:
                n = isinstance(i.a[1], str) and i.a[1].split('#')[0]
                if n in ALLOCS or n in ('alloc', 'alloc_tuple', 'alloc_shr', 'alloc_shr_garbage', 'calloc', 'realloc'):
                    for a in i.a[2]:
                        hit = []
                        cflow.walk_e(a, lambda x: hit.append(1) if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in ps
                                     and not s.P.fns[k].vars.get(x.a[0].a[0], ('', '', ''))[1].endswith('*') else None)
                        if hit and any(i2.op == 'set' and i2.a[0].root().kind == 'mem' for b in f.blocks.values() for i2 in b.ins):
                            r.add(k)
        return r

    def constants(s, f):
        """(parameter, least, greatest) where every call in the tree passes a constant"""
        if s.sites is None:
            s.sites = {}
            for k, g in s.P.fns.items():
                for i in s.F.calls[k]:
                    h = isinstance(i.a[1], str) and s.F.lookup(i.a[1], g)
                    if h:
                        s.sites.setdefault(h.key, []).append(i.a[2])
        if f is None:
            return ()
        return s.constants_of(f)

    def constants_of(s, f):
        ss = s.sites.get(f.key)
        if not ss or f.name in s.F.addr_taken:
            return
        for n, (u, ty) in enumerate(f.params):
            vs = []
            for A in ss:
                e = A[n] if n < len(A) else None
                while e is not None and e.op == 'cast':
                    e = e.a[0]
                vs.append(e.a[0] if e is not None and e.op == 'const' else None)
            if all(isinstance(v, int) for v in vs):
                yield u, min(vs), max(vs)

    def assume(s, fu, S):
        """on entry to every function: stack_low <= extern_sp <= stack_high, in one block (I02)"""
        for u, a, b in s.constants(fu.f):
            S.P.add(ladd(D('v:' + u), C(-a)))
            S.P.add(ladd(C(b), D('v:' + u), -1))
        v = fu.f.vars
        used = set()
        for b in fu.f.blocks.values():
            for i in b.ins:
                for e in cflow.ins_exprs(i):
                    cflow.walk_e(e, lambda x: used.add(x.a[0].a[0]) if x.op == 'load' and x.a[0].kind == 'var' else None)
        lo, sp, hi = 'stack_low#g', 'extern_sp#g', 'stack_high#g'
        if {lo, sp, hi} <= used:
            for k in (lo, sp, hi):
                S.reg[k] = 'u:the stack'
            S.P.addeq(D('o:' + lo))
            S.P.add(ladd(D('o:' + sp), D('o:' + lo), -1))
            S.P.add(ladd(D('o:' + hi), D('o:' + sp), -1))

    def twopass(s, fu, a):
        """the amount is accumulated in a loop over the contents: by different steps for different inputs"""
        def uses(e):
            r = set()
            cflow.walk_e(e, lambda x: r.add(x.a[0].a[0]) if x.op == 'load' and x.a[0].kind == 'var' else None)
            return r
        us = set()
        cflow.walk_e(a, lambda x: us.add(x.a[0].a[0]) if x.op == 'load' and x.a[0].kind == 'var' else None)
        n = {}
        for b in set().union(*fu.loops.values()) if fu.loops else ():
            for i in fu.f.blocks[b].ins:
                if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] in us and i.a[0].a[0] in uses(i.a[1]):
                    n[i.a[0].a[0]] = n.get(i.a[0].a[0], 0) + 1
        return any(v > 1 for v in n.values())

    def report(s, fu, i, R, what, bad, off, w):
        f = fu.f
        nm = R[2:].split('#')[0] if R[0] == 'a' else {'m': 'the block allocated by ' + R[2:].split(':')[0], 'f': 'the array member ' + re.sub(r'#\w+', '', R[2:])[:50], 's': 'a string constant'}[R[0]]
        file, line = i.file or f.file, i.line
        s.rep.setdefault((file, line, what, nm, bad), f.name + ': ' + 'a %s of %s bytes at offset %s may go %s %s' % (what, w, off, bad, nm))

    def _writers(s):
        """(function, parameter) pairs whose pointee the function may write, transitively"""
        w = set()
        P = s.P
        flows = {}
        for k, f in P.fns.items():
            pu = {u: n for n, (u, t) in enumerate(f.params)}
            # variables that may hold a parameter
            src = {u: {n} for u, n in pu.items()}
            ch = True
            while ch:
                ch = False
                for b in f.blocks.values():
                    for i in b.ins:
                        if i.op == 'set' and i.a[0].kind == 'var':
                            o = set()
                            ptr_roots(i.a[1], lambda u: o.update(src.get(u, ())))
                            if o - src.get(i.a[0].a[0], set()):
                                src.setdefault(i.a[0].a[0], set()).update(o)
                                ch = True
            flows[k] = src
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'set' and i.a[0].root().kind == 'mem':
                        ptr_roots(i.a[0].root().a[0], lambda u: w.update((k, n) for n in src.get(u, ())))
                    elif i.op == 'call' and isinstance(i.a[1], str) and s.F.lookup(i.a[1], f) is None and i.a[1] not in PURE:
                        for n, a in enumerate(i.a[2]):
                            if i.a[1] in MODELS and n > 1 or re.match(r'const\b[^*]*\*$', a.ty or ''):
                                continue
                            ptr_roots(a, lambda u: w.update((k, m) for m in src.get(u, ())))
        ch = True
        while ch:
            ch = False
            for k, f in P.fns.items():
                for i in s.F.calls[k]:
                    if not isinstance(i.a[1], str):
                        continue
                    h = s.F.lookup(i.a[1], f)
                    if h is None:
                        continue
                    for n, a in enumerate(i.a[2]):
                        if (h.key, n) in w:
                            o = set()
                            ptr_roots(a, lambda u: o.update((k, m) for m in flows[k].get(u, ())))
                            if o - w:
                                w |= o
                                ch = True
        return w

    def wanted(s, f):
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'call' and isinstance(i.a[1], str):
                    n = i.a[1].split('#')[0]
                    if n in ALLOCS or n in MODELS and n not in ('strlen', 'string_length') or n in ('alloc', 'alloc_tuple', 'alloc_shr', 'alloc_shr_garbage', 'realloc', 'calloc'):
                        return True
                if i.op == 'set' and i.a[0].root().kind == 'mem':
                    hit = []
                    cflow.walk_e(i.a[0].root().a[0], lambda x: hit.append(1) if x.op == 'addr' else None)
                    if hit:
                        return True
                for e in cflow.ins_exprs(i):
                    hit = []

                    def w(x):
                        if x.op == 'addr' and x.a[0].kind == 'var' and '[' in (x.a[0].dty or ''):
                            hit.append(1)
                    cflow.walk_e(e, w)
                    if hit:
                        return True
        return False

    def function(s, k):
        f = s.P.fns[k]
        if k in s.sized:
            return None
        pick = lambda x: x != k and (x in s.helpers or x in s.sized or any(q == x for q, n in s.writers)) and x not in MODELS and x not in ALLOCS and os.path.basename(s.P.fns[x].file) not in EXCL and len(s.P.fns[x].blocks) <= 40 and not s.P.fns[x].addrlabels
        g = cflow.inline(s.F, f, pick, maxblocks=400, depth=3) if not f.addrlabels else f
        g = cflow.tempalias(g)
        if not s.wanted(g):
            return None
        s.stats['functions'] += 1
        fu = Fun(s, g)
        return fu.run()


def ptr_roots(e, f):
    """variables whose pointer value e may be (through casts, arithmetic)"""
    while e.op == 'cast':
        e = e.a[0]
    if e.op == 'load' and e.a[0].kind == 'var':
        f(e.a[0].a[0])
    elif e.op == 'padd':
        ptr_roots(e.a[0], f)
    elif e.op == 'addr' and e.a[0].root().kind == 'mem':
        ptr_roots(e.a[0].root().a[0], f)
    elif e.op == 'bin' and e.a[0] in '+-':
        ptr_roots(e.a[1], f)
        ptr_roots(e.a[2], f)


FIX = 'vsa_buf.c'
_T = None


def _one(ks):
    T = _T
    T.stats = dict(functions=0, obligations=0, states=0)
    T.where, T.bufs, T.undecided, T.rep, T.scope = set(), set(), set(), {}, set()
    und = []
    for k in ks:
        try:
            T.function(k)
        except Undec as e:
            und.append('%s: %s' % (T.P.fns[k].name, e))
    return T.stats, T.where, T.bufs, T.undecided, T.rep, T.scope, und


def C01(tier='quick'):
    global _T
    import multiprocessing
    P = checks.program((FIX,))
    _T = T = Bufs(P)
    ks = [k for k in P.fns if os.path.basename(P.fns[k].file) not in EXCL]
    if len(ks) < 300:
        raise AnalysisError('only %d functions' % len(ks))
    # the long ones first
    ks.sort(key=lambda k: -len(P.fns[k].blocks))
    und = []
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for st, where, bufs, u, rep, scope, un in pool.imap_unordered(_one, [[k] for k in ks]):
            for a, b in st.items():
                T.stats[a] = T.stats.get(a, 0) + b
            T.where |= where
            T.bufs |= bufs
            T.undecided |= u
            T.scope |= scope
            und += un
            for k, m in rep.items():
                T.rep.setdefault(k, m)
    R = Result()
    fx = []
    # one report per place: the function itself rather than one it is inlined in
    for (file, line, what, nm, bad), msg in sorted(T.rep.items(), key=str):
        if file.endswith(FIX):
            fx.append(line)
            continue
        fn, text = msg.split(': ', 1)
        R.add(file, line, fn, 'C01', text, key='C01|%s|%s|%s|%s|%s' % (file, fn, what, nm, bad))
    n = checks.selftest(FIX, 'C01', fx)
    for u in und:
        print('UNDECIDED property=C01 %s' % u)
    if len(und) > 3:
        raise AnalysisError('not decided: %s' % '; '.join(und))
    if not R.violations and not und:
        for k, lo in dict(functions=80, obligations=500).items():
            if T.stats[k] < lo:
                raise AnalysisError('only %d %s (at least %d expected)' % (T.stats[k], k, lo))
    R.coverage = dict(explanation='Forward abstract interpretation with convex polyhedra of every function that writes to an array, a member array or a block it allocates (small callees that write through their arguments are inlined, library functions modelled): at each such write, offset >= 0 and offset + width <= size of the region are obligations.',
                      functions=T.stats['functions'], obligations=T.stats['obligations'], abstract_states=T.stats['states'],
                      places=len(T.where), buffers=len(T.bufs), selftest_instances=n, undecided=und,
                      not_followed=sorted('%s %s: %s' % x for x in T.undecided if not x[0].endswith(FIX)),
                      out_of_scope=sorted('%s %s: %s' % x for x in T.scope), obligations_out_of_scope=T.stats.get('out of scope', 0),
                      files_not_analysed=sorted(EXCL))
    R.assumptions = ['objects are smaller than 2^57 bytes; memory is read with the type it was written with (C11 6.5p7)',
                     'an ML string is followed by a NUL inside its block; library functions write what their manual says',
                     'pointers received from elsewhere (parameters, fields) are not themselves out of range; only buffers declared or allocated in the function, its helpers, or reached as a member array are bounded',
                     'stack_low <= extern_sp <= stack_high on entry to realloc_stack (I02)']
    return R
