"""I04: integer arithmetic is exact or raises.  Uses arith.py on the interpreter's arithmetic handlers and on the
real-to-int primitives, with the mathematical specification of each operation as oracle."""
import os
import re
from . import checks, cir, machine, arith, cflow
from .arith import (Arith, State, const, atom, padd, pmul, pscale, P as poly, cases, shows, MINL, MAXL, Infeasible, Giveup, isconst, cval)
from .cbuild import AnalysisError
from . import cbuild
from .report import Result

ML = dict(SMLNEGINT=1, SMLSUCCINT=1, SMLPREDINT=1, SMLADDINT=2, SMLSUBINT=2, SMLMULINT=2, SMLDIVINT=2, SMLMODINT=2, SMLQUOTINT=2, SMLREMINT=2)
WORD = dict(ADDINT=2, SUBINT=2, MULINT=2, DIVINT=2, MODINT=2, ANDINT=2, ORINT=2, XORINT=2, SHIFTLEFTINT=2, SHIFTRIGHTINTSIGNED=2, SHIFTRIGHTINTUNSIGNED=2)
LIN = dict(SMLNEGINT=lambda a, b: pscale(b, -1), SMLSUCCINT=lambda a, b: padd(b, const(1)), SMLPREDINT=lambda a, b: padd(b, const(-1)),
           SMLADDINT=padd, SMLSUBINT=lambda a, b: padd(a, b, -1), SMLMULINT=pmul)
BIT = dict(ANDINT='&', ORINT='|', XORINT='^', SHIFTLEFTINT='<<', SHIFTRIGHTINTSIGNED='>>', SHIFTRIGHTINTUNSIGNED='>>u')


def signs(name):
    """partition of an operand in [MINL,MAXL]: (poly, facts)"""
    x = atom(name)
    return [(pscale(x, -1), (1, -MINL)), ((), None), (x, (1, MAXL))]


def wsigns(name):
    """a word w in [0,2^63): (tagged contents as a long, w poly, facts)"""
    x = atom(name)
    return [((), ()), (x, (1, MAXL)), (x, (MAXL + 1, (1 << 63) - 1))]


def macro(name):
    for root in ('runtime',):
        p = os.path.join(cbuild.SRC, root, 'globals.h')
        m = re.search(r'^\s*#\s*define\s+%s\s+(\d+)' % name, open(p).read(), re.M)
        if m:
            return int(m.group(1))
    raise AnalysisError('macro %s not found in globals.h' % name)


def nonneg(st, p):
    b = st.bounds(p)
    return b[0] is not None and b[0] >= 0


def sgn(st, p):
    b = st.bounds(p)
    if b == (0, 0):
        return 0
    if b[0] is not None and b[0] > 0:
        return 1
    if b[1] is not None and b[1] < 0:
        return -1
    return None


def isquot(st, kind, res, A, B):
    """res is the exact quotient: A - res*B is a remainder of the right sign and size"""
    m = st.reduce(padd(A, pmul(res, B), -1))
    return isrem(st, kind, m, A, B)


def isrem(st, kind, m, A, B):
    sb, sa = sgn(st, B), sgn(st, A)
    absB = B if sb == 1 else pscale(B, -1)
    if kind == 'floor':
        s = sb
    else:
        s = sa if sa else 1
    x = m if s == 1 else pscale(m, -1)          # must be in [0, |B|)
    return nonneg(st, x) and nonneg(st, padd(padd(absB, x, -1), const(-1)))


def ismod(st, kind, res, A, B):
    """res is the remainder: right sign and size, and A - res is a multiple of B"""
    if not isrem(st, kind, st.reduce(res), A, B):
        return False
    d = padd(A, res, -1)
    for (n, dd), (q, r) in list(st.ids.items()):
        x = st.subst(d, r, padd(n, pmul(dd, atom(q)), -1))
        if x is not None:
            d = x
    if divisible(st, d, B):
        return True
    for (n, dd), (q, r) in list(st.ids.items()):
        if len(n) == 1 and len(n[0][0]) == 1 and abs(n[0][1]) == 1:
            x = st.subst(d, n[0][0][0], pscale(padd(pmul(dd, atom(q)), atom(r)), n[0][1]))
            if x is None:
                continue
            for a in {a for m, c in x for a in m}:
                b = st.mono((a,))
                if b[0] is not None and b[0] == b[1]:
                    x = st.subst(x, a, const(b[0]))
            if divisible(st, x, B):
                return True
    return False


def divisible(st, d, B):
    if not d or st.zero(d):
        return True
    if len(B) != 1:
        return False
    (bm, bc), = B
    for m, c in d:
        l = list(m)
        for a in bm:
            if a not in l:
                return False
            l.remove(a)
        if c % bc:
            return False
    return True


def outside(st, p, lo, hi):
    b = st.bounds(p)
    return (b[0] is not None and b[0] > hi) or (b[1] is not None and b[1] < lo)


class Alu:
    def __init__(s, P):
        s.P = P
        s.M = machine.Machine(P)
        s.R = Result()
        s.st = dict(handlers=0, partitions=0, outcomes=0, exact_results=0, overflow_outcomes=0, division_sites=0, wrap_sites=0, real_conversions=0)
        s.exn = {'Overflow': macro('EXN_OVERFLOW'), 'Div': macro('EXN_DIV')}
        s.sys = {'Overflow': macro('SYS__EXN_OVERFLOW'), 'Div': macro('SYS__EXN_DIV'), 'Domain': macro('SYS__EXN_DOMAIN')}
        f = s.M.f
        seen, todo = set(), [s.M.block('RAISE')]
        while todo:
            b = todo.pop()
            if b not in seen:
                seen.add(b)
                todo += [x for x in f.blocks[b].succs() if x is not None]
        s.raising = seen
        s.noret = noreturn(P)

    def loads(s, A):
        def f(a, st, e):
            if a[0] != 'p':
                return None
            if a[1].split('#')[0] == 'global_data' and a[2] == ():
                return ('p', 'GLOBAL', ())
            if a[1] == 'GLOBAL' and isconst(a[2]):
                return ('exn', cval(a[2]) // 8)
            if a[1] == 'sp' and a[2] == () and A is not None:
                return ('z', A)
            return None
        return f

    def bad(s, op, line, msg, f=None, file='src/runtime/interp.c'):
        fn = f or 'interprete'
        s.R.add(file, line, fn, 'exact or raises', '%s: %s' % (op, msg), key='%s|%s|%s' % (fn, op, re.sub(r'\d{6,}', 'N', msg)))

    def handlers(s):
        M = s.M
        for op, n in list(ML.items()) + list(WORD.items()):
            if op not in M.label:
                raise AnalysisError('no handler for %s' % op)
            s.st['handlers'] += 1
            word = op in WORD
            for pa in (wsigns('a') if word else signs('a')) if n == 2 else [((), None)]:
                for pb in (wsigns('b') if word else signs('b')):
                    s.one(op, n, word, pa, pb)

    def tagged(s, w, rng, word):
        if not word:
            return padd(pscale(w, 2), const(1))
        t = padd(pscale(w, 2), const(1))
        if rng and rng[0] > MAXL:
            t = padd(t, const(-(1 << 64)))
        return t

    def one(s, op, n, word, pa, pb):
        M = s.M
        st = State()
        A, B = pa[0], pb[0]
        for p, r in (pa, pb):
            if p and r:
                nm = p[0][0][0]
                st.afact(atom(nm), *r)
        st.v[M.accu] = ('z', s.tagged(B, pb[1], word))
        st.v[M.sp] = ('p', 'sp', ())
        st.v[M.pc] = ('p', 'pc', ())
        st.v[M.env] = ('p', 'env', ())
        ar = Arith(s.P, M.f, inputs=s.loads(s.tagged(A, pa[1], word) if n == 2 else None), stop=s.raising, noret=s.noret)
        s.st['partitions'] += 1
        line = M.line(op)
        # an int shift count of 64 or more is excluded by the library before the primitive is used
        try:
            res = ar.run(st, M.block(op))
        except Giveup as g:
            raise AnalysisError('%s: %s' % (op, g))
        s.st['division_sites'] = max(s.st['division_sites'], ar.divs)
        s.st['wrap_sites'] += ar.wraps
        for l, m in ar.bad:
            s.bad(op, l, m)
        part = ' (operands %s%s)' % ((desc(pa) + ' and ') if n == 2 else '', desc(pb))
        if not res and not ar.bad:
            raise AnalysisError('%s: no outcome%s' % (op, part))
        for kind, info, t in res:
            s.st['outcomes'] += 1
            acc = t.v.get(M.accu)
            exn = None
            if kind == 'enter':
                exn = next((k for k, v in s.exn.items() if acc == ('exn', v)), None)
                if exn is None:
                    s.bad(op, line, 'an exception other than Overflow and Div is raised' + part)
                    continue
            elif kind == 'raise':
                exn = 'Overflow' if info == 'raise_overflow' else info
            zero = n == 2 and op[-6:] != 'MULINT' and not B and any(x in op for x in ('DIVINT', 'MODINT', 'QUOTINT', 'REMINT'))
            if exn == 'Div':
                if not zero:
                    s.bad(op, line, 'Div is raised although the divisor is not zero' + part)
                continue
            if zero:
                s.bad(op, line, 'a zero divisor does not raise Div' + part)
                continue
            if exn is not None:
                s.st['overflow_outcomes'] += 1
                if exn != 'Overflow' or word:
                    s.bad(op, line, '%s is raised%s' % (exn, part))
                elif not s.mustoverflow(op, t, A, B):
                    s.bad(op, line, 'Overflow is raised although the result may be representable' + part)
                continue
            if kind != 'igoto':
                raise AnalysisError('%s leaves the interpreter loop' % op)
            sp = t.v.get(M.sp)
            if sp != ('p', 'sp', const(8) if n == 2 else ()):
                s.bad(op, line, 'the handler does not pop its operand' + part)
            if not acc or acc[0] not in 'zw':
                s.bad(op, line, 'the result is not an integer' + part)
                continue
            T = acc[1]
            if word:
                why = s.wordok(op, t, T, A, B)
            else:
                why = s.mlok(op, t, acc, A, B)
            if why:
                s.bad(op, line, why + part)
            else:
                s.st['exact_results'] += 1

    def candidates(s, t):
        out = []
        for u, v in t.v.items():
            if isinstance(v, tuple) and v[0] in 'zw':
                p = v[1]
                out.append(p)
                q = padd(p, const(-1))
                if all(c % 2 == 0 for m, c in q):
                    out.append(poly({m: c // 2 for m, c in q}))
        return out

    def mustoverflow(s, op, t, A, B):
        if op in LIN:
            return outside(t, LIN[op](A, B), MINL, MAXL)
        kind = 'floor' if op in ('SMLDIVINT', 'SMLMODINT') else 'trunc'
        for c in s.candidates(t):
            ok = isquot(t, kind, c, A, B) if 'DIV' in op or 'QUOT' in op else ismod(t, kind, c, A, B)
            if ok and outside(t, c, MINL, MAXL):
                return True
        return False

    def mlok(s, op, t, acc, A, B):
        T = acc[1]
        lo = t_low(T)
        if lo is None or lo[1] != 1:
            return 'the result is not a tagged integer'
        res = lo[0]
        if acc[0] == 'w':
            return 'the result may wrap around'
        if op in LIN:
            exp = LIN[op](A, B)
            if not t.zero(padd(res, exp, -1)):
                return 'the result %s is not %s' % (shows(res), shows(exp))
        else:
            kind = 'floor' if op in ('SMLDIVINT', 'SMLMODINT') else 'trunc'
            f = isquot if ('DIV' in op or 'QUOT' in op) else ismod
            if not f(t, kind, res, A, B):
                return 'the result %s is not the %s' % (shows(res), {'SMLDIVINT': 'quotient rounded down', 'SMLMODINT': 'remainder with the sign of the divisor', 'SMLQUOTINT': 'quotient rounded to zero', 'SMLREMINT': 'remainder with the sign of the dividend'}[op])
        b = t.bounds(res)
        if b[0] is None or b[1] is None or b[0] < MINL or b[1] > MAXL:
            return 'the result can be in [%s, %s], outside the int range' % b
        return None

    def wordok(s, op, t, T, A, B):
        M64 = 1 << 64
        if op in ('ADDINT', 'SUBINT', 'MULINT'):
            e = padd(A, B) if op == 'ADDINT' else padd(A, B, -1) if op == 'SUBINT' else pmul(A, B)
            d = padd(T, padd(pscale(e, 2), const(1)), -1)
            return None if all(c % M64 == 0 for m, c in d) or t.zero(d) else 'the result is not the sum, difference or product modulo the word size'
        lo = t_low(T)
        if lo is None or lo[1] != 1:
            return 'the result is not a tagged integer'
        if op in BIT:
            want = BIT[op]
            b = t.bounds(T)
            ats = {a for m, c in T for a in m}
            if op in ('ANDINT', 'ORINT', 'XORINT', 'SHIFTLEFTINT') and not isconst(A) and not isconst(B):
                if not any(('%s(' % want) in a and 'a' in a and 'b' in a for a in ats):
                    return 'the result is not the %s of the operands' % want
            return None
        for k in (0, 1 << 63, -(1 << 63)):
            res = padd(lo[0], const(k))
            ok = isquot(t, 'floor', res, A, B) if op == 'DIVINT' else ismod(t, 'floor', res, A, B)
            if ok:
                return None
        return 'the result %s is not the %s of the words' % (shows(lo[0]), 'quotient' if op == 'DIVINT' else 'remainder')

    # ---- primitives ------------------------------------------------------------------------------
    def prims(s):
        P = s.P
        REAL = {'sml_floor': 'floor', 'sml_ceil': 'ceil', 'sml_trunc': 'trunc', 'sml_round': 'rint'}
        for name in list(REAL) + ['sml_abs_int']:
            g = [f for n, f in P.fns.items() if n.split('@')[0] == name]
            if not g:
                raise AnalysisError('primitive %s not found' % name)
            s.st['real_conversions'] += 1
            s.prim(g[0], REAL.get(name))

    def prim(s, f, kind):
        P = s.P

        def dload(a, st, e):
            if ar.isd(e):
                return ('d', ('in', 'r'))
            return None
        ar = Arith(P, f, inputs=dload, noret=s.noret)

        def oncall(base, i, st):
            if base in ('Double_val', 'double_val') or (i.a[0] and i.a[0] in f.vars and P.resolve(f.vars[i.a[0]][1]) == 'double' and base not in ('floor', 'ceil', 'rint', 'nearbyint', 'trunc', 'fabs') and base not in P.fns):
                return ('d', ('in', 'r'))
            if base == 'Double_val' or (base in P.fns and P.resolve(P.fns[base].ret) == 'double'):
                return ('d', ('in', 'r')) if any(s.isval(ar, a, st) for a in i.a[2]) else None
            return None
        ar.oncall = oncall
        s.valuearg = None
        u = f.params[0][0]
        starts = []
        if kind is None:
            for p, r in signs('a'):
                st = State()
                if p:
                    st.afact(atom('a'), *r)
                st.v[u] = ('z', padd(pscale(p, 2), const(1)))
                starts.append((st, p))
        else:
            st = State()
            st.v[u] = ('p', 'f', ())
            starts.append((st, None))
        for st, p in starts:
            s.st['partitions'] += 1
            ar.n = 0
            ar.f = f
            try:
                res = ar.run(st, f.entry)
            except Giveup as g:
                raise AnalysisError('%s: %s' % (f.name, g))
            for l, m in ar.bad:
                s.bad(f.name, l, m, f.name, f.file)
            if not res and not ar.bad:
                raise AnalysisError('%s: no outcome' % f.name)
            for k, info, t in res:
                s.st['outcomes'] += 1
                if k == 'raise':
                    s.st['overflow_outcomes'] += 1
                    if kind is None:
                        exp = p if sgn(t, p) != -1 else pscale(p, -1)
                        if not outside(t, exp, MINL, MAXL):
                            s.bad(f.name, f.line, 'an exception is raised although the result may be representable', f.name, f.file)
                        continue
                    d = t.dbl.get('r', arith.DTOP)
                    if d[0] > d[2]:
                        continue            # NaN only
                    exp = s.expected(t, kind)
                    if exp is None or not all(outside(x, e, MINL, MAXL) for x, e in exp):
                        s.bad(f.name, f.line, 'an exception is raised although the result may be representable (argument in [%r, %r])' % (d[0], d[2]), f.name, f.file)
                    continue
                if k != 'ret':
                    raise AnalysisError('%s: unexpected exit' % f.name)
                if not info or info[0] != 'z' or not (t_low(info[1]) and t_low(info[1])[1] == 1):
                    s.bad(f.name, f.line, 'the result is not a tagged integer', f.name, f.file)
                    continue
                res_ = t_low(info[1])[0]
                if kind is None:
                    exps = [(t, p if sgn(t, p) != -1 else pscale(p, -1))]
                else:
                    d = t.dbl.get('r', arith.DTOP)
                    if d[4]:
                        s.bad(f.name, f.line, 'a result is returned for NaN', f.name, f.file)
                        continue
                    exps = s.expected(t, kind)
                ok = True
                for x, e in exps or [(t, None)]:
                    if e is None or not x.zero(padd(res_, e, -1)):
                        d = t.dbl.get('r', arith.DTOP)
                        s.bad(f.name, f.line, 'the result %s is not the exact one%s' % (shows(res_), '' if kind is None else ' (argument in [%r, %r]%s)' % (d[0], d[2], {None: '', True: ' and integral', False: ' and not integral'}[d[5]])), f.name, f.file)
                        ok = False
                        continue
                    b = x.bounds(e)
                    if b[0] is None or b[1] is None or b[0] < MINL or b[1] > MAXL:
                        s.bad(f.name, f.line, 'the result can be in [%s, %s], outside the int range' % b, f.name, f.file)
                        ok = False
                s.st['exact_results'] += ok

    def isval(s, ar, a, st):
        v = ar.ev(a, st)
        return v == ('p', 'f', ())

    def expected(s, t, kind):
        """[(refined state, exact result)] covering the real arguments of t"""
        T = atom('trunc(r)')
        if kind == 'trunc':
            return [(t, T)]
        if kind == 'rint':
            return [(t, atom('rint(r)'))]
        out = []
        for neg in (True, False):
            for isint in (True, False):
                n = t.copy()
                try:
                    arith.meet_dbl(n, 'r', arith.half('<' if neg else '>=', 0.0)[:5] + (isint,))
                except Infeasible:
                    continue
                if n.dbl['r'][0] > n.dbl['r'][2]:
                    continue
                e = T
                if not isint and kind == 'floor' and neg:
                    e = padd(T, const(-1))
                if not isint and kind == 'ceil' and not neg:
                    e = padd(T, const(1))
                out.append((n, e))
        return out


def t_low(p):
    d = dict(p)
    c0 = d.get((), 0)
    if all(c % 2 == 0 for m, c in d.items() if m != ()):
        return poly({m: (c if m != () else c - (c0 & 1)) // 2 for m, c in d.items()}), c0 & 1
    return None


def desc(p):
    if not p[0]:
        return 'zero'
    return 'negative' if p[0][0][1] < 0 else 'positive' if not p[1] or p[1][0] <= MAXL else 'with the top bit set'


def noreturn(P):
    return cflow.Facts(P)


def I04(tier):
    P = checks.program()
    a = Alu(P)
    a.handlers()
    a.prims()
    r = a.R
    for k, lo in dict(handlers=21, outcomes=150, exact_results=120, real_conversions=5).items():
        if a.st[k] < lo and not r.violations:
            raise AnalysisError('only %d %s (at least %d expected)' % (a.st[k], k, lo))
    r.coverage = dict(explanation='Abstract interpretation of the arithmetic handlers and real-to-int primitives over exact integers (polynomials with interval facts and division identities), partitioned by operand sign, wrap-around and comparison outcome; each outcome is compared with the mathematical result.', **a.st)
    r.assumptions = ['>> of a negative long is arithmetic and << wraps (gcc)', 'shift counts are tested by the library before the shift primitives', 'rint rounds to nearest even (default rounding mode)']
    return r
