"""Code generation (Back.sml) evaluated on one expression form at a time: subexpressions are opaque and compile to a
pseudo instruction KCODE(stack size, environment depth, expression)."""
import os
from . import vn, smlev, emit, sml, cbuild
from .vn import K, sym, add
from .smlev import Prim, Ref, UNIT, Stuck, NIL, Clo
from .cbuild import AnalysisError

FILE = 'src/compiler/Back.sml'
BIG = 1 << 40


class Arr:
    def __init__(s, l):
        s.l = l


def idx(a, i):
    if i[0] != 'k':
        raise Stuck('array index %r' % (i,))
    if not 0 <= i[1] < len(a.l):
        raise smlev.Raise(('con', 'Subscript', None))
    return i[1]


def _array(e, t):
    n, v = t[1]
    if n[0] != 'k' or n[1] > 5000:
        raise Stuck('array size %r' % (n,))
    return Arr([v] * n[1])


def _sub(e, t):
    a, i = t[1]
    if not isinstance(a, Arr):
        return ('sv', '%s[]' % (a[1],))
    return a.l[idx(a, i)]


def _update(e, t):
    a, i, v = t[1]
    a.l[idx(a, i)] = v
    return UNIT


def tolist(l):
    out = []
    while l != NIL:
        if l[0] != 'con' or l[1] != '::':
            return None
        out.append(l[2][1][0])
        l = l[2][1][1]
    return out


def fromlist(xs):
    r = NIL
    for x in reversed(xs):
        r = cons(x, r)
    return r


def cons(x, l):
    return ('con', '::', ('tup', (x, l)))


def _length(e, l):
    xs = tolist(l)
    if xs is None:
        raise Stuck('length of %r' % (l,))
    return K(len(xs))


ARRAY = {'Array.array': Prim(_array, 1), 'Array.sub': Prim(_sub, 1), 'Array.update': Prim(_update, 1),
         'Array.length': Prim(lambda e, a: K(len(a.l)) if isinstance(a, Arr) else sym('len(%s)' % (a[1],), 0, 1 << 30), 1),
         'Array.fromList': Prim(lambda e, l: Arr(tolist(l)), 1),
         'List.length': Prim(_length, 1), 'length': Prim(_length, 1)}
emit_int = r'P(int|word)_test\.PTnoteqimm$'




def mentions(v, f):
    if isinstance(v, tuple):
        if f(v):
            return True
        return any(mentions(x, f) for x in v)
    return False


class Gen:
    """compileExp with opaque subexpressions"""

    def __init__(s, extra=None):
        pr = dict(ARRAY)
        pr.update(extra or {})
        s.E = smlev.Eval([emit.opcodes_file(), os.path.join(cbuild.REPO, 'src/compiler'), os.path.join(cbuild.REPO, 'src/mosmllib')], pr)
        s.E.intnames = emit_int
        s.E.ranges = [(r'exp:', -BIG, BIG), (r'\.K(label|branch\w*|strictbranch\w*|pushtrap|push_retaddr)$', 1 << 25, 1 << 30), (r'\.K(access|envacc|pop|return|grab|assign)$', 0, 1 << 30)]
        s.E.hook = s.hook
        s.m = s.E.module('Back')
        for m in ('Lambda', 'Prim', 'Instruct', 'Const'):
            s.E.module(m)
        if 'compileExp' not in s.m.v:
            raise AnalysisError('Back.compileExp not found')
        s.cl = None

    def compexp(s, env, sf):
        f = s.E.call(s.E.force(s.m.v['compileExp']), env, sf)
        if not isinstance(f, Clo) or f.n != 4:
            raise Stuck('Back.compileExp does not return a four-argument function')
        s.cl = f.cl[0][1]
        return f

    def hook(s, f, got):
        """a call of the expression compiler on an opaque expression"""
        if s.cl is None or f.cl[0][1] is not s.cl:
            return None
        sz, dp, e, C = got
        if e[0] != 'sv' or not e[1].startswith('exp:') or s.E.p.shape.get(e, ('not',))[0] == 'con':
            return None
        a = s.args(f)
        if a is None:
            raise Stuck('the environment of compileExp')
        env, sf = a
        va = env[1][1]
        return cons(('con', 'KCODE', (sz, dp, e, sf, tuple(va.l))), C)

    def args(s, f):
        """the arguments compileExp was given when it made this closure"""
        e, last = f.env, None
        while e is not None:
            if '#args' in e.v and len(e.v['#args']) == 2:
                last = e.v['#args']
            e = e.up
        return last

    def run(s, mk, C, sz, dp, env, sf):
        """(path, result, expression) for each path; mk() and env() make the expression and environment afresh"""
        cell = {}

        def th():
            s.cl = None
            cell['x'] = mk()
            return s.E.call(s.compexp(env(), sf), K(sz), K(dp), cell['x'], C)
        for p, r in s.E.paths(th):
            yield p, r, cell['x']


# ---- the abstract machine -------------------------------------------------------------------------
class Wrong(Exception):
    """the generated code breaks the stack discipline"""


DEAD = ('dead',)
INVERT = {'PTnoteq': 'PTeq', 'PTge': 'PTlt', 'PTle': 'PTgt'}


class St:
    def __init__(s, stack, accu=DEAD, trace=(), pend=K(0), traps=(), known=None, base=None):
        s.stack, s.accu, s.trace, s.pend, s.traps, s.known = list(stack), accu, trace, pend, traps, dict(known or {})

    def copy(s):
        return St(s.stack, s.accu, s.trace, s.pend, s.traps, s.known)


class Machine:
    def __init__(s, p, arity, tsz, sflabel, intargs=()):
        s.p, s.arity, s.tsz, s.sf = p, arity, tsz, sflabel
        s.outs = []
        s.evals = 0

    def res(s, v):
        return resolve(s.p, v)

    def lab(s, l):
        """labels the path knows to be equal are the same"""
        for k, v in s.p.shape.items():
            if isinstance(k, tuple) and k and k[0] == 'eq' and len(k) == 2 and v is True:
                c, d = vn.lin(k[1])
                if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                    a, b = d
                    if l == a:
                        return min(a, b, key=repr)
                    if l == b:
                        return min(a, b, key=repr)
        return l

    def exec(s, code, st):
        todo = [(0, st, {})]
        labs = {}
        for i, x in enumerate(code):
            x = s.res(x)
            if x[0] == 'con' and x[1] == 'Klabel':
                labs.setdefault(s.lab(x[2]), i)
        n = 0
        while todo:
            n += 1
            if n > 4000:
                raise Stuck('the generated code branches too often')
            i, st, seen = todo.pop()
            if i >= len(code):
                raise Wrong('control runs past the end of the generated code')
            x = s.res(code[i])

            def goto(l, st=st, seen=seen):
                l = s.lab(l)
                if l in labs:
                    todo.append((labs[l], st, seen))
                else:
                    s.end(('goto', l), st)
            if x[0] == 'sv':
                s.end(('reach', x[1]), st)
                continue
            c, a = x[1], x[2]
            if c == 'KTAIL':
                s.end(('reach', 'tail'), st)
            elif c == 'Klabel':
                if i in seen:
                    s.end(('loop', len(st.stack)), st, True)
                    continue
                seen = dict(seen)
                seen[i] = 1
                todo.append((i + 1, st, seen))
            elif c == 'KCODE':
                s.code(a, st, lambda t: todo.append((i + 1, t, seen)), lambda l, t: goto(l, t))
            elif c == 'Kpush':
                s.nopend(st)
                st.stack.append(st.accu)
                todo.append((i + 1, st, seen))
            elif c == 'Kpop':
                s.pop(st, a)
                todo.append((i + 1, st, seen))
            elif c == 'Kaccess':
                st.accu = ('stackat', a, tuple(st.stack)) if a[0] != 'k' else st.stack[s.slot(st, a)]
                todo.append((i + 1, st, seen))
            elif c == 'Kassign':
                k = s.slot(st, a)
                st.stack[k] = st.accu
                st.accu = DEAD
                todo.append((i + 1, st, seen))
            elif c == 'Kenvacc':
                st.accu = ('envslot', a)
                todo.append((i + 1, st, seen))
            elif c == 'Kquote':
                st.accu = ('const', a)
                todo.append((i + 1, st, seen))
            elif c == 'Kcheck_signals':
                todo.append((i + 1, st, seen))
            elif c == 'Kbranch':
                goto(a)
            elif c in ('Kbranchif', 'Kbranchifnot', 'Kstrictbranchif', 'Kstrictbranchifnot'):
                for t, b in s.decide(st, st.accu):
                    if not c.startswith('Kstrict'):
                        t.accu = DEAD
                    if b == (not c.endswith('not')):
                        goto(a, t)
                    else:
                        todo.append((i + 1, t, seen))
            elif c == 'Ktest':
                t, l = a[1]
                if t[1] == 'Pnoteqtag_test':
                    v = ('test', 'Pint_test', 'PTnoteq', ('tagof', st.accu), ('tag', t[2]))
                    keep = st.accu
                elif t[2] is not None and t[2][1] == 'PTnoteqimm':
                    v = ('test', t[1], 'PTnoteq', st.accu, ('imm', t[2][2]))
                    keep = st.accu
                else:
                    v = s.test(t, s.take(st, 1)[0], st.accu)
                    keep = DEAD
                for u, b in s.decide(st, v):
                    u.accu = keep
                    if b:
                        goto(l, u)
                    else:
                        todo.append((i + 1, u, seen))
            elif c == 'Kbranchinterval':
                lo, hi, l1, l2 = a[1]
                r = s.region(st.accu)
                if r is None:
                    raise Wrong('an interval branch on something that is no integer')
                if r[1] < lo[1]:
                    goto(l1)
                elif r[0] > hi[1]:
                    goto(l2)
                elif r[0] >= lo[1] and r[1] <= hi[1]:
                    st.accu = ('int', r[0] - lo[1], r[1] - lo[1])
                    todo.append((i + 1, st, seen))
                else:
                    raise Stuck('region %r not decided' % (r,))
            elif c == 'Kswitch':
                r = s.region(st.accu)
                if r is None or not isinstance(a, Arr):
                    raise Wrong('a table branch on something that is no tag')
                if not 0 <= r[0] <= r[1] < len(a.l):
                    raise Wrong('a table of %d branches indexed with %d' % (len(a.l), r[0]))
                if len({s.lab(l) for l in a.l[r[0]:r[1] + 1]}) != 1:
                    raise Stuck('table branch not decided')
                st.accu = DEAD
                goto(a.l[r[0]])
            elif c == 'Kapply':
                if a[0] != 'k' or a[1] < 1:
                    raise Wrong('application to %s arguments' % (a,))
                n_ = a[1]
                args = s.take(st, n_)
                args.reverse()
                v = ('apply', st.accu, tuple(args))
                st.trace += (v,)
                if n_ > 4:
                    r = s.take(st, 3)
                    if r[0][0] != 'ret' or r[0] != r[1] or r[1] != r[2]:
                        raise Wrong('APPLY %d without a return frame under its arguments' % n_)
                    l = r[0][1]
                else:
                    l = None
                s.raising(st, goto)
                st.accu = v
                if l is None:
                    todo.append((i + 1, st, seen))
                else:
                    goto(l)
            elif c == 'Kappterm':
                n_, z = a[1]
                d = len(st.stack)
                if z != K(d):
                    raise Wrong('APPTERM drops %s slots of a frame of %d' % (z[1] if z[0] == 'k' else z, d))
                args = s.take(st, n_[1])
                args.reverse()
                v = ('apply', st.accu, tuple(args))
                st.trace += (v,)
                st.accu = v
                s.end(('return', st.traps), st, False, True)
            elif c == 'Kreturn':
                s.end(('return', st.traps), st, False, add(a, add(st.pend, K(-len(st.stack)))))
            elif c == 'Kpush_retaddr':
                s.nopend(st)
                st.stack += [('ret', a)] * 3
                todo.append((i + 1, st, seen))
            elif c == 'Kpushtrap':
                s.nopend(st)
                st.traps += ((a, len(st.stack), ),)
                st.stack += [('trap', len(st.stack))] * 4
                todo.append((i + 1, st, seen))
            elif c == 'Kpoptrap':
                if not st.traps:
                    raise Wrong('a handler frame is removed that was not installed')
                l, d = st.traps[-1]
                if len(st.stack) != d + 4:
                    raise Wrong('a handler frame is removed with %d slots on top of it' % (len(st.stack) - d - 4))
                del st.stack[d:]
                st.traps = st.traps[:-1]
                todo.append((i + 1, st, seen))
            elif c == 'Kraise':
                if st.traps:
                    s.raising(st, goto, st.accu)
                else:
                    s.end(('raise',), st, True)
            elif c in ('Kclosure', 'Kclosurerec'):
                l, n_ = a[1]
                if n_[0] != 'k':
                    raise Stuck('closure size')
                n_ = n_[1] - (1 if c == 'Kclosurerec' else 0)
                args = () if n_ == 0 else tuple([st.accu] + list(reversed(s.take(st, n_ - 1))))
                st.accu = (c, l, args)
                todo.append((i + 1, st, seen))
            else:
                p, n_ = s.primof(c, a)
                args = tuple(s.take(st, max(n_ - 1, 0))) + ((st.accu,) if n_ else ())
                st.accu = prim(p, args)
                if p[1] not in PURE:
                    st.trace += (st.accu,)
                    s.raising(st, goto)
                todo.append((i + 1, st, seen))

    def primof(s, c, a):
        if c == 'Kget_global':
            return ('con', 'Pget_global', a), 0
        if c == 'Kset_global':
            return ('con', 'Pset_global', a), 1
        if c == 'Kgetfield':
            return ('con', 'Pfield', a), 1
        if c == 'Ksetfield':
            return ('con', 'Psetfield', a), 2
        if c == 'Kmakeblock':
            n = a[1][1]
            if n[0] != 'k':
                raise Stuck('block size')
            return ('con', 'Pmakeblock', a[1][0]), n[1]
        if c == 'Kprim':
            if a in s.arity:
                return a, s.arity[a]
            if a[0] == 'con' and a[1] in ARITY:
                return a, ARITY[a[1]]
        raise Stuck('effect of %s' % (c if a is None or c != 'Kprim' else 'Kprim ' + str(a[1])))

    def code(s, a, st, go, goto):
        sz, dp, e, sf, va = a
        s.evals += 1
        if sz != K(len(st.stack)) or st.pend != K(0):
            raise Wrong('%s is compiled for a stack of %s slots, but it runs with %d' % (e[1], sz[1] if sz[0] == 'k' else sz, len(st.stack)))
        env = []
        if dp[0] != 'k':
            raise Stuck('environment depth')
        for i in range(dp[1]):
            k = va[i]
            if k[0] != 'k' or not 1 <= k[1] <= len(st.stack):
                raise Wrong('variable %d is not on the stack when %s runs' % (i, e[1]))
            env.append(st.stack[k[1] - 1])
        t = st.copy()
        t.trace += (('eval', e, tuple(env)),)
        u = t.copy()
        t.accu = ('v', e, len(t.trace))
        if t.accu[1] in s.tagged:
            t.known[('tagof', t.accu)] = s.tagged[t.accu[1]]
        go(t)
        l, tz = sf[1]
        if not u.traps and l != K(-1):
            if tz[0] != 'k' or tz[1] > len(u.stack):
                raise Wrong('%s fails to a point with more stack than it has' % e[1])
            f = u.copy()
            f.trace += (('fail',),)
            del f.stack[tz[1]:]
            f.accu = DEAD
            goto(l, f)
        s.raising(u, goto, ('exn', e))

    tagged = {}

    def raising(s, st, goto, v=None):
        """the evaluation just recorded raises: only followed if a handler was installed by this expression"""
        if not st.traps:
            return
        u = st.copy()
        v = v or ('exn', u.trace[-1])
        u.trace += (('raised', v),)
        l, d = u.traps[-1]
        del u.stack[d:]
        u.traps = u.traps[:-1]
        u.accu = v
        goto(l, u)

    def nopend(s, st):
        if st.pend != K(0):
            raise Stuck('push over an unknown pop')

    def take(s, st, n):
        s.nopend(st)
        if n > len(st.stack):
            raise Wrong('%d arguments are taken from a stack of %d slots' % (n, len(st.stack)))
        r = st.stack[len(st.stack) - n:]
        del st.stack[len(st.stack) - n:]
        if any(x[0] == 'trap' for x in r):
            raise Wrong('a handler frame is taken as an argument')
        return r

    def pop(s, st, a):
        t = add(st.pend, a)
        c, d = vn.lin(t)
        if c > len(st.stack):
            raise Wrong('%d slots are popped from a stack of %d' % (c, len(st.stack)))
        if c and any(x[0] == 'trap' for x in st.stack[len(st.stack) - c:]):
            raise Wrong('a handler frame is popped as data')
        if c > 0:
            del st.stack[len(st.stack) - c:]
            t = add(t, K(-c))
        st.pend = t

    def slot(s, st, a):
        s.nopend(st)
        if a[0] != 'k':
            raise Stuck('stack index %s' % (a,))
        if not 0 <= a[1] < len(st.stack):
            raise Wrong('stack slot %d of %d is accessed' % (a[1], len(st.stack)))
        return len(st.stack) - 1 - a[1]

    def test(s, t, a, b):
        if t[1] in ('Peq_test', 'Pnoteq_test'):
            v = ('test', 'eq', 'PTeq', a, b)
            return v if t[1] == 'Peq_test' else neg(v)
        return testval(t[1], t[2][1], a, b)

    def decide(s, st, v):
        """[(state, truth)]"""
        n = False
        while v[0] == 'not':
            v, n = v[1], not n
        if v[0] == 'const' and v[1] in (TRUECONST, FALSECONST):
            return [(st, (v[1] == TRUECONST) != n)]
        if v[0] == 'prim' and v[1][1] == 'Ptest':
            w = s.test(v[1][2], *v[2])
            while w[0] == 'not':
                w, n = w[1], not n
            v = w
        if v[0] == 'test':
            w = testval(v[1], v[2], v[3], v[4]) if v[2] in INVERT else v
            if w[0] == 'not':
                w, n = w[1], not n
            v = w
            if v[2] == 'PTeq':
                ra, rb = s.region(v[3], st), s.region(v[4], st)
                if ra and rb:
                    if ra[0] == ra[1] == rb[0] == rb[1]:
                        return [(st, not n)]
                    if ra[1] < rb[0] or rb[1] < ra[0]:
                        return [(st, n)]
        if v in st.known:
            return [(st, st.known[v] != n)]
        out = []
        for b in (True, False):
            t = st.copy()
            t.known[v] = b
            t.trace += (('decide', v, b),)
            out.append((t, b != n))
        return out

    ints = {}

    def region(s, v, st=None):
        if v[0] == 'int':
            return v[1], v[2]
        if v in s.ints:
            return s.ints[v]
        if v[0] == 'v' and v[1] in s.ints:
            return s.ints[v[1]]
        if v[0] in ('tagof',) and v[1][0] == 'v' and ('tag', v[1][1]) in s.ints:
            return s.ints[('tag', v[1][1])]
        if v[0] == 'prim' and v[1][1] == 'Ptag_of':
            return s.region(('tagof', v[2][0]))
        if v[0] in ('imm', 'tag'):
            x = v[1]
            if v[0] == 'tag':
                x = x[2][1][0]
            return (x[1], x[1]) if x[0] == 'k' else None
        return None

    def end(s, kind, st, raw=False, ret=None):
        acc = st.accu
        # a value whose truth is known
        v, n = acc, False
        while v[0] == 'not':
            v, n = v[1], not n
        if v in st.known and isinstance(st.known[v], bool):
            acc = ('bool', st.known[v] != n)
        elif v[0] == 'const' and v[1] in (TRUECONST, FALSECONST):
            acc = ('bool', (v[1] == TRUECONST) != n)
        if ret is not None:
            if st.traps:
                raise Wrong('a function returns with a handler installed')
            s.outs.append((st.trace, kind, acc, 'frame', ret))
            return
        if raw and kind[0] == 'raise':
            s.outs.append((st.trace, kind, acc, None, None))
            return
        if raw:
            acc = None
        s.outs.append((st.trace, kind, acc, tuple(st.stack), st.pend))


TRUECONST = ('con', 'BLOCKsc', 'true')
FALSECONST = ('con', 'BLOCKsc', 'false')
PURE = {'Pget_global', 'Pidentity', 'Pclosure', 'Pmakeblock', 'Ptest', 'Ptag_of', 'Pfield', 'Pnot'}
ARITY = {'Pidentity': 1, 'Pdummy': 0, 'Pupdate': 2, 'Ptest': 2, 'Ptag_of': 1, 'Praise': 1, 'Pnot': 1, 'Psmlsuccint': 1, 'Psmlpredint': 1}


def prim(p, args):
    """the value of a primitive applied to values"""
    if p[1] == 'Pnot':
        return neg(args[0])
    if p[1] == 'Psmlsuccint':
        return ('prim', ('con', 'Psmladdint', None), (args[0], ONE))
    if p[1] == 'Psmlpredint':
        return ('prim', ('con', 'Psmlsubint', None), (args[0], ONE))
    if p[1] == 'Pidentity':
        return args[0]
    if p[1] == 'Ptest' and p[2] is not None:
        t = p[2]
        if t[1] in ('Peq_test', 'Pnoteq_test'):
            v = ('test', 'eq', 'PTeq') + tuple(args)
            return v if t[1] == 'Peq_test' else neg(v)
        if t[0] == 'con' and t[2] is not None and t[2][0] == 'con' and t[2][2] is None:
            return testval(t[1], t[2][1], *args)
    return ('prim', p, tuple(args))


ONE = ('const', ('con', 'ATOMsc', ('con', 'INTscon', K(1))))


def neg(v):
    return v[1] if v[0] == 'not' else ('not', v)


def testval(ty, c, a, b):
    """comparisons up to complement; the ordering of reals has no complement"""
    if c in INVERT and (ty != 'Pfloat_test' or c == 'PTnoteq'):
        return ('not', ('test', ty, INVERT[c], a, b))
    return ('test', ty, c, a, b)


def resolve(p, v):
    """an unknown value as far as the path has determined it"""
    if isinstance(v, tuple) and v:
        if v[0] == 'sv':
            w = p.shape.get(v)
            if w is not None and w[0] in ('con', 'tup'):
                return resolve(p, w)
            return v
        if v[0] == 'con' and v[1] != 'KCODE':
            return ('con', v[1], None if v[2] is None else resolve(p, v[2]))
        if v[0] == 'tup':
            return ('tup', tuple(resolve(p, x) for x in v[1]))
        if smlev.isint(v):
            lo, hi = p.interval(v)
            if lo == hi:
                return K(lo)
    return v


# ---- what an expression means ------------------------------------------------------------------------
class Ref_:
    """outcomes of an expression: (kind, value, trace, known, base stack)"""

    def __init__(s, m, p, sf, tsz, traps=False):
        s.m, s.p, s.sf, s.tsz = m, p, sf, tsz

    def ev(s, e, env, st, inh):
        """st: machine state whose stack is the base; env: [values]; yields (kind, state)"""
        e = resolve(s.p, e)
        m = s.m
        if e[0] == 'sv':
            t = st.copy()
            t.trace += (('eval', e, tuple(env)),)
            u = t.copy()
            t.accu = ('v', e, len(t.trace))
            yield 'val', t
            if s.sf[1][0] != K(-1) and not inh:
                f = u.copy()
                f.trace += (('fail',),)
                yield 'fail', f
            if inh:
                yield 'raise', s.raised(u, ('exn', e))
            return
        c, a = e[1], e[2]
        if c == 'Lvar':
            t = st.copy()
            n = a[1] if a[0] == 'k' else None
            if n is None:
                raise Stuck('variable %s' % (a,))
            t.accu = env[n] if n >= 0 else s.free[n]
            yield 'val', t
        elif c == 'Lconst':
            t = st.copy()
            t.accu = ('const', a)
            yield 'val', t
        elif c == 'Lunspec':
            yield 'val', st
        elif c == 'Lstaticfail':
            t = st.copy()
            t.accu = DEAD
            yield 'fail0', t
        elif c == 'Lassign':
            n, x = a[1]
            for k, t in s.ev(x, env, st, inh):
                if k == 'val':
                    t = t.copy()
                    t.stack[s.slots[n[1]]] = t.accu
                    t.accu = DEAD
                yield k, t
        elif c == 'Lprim':
            p, xs = a[1]
            xs = tolist(xs)
            p = resolve(s.p, p)
            if p[1] == 'Pclosure':
                for k, t, vs in s.many(xs, env, st, inh, True):
                    if k == 'val':
                        t.accu = ('Kclosure', p[2][1][0], tuple(vs))
                    yield k, t
                return
            for k, t, vs in s.many(xs, env, st, inh, False):
                if k != 'val':
                    yield k, t
                elif p[1] == 'Praise':
                    t = t.copy()
                    t.accu = vs[0]
                    if inh:
                        yield 'raise', s.raised(t, vs[0])
                    else:
                        yield 'raise', t
                else:
                    t.accu = prim(p, tuple(vs))
                    if p[1] not in PURE:
                        t.trace += (t.accu,)
                        if inh:
                            yield 'raise', s.raised(t, ('exn', t.trace[-1]))
                    yield 'val', t
        elif c == 'Lapply':
            f, xs = a[1]
            for k, t, vs in s.many(tolist(xs) , env, st, inh, True):
                if k != 'val':
                    yield k, t
                    continue
                for k2, t2 in s.ev(f, env, t, inh):
                    if k2 == 'val':
                        t2.accu = ('apply', t2.accu, tuple(vs))
                        t2.trace += (t2.accu,)
                        if inh:
                            yield 'raise', s.raised(t2, ('exn', t2.trace[-1]))
                    yield k2, t2
        elif c == 'Llet':
            xs, b = a[1]
            yield from s.lets(tolist(xs), b, list(env), st, inh)
        elif c == 'Lletrec':
            xs, b = a[1]
            xs = tolist(xs)
            if len(xs) == 1:
                (p, fre) = xs[0][2][1]
                fre = tolist(fre)
                lbl, csz = p[2][1]
                rec = fre and resolve(s.p, fre[0]) == ('con', 'Lvar', K(len(env)))
                for k, t, vs in s.many(fre[1:] if rec else fre, env, st, inh, True):
                    if k != 'val':
                        yield k, t
                        continue
                    v = ('Kclosurerec' if rec else 'Kclosure', lbl, tuple(vs))
                    yield from s.ev(b, env + [v], t, inh)
                return
            vals = []
            for x in xs:
                p, fre = x[2][1]
                v = ('prim', ('con', 'Pdummy', p[2][1][1]), ())
                vals.append(v)
            t = st.copy()
            t.trace += tuple(vals)
            e2 = env + vals
            yield from s.updates(list(zip(xs, vals)), b, e2, t, inh)
        elif c == 'Lif':
            q, x, y = a[1]
            yield from s.cond(q, x, y, env, st, inh)
        elif c == 'Lseq':
            x, y = a[1]
            for k, t in s.ev(x, env, st, inh):
                if k != 'val':
                    yield k, t
                else:
                    yield from s.ev(y, env, t, inh)
        elif c == 'Landalso':
            x, y = a[1]
            yield from s.cond(x, y, False, env, st, inh)
        elif c == 'Lorelse':
            x, y = a[1]
            yield from s.cond(x, True, y, env, st, inh)
        elif c == 'Lwhile':
            q, b = a[1]
            for k, t in s.ev(q, env, st, inh):
                if k != 'val':
                    yield k, t
                    continue
                for u, r in m.decide(t, t.accu):
                    if not r:
                        u.accu = ('const', s.unit)
                        yield 'val', u
                        continue
                    for k2, w in s.ev(b, env, u, inh):
                        yield ('loop' if k2 == 'val' else k2), w
        elif c == 'Lstatichandle':
            b, h = a[1]
            h0 = resolve(s.p, h)
            inner = Ref_(m, s.p, ('tup', (K(-2), K(0))), None)
            inner.free, inner.slots, inner.unit = s.free, s.slots, s.unit
            inner.scen = s.scen
            for k, t in inner.ev(b, env, st, inh):
                if k in ('fail', 'fail0'):
                    yield from s.ev(h, env, t, inh)
                else:
                    yield k, t
        elif c == 'Lhandle':
            b, h = a[1]
            for k, t in s.ev(b, env, st, True):
                if k == 'raise':
                    yield from s.ev(h, env + [t.accu], t, inh)
                else:
                    yield k, t
        elif c == 'Lcase':
            x, cls = a[1]
            for k, t in s.ev(x, env, st, inh):
                if k != 'val':
                    yield k, t
                    continue
                yield from s.case(t.accu, tolist(cls), env, t, inh)
        elif c == 'Lswitch':
            size, x, cls = a[1]
            cls = tolist(cls)
            if size == K(1):
                yield from s.ev(cls[0][1][1], env, st, inh)
                return
            for k, t in s.ev(x, env, st, inh):
                if k != 'val':
                    yield k, t
                    continue
                if size == K(2):
                    arms = {cl[1][0][2][1][0][1]: cl[1][1] for cl in cls}
                    for u, r in m.decide(t, t.accu):
                        u.accu = DEAD
                        b = arms.get(1 if r else 0)
                        if b is None:
                            yield 'fail0', u
                        else:
                            yield from s.ev(b, env, u, inh)
                    continue
                r = m.region(('tagof', t.accu))
                if r is None:
                    raise Stuck('tag of the subject')
                hit = [cl for cl in cls if cl[1][0][2][1][0][1] == r[0]]
                t.accu = DEAD
                if hit:
                    yield from s.ev(hit[0][1][1], env, t, inh)
                else:
                    yield 'fail0', t
        elif c == 'Lshared':
            yield from s.ev(a[1][0].v, env, st, inh)
        else:
            raise Stuck('meaning of %s' % c)

    def case(s, v, cls, env, t, inh):
        """first clause whose constant is equal"""
        if not cls:
            t = t.copy()
            t.accu = DEAD
            yield 'fail0', t
            return
        k, act = cls[0][1]
        k = resolve(s.p, k)
        ty = {'INTscon': 'Pint_test', 'WORDscon': 'Pword_test', 'CHARscon': 'Pint_test', 'REALscon': 'Pfloat_test', 'STRINGscon': 'Pstring_test'}[k[1]]
        for u, r in s.m.decide(t, ('test', ty, 'PTeq', v, ('imm', k[2]))):
            if r:
                u.accu = DEAD
                yield from s.ev(act, env, u, inh)
            else:
                yield from s.case(v, cls[1:], env, u, inh)

    def raised(s, st, v):
        u = st.copy()
        u.trace += (('raised', v),)
        u.accu = v
        return u

    def cond(s, q, x, y, env, st, inh):
        for k, t in s.ev(q, env, st, inh):
            if k != 'val':
                yield k, t
                continue
            for u, r in s.m.decide(t, t.accu):
                b = x if r else y
                if b is True or b is False:
                    u.accu = ('const', TRUECONST if b else FALSECONST)
                    yield 'val', u
                else:
                    u.accu = DEAD
                    yield from s.ev(b, env, u, inh)

    def updates(s, todo, b, env, t, inh):
        if not todo:
            yield from s.ev(b, env, t, inh)
            return
        x, d = todo[0]
        for k, u in s.ev(x, env, t, inh):
            if k != 'val':
                yield k, u
                continue
            u = u.copy()
            u.trace += (('prim', ('con', 'Pupdate', None), (u.accu, d)),)
            yield from s.updates(todo[1:], b, env, u, inh)

    def many(s, xs, env, st, inh, rl):
        """evaluate a list; right to left if rl"""
        if not xs:
            yield 'val', st.copy(), []
            return
        i = len(xs) - 1 if rl else 0
        for k, t in s.ev(xs[i], env, st, inh):
            if k != 'val':
                yield k, t, None
                continue
            v = t.accu
            for k2, t2, vs in s.many(xs[:-1] if rl else xs[1:], env, t, inh, rl):
                yield k2, t2, None if vs is None else (vs + [v] if rl else [v] + vs)

    def lets(s, xs, b, env, st, inh):
        if not xs:
            yield from s.ev(b, env, st, inh)
            return
        for k, t in s.ev(xs[0], env, st, inh):
            if k != 'val':
                yield k, t
            else:
                yield from s.lets(xs[1:], b, env + [t.accu], t, inh)


# ---- driver ---------------------------------------------------------------------------------------
def ex(n):
    return ('sv', 'exp:' + n)


def con(c, a=None):
    return ('con', c, a)


def tup(*xs):
    return ('tup', tuple(xs))


SF = sym('SF', 1 << 20, (1 << 20) + 99)
L1, L2 = sym('fn1', 1 << 21, (1 << 21) + 99), sym('fn2', 1 << 22, (1 << 22) + 99)


def canon(v, known):
    if isinstance(v, tuple) and v:
        if v[0] in ('v', 'not', 'test', 'prim', 'apply'):
            w, n = v, False
            while w[0] == 'not':
                w, n = w[1], not n
            if isinstance(known.get(w), bool):
                return ('bool', known[w] != n)
        if v[0] == 'const' and v[1] in (TRUECONST, FALSECONST):
            return ('bool', v[1] == TRUECONST)
    return v


def cases(prims):
    """(name, expression maker, [settings])"""
    a, b, c, d = (ex(x) for x in 'abcd')
    out = []

    def add_(n, f, **k):
        out.append((n, f, k))
    for i in (0, 1, -1, -2):
        add_('Lvar %d' % i, lambda i=i: con('Lvar', K(i)))
    add_('Lconst', lambda: con('Lconst', ('sv', 'cst')))
    add_('Lassign', lambda: con('Lassign', tup(K(1), a)))
    for n in range(1, 7):
        add_('Lapply to %d arguments' % n, lambda n=n: con('Lapply', tup(ex('f'), fromlist([ex('x%d' % i) for i in range(n)]))))
    for n in range(1, 4):
        add_('Llet of %d bindings' % n, lambda n=n: con('Llet', tup(fromlist([ex('x%d' % i) for i in range(n)]), b)))
    pc = lambda l, fre: con('Lprim', tup(con('Pclosure', tup(l, K(len(fre)))), fromlist(fre)))
    V = lambda n: con('Lvar', K(n))
    add_('Lletrec of one closed function', lambda: con('Lletrec', tup(fromlist([pc(L1, [])]), b)))
    add_('Lletrec of one recursive function', lambda: con('Lletrec', tup(fromlist([pc(L1, [V(2), V(0), V(1)])]), b)))
    add_('Lletrec of one recursive function without other variables', lambda: con('Lletrec', tup(fromlist([pc(L1, [V(2)])]), b)))
    add_('Lletrec of one function', lambda: con('Lletrec', tup(fromlist([pc(L1, [V(1), V(0)])]), b)))
    add_('Lletrec of two functions', lambda: con('Lletrec', tup(fromlist([pc(L1, [V(3), V(0)]), pc(L2, [V(2), V(3)])]), b)))
    add_('Lletrec of three functions', lambda: con('Lletrec', tup(fromlist([pc(L1, [V(3), V(0)]), pc(L2, [V(2), V(4)]), pc(SF, [V(3)])]), b)))
    for p, n in prims:
        add_('Lprim %s' % show(p), lambda p=p, n=n: con('Lprim', tup(p, fromlist([ex('x%d' % i) for i in range(n)]))), arity={p: n})
    for k in (-1, 1, 2, ):
        cst = con('Lconst', con('ATOMsc', con('INTscon', K(k))))
        for q in ('Psmladdint', 'Psmlsubint', 'Psmlmulint', 'Paddint'):
            add_('Lprim %s of %d' % (q, k), lambda q=q, cst=cst: con('Lprim', tup(con(q), fromlist([a, cst]))), arity={con(q): 2})
            add_('Lprim %s to %d' % (q, k), lambda q=q, cst=cst: con('Lprim', tup(con(q), fromlist([cst, a]))), arity={con(q): 2})
    for n in (0, 1, 2, 3):
        add_('Lprim Pclosure of %d variables' % n, lambda n=n: pc(L1, [V(i % 2) for i in range(n)]))
    add_('Lstatichandle', lambda: con('Lstatichandle', tup(a, b)))
    add_('Lstaticfail', lambda: con('Lstaticfail'), sfs=(1, 2, 3))
    add_('Lhandle', lambda: con('Lhandle', tup(a, b)))
    F = con('Lstaticfail')
    for n, x, y in (('', a, b), (' failing if true', F, b), (' failing if false', a, F)):
        add_('Lif' + n, lambda x=x, y=y: con('Lif', tup(c, x, y)), sfs=(1, 2, 3))
    add_('Lseq', lambda: con('Lseq', tup(a, b)))
    add_('Lwhile', lambda: con('Lwhile', tup(a, b)))
    add_('Landalso', lambda: con('Landalso', tup(a, b)))
    add_('Lorelse', lambda: con('Lorelse', tup(a, b)))
    add_('Lunspec', lambda: con('Lunspec'))
    add_('Lshared', lambda: con('Lshared', tup(Ref(a), Ref(K(-1)))))
    for ty, ks in (('INTscon', [0, 1, 2, 3]), ('INTscon', [-7, 0, 1, 2, 300, 301, 5000]), ('INTscon', [4]), ('WORDscon', [0, 1, 9]), ('CHARscon', [65, 66, 90])):
        for x in regions(ks):
            add_('Lcase %s %s at %s' % (ty, ks, x), lambda ty=ty, ks=ks: con('Lcase', tup(a, fromlist([tup(con(ty, K(k)), ex('k%d' % k)) for k in ks]))), ints={a: x}, sfs=(3,))
    for ty in ('STRINGscon', 'REALscon'):
        add_('Lcase ' + ty, lambda ty=ty: con('Lcase', tup(a, fromlist([tup(con(ty, ('sv', 'c%d' % k)), ex('k%d' % k)) for k in range(3)]))), sfs=(3,))
    tag = lambda t, n: con('CONtag', tup(K(t), K(n)))
    for n, ts in ((1, [0]), (2, [0]), (2, [1]), (2, [0, 1]), (2, [1, 0])):
        add_('Lswitch over %s of %d' % (ts, n), lambda n=n, ts=ts: con('Lswitch', tup(K(n), a, fromlist([tup(tag(t, n), ex('k%d' % t)) for t in ts]))), sfs=(3,))
    for n, ts in ((3, [0, 1, 2]), (3, [2, 0]), (4, [3]), (12, [1, 4, 5]), (9, [8, 0, 3, 2, 1, 7, 6, 5, 4]), (200, [0, 100, 101, 199])):
        for x in sorted(set(ts) | {0, n - 1} | set(t + 1 for t in ts) | set(t - 1 for t in ts)):
            if 0 <= x < n:
                add_('Lswitch over %s of %d at %d' % (ts, n, x), lambda n=n, ts=ts: con('Lswitch', tup(K(n), a, fromlist([tup(tag(t, n), ex('k%d' % t)) for t in ts]))), ints={('tag', a): (x, x)}, sfs=(3,))
    return out


def show(p):
    return p[1] if p[0] == 'con' else str(p)


def regions(ks):
    """all integers, split at the constants"""
    out, last = [], -BIG
    for k in sorted(ks):
        if last <= k - 1:
            out.append((last, k - 1))
        out.append((k, k))
        last = k + 1
    return out + [(last, BIG)]


def codegen(rep, stats, only=None):
    G = Gen()
    prims = primitives(G)
    stats['primitives'] = len(prims)
    free = {-1: ('envslot', K(1)), -2: ('envslot', K(0))}
    for name, mk, opt in cases(prims):
        if only and not name.startswith(only):
            continue
        stats['forms'] += 1
        for tsz in opt.get('sfs', (None, 3)):
            sz, dp = 3, 2
            sf = tup(K(-1), K(0)) if tsz is None else tup(SF, K(tsz))

            def env():
                return tup(fromlist([K(-2), K(-1)]), Arr([K(1), K(3)] + [K(-1)] * 62))
            C = fromlist([('sv', 'c0'), ('sv', 'c1'), con('Klabel', K(99)), con('KTAIL')])
            for p, r, x in G.run(mk, C, sz, dp, env, sf):
                if any(isinstance(k, tuple) and k and k[0] == 'eq' and len(k) == 3 and v is True for k, v in p.shape.items()):
                    continue        # an opaque expression equal to another one: covered by the explicit forms
                stats['generated'] += 1
                if r[0] == 'raise':
                    rep(FILE, 0, 'compileExp', 'code generation', '%s: code generation raises %s' % (name, r[1][1]))
                    continue
                code = tolist(resolve_list(p, r[1]))
                if code is None:
                    raise Stuck('the code of %s is not a list' % name)
                compare(rep, stats, name, p, code, tolist(C), x, opt, sf, tsz, free, G)


def resolve_list(p, l):
    return l


def compare(rep, stats, name, p, code, C, x, opt, sf, tsz, free, G):
    base = [('slot', i) for i in range(3)]
    m = Machine(p, opt.get('arity', {}), tsz, SF)
    m.ints = dict(opt.get('ints', {}))
    st = St(base)
    try:
        m.exec(code, st)
    except Wrong as e:
        rep(FILE, 0, 'compileExp', 'code generation', '%s: %s' % (name, e))
        return
    have = m.outs
    stats['subexpressions'] += m.evals
    m.outs = []
    R = Ref_(m, p, sf, tsz)
    R.free, R.slots, R.unit, R.scen = free, {0: 0, 1: 2}, con('ATOMsc', None), None
    R.unit = UNITC
    want = []
    env = [('slot', 0), ('slot', 2)]
    for k, t in R.ev(x, env, St(base), False):
        if k == 'val':
            m.outs = []
            try:
                m.exec(C, t.copy())
            except Wrong as e:
                continue        # the continuation itself does not fit: no such program
            want += m.outs
        elif k in ('fail', 'fail0'):
            t = t.copy()
            if tsz is None:
                continue
            del t.stack[tsz:]
            want.append((t.trace, ('goto', SF), None, tuple(t.stack), K(0)))
        elif k == 'raise':
            want.append((t.trace, ('raise',), canon(t.accu, t.known), None, None))
        elif k == 'loop':
            want.append((t.trace, ('loop', len(t.stack)), None, tuple(t.stack), K(0)))
    stats['outcomes'] += len(have)

    def norm(o):
        tr, kind, acc, stk, ret = o
        if kind == ('goto', SF):
            acc = None
        if kind[0] == 'loop':
            kind = ('loop',)
        return (tr, kind, acc, stk, ret)
    H = [norm(o) for o in have]
    W = [norm(o) for o in want]
    for w in W:
        hit = [h for h in H if h[:2] == w[:2]]
        if not hit:
            hit = [h for h in H if h[0] == w[0]]
        if not hit:
            rep(FILE, 0, 'compileExp', 'code generation', '%s: the generated code never %s (it %s)' % (name, describe(w), '; '.join(describe(h) for h in H[:3])))
            return
        h = hit[0]
        if not same(h, w):
            rep(FILE, 0, 'compileExp', 'code generation', '%s: the generated code %s where it should %s' % (name, describe(h), describe(w)))
            return
    for h in H:
        if not any(h[0] == w[0] for w in W):
            rep(FILE, 0, 'compileExp', 'code generation', '%s: the generated code also %s' % (name, describe(h)))
            return


def same(h, w):
    if h[0] != w[0] or h[1][0] != w[1][0]:
        return False
    if h[3] == 'frame' or w[3] == 'frame':
        return h[3] == w[3] and h[2] == w[2] and h[1] == w[1] and (h[4] is True or h[4] == w[4])
    if h[1] != w[1]:
        return False
    return (w[2] in (None, DEAD) or h[2] == w[2]) and h[3] == w[3] and h[4] == w[4]


def describe(o):
    tr, kind, acc, stk, ret = o
    s = {'reach': 'continues', 'goto': 'jumps', 'return': 'returns', 'raise': 'raises', 'loop': 'loops'}[kind[0]]
    v = '' if acc in (None, DEAD) else ' with %s' % val(acc)
    d = '' if not isinstance(stk, tuple) else ', stack %d%s [%s]' % (len(stk), '' if ret == K(0) else ' less ' + vnshow(ret), ' '.join(val(x) for x in stk))
    if stk == 'frame':
        d = ', dropping its frame' + ('' if ret is True else ' up to %s' % vnshow(ret))
    return (s + v + d + ' after ' + ', '.join(event(t) for t in tr))[:300]


def vnshow(t):
    from .bcheck import show as sh
    return sh(t)


def event(t):
    if t[0] == 'eval':
        return t[1][1][4:]
    if t[0] == 'decide':
        return '%s is %s' % (val(t[1]), 'true' if t[2] else 'false')
    if t[0] == 'raised':
        return 'exception'
    return val(t)


def val(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == 'v':
        return v[1][1][4:]
    if v[0] == 'slot':
        return 's%d' % v[1]
    if v[0] in ('prim',):
        return '%s(%s)' % (show(v[1]), ','.join(val(x) for x in v[2]))
    if v[0] == 'apply':
        return '%s(%s)' % (val(v[1]), ','.join(val(x) for x in v[2]))
    if v[0] == 'test':
        return '%s(%s,%s)' % (v[2], val(v[3]), val(v[4]))
    if v[0] in ('k', 'sym', '+', 'f'):
        return vnshow(v)
    if v[0] == 'not':
        return 'not ' + val(v[1])
    return str(v[0])


def primitives(G):
    """every constructor of the primitive type with the number of arguments it takes (2 where that does not matter)"""
    out = []
    tys = {}
    for d in G.E.parse('Prim'):
        def g(q):
            if q.k in ('datatype', 'abstype'):
                for tv, tn, cs in q.a[0]:
                    tys[tn] = cs
        sml.walk(d, g)
    if 'primitive' not in tys:
        raise AnalysisError('datatype primitive not found')
    fixed = {'Pget_global': 0, 'Pset_global': 1, 'Pdummy': 0, 'Pupdate': 2, 'Pidentity': 1, 'Ptag_of': 1, 'Pfield': 1, 'Psetfield': 2, 'Praise': 1, 'Pnot': 1, 'Patom': 0, 'Psmlsuccint': 1, 'Psmlpredint': 1}
    uid = tup(('sv', 'uid'), sym('stamp', 0, BIG))
    for c, ty in tys['primitive']:
        if c == 'Pclosure':
            continue
        if c == 'Ptest':
            for t, tt in tys['bool_test']:
                if t in ('Peq_test', 'Pnoteq_test'):
                    out.append((con('Ptest', con(t)), 2))
                elif t != 'Pnoteqtag_test':
                    for q, qt in tys['prim_test']:
                        if qt is None:
                            out.append((con('Ptest', con(t, con(q))), 2))
            continue
        if c == 'Pccall':
            out += [(con(c, tup(('sv', 'name'), K(k))), k) for k in (1, 2, 3, 5, 6)]
            continue
        if c == 'Pmakeblock':
            out += [(con(c, ('sv', 'tag')), k) for k in (1, 2, 3)]
            continue
        if ty is None:
            out.append((con(c), fixed.get(c, 2)))
        elif c in ('Pget_global', 'Pset_global'):
            out.append((con(c, uid), fixed[c]))
        elif c == 'Pfloatprim':
            out += [(con(c, con(q)), 1 if q in ('Pfloatofint', 'Psmlnegfloat') else 2) for q, _ in tys['float_primitive']]
        else:
            out.append((con(c, sym('n', 0, 200)), fixed.get(c, 2)))
    return out


UNITC = ('con', 'BLOCKsc', ('tup', (('con', 'CONtag', ('tup', (K(0), K(1)))), NIL)))


# ---- function bodies and variable numbering ---------------------------------------------------------
def bodies(rep, stats):
    """compileRest: entry sequence, argument slots and return of a function body"""
    G = Gen()
    f = G.m.v.get('compileRest')
    if f is None:
        raise AnalysisError('Back.compileRest not found')
    lbl = L1
    for n in (1, 2, 3, 5):
        cell = {}

        def pop(e, x):
            if cell.get('done'):
                raise smlev.Raise(con('Empty'))
            cell['done'] = True
            return tup(lbl, K(n), fromlist([K(-1)]), K(40), ex('body'))
        G.E.builtin['Stack.pop'] = Prim(pop, 1)

        def th():
            cell.clear()
            G.cl = None
            try:
                ce = G.compexp(tup(NIL, Arr([K(-1)] * 8)), tup(K(-1), K(0)))
            finally:
                pass
            return G.E.call(G.E.force(f), fromlist([con('KTAIL')]))
        for p, r in G.E.paths(th):
            stats['bodies'] += 1
            name = 'function of %d argument%s' % (n, 's' * (n > 1))
            if r[0] == 'raise':
                rep(FILE, 0, 'compileRest', 'code generation', '%s: raises %s' % (name, r[1][1]))
                continue
            code = tolist(r[1])
            k = next((i for i, x in enumerate(code) if x[0] == 'con' and x[1] == 'Klabel' and x[2] == lbl), None)
            if k is None:
                rep(FILE, 0, 'compileRest', 'code generation', '%s: its label is not defined' % name)
                continue
            rest = code[k + 1:]
            if n > 1:
                if k == 0 or code[k - 1][1] != 'Krestart':
                    rep(FILE, 0, 'compileRest', 'code generation', '%s: no RESTART where a partial application resumes' % name)
                if rest[0] != con('Kgrab', K(n - 1)):
                    rep(FILE, 0, 'compileRest', 'code generation', '%s: does not GRAB %d further arguments' % (name, n - 1))
                    continue
                rest = rest[1:]
            m = Machine(p, {}, None, SF)
            try:
                m.exec(rest, St([('arg', n - 1 - i) for i in range(n)]))
            except Wrong as e:
                rep(FILE, 0, 'compileRest', 'code generation', '%s: %s' % (name, e))
                continue
            for tr, kind, acc, stk, ret in m.outs:
                if kind[0] == 'return':
                    if ret != K(0):
                        rep(FILE, 0, 'compileRest', 'code generation', '%s: returns dropping %s slots too many' % (name, vnshow(ret)))
                    if tr[0][2] != tuple(('arg', i) for i in range(n)) or acc[0] != 'v':
                        rep(FILE, 0, 'compileRest', 'code generation', '%s: its variables are %s' % (name, ' '.join(str(x) for x in tr[0][2])))
                else:
                    rep(FILE, 0, 'compileRest', 'code generation', '%s: the body does not return' % name)


def forms(vars_):
    """expression forms with opaque subexpressions: (expression maker, {sub: bindings around it})"""
    a, b, c = ex('a'), ex('b'), ex('c')
    pr = con('Pccall', tup(('sv', 'name'), K(2)))
    tag = con('CONtag', tup(K(0), K(3)))
    out = [
        ('Lconst', lambda: con('Lconst', ('sv', 'cst')), {}),
        ('Lapply', lambda: con('Lapply', tup(a, fromlist([b, c]))), {'a': 0, 'b': 0, 'c': 0}),
        ('Llet', lambda: con('Llet', tup(fromlist([a, b]), c)), {'a': 0, 'b': 1, 'c': 2}),
        ('Lletrec', lambda: con('Lletrec', tup(fromlist([a, b]), c)), {'a': 2, 'b': 2, 'c': 2}),
        ('Lprim', lambda: con('Lprim', tup(pr, fromlist([a, b, c]))), {'a': 0, 'b': 0, 'c': 0}),
        ('Lstatichandle', lambda: con('Lstatichandle', tup(a, b)), {'a': 0, 'b': 0}),
        ('Lstaticfail', lambda: con('Lstaticfail'), {}),
        ('Lhandle', lambda: con('Lhandle', tup(a, b)), {'a': 0, 'b': 1}),
        ('Lif', lambda: con('Lif', tup(a, b, c)), {'a': 0, 'b': 0, 'c': 0}),
        ('Lseq', lambda: con('Lseq', tup(a, b)), {'a': 0, 'b': 0}),
        ('Lwhile', lambda: con('Lwhile', tup(a, b)), {'a': 0, 'b': 0}),
        ('Landalso', lambda: con('Landalso', tup(a, b)), {'a': 0, 'b': 0}),
        ('Lorelse', lambda: con('Lorelse', tup(a, b)), {'a': 0, 'b': 0}),
        ('Lcase', lambda: con('Lcase', tup(a, fromlist([tup(con('INTscon', K(1)), b), tup(con('INTscon', K(2)), c)]))), {'a': 0, 'b': 0, 'c': 0}),
        ('Lswitch', lambda: con('Lswitch', tup(K(3), a, fromlist([tup(tag, b), tup(tag, c)]))), {'a': 0, 'b': 0, 'c': 0}),
        ('Lunspec', lambda: con('Lunspec'), {}),
    ]
    for n in vars_:
        out.append(('Lvar %d' % n, lambda n=n: con('Lvar', K(n)), {}))
        out.append(('Lassign %d' % n, lambda n=n: con('Lassign', tup(K(n), a)), {'a': 0}))
    return out


def variables(rep, stats):
    """UNdeBruijn: every subexpression is renumbered under the bindings around it; a reference becomes a variable only if every use is one"""
    G = Gen()
    f = G.m.v.get('UNdeBruijn')
    if f is None:
        raise AnalysisError('Back.UNdeBruijn not found')
    st = {'lift': None, 'unref': None, 'ev': [], 'mode': 'find'}

    def hook(fn, got):
        if len(got) != 2 or not isinstance(got[1], tuple) or not smlev.isint(got[0]):
            return None
        e = got[1]
        if e[0] != 'sv' or not e[1].startswith(('exp:', 'unref:')) or G.E.p.shape.get(e, ('not',))[0] == 'con':
            return None
        node = fn.cl[0][1]
        if st['mode'] == 'find':
            st['seen'].append((node, fn))
            return e
        if node is st['lift']:
            st['ev'].append(('lift', got[0], e))
            return e
        st['unref'] = Clo(fn.cl, fn.env, fn.n, (), fn.name)
        st['ev'].append(('unref', got[0], e))
        return ('sv', 'unref:' + e[1].split(':')[1] + '@' + vnshow(got[0])) if st.get('mark') else e
    G.E.hook = hook
    # the renumbering function is the one called on subexpressions
    for p, r in G.E.paths(lambda: (st.__setitem__('seen', []), G.E.call(G.E.force(f), con('Lseq', tup(ex('a'), ex('b')))))[1]):
        if st['seen']:
            st['lift'] = st['seen'][0][0]
            break
    if st['lift'] is None:
        raise Stuck('the renumbering function of UNdeBruijn')
    st['mode'] = 'run'
    G.E.opaque = ('exp:', 'unref:')

    def opaque(p):
        return not any(isinstance(k, tuple) and k and k[0] == 'sv' and k[1].startswith('exp:') and v[0] == 'con' for k, v in p.shape.items())

    def tops(n, x):
        """x under n enclosing let bindings, so that it is renumbered at depth n"""
        return con('Llet', tup(fromlist([con('Lconst', ('sv', 'k%d' % i)) for i in range(n)]), x)) if n else x

    def inner(n, v):
        return v if not n else v[2][1][1]
    D = 4
    for name, mk, subs in forms([0, 3]):
        def th(mk=mk):
            st['ev'] = []
            return G.E.call(G.E.force(f), tops(D, mk()))
        seen = 0
        for p, r in G.E.paths(th):
            if not opaque(p):
                continue
            seen += 1
            stats['renumbered'] += 1
            if r[0] == 'raise':
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: raises %s' % (name, r[1][1]))
                continue
            have = sorted((e[2][1][4:], e[1]) for e in st['ev'] if e[0] == 'lift')
            want = sorted((s_, K(D + n)) for s_, n in subs.items())
            if have != want:
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: its subexpressions are renumbered at depths %s, they are at %s' % (name, ' '.join('%s:%s' % (s_, vnshow(d)) for s_, d in have), ' '.join('%s:%s' % (s_, vnshow(d)) for s_, d in want)))
                continue
            x = mk()
            if x[1] == 'Lvar':
                x = con('Lvar', K(D - 1 - x[2][1]))
            if x[1] == 'Lassign':
                x = con('Lassign', tup(K(D - 1 - x[2][1][0][1]), x[2][1][1]))
            got = inner(D, r[1][1][1])
            if got != x:
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: becomes %s' % (name, showl(got)))
        if not seen:
            raise Stuck('no path renumbers ' + name)
    # a let-bound reference
    ref = con('Lprim', tup(con('Pmakeblock', con('CONtag', tup(K(250), K(1)))), fromlist([ex('a')])))
    n = 0
    for p, r in G.E.paths(lambda: (st.__setitem__('ev', []), G.E.call(G.E.force(f), con('Llet', tup(fromlist([ref, ex('b')]), ex('c')))))[1]):
        if not opaque(p) or r[0] == 'raise':
            continue
        un = sorted((e[2][1][4:], e[1]) for e in st['ev'] if e[0] == 'unref')
        if not un:
            continue
        n += 1
        stats['references'] += 1
        if ('c', K(0)) not in un or ('b', K(0)) not in un:
            rep(FILE, 0, 'UNdeBruijn', 'variables', 'a let-bound reference becomes a variable, but its uses are rewritten only in %s' % ' '.join('%s:%s' % (a, vnshow(i)) for a, i in un))
    if not n or st['unref'] is None:
        stats['references'] = 0
        return
    # a shared expression is rewritten exactly if the reference becomes a variable everywhere
    st['mark'] = True
    V0 = con('Lvar', K(0))

    def shared(x):
        r = Ref(x)
        cells.append(r)
        return con('Lshared', tup(r, Ref(K(-1))))
    cells = []
    plain = con('Lprim', tup(con('Pmakeblock', ('sv', 'tag')), fromlist([ex('e')])))
    for name, mk in (
            ('a body that shares an expression', lambda: ([ref], con('Lseq', tup(shared(ex('c')), ex('d'))))),
            ('a body that shares an expression and also uses the reference as a value', lambda: ([ref], con('Lseq', tup(shared(ex('c')), V0)))),
            ('a body that shares nested expressions and also uses the reference as a value', lambda: ([ref], con('Lseq', tup(shared(shared(ex('c'))), V0)))),
            ('a body that shares nested expressions', lambda: ([ref], con('Lseq', tup(shared(shared(ex('c'))), ex('d'))))),
            ('a second binding that shares an expression and a body that uses the reference as a value', lambda: ([ref, shared(ex('c'))], con('Lvar', K(1)))),
            ('a second binding that uses the reference as a value', lambda: ([ref, con('Lseq', tup(shared(ex('c')), V0))], ex('d'))),
            ('a second binding that shares an expression', lambda: ([ref, con('Lseq', tup(shared(ex('c')), ex('b')))], ex('d'))),
            ('two references of which one is used as a value', lambda: ([ref, ref], con('Lseq', tup(shared(ex('c')), V0)))),
            ('two references', lambda: ([ref, ref], con('Lseq', tup(shared(ex('c')), ex('d')))))):
        def th(mk=mk):
            del cells[:]
            st['ev'] = []
            args, body = mk()
            return G.E.call(G.E.force(f), con('Llet', tup(fromlist(args), body)))
        for p, r in G.E.paths(th):
            if not opaque(p):
                continue
            stats['shared'] += 1
            if r[0] == 'raise':
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: raises %s' % (name, r[1][1]))
                continue
            out = r[1][1][1]
            args = tolist(out[2][1][0]) if out[1] == 'Llet' else None
            if args is None:
                raise Stuck('the bindings produced for ' + name)
            isref = lambda x: x[0] == 'con' and x[1] == 'Lprim' and x[2][1][0][1] == 'Pmakeblock'
            kept = [isref(x) for x in args[:len(args) if name.startswith('two') else 1]]
            free = 'as a value' not in name
            want_kept = [k and not free for k in [True] * len(kept)]
            if name.startswith('two') and not free:
                want_kept = [False, True]
            if any(k and not w for k, w in zip(kept, want_kept)) and not free:
                pass
            if any(w and not k for k, w in zip(kept, want_kept)):
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: a reference used as a value becomes a variable' % name)
                continue
            v = cells[0].v if 'nested' not in name else [c for c in cells if c.v[0] != 'con'][:1]
            if isinstance(v, list):
                v = v[0].v if v else ('sv', '?')
            some = not all(kept)
            want = 'exp:c' if not some else 'unref:c' + ''.join('@%d' % i for i in range(len(kept) - 1, -1, -1) if not kept[i])
            if v[0] != 'sv' or v[1].split('@')[0] not in ('unref:c', 'exp:c'):
                raise Stuck('the shared expression in ' + name)
            if sorted(v[1].split('@')) != sorted(want.split('@')):
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: the reference %s, but the shared expression is %s' % (name, 'becomes a variable' if some else 'stays a reference', 'rewritten for a variable' if not some else 'not rewritten'))
    st['mark'] = False
    un = st['unref']
    I = K(2)
    special = [
        ('dereference', lambda: con('Lprim', tup(con('Pfield', K(0)), fromlist([con('Lvar', I)]))), {}, con('Lvar', I)),
        ('assignment', lambda: con('Lprim', tup(con('Psetfield', K(0)), fromlist([con('Lvar', I), ex('a')]))), {'a': 0}, con('Lassign', tup(I, ex('a')))),
        ('other dereference', lambda: con('Lprim', tup(con('Pfield', K(0)), fromlist([con('Lvar', K(1))]))), {}, con('Lprim', tup(con('Pfield', K(0)), fromlist([con('Lvar', K(1))])))),
        ('captured variable', lambda: con('Lprim', tup(con('Pclosure', tup(L1, K(2))), fromlist([con('Lvar', K(1)), con('Lvar', I)]))), {}, None),
        ('variable in a block', lambda: con('Lprim', tup(con('Pmakeblock', ('sv', 'tag')), fromlist([ex('a'), con('Lvar', I)]))), {'a': 0}, None),
        ('variable', lambda: con('Lvar', I), {}, None),
        ('argument', lambda: con('Lapply', tup(ex('a'), fromlist([con('Lvar', I)]))), {'a': 0}, None),
        ('other field', lambda: con('Lprim', tup(con('Pfield', K(1)), fromlist([con('Lvar', I)]))), {}, None),
    ]
    for name, mk, subs in forms([0, 1]):
        if name != 'Lassign 2':
            special.append((name, mk, subs, 'same'))
    for name, mk, subs, want in special:
        seen = 0
        for p, r in G.E.paths(lambda: (st.__setitem__('ev', []), G.E.call(un, I, mk()))[1]):
            if not opaque(p):
                continue
            seen += 1
            stats['unref'] += 1
            if r[0] == 'raise':
                if want is not None:
                    rep(FILE, 0, 'UNdeBruijn', 'variables', 'rewriting a reference in %s raises %s' % (name, r[1][1]))
                continue
            if want is None:
                rep(FILE, 0, 'UNdeBruijn', 'variables', 'a reference becomes a variable although it is used as a value (%s)' % name)
                continue
            have = sorted(e[2][1][4:] for e in st['ev'] if e[0] == 'unref' and e[1] == I)
            if have != sorted(subs):
                rep(FILE, 0, 'UNdeBruijn', 'variables', 'uses of a reference turned into a variable are rewritten in %s of %s, which has %s' % (' '.join(have) or 'nothing', name, ' '.join(sorted(subs))))
                continue
            x = mk() if want == 'same' else want
            if r[1] != x:
                rep(FILE, 0, 'UNdeBruijn', 'variables', 'rewriting a reference turns %s into %s' % (name, showl(r[1])))
        if not seen:
            raise Stuck('no path rewrites ' + name)


# ---- closures ---------------------------------------------------------------------------------------
def terms():
    """nested functions, bindings between them, all variables in scope used in several orders"""
    V = lambda n: con('Lvar', K(n))
    k = lambda i: con('Lconst', ('sv', 'k%d' % i))
    blk = lambda *xs: con('Lprim', tup(con('Pmakeblock', con('CONtag', tup(K(7), K(1)))), fromlist(xs)))

    def fn(n, b):
        for _ in range(n):
            b = con('Lfn', b)
        return b

    def let(n, b):
        return con('Llet', tup(fromlist([k(i) for i in range(n)]), b)) if n else b
    orders = [lambda n: list(range(n)), lambda n: list(range(n))[::-1], lambda n: [n - 1, 0, n - 1] if n else [], lambda n: [n // 2] if n else []]
    for D in (0, 1, 3):
        for m in (1, 2, 3):
            for oi, o in enumerate(orders):
                yield 'a function of %d arguments under %d bindings (%d)' % (m, D, oi), let(D, blk(fn(m, blk(*[V(i) for i in o(D + m)]))))
    for D in (1, 2):
        for m1 in (1, 2):
            for b in (0, 2):
                for m2 in (1, 2):
                    for oi, o in enumerate(orders):
                        n = D + m1 + b + m2
                        yield ('a function of %d arguments in a function of %d arguments with %d bindings between, under %d bindings (%d)' % (m2, m1, b, D, oi),
                               let(D, blk(fn(m1, let(b, blk(fn(m2, blk(*[V(i) for i in o(n)])), V(0), V(D)))), V(0))))
    inner = lambda n: blk(*[V(i) for i in range(n)])
    yield 'a recursive function', let(2, con('Lletrec', tup(fromlist([fn(1, inner(4))]), blk(V(0), V(2)))))
    yield 'two recursive functions', let(1, con('Lletrec', tup(fromlist([fn(2, inner(5)), fn(1, blk(V(1), V(2), V(3)))]), blk(V(0), V(1), V(2)))))
    yield 'two recursive functions of which one is closed', let(1, con('Lletrec', tup(fromlist([fn(1, V(0)), fn(1, blk(V(1), V(2)))]), blk(V(0), V(1), V(2)))))
    yield 'functions in a handler', let(1, con('Lhandle', tup(fn(1, inner(2)), fn(1, inner(3)))))
    yield 'a function in an argument', let(1, con('Lapply', tup(fn(1, inner(2)), fromlist([fn(2, inner(3)), V(0)]))))
    yield 'a handler and bindings in a function', let(1, fn(1, con('Lhandle', tup(inner(2), let(2, blk(inner(5), fn(1, inner(6))))))))
    yield 'bindings that use each other', let(1, fn(1, con('Llet', tup(fromlist([inner(2), inner(3), fn(1, inner(5))]), inner(5)))))
    yield 'three nested functions', let(1, fn(1, blk(fn(1, blk(fn(1, blk(V(3), V(2))), V(0))), V(0))))
    yield 'an innermost function that uses only outer variables', let(2, fn(1, blk(fn(1, blk(fn(1, blk(V(4), V(3)))))))) 
    yield 'deep bindings in a function', fn(1, let(1, let(2, let(3, con('Lhandle', tup(k(9), inner(8)))))))


def closures(rep, stats):
    """UNdeBruijn on nested functions: every variable of every lifted body is the one its de Bruijn index names, through the closures built for it"""
    G = Gen()
    G.E.hook = None
    f = G.m.v.get('UNdeBruijn')
    if f is None:
        raise AnalysisError('Back.UNdeBruijn not found')
    pushed = []
    G.E.builtin['Stack.push'] = Prim(lambda e, x, stk: (pushed.append(x), smlev.UNIT)[1], 2)
    for name, t in terms():
        for p, r in G.E.paths(lambda: (pushed.clear(), G.E.call(G.E.force(f), t))[1]):
            stats['closures'] += 1

            def bad(m):
                rep(FILE, 0, 'UNdeBruijn', 'variables', '%s: %s' % (name, m))
            if r[0] == 'raise':
                bad('raises %s' % r[1][1])
                continue
            recs = {x[1][0]: x[1] for x in pushed}
            try:
                if len(recs) != len(pushed):
                    raise Wrong('two functions have one label')
                follow(t, r[1][1][1], [], {}, {}, recs, [0], stats)
            except Wrong as e:
                bad(e)


def follow(t, o, env, loc, outer, recs, top, stats):
    """env: binders of t's indices, innermost first; loc: binder -> id in this function; outer: id < 0 -> binder"""
    def name(v):
        if not (v[0] == 'con' and v[1] == 'Lvar' and v[2][0] == 'k'):
            raise Wrong('an unexpected %s where a variable is' % showl(v))
        i = v[2][1]
        r = loc.get(i) if i >= 0 else outer.get(i)
        if r is None:
            raise Wrong('variable %d is not bound' % i)
        return r

    def bind(n, env, loc):
        """n new binders: ids are the number of binders of this function"""
        loc = dict(loc)
        new = []
        for _ in range(n):
            b = ('b', len(stats_ids))
            stats_ids.append(1)
            loc[len(loc)] = b
            new.append(b)
            top[0] = max(top[0], len(loc))
        return list(reversed(new)) + env, loc
    stats_ids = follow.ids
    rec = lambda t, o, env=env, loc=loc: follow(t, o, env, loc, outer, recs, top, stats)
    if t[1] == 'Lfn':
        n, b = 0, t
        while b[1] == 'Lfn':
            n, b = n + 1, b[2]
        if not (o[0] == 'con' and o[1] == 'Lprim' and o[2][1][0][1] == 'Pclosure'):
            raise Wrong('a function does not become a closure')
        lbl, q = o[2][1][0][2][1]
        fre = tolist(o[2][1][1])
        if lbl not in recs:
            raise Wrong('a closure has a label without code')
        _, na, fv, md, body = recs[lbl]
        fv = tolist(fv)
        if na != K(n):
            raise Wrong('a function of %d arguments is compiled with %s' % (n, vnshow(na)))
        if q != K(len(fre)) or len(fre) != len(fv):
            raise Wrong('a closure is built with %d variables, its code has %d' % (len(fre), len(fv)))
        out2 = {}
        for x, i in zip(fre, fv):
            if i[1] in out2:
                raise Wrong('one variable is captured twice')
            out2[i[1]] = name(x)
        stats['captured'] += len(fre)
        env2, loc2 = [], {}
        for _ in range(n):
            b_ = ('b', len(stats_ids))
            stats_ids.append(1)
            loc2[len(loc2)] = b_
            env2.insert(0, b_)
        top2 = [n]
        follow(b, body, env2 + env, loc2, out2, recs, top2, stats)
        if md[0] != 'k' or md[1] < top2[0]:
            raise Wrong('the table of its variables has %s entries, it has %d variables' % (vnshow(md), top2[0]))
        return
    if o[1] != t[1]:
        raise Wrong('%s becomes %s' % (t[1], showl(o)))
    k = t[1]
    if k == 'Lvar':
        stats['occurrences'] += 1
        if name(o) != env[t[2][1]]:
            raise Wrong('index %d becomes variable %s, which is another one' % (t[2][1], vnshow(o[2])))
        return
    if k == 'Lconst':
        return
    a, b = t[2][1], o[2][1]
    if k in ('Llet', 'Lletrec'):
        x, y = tolist(a[0]), tolist(b[0])
        if len(x) != len(y):
            raise Wrong('bindings are lost')
        if k == 'Lletrec':
            env, loc = bind(len(x), env, loc)
            for u, v in zip(x, y):
                rec(u, v, env, loc)
        else:
            for u, v in zip(x, y):
                rec(u, v, env, loc)
                env, loc = bind(1, env, loc)
        return rec(a[1], b[1], env, loc)
    if k == 'Lhandle':
        rec(a[0], b[0])
        return rec(a[1], b[1], *bind(1, env, loc))
    if k in ('Lprim', 'Lapply'):
        if k == 'Lprim':
            x, y = tolist(a[1]), tolist(b[1])
        else:
            x, y = [a[0]] + tolist(a[1]), [b[0]] + tolist(b[1])
        if len(x) != len(y):
            raise Wrong('arguments are lost')
        for u, v in zip(x, y):
            rec(u, v)
        return
    raise Stuck('form %s in closures' % k)


follow.ids = []


def showl(v):
    if v[0] == 'con':
        return v[1] + ('' if v[2] is None else '(' + showl(v[2]) + ')')
    if v[0] == 'tup':
        return ','.join(showl(x) for x in v[1])
    if v[0] == 'sv':
        return v[1]
    return vnshow(v) if smlev.isint(v) else str(v[0])
