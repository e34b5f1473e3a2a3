"""Abstract evaluation of Standard ML source over partly known values.

Integers (and characters, words) are linear terms of vn.py over symbols with an interval; a value of a datatype can be
unknown ('sv').  A test that is not decided by the intervals is a decision; `paths` enumerates all combinations of
decisions by re-evaluation, keeping the interval each path implies.  Side effects are recorded as events.
"""
import os
import re
from . import sml, cbuild, vn
from .vn import K, lin, mk, add
from .cbuild import AnalysisError

UNIT = ('tup', ())
TRUE, FALSE, NIL, NONE = ('con', 'true', None), ('con', 'false', None), ('con', 'nil', None), ('con', 'NONE', None)
BIG = 1 << 62


class Raise(Exception):
    def __init__(s, v):
        s.v = v


class Stuck(AnalysisError):
    pass


class Ref:
    def __init__(s, v, name=''):
        s.v, s.name = v, name

    def __repr__(s):
        return 'ref(%r)' % (s.v,)


class Clo:
    """clauses: [([patterns], expression)]; waits for n arguments"""

    def __init__(s, clauses, env, n, got=(), name=''):
        s.cl, s.env, s.n, s.got, s.name = clauses, env, n, got, name


class Prim:
    def __init__(s, f, n, got=()):
        s.f, s.n, s.got = f, n, got


class Env:
    unit = False

    def __init__(s, up=None):
        s.v, s.up = {}, up

    def get(s, n):
        e = s
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.up
        return None


class Thunk:
    def __init__(s, f):
        s.f, s.done = f, None

    def force(s):
        if s.done is None:
            s.done = (s.f(),)
        return s.done[0]


class Path:
    def __init__(s, dec):
        s.dec, s.n = list(dec), 0
        s.alts = []
        s.events, s.conds = [], []
        s.iv = {}
        s.shape = {}
        s.fresh = 0

    def choose(s, k):
        """one of k alternatives"""
        if s.n < len(s.dec):
            c = s.dec[s.n]
        else:
            c = 0
            s.dec.append(0)
            s.alts.append((s.n, k))
        s.n += 1
        return c

    def interval(s, t):
        if t[0] == 'k':
            return t[1], t[1]
        if t[0] == '+':
            lo = hi = t[1]
            for x, k in t[2]:
                a, b = s.interval(x)
                a, b = sorted((a * k, b * k))
                lo += a
                hi += b
            return lo, hi
        r = vn.rng(t) or (-BIG, BIG - 1)
        q = s.iv.get(t)
        return (max(r[0], q[0]), min(r[1], q[1])) if q else r

    def assume(s, t, lo, hi):
        """lo <= t <= hi"""
        c, d = lin(t)
        if len(d) == 1:
            (x, k), = d.items()
            a, b = s.interval(x)
            l2 = None if lo is None else lo - c
            h2 = None if hi is None else hi - c
            if k < 0:
                l2, h2, k2 = (None if h2 is None else -h2), (None if l2 is None else -l2), -k
            else:
                k2 = k
            if l2 is not None:
                a = max(a, -((-l2) // k2))
            if h2 is not None:
                b = min(b, h2 // k2)
            s.iv[x] = (a, b)


HT = sml.N('ptuple', 0, [sml.N('pid', 0, '#h'), sml.N('pid', 0, '#t')])


class Eval:
    """prims: {'Name' or 'Mod.name': Python function(path, *args)} with arity given by argcount; modules: {name: file}"""

    def __init__(s, dirs, prims=None, defs=None):
        s.dirs = dirs
        s.mods = {}
        s.builtin = dict(BUILTIN)
        for k, v in (prims or {}).items():
            s.builtin[k] = v
        s.p = None
        s.steps = 0
        s.conarity = {'true': 0, 'false': 0, 'nil': 0, '::': 1, 'NONE': 0, 'SOME': 1, 'LESS': 0, 'EQUAL': 0, 'GREATER': 0, 'ref': 1}
        s.parsed = {}
        s.contype = {}

    def file(s, m):
        for d in s.dirs:
            for e in ('.sml', '.mlp'):
                p = os.path.join(d, m + e)
                if os.path.exists(p):
                    return p
        return None

    def parse(s, m):
        if m not in s.parsed:
            f = s.file(m)
            if f is None:
                raise AnalysisError('SML source of %s not found' % m)
            s.parsed[m] = sml.parse_file(f, os.path.basename(f))
        return s.parsed[m]

    def module(s, m):
        if m not in s.mods:
            if s.file(m) is None:
                s.mods[m] = Env()
            else:
                e = Env(Env())
                e.unit = True
                s.mods[m] = e
                s.decs(s.parse(m), e, e, m)
        return s.mods[m]

    # ---- declarations -------------------------------------------------------------------------
    def decs(s, ds, env, out, mod=None):
        """evaluates declarations into env (bindings also put into out)"""
        for d in ds:
            s.dec(d, env, out, mod)

    def bind(s, env, out, n, v, mod=None):
        if mod and mod + '.' + n in s.builtin:
            v = s.builtin[mod + '.' + n]
        env.v[n] = v
        if out is not env:
            out.v[n] = v

    def dec(s, d, env, out, mod):
        k = d.k
        if k == 'open':
            for m in d.a[0]:
                b = s.struct(m, env)
                if b is not None:
                    # what a unit opens it does not export
                    to = env.up.v if mod is not None and getattr(env, 'unit', False) else env.v
                    vals = dict(b.v)
                    if s.file(m) is None:
                        vals.update({k[len(m) + 1:]: v for k, v in s.builtin.items() if k.startswith(m + '.')})
                    for n, v in vals.items():
                        if to is not env.v and n in env.v:
                            env.v[n] = v
                        to[n] = v
        elif k == 'val':
            for p, e in d.a[1]:
                if mod is not None and p.k == 'pid' or mod is not None and p.k == 'ptyped' and p.a[0].k == 'pid':
                    n = p.a[0] if p.k == 'pid' else p.a[0].a[0]
                    s.bind(env, out, n, Thunk(lambda e=e, n=n: s.lenient(e, env, mod, n)), mod)
                elif mod is not None:
                    names = patvars(p)
                    th = Thunk(lambda e=e: s.ev(e, env))
                    for n in names:
                        def pick(n=n, th=th, p=p):
                            b = {}
                            if not s.match(p, th.force(), b):
                                raise Raise(('con', 'Bind', None))
                            return b[n]
                        s.bind(env, out, n, Thunk(pick), mod)
                else:
                    if d.a[0] and e.k == 'fn':
                        c = Clo([([q], b) for q, b in e.a[0]], env, 1, name=p.a[0])
                        s.bind(env, out, p.a[0], c, mod)
                        continue
                    b = {}
                    if not s.match(p, s.ev(e, env), b):
                        raise Raise(('con', 'Bind', None))
                    for n, v in b.items():
                        s.bind(env, out, n, v, mod)
        elif k == 'fun':
            for cl in d.a[0]:
                n = cl[0][0]
                c = Clo([(c[1], c[3]) for c in cl], env, len(cl[0][1]), name=n)
                s.bind(env, out, n, c, mod)
        elif k in ('datatype', 'abstype'):
            for tv, tn, cs in d.a[0]:
                for c, ty in cs:
                    s.conarity[c] = 1 if ty is not None else 0
                    s.contype[c] = ty
                    env.v.pop(c, None)
                    env.v[c] = out.v[c] = ('con', c, None) if ty is None else Prim(lambda p, x, c=c: ('con', c, x), 1)
            if k == 'abstype':
                s.decs(d.a[2], env, out, mod)
        elif k == 'exception':
            for c, ty, al in d.a[0]:
                s.conarity[c] = 1 if ty is not None else 0
                env.v[c] = out.v[c] = ('con', c, None) if ty is None else Prim(lambda p, x, c=c: ('con', c, x), 1)
        elif k == 'local':
            e1 = Env(env)
            s.decs(d.a[0], e1, e1, mod)
            e2 = Env(e1)
            s.decs(d.a[1], e2, out, mod)
            for n, v in e2.v.items():
                if out is not env:
                    pass
                env.v[n] = v
        elif k == 'prim_val':
            for n, ty, ar, cn, l in d.a[0]:
                b = s.builtin.get('prim:' + cn)
                if b is None:
                    b = Prim(lambda p, *a, cn=cn: s.unknownprim(cn, a), ar)
                s.bind(env, out, n, b, mod)
        elif k == 'structure':
            for n, sg, opq, me in d.a[0]:
                e1 = Env(env)
                if me is not None and me.k == 'struct':
                    s.decs(me.a[0], e1, e1, None if mod is None else mod)
                    env.v['structure ' + n] = out.v['structure ' + n] = e1
        elif k in ('infix', 'nonfix', 'type', 'primtype', 'signature', 'functor', 'datarepl'):
            if k == 'datarepl':
                pass
        elif k == 'exp':
            pass
        else:
            raise Stuck('declaration %s' % k)

    def lenient(s, e, env, mod, n):
        """a top-level value that cannot be evaluated is unknown"""
        try:
            return s.ev(e, env)
        except Stuck:
            return ('sv', '%s.%s' % (mod, n))

    def unknownprim(s, cn, a):
        raise Stuck('primitive %s' % cn)

    def struct(s, m, env):
        x = env.get('structure ' + m)
        if x is not None:
            return x
        e = s.module(m)
        return e.v.get('structure ' + m) or e

    # ---- patterns -----------------------------------------------------------------------------
    def match(s, p, v, b):
        k = p.k
        if k == 'pwild':
            return True
        if k == 'ptyped':
            return s.match(p.a[0], v, b)
        if k == 'pas':
            q = p.a[0]
            while q.k == 'ptyped':
                q = q.a[0]
            b[q.a[0]] = v
            return s.match(p.a[1], v, b)
        if k == 'pid':
            n = p.a[0].split('.')[-1]
            if n in s.conarity and (n[:1].isupper() or n in ('true', 'false', 'nil', 'ref')) and s.conarity[n] == 0:
                return s.matchcon(n, None, v, b)
            b[p.a[0]] = v
            return True
        if k == 'pconst':
            ty, c = p.a
            if ty == 'str':
                if v[0] == 'S':
                    return v[1] == c
                return s.unknown(('streq', v, c))
            if ty == 'real':
                return s.unknown(('realeq', v, c))
            if ty == 'chr':
                c = ord(c)
            return s.cond('=', v, K(int(c)))
        if k == 'papp':
            n = p.a[0].split('.')[-1]
            if n == 'ref' and isinstance(v, Ref):
                return s.match(p.a[1], v.v, b)
            return s.matchcon(n, p.a[1], v, b)
        if k == 'ptuple':
            if v[0] == 'sv':
                v = s.expand(v, len(p.a[0]))
            if v[0] != 'tup' or len(v[1]) != len(p.a[0]):
                raise Stuck('tuple pattern against %r' % (v,))
            return all(s.match(q, x, b) for q, x in zip(p.a[0], v[1]))
        if k == 'precord':
            if v[0] == 'sv':
                d = {l: s.sub(v, l) for l, _ in p.a[0]}
            elif v[0] == 'rec':
                d = dict(v[1])
            else:
                raise Stuck('record pattern against %r' % (v,))
            return all(s.match(q, d[l], b) for l, q in p.a[0])
        if k == 'plist':
            for q in p.a[0]:
                bb = {}
                if not s.matchcon('::', HT, v, bb):
                    return False
                h, v = bb['#h'], bb['#t']
                if not s.match(q, h, b):
                    return False
            return s.matchcon('nil', None, v, b)
        raise Stuck('pattern %s' % k)

    def sub(s, v, l):
        return ('sv', '%s.%s' % (v[1], l))

    def expand(s, v, n):
        if v in s.p.shape:
            return s.p.shape[v]
        r = ('tup', tuple(s.fresh('%s.%d' % (v[1], i + 1)) for i in range(n)))
        s.p.shape[v] = r
        return r

    def fresh(s, n):
        return ('sv', n)

    RANGE = {'int': (-BIG, BIG - 1), 'word': (-BIG, BIG - 1), 'char': (0, 255)}

    def build(s, n, ty):
        """an unknown value of a type, named n"""
        while ty is not None and ty.k == 'typar':
            ty = ty.a[0]
        if ty is not None and ty.k == 'tycon' and not ty.a[0] and ty.a[1] in s.RANGE:
            for rx, lo, hi in s.ranges:
                if re.search(rx, n):
                    return vn.sym(n, lo, hi)
            return vn.sym(n, *s.RANGE[ty.a[1]])
        if s.intnames and ty is not None and ty.k == 'tyvar' and re.search(s.intnames, n):
            return vn.sym(n, *s.RANGE['int'])
        if ty is not None and ty.k == 'tytuple':
            return ('tup', tuple(s.build('%s.%d' % (n, i + 1), t) for i, t in enumerate(ty.a[0])))
        return s.fresh(n)

    ranges = ()
    intnames = None
    hook = None
    opaque = ()         # unknown values that are none of the constructors tested for

    def matchcon(s, n, q, v, b):
        if isinstance(v, (Ref, Clo, Prim)):
            raise Stuck('constructor %s against a function' % n)
        if v[0] == 'sv':
            if v in s.p.shape and s.p.shape[v][0] == 'con':
                v = s.p.shape[v]
            else:
                ex = s.p.shape.get(v, ('not',))
                if n in ex[1:]:
                    return False
                if s.opaque and v[1].startswith(s.opaque) and '.' not in v[1]:
                    return False
                if s.p.choose(2):
                    s.p.shape[v] = ex + (n,)
                    s.p.conds.append(('isnot', v, n))
                    return False
                s.p.conds.append(('is', v, n))
                nv = ('con', n, s.build('%s.%s' % (v[1], n), s.contype.get(n)) if s.conarity.get(n) else None)
                s.p.shape[v] = nv
                v = nv
        if v[0] != 'con':
            raise Stuck('constructor %s against %r' % (n, v))
        if v[1] != n:
            return False
        if q is None:
            return True
        return s.match(q, v[2], b)

    # ---- conditions ---------------------------------------------------------------------------
    def unknown(s, key):
        if key in s.p.shape:
            return s.p.shape[key]
        r = not s.p.choose(2)
        s.p.shape[key] = r
        s.p.conds.append((key, r))
        return r

    def cond(s, op, a, b):
        """decide an integer comparison"""
        d = add(a, b, -1)
        lo, hi = s.p.interval(d)
        if op == '>':
            op, d, lo, hi = '<', add(b, a, -1), -hi, -lo
        elif op == '>=':
            op, d, lo, hi = '<=', add(b, a, -1), -hi, -lo
        if op == '<':
            if hi < 0:
                return True
            if lo >= 0:
                return False
            r = not s.p.choose(2)
            s.p.assume(d, None, -1) if r else s.p.assume(d, 0, None)
        elif op == '<=':
            if hi <= 0:
                return True
            if lo > 0:
                return False
            r = not s.p.choose(2)
            s.p.assume(d, None, 0) if r else s.p.assume(d, 1, None)
        else:
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            key = ('eq', d)
            if key in s.p.shape:
                return s.p.shape[key]
            r = not s.p.choose(2)
            s.p.shape[key] = r
            if r:
                s.p.assume(d, 0, 0)
            else:
                if lo == 0:
                    s.p.assume(d, 1, None)
                if hi == 0:
                    s.p.assume(d, None, -1)
        s.p.conds.append((op, d, r))
        return r

    def truth(s, v):
        if v == TRUE:
            return True
        if v == FALSE:
            return False
        if v[0] == 'sv' or v[0] == 'eq':
            return s.unknown(v)
        raise Stuck('condition %r' % (v,))

    def equal(s, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a is b
        if isint(a) and isint(b):
            return s.cond('=', a, b)
        if a == b:
            return True
        for v in (a, b):
            if v[0] == 'sv':
                return s.unknown(('eq', a, b))
        if a[0] != b[0]:
            raise Stuck('comparing %r with %r' % (a, b))
        if a[0] == 'S':
            return a[1] == b[1]
        if a[0] == 'con':
            if a[1] != b[1]:
                return False
            return a[2] is None or s.equal(a[2], b[2])
        if a[0] == 'tup':
            return all(s.equal(x, y) for x, y in zip(a[1], b[1]))
        raise Stuck('comparing %r with %r' % (a, b))

    # ---- expressions --------------------------------------------------------------------------
    def lookup(s, n, env, line):
        if '.' in n:
            parts = n.split('.')
            m = '.'.join(parts[:-1])
            if n in s.builtin:
                return s.force(s.builtin[n])
            e = s.struct(parts[0], env)
            for q in parts[1:-1]:
                e = e.v.get('structure ' + q) if e else None
            v = e.v.get(parts[-1]) if e else None
        else:
            v = env.get(n)
            if v is None:
                v = s.builtin.get(n)
        if v is None:
            raise Stuck('unbound %s (line %d)' % (n, line))
        return s.force(v)

    def force(s, v):
        while isinstance(v, Thunk):
            v = v.force()
        return v

    def apply(s, f, x):
        s.steps += 1
        if s.steps > 400000:
            raise Stuck('too many steps')
        if isinstance(f, Prim):
            got = f.got + (x,)
            if len(got) < f.n:
                return Prim(f.f, f.n, got)
            return f.f(s, *got)
        if isinstance(f, Clo):
            got = f.got + (x,)
            if len(got) < f.n:
                return Clo(f.cl, f.env, f.n, got, f.name)
            if s.hook is not None:
                r = s.hook(f, got)
                if r is not None:
                    return r
            for ps, body in f.cl:
                b = {}
                if all(s.match(p, v, b) for p, v in zip(ps, got)):
                    e = Env(f.env)
                    e.v.update(b)
                    if s.hook is not None:
                        e.v['#args'] = got
                    return s.ev(body, e)
            raise Raise(('con', 'Match', None))
        if f[0] == 'sv':
            s.p.fresh += 1
            s.p.events.append(('apply', f, x))
            return ('sv', '%s(%d)' % (f[1], s.p.fresh))
        raise Stuck('application of %r' % (f,))

    def call(s, f, *a):
        for x in a:
            f = s.apply(f, x)
        return f

    def ev(s, e, env):
        k = e.k
        if k == 'id':
            return s.lookup(e.a[0], env, e.line)
        if k == 'int' or k == 'word':
            v = e.a[0]
            return K(v if isinstance(v, int) else int(v))
        if k == 'chr':
            return K(ord(e.a[0]))
        if k == 'str':
            return ('S', e.a[0])
        if k == 'real':
            return ('real', e.a[0])
        if k in ('par', 'typed'):
            return s.ev(e.a[0], env)
        if k == 'tuple':
            return ('tup', tuple(s.ev(x, env) for x in e.a[0]))
        if k == 'record':
            return ('rec', tuple(sorted((l, s.ev(x, env)) for l, x in e.a[0])))
        if k == 'list':
            vs = [s.ev(x, env) for x in e.a[0]]
            r = NIL
            for v in reversed(vs):
                r = ('con', '::', ('tup', (v, r)))
            return r
        if k == 'vec':
            return ('vec', tuple(s.ev(x, env) for x in e.a[0]))
        if k == 'seq':
            r = UNIT
            for x in e.a[0]:
                r = s.ev(x, env)
            return r
        if k == 'let':
            e1 = Env(env)
            s.decs(e.a[0], e1, e1, None)
            return s.ev(e.a[1], e1)
        if k == 'if':
            return s.ev(e.a[1] if s.truth(s.ev(e.a[0], env)) else e.a[2], env)
        if k == 'andalso':
            return s.ev(e.a[1], env) if s.truth(s.ev(e.a[0], env)) else FALSE
        if k == 'orelse':
            return TRUE if s.truth(s.ev(e.a[0], env)) else s.ev(e.a[1], env)
        if k == 'case':
            v = s.ev(e.a[0], env)
            for p, body in e.a[1]:
                b = {}
                if s.match(p, v, b):
                    e1 = Env(env)
                    e1.v.update(b)
                    return s.ev(body, e1)
            raise Raise(('con', 'Match', None))
        if k == 'fn':
            return Clo([([p], b) for p, b in e.a[0]], env, 1)
        if k == 'sel':
            lab = e.a[0]

            def pick(s2, v):
                if v[0] == 'sv':
                    return s.sub(v, lab)
                if v[0] == 'tup':
                    return v[1][int(lab) - 1]
                return dict(v[1])[lab]
            return Prim(pick, 1)
        if k == 'raise':
            raise Raise(s.ev(e.a[0], env))
        if k == 'handle':
            try:
                return s.ev(e.a[0], env)
            except Raise as x:
                for p, body in e.a[1]:
                    b = {}
                    if s.match(p, x.v, b):
                        e1 = Env(env)
                        e1.v.update(b)
                        return s.ev(body, e1)
                raise
        if k == 'app':
            f = s.ev(e.a[0], env)
            x = s.ev(e.a[1], env)
            return s.apply(f, x)
        if k == 'while':
            n = 0
            while s.truth(s.ev(e.a[0], env)):
                s.ev(e.a[1], env)
                n += 1
                if n > 300:
                    raise Stuck('while loop (line %d)' % e.line)
            return UNIT
        raise Stuck('expression %s' % k)

    # ---- paths --------------------------------------------------------------------------------
    def paths(s, thunk, limit=3000):
        """thunk() evaluated under every combination of decisions; yields (path, ('val', v) | ('raise', exn))"""
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            p = Path(dec)
            s.p = p
            s.steps = 0
            try:
                r = ('val', thunk())
            except Raise as x:
                r = ('raise', x.v)
            except RecursionError:
                raise Stuck('recursion')
            for i, k in p.alts:
                for c in range(1, k):
                    stack.append(p.dec[:i] + [c])
            n += 1
            if n > limit:
                raise Stuck('too many paths')
            yield p, r


def isint(v):
    return isinstance(v, tuple) and v and v[0] in ('k', '+', 'sym', 'f', 'ext')


def patvars(p):
    out = []

    def f(n):
        if n.k == 'pid':
            out.append(n.a[0])
        elif n.k == 'pas':
            q = n.a[0]
            while q.k == 'ptyped':
                q = q.a[0]
            out.append(q.a[0])
    sml.walk(p, f)
    return out


def P(n):
    def d(f):
        return Prim(f, n)
    return d


def _cmp(op):
    def f(s, t):
        a, b = t[1]
        if isint(a) and isint(b):
            return TRUE if s.cond(op, a, b) else FALSE
        if a[0] == 'S' and b[0] == 'S':
            return TRUE if {'<': a[1] < b[1], '<=': a[1] <= b[1], '>': a[1] > b[1], '>=': a[1] >= b[1]}[op] else FALSE
        return TRUE if s.unknown((op, a, b)) else FALSE
    return Prim(f, 1)


def _ar(f):
    def g(s, t):
        a, b = t[1]
        if not isint(a) or not isint(b):
            return ('sv', 'arith')
        return f(a, b)
    return Prim(g, 1)


def _divmod(op):
    def f(a, b):
        if a[0] == 'k' and b[0] == 'k' and b[1]:
            return K(a[1] // b[1] if op == 'div' else a[1] % b[1])
        return ('f', op, a, b)
    return f


def _assign(s, t):
    r, v = t[1]
    if not isinstance(r, Ref):
        if r[0] == 'sv':
            s.p.events.append(('assign', r, v))
            return UNIT
        raise Stuck('assignment to %r' % (r,))
    r.v = v
    if r.name:
        s.p.events.append(('set', r.name, v))
    return UNIT


def _for(s, f, lo, hi):
    if lo[0] == 'k' and hi[0] == 'k' and hi[1] - lo[1] < 300:
        for i in range(lo[1], hi[1] + 1):
            s.apply(f, K(i))
        return UNIT
    s.p.events.append(('repeat', lo, hi))
    i = vn.sym('i%d' % len(s.p.events), 0, BIG)
    s.apply(f, i)
    s.p.events.append(('endrepeat', i))
    return UNIT


def _app(s, f, l):
    if l[0] == 'sv':
        s.p.events.append(('foreach', l))
        s.apply(f, ('sv', l[1] + '[]'))
        s.p.events.append(('endforeach', l))
        return UNIT
    while l[1] == '::':
        s.apply(f, l[2][1][0])
        l = l[2][1][1]
    return UNIT


def _map(s, f, l):
    out = []
    if l[0] == 'sv':
        return ('sv', 'map(%s)' % l[1])
    while l[1] == '::':
        out.append(s.apply(f, l[2][1][0]))
        l = l[2][1][1]
    r = NIL
    for v in reversed(out):
        r = ('con', '::', ('tup', (v, r)))
    return r


def _concat(s, t):
    a, b = t[1]
    if a[0] == 'S' and b[0] == 'S':
        return ('S', a[1] + b[1])
    return ('sv', 'concat')


def _fatal(s, m):
    raise Raise(('con', 'Internal', m))


def _op(op, sg):
    return Prim(lambda s, a, b: vn.op2(op, a, b, sg), 2)


def _eq(s, t):
    return TRUE if s.equal(*t[1]) else FALSE


def _ne(s, t):
    return FALSE if s.equal(*t[1]) else TRUE


def _incr(k):
    def f(s, r):
        r.v = add(r.v, K(k))
        return UNIT
    return Prim(f, 1)


def _chr(s, c):
    return c


BUILTIN = {
    'true': TRUE, 'false': FALSE, 'nil': NIL, 'NONE': NONE, 'SOME': Prim(lambda s, x: ('con', 'SOME', x), 1),
    '::': Prim(lambda s, t: ('con', '::', t), 1),
    '+': _ar(add), '-': _ar(lambda a, b: add(a, b, -1)), '*': _ar(lambda a, b: vn.op2('*', a, b, True)),
    'div': _ar(_divmod('div')), 'mod': _ar(_divmod('mod')),
    '~': Prim(lambda s, a: vn.scale(a, -1), 1),
    '<': _cmp('<'), '<=': _cmp('<='), '>': _cmp('>'), '>=': _cmp('>='),
    '=': Prim(_eq, 1), '<>': Prim(_ne, 1), 'not': Prim(lambda s, v: FALSE if s.truth(v) else TRUE, 1),
    '!': Prim(lambda s, r: r.v if isinstance(r, Ref) else ('sv', '!' + str(r[1])), 1), ':=': Prim(_assign, 1),
    'ref': Prim(lambda s, v: Ref(v), 1),
    '^': Prim(_concat, 1), 'fatalError': Prim(_fatal, 1), 'Fnlib.fatalError': Prim(_fatal, 1), 'for': Prim(_for, 3), 'Fnlib.for': Prim(_for, 3),
    'incr': _incr(1), 'decr': _incr(-1), 'Fnlib.incr': _incr(1), 'Fnlib.decr': _incr(-1),
    'List.app': Prim(_app, 2), 'app': Prim(_app, 2), 'List.map': Prim(_map, 2), 'map': Prim(_map, 2),
    'Char.ord': Prim(_chr, 1), 'Char.chr': Prim(_chr, 1), 'ord': Prim(_chr, 1), 'chr': Prim(_chr, 1),
    'prim:and': _op('&', True), 'prim:or': _op('|', True), 'prim:xor': _op('^', True), 'prim:shift_left': _op('<<', True),
    'prim:shift_right_signed': _op('>>', True), 'prim:shift_right_unsigned': _op('>>', False),
    'prim:identity': Prim(lambda s, v: v, 1), 'ignore': Prim(lambda s, v: UNIT, 1),
    'before': Prim(lambda s, t: t[1][0], 1),
    'print': Prim(lambda s, v: UNIT, 1), 'makestring': Prim(lambda s, v: ('sv', 'str'), 1),
}
for _n in ('msgIBlock', 'msgEBlock', 'msgEOL', 'errPrompt', 'msgString', 'msgInt', 'errString', 'msgFlush'):
    BUILTIN[_n] = BUILTIN['Mixture.' + _n] = Prim(lambda s, v: UNIT, 1)
for _n in ('Toplevel', 'Subscript', 'Chr', 'Overflow', 'Match', 'Bind', 'Div', 'Empty', 'Option', 'Size', 'Domain'):
    BUILTIN[_n] = ('con', _n, None)
for _n in ('Fail', 'Io', 'Internal', 'SysErr'):
    BUILTIN[_n] = Prim(lambda s, v, _n=_n: ('con', _n, v), 1)
