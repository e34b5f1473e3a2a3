"""L02: typestate of streams over the syntax tree of the stream library.

A stream is a reference to a record {closed, ic/oc, ...}. The units that declare channel primitives are interpreted
abstractly, function by function: the state of each stream is open, closed or unknown; it is learnt from tests of the
`closed` label, lost when unknown code may run, and set by assignments. Local functions are analysed where they are
called; a function that escapes is analysed as called at an unknown later time. Rules:
 use      a channel primitive gets the channel of a stream known to be open at that moment
 close    closing the channel and marking the stream closed happen together on every path, exceptional ones included
 mark     a store into an existing stream sets closed to true and keeps the channel
 fresh    a new stream has closed = false and a channel that no other stream has
 result   on a closed stream, output raises, input gives the end-of-file value (or raises), closing returns
 leak     no channel is exported or partially applied into a function value
"""
import os
from . import cflow, checks, cbuild, sml
from .sml import N
from .cbuild import AnalysisError
from .report import Result

OPEN, CLOSED, UNK = 'open', 'closed', 'unknown'
HIGHER = set('app appi map mapi foldl foldr foldli foldri all exists find tabulate modify modifyi filter partition scan'.split())
EMPTY = {'NONE', '""', '0', 'true', 'SOME ""', 'SOME 0', '()'}


class V:
    """abstract value: kind and data"""
    __slots__ = ('k', 'd')

    def __init__(s, k, *d):
        s.k, s.d = k, d

    def key(s):
        return (s.k,) + tuple(x.key() if isinstance(x, V) else id(x) if isinstance(x, (Clo, list, dict)) else x for x in s.d)

    def __repr__(s):
        return '%s%r' % (s.k, s.d)


TOP = V('top')


class Clo:
    """clauses [(patterns, body)], environment, name, arguments so far"""

    def __init__(s, name, clauses, env, line):
        s.name, s.clauses, s.env, s.line = name, clauses, env, line
        s.n = len(clauses[0][0])


class St:
    """state of the streams, facts' epoch, streams whose channel was closed but not marked"""
    __slots__ = ('d', 'ep', 'half')

    def __init__(s, d=(), ep=0, half=()):
        s.d, s.ep, s.half = dict(d), ep, frozenset(half)

    def get(s, k):
        return s.d.get(k, UNK)

    def set(s, k, v):
        n = St(s.d, s.ep, s.half)
        n.d[k] = v
        return n

    def havoc(s):
        return St({k: v for k, v in s.d.items() if v == CLOSED}, s.ep + 1, s.half)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return St({k: v for k, v in a.d.items() if b.d.get(k) == v}, max(a.ep, b.ep) + (a.ep != b.ep), a.half | b.half)


def vjoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.key() == b.key():
        return a
    vs = {}
    for v in (a, b):
        for x in v.d[0] if v.k == 'alt' else [v]:
            if x.k in ('clo', 'prim'):
                vs[x.key()] = x
    if vs and len(vs) < 8:
        return V('alt', list(vs.values()))
    return TOP


class Unit:
    def __init__(s, rel, res, mayraise, cfns, base=None):
        s.rel, s.res, s.mayraise, s.cfns = rel, res, mayraise, cfns
        s.prog = sml.parse_file(os.path.join(base or cbuild.REPO, rel), rel)
        s.prims = {}
        s.streamtypes = set()

        def tys(n):
            if n.k == 'type':
                for tv, name, t in n.a[0]:
                    if t is not None and t.k == 'tycon' and t.a[1] == 'ref' and t.a[0][0].k == 'tyrecord' and {'ic', 'oc'} & {l for l, _ in t.a[0][0].a[0]}:
                        s.streamtypes.add(name)
        sml.walk(s.prog, tys)
        s.idents = set()
        s.nst = 0
        s.stack = []
        s.names = []
        s.seen = []
        s.nmade = 0
        s.closeset, s.markset, s.madeset = set(), set(), set()
        s.checked = set()

    # -- helpers
    def report(s, line, rule, msg):
        fn = s.names[0] if s.names else '<top>'
        s.res.add(s.rel, line, fn, rule, msg, '%s:%s:%s:%s' % (s.rel, fn, rule, s.names[-1] if s.names else ''))

    def fresh(s):
        s.nst += 1
        return 's%d' % s.nst

    # -- patterns: bind names; returns the list of bindings
    def bind(s, p, v, env, st):
        k = p.k
        if k == 'pid':
            if p.a[0][:1].isupper() or p.a[0] in ('true', 'false', 'nil'):
                return
            env[p.a[0]] = v
        elif k == 'pas':
            v = s.shape(p.a[1], v)
            s.bind(p.a[0], v, env, st)
            s.bind(p.a[1], v, env, st)
        elif k == 'ptyped':
            s.bind(p.a[0], v, env, st)
        elif k == 'ptuple':
            vs = v.d[0] if v.k == 'tuple' and len(v.d[0]) == len(p.a[0]) else [TOP] * len(p.a[0])
            for q, x in zip(p.a[0], vs):
                s.bind(q, x, env, st)
        elif k == 'papp':
            v = s.shape(p, v)
            if p.a[0] == 'ref' and v.k == 'stream':
                s.bind(p.a[1], V('rec', v.d[0]), env, st)
            else:
                s.bind(p.a[1], TOP, env, st)
        elif k == 'precord':
            labs = [l for l, _ in p.a[0]]
            if v.k == 'top' and ('ic' in labs or 'oc' in labs):
                v = V('rec', s.fresh())
            for l, q in p.a[0]:
                s.bind(q, s.select(v, l, st), env, st)
        elif k in ('plist', 'pvec'):
            for q in p.a[0]:
                s.bind(q, TOP, env, st)

    def shape(s, p, v):
        """an unknown value matched by `ref {closed, ic, ...}` is a stream"""
        while p.k == 'ptyped':
            p = p.a[0]
        if p.k == 'pas':
            return s.shape(p.a[1], s.shape(p.a[0], v))
        if v.k == 'top' and p.k == 'papp' and p.a[0] == 'ref':
            q = p.a[1]
            while q.k == 'ptyped':
                q = q.a[0]
            if q.k == 'precord' and {'ic', 'oc'} & {l for l, _ in q.a[0]}:
                return V('stream', s.fresh())
        return v

    def select(s, v, l, st):
        if v.k == 'rec':
            if l == 'closed':
                return V('flag', v.d[0], st.ep)
            if l in ('ic', 'oc'):
                return V('chan', v.d[0])
        if v.k == 'record':
            for n, x in v.d[0]:
                if n == l:
                    return x
        return TOP

    # -- conditions
    def cond(s, e, env, st):
        """(state if true, state if false), None for impossible"""
        while e.k == 'par':
            e = e.a[0]
        if e.k == 'andalso':
            t, f = s.cond(e.a[0], env, st)
            if t is None:
                return None, f
            t2, f2 = s.cond(e.a[1], env, t)
            return t2, join(f, f2)
        if e.k == 'orelse':
            t, f = s.cond(e.a[0], env, st)
            if f is None:
                return t, None
            t2, f2 = s.cond(e.a[1], env, f)
            return join(t, t2), f2
        if e.k == 'app' and e.a[0].k == 'id' and e.a[0].a[0] == 'not':
            t, f = s.cond(e.a[1], env, st)
            return f, t
        if e.k == 'if':
            t, f = s.cond(e.a[0], env, st)
            a = s.cond(e.a[1], env, t) if t is not None else (None, None)
            b = s.cond(e.a[2], env, f) if f is not None else (None, None)
            return join(a[0], b[0]), join(a[1], b[1])
        if e.k == 'id' and e.a[0] in ('true', 'false'):
            return (st, None) if e.a[0] == 'true' else (None, st)
        v, st = s.ev(e, env, st)
        if st is None:
            return None, None
        if v.k == 'flag':
            k, ep = v.d[0], v.d[1]
            now = st.get(k)
            if now == CLOSED and ep == st.ep:
                return st, None
            if now == OPEN and ep == st.ep:
                return None, st
            return st.set(k, CLOSED), (st.set(k, OPEN) if ep == st.ep else st)
        return st, st

    # -- expressions: (value, state); state None when control does not return
    def ev(s, e, env, st):
        s.seen.append(st)
        k = e.k
        if k in ('int', 'word', 'real', 'str', 'chr'):
            return V('const', {'str': '"%s"' % e.a[0], 'int': str(e.a[0])}.get(k, 'c')), st
        if k == 'id':
            n = e.a[0]
            if n in env:
                return env[n], st
            if n in s.prims:
                return V('prim', n, ()), st
            if n in ('NONE', 'true', 'false'):
                return V('const', n), st
            return V('glob', n), st
        if k == 'par':
            return s.ev(e.a[0], env, st)
        if k == 'typed':
            return s.ev(e.a[0], env, st)
        if k == 'tuple':
            vs = []
            for x in e.a[0]:
                v, st = s.ev(x, env, st)
                if st is None:
                    return TOP, None
                vs.append(v)
            return (V('tuple', vs) if vs else V('const', '()')), st
        if k == 'record':
            fs = []
            for l, x in e.a[0]:
                v, st = s.ev(x, env, st)
                if st is None:
                    return TOP, None
                fs.append((l, v))
            return V('record', fs), st
        if k in ('list', 'vec'):
            for x in e.a[0]:
                v, st = s.ev(x, env, st)
                if st is None:
                    return TOP, None
                s.escape(v, st, x.line)
            return TOP, st
        if k == 'seq':
            v = V('const', '()')
            for x in e.a[0]:
                v, st = s.ev(x, env, st)
                if st is None:
                    return TOP, None
            return v, st
        if k == 'if':
            t, f = s.cond(e.a[0], env, st)
            a = s.ev(e.a[1], env, t) if t is not None else (None, None)
            b = s.ev(e.a[2], env, f) if f is not None else (None, None)
            return s.merge(a, b)
        if k in ('andalso', 'orelse'):
            t, f = s.cond(e, env, st)
            return (V('const', 'true') if f is None else V('const', 'false') if t is None else TOP), join(t, f)
        if k == 'while':
            cur = st
            for _ in range(8):
                t, f = s.cond(e.a[0], env, cur)
                if t is None:
                    break
                _, nx = s.ev(e.a[1], env, t)
                j = join(cur, nx)
                if j.d == cur.d and j.half == cur.half:
                    break
                cur = j
            t, f = s.cond(e.a[0], env, cur)
            return V('const', '()'), f
        if k == 'case':
            v, st = s.ev(e.a[0], env, st)
            if st is None:
                return TOP, None
            return s.match(e.a[1], v, env, st)
        if k == 'fn':
            return V('clo', Clo('fn', [([p], b) for p, b in e.a[0]], env, e.line), ()), st
        if k == 'sel':
            return V('sel', e.a[0]), st
        if k == 'let':
            env2 = dict(env)
            for d in e.a[0]:
                st = s.dec(d, env2, st)
                if st is None:
                    return TOP, None
            return s.ev(e.a[1], env2, st)
        if k == 'raise':
            s.ev(e.a[0], env, st)
            return TOP, None
        if k == 'handle':
            old, s.seen = s.seen, []
            r = s.ev(e.a[0], env, st)
            h = st
            for x in s.seen:
                h = join(h, x)
            s.seen = old + s.seen
            for p, b in e.a[1]:
                env2 = dict(env)
                s.bind(p, TOP, env2, h)
                r = s.merge(r, s.ev(b, env2, h))
            return r
        if k == 'app':
            return s.apply(e, env, st)
        return TOP, st

    def merge(s, a, b):
        if a[1] is None:
            return (b[0] or TOP, b[1])
        if b[1] is None:
            return a
        return vjoin(a[0], b[0]), join(a[1], b[1])

    def patflags(s, p, v, st):
        """(stream, closed?) conditions under which the pattern matches, None if it can fail for other reasons too"""
        while p.k == 'ptyped':
            p = p.a[0]
        if p.k == 'pas':
            return s.patflags(p.a[0], v, st) + s.patflags(p.a[1], v, st)
        if p.k == 'pid' and v.k == 'flag' and p.a[0] in ('true', 'false'):
            return [(v.d[0], v.d[1], p.a[0] == 'true')]
        if p.k == 'papp' and p.a[0] == 'ref' and v.k == 'stream':
            return s.patflags(p.a[1], V('rec', v.d[0]), st)
        if p.k == 'precord' and v.k == 'rec':
            return [x for l, q in p.a[0] for x in s.patflags(q, s.select(v, l, st), st)]
        if p.k == 'ptuple' and v.k == 'tuple' and len(v.d[0]) == len(p.a[0]):
            return [x for q, y in zip(p.a[0], v.d[0]) for x in s.patflags(q, y, st)]
        return []

    def irrefutable(s, p, v):
        while p.k == 'ptyped':
            p = p.a[0]
        if p.k == 'pas':
            return s.irrefutable(p.a[0], v) and s.irrefutable(p.a[1], v)
        if p.k == 'pid':
            return v.k == 'flag' or not (p.a[0][:1].isupper() or p.a[0] in ('true', 'false', 'nil'))
        if p.k == 'pwild':
            return True
        if p.k in ('precord', 'ptuple'):
            return all(s.irrefutable(q[1] if isinstance(q, tuple) else q, s.select(v, q[0], St()) if isinstance(q, tuple) else TOP) for q in p.a[0])
        return p.k == 'papp' and p.a[0] == 'ref' and s.irrefutable(p.a[1], V('rec', v.d[0]) if v.k == 'stream' else TOP)

    def match(s, rules, v, env, st):
        r = (None, None)
        for p, b in rules:
            if st is None:
                break
            env2 = dict(env)
            v = s.shape(p, v)
            cs = s.patflags(p, v, st)
            st2 = st
            for k, ep, val in cs:
                want = CLOSED if val else OPEN
                if st2.get(k) not in (UNK, want) and ep == st2.ep:
                    st2 = None
                    break
                if val or ep == st2.ep:
                    st2 = st2.set(k, want)
            if st2 is None:
                continue
            s.bind(p, v, env2, st2)
            r = s.merge(r, s.ev(b, env2, st2))
            if s.irrefutable(p, v):
                if not cs:
                    break
                if len(cs) == 1:
                    k, ep, val = cs[0]
                    if st.get(k) == (CLOSED if val else OPEN) and ep == st.ep:
                        break
                    if not val or ep == st.ep:
                        st = st.set(k, OPEN if val else CLOSED)
        return r

    def apply(s, e, env, st):
        f, x = e.a
        fv, st = s.ev(f, env, st)
        if st is None:
            return TOP, None
        if fv.k == 'glob' and fv.d[0] == ':=' and x.k == 'tuple':
            return s.assign(x, env, st, e.line)
        xv, st = s.ev(x, env, st)
        if st is None:
            return TOP, None
        s.seen.append(st)
        return s.call(fv, xv, st, e.line)

    def call(s, fv, xv, st, line):
        if fv.k == 'sel':
            return s.select(xv, fv.d[0], st), st
        if fv.k == 'prim':
            args = fv.d[1] + (xv,)
            d = s.prims[fv.d[0]]
            if len(args) < d['n']:
                return V('prim', fv.d[0], args), st
            return s.primcall(fv.d[0], d, args, st, line)
        if fv.k == 'clo':
            c, args = fv.d[0], fv.d[1] + (xv,)
            if len(args) < c.n:
                return V('clo', c, args), st
            return s.callclo(c, args, st, line)
        if fv.k == 'glob':
            n = fv.d[0]
            if n == 'ref':
                return s.mkref(xv, st, line)
            if n == '!':
                return (V('rec', xv.d[0]) if xv.k == 'stream' else TOP), st
            if n == 'SOME':
                return V('const', 'SOME ' + xv.d[0]) if xv.k == 'const' else TOP, st
            if n in ('ignore', 'op ignore'):
                return V('const', '()'), st
            if n == '=' or n in ('size', 'not', 'Obj.magic'):
                return (xv if n == 'Obj.magic' else TOP), st
            ran = s.escape(xv, st, line)
            if n.split('.')[-1] in ('exit', 'quit'):
                return TOP, None
            if n.split('.')[-1] in HIGHER:
                return V('glob', 'app'), st.havoc()
            return TOP, (st.havoc() if ran else st)
        if fv.k == 'alt':
            r = (None, None)
            for x in fv.d[0]:
                r = s.merge(r, s.call(x, xv, st, line))
            return s.merge(r, (TOP, st.havoc()))
        if fv.k == 'param' or fv.k == 'top':
            s.escape(xv, st, line)
            return TOP, st.havoc()
        return TOP, st

    def escape(s, v, st, line):
        """a function value leaves: it may be called at any later time"""
        if v.k == 'tuple':
            return any([s.escape(x, st, line) for x in v.d[0]])
        if v.k == 'record':
            return any([s.escape(x, st, line) for _, x in v.d[0]])
        if v.k == 'alt':
            return any([s.escape(x, st, line) for x in v.d[0]])
        if v.k == 'clo':
            c = v.d[0]
            later = st.havoc()
            args = v.d[1] + (V('param'),) * (c.n - len(v.d[1]))
            s.callclo(c, args, later, line, True)
            return True
        if v.k == 'prim':
            d = s.prims[v.d[0]]
            if d['chan'] and any(a.k == 'chan' for a in v.d[1]):
                s.report(line, 'leak', '%s (%s) is applied to the channel of a stream but not called: whoever gets the function calls it without a test that the stream is still open' % (v.d[0], d['c']))
            return True
        if v.k == 'chan':
            s.report(line, 'leak', 'the channel of a stream is passed out of the code that tests whether the stream is open')
        return False

    def callclo(s, c, args, st, line, later=False):
        key = (id(c), tuple(a.key() for a in args))
        if len(s.stack) > 40:
            return TOP, st.havoc()
        for fr in s.stack:
            if fr[0] == id(c):
                # recursion: the entry state of the first call must cover this one
                e = fr[1]
                j = join(e, st)
                if j.d != e.d or j.half != e.half:
                    fr[1] = St(j.d, e.ep, j.half)
                    fr[2] = True
                return TOP, fr[3]
        fr = [id(c), st, False, None]
        s.stack.append(fr)
        s.names.append(c.name)
        if later:
            oldseen, s.seen = s.seen, []
        r = (None, None)
        for _ in range(12):
            fr[2] = False
            r = (None, None)
            ent = fr[1]
            r = s.match([(N('ptuple', body.line, pats), body) for pats, body in c.clauses], V('tuple', s.argvals(c, args)), c.env, ent)
            nx = join(fr[3], r[1])
            if not fr[2] and (nx is None) == (fr[3] is None) and (nx is None or nx.d == fr[3].d and nx.half == fr[3].half):
                break
            fr[3] = nx
        s.stack.pop()
        s.names.pop()
        if later:
            s.seen = oldseen
            if r[1] is not None and r[1].half:
                s.half(r[1], c.line)
        return (r[0] or TOP), r[1]

    def argvals(s, c, args):
        """unknown arguments that some clause takes apart as a stream are streams"""
        r = []
        for i, a in enumerate(args):
            if a.k == 'param':
                for pats, _ in c.clauses:
                    if s.isrefpat(pats[i]):
                        a = s.shape(pats[i], TOP)
                        if a.k != 'top':
                            break
                    if s.derefd(pats[i], _):
                        a = V('stream', s.fresh())
                        break
            r.append(V('param') if a.k == 'top' and args[i].k == 'param' and not any(s.isrefpat(pats[i]) for pats, _ in c.clauses) else a)
        return r

    def derefd(s, p, body):
        """is the parameter p dereferenced in code that takes stream records apart"""
        while p.k == 'ptyped':
            if tyname(p.a[1]) in s.streamtypes:
                return True
            p = p.a[0]
        if p.k != 'pid':
            return False
        d, lab = [], []

        def f(e):
            if e.k == 'app' and e.a[0].k == 'id' and e.a[0].a[0] == '!' and e.a[1].k == 'id' and e.a[1].a[0] == p.a[0]:
                d.append(1)
            if e.k == 'sel' and e.a[0] in ('ic', 'oc') or e.k == 'precord' and {'ic', 'oc'} & {l for l, _ in e.a[0]}:
                lab.append(1)
        sml.walk(body, f)
        return bool(d and lab)

    def isrefpat(s, p):
        while p.k in ('ptyped',):
            p = p.a[0]
        return p.k in ('pas', 'papp', 'precord', 'ptuple')

    def primcall(s, n, d, args, st, line):
        c = d['c']
        if c == 'identity':
            v = args[0]
            if v.k == 'param':
                v = TOP
            if v.k == 'top' and d['stream']:
                v = V('stream', s.fresh())
            return v, st
        if c == 'open_descriptor':
            return V('newchan', s.fresh()), st
        if not d['chan']:
            return (TOP if not c.startswith('create_string') or args[0].k != 'const' else TOP), st
        for i in d['chan']:
            a = args[i]
            if a.k == 'newchan':
                continue
            if a.k != 'chan':
                if a.k == 'param':
                    # a helper over channels: it is judged at its calls
                    continue
                s.report(line, 'use', '%s (%s) is applied to a channel that is not known to be the one of an open stream' % (n, c))
                continue
            k = a.d[0]
            s.checked.add((n, line))
            if k in st.half:
                s.report(line, 'use', '%s (%s) is applied to a channel closed just before' % (n, c))
            elif st.get(k) != OPEN and not (c in d['closers'] and k in s.marked(st)):
                s.report(line, 'use', '%s (%s) reaches the channel of a stream that %s' % (n, c, 'is closed on this path' if st.get(k) == CLOSED else 'is not known to be open here: no test of its closed label holds at this point'))
            if c in d['closers']:
                s.closeset.add((n, line))
                if k in s.marked(st):
                    st = St(st.d, st.ep, st.half - {('m', k)})
                    st.d.pop(('mark', k), None)
                    st = st.set(k, CLOSED)
                else:
                    if s.mayraise.get(c):
                        s.report(line, 'close', '%s (%s) frees the channel and may then raise, before the stream is marked closed: a later operation on the stream uses the freed channel' % (n, c))
                    st = St({x: y for x, y in st.d.items() if x != k}, st.ep, st.half | {k})
        return TOP, st

    def marked(s, st):
        return {k[1] for k in st.d if isinstance(k, tuple)}

    def mkref(s, v, st, line):
        if v.k == 'record' and {l for l, _ in v.d[0]} & {'ic', 'oc'}:
            fs = dict(v.d[0])
            s.madeset.add(line)
            s.nmade += 1
            cl = fs.get('closed')
            ch = fs.get('ic') or fs.get('oc')
            if cl is None or cl.k != 'const' or cl.d[0] != 'false':
                s.report(line, 'fresh', 'a new stream does not start with closed = false')
            if ch.k == 'chan':
                s.report(line, 'fresh', 'a new stream is made over the channel of an existing one: closing one leaves the other marked open')
            k = s.fresh()
            st = st.set(k, OPEN)
            return V('stream', k), st
        if v.k == 'rec':
            s.report(line, 'fresh', 'a copy of a stream is made: closing one leaves the other marked open')
        return TOP, st

    def assign(s, x, env, st, line):
        a, b = x.a[0]
        av, st = s.ev(a, env, st)
        if st is None:
            return TOP, None
        bv, st = s.ev(b, env, st)
        if st is None:
            return TOP, None
        if av.k != 'stream':
            s.escape(bv, st, line)
            return V('const', '()'), st
        k = av.d[0]
        s.markset.add(line)
        fs = dict(bv.d[0]) if bv.k == 'record' else {}
        cl = fs.get('closed')
        ch = fs.get('ic') or fs.get('oc')
        if cl is None or not (cl.k == 'const' and cl.d[0] == 'true'):
            s.report(line, 'mark', 'an existing stream is overwritten with closed %s' % ('= false' if cl is not None and cl.k == 'const' else 'not set to true'))
            return V('const', '()'), st
        if ch is None or ch.k != 'chan' or ch.d[0] != k:
            s.report(line, 'mark', 'a stream being closed gets another channel')
        if k in st.half:
            st = St(st.d, st.ep, st.half - {k})
        else:
            st = St(st.d, st.ep, st.half | {('m', k)}).set(('mark', k), True)
        return V('const', '()'), st.set(k, CLOSED)

    def half(s, st, line):
        for k in st.half:
            if isinstance(k, tuple):
                s.report(line, 'close', 'a stream is marked closed but on some path to the end its channel is not closed (its buffered output is lost, its descriptor leaks)')
            else:
                s.report(line, 'close', 'the channel of a stream is closed but on some path to the end the stream is not marked closed')

    # -- declarations
    def dec(s, d, env, st):
        k = d.k
        if k == 'val':
            if d.a[0]:
                for p, e in d.a[1]:
                    q = p
                    while q.k == 'ptyped':
                        q = q.a[0]
                    if q.k == 'pid' and e.k == 'fn':
                        env[q.a[0]] = V('clo', Clo(q.a[0], [([x], b) for x, b in e.a[0]], env, e.line), ())
                return st
            vs = []
            for p, e in d.a[1]:
                v, st = s.ev(e, env, st)
                if st is None:
                    return None
                vs.append((p, v))
            for p, v in vs:
                v = s.shape(p, v)
                s.bind(p, v, env, st)
        elif k == 'fun':
            for cl in d.a[0]:
                env[cl[0][0]] = V('clo', Clo(cl[0][0], [(c[1], c[3]) for c in cl], env, cl[0][4]), ())
        elif k == 'prim_val':
            s.declprims(d, env)
        elif k == 'local':
            for x in d.a[0] + d.a[1]:
                st = s.dec(x, env, st)
                if st is None:
                    return None
        elif k == 'structure':
            for n, sg, opq, me in d.a[0]:
                for x in s.members(me):
                    st = s.dec(x, env, st)
        elif k == 'exp':
            _, st = s.ev(d.a[0], env, st)
        return st

    def members(s, me):
        while me is not None and me.k == 'constraint':
            me = me.a[0]
        return me.a[0] if me is not None and me.k == 'struct' else []

    def declprims(s, d, env):
        for name, ty, ar, cn, line in d.a[0]:
            args = []
            t = ty
            while t.k == 'tyfun':
                args.append(t.a[0])
                t = t.a[1]
            ch = [i for i, a in enumerate(args) if tyname(a) in ('in_channel', 'out_channel')]
            env.pop(name, None)
            s.prims[name] = dict(n=max(len(args), 1) if args else 0, chan=ch, c=cn, res=tyname(t), closers=('close_in', 'close_out'),
                                 out=any(tyname(a) == 'out_channel' for a in args),
                                 stream=cn == 'identity' and args and 'stream' in (tyname(args[0]) or ''))
            if not args:
                env[name] = TOP
            if ch and cn not in s.cfns:
                raise AnalysisError('channel primitive %s not found in the runtime' % cn)

    # -- entry points: every function the unit declares
    def run(s):
        env = {}
        st = St()
        for d in s.prog:
            st = s.dec(d, env, st) or St()
        top = [(n, v) for n, v in env.items() if v.k == 'clo']
        return env, top

    def analyse(s):
        env, top = s.run()
        sig = os.path.join(cbuild.REPO, s.rel[:-3] + 'sig')
        if s.rel.endswith('.sml') and os.path.exists(sig):
            # functions the signature hides are judged where they are called
            names = set()

            def vals(n):
                if n.k == 'sval':
                    names.update(x for x, _ in n.a[0])
                elif n.k == 'prim_val':
                    names.update(x[0] for x in n.a[0])
            sml.walk(sml.parse_file(sig, s.rel[:-3] + 'sig'), vals)
            top = [(n, v) for n, v in top if n in names]
        nfun = 0
        for n, v in top:
            c = v.d[0]
            if s.rawchannel(c, env):
                continue            # a helper over channels: judged where it is called
            nfun += 1
            base = St()
            given = list(v.d[1])
            args = given + [V('param')] * (c.n - len(given))
            r, st = s.callclo(c, args, base, c.line)
            s.names = [n]
            if st is not None:
                if st.half:
                    s.half(st, c.line)
                s.escape(r, st, c.line)
            s.names = []
            s.closedrun(n, c, given)
        return nfun

    def rawchannel(s, c, env):
        """does the function take a channel (or hand its parameter to a channel primitive)"""
        par = {}
        for pats, body in c.clauses:
            for p in pats:
                while p.k == 'ptyped':
                    p = p.a[0]
                if p.k == 'pid':
                    par[p.a[0]] = 1
        hit = []

        def spine(e):
            args = []
            while e.k == 'app':
                args.append(e.a[1])
                e = e.a[0]
            return e, args[::-1]

        def f(e):
            if e.k == 'app':
                h, args = spine(e)
                if h.k == 'id':
                    ch = []
                    if h.a[0] in s.prims:
                        ch = s.prims[h.a[0]]['chan']
                    elif h.a[0] in env and env[h.a[0]].k == 'clo' and env[h.a[0]].d[0] is not c and s.rawchannel(env[h.a[0]].d[0], env):
                        ch = [0]
                    for i in ch:
                        if i < len(args) and args[i].k == 'id' and args[i].a[0] in par:
                            hit.append(args[i].a[0])
        for pats, body in c.clauses:
            sml.walk(body, f)
        return bool(hit)

    def closedrun(s, n, c, given):
        """the result of each operation on a stream that is closed when it starts"""
        flags = []
        s0 = s.fresh
        made = []

        def fresh():
            k = s0()
            made.append(k)
            return k
        # every stream the function is given is closed: states start so
        quiet = Result()
        real, s.res = s.res, quiet
        s.fresh = fresh

        try:
            old = St.get

            def get(self, k):
                if k in made:
                    return self.d.get(k, CLOSED)
                return self.d.get(k, UNK)
            St.get = get
            try:
                v, st = s.callclo(c, list(given) + [V('param')] * (c.n - len(given)), St(), c.line)
            finally:
                St.get = old
        finally:
            s.res = real
            s.fresh = s0
        if not s.takes(c):
            return
        s.closedfns = getattr(s, 'closedfns', 0) + 1
        s.names = [n]
        kind = s.takes(c)
        closes = s.closing(c)
        if kind == 'out' and not closes and st is not None:
            s.report(c.line, 'result', 'on a closed stream %s returns normally: output to a closed stream has to raise' % n)
        if closes and st is None:
            s.report(c.line, 'result', 'on a closed stream %s raises: closing again has to do nothing' % n)
        if kind == 'in' and not closes and st is not None and v is not None and v.k == 'const' and v.d[0] not in EMPTY:
            s.report(c.line, 'result', 'on a closed stream %s returns %s: input from a closed stream is at its end' % (n, v.d[0]))
        s.names = []

    def takes(s, c):
        """'in' or 'out' if the function's own parameters are a stream"""
        r = []

        def f(e):
            if e.k == 'precord':
                for l, _ in e.a[0]:
                    if l in ('ic', 'oc'):
                        r.append('in' if l == 'ic' else 'out')
            if e.k == 'app' and e.a[0].k == 'sel' and e.a[0].a[0] in ('ic', 'oc'):
                r.append('in' if e.a[0].a[0] == 'ic' else 'out')
        for pats, body in c.clauses:
            sml.walk(pats, f)
            sml.walk(body, f)
        return r[0] if r else None

    def closing(s, c):
        r = []

        def f(e):
            if e.k == 'id' and e.a[0] in s.prims and s.prims[e.a[0]]['c'] in ('close_in', 'close_out'):
                r.append(1)
        for pats, body in c.clauses:
            sml.walk(body, f)
        return bool(r)


def tyname(t):
    return t.a[1] if t.k == 'tycon' else ''


UNITS = ('BasicIO', 'TextIO', 'BinIO', 'Nonstdio', 'Unix')


def run(tier='quick'):
    P = checks.program()
    facts = cflow.Facts(P)
    if 'mlraise' not in P.fns:
        raise AnalysisError('mlraise not found')
    rs = facts.reaching({'mlraise'}, False)
    raising = {c: any(f == c or f.startswith(c + '@') for f in rs) for c in ('close_in', 'close_out')}
    cfns = {f.split('@')[0] for f in P.fns}
    R = Result()
    lib = os.path.join(cbuild.REPO, 'src/mosmllib')
    rels = []
    views = {}
    for f in sorted(os.listdir(lib)):
        if not f.endswith(('.sml', '.mlp', '.sig')) or f == 'Help.mlp':
            continue
        rel = 'src/mosmllib/' + f
        text = open(os.path.join(lib, f), encoding='latin-1').read()
        if 'in_channel' not in text and 'out_channel' not in text:
            continue
        if f.endswith('.sig'):
            prog = sml.parse_file(os.path.join(lib, f), rel)

            def sig(n):
                if n.k == 'tycon' and n.a[1] in ('in_channel', 'out_channel'):
                    R.add(rel, n.line, '<signature>', 'leak', 'the signature gives access to channels', rel)
            sml.walk(prog, sig)
            continue
        rels.append(rel)
    cov = dict(units=0, functions=0, channel_uses=0, closes=0, marks=0, created=0, closed_runs=0)
    for rel in rels:
        u = Unit(rel, R, raising, cfns)
        cov['functions'] += u.analyse()
        cov['units'] += 1
        cov['channel_uses'] += len(u.checked)
        cov['closes'] += len(u.closeset)
        cov['marks'] += len(u.markset)
        cov['created'] += len(u.madeset)
        cov['closed_runs'] += getattr(u, 'closedfns', 0)

        def tys(n):
            if n.k == 'type':
                for tv, name, t in n.a[0]:
                    while t is not None and t.k == 'tycon' and t.a[1] == 'ref':
                        t = t.a[0][0]
                    if t is not None and t.k == 'tyrecord' and {'ic', 'oc'} & {l for l, _ in t.a[0]}:
                        views.setdefault(('ic' if 'ic' in dict(t.a[0]) else 'oc'), []).append((rel, n.line, name, sorted((l, tyname(x)) for l, x in t.a[0])))
        sml.walk(u.prog, tys)
    groups = ({'BasicIO', 'Nonstdio'}, {'TextIO', 'BinIO', 'Unix'})
    n = 0
    for k, vs in sorted(views.items()):
        for g in groups:
            m = [v for v in vs if os.path.basename(v[0]).split('.')[0] in g]
            n += len(m)
            for v in m[1:]:
                if v[3] != m[0][3]:
                    R.add(v[0], v[1], v[2], 'view', 'the representation of %s differs from the one of %s in %s although streams are converted between them unchanged' % (v[2], m[0][2], m[0][0]), '%s:%s' % (v[0], v[2]))
    cov['views'] = n
    cov['selftest_instances'] = selftest(raising, cfns)
    if not R.violations:
        for k, lo in dict(units=5, functions=50, channel_uses=30, closes=2, marks=2, created=10, closed_runs=25, views=8).items():
            if cov[k] < lo:
                raise AnalysisError('only %d %s found (at least %d expected)' % (cov[k], k, lo))
    R.coverage = dict(explanation='Typestate of streams (open, closed, unknown) by abstract interpretation of the syntax tree of every library unit that declares channel primitives: local functions at their calls, escaping functions as called at an unknown later time, recursion and handlers by fixpoint. Every channel primitive must be applied under a current test of the closed label; closing and marking must go together on every path, in an order that also holds when the close primitive raises (call graph of the C runtime); every function is also run from the state in which its stream is closed, and its result judged.', close_primitives_that_raise=sorted(c for c in raising if raising[c]), **cov)
    R.assumptions = ['a call of a function of another unit without a function argument does not close the stream at hand', 'an interrupt raised inside a primitive leaves by an exception (C04)', 'type abstraction: outside these units streams are abstract (their signatures do not mention channels)']
    return R


def selftest(raising, cfns):
    """the micro-examples of fixtures/vsa_stream.sml"""
    fx = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')
    want = {}
    for i, l in enumerate(open(os.path.join(fx, 'vsa_stream.sml')), 1):
        if '(*!' in l:
            want[i] = set(l.split('(*!')[1].split('*)')[0].split())
    r = Result()
    u = Unit('vsa_stream.sml', r, dict(close_in=False, close_out=True), cfns, fx)
    u.analyse()
    got = {}
    for v in r.violations:
        got.setdefault(v['line'], set()).add(v['rule'])
    if got != want:
        raise AnalysisError('self-test: %s' % {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)})
    return len(want)


def L02(tier='quick'):
    return run(tier)
