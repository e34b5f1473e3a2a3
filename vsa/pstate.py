"""Forward dataflow with sets of abstract states over the cir control-flow graph.

A state maps locations (variables, and memory cells named by a canonical access path) to abstract values
and each *origin* (the result of one call site, or a parameter) to the signs it can still have:
  ('c', n)        constant            ('nz',)  some non-zero value       ('a',) address of an object (non-null)
  ('o', s)        the value of origin s
  ('d', s)        a pointer computed from origin s (offset, element, field address)
  ('t', s, S)     truth value: origin s has a sign in S      ('x', s) any other value computed from origin s
Branches restrict the signs.  The domain is finite, so loops reach a fixpoint without widening; the number
of states per block is bounded by joining (origins: union of signs; locations: common entries only)."""
from .cir import strip_quals
from .cflow import walk_e, ins_exprs
from . import cflow

ALL = frozenset('-0+')
CMP = {'==': lambda s, c: s == c, '!=': lambda s, c: s != c}
FLIP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def lkey(l):
    """canonical name of an l-value: uid for variables, text for access paths; None if not nameable"""
    if l.kind == 'var':
        return l.a[0]
    t = _lt(l)
    return None if t is None else ('m', t)


def _lt(l):
    if l.kind == 'var':
        return '{%s}' % l.a[0]
    if l.kind == 'mem':
        e = _et(l.a[0])
        return None if e is None else '*(%s)' % e
    b = _lt(l.a[0])
    return None if b is None else '%s.%s' % (b, l.a[1])


def _et(e):
    if e.op == 'const':
        return str(e.a[0])
    if e.op == 'load':
        return _lt(e.a[0])
    if e.op == 'addr':
        x = _lt(e.a[0])
        return None if x is None else '&' + x
    if e.op == 'cast':
        return _et(e.a[0])
    if e.op in ('padd', 'bin', 'un'):
        xs = [(_et(k) if hasattr(k, 'op') else str(k)) for k in e.a]
        return None if None in xs else '(%s %s)' % (e.op, ' '.join(xs))
    return None


def lastfield(l):
    return l.a[1] if l.kind == 'fld' else None


class State:
    __slots__ = ('env', 'sg', 'fl', 'g')

    def __init__(s, env=None, sg=None, fl=frozenset(), g=None):
        s.env, s.sg, s.fl, s.g = env or {}, sg or {}, fl, g

    def copy(s):
        return State(dict(s.env), dict(s.sg), s.fl, s.g)

    def key(s):
        return (tuple(sorted(((str(k), v) for k, v in s.env.items()), key=repr)), tuple(sorted(s.sg.items(), key=repr)), s.fl, s.g)


class Engine:
    """client protocol (all optional): source(i, fn) -> signs or None; entry(eng) -> State;
    on_call(eng, st, i, args, site); on_deref(eng, st, site, i, what); on_store(eng, st, i, lv, av);
    on_ret(eng, st, i, av); flags live in st.fl (frozenset), a client value in st.g"""

    CAP = 160

    def __init__(s, facts, f, client, mods=None):
        s.facts, s.f, s.c, s.P = facts, f, client, facts.P
        s.mods = mods
        s.here = None
        s.sites = {}
        s.refs = {}

    # -- evaluation
    def ev(s, e, st):
        op = e.op
        if op == 'const':
            return ('c', e.a[0])
        if op in ('str', 'fn', 'lab'):
            return ('a',)
        if op == 'load':
            k = lkey(e.a[0])
            if k is not None:
                v = st.env.get(k)
                if v is not None:
                    return v
            if e.a[0].kind == 'var' and e.a[0].a[0] in s.constants():
                return ('c', s.constants()[e.a[0].a[0]])
            return None
        if op == 'addr':
            l = e.a[0]
            r = l.root()
            if r.kind == 'var':
                return ('a', _lt(l)) if getattr(s.c, 'eq_expected', False) and _lt(l) else ('a',)
            v = s.ev(r.a[0], st)
            if v and v[0] in ('o', 'd'):
                return ('d', v[1])
            return None
        if op == 'cast':
            return s.ev(e.a[0], st)
        if op == 'un':
            v = s.ev(e.a[1], st)
            if v is None:
                return None
            if e.a[0] == '!':
                if v[0] == 'c':
                    return ('c', int(v[1] == 0))
                if v[0] in ('a', 'nz'):
                    return ('c', 0)
                if v[0] == 't':
                    return ('t', v[1], ALL - v[2])
                if v[0] == 'o':
                    return ('t', v[1], frozenset('0'))
                return None
            if v[0] == 'c':
                if e.a[0] == '-':
                    return ('c', -v[1])
                if e.a[0] == '~':
                    return ('c', ~v[1])
                return v if e.a[0] == '+' else None
            return ('x', v[1]) if v[0] in ('o', 'x', 'd', 't') else None
        if op in ('padd', 'pdiff'):
            v = s.ev(e.a[0], st)
            w = s.ev(e.a[1], st)
            if v and v[0] in ('o', 'd'):
                if w == ('c', 0):
                    return v
                return ('d', v[1])
            if v and v[0] == 'a':
                if len(v) == 1:
                    return v
                if w and w[0] == 'c':
                    return ('a', '%s+%d' % (v[1], w[1]))
                if w and w[0] in ('o', 'x', 't', 'tp', 'tn', 'tq'):
                    return ('b' if w[0][0] == 't' else 'x', w[1])
                return ('a',)
            if v and v[0] in ('x', 'b') and getattr(s.c, 'eq_expected', False):
                return v
            if w and w[0] in ('o', 'x'):
                return ('x', w[1])
            return None
        if op == 'bin':
            return s.bin(e.a[0], s.ev(e.a[1], st), s.ev(e.a[2], st), e.a[0] in ('<', '>', '<=', '>=') and (s.unsigned(e.a[1].dty) or s.unsigned(e.a[2].dty)))
        return None

    def constants(s):
        return const_globals(s.facts)

    def unsigned(s, ty):
        return 'unsigned' in s.P.resolve(ty) or s.P.resolve(ty).endswith('*')

    def bin(s, op, a, b, uns=False):
        if op == ',':
            return b
        if op in FLIP:
            if a and b and a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                return ('c', int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]))
            if uns and not getattr(s.c, 'eq_expected', False):
                uns = False
            if uns:
                for v in (a, b):
                    if v and v[0] == 'o':
                        return ('x', v[1])
            if a and a[0] == 'c' and b and b[0] != 'c':
                a, b, op = b, a, FLIP[op]
            if a and b and b[0] == 'c':
                n = b[1]
                if a[0] in ('a', 'nz', 'd') and n == 0 and op in ('==', '!='):
                    if a[0] == 'd':
                        return None
                    return ('c', int(op == '!='))
                if a[0] == 't' and n == 0 and op in ('==', '!='):
                    return a if op == '!=' else ('t', a[1], ALL - a[2])
                if a[0] == 't' and n == 1 and op in ('==', '!='):
                    return a if op == '==' else ('t', a[1], ALL - a[2])
                if a[0] == 'o':
                    S = None
                    if n == 0:
                        S = {'==': '0', '!=': '-+', '<': '-', '>': '+', '<=': '-0', '>=': '0+'}[op]
                    elif n == -1:
                        S = {'==': '-', '!=': '0+', '>': '0+', '<=': '-', '<': '', '>=': '-0+'}[op]
                    elif n == 1 and op in ('<', '>='):
                        S = {'<': '-0', '>=': '+'}[op]
                    elif n > 0 and op in ('==', '!=') and getattr(s.c, 'eq_expected', False):
                        return ('tq', a[1], op)
                    elif n > 0 and op in ('==', '>', '>='):
                        return ('tp', a[1], '+')
                    elif n > 0 and op in ('!=', '<', '<='):
                        return ('tn', a[1], '+')
                    if S is not None:
                        return ('t', a[1], frozenset(S))
            if op in ('==', '!=') and getattr(s.c, 'eq_expected', False):
                for v, w in ((a, b), (b, a)):
                    if v and v[0] == 'o' and (w is None or w[0] == 'c' and w[1] > 0 or w[0] == 'nz'):
                        return ('tq', v[1], op)
            for v in (a, b):
                if v and v[0] in ('o', 'x', 'd', 't', 'tp', 'tn', 'tq'):
                    return ('x', v[1])
            return None
        if a and b and a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                return ('c', {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 64 else 0, '>>': x >> y if 0 <= y < 64 else 0}[op])
            except KeyError:
                return None
        for v in (a, b):
            if v and v[0] in (('o', 'x', 'd', 't', 'tp', 'tn', 'tq', 'b') if getattr(s.c, 'eq_expected', False) else ('o', 'x', 'd')):
                return ('b' if v[0][0] in 'tb' else 'x', v[1])
        return None

    # -- refinement of a branch condition; yields a state or None
    def assume(s, e, st, truth):
        while e.op == 'un' and e.a[0] == '!':
            e, truth = e.a[1], not truth
        while e.op == 'cast':
            e = e.a[0]
        if e.op == 'un' and e.a[0] == '!':
            return s.assume(e, st, truth)
        if e.op == 'bin' and e.a[0] in ('==', '!=') and e.a[2].op in ('const', 'cast'):
            w = s.ev(e.a[2], st)
            x = e.a[1]
            while x.op == 'cast':
                x = x.a[0]
            if w == ('c', 0) and x.op in ('bin', 'un') and (x.op == 'un' and x.a[0] == '!' or x.op == 'bin' and x.a[0] in FLIP):
                return s.assume(x, st, truth if e.a[0] == '!=' else not truth)
        v = s.ev(e, st)
        if v is None:
            # learn about a location compared with a constant or used as a truth value
            n = st.copy()
            if e.op == 'load':
                k = lkey(e.a[0])
                if k is not None and s.trackable(k, e.a[0]):
                    n.env[k] = ('nz',) if truth else ('c', 0)
                    s.ref(k, e.a[0])
            elif e.op == 'bin' and e.a[0] in ('==', '!='):
                a, b = e.a[1], e.a[2]
                while a.op == 'cast':
                    a = a.a[0]
                w = s.ev(b, st)
                if w and w[0] == 'c' and a.op == 'load':
                    k = lkey(a.a[0])
                    if k is not None and s.trackable(k, a.a[0]):
                        if (e.a[0] == '==') == truth:
                            n.env[k] = w
                            s.ref(k, a.a[0])
                        elif w[1] == 0:
                            n.env[k] = ('nz',)
                            s.ref(k, a.a[0])
            return n
        if v[0] == 'c':
            return st if bool(v[1]) == truth else None
        if v[0] in ('a', 'nz'):
            return st if truth else None
        if v[0] == 'o':
            v = ('t', v[1], frozenset('-+'))
        if v[0] == 't':
            old = st.sg.get(v[1])
            if old is None:
                return st
            new = old & v[2] if truth else old - v[2]
            if not new:
                return None
            n = st.copy()
            n.sg[v[1]] = new
            s.c_tested(n, v[1])
            return n
        if v[0] == 'tq':
            n = st.copy()
            s.c_tested(n, v[1], v)
            if (v[2] == '==') == truth and v[1] in n.sg:
                n.sg[v[1]] = n.sg[v[1]] - {'-'}
                if not n.sg[v[1]]:
                    return None
            return n
        if v[0] in ('tp', 'tn'):
            n = st.copy()
            s.c_tested(n, v[1], v)
            if (v[0] == 'tp') == truth:
                old = n.sg.get(v[1])
                if old is not None:
                    if '+' not in old:
                        return None
                    n.sg[v[1]] = frozenset('+')
            return n
        if v[0] == 'x':
            n = st.copy()
            s.c_tested(n, v[1], v)
            return n
        return st

    def c_tested(s, st, site, v=None):
        st.fl = st.fl | ({('tested', site), ('used', site)} if v else {('tested', site)})

    def trackable(s, k, l):
        if isinstance(k, tuple):
            return True
        return True

    def ref(s, k, l):
        if isinstance(k, tuple) and k not in s.refs:
            us, fs = set(), set()

            def lv(x):
                if x.kind == 'var':
                    us.add(x.a[0])
                elif x.kind == 'mem':
                    walk_e(x.a[0], vis)
                else:
                    lv(x.a[0])

            def vis(x):
                if x.op in ('load', 'addr'):
                    lv(x.a[0])
                    if x.op == 'load' and x.a[0].kind != 'var':
                        fs.add((lastfield(x.a[0]), strip_quals(x.a[0].dty)))
            lv(l)
            fs.add((lastfield(l), strip_quals(l.dty)))
            s.refs[k] = (us, fs)
        return k

    def kill_var(s, st, u):
        st.env.pop(u, None)
        for k in [k for k in st.env if isinstance(k, tuple) and u in s.refs[k][0]]:
            del st.env[k]

    def kill_mem(s, st, l):
        """a store through l (not a plain variable)"""
        me = (lastfield(l), strip_quals(l.dty))
        root = l.root()
        for k in [k for k in st.env if isinstance(k, tuple)]:
            if any(f[0] == me[0] and (me[0] is not None or f[1] == me[1]) for f in s.refs[k][1]):
                del st.env[k]
        if root.kind == 'mem':
            for u in [u for u in st.env if not isinstance(u, tuple) and (u in s.f.addr_taken or u not in s.f.vars and not u.startswith('%'))]:
                if me[0] is None and s.vtype(u) == me[1]:
                    s.kill_var(st, u)

    def vtype(s, u):
        v = s.f.vars.get(u)
        if v:
            return strip_quals(v[2])
        g = s.P.globals.get(u)
        return strip_quals(g['ty']) if g else None

    # -- derefs in an expression
    def derefs(s, i, st):
        es = list(ins_exprs(i))
        out = []

        def vis(x):
            if x.op == 'load' and x.a[0].kind != 'var':
                r = x.a[0].root()
                if r.kind == 'mem':
                    out.append(r.a[0])
        for e in es:
            walk_e(e, vis)
        if i.op == 'set':
            r = i.a[0].root()
            if r.kind == 'mem':
                out.append(r.a[0])
        for p in out:
            v = s.ev(p, st)
            if v and v[0] in ('o', 'd'):
                s.c.on_deref(s, st, v[1], i, p)

    # -- transfer
    def step(s, i, st, site):
        """st is owned by the caller (mutable)"""
        if hasattr(s.c, 'on_deref'):
            s.derefs(i, st)
        if i.op == 'set':
            l, e = i.a
            v = s.ev(e, st)
            if v and v[0] in ('tp', 'tn', 'tq'):
                v = ('x', v[1])
            if l.kind == 'var':
                s.kill_var(st, l.a[0])
                if v is not None:
                    st.env[l.a[0]] = v
                if hasattr(s.c, 'on_set'):
                    s.c.on_set(s, st, i, l, v)
                return [st]
            s.kill_mem(st, l)
            k = lkey(l)
            if k is not None:
                s.ref(k, l)
                if v is not None:
                    st.env[k] = v
                else:
                    st.env.pop(k, None)
            if hasattr(s.c, 'on_store'):
                s.c.on_store(s, st, i, l, v)
            return [st]
        if i.op == 'call':
            args = [s.ev(a, st) for a in i.a[2]]
            r = s.c.on_call(s, st, i, args, site) if hasattr(s.c, 'on_call') else None
            if s.facts.is_noreturn(i, s.f):
                return []
            src = s.c.source(s, i, args)
            # an older value of this site is gone
            for k in [k for k, v in st.env.items() if len(v) > 1 and v[1] == site and v[0] != 'c']:
                del st.env[k]
            st.sg.pop(site, None)
            st.fl = frozenset(x for x in st.fl if not (isinstance(x, tuple) and x[-1] == site))
            s.callkill(i, st)
            if i.a[0]:
                s.kill_var(st, i.a[0])
                if src is not None:
                    st.env[i.a[0]] = ('o', site)
            if src is not None:
                st.sg[site] = frozenset(src)
                s.sites[site] = i
            if hasattr(s.c, 'after_call'):
                x = s.c.after_call(s, st, i, args, site, r)
                if x is not None:
                    return x
            return [st]
        return [st]

    def callkill(s, i, st):
        t, u = s.facts.targets(i, s.f)
        gl, fs, allm = set(), set(), False
        if s.mods is not None:
            for k in t:
                m = s.mods.get(k)
                if m:
                    gl |= m[0]
                    fs |= m[1]
        for k in list(st.env):
            if isinstance(k, tuple):
                us, ff = s.refs[k]
                if us & gl or ff & fs:
                    del st.env[k]
            elif k in gl:
                del st.env[k]
        # address-taken locals passed to the call
        for a in i.a[2]:
            def vis(x):
                if x.op == 'addr':
                    r = x.a[0].root()
                    if r.kind == 'var':
                        s.kill_var(st, r.a[0])
            walk_e(a, vis)

    # -- driver
    def run(s):
        f = s.f
        live = cflow.liveness(f) if hasattr(cflow, 'liveness') else None
        init = s.c.entry(s) if hasattr(s.c, 'entry') else [State()]
        if isinstance(init, State):
            init = [init]
        inn = {f.entry: {}}
        for st in init:
            inn[f.entry][st.key()] = st
        rpo = {b: n for n, b in enumerate(f.order())}
        work = {f.entry}
        visits = {}
        sticky = set()     # blocks whose states have been joined into one
        seen = {}          # block -> set of keys already processed
        s.nstates = 0
        while work:
            b = min(work, key=lambda x: rpo[x])
            work.discard(b)
            bl = f.blocks[b]
            sset = seen.setdefault(b, set())
            todo = [(k, st) for k, st in inn[b].items() if k not in sset]
            for k, st in todo:
                sset.add(k)
                s.nstates += 1
                outs = [st.copy()]
                for n, i in enumerate(bl.ins):
                    nxt = []
                    for o in outs:
                        s.here = (b, n)
                        nxt += s.step(i, o, (b, n))
                    outs = nxt
                    if not outs:
                        break
                for o in outs:
                    for tgt, st2 in s.term(bl, o):
                        if tgt not in rpo:
                            continue
                        st2 = s.trim(st2, tgt, live)
                        k2 = st2.key()
                        d = inn.setdefault(tgt, {})
                        if k2 not in d:
                            d[k2] = st2
                            if len(d) > s.CAP or tgt in sticky:
                                old = set(d) - {k2}
                                s.merge(d)
                                sticky.add(tgt)
                                if set(d) == old:
                                    continue
                            work.add(tgt)
        return s

    def trim(s, st, b, live):
        if live is None:
            return st
        lv = live.get(b)
        if lv is None:
            return st
        dead = [k for k in st.env if not isinstance(k, tuple) and (k in s.f.vars or k.startswith('%')) and k not in lv and k not in s.f.addr_taken and k not in getattr(s.c, 'keepvars', ())]
        if dead:
            st = st.copy()
            for k in dead:
                del st.env[k]
            for k in [k for k in st.env if isinstance(k, tuple) and any(u in dead for u in s.refs[k][0])]:
                del st.env[k]
        return st

    def merge(s, d):
        sts = list(d.values())
        env = dict(sts[0].env)
        for o in sts[1:]:
            for k in [k for k in env if o.env.get(k) != env[k]]:
                del env[k]
        sg = {}
        fl = None
        for o in sts:
            for k, v in o.sg.items():
                sg[k] = sg.get(k, frozenset()) | v
            if hasattr(s.c, 'join_flags'):
                fl = o.fl if fl is None else s.c.join_flags(fl, o.fl)
        if fl is None:
            fl = frozenset(x for x in frozenset().union(*[o.fl for o in sts]) if all(x in o.fl or isinstance(x, tuple) and x[0] in ('tested', 'used') and x[1] not in o.sg for o in sts))
        g = sts[0].g
        m = State(env, sg, fl, g)
        d.clear()
        d[m.key()] = m

    def term(s, bl, st):
        t = bl.term
        if hasattr(s.c, 'on_deref') and t.op in ('br', 'switch', 'ret', 'igoto'):
            s.derefs(t, st)
        if t.op == 'jmp':
            return [(t.a[0], st)]
        if t.op == 'br':
            r = []
            for tgt, tr in ((t.a[1], True), (t.a[2], False)):
                x = s.assume(t.a[0], st, tr)
                if x is not None:
                    if hasattr(s.c, 'on_branch'):
                        x = x.copy()
                        s.c.on_branch(s, x, t, t.a[0], tr)
                    r.append((tgt, x))
            return r
        if t.op == 'switch':
            v = s.ev(t.a[0], st)
            if v and v[0] == 'c':
                for val, b in t.a[1]:
                    if val == v[1]:
                        return [(b, st)]
                return [(t.a[2], st)]
            out = []
            st = st.copy()
            if v and v[0] in ('o', 'x', 't'):
                s.c_tested(st, v[1])
            for val, b in t.a[1]:
                n = st.copy()
                if v and v[0] == 'o' and v[1] in n.sg:
                    want = '-' if val < 0 else '0' if val == 0 else '+'
                    if want not in n.sg[v[1]]:
                        continue
                    n.sg[v[1]] = frozenset(want)
                out.append((b, n))
            n = st.copy()
            if v and v[0] == 'o' and v[1] in n.sg:
                vals = [val for val, _ in t.a[1]]
                rem = n.sg[v[1]] - ({'0'} if 0 in vals else set()) - ({'-'} if -1 in vals else set())
                if not rem:
                    return out
                n.sg[v[1]] = frozenset(rem)
            out.append((t.a[2], n))
            return out
        if t.op == 'ret':
            v = s.ev(t.a[0], st) if t.a and t.a[0] is not None else None
            if hasattr(s.c, 'on_ret'):
                s.c.on_ret(s, st, t, v)
            return []
        if t.op == 'igoto':
            if hasattr(s.c, 'on_igoto'):
                s.c.on_igoto(s, st, t)
            if getattr(s.c, 'follow_igoto', False):
                return [(b, State(g=st.g)) for b in s.f.labeladdr_blocks()]
            return []
        return []


def const_globals(facts):
    """scalar globals that are never written and whose address is never taken -> their initial value"""
    if hasattr(facts, '_constg'):
        return facts._constg
    P = facts.P
    w = set()
    for f in P.fns.values():
        def vis(x):
            if x.op == 'addr' and x.a[0].root().kind == 'var':
                w.add(x.a[0].root().a[0])
        for b in f.blocks.values():
            for i in b.ins + [b.term]:
                for e in ins_exprs(i):
                    walk_e(e, vis)
                if i.op == 'set' and i.a[0].root().kind == 'var':
                    w.add(i.a[0].root().a[0])
                elif i.op == 'call' and i.a[0]:
                    w.add(i.a[0])
    r = {}
    for u, g in P.globals.items():
        if u in w or '[' in g['ty'] or g.get('extern'):
            continue
        t = P.resolve(g['ty'])
        if not (t.endswith('*') or t in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'unsigned char')):
            continue
        if g['init'] is None and not g.get('badinit'):
            r[u] = 0
    facts._constg = r
    return r


def modsets(facts):
    """key -> (global uids, field keys) possibly written by the function, transitively"""
    P = facts.P
    own = {}
    for k, f in P.fns.items():
        g, fs = set(), set()
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'set':
                    l = i.a[0]
                    if l.kind == 'var':
                        if l.a[0] not in f.vars and not l.a[0].startswith('%'):
                            g.add(l.a[0])
                        elif l.a[0] in f.vars and f.vars[l.a[0]][3]:
                            g.add(l.a[0])
                    else:
                        fs.add((lastfield(l), strip_quals(l.dty)))
                        r = l.root()
                        if r.kind == 'var' and r.a[0] not in f.vars:
                            g.add(r.a[0])
                elif i.op == 'call' and i.a[0] and i.a[0] not in f.vars and not i.a[0].startswith('%'):
                    g.add(i.a[0])
        own[k] = (g, fs)
    res = {k: (set(g), set(x)) for k, (g, x) in own.items()}
    ch = True
    tg = {k: set().union(*[facts.targets(i, f)[0] for i in facts.calls[k]]) if facts.calls[k] else set() for k, f in P.fns.items()}
    while ch:
        ch = False
        for k in P.fns:
            g, x = res[k]
            n = len(g) + len(x)
            for t in tg[k]:
                g |= res[t][0]
                x |= res[t][1]
            if len(g) + len(x) != n:
                ch = True
    return res
