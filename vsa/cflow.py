"""Whole-program facts and CFG transforms shared by the C analyses:
call graph with function-pointer resolution, noreturn / reaches-summary, helper inlining, constant
loop unrolling and copy propagation of single-definition variables."""
from .cir import E, LV, I, B, Fn, fold, strip_quals, is_ptr_ty, show
from .cbuild import AnalysisError

NORETURN_BASE = {'exit', '_exit', 'abort', 'longjmp', '_longjmp', 'siglongjmp', '__assert_fail', '__builtin_unreachable'}


# ---- traversal helpers -----------------------------------------------------------------------
def walk_e(e, f):
    f(e)
    if e.op in ('load', 'addr'):
        walk_lv(e.a[0], f)
    else:
        for k in e.a:
            if isinstance(k, E):
                walk_e(k, f)


def walk_lv(l, f):
    if l.kind == 'mem':
        walk_e(l.a[0], f)
    elif l.kind == 'fld':
        walk_lv(l.a[0], f)


def ins_exprs(i):
    if i.op == 'set':
        r = [i.a[1]]
        l = i.a[0].root()
        if l.kind == 'mem':
            r.append(l.a[0])
        return r
    if i.op == 'call':
        r = list(i.a[2])
        if isinstance(i.a[1], E):
            r.append(i.a[1])
        return r
    if i.op in ('br', 'switch', 'igoto', 'ret'):
        return [i.a[0]] if isinstance(i.a[0], E) else []
    return []


def map_e(e, f):
    """rebuild expression bottom-up; f(e) may return a replacement (or None)"""
    if e.op in ('load', 'addr'):
        l = map_lv(e.a[0], f)
        n = e if l is e.a[0] else E(e.op, (l,), e.ty, e.dty, e.line)
    elif any(isinstance(k, E) for k in e.a):
        a = tuple(map_e(k, f) if isinstance(k, E) else k for k in e.a)
        n = e if all(x is y for x, y in zip(a, e.a)) else E(e.op, a, e.ty, e.dty, e.line)
    else:
        n = e
    r = f(n)
    return n if r is None else r


def map_lv(l, f):
    if l.kind == 'mem':
        p = map_e(l.a[0], f)
        if p is l.a[0]:
            return l
        if p.op == 'addr' and k_same_target(p.a[0], l):
            return p.a[0]
        return LV('mem', (p,), l.ty, l.dty)
    if l.kind == 'fld':
        b = map_lv(l.a[0], f)
        return l if b is l.a[0] else LV('fld', (b,) + tuple(l.a[1:]), l.ty, l.dty)
    return l


def k_same_target(target, l):
    """*(&x) may be rewritten to x when the types agree (not array decay)"""
    return strip_quals(target.dty or target.ty) == strip_quals(l.dty or l.ty)


def map_ins(i, f):
    r = _map_ins(i, f)
    r.id = i.id
    return r


def _map_ins(i, f):
    if i.op == 'set':
        return I('set', (map_lv(i.a[0], f), map_e(i.a[1], f)), i.line, i.file)
    if i.op == 'call':
        c = i.a[1]
        return I('call', (i.a[0], map_e(c, f) if isinstance(c, E) else c, [map_e(x, f) for x in i.a[2]]), i.line, i.file)
    if i.op in ('br', 'switch', 'igoto', 'ret') and i.a and isinstance(i.a[0], E):
        return I(i.op, (map_e(i.a[0], f),) + tuple(i.a[1:]), i.line, i.file)
    return I(i.op, tuple(i.a), i.line, i.file)


# ---- program facts ---------------------------------------------------------------------------
class Facts:
    def __init__(s, P):
        s.P = P
        s.addr_taken = set()
        s._pp = {}
        s.site_noreturn = set()
        s.callers = {}
        s.calls = {}
        s._collect()
        s._noreturn()

    def lookup(s, name, fn=None):
        """definition for a callee name seen in function fn"""
        P = s.P
        if fn is not None:
            k = '%s@%s' % (name, fn.file.split('/')[-1])
            if k in P.fns:
                return P.fns[k]
        return P.fns.get(name)

    def _collect(s):
        P = s.P

        def note(e):
            if isinstance(e, E):
                walk_e(e, lambda x: s.addr_taken.add(x.a[0]) if x.op == 'fn' else None)
            elif isinstance(e, tuple) and e and e[0] == 'fn':
                s.addr_taken.add(e[1])
            elif isinstance(e, list):
                for x in e:
                    note(x)
        for g in P.globals.values():
            note(g['init'])
        for k, f in P.fns.items():
            cs = s.calls.setdefault(k, [])
            for b in f.order():
                bl = f.blocks[b]
                for i in bl.ins + [bl.term]:
                    for e in ins_exprs(i):
                        note(e)
                    if i.op == 'call':
                        cs.append(i)
        s.by_arity = {}
        for n in s.addr_taken:
            f = P.fns.get(n)
            for k2, f2 in P.fns.items():
                if f2.name == n:
                    s.by_arity.setdefault(len(f2.params), set()).add(k2)

    def targets(s, i, fn):
        """(set of defined function keys, set of undefined names)"""
        c = i.a[1]
        if isinstance(c, str):
            f = s.lookup(c, fn)
            if f is not None:
                return {f.key}, set()
            return set(), {c}
        tb = s._table_targets(c)
        if tb is not None:
            return tb
        pt = s._ptr_param_targets(c, fn)
        if pt is not None:
            return pt
        n = len(i.a[2])
        ct = strip_quals(c.dty)
        r = set(s.by_arity.get(n, ()))
        if '(' in ct:
            void = ct.startswith('void ')
            r = {k for k in r if (s.P.fns[k].ret == 'void') == void}
            ps = ct[ct.rindex('(') + 1:-1]
            if ps.strip() not in ('', 'void') and ct.endswith(')'):
                want = [s.P.resolve(x) for x in ps.split(',')]
                r = {k for k in r if len(want) == n and [s.P.resolve(x) for _, x in s.P.fns[k].params] == want}
        return r, set()

    def _table_targets(s, c):
        """a call through an element of a constant table of functions"""
        while c.op == 'cast':
            c = c.a[0]
        if c.op != 'load' or c.a[0].kind != 'mem':
            return None
        p = c.a[0].a[0]
        while p.op in ('cast', 'padd'):
            p = p.a[0]
        if p.op != 'addr' or p.a[0].kind != 'var':
            return None
        u = p.a[0].a[0]
        g = s.P.globals.get(u)
        if not g or not g['init'] or u in s.stored_tables():
            return None
        fs = [x[1] for x in g['init'] if isinstance(x, tuple) and x[0] == 'fn']
        if not fs:
            return None
        d = {k for n in fs for k in [s.P.fns[n].key] if n in s.P.fns} if all(n in s.P.fns for n in fs) else None
        if d is None:
            d = {n for n in fs if n in s.P.fns}
            return d, {n for n in fs if n not in s.P.fns}
        return d, set()

    def stored_tables(s):
        if not hasattr(s, '_st'):
            s._st = set()
            for f in s.P.fns.values():
                for b in f.blocks.values():
                    for i in b.ins:
                        if i.op == 'set' and i.a[0].root().kind == 'mem':
                            p = i.a[0].root().a[0]
                            while p.op in ('cast', 'padd'):
                                p = p.a[0]
                            if p.op == 'addr' and p.a[0].kind == 'var':
                                s._st.add(p.a[0].a[0])
        return s._st

    def _ptr_param_targets(s, c, fn):
        """a call through a parameter of a function that is only called directly: the functions passed"""
        while c.op == 'cast':
            c = c.a[0]
        if c.op != 'load' or c.a[0].kind != 'var' or fn.name in s.addr_taken:
            return None
        u = c.a[0].a[0]
        ps = [p for p, _ in fn.params]
        if u not in ps:
            return None
        k = (fn.key, u)
        if k in s._pp:
            return s._pp[k]
        s._pp[k] = None
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == u:
                    return None
        n = ps.index(u)
        t, x = set(), set()
        found = False
        for k2, f2 in s.P.fns.items():
            for i in s.calls.get(k2, ()):
                if isinstance(i.a[1], str) and s.lookup(i.a[1], f2) is fn:
                    found = True
                    if n >= len(i.a[2]):
                        return None
                    a = i.a[2][n]
                    while a.op == 'cast':
                        a = a.a[0]
                    if a.op == 'fn':
                        d = s.lookup(a.a[0], f2)
                        if d:
                            t.add(d.key)
                        else:
                            x.add(a.a[0])
                    elif f2 is fn and a.op == 'load' and a.a[0].kind == 'var' and a.a[0].a[0] == u:
                        pass
                    else:
                        r = s._ptr_param_targets(a, f2)
                        if r is None:
                            return None
                        t |= r[0]
                        x |= r[1]
        if not found:
            return None
        s._pp[k] = (t, x)
        return s._pp[k]

    def _noreturn(s):
        P = s.P
        nr = set(NORETURN_BASE) | set(P.noreturn_attr)
        s.noret = nr
        s.noret_keys = set()
        changed = True
        while changed:
            changed = False
            for k, f in P.fns.items():
                if k in s.noret_keys:
                    continue
                if not s._returns(f):
                    s.noret_keys.add(k)
                    changed = True

    def is_noreturn(s, i, fn):
        c = i.a[1]
        if not isinstance(c, str):
            return False
        if (fn.name, c) in s.site_noreturn:
            return True
        f = s.lookup(c, fn)
        if f is not None:
            return f.key in s.noret_keys
        return c in s.noret

    def _returns(s, f):
        seen, st = {f.entry}, [f.entry]
        while st:
            b = f.blocks[st.pop()]
            dead = False
            for i in b.ins:
                if i.op == 'call' and s.is_noreturn(i, f):
                    dead = True
                    break
            if dead:
                continue
            if b.term.op == 'ret':
                return True
            for x in b.succs(f):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return False

    def reaching(s, bases, returning=True):
        """keys of functions from which a function named in bases may be called; with returning=True only
        calls after which the function may still return normally count"""
        P = s.P
        r = {k for k, f in P.fns.items() if f.name in bases}
        ext = set(bases)
        rel = {}
        for k, f in P.fns.items():
            rel[k] = s.returning_calls(f) if returning else s.calls[k]
        changed = True
        while changed:
            changed = False
            for k, f in P.fns.items():
                if k in r:
                    continue
                for i in rel[k]:
                    t, u = s.targets(i, f)
                    if u & ext or t & r:
                        r.add(k)
                        changed = True
                        break
        return r

    def returning_calls(s, f):
        """calls in f that may return and after which f may return"""
        can = set()
        ok = {}
        for b, bl in f.blocks.items():
            ok[b] = not any(i.op == 'call' and s.is_noreturn(i, f) for i in bl.ins)
        ch = True
        while ch:
            ch = False
            for b, bl in f.blocks.items():
                if b not in can and ok[b] and (bl.term.op == 'ret' or any(x in can for x in bl.succs(f))):
                    can.add(b)
                    ch = True
        seen = set(f.order())
        return [i for b, bl in f.blocks.items() if b in can and b in seen for i in bl.ins if i.op == 'call']

    def reachable_from(s, keys):
        seen = set(keys)
        st = list(keys)
        while st:
            k = st.pop()
            f = s.P.fns[k]
            for i in s.calls[k]:
                t, _ = s.targets(i, f)
                for x in t:
                    if x not in seen:
                        seen.add(x)
                        st.append(x)
        return seen

    def call_reaches(s, i, fn, rset, bases=()):
        t, u = s.targets(i, fn)
        return bool(t & rset) or bool(u & set(bases))


def cut_noreturn(facts, f):
    """truncate blocks after a noreturn call (in place on a copied fn)"""
    for b in f.blocks.values():
        for n, i in enumerate(b.ins):
            if i.op == 'call' and facts.is_noreturn(i, f):
                b.ins = b.ins[:n + 1]
                b.term = I('stop', (), i.line, i.file)
                break


def clone(f):
    g = Fn(f.name, f.file, f.line)
    g.__dict__.update(f.__dict__)
    g.blocks = {}
    for k, b in f.blocks.items():
        nb = B(k)
        nb.ins = list(b.ins)
        nb.term = b.term
        nb.labels = list(b.labels)
        g.blocks[k] = nb
    g.vars = dict(f.vars)
    g.labels = dict(f.labels)
    g.addrlabels = set(f.addrlabels)
    g.addr_taken = set(f.addr_taken)
    return g


def _retarget(t, m):
    if t.op == 'br':
        return I('br', (t.a[0], m(t.a[1]), m(t.a[2])), t.line, t.file)
    if t.op == 'jmp':
        return I('jmp', (m(t.a[0]),), t.line, t.file)
    if t.op == 'switch':
        return I('switch', (t.a[0], [(v, m(b)) for v, b in t.a[1]], m(t.a[2])), t.line, t.file)
    return t


_uniq = [0]


def inline(facts, f, pick, maxblocks=3000, depth=6):
    """inline every call whose callee key satisfies pick(key); returns a new Fn"""
    g = clone(f)
    work = [(b, 0, (f.key,)) for b in list(g.blocks)]
    while work:
        bid, start, stack = work.pop()
        b = g.blocks[bid]
        for n in range(start, len(b.ins)):
            i = b.ins[n]
            if i.op != 'call' or not isinstance(i.a[1], str):
                continue
            h = facts.lookup(i.a[1], stackfn(facts, stack) or f)
            if h is None or h.key in stack or len(stack) > depth or not pick(h.key):
                continue
            if h.variadic or len(h.params) != len(i.a[2]) or len(g.blocks) + len(h.blocks) > maxblocks or h.addrlabels:
                continue
            _uniq[0] += 1
            sfx = '~%d' % _uniq[0]

            def ren(u):
                if u in h.vars and not h.vars[u][3]:
                    return u + sfx
                if u.startswith('%'):
                    return u + sfx
                return u
            for u, v in h.vars.items():
                if not v[3]:
                    g.vars[u + sfx] = v
            for u in h.addr_taken:
                g.addr_taken.add(ren(u))

            def rl(l):
                if l.kind == 'var':
                    return LV('var', (ren(l.a[0]),), l.ty, l.dty)
                if l.kind == 'mem':
                    return LV('mem', (re_(l.a[0]),), l.ty, l.dty)
                return LV('fld', (rl(l.a[0]),) + tuple(l.a[1:]), l.ty, l.dty)

            def re_(e):
                if e.op in ('load', 'addr'):
                    return E(e.op, (rl(e.a[0]),), e.ty, e.dty, e.line)
                return E(e.op, tuple(re_(k) if isinstance(k, E) else k for k in e.a), e.ty, e.dty, e.line)

            def ri(x):
                if x.op == 'set':
                    return I('set', (rl(x.a[0]), re_(x.a[1])), x.line, x.file)
                if x.op == 'call':
                    return I('call', (ren(x.a[0]) if x.a[0] else x.a[0], re_(x.a[1]) if isinstance(x.a[1], E) else x.a[1], [re_(y) for y in x.a[2]]), x.line, x.file)
                if x.op in ('br', 'switch', 'igoto', 'ret') and x.a and isinstance(x.a[0], E):
                    return I(x.op, (re_(x.a[0]),) + tuple(x.a[1:]), x.line, x.file)
                return I(x.op, tuple(x.a), x.line, x.file)
            base = max(g.blocks) + 1
            bm = {k: base + j for j, k in enumerate(sorted(h.blocks))}
            cont = base + len(h.blocks)
            cb = B(cont)
            cb.ins = b.ins[n + 1:]
            cb.term = b.term
            b.ins = b.ins[:n]
            for (pu, pt), arg in zip(h.params, i.a[2]):
                v = h.vars.get(pu, ('', pt, pt, False))
                b.ins.append(I('set', (LV('var', (ren(pu),), v[1], v[2]), arg), i.line, i.file))
            b.term = I('jmp', (bm[h.entry],), i.line, i.file)
            g.blocks[cont] = cb
            for k, hb in h.blocks.items():
                nb = B(bm[k])
                nb.ins = [ri(x) for x in hb.ins]
                t = hb.term
                if t.op == 'ret':
                    e = t.a[0] if t.a else None
                    if e is not None and i.a[0]:
                        nb.ins.append(I('set', (LV('var', (i.a[0],), h.ret, h.ret), re_(e)), t.line, t.file))
                    nb.term = I('jmp', (cont,), t.line, t.file)
                else:
                    nb.term = _retarget(ri(t), lambda q: bm[q])
                g.blocks[nb.id] = nb
                work.append((nb.id, 0, stack + (h.key,)))
            work.append((cont, 0, stack))
            break
    return g


def stackfn(facts, stack):
    return facts.P.fns.get(stack[-1])


def internal_helpers(facts, keep=()):
    """functions called only from their own file, never address-taken and not in a public header:
    helper extraction creates exactly these.  They are analysed inlined at their call sites."""
    P = facts.P
    callers = {}
    for k, f in P.fns.items():
        for i in facts.calls[k]:
            t, _ = facts.targets(i, f)
            if isinstance(i.a[1], str):
                for x in t:
                    callers.setdefault(x, set()).add(k)
    r = set()
    for k, f in P.fns.items():
        if f.name in facts.addr_taken or f.variadic or f.name in keep or k in keep:
            continue
        cs = callers.get(k)
        if not cs or k in cs:
            continue
        if all(P.fns[c].file == f.file for c in cs):
            r.add(k)
    # drop recursive clusters
    def rec(k, seen):
        for i in facts.calls[k]:
            if isinstance(i.a[1], str):
                t, _ = facts.targets(i, P.fns[k])
                for x in t & r:
                    if x in seen or rec(x, seen | {x}):
                        return True
        return False
    return {k for k in r if not rec(k, {k})}


# ---- constant-counter loop unrolling ------------------------------------------------------------
def unroll(f, limit=40, maxblocks=6000):
    g, lv, big = _unroll(f, None, limit, maxblocks)
    if big and len(lv) > 1:
        g = f
        for u in sorted(lv):
            g, _, _ = _unroll(g, u, limit, maxblocks)
    return g


def _unroll(f, only, limit, maxblocks):
    """specialise the CFG on variables whose every assignment is a constant or itself+constant and that
    are compared with constants: loops with constant bounds become straight-line code"""
    defs = {}
    bad = set(f.addr_taken) | {u for u, _ in f.params}
    tempof = {}
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'set' and i.a[0].kind == 'var':
                defs.setdefault(i.a[0].a[0], []).append(i.a[1])
            elif i.op == 'call' and i.a[0]:
                bad.add(i.a[0])
    cand = set()
    consts = {}

    def okexpr(u, e):
        if fold(e) is not None:
            return True
        vs = []
        walk_e(e, lambda x: vs.append(x) if x.op in ('load', 'addr', 'fn', 'str', 'flt', 'lab') else None)
        return all(x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in cand for x in vs)
    # grow from variables with a constant def
    cand = {u for u, es in defs.items() if u in f.vars and not f.vars[u][3] and u not in bad and any(fold(e) is not None for e in es) and '#g' not in u}
    temps = {u for u in defs if u.startswith('%') and u not in bad}
    cand |= temps
    while True:
        drop = {u for u in cand if not all(okexpr(u, e) for e in defs[u])}
        if not drop:
            break
        cand -= drop
    # only counters: those that occur in a branch condition comparing with constant, or feed such
    tested = set()
    for b in f.blocks.values():
        if b.term.op == 'br':
            vs = set()
            ok = [True]

            def w(x):
                if x.op == 'load':
                    if x.a[0].kind == 'var' and x.a[0].a[0] in cand:
                        vs.add(x.a[0].a[0])
                    else:
                        ok[0] = False
            walk_e(b.term.a[0], w)
            if ok[0]:
                tested |= vs
    # must be in a loop: has a self-increment
    loopvars = set()
    for u in tested:
        for e in defs[u]:
            if fold(e) is None:
                loopvars.add(u)
    if only:
        loopvars &= {only}
    if not loopvars:
        return f, loopvars, False
    # dependencies
    need = set(loopvars)
    ch = True
    while ch:
        ch = False
        for u in list(need):
            for e in defs[u]:
                def w(x):
                    nonlocal ch
                    if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in cand and x.a[0].a[0] not in need:
                        need.add(x.a[0].a[0])
                        ch = True
                walk_e(e, w)

    def subst(env):
        def g(x):
            if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in env:
                return E('const', (env[x.a[0].a[0]],), x.ty, x.dty, x.line)
        return g
    g = clone(f)
    g.blocks = {}
    ids = {}
    work = []
    # liveness restricted to need, so that dead counters do not multiply blocks
    live = _liveness(f, need)

    def get(b, env):
        env = {k: v for k, v in env.items() if k in live[b]}
        key = (b, tuple(sorted(env.items())))
        if key not in ids:
            ids[key] = len(ids)
            if len(ids) > maxblocks:
                raise _TooBig()
            work.append((key, env))
        return ids[key]
    cnt = {}
    try:
        g.entry = get(f.entry, {})
        while work:
            (b, _), env = work.pop()
            nid = ids[(b, _)]
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > limit:
                raise _TooBig()
            nb = B(nid)
            env = dict(env)
            ob = f.blocks[b]
            nb.labels = list(ob.labels)
            for i in ob.ins:
                ni = map_ins(i, subst(env))
                if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] in need:
                    c = fold(ni.a[1])
                    if c is not None:
                        env[i.a[0].a[0]] = c
                    else:
                        env.pop(i.a[0].a[0], None)
                nb.ins.append(ni)
            t = map_ins(ob.term, subst(env))
            if t.op == 'br':
                c = fold(t.a[0])
                if c is not None:
                    t = I('jmp', (t.a[1] if c else t.a[2],), t.line, t.file)
            nb.term = _retarget(t, lambda q: get(q, env))
            if t.op == 'igoto':
                raise _TooBig()
            g.blocks[nid] = nb
    except _TooBig:
        return f, loopvars, True
    return g, loopvars, False


class _TooBig(Exception):
    pass


def _liveness(f, vs):
    use, dfn = {}, {}
    for k, b in f.blocks.items():
        u, d = set(), set()
        for i in b.ins + [b.term]:
            for e in ins_exprs(i):
                def w(x):
                    if x.op == 'load' and x.a[0].root().kind == 'var' and x.a[0].root().a[0] in vs and x.a[0].root().a[0] not in d:
                        u.add(x.a[0].root().a[0])
                walk_e(e, w)
            if i.op == 'set' and i.a[0].kind == 'var':
                d.add(i.a[0].a[0])
            elif i.op == 'call' and i.a[0]:
                d.add(i.a[0])
        use[k], dfn[k] = u, d
    live = {k: set(use[k]) for k in f.blocks}
    ch = True
    while ch:
        ch = False
        for k, b in f.blocks.items():
            o = set()
            for x in b.succs(f):
                o |= live[x]
            n = use[k] | (o - dfn[k])
            if n != live[k]:
                live[k] = n
                ch = True
    return live


def liveness(f):
    """live-in sets over all local variables"""
    vs = set(f.vars)
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'call' and i.a[0]:
                vs.add(i.a[0])
            elif i.op == 'set' and i.a[0].root().kind == 'var':
                vs.add(i.a[0].root().a[0])
    return _liveness(f, {v for v in vs if '#g' not in v})


# ---- copy propagation of single-definition variables ---------------------------------------------
def copyprop(f, also=()):
    """replace uses of variables with exactly one definition by that definition when it is built only from
    constants, addresses and other single-definition variables (its value cannot change meanwhile)"""
    ndef, dexp = {}, {}
    for u, _ in f.params:
        ndef[u] = 1
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'set' and i.a[0].kind == 'var':
                u = i.a[0].a[0]
                ndef[u] = ndef.get(u, 0) + 1
                dexp[u] = i.a[1]
            elif i.op == 'set' and i.a[0].root().kind == 'var':
                ndef[i.a[0].root().a[0]] = 99
            elif i.op == 'call' and i.a[0]:
                ndef[i.a[0]] = ndef.get(i.a[0], 0) + 1
    for u in f.addr_taken:
        ndef[u] = 99
    # a single definition inside a loop is fine only if its value is loop-invariant: require stability

    def stable(e, seen):
        ok = [True]

        def w(x):
            if x.op == 'load':
                l = x.a[0]
                if l.kind == 'var' and ('#g' in l.a[0] or '#s' in l.a[0]):
                    ok[0] = False
                elif l.kind != 'var' or ndef.get(l.a[0], 99 if '#g' in l.a[0] or '#s' in l.a[0] else 0) != 1:
                    ok[0] = False
                elif l.a[0] in dexp and l.a[0] not in seen:
                    if not stable(dexp[l.a[0]], seen | {l.a[0]}):
                        ok[0] = False
                elif l.a[0] not in dexp and l.a[0] not in {p for p, _ in f.params}:
                    ok[0] = False
            elif x.op in ('str', 'flt', 'lab'):
                ok[0] = ok[0] and x.op != 'lab'
        walk_e(e, w)
        return ok[0]
    sub = {}
    for u, e in dexp.items():
        if ndef.get(u) == 1 and '#g' not in u and '#s' not in u and u not in {p for p, _ in f.params}:
            if stable(e, {u}) and size(e) < 30:
                sub[u] = e
    if not sub:
        return f
    g = clone(f)

    def s_(x, d=0):
        if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in sub and d < 20:
            r = map_e(sub[x.a[0].a[0]], lambda y: s_(y, d + 1))
            return E('cast', (r,), x.ty, x.dty, x.line) if strip_quals(r.dty) != strip_quals(x.dty) else r
    for b in g.blocks.values():
        b.ins = [map_ins(i, s_) if not (i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] in sub) else I('set', (i.a[0], map_e(i.a[1], s_)), i.line, i.file) for i in b.ins]
        b.term = map_ins(b.term, s_)
    return g


def tempalias(f, facts=None, mods=None):
    """within a block, uses of a temporary that holds a pointer computed from unchanged variables become uses of that expression"""
    g = None

    def vars_of(e):
        """variables read by e, or None when it reads memory"""
        r = set()
        bad = [False]

        def w(x):
            if x.op == 'load':
                if x.a[0].kind != 'var':
                    bad[0] = True
                else:
                    u = x.a[0].a[0]
                    if u in f.addr_taken or '#s' in u or '#g' in u and mods is None:
                        bad[0] = True
                    r.add(u)
            elif x.op not in ('const', 'padd', 'cast', 'bin', 'un'):
                bad[0] = True
        walk_e(e, w)
        return None if bad[0] or not r else r
    for bk, b in f.blocks.items():
        al = {}
        ins = []
        ch = False

        def s_(x):
            if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in al:
                return al[x.a[0].a[0]][0]
        for i in b.ins:
            j = map_ins(i, s_) if al else i
            ch = ch or j is not i
            ins.append(j)
            d = i.a[0] if i.op == 'call' else i.a[0].a[0] if i.op == 'set' and i.a[0].kind == 'var' else None
            if d:
                for t in [t for t, (e, us) in al.items() if t == d or d in us]:
                    del al[t]
            if i.op == 'set' and d and d.startswith('%'):
                e = j.a[1]
                us = vars_of(e) if is_ptr_ty(strip_quals(e.dty)) or e.dty.endswith('*') else None
                if us:
                    al[d] = (e, us)
            elif i.op == 'call' and mods is not None:
                w = set().union(*[mods[k][0] for k in facts.targets(i, f)[0] if k in mods] or [set()])
                for t in [t for t, (e, us) in al.items() if us & w]:
                    del al[t]
            elif i.op == 'set' and not d:
                for t in [t for t, (e, us) in al.items() if i.a[0].kind == 'mem' and any('#g' in u for u in us) and i.a[0].dty.endswith('*')]:
                    del al[t]
        t = map_ins(b.term, s_) if al else b.term
        if ch or t is not b.term:
            if g is None:
                g = clone(f)
            g.blocks[bk].ins = ins
            g.blocks[bk].term = t
    return g or f


def size(e):
    n = [0]
    walk_e(e, lambda x: n.__setitem__(0, n[0] + 1))
    return n[0]


def localprop(g):
    """forward substitution inside blocks of temporaries defined by constants and addresses"""
    for b in g.blocks.values():
        env = {}
        out = []

        def sub(x):
            if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in env:
                r = env[x.a[0].a[0]]
                return E('cast', (r,), x.ty, x.dty, x.line) if strip_quals(r.dty) != strip_quals(x.dty) else r
        for i in b.ins + [b.term]:
            ni = map_ins(i, sub) if env else i
            if i.op == 'set' and i.a[0].kind == 'var':
                u = i.a[0].a[0]
                env.pop(u, None)
                if u.startswith('%') or fold(ni.a[1]) is not None:
                    bad = []
                    walk_e(ni.a[1], lambda x: bad.append(1) if x.op in ('load', 'flt', 'lab', 'str') else None)
                    if not bad and '#g' not in u and '#s' not in u and u not in g.addr_taken and size(ni.a[1]) < 20:
                        env[u] = ni.a[1]
            elif i.op == 'call' and i.a[0]:
                env.pop(i.a[0], None)
            out.append(ni)
        b.ins, b.term = out[:-1], out[-1]
