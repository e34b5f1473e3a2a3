"""C04: signals and blocking sections.

The bracket state (the global in_blocking_section) is followed through every function, from both entry
states that occur, with callee summaries; see rules below."""
from . import cflow, pstate, checks
from .cbuild import AnalysisError
from .cir import E
from .cflow import walk_e, ins_exprs
from .pstate import Engine, State
from .report import Result

IBS, PEND, ATT, HND = 'in_blocking_section#g', 'signal_is_pending#g', 'something_to_do#g', 'signal_handler#g'
RUNML = {'interprete', 'minor_collection', 'major_collection_slice', 'finish_major_cycle', 'alloc_shr'}
ALLOCVARS = {'young_ptr#g', 'extern_sp#g', 'c_roots_head#g'}
JUMP = {'longjmp', '_longjmp', 'siglongjmp', '__longjmp_chk'}
SYNC = {4: 'SIGILL', 5: 'SIGTRAP', 7: 'SIGBUS', 8: 'SIGFPE', 11: 'SIGSEGV'}
ASYNC_SAFE = {'sigaction', 'signal', 'sigemptyset', 'sigaddset', 'sigfillset', 'sigprocmask', '__errno_location', 'write', '_exit'}
SA_NODEFER, SA_RESETHAND = 0x40000000, 0x80000000
INPUT = {'read', 'accept', 'recv', 'recvfrom', 'recvmsg', 'readv'}
EINTR = 4


def strip(e):
    while e.op == 'cast':
        e = e.a[0]
    return e


class Ctx:
    def __init__(s, facts, mods):
        s.F, s.mods = facts, mods
        s.sum = {}
        s.rep = {}
        s.stats = dict(functions=0, contexts=0, brackets=0, calls_in_bracket=0, handlers=0, registrations=0, raises=0, returns=0)
        s.want = []
        def sets(f):
            return any(i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == IBS and not (strip(i.a[1]).op == 'const' and strip(i.a[1]).a[0] == 0)
                       for b in f.blocks.values() for i in b.ins)
        s.setters = {k for k, f in facts.P.fns.items() if sets(f) and k != 'interprete'}
        ch = True
        while ch:
            ch = False
            for k, f in facts.P.fns.items():
                if k not in s.setters and k != 'interprete' and any(isinstance(i.a[1], str) and facts.targets(i, f)[0] & s.setters for i in facts.calls[k]):
                    s.setters.add(k)
                    ch = True

    def report(s, fn, i, rule, msg):
        s.rep[(i.file or fn.file, i.line, rule, msg)] = fn.name

    def summary(s, key, ibs, mode):
        """exit values: set of (ibs, ran ML code, signal_is_pending, something_to_do)"""
        k = (key, ibs, mode)
        if k not in s.sum:
            if ibs == 0 and mode == 'sync' and key not in s.setters and not any(i.a[1] == 'interprete' for i in s.F.calls[key]):
                s.sum[k] = {(0, False, None, None)}
                return s.sum[k]
            s.sum[k] = set()
            s.want.append(k)
        return s.sum[k]

    def solve(s):
        """iterate the requested summaries to a fixpoint (bottom: does not return); reports of the last round count"""
        ch = True
        while ch:
            ch = False
            s.rep = {}
            n = 0
            while n < len(s.want):
                k = s.want[n]
                n += 1
                f = s.F.P.fns[k[0]]
                c = Client(s, f, k[1], k[2])
                Eng(s.F, f, c, s.mods).run()
                if not c.exits <= s.sum[k]:
                    s.sum[k] = s.sum[k] | c.exits
                    ch = True
        s.stats['contexts'] = len(s.want)


class Client:
    def __init__(s, ctx, f, ibs, mode):
        s.ctx, s.f, s.ibs, s.mode = ctx, f, ibs, mode
        s.exits = set()

    def source(s, eng, i, args):
        return None

    def entry(s, eng):
        st = State()
        st.env[IBS] = ('c', s.ibs)
        return st

    def join_flags(s, a, b):
        return (a | b) - {'ran'} | (a & b)

    def val(s, st):
        v = st.env.get(IBS)
        return v[1] if v and v[0] == 'c' else 0 if v is None else 1

    def on_set(s, eng, st, i, l, v):
        u = l.a[0]
        if u == IBS:
            if v is None or v[0] != 'c':
                st.env[IBS] = ('c', 0) if v is None else ('c', 1)
            if s.val(st) and 'in' not in st.fl:
                st.fl = st.fl | {'unpolled'}
                s.ctx.stats['brackets'] += 1
        if u in ALLOCVARS:
            s.forbidden(eng, st, i, 'changes %s' % u.split('#')[0])

    def forbidden(s, eng, st, i, what):
        if s.val(st):
            s.ctx.report(s.f, i, 'bracket', '%s %s while in_blocking_section is set: a signal arriving now would run ML code on top of it' % (s.f.name, what))
        if s.mode == 'async' and 'took' not in st.fl:
            s.ctx.report(s.f, i, 'handler', '%s %s on a path of a signal handler that may have interrupted ML code' % (s.f.name, what))

    def on_branch(s, eng, st, t, e, truth):
        hit = []
        walk_e(e, lambda x: hit.append(1) if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] == PEND else None)
        if hit:
            st.fl = st.fl - {'unpolled'}
            v = st.env.get(PEND)
            if v == ('nz',) and s.val(st):
                st.fl = st.fl | {'deliver'}

    def on_call(s, eng, st, i, args, site):
        c = i.a[1]
        if s.val(st):
            s.ctx.stats['calls_in_bracket'] += 1
        if not isinstance(c, str):
            return
        if c in JUMP:
            s.ctx.stats['raises'] += 1
            if s.val(st):
                s.ctx.report(s.f, i, 'raise', '%s raises an exception with in_blocking_section still set: later signals are handled at once, in the middle of ML code' % s.f.name)
            if s.mode == 'async' and 'took' not in st.fl:
                s.forbidden(eng, st, i, 'raises an exception')
            return
        if c in RUNML:
            s.forbidden(eng, st, i, 'calls %s' % c)
            st.fl = st.fl - {'deliver'} | {'ran'}
            return
        f = s.ctx.F.lookup(c, s.f)
        if f is not None and f.key in s.ctx.F.noret_keys:
            s.ctx.summary(f.key, s.val(st), 'took' if 'took' in st.fl and s.mode == 'async' else s.mode)
        if f is not None and s.ibs == 1 and any(x.a[1] == 'interprete' for x in s.ctx.F.calls[f.key]):
            if st.env.get(PEND) != ('c', 0):
                s.ctx.report(s.f, i, 'pending', '%s delivers the signal without clearing signal_is_pending: it is delivered again later' % s.f.name)
        if f is None:
            if 'unpolled' in st.fl:
                s.ctx.report(s.f, i, 'poll', '%s calls %s after setting in_blocking_section without looking at signal_is_pending: a signal noted before is not delivered until the call returns' % (s.f.name, c))
            if s.mode == 'async' and c not in ASYNC_SAFE and 'took' not in st.fl and not s.val(st):
                s.ctx.report(s.f, i, 'handler', '%s calls %s on a path of a signal handler that may have interrupted any code' % (s.f.name, c))
            if c in INPUT and not s.val(st) and retried(s.f, eng.here[0]):
                s.ctx.report(s.f, i, 'retry', '%s retries %s after EINTR outside a blocking section: it cannot be interrupted' % (s.f.name, c))

    def after_call(s, eng, st, i, args, site, r):
        c = i.a[1]
        if not isinstance(c, str) or c in RUNML or c in JUMP:
            return None
        f = s.ctx.F.lookup(c, s.f)
        if f is None:
            return None
        mode = s.mode if s.mode != 'async' or 'took' not in st.fl else 'took'
        ex = s.ctx.summary(f.key, eng.pre_ibs, mode)
        out = []
        for ibs, ran, pend, att in sorted(ex, key=repr):
            n = st.copy()
            n.env[IBS] = ('c', ibs)
            if ran:
                n.fl = n.fl - {'deliver'} | {'ran'}
            for u, w in ((PEND, pend), (ATT, att)):
                if w is not None:
                    n.env[u] = w
            out.append(n)
        return out

    def on_ret(s, eng, st, t, v):
        s.ctx.stats['returns'] += 1
        if 'unpolled' in st.fl:
            s.ctx.report(s.f, t, 'poll', '%s sets in_blocking_section and returns without looking at signal_is_pending' % s.f.name)
        if 'deliver' in st.fl:
            s.ctx.report(s.f, t, 'poll', '%s finds a pending signal on entering a blocking section and does not deliver it' % s.f.name)
        s.exits.add((s.val(st), 'ran' in st.fl, st.env.get(PEND), st.env.get(ATT)))


class Eng(Engine):
    def step(s, i, st, site):
        if i.op == 'call':
            s.pre_ibs = s.c.val(st)
        r = super().step(i, st, site)
        for o in r:
            # leaving the bracket inside a handler means the handler owns the interrupted section
            if s.c.mode == 'async' and s.c.ibs == 1:
                o.fl = o.fl | {'took'}
            if not s.c.val(o):
                o.fl = o.fl - {'in', 'unpolled'}
            else:
                o.fl = o.fl | {'in'}
        return r


def retried(f, b):
    """block b lies on a cycle that compares with EINTR"""
    fwd, st = set(), list(f.blocks[b].succs(f))
    while st:
        x = st.pop()
        if x not in fwd:
            fwd.add(x)
            st += f.blocks[x].succs(f)
    if b not in fwd:
        return False
    pred = {}
    for k, bl in f.blocks.items():
        for x in bl.succs(f):
            pred.setdefault(x, set()).add(k)
    back, st = set(), [b]
    while st:
        x = st.pop()
        for y in pred.get(x, ()):
            if y not in back:
                back.add(y)
                st.append(y)
    for x in fwd & back:
        t = f.blocks[x].term
        hit = []
        for e in ins_exprs(t):
            walk_e(e, lambda q: hit.append(1) if q.op == 'bin' and q.a[0] in ('==', '!=') and any(k.op == 'const' and k.a[0] == EINTR for k in q.a[1:]) else None)
        if hit:
            return True
    return False


def registrations(F):
    """(signal or None, handler function key, call, fn) and the functions that install a handler"""
    P = F.P
    reg = {'signal': (0, 1), 'bsd_signal': (0, 1), 'sysv_signal': (0, 1)}
    flags = {}
    ch = True
    while ch:
        ch = False
        for k, f in P.fns.items():
            if f.name in reg:
                continue
            ps = [u for u, _ in f.params]
            h = sg = None
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'set' and i.a[0].kind == 'fld' and i.a[0].a[1] in ('sa_handler', 'sa_sigaction'):
                        u = var(i.a[1])
                        if u in ps:
                            h = ps.index(u)
                    if i.op == 'call' and i.a[1] == 'sigaction':
                        u = var(i.a[2][0])
                        if u in ps:
                            sg = ps.index(u)
                    if i.op == 'call' and isinstance(i.a[1], str) and i.a[1] in reg:
                        a, c = reg[i.a[1]]
                        if len(i.a[2]) > max(a, c):
                            u, w = var(i.a[2][a]), var(i.a[2][c])
                            if u in ps:
                                sg = ps.index(u)
                            if w in ps:
                                h = ps.index(w)
            if h is not None and sg is not None:
                reg[f.name] = (sg, h)
                ch = True
    out = []
    for k, f in P.fns.items():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'call' and isinstance(i.a[1], str) and i.a[1] in reg:
                    a, c = reg[i.a[1]]
                    if len(i.a[2]) <= max(a, c):
                        continue
                    e = i.a[2][c]
                    while e.op == 'cast':
                        e = e.a[0]
                    if e.op == 'fn':
                        h = F.lookup(e.a[0], f)
                        sgn = i.a[2][a]
                        while sgn.op == 'cast':
                            sgn = sgn.a[0]
                        out.append((sgn.a[0] if sgn.op == 'const' else None, h, i, f))
                if i.op == 'set' and i.a[0].kind == 'fld' and i.a[0].a[1] in ('sa_handler', 'sa_sigaction'):
                    e = i.a[1]
                    while e.op == 'cast':
                        e = e.a[0]
                    if e.op == 'fn':
                        out.append((None, F.lookup(e.a[0], f), i, f))
    return out, reg


def var(e):
    while e.op == 'cast':
        e = e.a[0]
    return e.a[0].a[0] if e.op == 'load' and e.a[0].kind == 'var' else None


def analyse(P):
    F = cflow.Facts(P)
    for u in (IBS, PEND, ATT):
        if u not in P.globals:
            raise AnalysisError('global %s not found' % u.split('#')[0])
    for n in ('interprete', 'longjmp'):
        if n not in P.fns and not any(i.a[1] == n for cs in F.calls.values() for i in cs):
            raise AnalysisError('%s not found' % n)
    mods = pstate.modsets(F)
    ctx = Ctx(F, mods)
    # every function, entered outside a bracket
    called = set()
    for k, f in P.fns.items():
        for i in F.calls[k]:
            if isinstance(i.a[1], str):
                called |= F.targets(i, f)[0]
    for k, f in P.fns.items():
        if k == 'interprete':
            continue
        ctx.stats['functions'] += 1
        ctx.summary(k, 0, 'sync')
    regs, names = registrations(F)
    if not regs:
        raise AnalysisError('no signal handler registration found')
    for sig, h, i, f in regs:
        if h is not None and sig not in SYNC:
            ctx.summary(h.key, 0, 'async')
            ctx.summary(h.key, 1, 'async')
    ctx.solve()
    for k, f in P.fns.items():
        vals = {e[0] for e in ctx.sum.get((k, 0, 'sync'), ())}
        if 1 in vals and (0 in vals or f.name in F.addr_taken or k not in called):
            ctx.report(f, lastline(f), 'unclosed', '%s may return with in_blocking_section still set' % f.name)
        if (k, 0, 'sync') not in ctx.want:
            for b, bl in f.blocks.items():
                for i in bl.ins:
                    if i.op == 'call' and i.a[1] in INPUT and k not in ctx_inside(ctx) and retried(f, b):
                        ctx.report(f, i, 'retry', '%s retries %s after EINTR outside a blocking section: it cannot be interrupted' % (f.name, i.a[1]))
    for (k, ibs, mode), ex in list(ctx.sum.items()):
        f = P.fns[k]
        vals = {e[0] for e in ex}
        if ibs == 1 and mode == 'sync' and vals == {0, 1}:
            ctx.report(f, lastline(f), 'unclosed', '%s leaves the blocking section on some paths only' % f.name)
    # handlers
    jumps = F.reaching(JUMP, returning=False)
    for sig, h, i, f in regs:
        ctx.stats['registrations'] += 1
        if h is None:
            continue
        raises = h.key in jumps or h.key in F.reaching({'interprete'}, returning=False)
        if sig in SYNC:
            continue
        ctx.stats['handlers'] += 1
        for ibs in (0, 1):
            ex = ctx.summary(h.key, ibs, 'async')
            for e in ex:
                if ibs == 0:
                    for nm, w in (('signal_is_pending', e[2]), ('something_to_do', e[3])):
                        if not (w and (w[0] == 'c' and w[1] != 0 or w[0] == 'nz')):
                            ctx.report(h, lastline(h), 'noted', 'a signal arriving outside a blocking section leaves the handler %s without %s being set: it is lost' % (h.name, nm))
                elif not e[1]:
                    ctx.report(h, lastline(h), 'noted', 'a signal arriving inside a blocking section leaves the handler %s without being delivered: the blocking call goes on' % h.name)
                if e[0] != ibs:
                    ctx.report(h, lastline(h), 'unclosed', 'the handler %s returns with the blocking section %s' % (h.name, 'left' if ibs else 'entered'))
        if raises:
            mask(ctx, F, i, f, h, names)
    interp(ctx, F)
    ctx.regs = regs
    return ctx


def ctx_inside(ctx):
    return {k for k, ibs, mode in ctx.sum if ibs == 1}


def lastline(f):
    ls = [b.term for b in f.blocks.values() if b.term is not None and b.term.op == 'ret']
    return max(ls, key=lambda t: t.line) if ls else next(iter(f.blocks.values())).term


def mask(ctx, F, i, f, h, names):
    """a handler that leaves by raising must not stay blocked nor be reset"""
    if i.op == 'call' and i.a[1] in ('signal', 'bsd_signal', 'sysv_signal'):
        ctx.report(f, i, 'mask', 'the handler %s can leave by an exception but is installed with %s: the signal stays blocked afterwards' % (h.name, i.a[1]))
        return
    g = F.lookup(i.a[1], f) if i.op == 'call' else f
    n = 0
    for b in g.blocks.values():
        for j in b.ins:
            if j.op == 'set' and j.a[0].kind == 'fld' and j.a[0].a[1] == 'sa_flags':
                n += 1
                v = Engine(F, g, Client(ctx, g, 0, 'sync')).ev(j.a[1], State())
                if v and v[0] == 'c':
                    if not v[1] & SA_NODEFER:
                        ctx.report(g, j, 'mask', 'the handler %s can leave by an exception, so the signal must not be blocked while it runs (SA_NODEFER): it would stay blocked' % h.name)
                    if v[1] & SA_RESETHAND and not any(c.op == 'call' and c.a[1] == i.a[1] for bb in h.blocks.values() for c in bb.ins):
                        ctx.report(g, j, 'mask', 'the handler %s is removed when it runs and does not install itself again' % h.name)
    if not n:
        for b in g.blocks.values():
            for j in b.ins:
                if j.op == 'call' and j.a[1] in ('signal', 'bsd_signal', 'sysv_signal'):
                    ctx.report(g, j, 'mask', 'the handler %s can leave by an exception but is installed with %s: the signal stays blocked afterwards' % (h.name, j.a[1]))


# ---- the interpreter -------------------------------------------------------------------------
class IClient:
    def __init__(s, ctx, f, pc, flags):
        s.ctx, s.f, s.pc, s.flags = ctx, f, pc, flags
        s.n = 0

    def source(s, eng, i, args):
        return None

    def on_igoto(s, eng, st, t):
        s.n += 1
        pend = st.sg.get('pend')
        pc = st.env.get(s.pc)
        base = pc
        if pend == frozenset('+'):
            if not (base and len(base) > 1 and base[1] == 'hnd'):
                s.ctx.report(s.f, s.at, 'deliver', 'the interpreter clears the request for attention but does not go to the signal handler although a signal is pending')
            if st.env.get(PEND) != ('c', 0):
                s.ctx.report(s.f, s.at, 'deliver', 'the interpreter delivers a pending signal without clearing signal_is_pending')
        elif pend == frozenset('0'):
            if base and len(base) > 1 and base[1] == 'hnd':
                s.ctx.report(s.f, s.at, 'deliver', 'the interpreter goes to the signal handler although no signal is pending')
        else:
            s.ctx.report(s.f, s.at, 'deliver', 'the interpreter clears the request for attention (something_to_do) without looking at signal_is_pending afterwards: the signal is lost')


def decrement(e):
    e = strip(e)
    if e.op != 'bin' or e.a[0] not in '+-':
        return False
    c = strip(e.a[2])
    return c.op == 'const' and (c.a[0] > 0) == (e.a[0] == '-') or c.op == 'un' and e.a[0] == '+'


def interp(ctx, F):
    P = F.P
    f = P.fns.get('interprete')
    if f is None:
        raise AnalysisError('interprete not found')
    pcs = set()
    for b in f.blocks.values():
        if b.term.op == 'igoto':
            walk_e(b.term.a[0], lambda x: pcs.add(x.a[0].a[0]) if x.op == 'load' and x.a[0].kind == 'var' else None)
    names = {u for u in f.vars if f.vars[u][0] == 'pc'}
    if not names:
        raise AnalysisError('program counter of the interpreter not found')
    pc = sorted(names)[0]
    n = 0
    for b, bl in f.blocks.items():
        for j, i in enumerate(bl.ins):
            if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == ATT:
                v = i.a[1]
                while v.op == 'cast':
                    v = v.a[0]
                if v.op == 'const' and v.a[0] == 0:
                    n += 1
                    g = cflow.clone(f)
                    nb = cflow.B(max(g.blocks) + 1)
                    nb.ins = bl.ins[j:]
                    nb.term = bl.term
                    g.blocks[nb.id] = nb
                    g.entry = nb.id
                    c = IClient(ctx, f, pc, None)
                    c.at = i
                    st = State(env={PEND: ('o', 'pend'), HND: ('o', 'hnd')}, sg={'pend': frozenset('0+'), 'hnd': frozenset('+')})
                    c.entry = lambda eng, st=st: st
                    mods = {k: (m[0] - {PEND, HND}, m[1]) for k, m in ctx.mods.items()}
                    Engine(F, g, c, mods).run()
                    if not c.n:
                        raise AnalysisError('no dispatch found after the attention flag is cleared')
    if not n:
        raise AnalysisError('the interpreter never clears something_to_do')
    ctx.stats['attention_points'] = n
    # polling: entering a closure leads to a test of the attention flag before the next instruction
    m = 0
    for b, bl in f.blocks.items():
        for j, i in enumerate(bl.ins):
            if i.op != 'set' or i.a[0].kind != 'var' or i.a[0].a[0] != pc:
                continue
            us = set()
            mem = []

            def vis(x):
                if x.op == 'load':
                    if x.a[0].kind == 'var':
                        us.add(f.vars.get(x.a[0].a[0], ('',))[0])
                    elif x.a[0].kind == 'mem':
                        mem.append(x)
            walk_e(i.a[1], vis)
            if not mem or not us & {'accu', 'env'} or us & {'sp', 'pc', 'trapsp'}:
                continue
            m += 1
            if any(k.op == 'set' and k.a[0].kind == 'var' and f.vars.get(k.a[0].a[0], ('',))[0] == 'extra_args' and decrement(k.a[1]) for k in bl.ins):
                continue
            seen, st = set(), [b]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                t = f.blocks[x].term
                if t.op == 'igoto':
                    ctx.report(f, i, 'polling', 'an instruction enters a function without testing something_to_do before the next instruction: a loop through it cannot be interrupted')
                    break
                hit = []
                for e in ins_exprs(t):
                    walk_e(e, lambda q: hit.append(1) if q.op == 'load' and q.a[0].kind == 'var' and q.a[0].a[0] == ATT else None)
                if not hit:
                    st += f.blocks[x].succs(None)
    if m < 2:
        raise AnalysisError('only %d function entries found in the interpreter' % m)
    ctx.stats['function_entries'] = m


_r = {}


def C04(tier):
    P = checks.program(('vsa_sig.c',))
    ctx = analyse(P)
    r = Result()
    fx = []
    for (file, line, rule, msg), fn in sorted(ctx.rep.items(), key=repr):
        if file.endswith('vsa_sig.c'):
            fx.append(line)
            continue
        r.add(file, line, fn, rule, msg)
    n = checks.selftest('vsa_sig.c', 'C04', fx)
    st = ctx.stats
    for k, lo in dict(functions=280, brackets=1, calls_in_bracket=4, handlers=1, registrations=2, attention_points=1).items():
        if st[k] < lo:
            raise AnalysisError('only %d %s analysed (at least %d expected)' % (st[k], k, lo))
    r.coverage = dict(explanation='Dataflow on the blocking-section state through every C function from every entry state in which it is called, with callee summaries: no change of the allocator or ML stack, no ML code and no exception while it is set, every function returns it as found; each registered handler is analysed for both states in which it can interrupt; the interpreter\'s attention point and its polling are followed to the next dispatch.', selftest_instances=n, **st)
    r.assumptions = ['handlers registered for synchronous signals only (SIGFPE) may raise: they interrupt the very instruction that failed',
                     'calls through function pointers leave the blocking state as they find it']
    return r
