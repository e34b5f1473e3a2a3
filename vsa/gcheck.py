"""Heap discipline of the C code: one forward dataflow over every function (helpers inlined).

M01  no use of a heap pointer (or ML-stack pointer) held in an unrooted place across a possible collection
M02  local-root frames and the handler behind raise restored on exits
M03  pointer stores into blocks go through the write barrier
M04  fresh scannable blocks are initialised before the collector can see them
"""
from .cir import E, LV, I, fold, strip_quals, is_ptr_ty, show, showlv, arraydim, width
from . import cflow
from .cflow import walk_e, ins_exprs
from .cbuild import AnalysisError
from . import prims

GC_BASES = {'minor_collection', 'major_collection_slice', 'finish_major_cycle'}
STACK_PTRS = {'extern_sp', 'trapsp', 'stack_low', 'stack_high', 'stack_threshold'}
STACK_MOVE = {'realloc_stack'}
NO_SCAN_TAG = 251
CODE_TYPES = ('code_t', 'realcode_t', 'bytecode_t', 'CODE')
N = frozenset()
H = frozenset([('H',)])
K = frozenset([('K',)])
TOPCHAIN = '?'


class Obj:
    """fresh block known to the state"""
    __slots__ = ('size', 'tag', 'init', 'pv', 'region', 'short')

    def __init__(s, size, tag, region, init=frozenset(), pv=None):
        s.size, s.tag, s.region, s.init, s.pv = size, tag, region, init, pv or {}
        s.short = False

    def key(s):
        return (sizestr(s.size), sizestr(s.tag), s.region, s.init, tuple(sorted(s.pv.items())), s.short)

    def copy(s):
        o = Obj(s.size, s.tag, s.region, s.init, dict(s.pv))
        o.short = s.short
        return o

    def full(s):
        if s.init == 'ALL':
            return True
        t = s.tag if isinstance(s.tag, int) else None
        if t is not None and t >= NO_SCAN_TAG:
            return True
        if isinstance(s.size, int):
            return all(j in s.init for j in range(s.size))
        return False

    def missing(s):
        if isinstance(s.size, int) and s.init != 'ALL':
            m = [j for j in range(s.size) if j not in s.init]
            return 'field%s %s of %d' % ('s' if len(m) > 1 else '', ','.join(map(str, m[:6])), s.size)
        return 'fields of a block of size %s' % (s.size if isinstance(s.size, (int, str)) else show(s.size))


class State:
    __slots__ = ('v', 'cells', 'chain', 'objs', 'sync', 'er', 'ny')

    def __init__(s):
        s.v = {}
        s.cells = {}
        s.chain = ()
        s.objs = {}
        s.sync = {}
        s.er = 'entry'
        s.ny = False

    def copy(s):
        n = State()
        n.v = dict(s.v)
        n.cells = dict(s.cells)
        n.chain = s.chain
        n.objs = {k: o.copy() for k, o in s.objs.items()}
        n.sync = dict(s.sync)
        n.er = s.er
        n.ny = s.ny
        return n

    def sig(s):
        return (frozenset(s.v.items()), frozenset(s.cells.items()), s.chain,
                frozenset((k, o.key()) for k, o in s.objs.items()), frozenset(s.sync.items()), s.er, s.ny)


def sizestr(x):
    return x if isinstance(x, (int, str)) else norm(x)


class Checker:
    def __init__(s, P, facts=None):
        s.P = P
        s.F = facts or cflow.Facts(P)
        F = s.F
        for b in GC_BASES | {'realloc_stack', 'alloc_shr', 'modify', 'initialize', 'alloc'}:
            if b not in P.fns:
                raise AnalysisError('anchor function %s not found in the runtime' % b)
        for g in ('c_roots_head', 'extern_sp', 'young_ptr', 'external_raise'):
            if g + '#g' not in P.globals:
                raise AnalysisError('anchor variable %s not found in the runtime' % g)
        s.signal_noreturn()
        s.gc = F.reaching(GC_BASES)
        s.gc_any = F.reaching(GC_BASES, returning=False)
        s.move = F.reaching(STACK_MOVE)
        s.prims = s.prim_names()
        direct = set()
        for k, f in P.fns.items():
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == 'young_ptr#g' and k != 'minor_collection':
                        direct.add(k)
        s.youngalloc = F.reaching(direct) if direct else set()
        s.pinned = s.pinned_globals()
        # collector internals: never allocate from the ML side; reached by direct calls from the collector
        seen, st = set(), [b for b in GC_BASES]
        while st:
            k = st.pop()
            if k in seen or k not in P.fns or k in ('gc_message', 'fatal_error') or k in F.noret_keys:
                continue
            seen.add(k)
            f = P.fns[k]
            for i in F.calls[k]:
                if isinstance(i.a[1], str):
                    h = F.lookup(i.a[1], f)
                    if h:
                        st.append(h.key)
                for a in i.a[2]:
                    while a.op == 'cast':
                        a = a.a[0]
                    if a.op == 'fn':
                        h = F.lookup(a.a[0], f)
                        if h:
                            st.append(h.key)
        s.collector = seen - {'fatal_error', 'gc_message'}
        s.decls = prims.collect()
        s.pkinds = prims.param_kinds(s.decls)
        s.shapes = {}
        for d in s.decls:
            if d.shapes is not None:
                s.shapes.setdefault(d.cname, d.shapes)
        s.helpers = cflow.internal_helpers(F) - s.collector
        s.ccalled = set()
        for k, f in P.fns.items():
            for i in F.calls[k]:
                if isinstance(i.a[1], str):
                    h = F.lookup(i.a[1], f)
                    if h:
                        s.ccalled.add(h.key)
        s._bar = {}
        s.rawst = {}
        s.unsafe = {}       # key -> {param index: line}
        s.rawalloc = {}     # key -> (size: int | ('p',i) | ('p',i,..) , tag likewise, region)
        s.retsum = {}       # key -> AV in terms of H / ('HP',i)
        s.reports = {}
        s.stats = dict(functions=0, gc_calls=0, ptr_uses=0, heap_stores=0, frames=0, objects=0, barriers=0, returns=0, catch_points=0)
        s.sites = []

    def signal_noreturn(s):
        """A signal taken inside a blocking section runs the code in signal_handler through callback.  When the
        only code ever stored there is raise_break_exn (GETGLOBAL n; RAISE) that call never returns normally."""
        P, F = s.P, s.F
        ok = 'execute_signal' in P.fns and 'signal_handler#g' in P.globals
        vals = []
        for f in P.fns.values():
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == 'signal_handler#g':
                        vals.append(show(i.a[1]))
        code = P.globals.get('byte_raise_break_exn#g:interp.c', {}).get('init')
        rng = []
        for f in P.fns.values():
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == 'raise_break_exn#g':
                        rng.append(i)
        ok = ok and vals and set(vals) == {'raise_break_exn'} and code and len(code) == 6 \
            and code[0] == P.enums.get('GETGLOBAL') and code[5] == P.enums.get('RAISE') and rng
        s.signal_ok = bool(ok)
        if ok:
            F.site_noreturn.add(('execute_signal', 'callback'))

    def pinned_globals(s):
        """value variables that are only ever given blocks of the major heap (which never move): every assignment is
        from a block of alloc_shr or the unmarshaller, or follows a minor collection with no allocation in between.
        They are registered roots or reachable from the ML side, so the block they denote stays alive."""
        P, F = s.P, s.F
        r = set()
        for u, g in P.globals.items():
            if strip_quals(g['ty']) != 'value':
                continue
            defs = [(f, b, n) for f in P.fns.values() for b in f.blocks.values() for n, i in enumerate(b.ins)
                    if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == u]
            if defs and all(s.major_def(f, b, n) for f, b, n in defs):
                r.add(u)
        return r

    def major_def(s, f, b, n):
        e = b.ins[n].a[1]
        if fold(e) is not None:
            return True
        # preceded in its block by minor_collection() with no other call in between
        for i in reversed(b.ins[:n]):
            if i.op == 'call':
                if i.a[1] == 'minor_collection':
                    return True
                break
        if e.op == 'load' and e.a[0].kind == 'var':
            v = e.a[0].a[0]
            src = [i for bb in f.blocks.values() for i in bb.ins if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == v]
            cal = [i for bb in f.blocks.values() for i in bb.ins if i.op == 'call' and i.a[0] == v]
            if not src and cal and v not in f.addr_taken and v not in {p for p, _ in f.params}:
                return all(i.a[1] in ('alloc_shr', 'intern_val') for i in cal)
            if len(src) == 1 and not cal and v.startswith('%') is False and v not in f.addr_taken:
                x = src[0].a[1]
                if x.op == 'load' and x.a[0].kind == 'var':
                    w = x.a[0].a[0]
                    cal = [i for bb in f.blocks.values() for i in bb.ins if i.op == 'call' and i.a[0] == w]
                    return bool(cal) and all(i.a[1] in ('alloc_shr', 'intern_val') for i in cal)
        return False

    def prim_names(s):
        r = set()
        for g in s.P.globals.values():
            if g['name'] == 'cprim' and g['init']:
                for x in g['init']:
                    if isinstance(x, tuple) and x[0] == 'fn':
                        r.add(x[1])
        if len(r) < 100:
            raise AnalysisError('primitive table not found (%d entries)' % len(r))
        return r

    def report(s, prop, f, line, msg, file=None):
        k = (prop, file or f.file, line, msg)
        if k not in s.reports:
            s.reports[k] = f.name

    # ---- driver --------------------------------------------------------------------------------
    def run(s):
        P, F = s.P, s.F
        todo = [k for k in P.fns if k not in s.helpers and k not in s.collector]
        bodies = {}
        for k in todo:
            bodies[k] = s.prepare(P.fns[k])
        # summaries to a fixpoint (return values, raw allocators, unsafe params)
        for rnd in range(8):
            before = (dict(s.retsum), {a: dict(b) for a, b in s.unsafe.items()}, dict(s.rawalloc), {a: dict(b) for a, b in s.rawst.items()})
            s.reports = {}
            for kk in s.stats:
                s.stats[kk] = 0
            s._bar = {}
            s.sites = []
            for k in todo:
                s.analyse(k, bodies[k])
            if (s.retsum, s.unsafe, s.rawalloc, s.rawst) == before:
                break
        else:
            raise AnalysisError('summaries do not converge')
        return s.reports

    def prepare(s, f):
        F = s.F
        g = cflow.clone(f)
        s.resolve_unseq(g, f)
        g = cflow.inline(s.prep_view(), g, lambda k: k in s.helpers)
        cflow.cut_noreturn(F, g)
        g = cflow.copyprop(g)
        g = cflow.unroll(g)
        g = cflow.copyprop(g)
        cflow.localprop(g)
        s.postinc(g)
        return g

    def prep_view(s):
        return s.F

    def resolve_unseq(s, g, f):
        for key in [f.key]:
            pass
        for b in g.blocks.values():
            b.ins = [x for i in b.ins for x in s._unseq(i, f)]

    def _unseq(s, i, f):
        if i.op != 'unseq':
            return [i]
        calls = i.a[2]
        r = []
        if any(s.F.call_reaches(c, f, s.gc, GC_BASES) for c in calls):
            r.append(I('stale', (i.a[0],), i.line, i.file))
        return r

    def postinc(s, g):
        """%t = i; i = %t + 1; ...%t...   ->  uses of %t become (i - 1) while i is not reassigned"""
        for b in g.blocks.values():
            env = {}
            al = {}
            out = []
            for i in b.ins + [b.term]:
                def sub(x):
                    if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in env:
                        v, d, ty = env[x.a[0].a[0]]
                        return E('bin', ('-', E('load', (LV('var', (v,), ty),), ty), E('const', (d,), ty)), ty)
                ni = cflow.map_ins(i, sub) if env else i
                if i.op == 'set' and i.a[0].kind == 'var':
                    u = i.a[0].a[0]
                    e = i.a[1]
                    if u.startswith('%') and e.op == 'load' and e.a[0].kind == 'var' and not e.a[0].a[0].startswith('%') and not is_ptr_ty(e.dty):
                        al[u] = e.a[0].a[0]
                        out.append(i)
                        continue
                    hit = None
                    if e.op == 'bin' and e.a[0] == '+' and e.a[1].op == 'load' and e.a[1].a[0].kind == 'var' and al.get(e.a[1].a[0].a[0]) == u and fold(e.a[2]) is not None:
                        hit = (e.a[1].a[0].a[0], fold(e.a[2]))
                    for t in [t for t, (v, d, ty) in env.items() if v == u]:
                        del env[t]
                    al = {t: v for t, v in al.items() if v != u}
                    if hit:
                        env[hit[0]] = (u, hit[1], i.a[0].ty)
                        out.append(i)
                        continue
                out.append(ni)
            b.ins, b.term = out[:-1], out[-1]

    # ---- one function ----------------------------------------------------------------------------
    def analyse(s, k, g):
        s.f = s.P.fns[k]
        s.g = g
        s.key = k
        s.isprim = s.f.name in s.prims
        s.live = cflow.liveness(g)
        s.rets = []
        s.retraw = []
        st = State()
        s.pidx = {}
        s.immf = {}
        for n, (u, ty) in enumerate(s.f.params):
            s.pidx[u] = n
            kd = s.pkinds.get(s.f.name, [])
            sh = s.shapes.get(s.f.name, [])
            if n < len(sh) and sh[n][0] == 'tuple' and len(sh) == len(s.f.params):
                rt = s.P.resolve(ty)
                rec = s.P.records.get(strip_quals(rt.rstrip('* '))) or s.P.records.get(strip_quals(rt.rstrip('* ')).replace('struct ', ''))
                if rec and len(rec) == len(sh[n][1]):
                    for (fn_, fty, _), q in zip(rec, sh[n][1]):
                        if q == ('imm',):
                            s.immf[fn_] = 'imm'
                        elif q == ('vec', ('imm',)):
                            s.immf[fn_] = 'vec'
            if strip_quals(ty) == 'value':
                st.v[u] = N if len(kd) == len(s.f.params) and kd[n] == 'imm' and s.isprim_any() else H
            elif is_ptr_ty(s.P.resolve(ty)) and not s.foreign(ty, ty):
                st.v[u] = frozenset([('HP', n)])
            else:
                st.v[u] = N
        s.stackvars = set()
        s.hassetjmp = any(i.op == 'call' and i.a[1] in ('_setjmp', 'setjmp', '__sigsetjmp') for b in g.blocks.values() for i in b.ins)
        # local copies of the ML stack pointer that are pushed through
        for b in g.blocks.values():
            for i in b.ins:
                if i.op == 'set' and i.a[0].kind == 'var' and '#g' not in i.a[0].a[0] and i.a[1].op == 'load' and showlv(i.a[1].a[0]) == 'extern_sp' and not i.a[0].a[0].startswith('%'):
                    s.stackvars.add(i.a[0].a[0])
        pushed = set()
        for b in g.blocks.values():
            for i in b.ins:
                if i.op == 'set' and i.a[0].kind == 'mem':
                    p = i.a[0].a[0]
                    while p.op in ('padd', 'cast'):
                        p = p.a[0]
                    if p.op == 'load' and p.a[0].kind == 'var':
                        pushed.add(p.a[0].a[0])
        s.stackvars &= pushed
        s.loops = s.find_loops(g)
        s.lsts = set()
        while True:
            known = set(s.lsts)
            inst = s.fixpoint(k, g, st.copy())
            if s.lsts == known:
                break
        order = {b: n for n, b in enumerate(g.order())}
        # reporting pass
        s.collecting = True
        s.stats['functions'] += 1
        for b in order:
            if b in inst:
                s.transfer(b, inst[b].copy())
        s.collecting = False
        s.summarise(k)

    def isprim_any(s):
        """only entered from ML: never called by other C code"""
        return s.key not in s.ccalled

    def fixpoint(s, k, g, st):
        inst = {g.entry: st}
        s.rets, s.retraw = [], []
        order = {b: n for n, b in enumerate(g.order())}
        disp = None
        s.collecting = False
        n = 0
        import heapq
        heap = [(0, g.entry)]
        inq = {g.entry}
        s.dispatch_in = None
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            n += 1
            if n > 300 * (len(g.blocks) + 10):
                raise AnalysisError('dataflow does not converge in ' + k)
            outs = s.transfer(b, inst[b].copy())
            for nb, ns in outs:
                if (b, nb) in s.loops:
                    ns = ns.copy()
                    s.loop_exit((b, nb), ns)
                if nb == 'dispatch':
                    old = s.dispatch_in
                    m = ns if old is None else s.join(old, ns, None)
                    if old is not None and m.sig() == old.sig():
                        continue
                    s.dispatch_in = m
                    for x in g.labeladdr_blocks():
                        s.push(inst, x, m, heap, inq, order)
                else:
                    s.push(inst, nb, ns, heap, inq, order)
        return inst

    def push(s, inst, nb, ns, heap, inq, order):
        import heapq
        old = inst.get(nb)
        m = ns.copy() if old is None else s.join(old, ns, nb)
        lv = s.live.get(nb, set())
        # drop dead scalar temps
        at = s.g.addr_taken
        m.v = {u: x for u, x in m.v.items() if u in lv or u in at or '.' in u}
        if old is not None and m.sig() == old.sig():
            return
        inst[nb] = m
        if nb not in inq:
            inq.add(nb)
            heapq.heappush(heap, (order.get(nb, 0), nb))

    def join(s, a, b, blk):
        r = State()
        r.v = {u: merge(a.v.get(u, N), b.v.get(u, N)) for u in set(a.v) | set(b.v)}
        r.cells = {c: merge(a.cells.get(c, N), b.cells.get(c, N)) for c in set(a.cells) | set(b.cells)}
        r.chain = a.chain if a.chain == b.chain else ('~', )
        if a.chain == TOPCHAIN or b.chain == TOPCHAIN:
            r.chain = TOPCHAIN if a.chain == b.chain else ('~',)
        for o in set(a.objs) | set(b.objs):
            x, y = a.objs.get(o), b.objs.get(o)
            if x is None or y is None:
                r.objs[o] = (x or y).copy()
                continue
            q = x.copy()
            if sizestr(x.size) != sizestr(y.size):
                q.size = '?'
            if sizestr(x.tag) != sizestr(y.tag):
                q.tag = '?'
            if x.init == 'ALL':
                q.init = y.init
            elif y.init == 'ALL':
                q.init = x.init
            else:
                q.init = x.init & y.init
            q.pv = {}
            for w in set(x.pv) | set(y.pv):
                if w in x.pv and w in y.pv:
                    q.pv[w] = max(x.pv[w], y.pv[w])
                elif w in x.pv and y.init == 'ALL':
                    q.pv[w] = x.pv[w]
                elif w in y.pv and x.init == 'ALL':
                    q.pv[w] = y.pv[w]
            if x.region != y.region:
                q.region = 'shrold' if {x.region, y.region} == {'shr', 'shrold'} else 'old' if {'old', 'shrold'} & {x.region, y.region} else 'either'
            q.short = x.short or y.short
            r.objs[o] = q
        r.sync = {u: d for u, d in a.sync.items() if b.sync.get(u) == d}
        r.er = a.er if a.er == b.er else '~'
        r.ny = a.ny and b.ny
        return r

    # ---- loops that cover 0..n-1 ------------------------------------------------------------------
    def find_loops(s, g):
        """natural loops as {edge leaving the loop: sites of variable-index stores inside}; cached per body"""
        preds = {}
        dom = {}
        order = g.order()
        succ = {b: [x for x in g.blocks[b].succs(g)] for b in order}
        if any(t.op == 'igoto' for t in (g.blocks[b].term for b in order)):
            succ = {b: ([] if g.blocks[b].term.op == 'igoto' else succ[b]) for b in order}
            labs = set(g.labeladdr_blocks())
        else:
            labs = set()
        for b in order:
            for x in succ[b]:
                preds.setdefault(x, []).append(b)
        # back edges by DFS per root
        color = {}
        back = []
        for root in [g.entry] + sorted(labs):
            if color.get(root):
                continue
            st = [(root, iter(succ.get(root, [])))]
            color[root] = 1
            while st:
                b, it = st[-1]
                for x in it:
                    if color.get(x) == 1:
                        back.append((b, x))
                    elif not color.get(x):
                        color[x] = 1
                        st.append((x, iter(succ.get(x, []))))
                        break
                else:
                    color[b] = 2
                    st.pop()
        r = {}
        for t, h in back:
            body = {h}
            w = [t]
            while w:
                b = w.pop()
                if b in body:
                    continue
                body.add(b)
                w += preds.get(b, [])
            for b in body:
                for x in succ[b]:
                    if x not in body:
                        r[(b, x)] = r.get((b, x), frozenset()) | body
        return r

    def loop_exit(s, edge, st):
        """leaving a loop that stores into a block of computed size through a varying index fills it"""
        body = s.loops[edge]
        for site, o in st.objs.items():
            if any((site, b) in s.lsts for b in body) and not isinstance(o.size, int) and not o.short:
                o.init = 'ALL'

    # ---- expression evaluation ---------------------------------------------------------------------
    def arrcell(s, p):
        """(array uid, const index) for address expressions into a local array"""
        off = 0
        while True:
            if p.op == 'cast':
                p = p.a[0]
            elif p.op == 'padd':
                c = fold(p.a[1])
                if c is None:
                    q = p.a[0]
                    while q.op in ('padd', 'cast'):
                        q = q.a[0]
                    if q.op == 'addr' and q.a[0].kind == 'var':
                        return (q.a[0].a[0], None)
                    return None
                off += c
                p = p.a[0]
            elif p.op == 'addr' and p.a[0].kind == 'var':
                return (p.a[0].a[0], off)
            else:
                return None

    def ev(s, e, st):
        op = e.op
        if op in ('const', 'str', 'flt', 'fn', 'lab'):
            return N
        if op == 'load':
            return s.evload(e.a[0], e, st)
        if op == 'addr':
            return s.evaddr(e.a[0], st)
        if op == 'cast':
            w = width(s.P.resolve(e.dty))
            x = s.ev(e.a[0], st)
            if w and w[0] < 64:
                return N
            if x and s.foreign(e.ty, e.dty):
                return frozenset(t for t in x if t[0] not in ('H', 'F', 'HP', 'S', 'SP'))
            return x
        if op == 'un':
            return N
        if op == 'pdiff':
            return N
        if op == 'padd':
            return s.ev(e.a[0], st)
        if op == 'bin':
            o = e.a[0]
            if o in ('+', '-', '|', '^', '&'):
                w = width(s.P.resolve(e.dty))
                if w and w[0] < 64:
                    return N
                a, b = s.ev(e.a[1], st), s.ev(e.a[2], st)
                if o == '&':
                    c = fold(e.a[2])
                    if c is None:
                        c = fold(e.a[1])
                    if c is not None and 0 <= c < 4096:
                        return N
                if o == '|' and 1 in (fold(e.a[1]), fold(e.a[2])):
                    return N
                if o == '-' and a and b:
                    return N
                return frozenset(t for t in a | b if t[0] not in ('X',))
            return N
        raise AnalysisError('ev ' + op)

    def foreign(s, ty, dty):
        """pointer types that denote C objects outside the ML heap when a word is cast to them"""
        k = (ty, dty)
        r = s._foreign.get(k)
        if r is None:
            r = s._foreign[k] = s._foreign1(ty, dty)
        return r

    _foreign = {}

    def _foreign1(s, ty, dty):
        t = s.P.resolve(ty)
        if '(' in t or strip_quals(ty) in CODE_TYPES:
            return True
        if not t.endswith('*'):
            return False
        pt = strip_quals(t[:-1])
        if pt == 'value':
            return False
        q = s.P.resolve(pt)
        if pt in CODE_TYPES or pt == 'final_fun':
            return False
        if q.endswith('*') or '(' in q:
            return True
        key = q[7:] if q.startswith('struct ') else q
        if q.startswith(('struct ', 'union ')) or q in s.P.records:
            fs = s.P.records.get(q) or s.P.records.get(key)
            return not (fs and all(strip_quals(ft) == 'value' or strip_quals(ft) == 'char *' for _, ft, _ in fs))
        return False

    def evload(s, l, e, st):
        if l.kind == 'var':
            u = l.a[0]
            nm = u.split('#')[0]
            if '#g' in u or '#s' in u:
                if nm == 'c_roots_head':
                    return frozenset([('X', st.chain)])
                if nm in STACK_PTRS:
                    return K
                if nm == 'external_raise':
                    return frozenset([('ER', st.er)])
                if nm == 'young_ptr':
                    return frozenset([('Y',)])
                if strip_quals(l.ty) == 'value':
                    return frozenset([('M',)]) if u in s.pinned else H
                return N
            return st.v.get(u, N)
        if l.kind == 'mem':
            p = l.a[0]
            c = s.arrcell(p)
            if c is not None:
                if c[1] is not None:
                    r = st.cells.get(c, N) | st.cells.get((c[0], None), N)
                    return r
                r = N
                for k2, x in st.cells.items():
                    if k2[0] == c[0]:
                        r |= x
                return frozenset(t for t in r if t[0] != 'X')
            if s.immf:
                q = p
                while q.op in ('padd', 'cast'):
                    q = q.a[0]
                if q.op == 'load' and q.a[0].kind == 'fld' and s.immf.get(q.a[0].a[1]) == 'vec':
                    return N
            base = s.ev(p, st)
            # frame link through c_roots_head
            for t in base:
                if t[0] == 'X' and t[1] and t[1] != TOPCHAIN and t[1][-1] != '~':
                    arr, k = t[1][-1]
                    off = 0
                    q = p
                    while q.op in ('padd', 'cast'):
                        if q.op == 'padd':
                            off += fold(q.a[1]) or 0
                        q = q.a[0]
                    return st.cells.get((arr, k + off), N)
            return s.memkind(base, l, p)
        # fld
        r = l.root()
        if strip_quals(l.ty) == 'value':
            if r.kind == 'mem' and s.immf.get(l.a[1]) == 'imm':
                return N
            if r.kind == 'var' and '#g' not in r.a[0]:
                return st.v.get(s.fldkey(l), N)
            return H
        if is_ptr_ty(strip_quals(l.dty or l.ty)) and r.kind == 'var' and '#g' not in r.a[0]:
            return st.v.get(s.fldkey(l), N)
        return N

    def fldkey(s, l):
        p = []
        while l.kind == 'fld':
            p.append(str(l.a[1]))
            l = l.a[0]
        return l.a[0] + '.' + '.'.join(p)

    def memkind(s, base, l, p):
        if strip_quals(l.ty) == 'value':
            return H
        if s.P.resolve(l.ty) in ('long',) and any(t[0] in ('H', 'F') for t in base):
            return H
        return N

    def evaddr(s, l, st):
        r = l.root()
        if r.kind == 'mem':
            return s.ev(r.a[0], st)
        if r.kind == 'var' and r.a[0].split('#')[0] == 'first_atoms':
            return N
        return N

    # ---- uses ---------------------------------------------------------------------------------------
    def stale(s, av):
        return [t for t in av if t[0] in ('S', 'SP', 'KS')]

    def bad(s, av, what, line, st, e=None):
        for t in s.stale(av):
            if t[0] == 'S':
                s.rep('M01', line, '%s uses a heap pointer read before the possible collection at line %d' % (what, t[1]))
            elif t[0] == 'KS':
                s.rep('M01', line, '%s uses an ML-stack pointer read before the stack may have been moved at line %d' % (what, t[1]))
            else:
                s.unsafe.setdefault(s.key, {}).setdefault(t[1], line)

    def rep(s, prop, line, msg):
        if s.collecting:
            s.report(prop, s.f, line, msg, s.curfile)

    def checkderef(s, e, st, line):
        def w(x):
            if x.op == 'load' and x.a[0].root().kind == 'mem':
                p = x.a[0].root().a[0]
                if s.collecting:
                    s.stats['ptr_uses'] += 1
                if s.arrcell(p) is None:
                    s.bad(s.ev(p, st), 'reading %s' % show(x), line, st)
        walk_e(e, w)

    # ---- transfer ------------------------------------------------------------------------------------
    def transfer(s, b, st):
        blk = s.g.blocks[b]
        s.curblk = b
        for n, i in enumerate(blk.ins):
            s.curidx = n
            s.curfile = i.file or s.f.file
            if i.op == 'stale':
                u = i.a[0]
                st.v[u] = s.mkstale(st.v.get(u, N), i.line)
                continue
            for e in ins_exprs(i):
                s.checkderef(e, st, i.line)
            if i.op == 'set':
                s.do_set(i, st)
            elif i.op == 'call':
                s.do_call(i, st)
        t = blk.term
        s.curfile = t.file or s.f.file
        if t.op == 'stop':
            return []
        for e in ins_exprs(t):
            s.checkderef(e, st, t.line)
        if t.op == 'ret':
            s.do_ret(t, st)
            return []
        if t.op == 'igoto':
            s.end_instr(st, t.line)
            return [('dispatch', st)]
        if t.op == 'br':
            a, c = st, st.copy()
            cond = t.a[0]
            s.refine(cond, True, a)
            s.refine(cond, False, c)
            return [(t.a[1], a), (t.a[2], c)]
        return [(x, st.copy()) for x in blk.succs(s.g)]

    def end_instr(s, st, line):
        """end of a bytecode instruction: registers hold complete blocks"""
        live = set()
        for b in s.g.labeladdr_blocks():
            live |= s.live[b]
        for u in list(st.v):
            if u not in live and u not in s.g.addr_taken:
                del st.v[u]
                continue
            fx = s.fresh(st.v[u], st)
            if fx:
                s.escape(st.v[u], st, line, 'left in register %s at the end of an instruction' % u.split('#')[0])
                st.v[u] = frozenset(('H',) if t[0] == 'F' else t for t in st.v[u])
        st.objs = {}

    def refine(s, c, truth, st):
        # setjmp result: nonzero edge
        e, want = c, truth
        while True:
            if e.op == 'un' and e.a[0] == '!':
                e, want = e.a[1], not want
            elif e.op == 'cast':
                e = e.a[0]
            elif e.op == 'bin' and e.a[0] in ('==', '!=') and fold(e.a[2]) == 0:
                want = want if e.a[0] == '!=' else not want
                e = e.a[1]
            else:
                break
        if e.op == 'load' and e.a[0].kind == 'var':
            for t in st.v.get(e.a[0].a[0], N):
                if t[0] == 'SJ':
                    if want:
                        s.collect(st, t[1], True)
                        st.chain = TOPCHAIN
                        st.er = 'own' if st.er == 'own' else 'jumped'
                        st.sync = {}
                        if s.collecting:
                            s.stats['catch_points'] += 1
                    st.v[e.a[0].a[0]] = N
                    return
        # Is_long / Is_block tests: value known immediate
        if e.op == 'bin' and e.a[0] == '&' and fold(e.a[2]) == 1 and want:
            x = e.a[1]
            while x.op == 'cast':
                x = x.a[0]
            if x.op == 'load' and x.a[0].kind == 'var':
                u = x.a[0].a[0]
                if u in st.v:
                    st.v[u] = N
        if c.op == 'bin' and c.a[0] in ('==', '!='):
            eq = (c.a[0] == '==') == truth
            x, y = c.a[1], c.a[2]
            if eq and x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in st.v and fold(y) is not None and fold(y) & 1:
                st.v[x.a[0].a[0]] = N
        # exit of an initialising loop: i >= n
        cc, tt = c, truth
        while cc.op in ('un', 'cast'):
            if cc.op == 'un':
                if cc.a[0] != '!':
                    break
                tt = not tt
                cc = cc.a[1]
            else:
                cc = cc.a[0]
        if cc.op == 'bin' and cc.a[0] in ('<', '>=', '>', '<=', '!=', '=='):
            op = cc.a[0]
            if not tt:
                op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '!=': '==', '==': '!='}[op]
            s.prefix_exit(cc.a[1], op, cc.a[2], st)
            s.prefix_exit(cc.a[2], {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!=', '==': '=='}[op], cc.a[1], st)

    def prefix_exit(s, x, op, n, st):
        """x op n holds; if x>=n and all indices < x - d are initialised then all < n - d are"""
        d0 = 0
        while x.op in ('cast', 'bin'):
            if x.op == 'cast':
                x = x.a[0]
            elif x.a[0] in ('+', '-') and fold(x.a[2]) is not None:
                d0 += fold(x.a[2]) if x.a[0] == '+' else -fold(x.a[2])
                x = x.a[1]
            else:
                return
        if x.op != 'load' or x.a[0].kind != 'var':
            return
        u = x.a[0].a[0]
        if op == '>=' or op == '==':
            slack = 0
        elif op == '>':
            slack = 1
        else:
            return
        # u + d0 >= n + slack; initialised: idx < u - pv   => idx < n + slack - d0 - pv
        nv = None
        y = n
        while y.op == 'cast':
            y = y.a[0]
        if y.op == 'load' and y.a[0].kind == 'var':
            nv = y.a[0].a[0]
        for o in st.objs.values():
            if u in o.pv and o.init != 'ALL' and nv is not None:
                k = -(slack - d0 - o.pv[u])
                if nv not in o.pv or o.pv[nv] > k:
                    o.pv[nv] = k
            if u in o.pv and o.init != 'ALL':
                extra = slack - d0 - o.pv[u]
                c = fold(n)
                if isinstance(o.size, int):
                    if c is not None and c + extra >= o.size:
                        o.init = 'ALL'
                elif not isinstance(o.size, str):
                    if norm(n) == norm(o.size):
                        if extra >= 0:
                            o.init = 'ALL'
                        else:
                            o.short = True

    def mkstale(s, av, line, heap=True, stack=False):
        r = set()
        for t in av:
            if heap and t[0] == 'H':
                r.add(('S', line))
            elif heap and t[0] == 'F':
                r.add(('S', line))
            elif heap and t[0] == 'HP':
                r.add(('SP', t[1], line))
            elif stack and t[0] == 'K':
                r.add(('KS', line))
            else:
                r.add(t)
        return frozenset(r)

    def rooted(s, st, cell):
        if st.chain in (TOPCHAIN,):
            return True
        for fr in st.chain:
            if fr == '~':
                return True
            arr, k = fr
            if arr == cell[0] and (cell[1] is None or cell[1] < k):
                return True
        return False

    def collect(s, st, line, heap=True, stack=False):
        if heap:
            # a visible, not fully initialised block at a collection
            for c, av in st.cells.items():
                if s.rooted(st, c):
                    for t in av:
                        if t[0] == 'F' and t[1] in st.objs and not st.objs[t[1]].full():
                            s.rep('M04', line, 'a collection can happen while %s of the rooted block allocated at line %d are not initialised' % (st.objs[t[1]].missing(), t[2]))
            for o in st.objs.values():
                o.region = 'shrold' if o.region in ('shr', 'shrold') else 'old'
        st.ny = False
        st.v = {u: s.mkstale(av, line, heap, stack) if s.stalev(u) else av for u, av in st.v.items()}
        nc = {}
        for c, av in st.cells.items():
            if heap and s.rooted(st, c) or stack and not heap:
                nc[c] = av
            else:
                nc[c] = s.mkstale(av, line, heap, stack)
        st.cells = nc

    def stalev(s, u):
        return True

    def do_set(s, i, st):
        lv, e = i.a
        line = i.line
        av = s.ev(e, st)
        if lv.kind == 'var':
            u = lv.a[0]
            nm = u.split('#')[0]
            w = width(s.P.resolve(lv.dty or lv.ty))
            if w and w[0] < 64:
                av = N
            if '#g' in u or '#s' in u:
                s.set_global(u, nm, lv, e, av, st, line)
                return
            # chain of symbolic prefixes
            s.assign_counter(u, e, st)
            if u in s.stackvars or any(t[0] == 'K' for t in av):
                d = s.stackoff(e, st)
                st.sync.pop(u, None)
                if d is not None:
                    st.sync[u] = d
            else:
                st.sync.pop(u, None)
            st.v[u] = av
            return
        r = lv.root()
        if r.kind == 'mem':
            p = r.a[0]
            c = s.arrcell(p)
            if c is not None and lv.kind == 'mem':
                if c[1] is None:
                    st.cells[c] = st.cells.get(c, N) | av
                else:
                    x = fold(e)
                    if x is not None:
                        av = frozenset([('C', x)])
                    st.cells[c] = av
                return
            base = s.ev(p, st)
            s.bad(base, 'storing through %s' % show(p), line, st)
            s.bad(av, 'storing %s' % show(e), line, st)
            s.heap_store(lv, p, base, e, av, st, line)
            return
        # field of a local/global struct
        if '#g' in r.a[0] or '#s' in r.a[0]:
            if strip_quals(lv.ty) == 'value' or is_ptr_ty(lv.dty or lv.ty):
                s.bad(av, 'storing %s' % show(e), line, st)
        else:
            st.v[s.fldkey(lv)] = av

    def stackoff(s, e, st):
        """d such that e == extern_sp + d, when known"""
        d = 0
        while e.op in ('padd', 'cast'):
            if e.op == 'padd':
                c = fold(e.a[1])
                if c is None:
                    return None
                d += c
            e = e.a[0]
        if e.op == 'load' and e.a[0].kind == 'var':
            u = e.a[0].a[0]
            if u.split('#')[0] == 'extern_sp':
                return d
            if u in st.sync:
                return st.sync[u] + d
        return None

    def assign_counter(s, u, e, st):
        """maintain 'all indices < u - k are initialised' facts on assignment to u"""
        delta = None
        c = fold(e)
        if c is None:
            x, d = e, 0
            while True:
                if x.op == 'cast':
                    x = x.a[0]
                elif x.op == 'bin' and x.a[0] in ('+', '-') and fold(x.a[2]) is not None:
                    d += fold(x.a[2]) if x.a[0] == '+' else -fold(x.a[2])
                    x = x.a[1]
                else:
                    break
            if x.op == 'load' and x.a[0].kind == 'var':
                src = x.a[0].a[0]
                delta = (src, d)
        for o in st.objs.values():
            old = dict(o.pv)
            o.pv.pop(u, None)
            if not isinstance(o.size, (int, str)):
                used = []
                walk_e(o.size, lambda y: used.append(y.a[0].a[0]) if y.op == 'load' and y.a[0].kind == 'var' else None)
                if u in used:
                    o.size = '?'
            if c is not None:
                if o.init != 'ALL':
                    n = 0
                    while n in o.init and n < 1000:
                        n += 1
                    # all idx < n initialised; u = c: idx < u - (c-n)
                    o.pv[u] = c - n
            elif delta and delta[0] in old:
                k = old[delta[0]] + delta[1]
                if abs(k) <= 6:
                    o.pv[u] = k

    def set_global(s, u, nm, lv, e, av, st, line):
        if nm == 'c_roots_head':
            x = [t for t in av if t[0] == 'X']
            c = s.arrcell(e)
            if c is not None and c[1] is not None:
                arr, k = c
                cnt = [t[1] for t in st.cells.get((arr, k), N) if t[0] == 'C']
                link = [t[1] for t in st.cells.get((arr, k + 1), N) if t[0] == 'X']
                if s.collecting:
                    s.stats['frames'] += 1
                if cnt != [k]:
                    s.rep('M02', line, 'root frame %s: the count in slot %d is %s, not %d' % (arr.split('#')[0], k, cnt[0] if cnt else 'unknown', k))
                if len(link) != 1 or link[0] != st.chain:
                    s.rep('M02', line, 'root frame %s is registered without a link to the enclosing frame' % arr.split('#')[0])
                if st.chain != TOPCHAIN:
                    for j in range(k):
                        if (arr, j) not in st.cells and (arr, None) not in st.cells:
                            s.rep('M04', line, 'root slot %d of frame %s is registered uninitialised' % (j, arr.split('#')[0]))
                    st.chain = st.chain + ((arr, k),)
                return
            if len(x) == 1 and len(av) == 1:
                st.chain = x[0][1]
                return
            if fold(e) is not None and s.f.name in ('init_c_roots',) or fold(e) == 0:
                st.chain = ()
                return
            s.rep('M02', line, 'the chain of root frames is set to something that is neither a saved chain nor a new frame')
            st.chain = TOPCHAIN
            return
        if nm == 'external_raise':
            x = [t for t in av if t[0] == 'ER']
            if len(x) == 1 and len(av) == 1:
                st.er = x[0][1]
            elif e.op == 'addr' and '#l' in showroot(e.a[0]):
                st.er = 'own'
            else:
                st.er = '~'
            return
        if nm == 'extern_sp':
            d = s.stackoff(e, st)
            if d is None:
                # extern_sp = v
                x = e
                off = 0
                while x.op in ('padd', 'cast'):
                    off += (fold(x.a[1]) or 0) if x.op == 'padd' else 0
                    x = x.a[0]
                st.sync = {}
                if x.op == 'load' and x.a[0].kind == 'var' and '#g' not in x.a[0].a[0]:
                    st.sync[x.a[0].a[0]] = -off
            else:
                st.sync = {w: k - d for w, k in st.sync.items()}
            s.bad(av, 'storing %s in extern_sp' % show(e), line, st)
            return
        if nm == 'young_ptr':
            return
        s.bad(av, 'storing %s in %s' % (show(e), nm), line, st)
        s.escape(av, st, line, 'stored in %s' % nm)

    # ---- fresh blocks -----------------------------------------------------------------------------------
    def fresh(s, av, st):
        return [t for t in av if t[0] == 'F' and t[1] in st.objs]

    def escape(s, av, st, line, how):
        for t in s.fresh(av, st):
            o = st.objs[t[1]]
            if not o.full():
                s.rep('M04', line, 'block allocated at line %d is %s while %s are not initialised' % (t[2], how, o.missing()))

    def field_index(s, p, base):
        """(index expr or const) of a pointer expression relative to the block start, in words"""
        q = p
        idx = 0
        var = None
        while q.op in ('padd', 'cast'):
            if q.op == 'padd':
                c = fold(q.a[1])
                if c is not None:
                    idx += c
                elif var is None:
                    var = q.a[1]
                else:
                    return None
            q = q.a[0]
        return idx, var

    def mark_init(s, st, base, p):
        fx = s.fresh(base, st)
        if not fx:
            return
        ix = s.field_index(p, base)
        for t in fx:
            o = st.objs[t[1]]
            if o.init == 'ALL' or ix is None:
                continue
            c, var = ix
            if not isinstance(o.size, int) or var is not None:
                s.lsts.add((t[1], s.curblk))
            if len(fx) > 1 or len(base) > 1:
                # weak: initialised only if all candidates are written; keep conservative unless single
                pass
            if var is None:
                o.init = o.init | {c}
                # extend prefixes
            else:
                x, d = var, c
                while True:
                    if x.op == 'cast':
                        x = x.a[0]
                    elif x.op == 'bin' and x.a[0] in ('+', '-') and fold(x.a[2]) is not None:
                        d += fold(x.a[2]) if x.a[0] == '+' else -fold(x.a[2])
                        x = x.a[1]
                    else:
                        break
                if x.op == 'load' and x.a[0].kind == 'var':
                    u = x.a[0].a[0]
                    # wrote index u+d; known: idx < u - pv
                    if u in o.pv and -o.pv[u] >= d:
                        o.pv[u] = min(o.pv[u], -(d + 1))

    def heap_store(s, lv, p, base, e, av, st, line):
        # header store through young_ptr: allocation
        if any(t[0] == 'Y' for t in base):
            st.ny = False
            hd = s.header(e)
            site = ('y', line, show(p))
            if hd is not None:
                o = Obj(hd[0], hd[1], 'young')
                st.objs[site] = o
                if s.collecting:
                    s.stats['objects'] += 1
                # all values derived from this young pointer now denote the block
                for u in list(st.v):
                    if any(t[0] == 'Y' for t in st.v[u]):
                        st.v[u] = frozenset([('F', site, line)])
            return
        heapish = [t for t in base if t[0] in ('H', 'F', 'HP', 'S')]
        isval = strip_quals(lv.ty) == 'value' and lv.kind == 'mem'
        if not heapish:
            if isval or av:
                s.escape(av, st, line, 'stored in memory')
            return
        fx = s.fresh(base, st)
        if isval and lv.kind == 'mem':
            if s.collecting:
                s.stats['heap_stores'] += 1
                s.sites.append((s.f.name, s.curfile, line))
            onlyfresh = all(t[0] == 'F' for t in heapish) and fx
            immediate = not any(t[0] in ('H', 'F', 'HP', 'Y') for t in av)
            if not immediate:
                if onlyfresh and all(st.objs[t[1]].region == 'young' for t in fx):
                    pass
                elif onlyfresh and all(st.objs[t[1]].region in ('young', 'shr') for t in fx) and st.ny:
                    pass        # right after a minor collection there is no young block to point to
                elif onlyfresh and all(t[0] == 'F' and t[1] in st.objs and st.objs[t[1]].region in ('shr', 'shrold') for t in av if t[0] in ('H', 'F', 'HP', 'Y')):
                    pass        # pointer between two blocks of the major heap
                elif s.barrier(p, e):
                    pass
                elif s.key in ('modify', 'initialize'):
                    s.rep('M03', line, 'the write barrier of %s does not record or darken in every case that needs it' % s.key)
                elif any(t[0] == 'HP' for t in heapish) and not any(t[0] in ('H', 'F') for t in heapish):
                    for t in heapish:
                        s.rawst.setdefault(s.key, {}).setdefault(t[1], line)
                else:
                    s.rep('M03', line, 'raw store of a possible heap pointer (%s) into %s' % (show(e), 'a block that may be in the major heap' if not onlyfresh else 'a block allocated in the major heap or before a collection'))
            s.escape_into(base, av, st, line)
        s.mark_init(st, base, p)

    # ---- the write barrier itself -----------------------------------------------------------------------
    def barrier(s, p, e):
        k = (s.key, s.curblk, s.curidx)
        if k not in s._bar:
            s._bar[k] = barrier_ok(s.g, s.curblk, s.curidx, s.key != 'initialize')
            s.stats['barriers'] += 1
        return s._bar[k]


    def escape_into(s, base, av, st, line):
        s.escape(av, st, line, 'stored in another block')

    def header(s, e):
        """(wosize, tag) of a Make_header expression"""
        c = fold(e)
        if c is not None:
            return c >> 10, c & 255
        parts = []

        def split(x):
            if x.op == 'cast':
                split(x.a[0])
            elif x.op == 'bin' and x.a[0] in ('+', '|'):
                split(x.a[1])
                split(x.a[2])
            else:
                parts.append(x)
        split(e)
        size, tag, k = None, None, 0
        for x in parts:
            if x.op == 'bin' and x.a[0] == '<<' and fold(x.a[2]) == 10:
                y = x.a[1]
                while y.op == 'cast':
                    y = y.a[0]
                size = y
            elif fold(x) is not None:
                k += fold(x)
            elif tag is None:
                tag = x
            else:
                return None
        if size is None and k >> 10:
            size = k >> 10
        elif size is not None and fold(size) is not None:
            size = fold(size)
        if size is None:
            return None
        if tag is None:
            return size, k & 255
        while tag.op == 'cast':
            tag = tag.a[0]
        return size, tag

    # ---- calls --------------------------------------------------------------------------------------------
    def do_call(s, i, st):
        dst, callee, args = i.a
        line = i.line
        f = s.f
        avs = [s.ev(a, st) for a in args]
        name = callee if isinstance(callee, str) else None
        if name is None:
            s.bad(s.ev(callee, st), 'calling through a pointer', line, st)
        tg, ext = s.F.targets(i, f)
        for n, (a, av) in enumerate(zip(args, avs)):
            if s.stale(av):
                w = width(s.P.resolve(a.dty))
                if not (w and w[0] < 64):
                    s.bad(av, 'passing %s to %s' % (show(a), name or 'a function pointer'), line, st)
        gc = bool(tg & s.gc) or bool(ext & GC_BASES)
        mv = bool(tg & s.move)
        # unsafe pointer parameters of the callee
        for t in tg:
            for n, ul in s.unsafe.get(t, {}).items():
                if n < len(avs):
                    for x in avs[n]:
                        if x[0] in ('H', 'F'):
                            s.rep('M01', line, 'passes the heap pointer %s to %s, which uses it after a possible collection (line %d)' % (show(args[n]), t, ul))
                        elif x[0] == 'HP':
                            s.unsafe.setdefault(s.key, {}).setdefault(x[1], line)
            for n, ul in s.rawst.get(t, {}).items():
                if n < len(avs):
                    for x in avs[n]:
                        o = st.objs.get(x[1]) if x[0] == 'F' else None
                        if o is not None and (o.region == 'young' or o.region == 'shr' and isinstance(o.tag, int) and o.tag >= NO_SCAN_TAG):
                            continue        # fresh young block, or an opaque fresh block whose words the callee rewrites in place
                        if x[0] in ('H', 'F'):
                            s.rep('M03', line, 'passes a pointer into a block that may be in the major heap to %s, which stores a possible heap pointer through it without the barrier (line %d)' % (t, ul))
                        elif x[0] == 'HP':
                            s.rawst.setdefault(s.key, {}).setdefault(x[1], line)
        res = N
        done = False
        if name in ('_setjmp', 'setjmp', '__sigsetjmp'):
            res = frozenset([('SJ', line)])
            done = True
        elif name in ('longjmp', '_longjmp'):
            pass
        if name == 'initialize' and len(args) == 2:
            s.barrier_store(args, avs, st, line, True)
        elif name == 'modify' and len(args) == 2:
            s.barrier_store(args, avs, st, line, False)
        else:
            s.call_args_escape(name, tg, ext, args, avs, st, line)
        if gc:
            if s.collecting:
                s.stats['gc_calls'] += 1
            s.check_sync(st, line, name)
            s.collect(st, line, True)
        elif tg & s.move:
            pass
        if mv:
            s.collect(st, line, False, True)
            st.sync = {}
        if tg and any(x in s.gc or x in s.move for x in tg):
            st.sync = {} if mv else st.sync
        if done:
            pass
        else:
            res = s.call_result(i, name, tg, args, avs, st, line)
        if name == 'minor_collection':
            st.ny = True
        elif tg & s.youngalloc:
            st.ny = False
        if dst:
            s.assign_counter(dst, E('flt', (0,), 'long'), st)
            st.v[dst] = res

    def call_args_escape(s, name, tg, ext, args, avs, st, line):
        for n, (a, av) in enumerate(zip(args, avs)):
            fx = s.fresh(av, st)
            if not fx:
                continue
            if name in ('memcpy', 'memmove', 'bcopy', 'memset', '__builtin_memcpy', '__builtin_memset', '__builtin_memmove', 'bzero'):
                dstn = 1 if name == 'bcopy' else 0
                if n == dstn:
                    for t in fx:
                        st.objs[t[1]].init = 'ALL'
                continue
            if ext and not tg:
                continue
            t = strip_quals(a.ty)
            if t == 'value':
                s.escape(av, st, line, 'passed to %s' % (name or 'a function'))

    def barrier_store(s, args, avs, st, line, init):
        base, val = avs
        if s.collecting:
            s.stats['heap_stores'] += 1
            s.sites.append((s.f.name, s.curfile, line))
        fx = s.fresh(base, st)
        if not init and fx and len(base) == 1:
            o = st.objs[fx[0][1]]
            ix = s.field_index(args[0], base)
            if not o.full() and ix is not None and o.region != 'young':
                ok = o.init == 'ALL' or (ix[1] is None and ix[0] in o.init)
                if ix[1] is not None:
                    x, d = ix[1], ix[0]
                    while x.op in ('cast', 'bin'):
                        if x.op == 'cast':
                            x = x.a[0]
                        elif x.a[0] in ('+', '-') and fold(x.a[2]) is not None:
                            d += fold(x.a[2]) if x.a[0] == '+' else -fold(x.a[2])
                            x = x.a[1]
                        else:
                            break
                    if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in o.pv and -o.pv[x.a[0].a[0]] > d:
                        ok = True
                if not ok:
                    s.rep('M04', line, 'modify reads the uninitialised old contents of a field of the block allocated at line %d' % fx[0][2])
        s.escape_into(base, val, st, line)
        s.mark_init(st, base, args[0])

    def call_result(s, i, name, tg, args, avs, st, line):
        rt = strip_quals(s.P.fns[next(iter(tg))].ret) if tg else None
        if name == 'alloc_shr' and len(args) == 2:
            site = ('c', i.id)
            st.objs[site] = Obj(s.frz(args[0]), s.frz(args[1]), 'shr')
            s.kill_site(st, site)
            if s.collecting:
                s.stats['objects'] += 1
            return frozenset([('F', site, line)])
        if len(tg) == 1:
            k = next(iter(tg))
            if k in s.rawalloc:
                sz, tagv, region = s.rawalloc[k]
                site = ('c', i.id)
                st.objs[site] = Obj(s.inst(sz, args), s.inst(tagv, args), region)
                s.kill_site(st, site)
                if s.collecting:
                    s.stats['objects'] += 1
                return frozenset([('F', site, line)])
        res = N
        if not tg:
            # libc: pointers into argument strings
            if name in ('strchr', 'strrchr', 'strstr', 'memchr', 'strcpy', 'strcat', 'strncpy', 'index', 'rindex', 'memcpy', 'memmove', 'strncat', 'strpbrk') and avs:
                return frozenset(t for t in avs[0] if t[0] in ('H', 'F', 'HP', 'S', 'SP'))
            return N
        for k in tg:
            sm = s.retsum.get(k)
            f = s.P.fns[k]
            if sm is None:
                if strip_quals(f.ret) == 'value' and k in s.collector:
                    res |= H
                elif strip_quals(f.ret) == 'value' and k in s.helpers:
                    res |= H
                continue
            for t in sm:
                if t[0] == 'HP':
                    if t[1] < len(avs):
                        res |= frozenset(x for x in avs[t[1]] if x[0] in ('H', 'F', 'HP'))
                        if k in s.gc and any(x[0] in ('H', 'F') for x in avs[t[1]]):
                            res |= H
                else:
                    res |= frozenset([t])
        return res

    def kill_site(s, st, site):
        for u in list(st.v):
            if any(t[0] == 'F' and t[1] == site for t in st.v[u]):
                st.v[u] = frozenset(('H',) if t[0] == 'F' and t[1] == site else t for t in st.v[u])
        for u in list(st.cells):
            if any(t[0] == 'F' and t[1] == site for t in st.cells[u]):
                st.cells[u] = frozenset(('H',) if t[0] == 'F' and t[1] == site else t for t in st.cells[u])

    def frz(s, e):
        c = fold(e)
        if c is not None:
            return c
        while e.op == 'cast':
            e = e.a[0]
        return e

    def inst(s, x, args):
        if isinstance(x, tuple):
            return s.frz(args[x[1]]) if x[1] < len(args) else '?'
        return x

    def check_sync(s, st, line, name):
        for u in s.stackvars:
            if st.v.get(u) and any(t[0] in ('K',) for t in st.v[u]):
                d = st.sync.get(u)
                if d != 0:
                    s.rep('M01', line, 'the ML stack pointer %s is not published in extern_sp before the possible collection in %s' % (u.split('#')[0], name))

    # ---- returns --------------------------------------------------------------------------------------------
    def do_ret(s, t, st):
        line = t.line
        e = t.a[0] if t.a else None
        if s.collecting:
            s.stats['returns'] += 1
        if st.chain != ():
            if st.chain == TOPCHAIN:
                s.rep('M02', line, 'returns from a catch point without restoring the chain of root frames')
            elif st.chain[-1:] == ('~',):
                s.rep('M02', line, 'returns with the chain of root frames different on different paths')
            else:
                s.rep('M02', line, 'returns with root frame %s still registered' % str(st.chain[-1][0]).split('#')[0])
        if st.er != 'entry' and s.f.name not in ('main',):
            s.rep('M02', line, 'returns without restoring the previous exception handler (external_raise)')
        for u in s.stackvars:
            if st.sync.get(u) not in (0,) and any(x[0] == 'K' for x in st.v.get(u, N)):
                s.rep('M02', line, 'returns without publishing the ML stack pointer %s in extern_sp' % u.split('#')[0])
        if e is not None:
            av = s.ev(e, st)
            w = width(s.P.resolve(s.f.ret)) if s.f.ret else None
            if w and w[0] < 64:
                av = N
            s.bad(av, 'returning %s' % show(e), line, st)
            # value computed before the frame was popped but read from a cell is fine
            s.rets.append(av)
            for x in s.fresh(av, st):
                o = st.objs[x[1]]
                if not o.full():
                    if s.isprim or s.f.name == 'interprete':
                        s.escape(frozenset([x]), st, line, 'returned to ML')
                    else:
                        s.retraw.append((x, o, line))

    def summarise(s, k):
        r = set()
        for av in s.rets:
            for t in av:
                if t[0] in ('H', 'F', 'S', 'Y'):
                    r.add(('H',))
                elif t[0] in ('HP', 'SP'):
                    r.add(('HP', t[1]))
                elif t[0] == 'K':
                    r.add(t)
        rt = strip_quals(s.f.ret)
        if rt not in ('value', 'valueptr') and not is_ptr_ty(s.P.resolve(rt)):
            r = {t for t in r if t[0] not in ('H', 'HP')}      # a C integer
        s.retsum[k] = frozenset(r)
        if s.retraw:
            ps = {u: n for n, (u, _) in enumerate(s.f.params)}

            def conv(x):
                if isinstance(x, int):
                    return x
                if isinstance(x, str):
                    return '?'
                if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in ps:
                    return ('p', ps[x.a[0].a[0]])
                return '?'
            sz = {conv(o.size) for _, o, _ in s.retraw}
            tg = {conv(o.tag) for _, o, _ in s.retraw}
            rg = {o.region for _, o, _ in s.retraw}
            s.rawalloc[k] = (sz.pop() if len(sz) == 1 else '?', tg.pop() if len(tg) == 1 else '?', rg.pop() if len(rg) == 1 else 'either')


def merge(a, b):
    if a == b:
        return a
    r = a | b
    if len(r) > 1:
        S = [t for t in r if t[0] in ('S', 'KS')]
        if len(S) > 1:
            for kind in ('S', 'KS'):
                q = sorted(t for t in S if t[0] == kind)
                r = r - frozenset(q[1:])
    return r


def showroot(l):
    r = l.root()
    return r.a[0] if r.kind == 'var' else ''


def norm(e):
    """normal form for comparing loop bounds with sizes"""
    while e.op == 'cast':
        e = e.a[0]
    return show_nocast(e)


def show_nocast(e):
    if e.op == 'cast':
        return show_nocast(e.a[0])
    if e.op == 'bin':
        return '(%s %s %s)' % (show_nocast(e.a[1]), e.a[0], show_nocast(e.a[2]))
    if e.op == 'load' and e.a[0].kind == 'var':
        return e.a[0].a[0]
    if e.op == 'load' and e.a[0].kind == 'mem':
        return '*' + show_nocast(e.a[0].a[0])
    if e.op == 'padd':
        return '(%s+p%s)' % (show_nocast(e.a[0]), show_nocast(e.a[1]))
    return show(e)


# ---- write barrier by cases ------------------------------------------------------------------------------
def _peel(e):
    while e.op == 'cast':
        e = e.a[0]
    return e


def _mentions(e):
    vs, gs, mem, fns = set(), set(), [], set()

    def w(x):
        if x.op == 'load':
            l = x.a[0]
            if l.kind == 'var':
                (gs if '#g' in l.a[0] else vs).add(l.a[0])
            else:
                mem.append(x)
    walk_e(e, w)
    return vs, gs, mem


def barrier_ok(g, blk, idx, need_dark, entry=False):
    """The store at g.blocks[blk].ins[idx] is `*p = v`.  True when, whatever the cases of
         in_heap(p), is_block(v), young(v), is_block(old), young(old), marking
    the code that follows records p in the remembered set when a major-heap field receives a young block it did not
    already hold, and darkens the overwritten value during marking (need_dark)."""
    import itertools
    ins = g.blocks[blk].ins[idx]
    p = _peel(ins.a[0].root().a[0])
    v = _peel(ins.a[1])
    if p.op != 'load' or p.a[0].kind != 'var' or v.op != 'load' or v.a[0].kind != 'var':
        return False
    pu, vu = p.a[0].a[0], v.a[0].a[0]
    # copies of the old contents
    old = set()
    for b in g.blocks.values():
        for i in b.ins:
            if i.op == 'set' and i.a[0].kind == 'var':
                e = _peel(i.a[1])
                if e.op == 'load' and e.a[0].kind == 'mem' and _peel(e.a[0].a[0]).op == 'load' and showlv(_peel(e.a[0].a[0]).a[0]) == showlv(p.a[0]):
                    if _peel(e.a[0].a[0]).a[0].a[0] == pu:
                        old.add(i.a[0].a[0])
    for i in g.blocks[blk].ins[idx + 1:]:
        if i.op == 'set' and i.a[0].kind == 'var':
            old.discard(i.a[0].a[0])
    names = ('heap', 'bv', 'yv', 'bo', 'yo', 'mark')
    doms = {'heap': (True, 'lo', 'hi', 'pt'), 'yv': (True, 'lo', 'hi'), 'yo': (True, 'lo', 'hi'), 'bv': (True, False), 'bo': (True, False), 'mark': (True, False)}
    if not need_dark:
        doms['bo'], doms['yo'] = (False,), ('lo',)

    def atom(e, A, tmp):
        """truth value of a condition under assignment A, or None"""
        x = e
        while x.op == 'cast':
            x = x.a[0]
        if x.op == 'un' and x.a[0] == '!':
            r = atom(x.a[1], A, tmp)
            return None if r is None else not r
        c = fold(x)
        if c is not None:
            return bool(c)
        if x.op == 'bin' and x.a[0] in ('&&', '||'):
            a, b = atom(x.a[1], A, tmp), atom(x.a[2], A, tmp)
            if a is None or b is None:
                return None
            return (a and b) if x.a[0] == '&&' else (a or b)
        vs, gs, mem = _mentions(x)
        gn = {q.split('#')[0] for q in gs}
        who = None
        if mem:
            return None
        if pu in vs:
            who = 'p'
        elif vu in vs:
            who = 'v'
        elif vs & old:
            who = 'o'
        elif len(vs) == 1 and next(iter(vs)) in tmp:
            r = tmp[next(iter(vs))]
            if x.op == 'bin' and x.a[0] == '!=' and fold(x.a[2]) == 1:
                return not r
            if x.op == 'bin' and x.a[0] in ('==', '!=') and fold(x.a[2]) == 0:
                return r == (x.a[0] == '!=')
            return r
        if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in tmp:
            return tmp[x.a[0].a[0]]
        if x.op == 'bin' and x.a[0] in ('==', '!=') and gn == {'gc_phase'} and not vs:
            k = fold(x.a[2]) if fold(x.a[2]) is not None else fold(x.a[1])
            if k == 0:                     # Phase_mark
                return A['mark'] == (x.a[0] == '==')
            return None
        if x.op == 'bin' and x.a[0] in ('!=', '==') and (fold(x.a[2]) == 0):
            r = atom(x.a[1], A, tmp)
            return None if r is None else (r if x.a[0] == '!=' else not r)
        if who is None:
            return None
        if not gn:
            if x.op == 'bin' and x.a[0] == '&' and 1 in (fold(x.a[1]), fold(x.a[2])):
                if who in 'vo':
                    return not A['b' + who]
            if x.op == 'bin' and x.a[0] in ('==', '!=') and x.a[1].op != 'const':
                y = _peel(x.a[1])
                if y.op == 'bin' and y.a[0] == '&' and 1 in (fold(y.a[1]), fold(y.a[2])) and fold(x.a[2]) in (0, 1) and who in 'vo':
                    isimm = not A['b' + who]
                    eq = isimm == bool(fold(x.a[2]))
                    return eq == (x.a[0] == '==')
            return None
        if x.op == 'bin' and x.a[0] in ('<', '<=', '>', '>='):
            op, l, r = x.a
            lv_, _, _ = _mentions(l)
            if not lv_ & ({pu, vu} | old):
                op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
            lowcmp = bool(gn & {'young_start', 'heap_start'})
            val = A['heap'] if who == 'p' else A['y' + who]
            if gn & {'young_start', 'young_end'} and who == 'p' or gn & {'heap_start', 'heap_end'} and who != 'p':
                return None
            inr = val != ('lo' if lowcmp else 'hi')
            sense = (op in ('>', '>=')) == lowcmp
            return inr if sense else not inr
        return None

    for combo in itertools.product(*[doms[n] for n in names]):
        A = dict(zip(names, combo))
        must_ref = A['heap'] is True and A['bv'] and A['yv'] is True and not (A['bo'] and A['yo'] is True)
        must_dark = need_dark and A['heap'] is True and A['mark'] and A['bo'] and A['yo'] is not True
        if not (must_ref or must_dark):
            continue
        # walk; unknown conditions fork
        work = [(blk, idx + 1, False, False, ())]
        seen = set()
        while work:
            b, n, ref, dark, tmp = work.pop()
            if (b, n, ref, dark, tmp) in seen:
                continue
            seen.add((b, n, ref, dark, tmp))
            if len(seen) > 4000:
                return False
            td = dict(tmp)
            bb = g.blocks[b]
            dead = False
            for i in bb.ins[n:]:
                if i.op == 'set':
                    lv = i.a[0]
                    if lv.root().kind == 'mem':
                        q = _peel(lv.root().a[0])
                        vs, gs, _ = _mentions(q)
                        src = _peel(i.a[1])
                        if src.op == 'load' and src.a[0].kind == 'var' and src.a[0].a[0] == pu:
                            if any(x.split('#')[0] == 'ref_table_ptr' for x in gs) or any(refptr(g, x) for x in vs):
                                ref = True
                    elif lv.kind == 'var':
                        if lv.a[0] in (pu, vu) or lv.a[0] in old and not lv.a[0].startswith('%'):
                            dead = True
                            break
                        r = atom(i.a[1], A, td)
                        if r is None:
                            td.pop(lv.a[0], None)
                        else:
                            td[lv.a[0]] = r
                elif i.op == 'call':
                    if i.a[1] == 'darken' and i.a[2]:
                        x = _peel(i.a[2][0])
                        if x.op == 'load' and x.a[0].kind == 'var' and x.a[0].a[0] in old:
                            dark = True
                    elif isinstance(i.a[1], str) and i.a[1].startswith('p_table_in_heap') or i.a[1] == 'p_table_in_heap':
                        if i.a[0]:
                            td[i.a[0]] = A['heap'] is True
            t = bb.term
            if ref >= must_ref and dark >= must_dark:
                continue
            if dead or t.op in ('ret', 'igoto'):
                return False
            if t.op == 'stop':
                continue
            if t.op == 'br':
                r = atom(t.a[0], A, td)
                nx = [t.a[1], t.a[2]] if r is None else [t.a[1] if r else t.a[2]]
            else:
                nx = list(bb.succs(g))
            for x in nx:
                work.append((x, 0, ref, dark, tuple(sorted(td.items()))))
    return True


def refptr(g, u):
    """a temporary holding the remembered-set pointer"""
    for b in g.blocks.values():
        for i in b.ins:
            if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] == u:
                e = _peel(i.a[1])
                if e.op == 'load' and e.a[0].kind == 'var' and e.a[0].a[0].split('#')[0] == 'ref_table_ptr':
                    return True
    return False
