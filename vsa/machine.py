"""The bytecode interpreter as a state transformer: roles of its registers, and value numbering of instruction sequences."""
from . import vn, cir
from .vn import K, sym, add, lin, rng, mk
from .cbuild import AnalysisError


class Machine:
    """interprete() in one configuration.  threaded: code is words, labels absolute; otherwise bytes, labels relative."""

    def __init__(s, P, threaded=True):
        s.P, s.threaded = P, threaded
        if 'interprete' not in P.fns:
            raise AnalysisError('no function interprete')
        s.f = f = P.fns['interprete']
        en = [v for k, v in P.enumdecls.items() if any(n == 'CHECK_SIGNALS' or n == 'PUSH_RETADDR' for n, _ in v)]
        if not en:
            en = [list((n, v) for n, v in P.enums.items())]
        s.enum = [(n, v) for n, v in en[0]]
        tabs = [g for g in P.globals.values() if g['init'] and isinstance(g['init'], list) and sum(1 for x in g['init'] if getattr(x, 'op', '') == 'lab') > 100]
        if len(tabs) != 1:
            raise AnalysisError('interpreter jump table not found')
        s.table = [x.a[0] if getattr(x, 'op', '') == 'lab' else None for x in tabs[0]['init']]
        s.tabfile, s.tabline = tabs[0]['file'], tabs[0]['line']
        s.tabuid = [u for u, g in P.globals.items() if g is tabs[0]][0]
        s.label = {}
        for n, v in s.enum:
            if 0 <= v < len(s.table) and s.table[v]:
                s.label[n] = s.table[v]
        s.ops = [n for n, v in s.enum if n in s.label]
        if len(s.ops) < 150:
            raise AnalysisError('only %d opcodes found' % len(s.ops))
        a = [u for u in P.globals if u.split('#')[0] == 'first_atoms']
        s.atoms = ('addr', a[0] if a else 'first_atoms#g')
        s.roles()

    def block(s, op):
        return s.f.labels[s.label[op]]

    def line(s, op):
        b = s.f.blocks[s.block(op)]
        return b.ins[0].line if b.ins else (b.term.line or 0)

    def base(s, uid):
        return uid

    def roles(s):
        f = s.f

        def setsof(op):
            out = []
            for i in f.blocks[s.block(op)].ins:
                if i.op == 'set' and i.a[0].kind == 'var':
                    out.append(i)
            return out

        # pc: the variable whose old value an indirect jump reads the next instruction through
        cand = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'set' and i.a[0].kind == 'var' and i.a[1].op == 'padd' and i.a[1].a[1].op == 'const' and b.term and b.term.op == 'igoto':
                    cand[i.a[0].a[0]] = cand.get(i.a[0].a[0], 0) + 1
        if not cand:
            raise AnalysisError('program counter of the interpreter not found')
        s.pc = max(cand, key=lambda k: cand[k])
        vs = [u for u in f.vars if not f.vars[u][0].startswith('%') and u not in f.addr_taken]

        def run1(op):
            st = vn.St()
            V = vn.VN(s.P, f, oracle=lambda st, a, z, g: ('code', a) if any(t[0] == 'sym' and t[1] == f.vars[s.pc][0] for t in lin(a)[1]) else None)
            r = V.run(st, s.block(op), lambda v, st: ('next', v))
            if len(r) != 1:
                raise AnalysisError('unexpected paths in the handler of %s' % op)
            return r[0][1]
        st = run1('ACC0')
        hit = [(u, v) for u, v in st.v.items() if u in vs and u != s.pc and v[0] == 'ld' and v[3][0] == 'sym']
        if len(hit) != 1:
            raise AnalysisError('accumulator and stack pointer not found')
        s.accu = hit[0][0]
        byname = {f.vars[u][0]: u for u in vs if f.vars[u][0] == hit[0][1][3][1]}
        s.sp = byname[hit[0][1][3][1]]
        st = run1('ENV1')
        v = st.v[s.accu]
        nm = [t[1] for t in lin(v[3])[1] if t[0] == 'sym']
        s.env = [u for u in vs if f.vars[u][0] == nm[0]][0]
        # extra_args: the only variable APPLY assigns from its operand
        b = f.blocks[s.block('APPLY')]
        st = vn.St()
        V = vn.VN(s.P, f)
        hit = [i.a[0].a[0] for i in b.ins if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] in vs and i.a[0].a[0] not in (s.pc, s.sp, s.accu, s.env)]
        hit = [h for h in dict.fromkeys(hit) if cir.width(s.P.resolve(f.vars[h][1]))]
        if len(hit) != 1:
            hit = [u for u in vs if f.vars[u][0] == 'extra_args']
        if len(hit) != 1:
            raise AnalysisError('extra argument counter not found')
        s.extra = hit[0]

    # ---- running ------------------------------------------------------------------------------
    def vnmachine(s, oracle, **kw):
        return vn.VN(s.P, s.f, oracle=oracle, **kw)

    def initial(s):
        st = vn.St()
        st.v[s.accu] = sym('accu')
        st.v[s.sp] = sym('sp')
        st.v[s.env] = sym('env')
        st.v[s.extra] = sym('extra_args', 0, 65535)
        return st

    def run(s, code, st=None, prep=None, maxvisit=40):
        """code: list of slots; a slot is ('op', NAME) or an operand term.  Threaded configuration only.
        prep: {slot index: fn(state)} applied when that slot is fetched.
        Returns [(next, state)]; next is the term of the fetched instruction pointer."""
        n = len(code)
        st = st or s.initial()
        st.v[s.pc] = add(sym('END'), K(-8 * n))

        def oracle(st, addr, size, sg):
            c, d = lin(addr)
            if len(d) == 1 and sym('END') in d and d[sym('END')] == 1:
                if c % 8 or size != 8:
                    return None
                k = n + c // 8
                if 0 <= k < n:
                    x = code[k]
                    if isinstance(x, tuple) and x[0] == 'op':
                        return ('lab', s.label[x[1]])
                    return x
                return ('code', addr)
            if size == 1 and s.atoms in d and d[s.atoms] == 1:
                # the tag byte of the statically allocated block Atom(t) is t
                d = dict(d)
                del d[s.atoms]
                if c % 8 == 0 and all(k % 8 == 0 for k in d.values()):
                    t = mk(c // 8, {x: k // 8 for x, k in d.items()})
                    g = rng(t)
                    if g and 0 <= g[0] and g[1] <= 255:
                        return t
            return None
        V = s.vnmachine(oracle, maxvisit=maxvisit)
        steps = {}

        def isend(v, st):
            if v[0] == 'lab':
                k = None
                c, d = lin(st.v[s.pc])
                if sym('END') in d:
                    k = n + c // 8 - 1
                if prep and k in prep:
                    prep[k](st)
                return None
            return ('next', v)
        V.normal_snapshot = s.snapshot
        V.snapshot = lambda st: s.snapshot(st)
        V.prune = s.prune
        st.visits = {}
        first = code[0]
        st.v[s.pc] = add(st.v[s.pc], K(8))
        if prep and 0 in prep:
            prep[0](st)
        return V.run(st, s.block(first[1]), isend)

    def dead(s, L, sp):
        """a stack store below the final stack pointer"""
        if L[0] != 'stack':
            return False
        addr = mk(L[2], dict(L[1]))
        g = rng(add(addr, sp, -1))
        return bool(g) and g[1] < 0

    def prune(s, st):
        """what lies below the stack pointer is gone"""
        st.log = [L for L in st.log if not s.dead(L, st.v[s.sp])]

    def snapshot(s, st):
        sp = st.v[s.sp]
        return vn.canon([L for L in st.log if not s.dead(L, sp)])

    def final(s, nxt, st):
        """what is observable after the sequence"""
        return dict(next=nxt[1], accu=st.v[s.accu], sp=st.v[s.sp], env=st.v[s.env], extra_args=st.v[s.extra], pc=st.v[s.pc],
                    memory=s.snapshot(st), calls=tuple(st.events))
