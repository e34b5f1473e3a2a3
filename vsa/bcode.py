"""The bytecode contract: operand layouts seen by handlers, expander, byte-order fix-up and emitter (I01), operand
widths (I02) and equivalence of instruction sequences (I03)."""
import os
import re
import subprocess
from . import cir, cbuild, vn, machine, smlev
from .vn import K, sym, add, lin, mk, St, VN, Giveup
from .cbuild import AnalysisError

INTERP = 'src/runtime/interp.c'
EXPAND = 'src/runtime/expand.c'
FIX = 'be/src/runtime/fix_code.c'


class Pat:
    """operands: [(byte offset, size, signed, label)] from just after the opcode; total: bytes after the opcode"""

    def __init__(s, ops, total, note=''):
        s.ops, s.total, s.note = tuple(sorted(ops)), total, note

    def __eq__(s, o):
        return s.ops == o.ops and s.total == o.total

    def __repr__(s):
        return '[%s] %d bytes' % (', '.join('%s%s@%d' % ('label ' if l else '', ('i' if g else 'u') + str(8 * z), o) for o, z, g, l in s.ops), s.total)


def codeaddr(addr, base):
    """offset if addr is base + constant"""
    c, d = lin(addr)
    if len(d) == 1 and d.get(base) == 1:
        return c
    return None


def handler_patterns(P, kind):
    """kind: 'words' (threaded), 'bytes' (jump table on bytes) or 'switch'.
    -> {op: dict(ops={offset: (size, signed)}, labels={offset: origin offset}, total=offset of the following instruction, paths=n)}"""
    f = P.fns['interprete']
    if kind == 'switch':
        M = None
        sw = [(len(b.term.a[1]), bid) for bid, b in f.blocks.items() if b.term and b.term.op == 'switch']
        if not sw or max(sw)[0] < 150:
            raise AnalysisError('dispatch switch of the interpreter not found')
        swb = max(sw)[1]
        cases = dict((vn.s64(k), bb) for k, bb in f.blocks[swb].term.a[1])
        en = dict(max(P.enumdecls.values(), key=len))
        starts = {n: cases[v] for n, v in en.items() if v in cases}
        pc = [u for u in f.vars if f.vars[u][0] == 'pc'][0]
        line = {n: (f.blocks[b].ins[0].line if f.blocks[b].ins else 0) for n, b in starts.items()}
    else:
        M = machine.Machine(P, kind == 'words')
        starts = {n: M.block(n) for n in M.ops}
        pc = M.pc
        swb = None
        line = {n: M.line(n) for n in starts}
    unit = 8 if kind == 'words' else 1
    base = sym('CODE')
    out = {}
    for op, b in starts.items():
        res = dict(ops={}, labels={}, ends=set(), jumps=set(), paths=0, line=line[op], odd=[], table=set(), addrs=set())
        st = St()
        if M:
            st.v.update(M.initial().v)
        st.v[pc] = base

        def oracle(st, addr, size, sg):
            c = codeaddr(addr, base)
            if c is None:
                cc, d = lin(addr)
                if d.get(base) == 1 and len(d) == 2:        # an indexed read: a jump table in the code
                    st.aux.append(('table', cc, size, sg, [k for t, k in d.items() if t != base][0]))
                    return ('sym', 'tab@%d' % cc, None, None)
                return None
            st.aux.append((c, size, sg))
            if size == 8:
                return sym('opnd@%d' % c)
            n = 8 * size
            return sym('opnd@%d' % c, -(1 << (n - 1)) if sg else 0, (1 << (n - 1)) - 1 if sg else (1 << n) - 1)
        V = VN(P, f, oracle=oracle, maxvisit=2, maxpaths=6000)
        V.loopfree = (pc,)

        def isend(v, st):
            return ('next', v)
        try:
            paths = V.run(st, b, isend)
        except Giveup as e:
            raise AnalysisError('handler of %s: %s' % (op, e))
        for fin, st in paths:
            res['paths'] += 1
            for L in list(st.log) + [x for e in st.events for x in (e[4] or ())]:
                c = codeaddr(L[4], base) if isinstance(L[4], tuple) and L[4][0] in ('sym', '+') else None
                if c is not None:
                    res['addrs'].add(c)
            if fin[0] != 'next':
                reads = [a for a in st.aux]
                nxt = None
            else:
                nxt = add(st.v[pc], K(-unit))
                reads = list(st.aux)
                c = codeaddr(nxt, base)
                if c is not None and reads and reads[-1][0] == c:
                    reads.pop()
            for r in reads:
                if r[0] == 'table':
                    res['table'].add(r[1:])
                    continue
                res['ops'].setdefault(r[0], set()).add((r[1], r[2]))
            if nxt is None:
                continue
            c, d = lin(nxt)
            opn = [t for t in d if t[0] == 'sym' and t[1].startswith(('opnd@', 'tab@'))]
            if d.get(base) == 1 and len(d) == 1:
                res['ends'].add(c)
            elif opn and len(opn) == 1 and len(d) == (1 if kind == 'words' else 2) and d[opn[0]] == 1 and (kind == 'words' or d.get(base) == 1):
                res['labels'].setdefault(opn[0][1], set()).add(c)
            elif base in d:
                res['odd'].append(nxt)
            # a label kept for later: stored, not jumped to
            for L in list(st.log) + [x for e in st.events for x in (e[4] or ())]:
                val = L[4]
                if not isinstance(val, tuple) or val[0] not in ('sym', '+'):
                    continue
                cc, dd = lin(val)
                oo = [t for t in dd if t[0] == 'sym' and t[1].startswith('opnd@')]
                if len(oo) == 1 and (kind == 'words' and len(dd) == 1 and dd[oo[0]] == 1 and cc == 0 or kind != 'words' and dd.get(base) == 1 and len(dd) == 2):
                    res['labels'].setdefault(oo[0][1], set()).add(cc)
        out[op] = res
    return out


# ---- expansion to threaded code ---------------------------------------------------------------
def loop_of(f, S):
    """header of the innermost loop containing block S"""
    preds = {}
    for b in f.blocks:
        for x in f.blocks[b].succs(f):
            preds.setdefault(x, set()).add(b)

    def reach(a, fwd):
        seen, w = set(), [a]
        while w:
            x = w.pop()
            for y in (f.blocks[x].succs(f) if fwd else preds.get(x, ())):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen
    cyc = reach(S, True) & reach(S, False)
    if S not in cyc:
        raise AnalysisError('%s: the dispatch switch is not in a loop' % f.name)
    live = reach(f.entry, True) | {f.entry}
    ent = [b for b in cyc if (preds.get(b, set()) - cyc) & live]
    if len(ent) != 1:
        raise AnalysisError('%s: unexpected loop structure' % f.name)
    return ent[0], cyc


def switch_setup(P, name):
    if name not in P.fns:
        raise AnalysisError('function %s not found' % name)
    f = P.fns[name]
    sw = [(len(b.term.a[1]), bid) for bid, b in f.blocks.items() if b.term and b.term.op == 'switch']
    if not sw or max(sw)[0] < 50:
        raise AnalysisError('%s: opcode switch not found' % name)
    S = max(sw)[1]
    H, cyc = loop_of(f, S)
    pcs = [u for u, ty in [(u, P.resolve(f.vars[u][1])) for u in f.vars] if ty == 'unsigned char *' and not f.vars[u][0].startswith('%')]
    # the cursor: the byte pointer the loop advances
    adv = set()
    for b in cyc:
        for i in f.blocks[b].ins:
            if i.op == 'set' and i.a[0].kind == 'var' and i.a[0].a[0] in pcs:
                adv.add(i.a[0].a[0])
    outer = set()
    for b in f.blocks:
        if b not in cyc:
            for i in f.blocks[b].ins:
                if i.op == 'set' and i.a[0].kind == 'var':
                    outer.add(i.a[0].a[0])
    params = {u for u, _ in f.params}
    adv = {u for u in adv if u in outer or u in params}
    if len(adv) != 1:
        raise AnalysisError('%s: cursor not found' % name)
    return f, S, H, cyc, adv.pop()


OFF = 1000


def switch_run(P, name, num, opnds=None, swap=False):
    """one turn of the loop of `name` on an instruction with opcode `num` at byte OFF of the program.
    Returns (f, cursor, [(final state)])"""
    f, S, H, cyc, pc = switch_setup(P, name)
    base = sym('CODE')
    st = St()
    for u, v in f.vars.items():
        w = cir.width(P.resolve(v[1]))
        if w and '#g' not in u and '#s' not in u:
            if w[0] == 32 or w[0] == 64:
                st.v[u] = sym(v[0], 0, 1 << 30)
    for u, ty in f.params:
        if P.resolve(ty) == 'unsigned char *':
            st.v[u] = base
    st.v[pc] = add(base, K(OFF))

    def oracle(st, addr, size, sg):
        c = codeaddr(addr, base)
        if c is None:
            return None
        for L in st.log:
            k = codeaddr(mk(L[2], dict(L[1])), base) if L[0] == 'heap' else None
            if k is not None and k < c + size and c < k + L[3]:
                return None
        c -= OFF
        if c == 0:
            return K(num)
        if opnds and c in opnds:
            return opnds[c]
        n = 8 * size
        st.aux.append((c, size, sg))
        return sym('opnd@%d' % c, -(1 << (n - 1)) if sg else 0, (1 << (n - 1)) - 1 if sg else (1 << n) - 1)
    init = dict(st.v)
    V = VN(P, f, oracle=oracle, maxvisit=12)
    V.stopat = (H,)
    try:
        r = V.run(st, H, lambda v, st: None)
    except Giveup as e:
        raise AnalysisError('%s on opcode %d: %s' % (name, num, e))
    return f, pc, init, [s for fin, s in r if fin[0] == 'again'], [fin for fin, s in r if fin[0] == 'again' or s.v.get(pc) != init[pc]]
