"""I01 encoding agreement, I02 operand widths, I03 sequence equivalence."""
import os
import sys
from . import cir, vn, machine, bcode, emit, smlev, cbuild, sml
from .vn import K, sym, add, lin, mk, op2, rng
from .cbuild import AnalysisError
from .report import Result

sys.setrecursionlimit(20000)
_c = {}


def programs():
    """interp.c in the three configurations, the expander and the byte-order fix-up"""
    if not _c:
        from concurrent.futures import ProcessPoolExecutor
        jobs = {'words': ([bcode.INTERP, bcode.EXPAND], {}), 'bytes': ([bcode.INTERP], {bcode.INTERP: ['!THREADED']}),
                'switch': ([bcode.INTERP], {bcode.INTERP: ['!THREADED', 'DEBUG']}), 'fix': ([bcode.FIX], {})}
        cbuild.bigendian()
        cbuild.runtime_defs()
        with ProcessPoolExecutor(4) as ex:
            fs = {k: ex.submit(_load, k, us, ds) for k, (us, ds) in jobs.items()}
            for k, f in fs.items():
                _c[k], pat = f.result()
                if pat is not None:
                    _c['pat', k] = pat
        _c['m'] = machine.Machine(_c['words'])
    return _c


def _load(kind, units, defs):
    sys.setrecursionlimit(20000)
    P = cir.load_program(units, defs)
    return P, (bcode.handler_patterns(P, kind) if kind != 'fix' else None)


class Layout:
    """operands of one instruction in a byte program: [(offset, size, signed, label origin or None)], total bytes after the opcode,
    slots: which word-code slot is a label; switch: table"""

    def __init__(s, ops, total, switch=False):
        s.ops, s.total, s.switch = ops, total, switch

    def show(s):
        return ', '.join('%s%d at %d%s' % ('label ' if l is not None else ('signed ' if g else ''), 8 * z, o, '' if l in (None, o) else ' relative to %d' % l) for o, z, g, l in s.ops) or 'no operands'


def layout(op, r):
    tab = {t for t in r['table'] if t[1] != 1}
    if tab:
        return Layout([(0, 1, False, None)], 1, tuple(sorted(tab)) + tuple(sorted(map(str, r['labels'].items()))))
    ops = []
    for off in sorted(r['ops']):
        k = r['ops'][off]
        if len(k) != 1:
            return None
        (sz, sg), = k
        lab = None
        o = r['labels'].get('opnd@%d' % off)
        if o:
            if len(o) != 1:
                return None
            lab, = o
        ops.append((off, sz, sg, lab))
    ends = set(r['ends'])
    tot = max(ends) if ends else max([o + z for o, z, g, l in ops] or [0])
    if len(ends) > 1:
        return None
    return Layout(ops, tot)


def contract(c, rep):
    """the byte layout per opcode, reporting disagreements between the interpreter's own configurations"""
    L = {}
    b, sw, w = c['pat', 'bytes'], c['pat', 'switch'], c['pat', 'words']
    for op in b:
        lb, ls = layout(op, b[op]), layout(op, sw[op]) if op in sw else None
        lw = layout(op, w[op]) if op in w else None
        if lb is None:
            rep(bcode.INTERP, b[op]['line'], 'interprete', 'operands', 'the handler of %s reads an operand in two different ways' % op)
            continue
        if lb.total != max([o + z for o, z, g, l in lb.ops] or [0]):
            rep(bcode.INTERP, b[op]['line'], 'interprete', 'operands', 'the handler of %s continues %d bytes after the opcode but its operands are: %s' % (op, lb.total, lb.show()))
        if ls is None or [x for x in lb.ops] != [x for x in ls.ops] or lb.total != ls.total or lb.switch != ls.switch:
            rep(bcode.INTERP, b[op]['line'], 'interprete', 'operands', 'the jump-table and switch versions of the handler of %s differ in their operands' % op)
        if lw is None or not lb.switch and ([l is not None for o, z, g, l in lw.ops] != [l is not None for o, z, g, l in lb.ops] or lw.total != 8 * len(lb.ops) or [o for o, z, g, l in lw.ops] != [8 * i for i in range(len(lb.ops))]):
            rep(bcode.INTERP, b[op]['line'], 'interprete', 'operands', 'the threaded-code handler of %s expects other operands than its byte-code handler (%s)' % (op, lb.show()))
        L[op] = lb
    return L


def expander(c, L, rep, stats):
    P = c['words']
    en = dict(max(P.enumdecls.values(), key=len))
    for fname in ('buildrealmap', 'expandcode'):
        file = P.fns[fname].file if fname in P.fns else bcode.EXPAND
        for op in L:
            lay = L[op]
            for n in ((1,) if not lay.switch else (0, 1, 3)):
                f, pc, init, fin, kinds = bcode.switch_run(P, fname, en[op], {1: K(n)} if lay.switch else None)
                line = f.line

                def bad(m, f=f):
                    rep(file, f.line, fname, 'expansion', '%s on %s: %s' % (fname, op, m))
                if len(fin) != 1 or any(k[0] != 'again' for k in kinds):
                    bad('does not continue with the next instruction on exactly one path')
                    continue
                st = fin[0]
                stats['expander_turns'] += 1
                d = lin(add(st.v[pc], init[pc], -1))
                nb = 1 + lay.total + (4 * n if lay.switch else 0)
                if d != (nb, {}):
                    bad('advances by %s bytes, the instruction has %d' % (d[0] if not d[1] else '?', nb))
                nslots = 1 + len(lay.ops) + (n if lay.switch else 0)
                ctr = [u for u in f.vars if u in st.v and u in init and u != pc and st.v[u] != init[u] and init[u][0] == 'sym' and lin(add(st.v[u], init[u], -1))[1] == {} and cir.width(P.resolve(f.vars[u][1]))]
                if fname == 'buildrealmap':
                    if len(ctr) != 1 or lin(add(st.v[ctr[0]], init[ctr[0]], -1)) != (nslots, {}):
                        bad('counts %s slots, the instruction needs %d' % ([lin(add(st.v[u], init[u], -1))[0] for u in ctr], nslots))
                        continue
                    ra = [(u, ty) for u, ty in f.params if P.resolve(ty).startswith('int *') or 'int [' in P.resolve(ty)]
                    want = (init[ra[0][0]] if ra else None)
                    maps = [(L_[1], L_[2], L_[3], L_[4]) for L_ in st.log]
                    if len(maps) != 1 or want is None or maps[0] != (tuple(sorted(lin(want)[1].items(), key=repr)), 4 * bcode.OFF, 4, init[ctr[0]]):
                        bad('does not map the address of the opcode to its first slot')
                else:
                    ctr = [u for u in ctr if lin(add(st.v[u], init[u], -1))[0] >= 1]
                    if len(ctr) != 1 or lin(add(st.v[ctr[0]], init[ctr[0]], -1)) != (nslots, {}):
                        bad('writes %s slots, the instruction needs %d' % ([lin(add(st.v[u], init[u], -1))[0] for u in ctr], nslots))
                        continue
                    stores = {}
                    base = None
                    for reg, bb, cc, sz, val in st.log:
                        a = add(mk(cc, dict(bb)), vn.scale(init[ctr[0]], 8), -1)
                        k, dd = lin(a)
                        if len(dd) == 1 and sz == 8:
                            base = base or tuple(dd)[0]
                            if dd == {base: 1} and k % 8 == 0:
                                stores[k // 8] = val
                    jt = [u for u, ty in f.params if P.resolve(ty).replace(' ', '') in ('void**', 'void*[]')]
                    exp = {}
                    v0 = stores.get(0)
                    if v0 is None or v0[0] != 'ld' or not jt or lin(v0[3]) != (8 * en[op], {init[jt[0]]: 1}):
                        bad('the first slot is not the handler of this instruction')
                    for i, (off, sz, sg, lab) in enumerate(lay.ops):
                        v = stores.get(i + 1)
                        if lay.switch:
                            if v != K(n):
                                bad('slot %d is not the number of branches' % (i + 1))
                            continue
                        if lab is None:
                            if v != opnd(off + 1, sz, sg):
                                bad('slot %d is not the operand (%s)' % (i + 1, lay.show()))
                        elif not islabel(v, base, off + 1, lab + 1):
                            bad('slot %d is not the threaded address of the label operand' % (i + 1))
                        stats['operands_expanded'] += 1
                    if lay.switch:
                        org = lay.switch[0][0]
                        for j in range(n):
                            if not islabel(stores.get(2 + j), base, 2 + 4 * j, org + 1):
                                bad('branch %d of the table is not translated to its threaded address' % j)
                    if set(stores) != set(range(nslots)):
                        bad('fills slots %s of %d' % (sorted(stores), nslots))
    # byte order fix-up
    P = c['fix']
    if 'fixup_endianness' not in P.fns:
        raise AnalysisError('fixup_endianness not found')
    en2 = dict(max(P.enumdecls.values(), key=len))
    for op in L:
        lay = L[op]
        for n in ((1,) if not lay.switch else (0, 1, 3)):
            f, pc, init, fin, kinds = bcode.switch_run(P, 'fixup_endianness', en2[op], {1: K(n)} if lay.switch else None)

            def bad(m):
                rep('src/runtime/fix_code.c', f.line, 'fixup_endianness', 'byte order', 'on %s: %s' % (op, m))
            if len(fin) != 1 or any(k[0] != 'again' for k in kinds):
                bad('does not continue with the next instruction on exactly one path')
                continue
            stats['expander_turns'] += 1
            st = fin[0]
            d = lin(add(st.v[pc], init[pc], -1))
            nb = 1 + lay.total + (4 * n if lay.switch else 0)
            if d != (nb, {}):
                bad('advances by %s bytes, the instruction has %d' % (d[0] if not d[1] else '?', nb))
            got = {}
            for reg, bb, cc, sz, val in st.log:
                o = bcode.codeaddr(mk(cc, dict(bb)), sym('CODE'))
                if o is None or sz != 1:
                    bad('an unexpected store')
                    continue
                got[o - bcode.OFF] = src(val)
            want = {}
            for off, sz, sg, lab in (lay.ops if not lay.switch else [(1 + 4 * j, 4, True, 1) for j in range(n)]):
                for j in range(sz if sz > 1 else 0):
                    want[1 + off + j] = 1 + off + sz - 1 - j
            if got != want:
                bad('reverses other bytes than the operands (%s)' % lay.show())


def src(t):
    while t[0] == 'ext':
        t = t[3]
    if t[0] == 'sym' and t[1].startswith('opnd@'):
        return int(t[1][5:])
    return None


def opnd(c, size, sg):
    n = 8 * size
    return sym('opnd@%d' % c, -(1 << (n - 1)) if sg else 0, (1 << (n - 1)) - 1 if sg else (1 << n) - 1)


def islabel(v, base, off, org):
    """v == base + 8 * realaddress[OFF + org + operand at off]"""
    if v is None or base is None:
        return False
    c, d = lin(v)
    d = dict(d)
    if c or d.pop(base, 0) != 1 or len(d) != 1:
        return False
    (t, k), = d.items()
    if k != 8 or t[0] != 'ld' or t[1] != 4:
        return False
    c, d = lin(t[3])
    return c == 4 * (bcode.OFF + org) and d.get(opnd(off, 4, True)) == 4 and len(d) == 2


# ---- emission -----------------------------------------------------------------------------------
class Dec:
    """decoded instruction"""

    def __init__(s, op, args, pos):
        s.op, s.args, s.pos = op, args, pos

    def __repr__(s):
        return '%s(%s)' % (s.op, ', '.join(map(show, s.args)))


def show(t):
    if t[0] == 'k':
        return str(t[1])
    if t[0] == 'sym':
        return t[1]
    if t[0] == '+':
        return '+'.join(['%s%s' % ('' if k == 1 else '%d*' % k, show(x)) for x, k in t[2]] + ([str(t[1])] if t[1] else []))
    return repr(t)[:60]


def narrow(p, t):
    """t with every symbol given the interval of the path"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'sym':
        lo, hi = p.interval(t) if t[2] is not None or t in p.iv else (None, None)
        if lo is None:
            return t
        return K(lo) if lo == hi else ('sym', t[1], lo, hi)
    if t[0] == '+':
        r = K(t[1])
        for x, k in t[2]:
            r = add(r, narrow(p, x), k)
        return r
    if t[0] == 'f' and len(t) == 4 and t[1] in ('>>u', '>>s', '&', '|', '^'):
        return op2(t[1][:2] if t[1][0] == '>' else t[1], narrow(p, t[2]), narrow(p, t[3]), t[1] != '>>u')
    if t[0] == 'f':
        return t[:2] + tuple(narrow(p, x) for x in t[2:])
    if t[0] in ('tup',):
        return ('tup', tuple(narrow(p, x) for x in t[1]))
    if t[0] == 'con':
        return ('con', t[1], None if t[2] is None else narrow(p, t[2]))
    return t


class Bad(Exception):
    pass


def field(bs):
    """the number whose little-endian bytes (each taken modulo 256) are bs"""
    if len(bs) == 1:
        return bs[0]
    for X in (bs[0], add(bs[0], vn.scale(bs[1], 256))):
        ok = True
        for i, b in enumerate(bs[1:], 1):
            cand = {op2('>>', X, K(8 * i), sg) for sg in (True, False)}
            if X[0] == 'k':
                if b[0] != 'k' or (b[1] ^ (X[1] >> 8 * i)) & 255:
                    ok = False
            elif b not in cand:
                ok = False
        if ok:
            return X
    raise Bad('the operand bytes %s are not one number' % ', '.join(map(show, bs)))


def decode(p, events, L, num2op):
    """events of one path -> ([Dec], [labels defined])"""
    out = []
    i, pos = 0, 0
    ev = events
    while i < len(ev):
        e = ev[i]
        if e[0] == 'def':
            i += 1
            continue
        if e[0] != 'b':
            raise Bad('%s where an opcode is expected' % {'l': 'a label', 's': 'a relocated operand'}.get(e[0], e[0]))
        t = narrow(p, e[1])
        if t[0] != 'k':
            raise Bad('opcode %s is not determined' % show(t))
        if t[1] & 255 not in num2op:
            raise Bad('no instruction has opcode %d' % t[1])
        op = num2op[t[1] & 255]
        lay = L[op]
        start = pos
        i += 1
        pos += 1
        args = []
        for off, sz, sg, lab in lay.ops:
            if i >= len(ev):
                raise Bad('%s is emitted without its operand of %d bytes' % (op, sz))
            e = ev[i]
            if e[0] == 'l':
                if lab is None:
                    raise Bad('%s is emitted with a label for a %d-byte number' % (op, sz))
                o = narrow(p, e[1])
                if o != K(start + 1 + lab):
                    raise Bad('the label of %s is relative to byte %s of the sequence, the interpreter takes it relative to byte %d' % (op, show(o), start + 1 + lab))
                args.append(('label', narrow(p, e[2])))
                i += 1
                pos += 4
                continue
            if lab is not None:
                raise Bad('%s is emitted without its label' % op)
            if e[0] == 's':
                if e[3] != sz:
                    raise Bad('%s has a %d-byte operand, its relocated slot has %d' % (op, sz, e[3]))
                args.append(('slot', e[1], narrow(p, e[2])))
                i += 1
                pos += sz
                continue
            bs = []
            for j in range(sz):
                if i >= len(ev) or ev[i][0] != 'b':
                    raise Bad('the %d-byte operand of %s is cut short' % (sz, op))
                bs.append(narrow(p, ev[i][1]))
                i += 1
                pos += 1
            args.append(('num', field(bs), sz, sg))
        if lay.switch:
            n = args[0][1]
            if i + 2 >= len(ev) or ev[i][0] != 'repeat' or ev[i + 1][0] != 'l' or ev[i + 2][0] != 'endrepeat':
                if n[0] == 'k':
                    for j in range(n[1]):
                        if i >= len(ev) or ev[i][0] != 'l' or narrow(p, ev[i][1]) != K(start + 2):
                            raise Bad('SWITCH is not followed by its %d labels' % n[1])
                        i += 1
                    out.append(Dec(op, args, start))
                    continue
                raise Bad('SWITCH is not followed by one label per branch')
            if narrow(p, ev[i][1]) != K(0) or add(narrow(p, ev[i][2]), n, -1) != K(-1):
                raise Bad('SWITCH has a table of %s..%s labels for %s branches' % (show(narrow(p, ev[i][1])), show(narrow(p, ev[i][2])), show(n)))
            o = narrow(p, ev[i + 1][1])
            if o != K(start + 1 + lay.switch[0][0]):
                raise Bad('the labels of SWITCH are relative to byte %s of the sequence' % show(o))
            i += 3
            pos = 1 << 30
        out.append(Dec(op, args, start))
    return out


# ---- sequences ----------------------------------------------------------------------------------
class Seq:
    """effects of instruction sequences on the threaded interpreter"""

    def __init__(s, M):
        s.M = M
        s.cache = {}
        s.runs = 0

    def effect(s, code, prep=None, key=None):
        k = (tuple(code), key)
        if k not in s.cache:
            s.runs += 1
            r = s.M.run(list(code), prep=prep)
            out = {}
            for nxt, st in r:
                if nxt[0] == 'next':
                    f = s.M.final(nxt, st)
                else:
                    f = dict(next=nxt, accu=None, sp=st.v[s.M.sp], env=None, extra_args=None, pc=None, memory=s.M.snapshot(st), calls=tuple(st.events))
                c = frozenset(st.conds.items())
                if c in out and out[c] != f:
                    raise AnalysisError('two effects under one condition')
                out[c] = f
            s.cache[k] = out
        return s.cache[k]

    def diff(s, a, b, ignore=()):
        """None if the effects agree, else a description"""
        if set(a) != set(b):
            d = next(iter(set(a) ^ set(b)))
            return 'they distinguish different cases'
        for c in a:
            for k in a[c]:
                if k in ignore:
                    continue
                if a[c][k] != b[c][k]:
                    return 'they leave a different %s' % {'pc': 'program counter', 'next': 'next instruction', 'accu': 'accumulator', 'sp': 'stack pointer', 'env': 'environment',
                                                          'extra_args': 'argument count', 'memory': 'stack or heap', 'calls': 'sequence of runtime calls'}[k]
        return None
