"""The emitter's byte sequences against the general instruction sequences they stand for."""
import re
from . import vn, smlev, emit
from .bcheck import decode, narrow, show, Bad, Dec
from .vn import K, sym, add, scale, rng
from .smlev import Stuck
from .cbuild import AnalysisError

FILE = 'src/compiler/Emitcode.sml'

# primitives whose instruction is not called after them
OPNAME = {'Pnot': 'BOOLNOT'}
CONDNAME = {'PTeq': 'EQ', 'PTnoteq': 'NEQ', 'PTlt': 'LT', 'PTle': 'LE', 'PTgt': 'GT', 'PTge': 'GE'}
TYNAME = {'Pint_test': 'INT', 'Pfloat_test': 'FLOAT', 'Pstring_test': 'STRING', 'Pword_test': 'UNSIGN'}


def opname(con):
    return OPNAME.get(con) or con[1:].upper().replace('_', '')


def resolve(p, v):
    """an unknown value as far as the path has determined it"""
    if isinstance(v, tuple) and v and v[0] == 'sv':
        w = p.shape.get(v)
        if w is not None and w[0] in ('con', 'tup'):
            return resolve(p, w)
        return v
    if isinstance(v, tuple) and v and v[0] == 'con':
        return ('con', v[1], None if v[2] is None else resolve(p, v[2]))
    if isinstance(v, tuple) and v and v[0] == 'tup':
        return ('tup', tuple(resolve(p, x) for x in v[1]))
    return v


def testop(t):
    """comparison instruction of a bool_test"""
    c = t[1]
    if c == 'Peq_test':
        return 'EQ'
    if c == 'Pnoteq_test':
        return 'NEQ'
    if c in TYNAME and t[2][0] == 'con' and t[2][1] in CONDNAME:
        r = CONDNAME[t[2][1]]
        ty = TYNAME[c]
        return r if ty == 'INT' and r in ('EQ', 'NEQ') else r + ty
    return None


class Spec:
    """the general instruction sequence of one abstract instruction; operands as in Dec.args"""

    def __init__(s, p):
        s.p = p

    def num(s, t):
        return ('num', narrow(s.p, t))

    def label(s, t):
        return ('label', narrow(s.p, t))

    def of(s, z):
        p = s.p
        z = resolve(p, z)
        if z[0] != 'con':
            raise Stuck('instruction not determined')
        c, a = z[1], z[2]
        if c == 'Kquote':
            return [('QUOTE', a)]
        if c == 'Kget_global':
            return [('GETGLOBAL', ('slot', 'slot_for_get_global', a))]
        if c == 'Kset_global':
            return [('SETGLOBAL', ('slot', 'slot_for_set_global', a))]
        if c == 'Kaccess':
            return [('ACCESS', s.num(a))]
        if c == 'Kenvacc':
            return [('ENVACC', s.num(add(a, K(1))))]
        if c in ('Kassign', 'Kgetfield', 'Ksetfield', 'Kpop', 'Kgrab', 'Kreturn', 'Kapply'):
            return [(c[1:].upper(), s.num(a))]
        if c in ('Kpush', 'Krestart', 'Kraise', 'Kpoptrap', 'Kcheck_signals'):
            return [(c[1:].upper(),)]
        if c == 'Kappterm':
            return [('APPTERM', s.num(a[1][0]), s.num(a[1][1]))]
        if c in ('Kpush_retaddr', 'Kpushtrap', 'Kbranch', 'Kbranchif', 'Kbranchifnot', 'Kstrictbranchif', 'Kstrictbranchifnot'):
            return [(c[1:].upper().replace('STRICT', ''), s.label(a))]
        if c == 'Kclosure':
            return [('CLOSURE', s.num(a[1][1]), s.label(a[1][0]))]
        if c == 'Kclosurerec':
            return [('CLOSREC', s.num(add(a[1][1], K(-1))), s.label(a[1][0]))]
        if c == 'Kmakeblock':
            t = resolve(p, a[1][0])
            if t[0] != 'con':
                raise Stuck('tag not determined')
            return [('MAKEBLOCK', s.num(add(t[2][1][0], scale(a[1][1], 1 << 10))))]
        if c == 'Klabel':
            return []
        if c == 'Kswitch':
            return [('SWITCH', s.num(sym('len(%s)' % a[1], 0, 1 << 30)))]
        if c == 'Kbranchinterval':
            l, h, a1, a2 = a[1]
            return [('PUSH',), ('INT', narrow(p, l)), ('PUSH',), ('INT', narrow(p, h)), ('BRANCHINTERVAL', s.label(a1), s.label(a2))]
        if c == 'Ktest':
            t, l = a[1]
            if t[0] != 'con':
                raise Stuck('test not determined')
            if t[1] == 'Pnoteqtag_test':
                g = resolve(p, t[2])
                return [('BRANCHIFNEQTAG', s.num(g[2][1][0]), s.label(l))]
            if t[2] is not None and t[2][1] == 'PTnoteqimm':
                x = t[2][2]
                k = [('INT', narrow(p, x))] if t[1] in ('Pint_test', 'Pword_test') else [('QUOTE', ('con', 'ATOMsc', ('con', {'Pfloat_test': 'REALscon', 'Pstring_test': 'STRINGscon'}[t[1]], x)))]
                eq = {'Pint_test': 'EQ', 'Pword_test': 'EQ', 'Pfloat_test': 'EQFLOAT', 'Pstring_test': 'EQSTRING'}[t[1]]
                return [('PUSH',), ('PUSH',)] + k + [(eq,), ('POPBRANCHIFNOT', s.label(l))]
            op = testop(t)
            if not op:
                raise Stuck('test not determined')
            return [(op,), ('BRANCHIF', s.label(l))]
        if c == 'Kprim':
            if a[0] != 'con':
                raise Stuck('primitive not determined')
            q, x = a[1], a[2]
            if q == 'Pidentity':
                return []
            if q == 'Pdummy':
                return [('DUMMY', s.num(x))]
            if q == 'Patom':
                return [('ATOM', s.num(x))]
            if q == 'Ptest':
                op = testop(x)
                if not op:
                    raise Stuck('test not determined')
                return [(op,)]
            if q == 'Pccall':
                return [('C_CALLN', s.num(x[1][1]), ('slot', 'slot_for_c_prim', x[1][0]))]
            if q == 'Pfloatprim':
                return [(opname(x[1]),)]
            return [(opname(q),)]
        raise Stuck('no general sequence for ' + c)


def loadof(p, d):
    """the value an instruction loads into the accumulator, in source terms: ('int', term) | ('lit', constant) | ('atom', tag)"""
    m = re.match(r'CONST(\d)$', d.op)
    if m:
        return ('int', K(int(m.group(1))))
    if d.op == 'CONSTINT':
        return ('int', d.args[0][1])
    if d.op in ('CONSTBYTE', 'CONSTSHORT'):
        x = d.args[0][1]
        c, m = vn.lin(x)
        if c % 2 == 1 and all(k % 2 == 0 for k in m.values()):
            return ('int', vn.mk(c // 2, {t: k // 2 for t, k in m.items()}))
        return None
    if d.op == 'GETGLOBAL' and d.args[0][0] == 'slot' and d.args[0][1] == 'slot_for_literal':
        return lit(p, d.args[0][2])
    m = re.match(r'ATOM(\d)$', d.op)
    if m:
        return ('atom', K(int(m.group(1))))
    if d.op == 'ATOM':
        return ('atom', d.args[0][1])
    return None


def lit(p, sc):
    sc = narrow(p, resolve(p, sc))
    if sc[0] == 'con' and sc[1] == 'ATOMsc' and sc[2][0] == 'con' and sc[2][1] in ('INTscon', 'WORDscon', 'CHARscon') and smlev.isint(sc[2][2]):
        return ('int', sc[2][2])
    if sc[0] == 'con' and sc[1] == 'BLOCKsc' and sc[2][0] == 'tup' and sc[2][1][1] == smlev.NIL and sc[2][1][0][0] == 'con':
        return ('atom', sc[2][1][0][2][1][0])
    return ('lit', sc)


# push-and-load forms and the load they contain
SPLIT = [(r'PUSHCONST(\d)$', r'CONST\1'), (r'PUSHCONSTINT$', 'CONSTINT'), (r'PUSH_GETGLOBAL$', 'GETGLOBAL'), (r'PUSHATOM(\d?)$', r'ATOM\1')]


def canon_loads(p, ds):
    """Decs with push-and-load forms split (their equivalence is checked separately on the interpreter) and loads as values"""
    out = []
    for d in ds:
        for rx, new in SPLIT:
            m = re.match(rx, d.op)
            if m:
                out.append(('PUSH',))
                d = Dec(m.expand(new), d.args, d.pos)
                break
        v = loadof(p, d)
        if v is not None:
            out.append(('LOAD', v))
        else:
            out.append((d.op,) + tuple(arg(a) for a in d.args))
    return out


def arg(a):
    return a[:2] if a[0] == 'num' else a


# calls by argument count: the counted form expects a return frame below the arguments, the numbered forms make their own
NUMBERED = {'APPLY': ('APPLY', 4), 'C_CALLN': ('C_CALL', 5)}


def canon_spec(p, sp):
    out = []
    for x in sp:
        if x[0] == 'INT':
            out.append(('LOAD', ('int', x[1])))
        elif x[0] == 'QUOTE':
            out.append(('LOAD', lit(p, x[1])))
        elif x[0] == 'ATOM':
            out.append(('LOAD', ('atom', x[1][1])))
        elif x[0] in NUMBERED and x[1][1][0] == 'k' and 1 <= x[1][1][1] <= NUMBERED[x[0]][1]:
            out.append(('%s%d' % (NUMBERED[x[0]][0], x[1][1][1]),) + tuple(narrowarg(p, a) for a in x[2:]))
        else:
            out.append((x[0],) + tuple(narrowarg(p, a) for a in x[1:]))
    return out


def narrowarg(p, a):
    return (a[0], a[1], narrow(p, a[2])) if a[0] == 'slot' else a


def slots(seq):
    """code for Seq from canonical instructions"""
    code = []
    for x in seq:
        if x[0] == 'LOAD':
            k, t = x[1]
            if k == 'int':
                code += [('op', 'CONSTINT'), t]
            elif k == 'atom':
                code += [('op', 'ATOM'), t]
            else:
                code += [('op', 'GETGLOBAL'), sym('lit:' + repr(t), 0, (1 << 31) - 1)]
            continue
        code.append(('op', x[0]))
        for a in x[1:]:
            if a[0] == 'num':
                code.append(a[1])
            elif a[0] == 'label':
                code.append(sym('label:' + repr(a[1])))
            else:
                code.append(sym('slot:' + repr(a[1:]), 0, 65535 if a[1] == 'slot_for_c_prim' else (1 << 31) - 1))
    return code


def widths(d):
    """operands that may not fit: messages"""
    out = []
    for a in d.args:
        if a[0] != 'num':
            continue
        t, sz, sg = a[1], a[2], a[3]
        n = 8 * sz
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        g = rng(t) or (-(1 << 62), 1 << 62)
        if g[0] < lo or g[1] > hi:
            out.append('%s takes a %d-bit %soperand, it can get %s in [%s, %s]' % (d.op, n, 'signed ' if sg else '', show(t), big(g[0]), big(g[1])))
    return out


def big(n):
    return str(n) if abs(n) < 1 << 40 else '-inf' if n < 0 else 'inf'


def describe(p):
    return ' '.join('%s%s' % (x[2], '') for x in p.conds if x[0] == 'is')


def differ(S, have, want, ignore=()):
    """None or text"""
    if have == want:
        return None
    k = [x for x in have + want if 'APPTERM' in x[0]]
    if k:
        # the caller's frame holds at least one slot besides the arguments
        m = re.search(r'APPTERM(\d)', k[0][0])
        n = K(int(m.group(1))) if m else k[0][1][1]
        z = k[0][-1][1] if k[0][-1][0] == 'num' else k[0][-2][1]
        if n[0] == 'k' and z[0] == 'sym' and z[2] is not None:
            z2 = ('sym', z[1], max(z[2], n[1] + 1), z[3])
            have, want = subst(have, z, z2), subst(want, z, z2)
    # common prefix and suffix are the same by congruence
    a, b = list(have), list(want)
    while a and b and a[0] == b[0]:
        a.pop(0)
        b.pop(0)
    sfx = 0
    while a and b and a[-1] == b[-1] and sfx < 100:
        a.pop()
        b.pop()
        sfx += 1
    txt = '%s instead of %s' % (text(a), text(b))
    for q in a + b:
        if q[0] in ('SWITCH',):
            return txt
    if not a or not b:
        a, b, sfx = list(have), list(want), 0
    ign = set() if sfx else set(ignore)
    if 'APPTERM' in a[-1][0]:
        ign = ign | {'pc'}
    try:
        d = S.diff(S.effect(slots(a)), S.effect(slots(b)), tuple(ign))
    except vn.Giveup as e:
        raise AnalysisError('comparing %s: %s' % (txt, e))
    return None if d is None else txt + ': ' + d


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple) and t and t[0] == '+':
        r = K(t[1])
        for x, k in t[2]:
            r = add(r, subst(x, a, b), k)
        return r
    if isinstance(t, (tuple, list)):
        return type(t)(subst(x, a, b) for x in t)
    return t


def equalities(p, seq):
    """uses the equalities of symbols the path has tested"""
    for c in p.conds:
        if len(c) == 3 and c[0] == '=' and c[2] is True:
            k, d = vn.lin(c[1])
            if k == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                x, y = sorted(d, key=repr)
                nx, ny = narrow(p, x), narrow(p, y)
                r = (max(nx[2], ny[2]), min(nx[3], ny[3])) if nx[0] == ny[0] == 'sym' else None
                z = sym(x[1], *r) if r else nx if nx[0] == 'k' else ny
                seq = subst(subst(seq, nx, z), ny, z)
    return seq


def text(seq):
    def one(x):
        if x[0] == 'LOAD':
            return 'load ' + show(x[1][1])
        return x[0] + ''.join(' ' + show(q[1] if q[0] == 'num' else q[-1]) for q in x[1:])
    return '; '.join(one(x) for x in seq) or 'nothing'


def emitted(E, L, num2op, S, rep, wid, stats):
    """emit_zam: every instruction on every path"""
    z = ('sv', 'zam')
    seen = {}
    file = FILE
    for p, r in E.paths(lambda: E.ev.call(E.fn('emit_zam'), z)):
        cs = describe(p)
        con = cs.split(' ')[0] if cs else '?'
        prim = cs.split(' ')[1] if con in ('Kprim', 'Ktest') and ' ' in cs else ''
        seen.setdefault(con, 0)
        if prim:
            seen.setdefault(prim, 0)
        if r[0] == 'raise':
            continue
        stats['emission_paths'] += 1
        seen[con] += 1
        if prim:
            seen[prim] += 1
        try:
            ds = decode(p, p.events, L, num2op)
        except Bad as e:
            rep(file, 0, 'emit_zam', 'encoding', '%s: %s' % (cs, e))
            continue
        for d in ds:
            for m in widths(d):
                wid(file, 0, 'emit_zam', 'operand width', '%s: %s' % (cs, m))
            stats['operands'] += sum(1 for a in d.args if a[0] == 'num')
        try:
            want = canon_spec(p, Spec(p).of(z))
        except Stuck as e:
            rep(file, 0, 'emit_zam', 'encoding', '%s: the code does not depend on the instruction (%s)' % (cs, e))
            continue
        have = canon_loads(p, ds)
        d = differ(S, equalities(p, have), equalities(p, want), ('accu',) if con == 'Ktest' and 'PTnoteqimm' not in cs and 'Pnoteqtag' not in cs else ())
        if con == 'Klabel' and [e for e in p.events if e[0] == 'def'] != [('def', e[1]) for e in p.events if e[0] == 'def' and e[1][:2] == ('sym', 'zam.Klabel')][:1]:
            d = 'does not define the label'
        if d:
            rep(file, 0, 'emit_zam', 'encoding', '%s: emits %s' % (cs, d))
    return seen


def peephole(E, L, num2op, S, rep, wid, stats):
    """emit on any three instructions: the same as the instructions one by one"""
    zs = [('sv', x) for x in 'abc']
    lst = smlev.NIL
    for z in reversed(zs):
        lst = ('con', '::', ('tup', (z, lst)))
    for p, r in E.paths(lambda: E.ev.call(E.fn('emit'), lst)):
        cs = describe(p)
        if r[0] == 'raise':
            continue
        stats['peephole_paths'] += 1
        ev = p.events
        marks = [e[2] for e in ev if e[0] == 'call']
        segs, cur = [], []
        for e in ev:
            if e[0] == 'call':
                segs += [cur, e[2]]
                cur = []
            else:
                cur.append(e)
        segs.append(cur)
        # right-hand side: instructions between the marks
        right, cur, k = [], [], 0
        for z in zs:
            if k < len(marks) and marks[k] == z:
                right += [cur, z]
                cur = []
                k += 1
            else:
                cur.append(z)
        right.append(cur)
        if k < len(marks) or len(right) != len(segs):
            rep(FILE, 0, 'emit', 'encoding', '%s: instructions are emitted out of order or twice' % cs)
            continue
        for have, want in zip(segs[::2], right[::2]):
            base = 0
            try:
                ds = decode(p, rebase(have), L, num2op)
                w = []
                for z in want:
                    w += Spec(p).of(z)
            except Bad as e:
                rep(FILE, 0, 'emit', 'encoding', '%s: %s' % (cs, e))
                continue
            except Stuck as e:
                rep(FILE, 0, 'emit', 'encoding', '%s: the code does not depend on the instructions (%s)' % (cs, e))
                continue
            for d in ds:
                for m in widths(d):
                    wid(FILE, 0, 'emit', 'operand width', '%s: %s' % (cs, m))
                stats['operands'] += sum(1 for a in d.args if a[0] == 'num')
            d = differ(S, canon_loads(p, ds), canon_spec(p, w))
            if d:
                rep(FILE, 0, 'emit', 'encoding', '%s: emits %s' % (cs, d))


def rebase(ev):
    """label origins relative to the start of the segment"""
    return ev
