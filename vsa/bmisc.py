"""Remaining parts of the bytecode contract: opcode numbers, the interpreter's own code fragments, byte buffers, labels,
relocation, test inversion and call sequences in Back.sml, constructor tags in Elab.sml."""
import os
import re
from . import vn, smlev, emit, sml, cir, bcode, cbuild, bemit, bback
from .vn import K, sym, add, scale, lin
from .smlev import Prim, Ref, UNIT, Stuck, NIL, isint
from .bcheck import Dec, decode, narrow, show, Bad, field
from .cbuild import AnalysisError

COMP = os.path.join(cbuild.REPO, 'src/compiler')


def cons(x, l):
    return ('con', '::', ('tup', (x, l)))


def opcodes(c, rep, stats):
    """Opcodes.sml (generated from instruct.h) and the jump table number the instructions as the enumeration does"""
    M = c['m']
    en = dict(M.enum)
    src = open(os.path.join(emit.opcodes_file(), 'Opcodes.sml')).read()
    ml = {n: int(v) for n, v in re.findall(r'val (\w+) = (\d+);', src)}
    for n, v in en.items():
        stats['opcodes'] += 1
        if n in ml and ml[n] != v:
            rep('src/runtime/instruct.h', 0, n, 'opcode numbers', 'the compiler uses opcode %d for %s, the interpreter %d' % (ml[n], n, v))
        elif n not in ml:
            rep('src/runtime/instruct.h', 0, n, 'opcode numbers', 'the compiler has no opcode for %s' % n)
    byl = {}
    for n, v in en.items():
        l = M.table[v] if 0 <= v < len(M.table) else None
        if l is None:
            rep('src/runtime/instruct.h', 0, n, 'opcode numbers', 'the jump table has no handler for %s' % n)
        elif l != 'lbl_' + n and l.split('#')[0] != 'lbl_' + n:
            rep('src/runtime/interp.c', M.line(n), 'interprete', 'opcode numbers', 'opcode %s is dispatched to the handler labelled %s' % (n, l))
    return en


def fragments(c, L, num2op, rep, stats):
    """byte arrays the interpreter passes to the expander: complete instruction sequences of the stated length"""
    for kind in ('words', 'fix'):
        pass
    P = c['words']
    f = P.fns['interprete']
    n = 0
    for b in f.blocks.values():
        for i in b.ins:
            if i.op != 'call' or i.a[1] != 'expandcode' or len(i.a[2]) < 2:
                continue
            e, ln = i.a[2][0], i.a[2][1]
            while e.op == 'cast':
                e = e.a[0]
            u = e.a[0].a[0] if e.op in ('addr', 'load') and e.a[0].kind == 'var' else None
            if u is None and e.op == 'addr' and e.a[0].kind == 'mem':
                continue
            g = P.globals.get(u)
            if not g or not g.get('init') or ln.op != 'const':
                continue
            n += 1
            stats['fragments'] += 1
            bs = []
            for x in g['init']:
                if isinstance(x, int):
                    bs.append(x)
                    continue
                while x.op == 'cast':
                    x = x.a[0]
                if x.op != 'const':
                    raise AnalysisError('initialiser of %s' % u)
                bs.append(x.a[0])
            nm = u.split('#')[0]
            if ln.a[0] != len(bs):
                rep(bcode.INTERP, i.line, 'interprete', 'code fragment', '%s has %d bytes, %d are expanded' % (nm, len(bs), ln.a[0]))
            k, last = 0, None
            while k < len(bs):
                if bs[k] not in num2op or num2op[bs[k]] not in L:
                    last = None
                    rep(bcode.INTERP, i.line, 'interprete', 'code fragment', 'byte %d of %s is no opcode' % (k, nm))
                    break
                last = num2op[bs[k]]
                ln1 = 1 + L[last].total
                if k + ln1 > len(bs):
                    rep(bcode.INTERP, i.line, 'interprete', 'code fragment', '%s in %s lacks operand bytes' % (last, nm))
                    last = None
                    break
                k += ln1
            if last is not None and last not in ('STOP', 'RAISE', 'RETURN', 'BRANCH'):
                rep(bcode.INTERP, i.line, 'interprete', 'code fragment', '%s runs past its end' % nm)
    if n < 3:
        raise AnalysisError('only %d code fragments found in interprete' % n)


# ---- byte buffers, labels, relocation ------------------------------------------------------------
def chars(e, pos, b):
    e.p.events.append(('w', pos, b))
    return UNIT


def low(b):
    """the byte stored, given as b & 255 or a value in 0..255"""
    return b


def bytesof(X, n):
    """acceptable terms for byte i of the little-endian encoding of X"""
    out = []
    for i in range(n):
        a = {vn.op2('&', vn.op2('>>', X, K(8 * i), sg), K(255), True) for sg in (True, False)}
        a |= {vn.op2('&', K(255), vn.op2('>>', X, K(8 * i), sg), True) for sg in (True, False)}
        out.append(a)
    return out


def buffers(rep, wid, stats):
    """Buffcode.out_short/out_long append little-endian bytes; growing keeps what was written"""
    def mk():
        pr = {'CharArray.length': Prim(lambda e, v: sym('bufsize', 1, 1 << 40), 1), 'CharArray.update': Prim(lambda e, t: chars(e, t[1][1], t[1][2]), 1),
              'CharArray.array': Prim(lambda e, t: ('sv', 'array'), 1), 'CharArray.copy': Prim(lambda e, t: (e.p.events.append(('copy', t)), UNIT)[1], 1)}
        E = smlev.Eval([emit.opcodes_file(), COMP], pr)
        m = E.module('Buffcode')
        E.builtin['Buffcode.dummy'] = UNIT
        return E, m
    for fn, n in (('out', 1), ('out_short', 2), ('out_long', 4)):
        E, m = mk()
        if fn not in m.v:
            raise AnalysisError('Buffcode.%s not found' % fn)
        pos = E.force(m.v['out_position'])
        X = sym('x', -(1 << 31), (1 << 31) - 1) if n > 1 else sym('x', -(1 << 31), (1 << 31) - 1)

        def th():
            pos.v = sym('p', 0, 1 << 40)
            return E.call(E.force(m.v[fn]), X)
        k = 0
        for p, r in E.paths(th):
            k += 1
            stats['buffer_paths'] += 1
            if r[0] == 'raise':
                rep('src/compiler/Buffcode.sml', 0, fn, 'byte order', '%s raises %s' % (fn, r[1][1]))
                continue
            ws = [(lin(add(e[1], sym('p', 0, 1 << 40), -1)), e[2]) for e in p.events if e[0] == 'w']
            if [w[0] for w in ws] != [(i, {}) for i in range(n)] or pos.v != add(sym('p', 0, 1 << 40), K(n)):
                rep('src/compiler/Buffcode.sml', 0, fn, 'byte order', '%s does not append %d bytes' % (fn, n))
                continue
            for i, ((_, b), ok) in enumerate(zip(ws, bytesof(X, n))):
                if not any(norm8(b) == norm8(o) for o in ok):
                    rep('src/compiler/Buffcode.sml', 0, fn, 'byte order', '%s writes %s as byte %d' % (fn, show(b), i))
        if not k:
            raise AnalysisError('no path through Buffcode.%s' % fn)


def norm8(t):
    return vn.op2('&', t, K(255), True)


def patch(rep, wid, stats):
    """Patch writes each relocated value at its position with the width the emitter reserved; a value that does not fit raises"""
    E = smlev.Eval([emit.opcodes_file(), COMP], {
        'prim:set_nth_char': Prim(lambda e, b, i, c: chars(e, i, c), 3),
        'get_slot_for_literal': Prim(lambda e, x: sym('num:literal', 0, (1 << 31) - 1), 1),
        'get_slot_for_variable': Prim(lambda e, x: sym('num:get_global', 0, (1 << 31) - 1), 1),
        'get_slot_for_defined_variable': Prim(lambda e, x: sym('num:set_global', 0, (1 << 31) - 1), 1),
        'get_num_of_prim': Prim(lambda e, x: sym('num:c_prim', 0, 1 << 40), 1), 'Char.chr': Prim(chr_checked, 1)})
    for n in ('get_slot_for_literal', 'get_slot_for_variable', 'get_slot_for_defined_variable', 'get_num_of_prim'):
        E.builtin['Symtable.' + n] = E.builtin[n]
    m = E.module('Patch')
    E.module('Code_dec')
    f = m.v.get('patch_object')
    if f is None:
        raise AnalysisError('Patch.patch_object not found')
    pos, off = sym('pos', 0, 1 << 40), sym('offset', 0, 1 << 40)
    kinds = {'Reloc_literal': ('literal', 4), 'Reloc_getglobal': ('get_global', 4), 'Reloc_setglobal': ('set_global', 4), 'Reloc_primitive': ('c_prim', 2)}
    cases = [(k, NIL, cons(('tup', (('con', c, ('sv', 'x')), pos)), NIL)) for c, (k, _) in kinds.items()]
    cases.append(('literal', cons(('tup', (('sv', 'lit'), cons(pos, NIL))), NIL), NIL))
    width = {k: w for k, w in kinds.values()}
    for kind, lits, others in cases:
        X = sym('num:' + kind, 0, (1 << 31) - 1 if kind != 'c_prim' else 1 << 40)
        n = width[kind]
        good = 0
        for p, r in E.paths(lambda: E.call(E.force(f), ('sv', 'buff'), off, ('tup', (lits, others)))):
            stats['patch_paths'] += 1
            if r[0] == 'raise':
                continue
            good += 1
            x = narrow(p, X)
            for t, (lo, hi) in p.iv.items():
                # a bound on X >> k bounds X
                if t[0] == 'f' and t[1].startswith('>>') and t[2] == X and t[3][0] == 'k' and x[0] == 'sym' and x[2] >= 0:
                    x = sym(X[1], x[2], min(x[3], ((hi + 1) << t[3][1]) - 1))
            if x[0] == 'sym' and x[3] >= 1 << (8 * n):
                wid('src/compiler/Patch.sml', 0, 'patch_object', 'operand width', 'a number of a %s up to %s is written into %d bytes' % (kind, bemit.big(x[3]), n))
            ws = {}
            for e in p.events:
                if e[0] == 'w':
                    d = add(add(e[1], pos, -1), off, -1)
                    ws[d[1] if d[0] == 'k' else repr(d)] = e[2]
            if sorted(map(str, ws)) != sorted(map(str, range(n))):
                rep('src/compiler/Patch.sml', 0, 'patch_object', 'relocation', 'a %s is written to bytes %s of its %d-byte operand' % (kind, sorted(map(str, ws)), n))
                continue
            for i, ok in enumerate(bytesof(X, n)):
                if not any(norm8(ws[i]) == norm8(o) for o in ok):
                    rep('src/compiler/Patch.sml', 0, 'patch_object', 'relocation', 'byte %d of a relocated %s is %s' % (i, kind, show(ws[i])))
        if not good:
            rep('src/compiler/Patch.sml', 0, 'patch_object', 'relocation', 'a %s is never written' % kind)


def chr_checked(e, t):
    lo, hi = e.p.interval(t)
    if lo < 0 or hi > 255:
        if e.cond('<', t, K(0)) or e.cond('>', t, K(255)):
            raise smlev.Raise(('con', 'Chr', None))
    return t


def reloc(rep, stats):
    """Reloc: each slot function records the current position with the right kind and reserves its bytes"""
    want = {'slot_for_literal': ('literal', 4), 'slot_for_get_global': ('Reloc_getglobal', 4), 'slot_for_set_global': ('Reloc_setglobal', 4), 'slot_for_c_prim': ('Reloc_primitive', 2)}
    for fn, (kind, n) in want.items():
        for found in (0, 1):
            pos = Ref(sym('p', 0, 1 << 40))
            ws = []

            def out(k):
                def f(e, v):
                    e.p.events.append(('w', pos.v, k))
                    pos.v = add(pos.v, K(k))
                    return UNIT
                return Prim(f, 1)
            cell = Ref(NIL, 'addrs')
            pr = {'Buffcode.out_position': pos, 'Buffcode.out_short': out(2), 'Buffcode.out_long': out(4), 'Buffcode.out': out(1),
                  'Hasht.new': Prim(lambda e, x: ('sv', 'table'), 1), 'Hasht.clear': Prim(lambda e, x: UNIT, 1),
                  'Hasht.peek': Prim(lambda e, t, k: (e.p.events.append(('peek', k)), ('con', 'SOME', cell) if found else smlev.NONE)[1], 2),
                  'Hasht.insert': Prim(lambda e, t, k, v: (e.p.events.append(('insert', k, v)), UNIT)[1], 3)}
            E = smlev.Eval([emit.opcodes_file(), COMP], pr)
            m = E.module('Reloc')
            if fn not in m.v:
                raise AnalysisError('Reloc.%s not found' % fn)
            for nm in ('out_position', 'out_long', 'out_short'):
                pass
            rec = E.paths(lambda: E.call(E.force(m.v[fn]), ('sv', 'x')))
            for p, r in rec:
                stats['reloc_paths'] += 1
                tot = sum(e[2] for e in p.events if e[0] == 'w')
                if r[0] == 'raise' or tot != n:
                    rep('src/compiler/Reloc.sml', 0, fn, 'relocation', '%s reserves %d bytes, its operand has %d' % (fn, tot, n))
                P0 = sym('p', 0, 1 << 40)
                if kind == 'literal':
                    ins = [e for e in p.events if e[0] == 'insert']
                    if found:
                        l = cell.v
                        ok = l[0] == 'con' and l[1] == '::' and l[2][1][0] == P0 and l[2][1][1] == NIL and not ins
                    else:
                        ok = len(ins) == 1 and ins[0][1] == ('sv', 'x') and isinstance(ins[0][2], Ref) and ins[0][2].v == cons(P0, NIL)
                else:
                    info = E.force(m.v['reloc_info'])
                    l = dict(info[1])['reloclist'].v if info[0] == 'rec' else NIL
                    ok = l != NIL and l[2][1][0] == ('tup', (('con', kind, ('sv', 'x')), P0))
                if not ok:
                    rep('src/compiler/Reloc.sml', 0, fn, 'relocation', '%s does not record the position of the operand as %s' % (fn, kind))


def labels(rep, stats):
    """Labels: a label operand becomes definition - origin, whether the label is defined before or after"""
    def setup(entry):
        pos = Ref(sym('p', 0, 1 << 40))
        tab = {}

        def outl(e, v):
            e.p.events.append(('long', pos.v, v))
            pos.v = add(pos.v, K(4))
            return UNIT

        def upd(e, t):
            a, i, v = t[1]
            e.p.events.append(('upd', i, v))
            tab['v'] = v
            return UNIT

        def cp(e, t):
            e.p.events.append(('copy', t))
            return UNIT
        pr = {'Buffcode.out_position': pos, 'Buffcode.out_long': Prim(outl, 1), 'Array.update': Prim(upd, 1), 'Array.sub': Prim(lambda e, t: tab['v'], 1),
              'Array.length': Prim(lambda e, v: sym('len', 1, 1 << 40), 1), 'Array.array': Prim(lambda e, t: ('sv', 'newarray'), 1),
              'Array.fromList': Prim(lambda e, t: ('sv', 'arr'), 1), 'Array.copy': Prim(cp, 1)}
        E = smlev.Eval([emit.opcodes_file(), COMP], pr)
        m = E.module('Labels')
        return E, m, pos, tab
    lbl, orig, d, p1, o1 = sym('lbl', 0, 1 << 30), sym('orig', 0, 1 << 40), sym('def', 0, 1 << 40), sym('pos1', 0, 1 << 40), sym('orig1', 0, 1 << 40)
    P0 = sym('p', 0, 1 << 40)
    und = ('con', 'Label_undefined', cons(('tup', (p1, o1)), NIL))
    F = 'src/compiler/Labels.sml'

    def run(fn, entry, *args):
        E, m, pos, tab = setup(entry)
        if fn not in m.v:
            raise AnalysisError('Labels.%s not found' % fn)

        def th():
            pos.v = P0
            tab['v'] = entry
            return E.call(E.force(m.v[fn]), *args)
        for p, r in E.paths(th):
            stats['label_paths'] += 1
            yield p, r, pos, tab
    n = 0
    for p, r, pos, tab in run('out_label_with_orig', ('con', 'Label_defined', d), orig, lbl):
        if r[0] == 'raise':
            continue
        n += 1
        ls = [e for e in p.events if e[0] == 'long']
        if len(ls) != 1 or ls[0][1] != P0 or ls[0][2] != add(d, orig, -1):
            rep(F, 0, 'out_label_with_orig', 'labels', 'a label already defined is not written as definition - origin')
    for p, r, pos, tab in run('out_label_with_orig', und, orig, lbl):
        if r[0] == 'raise':
            continue
        n += 1
        ls = [e for e in p.events if e[0] == 'long']
        if len(ls) != 1 or ls[0][1] != P0:
            rep(F, 0, 'out_label_with_orig', 'labels', 'no room is left for a label not yet defined')
        if tab['v'] != ('con', 'Label_undefined', cons(('tup', (P0, orig)), cons(('tup', (p1, o1)), NIL))):
            rep(F, 0, 'out_label_with_orig', 'labels', 'the position and origin of a label not yet defined are not both remembered')
    for p, r, pos, tab in run('define_label', und, lbl):
        if r[0] == 'raise':
            continue
        n += 1
        ls = [e for e in p.events if e[0] == 'long']
        if len(ls) != 1 or ls[0][1] != p1 or ls[0][2] != add(P0, o1, -1):
            rep(F, 0, 'define_label', 'labels', 'an earlier use is not patched with definition - origin at its position')
        if pos.v != P0:
            rep(F, 0, 'define_label', 'labels', 'the output position is not restored')
        if tab['v'] != ('con', 'Label_defined', P0):
            rep(F, 0, 'define_label', 'labels', 'the definition is not remembered')
    for p, r, pos, tab in run('define_label', ('con', 'Label_defined', d), lbl):
        n += 1
        if r[0] != 'raise':
            rep(F, 0, 'define_label', 'labels', 'a label can be defined twice')
    for p, r, pos, tab in run('out_label', ('con', 'Label_defined', d), lbl):
        if r[0] == 'raise':
            continue
        n += 1
        ls = [e for e in p.events if e[0] == 'long']
        if len(ls) != 1 or ls[0][2] != add(d, P0, -1):
            rep(F, 0, 'out_label', 'labels', 'out_label does not take its own position as origin')
    for a in ('out_label_with_orig', 'define_label'):
        # growing the table: the old entries are copied to the start of a table long enough
        for p, r, pos, tab in run(a, ('con', 'Label_undefined', NIL), *((orig, lbl) if a[0] == 'o' else (lbl,))):
            for e in p.events:
                if e[0] == 'copy' and dict(e[1][1]).get('di') != K(0):
                    rep(F, 0, 'extend_label_table', 'labels', 'growing the table moves its entries')
    if n < 5:
        raise AnalysisError('only %d label paths' % n)


def contags(wid, stats):
    """Elab.setTags gives no constructor a tag above Config.maxBlockTag, and that is below the tags of the runtime"""
    dirs = [emit.opcodes_file(), COMP, os.path.join(cbuild.REPO, 'src/mosmllib')]
    cfg = smlev.Eval(dirs, {}).module('Config')
    v = cfg.v['maxBlockTag'].force() if 'maxBlockTag' in cfg.v else None
    if v is None or v[0] != 'k':
        raise AnalysisError('maxBlockTag not found in Config')
    stats['constructor_tag_limit'] = v[1]
    if v[1] > 249:
        wid('src/compiler/Config.mlp', 0, 'maxBlockTag', 'constructor tags', 'constructor tags up to %d reach the tags reserved by the runtime' % v[1])
    LIM = 2

    def fail(e, *a):
        raise smlev.Raise(('con', 'Toplevel', None))
    pr = {'Config.maxBlockTag': K(LIM), 'errorMsg': Prim(fail, 2), 'Location.errorMsg': Prim(fail, 2), 'Types.mkConInfo': Prim(lambda e, x: ('sv', 'info'), 1), 'mkConInfo': Prim(lambda e, x: ('sv', 'info'), 1),
          'Globals.setConTag': Prim(lambda e, i, t: (e.p.events.append(('tag', t)), UNIT)[1], 2), 'Globals.setConSpan': Prim(lambda e, i, t: (e.p.events.append(('span', t)), UNIT)[1], 2),
          'longIdentAsIdent': Prim(lambda e, x, y: ('sv', 'ident:%r' % (x,)), 2), 'Const.longIdentAsIdent': Prim(lambda e, x, y: ('sv', 'ident:%r' % (x,)), 2),
          'mkGlobalName': Prim(lambda e, x: ('sv', 'global'), 1), 'Units.mkGlobalName': Prim(lambda e, x: ('sv', 'global'), 1),
          'prim:sml_string_of_int': Prim(lambda e, x: ('S', '?'), 1), 'List.length': Prim(lambda e, l: K(len(bback.tolist(l))), 1)}
    E = smlev.Eval(dirs, pr)
    f = E.module('Elab').v.get('setTags')
    if f is None:
        raise AnalysisError('Elab.setTags not found')
    E.conarity.setdefault('ConBind', 1)
    for n in range(1, LIM + 4):
        cbs = bback.fromlist([('con', 'ConBind', ('tup', (('sv', 'ii%d' % i), ('sv', 'ty%d' % i)))) for i in range(n)])
        done = False
        for p, r in E.paths(lambda: E.call(E.force(f), cbs)):
            stats['constructor_tag_paths'] += 1
            ts = [e[1] for e in p.events if e[0] == 'tag']
            if any(t[0] == 'k' and t[1] > LIM for t in ts):
                wid('src/compiler/Elab.sml', 0, 'setTags', 'constructor tags', 'a constructor gets a tag above maxBlockTag')
            elif any(t[0] != 'k' for t in ts):
                raise Stuck('constructor tag %r' % (ts,))
            if r[0] != 'raise':
                done = True
                if [t[1] for t in ts] != list(range(n)):
                    wid('src/compiler/Elab.sml', 0, 'setTags', 'constructor tags', '%d constructors get the tags %s' % (n, ts))
        if done != (n <= LIM + 1):
            wid('src/compiler/Elab.sml', 0, 'setTags', 'constructor tags', 'a datatype of %d constructors is %s where the largest tag is %d' % (n, 'accepted' if done else 'rejected', LIM))
