"""The bytecode properties I01 (encoding), I02 (operand widths), I03 (fused instructions), I05 (code generation)."""
import collections
import os
import re
from . import bcheck, bemit, bmisc, bback, bcode, emit, machine, vn, smlev, cbuild
from .vn import K, sym, add, scale, lin, mk
from .cbuild import AnalysisError
from .report import Result

INTERP = bcode.INTERP
_c = {}


def O(n):
    return ('op', n)


def base():
    """programs, the layout of every instruction (with its disagreements) and the opcode numbers"""
    if not _c:
        c = bcheck.programs()
        reps = []
        st = collections.Counter()
        _c['c'] = c
        _c['L'] = bcheck.contract(c, lambda *a: reps.append(a))
        _c['reps'] = reps
        _c['en'] = bmisc.opcodes(c, lambda *a: reps.append(a), st)
        _c['st'] = st
        _c['S'] = bcheck.Seq(c['m'])
        if len(_c['L']) < 150:
            raise AnalysisError('only %d instructions found in the interpreter' % len(_c['L']))
    return _c


def num2op(b):
    return {v: k for k, v in b['en'].items()}


class Collector:
    def __init__(s, result):
        s.r = result

    def __call__(s, file, line, function, rule, message):
        s.r.add(file, line or 0, function, rule, message)


_em = {}


def emission():
    """emit_zam and emit against the layouts: (encoding reports, width reports, difference reports, seen, stats)"""
    if not _em:
        b = base()
        n2o = num2op(b)
        st = collections.Counter()
        enc, wid = [], []
        E = emit.Emitter()
        seen = bemit.emitted(E, b['L'], n2o, b['S'], lambda *a: enc.append(a), lambda *a: wid.append(a), st)
        if b['reps']:
            missing = []
        else:
            missing = sorted(k for k, v in seen.items() if not v and k != '?')
        if missing:
            raise AnalysisError('no path of emit_zam handles %s' % missing)
        if st['emission_paths'] < 150:
            raise AnalysisError('only %d paths through emit_zam' % st['emission_paths'])
        E = emit.Emitter(('emit_zam',))
        pe, pw = [], []
        bemit.peephole(E, b['L'], n2o, b['S'], lambda *a: pe.append(a), lambda *a: pw.append(a), st)
        if st['peephole_paths'] < 20:
            raise AnalysisError('only %d paths through emit' % st['peephole_paths'])
        _em.update(enc=enc, wid=wid, pe=pe, pw=pw, seen=seen, st=st)
    return _em


# ---- I03: the interpreter's fused and specialised instructions ------------------------------------
def pairs():
    """(fused, general, what is not compared)"""
    n = sym('n', 0, 65535)
    l = sym('L')
    i = sym('i', -2**30, 2**30 - 1)
    i7, i15 = sym('i', 0, 127), sym('i', -2**14, 2**14 - 1)
    g = sym('g', 0, 2**32 - 1)
    tg = sym('tag', 0, 255)
    for k in range(8):
        yield [O('ACC%d' % k)], [O('ACCESS'), K(k)], ()
        yield [O('PUSHACC%d' % k)], [O('PUSH'), O('ACCESS'), K(k)], ()
        if k:
            yield [O('ENV%d' % k)], [O('ENVACC'), K(k)], ()
            yield [O('PUSHENV%d' % k)], [O('PUSH'), O('ENVACC'), K(k)], ()
    yield [O('PUSHACC'), n], [O('PUSH'), O('ACCESS'), n], ()
    yield [O('PUSHENVACC'), n], [O('PUSH'), O('ENVACC'), n], ()
    for k in range(10):
        yield [O('ATOM%d' % k)], [O('ATOM'), K(k)], ()
    yield [O('PUSHATOM0')], [O('PUSH'), O('ATOM'), K(0)], ()
    yield [O('PUSHATOM'), n], [O('PUSH'), O('ATOM'), n], ()
    for k in range(4):
        yield [O('GETFIELD%d' % k)], [O('GETFIELD'), K(k)], ()
        yield [O('SETFIELD%d' % k)], [O('SETFIELD'), K(k)], ()
        yield [O('CONST%d' % k)], [O('CONSTINT'), K(k)], ()
        yield [O('PUSHCONST%d' % k)], [O('PUSH'), O('CONSTINT'), K(k)], ()
    yield [O('PUSHCONSTINT'), i], [O('PUSH'), O('CONSTINT'), i], ()
    yield [O('CONSTBYTE'), add(scale(i7, 2), K(1))], [O('CONSTINT'), i7], ()
    yield [O('CONSTSHORT'), add(scale(i15, 2), K(1))], [O('CONSTINT'), i15], ()
    yield [O('PUSH_GETGLOBAL'), g], [O('PUSH'), O('GETGLOBAL'), g], ()
    for a in (0, 1):
        for b in (0, 1):
            yield [O('GETFIELD%d_%d' % (a, b))], [O('GETFIELD'), K(a), O('GETFIELD'), K(b)], ()
    for k in (1, 2, 3, 4):
        z = sym('z', k + 1, 65535)
        yield [O('PUSH_GETGLOBAL_APPLY%d' % k), g], [O('PUSH'), O('GETGLOBAL'), g, O('APPLY%d' % k)], ()
        yield [O('PUSH_GETGLOBAL_APPTERM%d' % k), z, g], [O('PUSH'), O('GETGLOBAL'), g, O('APPTERM%d' % k), z], ('pc',)
        yield [O('PUSH_ENV1_APPLY%d' % k)], [O('PUSH'), O('ENV1'), O('APPLY%d' % k)], ()
        yield [O('PUSH_ENV1_APPTERM%d' % k), z], [O('PUSH'), O('ENV1'), O('APPTERM%d' % k), z], ('pc',)
        yield [O('APPTERM%d' % k), z], [O('APPTERM'), K(k), z], ()
        yield [O('MAKEBLOCK%d' % k), tg], [O('MAKEBLOCK'), add(tg, K(k << 10))], ()
    yield [O('RETURN1')], [O('RETURN'), K(1)], ()
    yield [O('RETURN2')], [O('RETURN'), K(2)], ()
    for o, u in (('EQ', 'EQ'), ('NEQ', 'NEQ'), ('LT', 'LTINT'), ('GT', 'GTINT'), ('LE', 'LEINT'), ('GE', 'GEINT')):
        yield [O('BRANCHIF' + o), l], [O(u), O('BRANCHIF'), l], ('accu',)
    yield [O('BRANCHIFNOT'), l], [O('BOOLNOT'), O('BRANCHIF'), l], ('accu',)
    for ty in ('INT', 'FLOAT', 'STRING', 'UNSIGN'):
        x = '' if ty == 'INT' else ty
        yield [O('EQ' + x), O('BOOLNOT')], [O('NEQ' + x)], ()
        if ty != 'FLOAT':           # not on NaN
            for a, b in (('LT', 'GE'), ('GT', 'LE')):
                yield [O(a + ty), O('BOOLNOT')], [O(b + ty)], ()
    yield [O('BRANCHIFNEQTAG'), tg, l], [O('TAGOF'), O('PUSH'), O('CONSTINT'), tg, O('NEQ'), O('BRANCHIF'), l], ('accu',)


def apply_as_general(S, k):
    """APPLYk = PUSH_RETADDR beneath the k arguments, then APPLY k, returning after the instruction"""
    M = S.M
    l = sym('END')
    a = S.effect([O('APPLY%d' % k)])
    args = {}

    def under(st):
        V = M.vnmachine(lambda *x: None)
        sp = st.v[M.sp]
        args['v'] = [V.read(add(sp, K(8 * i)), 8, None, st) for i in range(k)]
        st.v[M.sp] = add(sp, K(8 * k))

    def back(st):
        V = M.vnmachine(lambda *x: None)
        st.v[M.sp] = add(st.v[M.sp], K(-8 * k))
        for i in range(k):
            V.write(add(st.v[M.sp], K(8 * i)), 8, args['v'][i], st)
    b = S.effect([O('PUSH_RETADDR'), l, O('APPLY'), K(k)], prep={0: under, 2: back}, key='under')
    return S.diff(a, b, ('pc',))


def popbranch(S):
    """POPBRANCHIFNOT: branches like BRANCHIFNOT, afterwards the accumulator is the popped word"""
    l = sym('L')
    a = S.effect([O('POPBRANCHIFNOT'), l])
    b = S.effect([O('BRANCHIFNOT'), l])
    p = list(S.effect([O('ACCESS'), K(0), O('POP'), K(1)]).values())
    if len(p) != 1 or set(a) != set(b):
        return 'they distinguish different cases'
    p = p[0]
    off = add(sym('END'), K(0))
    for c in a:
        for k in ('accu', 'sp', 'memory', 'env', 'extra_args', 'calls'):
            if a[c][k] != p[k]:
                return 'it leaves another %s' % k
        if a[c]['pc'] != b[c]['pc'] or a[c]['next'] != b[c]['next']:
            return 'it branches differently from BRANCHIFNOT'
    return None


def ccall(S, k, n=None):
    """C_CALLk passes the k topmost values, deepest first, and drops all but one slot's worth of them"""
    M = S.M
    code = [O('C_CALL%d' % k), sym('p', 0, 65535)] if n is None else [O('C_CALLN'), K(n), sym('p', 0, 65535)]
    out = S.effect(code)
    m = k if n is None else n
    V = M.vnmachine(lambda *x: None)
    st = M.initial()
    want = [V.read(add(sym('sp'), K(8 * i)), 8, None, st) for i in range(m - 2, -1, -1)] + [sym('accu')]
    if len(out) != 1:
        return 'it has several outcomes'
    (f,) = out.values()
    ev = [e for e in f['calls'] if e[0] == 'call']
    pc = [e for e in ev if not isinstance(e[1], str) and 'cprim' in repr(e[1])]
    if len(pc) != 1:
        return 'it does not call the primitive once'
    def undo(t):
        # malloc does not touch the stack: what was loaded after it was there before
        if isinstance(t, tuple) and t and t[0] == 'ld':
            for e in ev:
                for L_ in e[4] or ():
                    if L_[0] == 'stack' and mk(L_[2], dict(L_[1])) == t[3]:
                        return L_[4]
            return t[:4] + ((0, ()),)
        return t
    a = [undo(x) for x in pc[0][2]]
    if n is None:
        if a != want:
            return 'it passes other values than the accumulator and the %d words on the stack, first argument deepest' % (m - 1)
    else:
        if len(a) != 2 or a[1] != K(m):
            return 'it does not pass the number of arguments'
        got = [undo(x) for x in vectorof(a[0], f, pc[0], m)]
        if got != want:
            return 'the argument vector does not hold the words on the stack, first argument deepest, followed by the accumulator'
    # the stack pointer is published before the call and read back after it, and primitives leave it as it was (M02)
    pub = [(L_[1], L_[4]) for e in ev for L_ in e[4] or () if any('extern_sp' in repr(t) for t, _ in L_[1])]
    c0, d0 = lin(f['sp'])
    back = [t for t in d0 if t[0] == 'ld' and 'extern_sp' in repr(t[3])]
    if not pub or len(back) != 1:
        return 'the stack pointer is not published before the call and read back after it'
    rise = add(add(f['sp'], back[0], -1), add(pub[-1][1], sym('sp'), -1))
    if rise != K(8 * (m - 1)):
        return 'it leaves the stack pointer %s bytes higher, not %d' % (lin(rise)[0], 8 * (m - 1))
    if f['env'][:1] != ('ld',) or f['env'][3] != back[0]:
        return 'the environment is not taken back from where it was saved'
    top = [L_ for e in ev for L_ in e[4] or () if L_[0] == 'stack' and mk(L_[2], dict(L_[1])) == pub[-1][1]]
    if not top or top[-1][4] != sym('env'):
        return 'the environment is not saved at the published stack pointer'
    if f['accu'][0] != 'ret':
        return 'the result of the primitive is not left in the accumulator'
    return None


def vectorof(p, f, ev, m):
    """contents of the argument vector at the time of the call"""
    mem = ev[4] or ()
    c, d = lin(p)
    b = tuple(sorted(d.items(), key=repr))
    out = [None] * m
    for L in mem:
        if L[1] == b and L[3] == 8 and (L[2] - c) % 8 == 0 and 0 <= (L[2] - c) // 8 < m:
            out[(L[2] - c) // 8] = L[4]
    return out


def words(x):
    return '; '.join(' '.join([a[1]]) for a in x if a[0] == 'op')


def mutants(S):
    """self-test: pairs that are not equivalent must be told apart"""
    l = sym('L')
    n = 0
    for a, b in (([O('ACC1')], [O('ACCESS'), K(2)]), ([O('PUSHACC1')], [O('ACCESS'), K(1)]), ([O('GETFIELD0_1')], [O('GETFIELD'), K(1), O('GETFIELD'), K(0)]),
                 ([O('RETURN1')], [O('RETURN'), K(2)]), ([O('BRANCHIFLT'), l], [O('LEINT'), O('BRANCHIF'), l]), ([O('CONST1')], [O('CONSTINT'), K(2)]),
                 ([O('LTFLOAT'), O('BOOLNOT')], [O('GEFLOAT')]), ([O('APPTERM1'), K(5)], [O('APPTERM'), K(2), K(5)]), ([O('MAKEBLOCK1'), K(3)], [O('MAKEBLOCK'), K(3 + (2 << 10))])):
        if S.diff(S.effect(a), S.effect(b), ('accu',) if 'BRANCH' in a[0][1] else ()) is None:
            raise AnalysisError('self-test: %s and %s are not told apart' % (words(a), words(b)))
        n += 1
    return n


def I03(tier):
    r = Result()
    rep = Collector(r)
    b = base()
    S, M = b['S'], b['c']['m']
    st = collections.Counter()
    fused = set()

    def bad(op, m):
        rep(INTERP, M.line(op), 'interprete', 'instruction equivalence', m)
    for a, g, ign in pairs():
        op = a[0][1]
        if any(x[1] not in M.label for x in a + g if x[0] == 'op'):
            raise AnalysisError('no handler for one of %s; %s' % (words(a), words(g)))
        fused.add(op)
        st['equivalences'] += 1
        d = S.diff(S.effect(a), S.effect(g), ign)
        if d:
            bad(op, '%s is not %s: %s' % (words(a), words(g), d))
    for k in (1, 2, 3, 4):
        st['equivalences'] += 1
        fused.add('APPLY%d' % k)
        d = apply_as_general(S, k)
        if d:
            bad('APPLY%d' % k, 'APPLY%d is not a return frame beneath the arguments and APPLY %d: %s' % (k, k, d))
    st['equivalences'] += 1
    fused.add('POPBRANCHIFNOT')
    d = popbranch(S)
    if d:
        bad('POPBRANCHIFNOT', 'POPBRANCHIFNOT is not BRANCHIFNOT with the popped word left in the accumulator: %s' % d)
    for k, n in [(k, None) for k in range(1, 6)] + [(0, 6), (0, 7), (0, 8)]:
        st['primitive_calls'] += 1
        d = ccall(S, k, n)
        if d:
            bad('C_CALL%d' % k if n is None else 'C_CALLN', '%s: %s' % ('C_CALL%d' % k if n is None else 'C_CALLN with %d arguments' % n, d))
    # the same handlers in the byte-code configuration: their operand layout is compared by I01; here the emitter's choices
    e = emission()
    for x in e['enc'] + e['pe']:
        if ': emits ' in x[-1]:
            rep(*x)
    nm = mutants(S)
    if st['equivalences'] < 100:
        raise AnalysisError('only %d equivalences' % st['equivalences'])
    r.coverage = dict(explanation='The effect of each fused or specialised instruction (accumulator, stack pointer, environment, argument count, next instruction, memory, runtime calls, per case) is computed from the handlers of interp.c by value numbering over their control-flow graphs and compared with the effect of the general instructions it abbreviates; every choice of instruction in Emitcode.sml (each path of emit_zam and of the peephole on three arbitrary instructions) is compared with the general sequence in the same way.',
                      fused_instructions=len(fused), equivalences=st['equivalences'], primitive_call_forms=st['primitive_calls'],
                      emission_paths=e['st']['emission_paths'], peephole_paths=e['st']['peephole_paths'], handler_sequences_evaluated=S.runs, selftest_instances=nm)
    r.assumptions = ASSUME + ['the least-slot argument of a tail call leaves at least one slot in the frame besides the arguments']
    return r


ASSUME = [
    'a code segment is shorter than 2^31 bytes and has fewer than 2^31 labels and slots',
    'the operands of abstract instructions lie in the ranges the code generator produces (slot counts are not negative, block tags are bytes)',
]


def I01(tier):
    r = Result()
    rep = Collector(r)
    b = base()
    c, L = b['c'], b['L']
    for x in b['reps']:
        rep(*x)
    st = collections.Counter(b['st'])
    bcheck.expander(c, L, rep, st)
    n2o = num2op(b)
    bmisc.fragments(c, L, n2o, rep, st)
    e = emission()
    for x in e['enc'] + e['pe']:
        rep(*x)
    dummy = lambda *a: None
    bmisc.buffers(rep, dummy, st)
    bmisc.patch(rep, dummy, st)
    bmisc.reloc(rep, st)
    bmisc.labels(rep, st)
    for k, lo in dict(opcodes=150, expander_turns=450, buffer_paths=3, patch_paths=4, label_paths=3, reloc_paths=3, fragments=2).items():
        if st[k] < lo:
            raise AnalysisError('only %d %s' % (st[k], k))
    r.coverage = dict(explanation='The operand layout (offset, width, signedness, label origin, length) of every instruction is read off its handler in interp.c by dataflow in three configurations (byte code with jump table, byte code with switch, threaded words); the threaded expander and the byte-order fix-up are evaluated on one arbitrary instance of every instruction and must consume, translate or reverse exactly that layout; the byte sequences of every path of Emitcode.emit_zam and of its peephole are decoded with the layout, must be complete instructions with labels relative to the right origin, and must equal the general meaning of the abstract instruction; Buffcode, Patch, Reloc and Labels are evaluated for byte order, position and label distance.',
                      instructions=len(L), handler_configurations=3, **{k: v for k, v in st.items()}, emission_paths=e['st']['emission_paths'], peephole_paths=e['st']['peephole_paths'],
                      abstract_instructions=len(e['seen']), operands_emitted=e['st']['operands'], selftest_instances=layouttest(b))
    r.assumptions = ASSUME
    return r


def layouttest(b):
    """self-test: a layout that is wrong by one byte, sign or label must not decode what the emitter writes"""
    n = 0
    E = emit.Emitter()
    n2o = num2op(b)
    for op, ops, tot in (('ACCESS', [(0, 1, False, None)], 1), ('BRANCH', [(0, 4, False, None)], 4), ('PUSH_GETGLOBAL', [(0, 1, False, None)], 1)):
        if op not in b['L']:
            continue
        L2 = dict(b['L'])
        old = L2[op]
        if old.ops == ops:
            ops, tot = [(0, 2, False, None)], 2
        L2[op] = bcheck.Layout(ops, tot)
        got = []
        st = collections.Counter()
        for p, r in list(E.paths(lambda: E.ev.call(E.fn('emit_zam'), ('sv', 'zam')))):
            if r[0] == 'raise':
                continue
            try:
                bcheck.decode(p, p.events, L2, n2o)
            except bcheck.Bad:
                got.append(1)
        if got:
            n += 1
    if not n:
        raise AnalysisError('self-test: a wrong operand layout was not noticed')
    return n


def I02(tier):
    r = Result()
    rep = Collector(r)
    e = emission()
    for x in e['wid'] + e['pw']:
        rep(*x)
    st = collections.Counter()
    dummy = lambda *a: None
    bmisc.buffers(dummy, rep, st)
    bmisc.patch(dummy, rep, st)
    bmisc.contags(rep, st)
    if e['st']['operands'] < 150:
        raise AnalysisError('only %d operands' % e['st']['operands'])
    if bemit.widths(bcheck.Dec('X', [('num', sym('x', 0, 256), 1, False)], 0)) == [] or bemit.widths(bcheck.Dec('X', [('num', sym('x', 0, 255), 1, False)], 0)):
        raise AnalysisError('self-test of the operand widths')
    r.coverage = dict(explanation='For every path of Emitcode.emit_zam and of its peephole, the interval of each operand written (from the guards passed on the path; unknown otherwise) must lie within the width and signedness with which the interpreter reads it; relocated slots (Patch) must be checked before each write; constructor tags must be bounded where constructors are numbered (Elab).',
                      operands=e['st']['operands'], emission_paths=e['st']['emission_paths'], peephole_paths=e['st']['peephole_paths'], patch_paths=st['patch_paths'],
                      constructor_tag_limit=st['constructor_tag_limit'], constructor_tag_paths=st['constructor_tag_paths'], buffer_paths=st['buffer_paths'], selftest_instances=2)
    r.assumptions = ASSUME
    return r


def I05(tier):
    r = Result()
    rep = Collector(r)
    st = collections.Counter()
    bback.codegen(rep, st)
    bback.bodies(rep, st)
    bback.variables(rep, st)
    bback.closures(rep, st)
    for k, lo in dict(forms=180, generated=900, outcomes=2000, bodies=4, renumbered=20, unref=5, shared=5, closures=60, occurrences=300).items():
        if st[k] < lo:
            raise AnalysisError('only %d %s' % (st[k], k))
    r.coverage = dict(explanation='Back.compileExp is evaluated abstractly on every expression form with opaque subexpressions, for two stack layouts and an arbitrary continuation; the instructions it returns are interpreted over an abstract stack machine in which each subexpression may return, fail to match or raise, and every outcome (result, stack depth and contents, order of evaluation, branch taken, exception) must be the one the expression form prescribes. Function entry sequences, the renumbering of variables, the rewriting of references into variables and the construction of closures (every variable of a lifted body resolved through its closure) are treated in the same way.', **st)
    r.assumptions = ['a static failure does not cross the handler of an enclosing handle', 'the return in a continuation drops exactly the frame of the function', 'the operand stack is deep enough (not claimed)']
    return r
