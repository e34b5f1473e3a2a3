"""Every byte sequence the compiler's emitter can produce for an abstract-machine instruction, as terms."""
import os
import subprocess
from . import sml, smlev, vn, cbuild
from .vn import K, sym, add, lin, mk, op2
from .smlev import Prim, Ref, UNIT, Stuck, TRUE, FALSE
from .cbuild import AnalysisError

COMP = 'src/compiler'


def opcodes_file():
    """directory with Opcodes.sml generated from instruct.h as the build does"""
    d = cbuild.scratch()
    g = os.path.join(d, 'gen')
    os.makedirs(g, exist_ok=True)
    p = os.path.join(g, 'Opcodes.sml')
    if not os.path.exists(p):
        r = subprocess.run(['perl', os.path.join(d, 'src/tools/mksmlopc'), os.path.join(d, 'src/runtime/instruct.h')], capture_output=True, text=True, stdin=subprocess.DEVNULL)
        if r.returncode or 'val ' not in r.stdout:
            raise AnalysisError('mksmlopc failed')
        with open(p, 'w') as f:
            f.write(r.stdout)
    return g


WIDTH = {'slot_for_literal': 4, 'slot_for_get_global': 4, 'slot_for_set_global': 4, 'slot_for_c_prim': 2}


# what the compiler passes to the emitter (counts and indices; constructor tags are bounded by the guard in Elab)
RANGES = [(r'CONtag\.1$', 0, 255), (r'Pccall\.2$', 1, 1 << 30), (r'Patom$', 0, 255), (r'Kapply$|Kreturn$|Kgrab$|Kclosurerec\.2$|Kappterm\.1$|Kmakeblock\.2$|Kpop$', 1, 1 << 40),
          (r'Kappterm\.2$', 1, 1 << 40),
          (r'Kclosure\.2$|Kaccess$|Kenvacc$|Kassign$|K[gs]etfield$|Pdummy$', 0, 1 << 40)]


class Emitter:
    def __init__(s, opaque=()):
        s.comp = os.path.join(cbuild.REPO, COMP)
        s.dirs = [opcodes_file(), s.comp, os.path.join(cbuild.REPO, 'src/mosmllib')]
        s.pos = Ref(K(0))

        def out(e, b):
            # few possible values: one path per value, so that a computed opcode is known
            lo, hi = e.p.interval(b) if smlev.isint(b) else (0, 1 << 30)
            if b[0] != 'k' and hi - lo <= 16:
                v = lo + e.p.choose(hi - lo + 1)
                e.p.assume(b, v, v)
                b = K(v)
            e.p.events.append(('b', b))
            s.pos.v = add(s.pos.v, K(1))
            return UNIT

        def outlab(e, orig, lbl):
            e.p.events.append(('l', orig, lbl))
            s.pos.v = add(s.pos.v, K(4))
            return UNIT

        def deflab(e, lbl):
            e.p.events.append(('def', lbl))
            return UNIT

        def slot(k, w):
            def f(e, x):
                e.p.events.append(('s', k, x, w))
                s.pos.v = add(s.pos.v, K(w))
                return UNIT
            return Prim(f, 1)
        pr = {'Buffcode.out': Prim(out, 1), 'Buffcode.out_position': s.pos, 'Labels.out_label_with_orig': Prim(outlab, 2),
              'Labels.define_label': Prim(deflab, 1), 'Array.length': Prim(lambda e, v: sym('len(%s)' % v[1], 0, (1 << 30)), 1),
              'Array.sub': Prim(lambda e, t: ('sv', '%s[]' % t[1][0][1]), 1)}
        pr['length'] = pr['Array.length']
        for k, w in WIDTH.items():
            pr['Reloc.' + k] = slot(k, w)
        for n in opaque:
            pr['Emitcode.' + n] = Prim(lambda e, z, n=n: (e.p.events.append(('call', n, z)), UNIT)[1], 1)
        s.prims = pr
        s.ev = smlev.Eval(s.dirs, pr)
        s.ev.ranges = RANGES
        s.ev.intnames = r'P(int|word)_test\.PTnoteqimm$'
        s.mod = s.ev.module('Emitcode')

    def fn(s, n):
        return s.ev.force(s.mod.v[n])

    def paths(s, thunk):
        def th():
            s.pos.v = K(0)
            return thunk()
        return s.ev.paths(th)
