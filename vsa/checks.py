"""property id -> check function(tier) -> Result"""
import os
import re
import shutil
from . import cbuild, cir, cflow
from .cbuild import AnalysisError
from .report import Result, VERIF

_prog = {}


def program(fixtures=()):
    k = tuple(fixtures)
    if k not in _prog:
        d = cbuild.scratch()
        us = cbuild.runtime_units() + cbuild.DYN[:-1]
        for f in fixtures:
            shutil.copy(os.path.join(VERIF, 'fixtures', f), os.path.join(d, 'src/runtime', f))
            us.append('src/runtime/' + f)
        _prog[k] = cir.load_program(us)
    return _prog[k]


def expectations(fixture):
    r = set()
    with open(os.path.join(VERIF, 'fixtures', fixture)) as f:
        for n, l in enumerate(f, 1):
            for m in re.finditer(r'EXPECT (\w+)', l):
                r.add((m.group(1), n))
    return r


def selftest(fixture, prop, got):
    """the reports on the fixture must be exactly its EXPECT lines of this property"""
    want = {n for p, n in expectations(fixture) if p == prop}
    if not want:
        raise AnalysisError('no positive example for %s in %s' % (prop, fixture))
    if want != set(got):
        raise AnalysisError('self-test of %s on fixtures/%s: expected reports at lines %s, got %s' % (prop, fixture, sorted(want), sorted(set(got))))
    return len(want)


_gc = {}


def gc_checker():
    if not _gc:
        from . import gcheck
        P = program(('vsa_gc.c',))
        C = gcheck.Checker(P)
        C.run()
        _gc['c'] = C
    return _gc['c']


NOLINE = re.compile(r'\bline \d+\b|%t\d+(~\d+)?')


def gc_check(prop, expl, count, floor, extra=None):
    def run(tier):
        C = gc_checker()
        r = Result()
        fx = []
        for (p, file, line, msg), fn in sorted(C.reports.items()):
            if p != prop:
                continue
            if file.endswith('vsa_gc.c'):
                fx.append(line)
                continue
            r.add(file, line, fn, p, msg, key='%s|%s|%s|%s' % (p, file, fn, NOLINE.sub('_', msg)))
        n = selftest('vsa_gc.c', prop, fx)
        st = C.stats
        for k, lo in floor.items():
            if st[k] < lo:
                raise AnalysisError('only %d %s analysed (at least %d expected)' % (st[k], k, lo))
        r.coverage = dict(explanation=expl, **{k: st[k] for k in count}, selftest_instances=n,
                          summaries_unsafe_parameters=len(C.unsafe), functions_that_may_collect=len(C.gc), helpers_inlined=len(C.helpers))
        r.assumptions = GC_ASSUME
        if extra:
            extra(C, r)
        return r
    return run


GC_ASSUME = [
    'functions reached only through the collector (mark, sweep, oldify, ...) are the trusted implementation of the heap and are not analysed against their own clients\' rules',
    'parameters whose ML declaration is int, word, char, bool, unit or an enumeration hold no movable pointer',
    'foreign libraries (libc, gdbm, gmp, sockets) do not retain or call back into the ML heap',
]


def lazy(module, name):
    def run(tier):
        import importlib
        return getattr(importlib.import_module('vsa.' + module), name)(tier)
    return run


CHECKS = {
    'M01': gc_check('M01', 'Forward dataflow over every C function (helpers inlined, callees summarised): every value that may point into the ML heap, or into the movable ML stack, is followed to its uses; a use on a path with a call that may collect (or grow the stack) since the pointer was read, without the holder being a registered root, is reported.',
                    ('functions', 'gc_calls', 'ptr_uses'), dict(functions=280, gc_calls=150, ptr_uses=2500)),
    'M02': gc_check('M02', 'Forward dataflow on the chain of local-root frames, external_raise and the published ML stack pointer: each registered frame is well formed and linked, and every return of every function restores the chain and handler it found.',
                    ('functions', 'frames', 'returns', 'catch_points'), dict(functions=280, frames=35, returns=300, catch_points=1)),
    'M03': gc_check('M03', 'Every store of a possible pointer into a heap block is located by dataflow and must be a call of modify/initialize, hit a block that is provably fresh, or be followed by a write barrier proved complete by case analysis over (in heap, block, young, old contents, marking).',
                    ('functions', 'heap_stores', 'objects'), dict(functions=280, heap_stores=180, objects=60)),
    'M04': gc_check('M04', 'Each allocation site is followed: before a point where the collector can see the block (a possible collection with the block rooted, a store into another block, a return to ML) all its scannable words must have been written on every path; root slots are initialised when registered.',
                    ('functions', 'objects', 'gc_calls', 'frames'), dict(functions=280, objects=60, gc_calls=150)),
    'I01': lazy('bprop', 'I01'),
    'I02': lazy('bprop', 'I02'),
    'I03': lazy('bprop', 'I03'),
    'I04': lazy('palu', 'I04'),
    'I05': lazy('bprop', 'I05'),
    'C01': lazy('pbuf', 'C01'),
    'P02': lazy('plyt', 'P02'),
    'L02': lazy('lstream', 'L02'),
    'C02': lazy('pnull', 'C02'),
    'C03': lazy('pcall', 'C03'),
    'C04': lazy('psig', 'C04'),
    'P01': lazy('pprim', 'P01'),
    'S01': lazy('pser', 'S01'),
    'B01': lazy('pchan', 'B01'),
}
