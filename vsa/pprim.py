"""P01: every primitive an ML declaration names exists with that arity."""
import os
import re
from . import bprop, bcheck, bemit, emit, smlev, vn, prims, sml, cbuild, cir, checks
from .vn import K, sym, add, lin
from .cbuild import AnalysisError
from .report import Result

COMP = 'src/compiler/'
# units for another platform's runtime, not part of the build
NOTBUILT = {'AppleScript'}


def stackuse(M, op):
    """how many stack slots the handler of op removes on its way to the next instruction (None: it never gets there)"""
    base = sym('CODE')
    st = M.initial()
    st.v[M.pc] = base

    def oracle(st, addr, size, sg):
        c, d = lin(addr)
        return sym('opnd@%d' % c, 0, 65535) if d == {base: 1} else None
    V = vn.VN(M.P, M.f, oracle=oracle, maxvisit=2, maxpaths=6000)
    V.loopfree = (M.pc, M.sp)
    r = set()
    for fin, s in V.run(st, M.block(op), lambda v, s: ('next', v)):
        if fin[0] != 'next':
            continue
        c, d = lin(add(s.v[M.sp], sym('sp'), -1))
        pc = lin(s.v[M.pc])[1]
        if pc.get(base) != 1:
            continue            # an exception, or another function
        r.add(c // 8 if not d and c % 8 == 0 else 'a varying number of')
    if len(r) > 1:
        return 'a varying number of'
    return r.pop() if r else None


class Arity:
    """stack arguments of every compiler primitive, from the emitter and the interpreter"""

    def __init__(s):
        s.b = bprop.base()
        s.n2o = bprop.num2op(s.b)
        s.E = emit.Emitter()
        s.M = s.b['c']['m']
        s.ops = {}
        s.memo = {}

    def op(s, name):
        if name not in s.ops:
            s.ops[name] = stackuse(s.M, name)
        return s.ops[name]

    def of(s, v):
        """arguments a primitive value takes, or None when it never continues"""
        c, x = v[1], v[2]
        if c == 'Pccall':
            return x[1][1][1]
        if c == 'Pmakeblock':
            return 'any'
        if c == 'Pfield':
            return 1
        if c == 'Psetfield':
            return 2
        k = repr(v)
        if k in s.memo:
            return s.memo[k]
        res = set()
        for p, r in s.E.paths(lambda: s.E.ev.call(s.E.fn('emit_zam'), ('con', 'Kprim', v))):
            if r[0] == 'raise':
                res.add('unknown')
                continue
            n = 0
            for d in bcheck.decode(p, p.events, s.b['L'], s.n2o):
                q = s.op(d.op)
                if q is None or isinstance(q, str):
                    n = q
                    break
                n += q
            res.add(n if n is None or isinstance(n, str) else n + 1)
        s.memo[k] = res.pop() if len(res) == 1 else 'different numbers of'
        return s.memo[k]


def show(v):
    return v[1] + ('' if v[2] is None else '(%s)' % show(v[2]) if v[2][0] == 'con' else ' %s' % (v[2][1],) if v[2][0] == 'k' else '(%s)' % ', '.join(show(x) if x[0] == 'con' else str(x[1]) for x in v[2][1]) if v[2][0] == 'tup' else '')


PRIM = re.compile(r'P[a-z]\w*$')


def strof(v):
    if v[0] == 'str':
        return v[1]
    return None


def table(ev, r):
    """the name table of Primdec: (names in order, values)"""
    asts = prims.parse_all()
    ast = asts.get(COMP + 'Primdec.sml')
    if ast is None:
        raise AnalysisError('Primdec.sml not found')
    vecs = []

    def w(n):
        if n.k == 'vector' or n.k == 'vec':
            es = n.a[0]
            if len(es) > 40 and all(e.k == 'tuple' and len(e.a[0]) == 2 and e.a[0][0].k == 'str' for e in es):
                vecs.append(n)
    sml.walk(ast, w)
    if len(vecs) != 1:
        raise AnalysisError('name table of Primdec not found')
    out = []
    for e in vecs[0].a[0]:
        out.append((e.a[0][0].a[0], const(e.a[0][1]), e.line))
    return out


def const(e):
    """a closed constructor expression as a value, or None"""
    if e.k == 'id':
        n = e.a[0].split('.')[-1]
        return ('con', n, None) if n[:1].isupper() else None
    if e.k == 'int':
        return K(e.a[0])
    if e.k == 'str':
        return ('str', e.a[0])
    if e.k == 'paren':
        return const(e.a[0])
    if e.k == 'tuple':
        x = [const(y) for y in e.a[0]]
        return None if None in x else ('tup', tuple(x))
    if e.k == 'app' and e.a[0].k == 'id':
        n = e.a[0].a[0].split('.')[-1]
        x = const(e.a[1])
        return ('con', n, x) if n[:1].isupper() and x is not None else None
    return None


def P01(tier):
    r = Result()
    st = dict(declarations=0, c_primitives=0, instruction_primitives=0, table_entries=0, dynamic_symbols=0, builtin_entries=0, curried_pairs=0, c_functions=0)
    P = checks.program()
    A = Arity()
    # -- the C tables
    c, names = None, None
    for u, g in P.globals.items():
        n = u.split('#')[0]
        if n == 'cprim' and g['init']:
            c = g
        if n == 'names_of_cprim' and g['init']:
            names = g
    if not c or not names:
        raise AnalysisError('primitive tables not found')
    fns = [x.a[0] if getattr(x, 'op', '') == 'fn' else fnof(x) for x in c['init']]
    strs = [strlit(x) for x in names['init']]
    if len(fns) < 120:
        raise AnalysisError('only %d entries in the primitive table' % len(fns))
    for i in range(max(len(fns), len(strs))):
        a = fns[i] if i < len(fns) else None
        b = strs[i] if i < len(strs) else None
        st['table_entries'] += 1
        if a != b:
            r.add('src/runtime/prims.c', 0, 'names_of_cprim', 'primitive tables', 'entry %d of the function table is %s, of the name table %s' % (i, a, b))
    ctab = set(x for x in fns if x)
    seen = set()
    for n in strs:
        if n and n in seen:
            r.add('src/runtime/prims.c', 0, 'names_of_cprim', 'primitive tables', 'the name %s occurs twice' % n)
        seen.add(n)
    # -- the table of instruction primitives
    tab = table(A, r)
    prev = None
    byname = {}
    for n, v, line in tab:
        if prev is not None and not prev.encode() < n.encode():
            r.add(COMP + 'Primdec.sml', line, 'primitive_names', 'sorted name table', '%r is listed after %r: the binary search may not find one of them' % (n, prev))
        prev = n
        if v is None:
            raise AnalysisError('entry %s of primitive_names is not a constant' % n)
        byname[n] = v
        m = re.match(r'(set)?field(\d+)$', n)
        if m and (v[1] != ('Psetfield' if m.group(1) else 'Pfield') or v[2] != K(int(m.group(2)))):
            r.add(COMP + 'Primdec.sml', line, 'primitive_names', 'name table', '%r denotes %s' % (n, show(v)))
    kinds = {}
    used = set()

    def instr(v, n, file, line, what):
        st['instruction_primitives'] += 1
        k = A.of(v)
        if k in ('any', None):
            return
        if k == 'unknown':
            r.add(file, line, what, 'unknown primitive', '%s: the code generator has no instruction for %s' % (what, show(v)))
        elif k != n:
            r.add(file, line, what, 'arity', '%s is declared with %d argument%s, the instruction of %s takes %s' % (what, n, '' if n == 1 else 's', show(v), k))

    def cprim(name, n, file, line, what, unit=False, dyn=False):
        if name in used and False:
            return
        used.add(name)
        st['dynamic_symbols' if dyn else 'c_primitives'] += 1
        if not dyn and name not in ctab:
            r.add(file, line, what, 'unknown primitive', '%s names %s, which is not in the runtime\'s table of primitives' % (what, name))
            return
        f = P.fns.get(name)
        if f is None:
            if not dyn:
                r.add(file, line, what, 'unknown primitive', '%s names %s, which no C file of the runtime defines' % (what, name))
            else:
                r.add(file, line, what, 'unknown primitive', '%s names the symbol %s, which the library\'s C file does not define' % (what, name))
            return
        if f.static:
            r.add(f.file, f.line, name, 'unknown primitive', '%s is static, so the symbol %s names cannot be found' % (name, what))
        st['c_functions'] += 1
        ps = [P.resolve(ty) for u, ty in f.params]
        if n == 1 and not ps and unit:
            pass                # a function without parameters may be handed the unit value
        elif n <= 5:
            if len(ps) != n or f.variadic if hasattr(f, 'variadic') else len(ps) != n:
                r.add(file, line, what, 'arity', '%s calls %s with %d argument%s, the C function takes %d' % (what, name, n, '' if n == 1 else 's', len(ps)))
                return
            for (u, ty), q in zip(f.params, ps):
                if not word(P, q):
                    r.add(f.file, f.line, name, 'word-sized parameters', 'parameter %s of %s has type %s, the caller passes a word' % (u.split('#')[0], name, ty))
        else:
            if len(ps) != 2 or not word(P, ps[0]) or cir.width(ps[1]) is None:
                r.add(file, line, what, 'arity', '%s calls %s with %d arguments, which are passed as an array and a count, but the C function takes (%s)' % (what, name, n, ', '.join(ty for u, ty in f.params)))
        rt = P.resolve(f.ret)
        if not word(P, rt) and not (rt == 'void' and not returns(f)):
            r.add(f.file, f.line, name, 'word-sized result', '%s returns %s, the caller expects a word' % (name, f.ret))

    # -- declarations
    dynfiles = set(f.file for f in P.fns.values() if f.file.startswith('src/dynlibs'))
    gen = predefined()
    for d in prims.collect():
        if os.path.basename(d.file).split('.')[0] in NOTBUILT:
            continue
        st['declarations'] += 1
        what = '%s' % (d.name if d.how != 'MLPccall' else d.cname)
        if d.how == 'dyn':
            dirn = os.path.basename(os.path.dirname(d.file))
            have = [f for f in dynfiles]
            if d.cname in P.fns and P.fns[d.cname].file in dynfiles:
                cprim(d.cname, d.arity, d.file, d.line, what, unit=d.args == ['imm'], dyn=True)
            else:
                # the C file is known only for libraries that can be parsed here
                src = textdef(d.cname)
                if src is None:
                    r.add(d.file, d.line, what, 'unknown primitive', '%s names the symbol %s, which no C file of the bundled libraries defines' % (what, d.cname))
                elif src != d.arity and src is not True:
                    r.add(d.file, d.line, what, 'arity', '%s calls %s with %d arguments, the C function takes %d' % (what, d.cname, d.arity, src))
                else:
                    st['dynamic_symbols'] += 1
            continue
        if d.how == 'prim':
            if d.arity == 0:
                if d.cname not in gen:
                    r.add(d.file, d.line, what, 'unknown primitive', '%s names the value %s, which the runtime does not provide' % (what, d.cname))
                continue
            al = prims.aliases(prims.parse_all()[d.file])
            n = arrows(d.ty, al)
            if n < d.arity and not isvar(d.ty, al):
                r.add(d.file, d.line, what, 'arity', '%s is declared with %d arguments, but its type has only %d' % (what, d.arity, n))
            if d.cname in byname:
                instr(byname[d.cname], d.arity, d.file, d.line, what)
                continue
        cprim(d.cname, d.arity, d.file, d.line, what, unit=d.tyargs and len(d.tyargs) == 1 and d.tyargs[0].k == 'tycon' and d.tyargs[0].a[1] == 'unit')
    # -- primitives built into the compiler
    for rel, ast in prims.parse_all(('compiler',), ('sml', 'mlp')).items():
        base = os.path.basename(rel)
        if base in ('Pr_lam.sml',):
            continue

        def w(n, rel=rel):
            if n.k != 'app' or n.a[0].k != 'id':
                return
            f = n.a[0].a[0].split('.')[-1]
            if f in ('MLPprim', 'VMprim', 'VMPprim'):
                x = const(n.a[1])
                if x is None or x[0] != 'tup' or len(x[1]) != 2 or x[1][0][0] != 'k' or x[1][1][0] != 'con':
                    return
                st['builtin_entries'] += 1
                k, v = x[1][0][1], x[1][1]
                if f == 'VMPprim':
                    k += 1          # the last argument is a pair
                if v[1] == 'Pmakeblock' or v[1] == 'Patom':
                    return
                if v[1] == 'Pccall':
                    k2 = v[2][1][1][1]
                    if k != k2:
                        r.add(rel, n.line, f, 'arity', '%s is applied to %d arguments, the primitive %s takes %d' % (f, k, v[2][1][0][1], k2))
                    return
                instr(v, k, rel, n.line, '%s %s' % (f, show(v)))
            elif f == 'Pccall':
                x = const(n.a[1])
                if x and x[0] == 'tup' and len(x[1]) == 2 and x[1][0][0] == 'str' and x[1][1][0] == 'k':
                    cprim(x[1][0][1], x[1][1][1], rel, n.line, 'the compiler')
        sml.walk(ast, w)
    curried(A, r, st)
    lookup(byname, r, st)
    floors = dict(declarations=500, c_primitives=200, instruction_primitives=100, table_entries=150, dynamic_symbols=100, builtin_entries=60, curried_pairs=25)
    for k, lo in floors.items():
        if st[k] < lo:
            raise AnalysisError('only %d %s found (at least %d expected)' % (st[k], k, lo))
    st['instructions_measured'] = len(A.ops)
    # self-test: a wrong arity and an unknown name are seen
    n0 = len(r.violations)
    st2 = dict(st)
    instr(('con', 'Psmladdint', None), 3, 'selftest', 0, 'x')
    cprim('no_such_primitive_', 1, 'selftest', 0, 'y')
    cprim('sml_equal', 3, 'selftest', 0, 'z')
    if len(r.violations) != n0 + 3:
        raise AnalysisError('self-test of P01 failed')
    del r.violations[n0:]
    st.update(st2)
    r.coverage = dict(explanation='Every primitive declaration and every built-in primitive of the compiler is resolved: instruction primitives through the compiler\'s emitter to the interpreter\'s handler, whose net stack use (value numbering over all paths) gives the real arity; C primitives through the generated table to the C function\'s definition (parameter count, word-sized types). The two generated tables and the sorted name table are compared entry by entry.', **st)
    r.assumptions = ['dynamically linked libraries whose headers are not installed here (MySQL, PostgreSQL) are compared by the definition text of the C function']
    return r


def word(P, t):
    w = cir.width(t)
    if w:
        return w[0] == 64
    return t.rstrip().endswith('*') or t in ('value',)


def returns(f):
    """a return is reachable"""
    seen, w = set(), [f.entry]
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b)
        t = f.blocks[b].term
        if any(i.op == 'call' and i.a[1] in ('exit', '_exit', 'abort', 'longjmp') for i in f.blocks[b].ins):
            continue
        if t is not None and t.op == 'ret':
            return True
        w += list(f.blocks[b].succs(f))
    return False


def fnof(x):
    """a function designator, possibly cast"""
    if isinstance(x, tuple) and x and x[0] == 'fn':
        return x[1]
    while getattr(x, 'op', '') == 'cast':
        x = x.a[0]
    if getattr(x, 'op', '') == 'fn':
        return x.a[0]
    return None


def strlit(x):
    if isinstance(x, bytes):
        return x.decode(errors='replace')
    while getattr(x, 'op', '') == 'cast':
        x = x.a[0]
    if getattr(x, 'op', '') == 'str':
        s = x.a[0]
        return s.strip('"')
    return None


def arrows(ty, al, depth=0):
    n = 0
    while True:
        while ty.k == 'typaren':
            ty = ty.a[0]
        if ty.k == 'tyfun':
            n += 1
            ty = ty.a[1]
        elif ty.k == 'tycon' and ty.a[1] in al and not isinstance(al[ty.a[1]], tuple) and depth < 10:
            return n + arrows(al[ty.a[1]], al, depth + 1)
        else:
            return n


def isvar(ty, al):
    while ty.k == 'tyfun':
        ty = ty.a[1]
    return ty.k == 'tyvar'


def predefined():
    """global variables the runtime provides, from the comments of globals.h the build turns into Predef.sml"""
    p = os.path.join(cbuild.REPO, 'src/runtime/globals.h')
    r = set(re.findall(r'#define\s+\w+\s+\d+\s*/\*\s*"\w+"\s*,\s*"(\w+)"', open(p).read()))
    if len(r) < 20:
        raise AnalysisError('predefined globals not found in globals.h')
    return r


_text = {}


def textdef(name):
    """number of parameters of a C function in a bundled library that cannot be parsed here; True if not determined"""
    import glob
    if not _text:
        for p in sorted(glob.glob(os.path.join(cbuild.REPO, 'src/dynlibs/*/*.c'))):
            s = open(p, errors='replace').read()
            s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
            for m in re.finditer(r'\n\w[\w \t]*?[ \t\n*]+(\w+)\s*\(([^;{}()]*)\)\s*(?=[\{\w/])', s):
                a = m.group(2).strip()
                _text.setdefault(m.group(1), 0 if a in ('', 'void') else len(a.split(',')))
    return _text.get(name)


def curried(A, r, st):
    """curriedPrimVersion maps an entry to one whose implementation is the same primitive on separate arguments"""
    asts = prims.parse_all(('compiler',), ('sml', 'mlp'))
    ast = asts.get(COMP + 'Front.sml')
    if ast is None:
        raise AnalysisError('Front.sml not found')
    E = smlev.Eval([emit.opcodes_file(), os.path.join(cbuild.REPO, 'src/compiler'), os.path.join(cbuild.REPO, 'src/mosmllib')], {})
    mod = E.module('Front')
    impl, cur = mod.v.get('getPrimImpl'), mod.v.get('curriedPrimVersion')
    if impl is None or cur is None:
        raise AnalysisError('getPrimImpl or curriedPrimVersion not found in Front')
    impl, cur = E.force(impl), E.force(cur)
    cons = []
    for rel, a in asts.items():
        if os.path.basename(rel) == 'Smlprim.sml':
            def w(n):
                if n.k == 'datatype':
                    for tv, name, cs in n.a[0]:
                        for c, t in cs:
                            cons.append((c, t))
            sml.walk(a, w)
    if len(cons) < 50:
        raise AnalysisError('constructors of the primitive type not found')
    file = COMP + 'Front.sml'

    def one(f, v):
        for p, x in E.paths(lambda: E.call(f, v)):
            return x
    n, nm = sym('arity', 1, 255), ('sv', 'name')
    for v, want in ((('con', 'MLPccall', ('tup', (n, nm))), ('con', 'VMprim', ('tup', (n, ('con', 'Pccall', ('tup', (nm, n))))))),
                    (('con', 'MLPprim', ('tup', (n, nm))), ('con', 'VMprim', ('tup', (n, nm))))):
        x = one(impl, v)
        if x != ('val', want):
            r.add(file, 0, 'getPrimImpl', 'arity', 'getPrimImpl does not keep the name and arity of %s' % v[1])
    eta(E, mod, impl, one, r, st)
    infos(E, impl, one, r, st)
    for c, t in cons:
        if t is not None:
            continue
        x = one(impl, ('con', c, None))
        if x[0] == 'raise':
            r.add(file, 0, 'getPrimImpl', 'unknown primitive', 'getPrimImpl has no case for %s' % c)
            continue
        x = x[1]
        y = one(cur, ('con', c, None))
        if y[0] == 'raise':
            r.add(file, 0, 'curriedPrimVersion', 'unknown primitive', 'curriedPrimVersion has no case for %s' % c)
            continue
        y = y[1]
        if y[1] == 'SOME':
            st['curried_pairs'] += 1
            z = one(impl, y[2])
            if x[1] != 'VMPprim' or z[0] != 'val' or z[1][1] != 'VMprim':
                r.add(file, 0, 'curriedPrimVersion', 'arity', 'the curried version of %s is %s, which is not implemented on separate arguments' % (c, y[2][1]))
                continue
            z = z[1]
            px, pz = x[2][1], z[2][1]
            if px[1] != pz[1] or pz[0][1] != px[0][1] + 1:
                r.add(file, 0, 'curriedPrimVersion', 'arity', 'the curried version of %s is %s, implemented by %s on %d arguments instead of %s on %d' % (c, y[2][1], show(pz[1]), pz[0][1], show(px[1]), px[0][1] + 1))
        else:
            if x[1] == 'VMPprim':
                r.add(file, 0, 'curriedPrimVersion', 'arity', '%s takes a pair but has no curried version' % c) if False else None


def lookup(byname, r, st):
    """findPrimitive: a listed name is found, whatever its place in the table, any other becomes a C call of the declared arity"""
    def vsub(e, t):
        v, i = t[1]
        if v[0] != 'vec' or i[0] != 'k':
            raise smlev.Stuck('vector access')
        if not 0 <= i[1] < len(v[1]):
            raise smlev.Raise(('con', 'Subscript', None))
        return v[1][i[1]]
    pr = {'Vector.sub': smlev.Prim(vsub, 1), 'Vector.length': smlev.Prim(lambda e, v: K(len(v[1])), 1)}
    E = smlev.Eval([emit.opcodes_file(), os.path.join(cbuild.REPO, 'src/compiler'), os.path.join(cbuild.REPO, 'src/mosmllib')], pr)
    mod = E.module('Primdec')
    if 'findPrimitive' not in mod.v:
        raise AnalysisError('findPrimitive not found in Primdec')
    f = E.force(mod.v['findPrimitive'])
    n = sym('arity', 1, 255)
    others = ['', ' ', '"', 'field', 'field13', 'sml_equal', 'zzz', '~', '~z'] + [x + '_' for x in byname]
    for name in list(byname) + [x for x in others if x not in byname]:
        for p, x in E.paths(lambda: E.call(f, n, ('S', name))):
            st['lookups'] = st.get('lookups', 0) + 1
            if name in byname:
                ok = x[0] == 'val' and x[1] == ('con', 'MLPprim', ('tup', (n, byname[name])))
                if not ok:
                    r.add(COMP + 'Primdec.sml', 0, 'findPrimitive', 'name table', 'the primitive %r is not found with its arity in the name table' % name)
            elif not (x[0] == 'val' and x[1] == ('con', 'MLPccall', ('tup', (n, ('S', name))))):
                r.add(COMP + 'Primdec.sml', 0, 'findPrimitive', 'name table', 'the name %r, which is not in the table, does not become a C primitive of the declared arity' % name)


def eta(E, mod, impl, one, r, st):
    """a primitive used as a value becomes a function of exactly its arguments, in order"""
    if 'trPrimVar' not in mod.v:
        raise AnalysisError('trPrimVar not found in Front')
    f = E.force(mod.v['trPrimVar'])
    file = COMP + 'Front.sml'
    nm = ('sv', 'name')

    def lst(v):
        out = []
        while v[1] == '::':
            out.append(v[2][1][0])
            v = v[2][1][1]
        return out
    for n in range(1, 8):
        v = ('con', 'MLPccall', ('tup', (K(n), nm)))
        x = one(f, v)
        st['eta_expansions'] = st.get('eta_expansions', 0) + 1
        d, y = 0, x[1] if x[0] == 'val' else None
        while y and y[0] == 'con' and y[1] == 'Lfn':
            d, y = d + 1, y[2]
        ok = d == n and y[1] == 'Lprim' and y[2][1][0] == ('con', 'Pccall', ('tup', (nm, K(n)))) and lst(y[2][1][1]) == [('con', 'Lvar', K(n - 1 - i)) for i in range(n)]
        if not ok:
            r.add(file, 0, 'trPrimVar', 'arity', 'a C primitive of %d argument%s used as a value does not become a function of %d arguments passing them in order' % (n, '' if n == 1 else 's', n))
    x = one(f, ('con', 'MLPadd_int', None))
    y = x[1] if x[0] == 'val' else None
    ok = False
    if y and y[1] == 'Lfn' and y[2][1] == 'Lprim':
        a = lst(y[2][2][1][1])
        ok = a == [('con', 'Lprim', ('tup', (('con', 'Pfield', K(i)), ('con', '::', ('tup', (('con', 'Lvar', K(0)), smlev.NIL)))))) for i in (0, 1)]
    if not ok:
        r.add(file, 0, 'trPrimVar', 'arity', 'a primitive on a pair used as a value does not become a function passing both components in order')


def infos(E, impl, one, r, st):
    """mkPrimInfo n prim: n is the number of arguments of prim"""
    for rel, ast in prims.parse_all(('compiler',), ('sml', 'mlp')).items():
        def w(n, rel=rel):
            if n.k == 'app' and n.a[0].k == 'app' and n.a[0].a[0].k == 'id' and n.a[0].a[0].a[0].split('.')[-1] == 'mkPrimInfo':
                k, v = const(n.a[0].a[1]), const(n.a[1])
                if k is None or k[0] != 'k' or v is None:
                    return
                st['prim_infos'] = st.get('prim_infos', 0) + 1
                if v[1] in ('MLPgv', 'MLPgvt'):
                    return
                if v[1] in ('MLPprim', 'MLPccall'):
                    m = v[2][1][0][1]
                else:
                    x = one(impl, v)
                    if x[0] != 'val' or x[1][1] not in ('VMprim', 'VMPprim'):
                        return
                    m = x[1][2][1][0][1]
                if k[1] != m:
                    r.add(rel, n.line, 'mkPrimInfo', 'arity', 'the built-in %s is entered with %d arguments, its implementation takes %d' % (show(v), k[1], m))
        sml.walk(ast, w)
    if st.get('prim_infos', 0) < 30:
        raise AnalysisError('only %d built-in primitive entries found' % st.get('prim_infos', 0))
