"""P02: the layouts C code and ML code share.

The layout the ML side uses is read from its type declarations (labels sorted, constructors in order, accessor primitives
field<N>), the one the C side uses from its intermediate code: which field index each named quantity is stored to or loaded
from, the position of each member of a structure laid over an ML block, the entries of a flag table, the slot numbers.
A C quantity is compared with the label, constructor or accessor of the same name; one without a namesake is not judged.
"""
import os
import re
import subprocess
from . import cbuild, cflow, checks, prims, sml
from .cbuild import AnalysisError
from .report import Result

FIX = 'vsa_layout.c'
SYN = {'ru_stime': 'sys', 'ru_utime': 'usr', 'tms_stime': 'sys', 'tms_utime': 'usr', 'gc_time': 'gc', 'tv_sec': 'sec', 'tv_usec': 'usec'}
BUILTIN = {'option': [('NONE', 0), ('SOME', 1)], 'list': [('nil', 0), ('::', 2)]}
# block tags the compiler assumes, and the macro of the runtime that has to agree
TAGS = {'realTag': 'Double_tag', 'stringTag': 'String_tag', 'refTag': 'Reference_tag', 'closureTag': 'Closure_tag'}


def canon(s):
    return re.sub(r'[^a-z0-9]', '', re.sub(r'^tm_', '', s).lower())


def path(l):
    """canonical name of an l-value: the members of a structure path, or the variable"""
    fs = []
    while l.kind == 'fld':
        fs.append(l.a[1])
        l = l.a[0]
    fs = fs[::-1]
    r = []
    if l.kind == 'var':
        r = [l.a[0].split('#')[0]]
    names = r + fs
    out = set()
    for i in range(len(names)):
        tail = names[i:]
        out.add(''.join(canon(SYN.get(x, x)) for x in tail))
    return out


class Macros:
    """values of the object-like macros a unit sees, by the compiler's own preprocessor"""

    def __init__(s, unit):
        d = cbuild.scratch()
        p = os.path.join(d, unit)
        flags = cbuild.runtime_defs() if unit.startswith('src/runtime') else ['-Dunix', '-I' + os.path.join(d, 'src/runtime')]
        r = subprocess.run(['clang', *flags, '-w', '-E', '-dM', os.path.basename(p)], cwd=os.path.dirname(p), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        if r.returncode:
            raise AnalysisError('preprocessing of %s failed' % unit)
        s.d = dict(m.groups() for m in re.finditer(r'^#define (\w+) (.*)$', r.stdout.decode(errors='replace'), re.M))

    def value(s, n, depth=0):
        if n not in s.d or depth > 12:
            return None
        return s.expr(s.d[n], depth)

    def expr(s, t, depth=0):
        t = re.sub(r'\(\s*(?:unsigned|int|long|char|tag_t|mlsize_t)[\s\w]*\)', '', t)
        m = re.match(r'^\s*\(?\s*Atom\s*\((.*)\)\s*\)?\s*$', t)
        if m:
            return s.expr(m.group(1), depth + 1)
        toks = re.findall(r'0[xX][0-9a-fA-F]+|\d+|\w+|<<|>>|[-+*/|&~()]', t)
        if ''.join(toks).replace(' ', '') != re.sub(r'(?<=\d)[uUlL]+\b', '', re.sub(r'\s', '', t)):
            return None
        out = []
        for x in toks:
            if re.match(r'[A-Za-z_]', x):
                v = s.value(x, depth + 1)
                if v is None:
                    return None
                out.append('(%d)' % v)
            elif re.match(r'0\d+$', x):
                out.append(str(int(x, 8)))
            else:
                out.append(x)
        try:
            v = eval(' '.join(out), {'__builtins__': {}})
        except Exception:
            return None
        return v if isinstance(v, int) else None


# ---- the ML side -------------------------------------------------------------------------------------
def expand(ty, al, depth=0):
    while ty is not None and ty.k == 'tycon' and ty.a[1] in al and not isinstance(al[ty.a[1]], tuple) and depth < 10:
        ty = al[ty.a[1]]
        depth += 1
    return ty


def labels(ty, al):
    """['label' or None, ..] of a tuple or record type in the order of the fields, else None"""
    ty = expand(ty, al)
    if ty is None:
        return None
    if ty.k == 'tytuple':
        return [None] * len(ty.a[0])
    if ty.k == 'tyrecord':
        ls = [l for l, _ in ty.a[0]]
        if all(l.isdigit() for l in ls):
            return [None] * len(ls)
        return sorted(ls)
    return None


def mlside():
    """(declarations of C functions with types, accessors, datatypes, tuple patterns bound to constant tuples)"""
    asts = prims.parse_all()
    decls, acc, data, pats = [], {}, {}, []
    cn = {}
    for d in prims.collect():
        cn.setdefault((d.file, d.name), d.cname)
    for rel, ast in asts.items():
        al = prims.aliases(ast)
        for t, v in al.items():
            if isinstance(v, tuple):
                data.setdefault(rel, {})[t] = [c for c, _ in v[1]]
        for d in [d for d in prims.collect() if d.file == rel and d.ty is not None and isinstance(d.arity, int)]:
            a, res = prims.curry(d.ty)
            while len(a) > d.arity and d.how != 'dyn':
                res = sml.N('tyfun', 0, a.pop(), res)
            m = re.match(r'(set)?field(\d+)$', d.cname or '')
            if m and a and a[0].k == 'tycon':
                acc.setdefault((rel, a[0].a[1]), {}).setdefault(int(m.group(2)), set()).add((d.name, d.line))
            decls.append((d, a, res, al))

        def w(n, rel=rel):
            if n.k != 'val':
                return
            for p, e in n.a[1]:
                while p.k == 'ptyped':
                    p = p.a[0]
                if p.k != 'ptuple' or not all(x.k == 'pid' for x in p.a[0]):
                    continue
                lits = []
                x = e
                while x.k == 'app':
                    sml.walk(x.a[1], lambda y: lits.append(y.a[0]) if y.k == 'str' else None)
                    x = x.a[0]
                if x.k == 'id' and e.k == 'app':
                    f = cn.get((rel, x.a[0]))
                    pats.append((f or (lits[0] if len(lits) == 1 else None), [q.a[0] for q in p.a[0]], rel, n.line))
        sml.walk(ast, w)
    return decls, acc, data, pats


# ---- the C side --------------------------------------------------------------------------------------
def strip(e):
    while e.op == 'cast':
        e = e.a[0]
    return e


def ival(e):
    """value of a constant expression"""
    e = strip(e)
    if e.op == 'const':
        return e.a[0] if isinstance(e.a[0], int) else None
    if e.op == 'bin':
        a, b = ival(e.a[1]), ival(e.a[2])
        if a is None or b is None:
            return None
        try:
            return {'+': a + b, '-': a - b, '*': a * b, '<<': a << b if 0 <= b < 64 else None, '>>': a >> b if b >= 0 else None, '|': a | b, '&': a & b}.get(e.a[0])
        except Exception:
            return None
    if e.op == 'un' and e.a[0] == '-':
        a = ival(e.a[1])
        return None if a is None else -a
    return None


class Fn:
    """which block each variable of one function may denote, flow-insensitively"""

    def __init__(s, T, f):
        pick = lambda k: k != f.key and k in T.helpers and len(T.P.fns[k].blocks) <= 40
        s.T = T
        g = cflow.inline(T.F, f, pick, maxblocks=300, depth=2) if not f.addrlabels else f
        s.g = g = cflow.tempalias(g)
        s.val = {}
        s.defs = {}
        for i, (u, _) in enumerate(f.params):
            s.val[u] = {('param', i)}
        ch = True
        rounds = 0
        while ch and rounds < 12:
            ch = False
            rounds += 1
            for b in g.blocks.values():
                for i in b.ins:
                    if i.op == 'set':
                        k = s.key(i.a[0])
                        if k and rounds == 1:
                            s.defs.setdefault(k, []).append(i.a[1])
                        v = s.ev(i.a[1])
                    elif i.op == 'call' and i.a[0]:
                        k = i.a[0]
                        v = {s.alloc(i)} if s.alloc(i) else set()
                        if rounds == 1:
                            s.defs.setdefault(k, []).append(None)
                    else:
                        continue
                    if k and v - s.val.get(k, set()):
                        s.val.setdefault(k, set()).update(v)
                        ch = True
        s.ret = set()
        for b in g.blocks.values():
            if b.term and b.term.op == 'ret' and b.term.a and b.term.a[0] is not None:
                s.ret |= s.ev(b.term.a[0])

    def alloc(s, i):
        n = isinstance(i.a[1], str) and i.a[1].split('#')[0]
        if n in ('alloc', 'alloc_shr') and len(i.a[2]) == 2:
            return ('alloc', i.id, ival(i.a[2][0]), ival(i.a[2][1]), i.line)
        if n == 'alloc_tuple' and len(i.a[2]) == 1:
            return ('alloc', i.id, ival(i.a[2][0]), 0, i.line)
        return None

    def key(s, l):
        """variables and fixed elements of local arrays"""
        if l.kind == 'var':
            return l.a[0]
        if l.kind == 'mem':
            e = strip(l.a[0])
            k = 0
            if e.op == 'padd':
                k = ival(e.a[1])
                e = strip(e.a[0])
            if e.op == 'addr' and e.a[0].kind == 'var' and k is not None and not e.a[0].a[0].endswith('#g'):
                return '%s[%d]' % (e.a[0].a[0], k)
        return None

    def ev(s, e):
        e = strip(e)
        if e.op == 'load':
            k = s.key(e.a[0])
            if k:
                return set(s.val.get(k, ()))
            f = s.field(e.a[0])
            if f:
                return {('field', o, f[1]) for o in f[0] if o[0] != 'field' or o[1][0] != 'field'}
        return set()

    def field(s, l):
        """(blocks, index) of a field access with a constant index"""
        if l.kind != 'mem':
            return None
        e = strip(l.a[0])
        k = 0
        if e.op == 'padd':
            k = ival(e.a[1])
            e = strip(e.a[0])
        if k is None or e.op != 'load' or l.dty in ('char', 'unsigned char'):
            return None
        o = s.ev(e)
        return (o, k) if o else None

    def names(s, e, depth=0):
        """canonical names of the quantities an expression reads"""
        r = set()

        def lv(l):
            if l.kind in ('fld',):
                r.update(path(l))
                return
            if l.kind == 'var':
                u = l.a[0]
                r.add(canon(SYN.get(u.split('#')[0], u.split('#')[0])))
                ds = s.defs.get(u, ())
                if depth < 4 and len(ds) == 1 and ds[0] is not None:
                    r.update(s.names(ds[0], depth + 1))
        cflow.walk_e(e, lambda x: lv(x.a[0]) if x.op == 'load' else None)
        return r

    def dests(s):
        """(field origin, index) -> canonical names of the places its value is stored to, directly"""
        out = []
        for b in s.g.blocks.values():
            for i in b.ins:
                if i.op != 'set' or i.a[0].kind != 'fld' and not (i.a[0].kind == 'var' and i.a[0].a[0].endswith('#g')):
                    continue
                got = s.reads(i.a[1])
                if len(got) == 1:
                    out.append((got.pop(), path(i.a[0]), i))
        return out

    def reads(s, e, depth=0):
        got = set()

        def w(x):
            if x.op != 'load':
                return
            f = s.field(x.a[0])
            if f:
                got.update((o, f[1]) for o in f[0])
            elif x.a[0].kind == 'var' and depth < 4:
                ds = s.defs.get(x.a[0].a[0], ())
                if len(ds) == 1 and ds[0] is not None:
                    got.update(s.reads(ds[0], depth + 1))
        cflow.walk_e(e, w)
        return got


class Layout:
    def __init__(s):
        s.P = checks.program((FIX,))
        s.F = cflow.Facts(s.P)
        s.helpers = cflow.internal_helpers(s.F)
        s.R = Result()
        s.fx = []
        s.n = dict(results=0, blocks=0, fields=0, named_fields=0, overlays=0, members=0, flags=0, constructors=0, slots=0, exceptions=0, tags=0, constants=0)
        s.fnc = {}

    def fn(s, f):
        if f.key not in s.fnc:
            s.fnc[f.key] = Fn(s, f)
        return s.fnc[f.key]

    def bad(s, f, line, rule, msg, file=None, name=None):
        file = file or f.file
        if file.endswith(FIX):
            s.fx.append(line)
        else:
            s.R.add(file, line, name or f.name, 'P02', msg, key='P02|%s|%s|%s|%s' % (rule, file, name or f.name, msg))

    def cfun(s, name):
        return s.P.fns.get(name)

    # results and arguments -------------------------------------------------------------------------
    def blocks(s, decls):
        for d, a, res, al in decls:
            f = s.cfun(d.cname)
            if f is None:
                continue
            x = None
            ls = labels(res, al)
            r = expand(res, al)
            con = r.a[1] if r is not None and r.k == 'tycon' else None
            if ls or con in ('option', 'list'):
                x = s.fn(f)
                s.n['results'] += 1
            if x:
                for o in sorted((o for o in x.ret if o[0] == 'alloc'), key=str):
                    s.n['blocks'] += 1
                    if o[2] is None or o[3] is None:
                        continue
                    if ls and (o[2] != len(ls) or o[3] != 0):
                        s.bad(f, o[4], 'block', 'returns a block of %d fields and tag %d where %s declares a %s of %d' % (o[2], o[3], d.file, 'record' if ls[0] else 'tuple', len(ls)))
                    if con == 'option' and (o[2], o[3]) != (1, 1):
                        s.bad(f, o[4], 'block', 'returns a block of %d fields and tag %d where %s declares an option (SOME: 1 field, tag 1)' % (o[2], o[3], d.file))
                    if con == 'list' and (o[2], o[3]) != (2, 1):
                        s.bad(f, o[4], 'block', 'returns a block of %d fields and tag %d where %s declares a list (::: 2 fields, tag 1)' % (o[2], o[3], d.file))
                if ls:
                    s.stores(f, x, ls, d)
            for n, t in enumerate(a):
                ls = labels(t, al)
                if ls and n < len(f.params):
                    s.loads(f, s.fn(f), n, ls, d)
            # nested: a SOME of a tuple
            if con == 'option' and r.a[0]:
                ls = labels(r.a[0][0], al)
                if ls:
                    inner = set()
                    for b in x.g.blocks.values():
                        for i in b.ins:
                            if i.op == 'set':
                                q = x.field(i.a[0])
                                if q and any(o in x.ret for o in q[0]):
                                    inner |= {o for o in x.ev(i.a[1]) if o[0] == 'alloc'}
                    for o in inner:
                        if None not in o[2:4] and (o[2], o[3]) != (len(ls), 0):
                            s.bad(f, o[4], 'block', 'returns SOME of a block of %d fields and tag %d where %s declares a tuple of %d' % (o[2], o[3], d.file, len(ls)))

    def stores(s, f, x, ls, d):
        cl = [canon(l) if l else None for l in ls]
        for b in x.g.blocks.values():
            for i in b.ins:
                if i.op != 'set':
                    continue
                q = x.field(i.a[0])
                if not q or not any(o[0] == 'alloc' and o in x.ret for o in q[0]):
                    continue
                k = q[1]
                s.n['fields'] += 1
                if k < 0 or k >= len(ls):
                    s.bad(f, i.line, 'index', 'stores field %d of a %s of %d fields' % (k, 'record' if ls[0] else 'tuple', len(ls)))
                    continue
                if not ls[0]:
                    continue
                ns = x.names(i.a[1])
                m = {j for j, c in enumerate(cl) if c in ns}
                if m:
                    s.n['named_fields'] += 1
                    if k not in m:
                        s.bad(f, i.line, 'field', 'stores `%s\' in field %d, which is `%s\' in the record of %s' % (ls[min(m)], k, ls[k], d.file))

    def loads(s, f, x, n, ls, d):
        cl = [canon(l) if l else None for l in ls]
        for b in x.g.blocks.values():
            for i in b.ins:
                for e in cflow.ins_exprs(i):
                    def w(y):
                        if y.op == 'load':
                            q = x.field(y.a[0])
                            if q and q[0] == {('param', n)}:
                                s.n['fields'] += 1
                                if q[1] >= len(ls):
                                    s.bad(f, i.line, 'index', 'reads field %d of a %s of %d fields' % (q[1], 'record' if ls[0] else 'tuple', len(ls)))
                    cflow.walk_e(e, w)
        if not ls[0]:
            return
        for (o, k), ns, i in x.dests():
            if o != ('param', n) or k >= len(ls):
                continue
            m = {j for j, c in enumerate(cl) if c in ns}
            if m:
                s.n['named_fields'] += 1
                if k not in m:
                    s.bad(f, i.line, 'field', 'takes `%s\' from field %d, which is `%s\' in the record of %s' % (ls[min(m)], k, ls[k], d.file))

    # structures laid over ML blocks -----------------------------------------------------------------
    def overlays(s, decls, acc):
        done = set()
        for d, a, res, al in decls:
            f = s.cfun(d.cname)
            if f is None or len(f.params) != len(a):
                continue
            for (u, ct), t in zip(f.params, a):
                m = re.match(r'(?:struct )?(\w+) \*$', s.P.resolve(ct))
                if not m or t.k != 'tycon':
                    continue
                rec = s.P.records.get('struct ' + m.group(1)) or s.P.records.get(m.group(1))
                ac = {}
                for (rel, tn), v in acc.items():
                    if tn == t.a[1]:
                        for k, ns in v.items():
                            ac.setdefault(k, set()).update(ns)
                if not rec or (m.group(1), t.a[1], d.file) in done:
                    continue
                done.add((m.group(1), t.a[1], d.file))
                ls = labels(t, al)
                if not ac and not ls:
                    continue
                s.n['overlays'] += 1
                mem = [x[0] for x in rec]
                if ls and len(ls) != len(mem):
                    s.bad(f, f.line, 'overlay', 'struct %s has %d members where type %s of %s has %d components' % (m.group(1), len(mem), t.a[1], d.file, len(ls)))
                nm = {k: {canon(re.sub(r'^(get|set)', '', x)) for x, _ in v} for k, v in ac.items()}
                for k, c in enumerate(mem):
                    pos = {j for j, v in nm.items() if canon(c) in v}
                    if pos:
                        s.n['members'] += 1
                        if k not in pos:
                            s.bad(f, f.line, 'overlay', 'member %s is word %d of struct %s, but field %d of type %s in the ML accessors' % (c, k, m.group(1), min(pos), t.a[1]))
                for k in ac:
                    if k >= len(mem):
                        s.bad(f, f.line, 'overlay', 'struct %s has no word %d, which the ML accessors of type %s use' % (m.group(1), k, t.a[1]))

    # flag lists --------------------------------------------------------------------------------------
    def flags(s, decls, data):
        for d, a, res, al in decls:
            f = s.cfun(d.cname)
            if f is None:
                continue
            for n, t in enumerate(a):
                t = expand(t, al)
                if t.k != 'tycon' or t.a[1] != 'list' or not t.a[0] or n >= len(f.params):
                    continue
                e = t.a[0][0]
                cs = data.get(d.file, {}).get(e.a[1]) if e.k == 'tycon' else None
                if not cs:
                    continue
                x = s.fn(f)
                M = None
                for b in x.g.blocks.values():
                    for i in b.ins:
                        if i.op != 'call':
                            continue
                        hit = [y for y in i.a[2] if ('param', n) in x.ev(y)]
                        if not hit:
                            continue
                        for y in i.a[2]:
                            us = []
                            cflow.walk_e(y, lambda z: us.append(z.a[0].a[0]) if z.op == 'addr' and z.a[0].kind == 'var' else None)
                            for u in us:
                                g = s.P.globals.get(u)
                                if not g or not isinstance(g.get('init'), list):
                                    continue
                                M = M or Macros(f.file)
                                for k, c in enumerate(cs):
                                    v = M.value(c)
                                    if v is None:
                                        continue
                                    s.n['flags'] += 1
                                    got = g['init'][k] if k < len(g['init']) else None
                                    if got != v:
                                        s.bad(f, g['line'], 'flag', 'entry %d of %s is %s, but constructor %d of %s in %s is %s = %d' % (k, g['name'], got, k, e.a[1], d.file, c, v))

    # constants handed over in a tuple ----------------------------------------------------------------
    def constants(s, pats):
        for cname, names, rel, line in pats:
            f = s.cfun(cname) if cname else None
            if f is None:
                continue
            x = s.fn(f)
            M = None
            for b in x.g.blocks.values():
                for i in b.ins:
                    if i.op != 'set':
                        continue
                    q = x.field(i.a[0])
                    if not q or not any(o in x.ret for o in q[0]) or q[1] >= len(names):
                        continue
                    c = ival(i.a[1])
                    if c is None:
                        continue
                    M = M or Macros(f.file)
                    v = M.value(names[q[1]].rstrip('_'))
                    if v is None:
                        v = s.enumerator(names[q[1]].rstrip('_'))
                    if v is None:
                        continue
                    s.n['constants'] += 1
                    if c != 2 * v + 1:
                        s.bad(f, i.line, 'constant', 'hands over %d as field %d, which %s binds to %s = %d' % (c >> 1, q[1], rel, names[q[1]], v))

    def enumerator(s, n):
        v = s.P.enums.get(n)
        return v if isinstance(v, int) else None

    # constructor numbers named in C --------------------------------------------------------------------
    def constructors(s, decls, data):
        pairs = set()
        for d, a, res, al in decls:
            f = s.cfun(d.cname)
            if f is None:
                continue
            for t in a + [res]:
                if t.k == 'tycon' and t.a[1] in data.get(d.file, {}):
                    pairs.add((f.file, d.file, t.a[1], f.key))
        for cf, rel, t, k in sorted(pairs):
            cs = data[rel][t]
            M = Macros(cf)
            text = open(os.path.join(cbuild.scratch(), cf), errors='replace').read()
            own = set(re.findall(r'^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]', text, re.M))
            by = {canon(c): j for j, c in enumerate(cs)}
            for m in sorted(own):
                if canon(m) in by:
                    v = M.value(m)
                    if v is None:
                        continue
                    s.n['constructors'] += 1
                    if v != by[canon(m)]:
                        s.bad(s.P.fns[k], s.P.fns[k].line, 'constructor', '%s is %d, but %s is constructor %d of %s in %s' % (m, v, cs[by[canon(m)]], by[canon(m)], t, rel))
        M = Macros('src/runtime/sys.c')
        for n, v in (('NONE', 0), ('SOMEtag', 1), ('NILtag', 0), ('CONStag', 1)):
            g = M.value(n)
            if g is not None:
                s.n['constructors'] += 1
                if g != v:
                    s.bad(None, 1, 'constructor', '%s is %d, but the compiler numbers it %d' % (n, g, v), 'src/runtime/mlvalues.h', n)

    # global slots and exceptions -----------------------------------------------------------------------
    def slots(s):
        h = 'src/runtime/globals.h'
        text = open(os.path.join(cbuild.REPO, h), errors='replace').read()
        M = Macros('src/runtime/sys.c')
        pre = []                    # the order in which the build numbers them on the ML side
        for no, l in enumerate(text.split('\n'), 1):
            m = re.search(r'/\* (".*"),(".*") \*/', l)
            if not m:
                continue
            c = re.match(r'\s*#\s*define\s+(\w+)', l)
            pre.append((m.group(2).strip('"'), c and c.group(1), no))
        if len(pre) < 30:
            raise AnalysisError('predefined globals not found in globals.h')
        slot = {}
        for k, (n, c, no) in enumerate(pre):
            slot[n] = k
            s.n['slots'] += 1
            if c is None:
                s.bad(None, no, 'slot', '%s has no C name' % n, h, n)
                continue
            v = M.value(c)
            if v != k:
                s.bad(None, no, 'slot', '%s is slot %s in C and slot %d on the ML side (%s)' % (c, v, k, n), h, c)
            want = {canon(n), canon('sys' + n), canon(n.replace('val_', ''))}
            if canon(c) not in want:
                s.bad(None, no, 'slot', '%s is called %s on the ML side' % (c, n), h, c)
        # exceptions: constructor name on the ML side, variable it is bound to, name the runtime gives the slot
        ast = prims.parse_all(('compiler',), ('sml', 'mlp')).get('src/compiler/Smlperv.sml')
        ml = {}

        def w(n):
            if n.k == 'tuple' and len(n.a[0]) == 2 and n.a[0][0].k == 'str':
                y = n.a[0][1]
                while y.k == 'paren':
                    y = y.a[0]
                if y.k == 'tuple' and len(y.a[0]) == 3 and y.a[0][0].k == 'str' and y.a[0][0].a[0].startswith('exn_'):
                    ml[n.a[0][0].a[0]] = (y.a[0][0].a[0], n.line, y.a[0][1].a[0] if y.a[0][1].k == 'int' else None)
        if ast is not None:
            sml.walk(ast, w)
        if len(ml) < 15:
            raise AnalysisError('only %d predefined exceptions found in Smlperv.sml' % len(ml))
        f = s.cfun('sys_init')
        g = s.table(f, lambda x: isinstance(x, bytes))
        first = M.value('SYS__FIRST_EXN')
        last = M.value('SYS__LAST_EXN')
        exns = [(k, n) for n, k in slot.items() if n.startswith('exn_')]
        if first is not None and last is not None and exns:
            lo, hi = min(exns)[0], max(exns)[0]
            if (first, last) != (lo, hi):
                s.bad(None, 1, 'slot', 'exceptions are slots %d to %d, but C initialises %d to %d' % (lo, hi, first, last), h, 'SYS__FIRST_EXN')
        for n, (v, line, ar) in sorted(ml.items()):
            s.n['exceptions'] += 1
            if v not in slot:
                s.bad(None, line, 'exception', 'exception %s is bound to %s, which the runtime does not define' % (n, v), 'src/compiler/Smlperv.sml', n)
                continue
            i = slot[v] - (first or 0)
            got = g['init'][i].decode() if g and 0 <= i < len(g['init']) else None
            if got != n:
                s.bad(f, g['line'] if g else f.line, 'exception', 'slot %d is named %s by the runtime, but holds exception %s of the ML side (%s)' % (slot[v], got, n, v))
        # integer variables: permission bits
        g = s.table(f, lambda x: isinstance(x, int))
        base = slot.get('s_irusr')
        for n, k in sorted(slot.items()):
            if not n.startswith('s_i'):
                continue
            v = M.value(n.upper())
            if v is None:
                m = re.match(r's_i([rwx])all$', n)
                v = sum(M.value('S_I%s%s' % (m.group(1).upper(), x)) for x in ('USR', 'GRP', 'OTH')) if m else None
            if v is None or g is None or base is None:
                continue
            s.n['slots'] += 1
            got = g['init'][k - base] if 0 <= k - base < len(g['init']) else None
            if got != v:
                s.bad(f, g['line'], 'slot', 'slot %d (%s) is initialised to %s, not %d' % (k, n, got, v))
        # exception values made from exception names: each from its own
        inv = {k: n for n, k in slot.items()}
        one = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'set' and i.a[0].kind == 'var':
                    one.setdefault(i.a[0].a[0], []).append(i.a[1])

        def at(e):
            e = strip(e)
            while e.op == 'load' and e.a[0].kind == 'var' and len(one.get(e.a[0].a[0], ())) == 1:
                e = strip(one[e.a[0].a[0]][0])
            return e
        for b in f.blocks.values():
            pend = {}
            for i in b.ins:
                if i.op == 'call' and i.a[0] and len(i.a[2]) == 1:
                    pend[i.a[0]] = ival(i.a[2][0])
                elif i.op == 'call' and str(i.a[1]).split('#')[0] in ('modify', 'initialize') and len(i.a[2]) == 2:
                    k = s.globalslot(at(i.a[2][0]))
                    y = at(i.a[2][1])
                    v = pend.get(y.a[0].a[0]) if y.op == 'load' and y.a[0].kind == 'var' else None
                    if k is not None and inv.get(k, '').startswith('val_exn_'):
                        s.n['slots'] += 1
                        if v is not None and inv.get(v) != inv[k][4:]:
                            s.bad(f, i.line, 'slot', 'slot %d (%s) is given the exception %s' % (k, inv[k], inv.get(v)))

    def globalslot(s, e):
        e = strip(e)
        if e.op == 'addr' and e.a[0].kind == 'mem':
            e = strip(e.a[0].a[0])
        if e.op == 'padd':
            b = strip(e.a[0])
            if b.op == 'load' and b.a[0].kind == 'var' and b.a[0].a[0].startswith('global_data#'):
                return ival(e.a[1])
        return None

    def table(s, f, pred):
        """the initialised table of such entries that a function reads"""
        r = []
        for b in f.blocks.values():
            for i in b.ins:
                for e in cflow.ins_exprs(i):
                    def w(x):
                        if x.op in ('load', 'addr'):
                            l = x.a[0].root()
                            if l.kind == 'var':
                                g = s.P.globals.get(l.a[0])
                                if g and isinstance(g.get('init'), list) and len(g['init']) > 5 and all(pred(y) for y in g['init']):
                                    r.append(g)
                    cflow.walk_e(e, w)
        return r[0] if r else None

    # block tags ------------------------------------------------------------------------------------------
    def tags(s):
        ast = prims.parse_all(('compiler',), ('sml', 'mlp')).get('src/compiler/Config.mlp')
        if ast is None:
            raise AnalysisError('Config.mlp not found')
        M = Macros('src/runtime/sys.c')

        def w(n):
            if n.k == 'val':
                for p, e in n.a[1]:
                    if p.k == 'pid' and p.a[0] in TAGS and e.k == 'int':
                        v = M.value(TAGS[p.a[0]])
                        if v is None:
                            continue
                        s.n['tags'] += 1
                        if v != e.a[0]:
                            s.bad(None, n.line, 'tag', '%s is %d, but %s of the runtime is %d' % (p.a[0], e.a[0], TAGS[p.a[0]], v), 'src/compiler/Config.mlp', p.a[0])
        sml.walk(ast, w)


FIXDECLS = '''
type vl_date = {hour : int, min : int, year : int};
prim_val vl_good : unit -> vl_date = 1 "vl_good";
prim_val vl_swapped : unit -> vl_date = 1 "vl_swapped";
prim_val vl_short : unit -> int * int * int = 1 "vl_short";
prim_val vl_take : vl_date -> unit = 1 "vl_take";
prim_val vl_taken : vl_date -> unit = 1 "vl_taken";
prim_val vl_option : unit -> int option = 1 "vl_option";
'''


def fixdecls():
    ast = sml.Parser(sml.lex(FIXDECLS, 'fixture'), 'fixture').program()
    al = {}
    out = []
    a = ast if isinstance(ast, sml.N) else sml.N('seq', 0, ast)
    al = prims.aliases(a)

    def w(n):
        if n.k == 'prim_val':
            for nm, ty, ar, cn, line in n.a[0]:
                d = prims.Decl(name=nm, ty=ty, arity=ar, cname=cn, file='the fixture', line=line, how='prim', args=None, res=None, shapes=None, tyargs=None)
                x, r = prims.curry(ty)
                out.append((d, x, r, al))
    sml.walk(a, w)
    return out


def P02(tier='quick'):
    L = Layout()
    decls, acc, data, pats = mlside()
    L.blocks(decls + fixdecls())
    L.overlays(decls, acc)
    L.flags(decls, data)
    L.constants(pats)
    L.constructors(decls, data)
    L.slots()
    L.tags()
    n = checks.selftest(FIX, 'P02', L.fx)
    R = L.R
    if not R.violations:
        for k, lo in dict(results=8, fields=60, named_fields=30, overlays=2, members=15, flags=9, slots=40, exceptions=15, tags=3).items():
            if L.n[k] < lo:
                raise AnalysisError('only %d %s found (at least %d expected)' % (L.n[k], k, lo))
    R.coverage = dict(explanation='Layout agreement: for every primitive declaration, the tuple, record, option or list it exchanges with its C function, by origin analysis of the blocks the function builds and reads; structures laid over ML blocks against the ML accessor primitives; flag tables, constructor macros, global slots, exception tables and block tags against the ML declarations.',
                      selftest_instances=n, **L.n)
    R.assumptions = ['records are laid out by label in sorted order, constructors numbered in declaration order (compiler, K/I properties)',
                     'a C quantity means what its name says: a member, variable or macro is compared with the label, constructor or accessor of the same name; others are not judged']
    return R
