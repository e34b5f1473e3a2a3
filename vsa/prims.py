"""C primitives as the ML side declares them: prim_val declarations, dynamically linked symbols, MLPccall entries."""
import glob
import os
from . import sml
from .cbuild import REPO, AnalysisError

IMM = {'int', 'word', 'char', 'unit', 'bool', 'word8', 'Int.int', 'Word.word', 'Word8.word', 'Char.char', 'order'}
SMLDIRS = ('compiler', 'mosmllib', 'lex', 'toolssrc', 'dynlibs/intinf', 'dynlibs/mmysql')


class Decl:
    __slots__ = ('name', 'ty', 'arity', 'cname', 'file', 'line', 'how', 'args', 'res', 'shapes', 'tyargs')

    def __init__(s, **k):
        for a, b in k.items():
            setattr(s, a, b)


def sources(dirs=SMLDIRS, exts=('sml', 'mlp', 'sig')):
    r = {}
    for d in dirs:
        for e in exts:
            for p in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.' + e))):
                base = p[:-4]
                if e == 'sml' and os.path.exists(base + '.mlp'):
                    continue            # generated from the .mlp
                rel = os.path.relpath(p, REPO)
                r[rel] = p
    return r


_cache = {}


def parse_all(dirs=SMLDIRS, exts=('sml', 'mlp', 'sig')):
    r = {}
    for rel, p in sources(dirs, exts).items():
        if rel not in _cache:
            _cache[rel] = sml.parse_file(p, rel)
        r[rel] = _cache[rel]
    return r


def curry(ty):
    a = []
    while ty.k == 'tyfun':
        a.append(ty.a[0])
        ty = ty.a[1]
    return a, ty


def aliases(ast):
    """file-local abbreviations and all-nullary datatypes"""
    al = {}

    def w(n):
        if n.k == 'type':
            for tv, name, t in n.a[0]:
                if t is not None:
                    al.setdefault(name, t)
        elif n.k in ('datatype', 'abstype'):
            for tv, name, cs in n.a[0]:
                al.setdefault(name, ('enum' if all(t is None for _, t in cs) else 'data', cs))
            for tv, name, t in n.a[1]:
                if t is not None:
                    al.setdefault(name, t)
    sml.walk(ast, w)
    return al


def kind(ty, al, depth=0):
    """imm | string | real | fun | tuple | con:<name>"""
    if ty.k == 'tyvar':
        return 'any'
    if ty.k == 'tyfun':
        return 'fun'
    if ty.k in ('tytuple', 'tyrecord'):
        return 'tuple'
    if ty.k == 'tycon':
        n = ty.a[1]
        if n in al and depth < 10:
            t = al[n]
            if isinstance(t, tuple):
                return 'imm' if t[0] == 'enum' else 'data'
            return kind(t, al, depth + 1)
        if n in IMM:
            return 'imm'
        if n in ('string', 'real'):
            return n
        return 'con:' + n
    return 'any'


def shape(ty, al, depth=0):
    """('imm',) | ('tuple', [shapes]) | ('vec', shape) | ('any',)"""
    if ty.k == 'tytuple':
        return ('tuple', [shape(t, al, depth + 1) for t in ty.a[0]])
    if ty.k == 'tyrecord':
        return ('tuple', [shape(t, al, depth + 1) for _, t in sorted(ty.a[0], key=lambda x: (not x[0].isdigit(), int(x[0]) if x[0].isdigit() else 0, x[0]))])
    if ty.k == 'tycon':
        n = ty.a[1]
        if n in al and depth < 10 and not isinstance(al[n], tuple):
            return shape(al[n], al, depth + 1)
        if kind(ty, al) == 'imm':
            return ('imm',)
        if n in ('vector', 'array', 'Vector.vector', 'Array.array', 'Array', 'Vector') and len(ty.a[0]) == 1:
            return ('vec', shape(ty.a[0][0], al, depth + 1))
    return ('any',)


def collect():
    if _collected:
        return _collected[0]
    r = []
    asts = parse_all()
    for rel, ast in asts.items():
        al = aliases(ast)

        def add(name, ty, arity, cname, line, how):
            a, res = curry(ty) if ty is not None else ([], None)
            d = Decl(name=name, ty=ty, arity=arity, cname=cname, file=rel, line=line, how=how, args=None, res=None, shapes=None, tyargs=None)
            if ty is not None and isinstance(arity, int) and arity <= 5:
                while len(a) > arity and how != 'dyn':
                    # the remaining arrows belong to the result
                    res = sml.N('tyfun', 0, a.pop(), res)
                d.args = [kind(x, al) for x in a]
                d.res = kind(res, al)
                d.shapes = [shape(x, al) for x in a]
                d.tyargs = a
            r.append(d)
        pre = {}

        def w(n):
            if n.k == 'prim_val':
                for nm, ty, ar, cn, line in n.a[0]:
                    add(nm, ty, ar, cn, line, 'prim')
            elif n.k == 'fun':
                for cl in n.a[0]:
                    nm, pats, rt, e, line = cl[0]
                    if nm.startswith('app') and nm[3:].isdigit() and len(pats) == 1 and e.k == 'app' and e.a[0].k == 'id' and e.a[0].a[0] == 'Dynlib.' + nm:
                        # symb ("prefix" ^ name)
                        lits = []
                        sml.walk(e.a[1], lambda x: lits.append(x.a[0]) if x.k == 'str' else None)
                        pre[nm] = lits[0] if lits else ''
            elif n.k == 'val':
                for p, e in n.a[1]:
                    link(p, e, n.line)
            elif n.k == 'app' and n.a[0].k == 'id' and n.a[0].a[0] == 'MLPccall' and n.a[1].k == 'tuple':
                x = n.a[1].a[0]
                if len(x) == 2 and x[0].k == 'int' and x[1].k == 'str':
                    r.append(Decl(name='MLPccall', ty=None, arity=x[0].a[0], cname=x[1].a[0], file=rel, line=n.line, how='MLPccall', args=None, res=None, shapes=None, tyargs=None))

        def link(p, e, line):
            ty = None
            nm = '?'
            q = p
            if q.k == 'ptyped':
                ty = q.a[1]
                q = q.a[0]
            if q.k == 'pid':
                nm = q.a[0]
            applied = 0
            x = e
            while x.k == 'app':
                f, arg = x.a
                if f.k == 'id' and f.a[0].split('.')[-1][:3] == 'app' and f.a[0].split('.')[-1][3:].isdigit():
                    n = int(f.a[0].split('.')[-1][3:])
                    short = f.a[0].split('.')[-1]
                    lits = []
                    sml.walk(arg, lambda y: lits.append(y.a[0]) if y.k == 'str' else None)
                    if len(lits) == 1:
                        cn = (pre.get(short, '') if arg.k == 'str' else '') + lits[0]
                        if applied:
                            r.append(Decl(name=nm, ty=None, arity=n, cname=cn, file=rel, line=line, how='dyn', args=None, res=None, shapes=None, tyargs=None))
                        else:
                            add(nm, ty, n, cn, line, 'dyn')
                    return
                applied += 1
                x = f
        sml.walk(ast, w)
    if len(r) < 300:
        raise AnalysisError('only %d primitive declarations found on the ML side' % len(r))
    _collected.append(r)
    return r


_collected = []


def param_kinds(decls=None):
    """C function name -> list of argument kinds when every ML declaration agrees that an argument is immediate"""
    r = {}
    for d in decls or collect():
        if d.args is None:
            continue
        if d.cname in r and len(r[d.cname]) == len(d.args):
            r[d.cname] = [a if a == b else 'any' for a, b in zip(r[d.cname], d.args)]
        elif d.cname not in r:
            r[d.cname] = list(d.args)
        else:
            r[d.cname] = []
    return r
