"""Typed C AST (clang JSON) -> small three-address CFG IR.

Expressions (class E): op in
  const(v) | str(bytes) | flt(v) | load(lv) | addr(lv) | fn(name)
  un(op,a) | bin(op,a,b) | padd(p,i) (element-scaled pointer add) | pdiff(a,b) | cast(a) | lab(name)
L-values (class LV): kind in  var(uid) | mem(ptrE) | fld(baseLV, fieldname)
Instructions (class I): op in
  set(lv,e) | call(dst uid or None, callee, args) | unseq(temp uid, [call instr ids])
Terminators: br(c,T,F) jmp(B) switch(e,cases,default) ret(e) igoto(e) stop
Operands of one C expression whose order is unspecified are read as early as the standard allows
(pessimistic for the collector analyses), see _operands().
"""
import re
from . import cbuild
from .cbuild import AnalysisError


class E:
    __slots__ = ('op', 'a', 'ty', 'dty', 'line')

    def __init__(s, op, a, ty, dty=None, line=0):
        s.op, s.a, s.ty, s.dty, s.line = op, a, ty, dty or ty, line

    def __repr__(s):
        return show(s)

    def kids(s):
        if s.op in ('load', 'addr'):
            return s.a[0].kids()
        return [x for x in s.a if isinstance(x, E)]


class LV:
    __slots__ = ('kind', 'a', 'ty', 'dty')

    def __init__(s, kind, a, ty, dty=None):
        s.kind, s.a, s.ty, s.dty = kind, a, ty, dty or ty

    def kids(s):
        if s.kind == 'mem':
            return [s.a[0]]
        if s.kind == 'fld':
            return s.a[0].kids()
        return []

    def root(s):
        l = s
        while l.kind == 'fld':
            l = l.a[0]
        return l

    def __repr__(s):
        return showlv(s)


def showlv(l):
    if l.kind == 'var':
        return l.a[0].split('#')[0]
    if l.kind == 'mem':
        return '*(%s)' % show(l.a[0])
    return '%s.%s' % (showlv(l.a[0]), l.a[1])


def show(e):
    if e is None:
        return ''
    if e.op == 'const':
        return str(e.a[0])
    if e.op == 'str':
        return repr(e.a[0])
    if e.op == 'flt':
        return str(e.a[0])
    if e.op == 'load':
        return showlv(e.a[0])
    if e.op == 'addr':
        return '&' + showlv(e.a[0])
    if e.op == 'fn':
        return e.a[0]
    if e.op == 'lab':
        return '&&' + e.a[0]
    if e.op == 'un':
        return '%s(%s)' % (e.a[0], show(e.a[1]))
    if e.op == 'bin':
        return '(%s %s %s)' % (show(e.a[1]), e.a[0], show(e.a[2]))
    if e.op == 'padd':
        return '(%s +p %s)' % (show(e.a[0]), show(e.a[1]))
    if e.op == 'pdiff':
        return '(%s -p %s)' % (show(e.a[0]), show(e.a[1]))
    if e.op == 'cast':
        return '(%s)%s' % (e.ty, show(e.a[0]))
    return '?' + e.op


class I:
    __slots__ = ('op', 'a', 'line', 'id', 'file')
    n = 0

    def __init__(s, op, a, line, file=None):
        s.op, s.a, s.line, s.file = op, a, line, file
        I.n += 1
        s.id = I.n

    def __repr__(s):
        if s.op == 'set':
            return '%s = %s' % (showlv(s.a[0]), show(s.a[1]))
        if s.op == 'call':
            return '%s%s(%s)' % ((s.a[0].split('#')[0] + ' = ') if s.a[0] else '', s.a[1] if isinstance(s.a[1], str) else '(*%s)' % show(s.a[1]), ', '.join(map(show, s.a[2])))
        if s.op == 'unseq':
            return 'unseq %s' % (s.a,)
        return '%s %s' % (s.op, s.a)


class B:
    __slots__ = ('id', 'ins', 'term', 'labels')

    def __init__(s, id):
        s.id, s.ins, s.term, s.labels = id, [], None, []

    def succs(s, fn=None):
        t = s.term
        if t is None:
            return []
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'jmp':
            return [t.a[0]]
        if t.op == 'switch':
            r = []
            for _, b in t.a[1]:
                if b not in r:
                    r.append(b)
            if t.a[2] not in r:
                r.append(t.a[2])
            return r
        if t.op == 'igoto':
            return list(fn.labeladdr_blocks()) if fn else []
        return []


class Fn:
    def __init__(s, name, file, line):
        s.name, s.file, s.line = name, file, line
        s.params = []      # (uid, ty)
        s.ret = 'int'
        s.static = False
        s.blocks = {}
        s.entry = None
        s.vars = {}        # uid -> (name, ty, dty, static?)
        s.addrlabels = set()
        s.labels = {}      # label name -> block
        s.variadic = False
        s.addr_taken = set()  # uids of locals whose address is taken (other than array decay)

    def labeladdr_blocks(s):
        return [s.labels[l] for l in s.addrlabels]

    def order(s):
        """blocks in reverse post-order"""
        seen, out = set(), []
        stack = [(s.entry, iter(s.blocks[s.entry].succs(s)))]
        seen.add(s.entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(s.blocks[x].succs(s))))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def dump(s):
        r = ['%s %s(%s) [%s:%d]' % (s.ret, s.name, ', '.join('%s %s' % (t, u) for u, t in s.params), s.file, s.line)]
        for b in s.order():
            bl = s.blocks[b]
            r.append(' B%d:' % b)
            for i in bl.ins:
                r.append('   %d: %r' % (i.line, i))
            t = bl.term
            if t.op == 'br':
                r.append('   %d: if %s B%d else B%d' % (t.line, show(t.a[0]), t.a[1], t.a[2]))
            elif t.op == 'ret':
                r.append('   %d: return %s' % (t.line, show(t.a[0])))
            elif t.op == 'switch':
                r.append('   %d: switch %s %s default B%d' % (t.line, show(t.a[0]), [(v, 'B%d' % bb) for v, bb in t.a[1]], t.a[2]))
            elif t.op == 'jmp':
                r.append('   jmp B%d' % t.a[0])
            else:
                r.append('   %d: %s %s' % (t.line, t.op, t.a))
        return '\n'.join(r)


class Program:
    """All functions / globals / records / enums of a set of translation units."""

    def __init__(s):
        s.fns = {}          # name -> Fn   (static functions: 'name' if unique else 'name@file')
        s.byunit = {}
        s.globals = {}      # uid -> dict(name, ty, file, line, init)
        s.records = {}      # name -> [(field, ty, dty)]
        s.unions = set()
        s.enums = {}        # enumerator -> value
        s.enumdecls = {}    # enum name -> [(enumerator, value)]
        s.typedefs = {}
        s.protos = {}       # name -> (ret, [param types], variadic, noproto)
        s.units = []
        s.noreturn_attr = set()

    # ---- sizes -----------------------------------------------------------------------------
    PRIM = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'bool': 1, 'short': 2, 'unsigned short': 2,
            'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8,
            'float': 4, 'double': 8, 'long double': 16, 'void': 1, '__int128': 16, 'unsigned __int128': 16}

    def resolve(s, ty):
        ty = strip_quals(ty)
        n = 0
        while ty in s.typedefs and n < 50:
            nt = strip_quals(s.typedefs[ty])
            if nt == ty:
                break
            ty = nt
            n += 1
        return ty

    def sizeof(s, ty):
        ty = s.resolve(ty)
        m = re.match(r'^(.*?)\s*((?:\[\d*\])+)$', ty)
        if m and '(' not in ty:
            dims = re.findall(r'\[(\d*)\]', m.group(2))
            base = s.sizeof(m.group(1))
            for d in dims:
                base *= int(d or 0)
            return base
        if ty.endswith('*') or '(*' in ty:
            return 8
        if ty in s.PRIM:
            return s.PRIM[ty]
        if ty.startswith('enum '):
            return 4
        mm = re.match(r'^(struct|union) (.*)$', ty)
        if mm:
            return s._layout(ty)[0]
        if ty in s.records:
            return s._layout(ty)[0]
        raise AnalysisError('sizeof unknown type %r' % ty)

    def alignof(s, ty):
        ty = s.resolve(ty)
        m = re.match(r'^(.*?)\s*((?:\[\d*\])+)$', ty)
        if m and '(' not in ty:
            return s.alignof(m.group(1))
        if ty in s.records or ty.startswith(('struct ', 'union ')):
            return s._layout(ty)[1]
        return min(s.sizeof(ty), 16) or 1

    def _layout(s, ty):
        key = ty if ty in s.records else re.sub(r'^(struct|union) ', '', ty)
        if key not in s.records:
            key2 = ty
            raise AnalysisError('unknown record %r' % ty)
        off, al, mx = 0, 1, 0
        for f, fty, fd in s.records[key]:
            a = s.alignof(fd or fty)
            z = s.sizeof(fd or fty)
            al = max(al, a)
            if key in s.unions:
                mx = max(mx, z)
                continue
            off = (off + a - 1) // a * a + z
        size = mx if key in s.unions else off
        return (size + al - 1) // al * al, al


def strip_quals(t):
    t = t.strip()
    while True:
        m = re.match(r'^(const|volatile|restrict|register|static|extern)\s+(.*)$', t)
        if m:
            t = m.group(2)
            continue
        m = re.match(r'^(.*\S)\s*\b(const|volatile|restrict)$', t)
        if m and not m.group(1).endswith('*') or (m and m.group(1).endswith('*')):
            t = m.group(1)
            continue
        return t


def elemty(ty):
    """element type of a pointer/array type string"""
    t = strip_quals(ty)
    m = re.match(r'^(.*?)\s*\[\d*\]((?:\[\d*\])*)$', t)
    if m and not t.endswith('*'):
        return (m.group(1) + m.group(2)).strip()
    if t.endswith('*'):
        return t[:-1].strip()
    return None


def arraydim(ty):
    m = re.match(r'^.*?\[(\d*)\]', strip_quals(ty))
    return int(m.group(1) or 0) if m and not ty.strip().endswith('*') else None


# ---------------------------------------------------------------------------------------------
class _Loc:
    """resolves clang's delta-encoded locations, in document order"""

    def __init__(s):
        s.file = None
        s.line = 0

    def one(s, d):
        if not d:
            return None
        if 'spellingLoc' in d:
            s.one(d['spellingLoc'])
            return s.one(d['expansionLoc'])
        if 'offset' not in d:
            return None
        if 'file' in d:
            s.file = d['file']
        if 'line' in d:
            s.line = d['line']
        return (s.file, s.line)


def annotate(root):
    L = _Loc()
    one = L.one

    def walk(n):
        l = n.get('loc')
        a = one(l) if l else None
        r = n.get('range')
        b = None
        if r:
            b = one(r.get('begin'))
            one(r.get('end'))
        n['_l'] = b or a
        for c in n.get('inner', ()):
            if c:
                walk(c)
    import sys
    sys.setrecursionlimit(100000)
    walk(root)


class Lower:
    def __init__(s, prog, unit, root):
        s.prog, s.unit = prog, unit
        s.root = root
        s.ids = {}
        s.main = unit.split('/')[-1]

    # ---- unit level ------------------------------------------------------------------------
    def run(s):
        P = s.prog
        P.units.append(s.unit)
        P.byunit[s.unit] = []
        todo = []
        anon = 0
        for d in s.root.get('inner', []):
            k = d['kind']
            if k == 'RecordDecl':
                s.record(d)
            elif k == 'EnumDecl':
                v = -1
                lst = []
                for c in d.get('inner', []):
                    if c['kind'] == 'EnumConstantDecl':
                        v += 1
                        cv = _constval(c)
                        if cv is not None:
                            v = cv
                        P.enums[c['name']] = v
                        lst.append((c['name'], v))
                        s.ids[c['id']] = ('enum', v)
                if lst:
                    P.enumdecls[d.get('name') or lst[0][0]] = lst
            elif k == 'TypedefDecl':
                t = d['type']
                q = t.get('qualType')
                P.typedefs.setdefault(d['name'], q)
                s._typedef_record(d)
            elif k == 'VarDecl':
                s.globalvar(d)
            elif k == 'FunctionDecl':
                s.ids[d['id']] = ('fn', d['name'])
                ps = [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl']
                qt = d['type']['qualType']
                proto = (qt.split('(')[0].strip(), [c['type']['qualType'] for c in ps], bool(d.get('variadic')), qt.endswith('()'))
                if d['name'] not in P.protos or P.protos[d['name']][3]:
                    P.protos[d['name']] = proto
                for c in d.get('inner', []):
                    if c['kind'] in ('NoReturnAttr', 'C11NoReturnAttr', 'CXX11NoReturnAttr'):
                        P.noreturn_attr.add(d['name'])
                if '__attribute__((noreturn))' in qt:
                    P.noreturn_attr.add(d['name'])
                if any(c['kind'] == 'CompoundStmt' for c in d.get('inner', [])):
                    todo.append(d)
        for d in todo:
            f = s.function(d)
            if f is None:
                continue
            key = f.name
            if f.static and key in P.fns and P.fns[key].file != f.file:
                key = '%s@%s' % (f.name, f.file.split('/')[-1])
            elif key in P.fns and P.fns[key].file != f.file:
                if P.fns[key].static:
                    o = P.fns.pop(key)
                    P.fns['%s@%s' % (o.name, o.file.split('/')[-1])] = o
                else:
                    key = '%s@%s' % (f.name, f.file.split('/')[-1])
            f.key = key
            P.fns[key] = f
            P.byunit[s.unit].append(f)

    def _typedef_record(s, d):
        # typedef struct {...} name;  -> record under typedef name
        def find(n):
            if n.get('kind') == 'RecordType' and 'decl' in n:
                return n['decl'].get('id')
            for c in n.get('inner', []):
                r = find(c)
                if r:
                    return r
            if 'ownedTagDecl' in n:
                return n['ownedTagDecl'].get('id')
        t = d['type'].get('desugaredQualType') or d['type'].get('qualType')
        i = find(d)
        if i and i in s.ids and s.ids[i][0] == 'rec':
            s.prog.records.setdefault(d['name'], s.ids[i][1])
            if s.ids[i][2]:
                s.prog.unions.add(d['name'])
            q = d['type'].get('qualType', '')
            if '(unnamed' in q or '(anonymous' in q or q == 'struct ' + d['name'] or q == d['name']:
                s.prog.records.setdefault(q, s.ids[i][1])
                s.prog.typedefs.pop(d['name'], None) if '(unnamed' in q else None

    def record(s, d):
        fs = []
        nested = None
        for c in d.get('inner', []):
            if c['kind'] == 'RecordDecl':
                s.record(c)
                nested = c
            if c['kind'] == 'FieldDecl':
                t = c['type']
                ty = t['qualType']
                dt = t.get('desugaredQualType', ty)
                if nested is not None and ('unnamed' in ty or 'anonymous' in ty):
                    s.prog.records[strip_quals(ty)] = s.ids[nested['id']][1]
                    if nested.get('tagUsed') == 'union':
                        s.prog.unions.add(strip_quals(ty))
                fs.append((c.get('name', ''), ty, dt))
        isu = d.get('tagUsed') == 'union'
        s.ids[d['id']] = ('rec', fs, isu)
        if d.get('name') and d.get('completeDefinition'):
            s.prog.records[d['name']] = fs
            if isu:
                s.prog.unions.add(d['name'])

    def globalvar(s, d):
        name = d['name']
        static = d.get('storageClass') == 'static'
        l = d.get('_l') or (None, 0)
        uid = name + '#g' + (':' + s.main if static else '')
        s.ids[d['id']] = ('var', uid, d['type']['qualType'], d['type'].get('desugaredQualType'))
        g = s.prog.globals.setdefault(uid, dict(name=name, ty=d['type']['qualType'], file=s.unit, line=l[1], init=None,
                                                extern=True))
        if d.get('storageClass') != 'extern' or d.get('init'):
            g['extern'] = False
            g['file'], g['line'] = s.unit, l[1]
            if g['ty'].endswith('[]'):
                g['ty'] = d['type']['qualType']
        if arraydim(d['type']['qualType']):
            g['ty'] = d['type']['qualType']
        if d.get('init') and d.get('inner'):
            try:
                g['init'] = s.initval(d['inner'][-1])
            except AnalysisError:
                g['init'] = None
                g['badinit'] = True

    def initval(s, n):
        k = n['kind']
        if k == 'InitListExpr':
            if n.get('array_filler'):
                return [s.initval(c) for c in n['array_filler'] if c['kind'] != 'ImplicitValueInitExpr']
            return [s.initval(c) for c in n.get('inner', [])]
        if k == 'ImplicitValueInitExpr':
            return 0
        e = s.pure(n)
        c = fold(e)
        if c is not None:
            return c
        if e.op == 'str':
            return e.a[0]
        x = e
        while x.op == 'cast':
            x = x.a[0]
        if x.op == 'str':
            return x.a[0]
        if x.op == 'fn':
            return ('fn', x.a[0])
        if x.op == 'addr':
            return ('addr', x.a[0])
        return x

    def pure(s, n):
        s.fn = Fn('<init>', s.unit, 0)
        s.cur = s.newblock()
        s.brk, s.cont, s.sw = [], [], []
        s.ntemp = 0
        return s.expr(n)

    pure_labels = ()

    # ---- function level --------------------------------------------------------------------
    def newblock(s):
        b = B(len(s.fn.blocks))
        s.fn.blocks[b.id] = b
        return b

    def emit(s, op, *a):
        i = I(op, list(a), s.line, s.fn.file)
        if s.cur is not None:
            s.cur.ins.append(i)
        return i

    def term(s, op, *a):
        if s.cur is not None and s.cur.term is None:
            s.cur.term = I(op, list(a), s.line, s.fn.file)
        s.cur = None

    def start(s, b):
        if s.cur is not None and s.cur.term is None:
            s.term('jmp', b.id)
        s.cur = b

    def temp(s, ty, dty=None):
        s.ntemp += 1
        uid = '%%t%d' % s.ntemp
        s.fn.vars[uid] = (uid, ty, dty or ty, False)
        return uid

    def function(s, d):
        l = d.get('_l') or (None, 0)
        nm = d.get('loc', {})
        f = Fn(d['name'], s.unit, l[1])
        if l[0] and not l[0].startswith(('/usr', '/lib')) and l[0] != s.main and '/' not in l[0]:
            f.file = s.unit.rsplit('/', 1)[0] + '/' + l[0]
        elif l[0] and l[0].startswith(('/usr', '/lib')):
            return None
        f.static = d.get('storageClass') == 'static'
        f.ret = d['type']['qualType'].split('(')[0].strip()
        f.variadic = bool(d.get('variadic'))
        s.fn = f
        s.ntemp = 0
        s.line = l[1]
        s.cur = s.newblock()
        f.entry = s.cur.id
        s.brk, s.cont, s.sw = [], [], []
        body = None
        for c in d.get('inner', []):
            if c['kind'] == 'ParmVarDecl':
                uid = s.declvar(c)
                f.params.append((uid, c['type']['qualType']))
            elif c['kind'] == 'CompoundStmt':
                body = c
        s.stmt(body)
        if s.cur is not None:
            s.term('ret', None)
        for b in f.blocks.values():
            if b.term is None:
                b.term = I('ret', [None], l[1], f.file)
        return f

    def declvar(s, d):
        name = d.get('name', '_')
        static = d.get('storageClass') == 'static'
        s.nvar = getattr(s, 'nvar', 0) + 1
        uid = '%s#s:%s:%d' % (name, s.main, s.nvar) if static else '%s#l%d' % (name, s.nvar)
        ty = d['type']['qualType']
        s.ids[d['id']] = ('var', uid, ty, d['type'].get('desugaredQualType'))
        s.fn.vars[uid] = (name, ty, d['type'].get('desugaredQualType', ty), static)
        return uid

    # ---- statements ------------------------------------------------------------------------
    def stmt(s, n):
        if n is None or not n:
            return
        if n.get('_l') and n['_l'][1]:
            s.line = n['_l'][1]
        k = n['kind']
        m = getattr(s, 'st_' + k, None)
        if m:
            return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal'):
            s.effect(n)
            return
        if k in ('NullStmt',):
            return
        raise AnalysisError('%s:%d: unsupported statement %s' % (s.unit, s.line, k))

    def st_CompoundStmt(s, n):
        for c in n.get('inner', []):
            s.stmt(c)

    def st_AttributedStmt(s, n):
        for c in n.get('inner', []):
            if 'Attr' not in c['kind'] or c['kind'].endswith('Stmt'):
                s.stmt(c)

    def st_NullStmt(s, n):
        pass

    def st_DeclStmt(s, n):
        for c in n.get('inner', []):
            k = c['kind']
            if k == 'VarDecl':
                if c.get('storageClass') == 'extern':
                    uid = c['name'] + '#g'
                    s.ids[c['id']] = ('var', uid, c['type']['qualType'], c['type'].get('desugaredQualType'))
                    s.prog.globals.setdefault(uid, dict(name=c['name'], ty=c['type']['qualType'], file=s.unit, line=s.line, init=None, extern=True))
                    continue
                uid = s.declvar(c)
                lv = LV('var', (uid,), c['type']['qualType'], c['type'].get('desugaredQualType'))
                if c.get('init') and c.get('inner'):
                    init = c['inner'][-1]
                    if c.get('storageClass') == 'static':
                        keep = (s.fn, s.cur, s.brk, s.cont, s.sw, s.ntemp)
                        s.pure_labels = []
                        try:
                            v = s.initval(init)
                        except AnalysisError:
                            v = None
                        s.fn, s.cur, s.brk, s.cont, s.sw, s.ntemp = keep
                        for nm in s.pure_labels:
                            s.fn.addrlabels.add(nm)
                            s.label(nm)
                        s.prog.globals[uid] = dict(name=c['name'], ty=c['type']['qualType'], file=s.unit, line=s.line, init=v, extern=False, infn=s.fn.name)
                        continue
                    s.init(lv, init)
                elif c.get('storageClass') == 'static':
                    s.prog.globals[uid] = dict(name=c['name'], ty=c['type']['qualType'], file=s.unit, line=s.line, init=None, extern=False, infn=s.fn.name)
            elif k == 'RecordDecl':
                s.record(c)
            elif k == 'EnumDecl':
                v = -1
                for e in c.get('inner', []):
                    if e['kind'] == 'EnumConstantDecl':
                        v += 1
                        cv = _constval(e)
                        v = cv if cv is not None else v
                        s.ids[e['id']] = ('enum', v)
            elif k == 'FunctionDecl':
                s.ids[c['id']] = ('fn', c['name'])
                qt = c['type']['qualType']
                ps = [x['type']['qualType'] for x in c.get('inner', []) if x['kind'] == 'ParmVarDecl']
                s.prog.protos.setdefault(c['name'], (qt.split('(')[0].strip(), ps, bool(c.get('variadic')), qt.endswith('()')))

    def init(s, lv, n):
        if n['kind'] == 'InitListExpr':
            ty = lv.dty or lv.ty
            inner = n.get('inner', [])
            filler = False
            if n.get('array_filler'):
                inner = [c for c in n['array_filler'] if c['kind'] != 'ImplicitValueInitExpr']
                filler = True
            ad = arraydim(s.prog.resolve(ty))
            if ad is not None:
                et = elemty(s.prog.resolve(ty))
                for i, c in enumerate(inner):
                    base = E('addr', (lv,), et + ' *', None, s.line)
                    el = LV('mem', (E('padd', (base, E('const', (i,), 'long')), et + ' *'),), et)
                    s.init(el, c)
                if len(inner) < ad:
                    s.emit('call', None, '__vsa_zero_rest', [E('addr', (lv,), et + ' *'), E('const', (len(inner),), 'long')])
            else:
                key = re.sub(r'^(struct|union) ', '', s.prog.resolve(ty))
                fs = s.prog.records.get(key, [])
                if not fs:
                    if len(inner) == 1:
                        s.init(lv, inner[0])
                    return
                for (fn_, fty, fd), c in zip(fs, inner):
                    s.init(LV('fld', (lv, fn_), fty, fd), c)
            return
        if n['kind'] == 'ImplicitValueInitExpr':
            s.emit('set', lv, E('const', (0,), lv.ty))
            return
        if n['kind'] in ('StringLiteral',):
            e = s.expr(n)
            s.emit('call', None, '__vsa_strinit', [E('addr', (lv,), 'char *'), e])
            return
        e = s.expr(n)
        s.emit('set', lv, e)

    def st_IfStmt(s, n):
        inner = n['inner']
        T, F, J = s.newblock(), s.newblock(), s.newblock()
        s.cond(inner[0], T, F)
        s.cur = T
        s.stmt(inner[1])
        s.start(J) if s.cur is not None else None
        s.cur = F
        if len(inner) > 2:
            s.stmt(inner[2])
        if s.cur is not None:
            s.start(J)
        s.cur = J

    def st_WhileStmt(s, n):
        inner = [c for c in n['inner'] if c]
        H, Bd, X = s.newblock(), s.newblock(), s.newblock()
        s.start(H)
        s.cond(inner[0], Bd, X)
        s.cur = Bd
        s.brk.append(X); s.cont.append(H)
        s.stmt(inner[1])
        s.brk.pop(); s.cont.pop()
        if s.cur is not None:
            s.term('jmp', H.id)
        s.cur = X

    def st_DoStmt(s, n):
        inner = n['inner']
        Bd, C, X = s.newblock(), s.newblock(), s.newblock()
        s.start(Bd)
        s.brk.append(X); s.cont.append(C)
        s.stmt(inner[0])
        s.brk.pop(); s.cont.pop()
        if s.cur is not None:
            s.start(C)
        s.cur = C
        s.cond(inner[1], Bd, X)
        s.cur = X

    def st_ForStmt(s, n):
        init, cv, cond, inc, body = n['inner']
        if init:
            s.stmt(init)
        H, Bd, C, X = s.newblock(), s.newblock(), s.newblock(), s.newblock()
        s.start(H)
        if cond:
            s.cond(cond, Bd, X)
        else:
            s.term('jmp', Bd.id)
        s.cur = Bd
        s.brk.append(X); s.cont.append(C)
        s.stmt(body)
        s.brk.pop(); s.cont.pop()
        if s.cur is not None:
            s.start(C)
        s.cur = C
        if inc:
            s.effect(inc)
        s.term('jmp', H.id)
        s.cur = X

    def st_SwitchStmt(s, n):
        inner = [c for c in n['inner'] if c]
        e = s.expr(inner[0])
        X = s.newblock()
        sw = dict(cases=[], default=None)
        s.sw.append(sw)
        s.brk.append(X)
        here = s.cur
        line = s.line
        s.cur = None
        s.cur = s.newblock()  # unreachable prologue of the body
        s.stmt(inner[1])
        if s.cur is not None:
            s.start(X)
        s.brk.pop()
        s.sw.pop()
        s.cur = here
        if here is not None:
            here.term = I('switch', [e, [(v, b.id) for v, b in sw['cases']], (sw['default'] or X).id], line, s.fn.file)
        s.cur = X

    def st_CaseStmt(s, n):
        inner = n['inner']
        vals = []
        c = inner[0]
        v = _constval(c)
        if v is None:
            v = fold(s.expr(c))
        rest = inner[1:]
        hi = v
        if n.get('isGNURange') :
            hi = _constval(inner[1])
            rest = inner[2:]
        b = s.newblock()
        s.start(b)
        for x in range(v, hi + 1):
            s.sw[-1]['cases'].append((x, b))
        for r in rest:
            s.stmt(r)

    def st_DefaultStmt(s, n):
        b = s.newblock()
        s.start(b)
        s.sw[-1]['default'] = b
        for r in n['inner']:
            s.stmt(r)

    def st_BreakStmt(s, n):
        s.term('jmp', s.brk[-1].id)

    def st_ContinueStmt(s, n):
        s.term('jmp', s.cont[-1].id)

    def st_ReturnStmt(s, n):
        e = s.expr(n['inner'][0]) if n.get('inner') else None
        s.term('ret', e)

    def label(s, name):
        if name not in s.fn.labels:
            b = s.newblock()
            b.labels.append(name)
            s.fn.labels[name] = b.id
        return s.fn.blocks[s.fn.labels[name]]

    def st_LabelStmt(s, n):
        b = s.label(n['name'])
        s.start(b)
        for c in n.get('inner', []):
            s.stmt(c)

    def st_GotoStmt(s, n):
        s.labelids = getattr(s, 'labelids', {})
        s.term('jmp', s.label(s.labname(n['targetLabelDeclId'])).id)

    def labname(s, lid):
        if not hasattr(s, 'lab'):
            s.lab = {}

            def walk(x):
                if x.get('kind') == 'LabelStmt':
                    s.lab[x['declId']] = x['name']
                for c in x.get('inner', ()):
                    if c:
                        walk(c)
            walk(s.root)
        return s.lab[lid]

    def st_IndirectGotoStmt(s, n):
        e = s.expr(n['inner'][0])
        s.term('igoto', e)

    def st_GCCAsmStmt(s, n):
        s.emit('call', None, '__asm__', [])

    # ---- conditions ------------------------------------------------------------------------
    def cond(s, n, T, F):
        n = skip_parens(n)
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '!':
            return s.cond(n['inner'][0], F, T)
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            M = s.newblock()
            if n['opcode'] == '&&':
                s.cond(n['inner'][0], M, F)
            else:
                s.cond(n['inner'][0], T, M)
            s.cur = M
            return s.cond(n['inner'][1], T, F)
        if n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralCast', 'IntegralToBoolean', 'NoOp') \
                and skip_parens(n['inner'][0]).get('kind') in ('BinaryOperator', 'UnaryOperator') \
                and skip_parens(n['inner'][0]).get('opcode') in ('&&', '||', '!', '==', '!=', '<', '>', '<=', '>='):
            return s.cond(n['inner'][0], T, F)
        if n['kind'] == 'CallExpr':
            cn = callee_name(n)
            if cn == '__builtin_expect':
                return s.cond(n['inner'][1], T, F)
        e = s.expr(n)
        c = fold(e)
        if c is not None:
            s.term('jmp', (T if c else F).id)
        else:
            s.term('br', e, T.id, F.id)

    # ---- expressions -----------------------------------------------------------------------
    def effect(s, n):
        """evaluate for side effects"""
        n = skip_parens(n)
        k = n['kind']
        if k in ('CStyleCastExpr', 'ImplicitCastExpr') and n.get('castKind') in ('ToVoid', 'NoOp'):
            return s.effect(n['inner'][0])
        if k == 'CallExpr':
            s.call(n, want=False)
            return
        if k == 'BinaryOperator' and n['opcode'] == ',':
            s.effect(n['inner'][0])
            s.effect(n['inner'][1])
            return
        if k == 'ConditionalOperator':
            T, F, J = s.newblock(), s.newblock(), s.newblock()
            s.cond(n['inner'][0], T, F)
            s.cur = T
            s.effect(n['inner'][1])
            s.start(J)
            s.cur = F
            s.effect(n['inner'][2])
            s.start(J)
            s.cur = J
            return
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            J = s.newblock()
            M = s.newblock()
            if n['opcode'] == '&&':
                s.cond(n['inner'][0], M, J)
            else:
                s.cond(n['inner'][0], J, M)
            s.cur = M
            s.effect(n['inner'][1])
            s.start(J)
            s.cur = J
            return
        e = s.expr(n)
        if has_deref(e):
            s.emit('set', LV('var', (s.temp(e.ty),), e.ty), e)

    def ty(s, n):
        t = n['type']
        return t['qualType'], t.get('desugaredQualType', t['qualType'])

    def lvalue(s, n):
        n = skip_parens(n)
        k = n['kind']
        q, dq = s.ty(n)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            r = s.ids.get(rd['id'])
            if r is None:
                if rd['kind'] == 'FunctionDecl':
                    return LV('fn', (rd['name'],), q)
                # redeclared global
                uid = rd['name'] + '#g'
                if uid not in s.prog.globals:
                    uid2 = uid + ':' + s.main
                    uid = uid2 if uid2 in s.prog.globals else uid
                return LV('var', (uid,), q, dq)
            if r[0] == 'var':
                return LV('var', (r[1],), r[2] if arraydim(r[2]) is None else q, dq)
            if r[0] == 'fn':
                return LV('fn', (r[1],), q)
            raise AnalysisError('lvalue enum')
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = s.expr(n['inner'][0])
            return LV('mem', (p,), q, dq)
        if k == 'ArraySubscriptExpr':
            a, b = s._operands([n['inner'][0], n['inner'][1]])
            if not is_ptr_ty(a.dty) and not is_ptr_ty(a.ty):
                a, b = b, a
            return LV('mem', (E('padd', (a, b), a.ty, a.dty, s.line),), q, dq)
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow'):
                p = s.expr(base)
                et = elemty(p.dty) or elemty(p.ty) or ''
                return LV('fld', (LV('mem', (p,), et), n.get('name', '')), q, dq)
            b = s.lvalue_or_temp(base)
            return LV('fld', (b, n.get('name', '')), q, dq)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'BitCast', 'LValueBitCast'):
            l = s.lvalue(n['inner'][0])
            return LV(l.kind, l.a, q, dq)
        if k == 'StringLiteral':
            t = E('str', (strlit(n),), 'char *')
            return LV('mem', (t,), q)
        if k == 'CompoundLiteralExpr':
            uid = s.temp(q, dq)
            lv = LV('var', (uid,), q, dq)
            s.init(lv, n['inner'][0])
            return lv
        if k == 'PredefinedExpr':
            return LV('mem', (E('str', (b'f',), 'char *'),), q)
        if k == 'StmtExpr' or k == 'CallExpr' or k == 'ConditionalOperator':
            return s.lvalue_or_temp(n)
        if k == 'UnaryOperator' and n['opcode'] == '__extension__':
            return s.lvalue(n['inner'][0])
        raise AnalysisError('%s:%d: unsupported lvalue %s' % (s.unit, s.line, k))

    def lvalue_or_temp(s, n):
        n2 = skip_parens(n)
        if n2.get('valueCategory') == 'lvalue':
            return s.lvalue(n2)
        e = s.expr(n2)
        uid = s.temp(e.ty, e.dty)
        lv = LV('var', (uid,), e.ty, e.dty)
        s.emit('set', lv, e)
        return lv

    def freeze(s, e):
        """value of e now, in a temp (unless immutable)"""
        if e.op in ('const', 'str', 'flt', 'fn', 'lab'):
            return e
        if e.op == 'addr' and e.a[0].root().kind == 'var':
            return e
        if e.op == 'load' and e.a[0].kind == 'var' and e.a[0].a[0].startswith('%t'):
            return e
        uid = s.temp(e.ty, e.dty)
        lv = LV('var', (uid,), e.ty, e.dty)
        s.emit('set', lv, e)
        return E('load', (lv,), e.ty, e.dty, s.line)

    def _operands(s, ns):
        """Operands with unspecified evaluation order."""
        eff = [has_effect(n) for n in ns]
        if not any(eff):
            return [s.expr(n) for n in ns]
        res = [None] * len(ns)
        # effect-free operands are read first (allowed order; pessimistic for stale-pointer analyses)
        for i, n in enumerate(ns):
            if not eff[i]:
                res[i] = s.freeze(s.expr(n))
        effidx = [i for i in range(len(ns)) if eff[i]]
        spans = []
        for i in effidx:
            before = len(s.allcalls) if hasattr(s, 'allcalls') else 0
            if not hasattr(s, 'allcalls'):
                s.allcalls = []
            before = len(s.allcalls)
            e = s.expr(ns[i])
            res[i] = s.freeze(e) if len(effidx) > 1 or i != effidx[-1] else e
            spans.append((i, s.allcalls[before:]))
        if len(effidx) > 1:
            for i, _ in spans:
                others = [c for j, cs in spans if j > i for c in cs]
                # i is evaluated first above, so its temp is live over the others already; the reverse order:
            for k, (i, _) in enumerate(spans):
                later_first = [c for j, cs in spans[:k] for c in cs]
                e = res[i]
                if later_first and e.op == 'load' and e.a[0].kind == 'var':
                    s.emit('unseq', e.a[0].a[0], [c.id for c in later_first], later_first)
        return res

    def expr(s, n):
        n = skip_parens(n)
        if n.get('_l') and n['_l'][1]:
            s.line = n['_l'][1]
        k = n['kind']
        q, dq = s.ty(n) if 'type' in n else ('int', 'int')
        if k == 'ConstantExpr':
            v = _constval(n)
            if v is not None:
                return E('const', (v,), q, dq, s.line)
            return s.expr(n['inner'][0])
        if k in ('IntegerLiteral',):
            return E('const', (int(n['value']),), q, dq, s.line)
        if k == 'CharacterLiteral':
            return E('const', (int(n['value']),), q, dq, s.line)
        if k == 'FloatingLiteral':
            return E('flt', (n.get('value'),), q, dq, s.line)
        if k == 'StringLiteral':
            return E('str', (strlit(n),), 'char *', 'char *', s.line)
        if k == 'UnaryExprOrTypeTraitExpr':
            return s.sizeof(n, q, dq)
        if k == 'OffsetOfExpr':
            return E('const', (0,), q, dq, s.line)
        if k == 'AddrLabelExpr':
            nm = s.labname(n['labelDeclId'])
            if s.fn.name == '<init>':
                s.pure_labels.append(nm)
            else:
                s.fn.addrlabels.add(nm)
                s.label(nm)
            return E('lab', (nm,), q, dq, s.line)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            r = s.ids.get(rd['id'])
            if r and r[0] == 'enum':
                return E('const', (r[1],), q, dq, s.line)
            if rd['kind'] == 'EnumConstantDecl':
                return E('const', (s.prog.enums[rd['name']],), q, dq, s.line)
            if rd['kind'] == 'FunctionDecl':
                return E('fn', (rd['name'],), q, dq, s.line)
            return E('load', (s.lvalue(n),), q, dq, s.line)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return s.cast(n, q, dq)
        if k == 'UnaryOperator':
            return s.unary(n, q, dq)
        if k == 'BinaryOperator':
            return s.binary(n, q, dq)
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            a, b = n['inner']
            if has_effect(b):
                if has_call(b):
                    lv = s.freezelv(s.lvalue(a))
                    eb = s.freeze(s.expr(b))
                else:
                    eb = s.freeze(s.expr(b))
                    lv = s.lvalue(a)
            else:
                eb = s.expr(b)
                lv = s.freezelv(s.lvalue(a)) if has_effect(a) else s.lvalue(a)
            ea = E('load', (lv,), lv.ty, lv.dty, s.line)
            if is_ptr_ty(lv.dty) and op in '+-':
                if op == '-':
                    eb = E('un', ('-', eb), eb.ty, eb.dty)
                v = E('padd', (ea, eb), lv.ty, lv.dty, s.line)
            else:
                ct = n.get('computeResultType', {}).get('qualType', q)
                v = E('bin', (op, ea, eb), ct, n.get('computeResultType', {}).get('desugaredQualType', ct), s.line)
                if ct != q:
                    v = E('cast', (v,), q, dq, s.line)
            s.emit('set', lv, v)
            return E('load', (lv,), q, dq, s.line)
        if k == 'CallExpr':
            return s.call(n, want=True)
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            T, F, J = s.newblock(), s.newblock(), s.newblock()
            uid = s.temp(q, dq)
            lv = LV('var', (uid,), q, dq)
            s.cond(c, T, F)
            s.cur = T
            if q == 'void':
                s.effect(a)
            else:
                e = s.expr(a)
                s.emit('set', lv, e)
            s.start(J)
            s.cur = F
            if q == 'void':
                s.effect(b)
            else:
                e = s.expr(b)
                s.emit('set', lv, e)
            s.start(J)
            s.cur = J
            return E('load', (lv,), q, dq, s.line)
        if k == 'BinaryConditionalOperator':
            raise AnalysisError('?: extension')
        if k in ('ArraySubscriptExpr', 'MemberExpr'):
            lv = s.lvalue(n)
            if arraydim(s.prog.resolve(q)) is not None:
                return E('addr', (lv,), q, dq, s.line)
            return E('load', (lv,), q, dq, s.line)
        if k == 'StmtExpr':
            body = n['inner'][0]
            kids = body.get('inner', [])
            for c in kids[:-1]:
                s.stmt(c)
            if kids:
                last = kids[-1]
                if last['kind'].endswith(('Expr', 'Operator', 'Literal')):
                    return s.freeze(s.expr(last))
                s.stmt(last)
            return E('const', (0,), 'int')
        if k == 'PredefinedExpr':
            return E('str', (b'fn',), 'char *')
        if k == 'ImplicitValueInitExpr':
            return E('const', (0,), q, dq)
        if k == 'CompoundLiteralExpr':
            return E('load', (s.lvalue(n),), q, dq)
        if k == 'VAArgExpr':
            return E('load', (LV('var', (s.temp(q, dq),), q, dq),), q, dq)
        if k == 'GNUNullExpr':
            return E('const', (0,), q, dq)
        if k == 'InitListExpr':
            uid = s.temp(q, dq)
            lv = LV('var', (uid,), q, dq)
            s.init(lv, n)
            return E('load', (lv,), q, dq)
        if k == 'RecoveryExpr':
            raise AnalysisError('%s:%d: clang could not type an expression' % (s.unit, s.line))
        raise AnalysisError('%s:%d: unsupported expression %s' % (s.unit, s.line, k))

    def freezelv(s, lv):
        if lv.kind == 'mem':
            return LV('mem', (s.freeze(lv.a[0]),), lv.ty, lv.dty)
        if lv.kind == 'fld':
            return LV('fld', (s.freezelv(lv.a[0]), lv.a[1]), lv.ty, lv.dty)
        return lv

    def sizeof(s, n, q, dq):
        nm = n.get('name')
        if nm in ('sizeof',):
            if 'argType' in n:
                t = n['argType'].get('desugaredQualType') or n['argType']['qualType']
                tt = n['argType']['qualType']
            else:
                x = skip_parens(n['inner'][0])
                t = x['type'].get('desugaredQualType') or x['type']['qualType']
                tt = x['type']['qualType']
                if x['kind'] == 'StringLiteral':
                    return E('const', (len(strlit(x)) + 1,), q, dq, s.line)
                if x['kind'] == 'DeclRefExpr':
                    r = s.ids.get(x['referencedDecl']['id'])
                    if r and r[0] == 'var' and r[1] in s.prog.globals:
                        t = s.prog.globals[r[1]]['ty']
            for c in (t, tt):
                try:
                    return E('const', (s.prog.sizeof(c),), q, dq, s.line)
                except AnalysisError:
                    pass
            try:
                return E('const', (s.prog.sizeof(t),), q, dq, s.line)
            except AnalysisError:
                # opaque (e.g. anonymous system struct): symbolic positive size
                return E('load', (LV('var', ('sizeof(%s)#k' % t,), 'unsigned long'),), 'unsigned long')
        return E('const', (8,), q, dq, s.line)

    def cast(s, n, q, dq):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck == 'LValueToRValue':
            x2 = skip_parens(x)
            return E('load', (s.lvalue(x2),), q, dq, s.line)
        if ck == 'ArrayToPointerDecay':
            x2 = skip_parens(x)
            if x2['kind'] == 'StringLiteral':
                return E('str', (strlit(x2),), q, dq, s.line)
            if x2['kind'] == 'PredefinedExpr':
                return E('str', (b'fn',), q, dq, s.line)
            return E('addr', (s.lvalue(x2),), q, dq, s.line)
        if ck == 'FunctionToPointerDecay':
            x2 = skip_parens(x)
            if x2['kind'] == 'DeclRefExpr':
                return E('fn', (x2['referencedDecl']['name'],), q, dq, s.line)
            if x2['kind'] == 'UnaryOperator' and x2['opcode'] == '*':
                return s.expr(x2['inner'][0])
            return s.expr(x2)
        if ck == 'BuiltinFnToFnPtr':
            return E('fn', (skip_parens(x)['referencedDecl']['name'],), q, dq, s.line)
        if ck == 'ToVoid':
            s.effect(x)
            return E('const', (0,), 'void')
        e = s.expr(x)
        if ck == 'NullToPointer':
            return E('const', (0,), q, dq, s.line)
        if ck == 'NoOp' and k_same(e.dty, dq):
            return E(e.op, e.a, q, dq, e.line) if e.op != 'fn' else e
        return E('cast', (e,), q, dq, s.line)

    def unary(s, n, q, dq):
        op = n['opcode']
        x = n['inner'][0]
        if op == '&':
            x2 = skip_parens(x)
            lv = s.lvalue(x2)
            if lv.kind == 'fn':
                return E('fn', lv.a, q, dq, s.line)
            if lv.kind == 'mem' and arraydim(s.prog.resolve(lv.ty)) is None:
                p = lv.a[0]
                return E(p.op, p.a, q, dq, s.line) if p.op in ('padd',) else (p if p.op != 'load' else E('cast', (p,), q, dq, s.line) if p.ty != q else p)
            r = lv.root()
            if r.kind == 'var':
                s.fn.addr_taken.add(r.a[0])
            return E('addr', (lv,), q, dq, s.line)
        if op == '*':
            lv = s.lvalue(n)
            if arraydim(s.prog.resolve(q)) is not None:
                return E('addr', (lv,), q, dq, s.line)
            return E('load', (lv,), q, dq, s.line)
        if op in ('++', '--'):
            lv = s.lvalue(x)
            if lv.kind != 'var':
                lv = s.freezelv(lv)
            post = n.get('isPostfix')
            one = E('const', (1 if op == '++' else -1,), 'int')
            old = E('load', (lv,), q, dq, s.line)
            if post:
                old = s.freeze(old)
            cur = E('load', (lv,), q, dq, s.line)
            if is_ptr_ty(dq):
                v = E('padd', (old if post else cur, one), q, dq, s.line)
            else:
                v = E('bin', ('+', old if post else cur, one), q, dq, s.line)
            s.emit('set', lv, v)
            return old if post else E('load', (lv,), q, dq, s.line)
        if op == '__extension__':
            return s.expr(x)
        if op == '!':
            if has_shortcircuit(x):
                return s.boolval(n, q, dq)
            e = s.expr(x)
            return E('un', ('!', e), q, dq, s.line)
        if op in ('-', '~', '+'):
            e = s.expr(x)
            if op == '+':
                return e
            return E('un', (op, e), q, dq, s.line)
        raise AnalysisError('unary ' + op)

    def boolval(s, n, q, dq):
        T, F, J = s.newblock(), s.newblock(), s.newblock()
        uid = s.temp(q, dq)
        lv = LV('var', (uid,), q, dq)
        s.cond(n, T, F)
        s.cur = T
        s.emit('set', lv, E('const', (1,), q))
        s.start(J)
        s.cur = F
        s.emit('set', lv, E('const', (0,), q))
        s.start(J)
        s.cur = J
        return E('load', (lv,), q, dq, s.line)

    def binary(s, n, q, dq):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            if has_call(b):
                lv = s.lvalue(a)
                if lv.kind != 'var':
                    lv = s.freezelv(lv)
                eb = s.expr(b)
            elif has_effect(b):
                # assignments/increments in rhs: in C their order wrt. the address is unspecified too,
                # but conflicting accesses would be undefined; evaluate rhs first, then the address.
                if has_effect(a):
                    lv = s.freezelv(s.lvalue(a))
                    eb = s.expr(b)
                else:
                    eb = s.expr(b)
                    lv = s.lvalue(a)
            else:
                lv = s.lvalue(a)
                eb = s.expr(b)
            if has_effect(a) and lv.kind != 'var':
                lv = s.freezelv(lv)
            s.emit('set', lv, eb)
            return E('load', (lv,), q, dq, s.line) if lv.kind != 'var' or True else eb
        if op == ',':
            s.effect(a)
            return s.expr(b)
        if op in ('&&', '||'):
            return s.boolval(n, q, dq)
        ea, eb = s._operands([a, b])
        if op in ('+', '-'):
            pa, pb = is_ptr_ty(ea.dty), is_ptr_ty(eb.dty)
            if pa and pb and op == '-':
                return E('pdiff', (ea, eb), q, dq, s.line)
            if pa:
                if op == '-':
                    eb = E('un', ('-', eb), eb.ty, eb.dty, s.line)
                return E('padd', (ea, eb), q, dq, s.line)
            if pb and op == '+':
                return E('padd', (eb, ea), q, dq, s.line)
        return E('bin', (op, ea, eb), q, dq, s.line)

    def call(s, n, want):
        inner = n['inner']
        q, dq = s.ty(n)
        cn = callee_name(n)
        args = inner[1:]
        if cn == '__builtin_expect':
            return s.expr(args[0])
        if cn is not None:
            callee = cn
            ops = s._operands(args)
        else:
            cal = inner[0]
            ops = s._operands([cal] + args)
            callee, ops = ops[0], ops[1:]
            if callee.op == 'fn':
                callee = callee.a[0]
        uid = None
        if q != 'void':
            uid = s.temp(q, dq)
        if not hasattr(s, 'allcalls'):
            s.allcalls = []
        s.line = n['_l'][1] if n.get('_l') and n['_l'][1] else s.line
        i = s.emit('call', uid if (want or uid) else None, callee, ops)
        s.allcalls.append(i)
        if uid:
            return E('load', (LV('var', (uid,), q, dq),), q, dq, s.line)
        return E('const', (0,), 'void')


def k_same(a, b):
    return strip_quals(a) == strip_quals(b)


def is_ptr_ty(t):
    t = strip_quals(t)
    return t.endswith('*') or bool(re.search(r'\[\d*\]$', t)) or '(*' in t


def skip_parens(n):
    while n['kind'] in ('ParenExpr', 'FullComment', 'GenericSelectionExpr', 'ExprWithCleanups'):
        n = n['inner'][-1] if n['kind'] == 'GenericSelectionExpr' else n['inner'][0]
    return n


def callee_name(n):
    c = skip_parens(n['inner'][0])
    while c['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') or (c['kind'] == 'UnaryOperator' and c.get('opcode') in ('*', '&')):
        if c['kind'] == 'CStyleCastExpr' :
            pass
        c = skip_parens(c['inner'][0])
    if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] == 'FunctionDecl':
        return c['referencedDecl']['name']
    return None


def has_call(n):
    if not n:
        return False
    if n['kind'] in ('CallExpr', 'StmtExpr') and callee_name(n) != '__builtin_expect' if n['kind'] == 'CallExpr' else n['kind'] == 'StmtExpr':
        return True
    if n['kind'] == 'UnaryExprOrTypeTraitExpr':
        return False
    return any(has_call(c) for c in n.get('inner', ()) if c)


def has_effect(n):
    if not n:
        return False
    k = n['kind']
    if k in ('CallExpr', 'StmtExpr', 'CompoundAssignOperator', 'VAArgExpr'):
        if k == 'CallExpr' and callee_name(n) == '__builtin_expect':
            return any(has_effect(c) for c in n.get('inner', ()) if c)
        return True
    if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
        return True
    if k == 'BinaryOperator' and n['opcode'] in ('=', ',', '&&', '||'):
        if n['opcode'] in ('=',):
            return True
        return True if n['opcode'] in ('&&', '||') else any(has_effect(c) for c in n['inner'])
    if k == 'ConditionalOperator':
        return True
    if k == 'UnaryExprOrTypeTraitExpr':
        return False
    return any(has_effect(c) for c in n.get('inner', ()) if c)


def has_shortcircuit(n):
    if n['kind'] in ('BinaryOperator',) and n['opcode'] in ('&&', '||'):
        return True
    return any(has_shortcircuit(c) for c in n.get('inner', ()) if c)


def has_deref(e):
    if e.op == 'load':
        l = e.a[0]
        return l.root().kind == 'mem'
    return any(has_deref(k) for k in e.kids())


def _constval(n):
    if n['kind'] == 'ConstantExpr' and 'value' in n:
        try:
            return int(n['value'])
        except ValueError:
            return None
    for c in n.get('inner', ()):
        v = _constval(c)
        if v is not None:
            return v
        break
    return None


def strlit(n):
    v = n['value']
    if v.startswith('L') or v.startswith('u'):
        v = v[v.index('"'):]
    return unescape(v[1:-1])


_ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63, 'e': 27}


def unescape(v):
    out = bytearray()
    i = 0
    b = v
    while i < len(b):
        c = b[i]
        if c == '\\':
            c2 = b[i + 1]
            if c2 in '01234567':
                m = re.match(r'[0-7]{1,3}', b[i + 1:])
                out.append(int(m.group(0), 8) & 255)
                i += 1 + len(m.group(0))
                continue
            if c2 == 'x':
                m = re.match(r'[0-9a-fA-F]+', b[i + 2:])
                out.append(int(m.group(0), 16) & 255)
                i += 2 + len(m.group(0))
                continue
            out.append(_ESC.get(c2, ord(c2)))
            i += 2
            continue
        out += c.encode('utf-8')
        i += 1
    return bytes(out)


def fold(e):
    """integer constant value or None (C long arithmetic, no width care beyond casts to int types)"""
    if e.op == 'const':
        return e.a[0]
    if e.op == 'cast':
        v = fold(e.a[0])
        if v is None:
            return None
        return wrap(v, e.dty)
    if e.op == 'un':
        v = fold(e.a[1])
        if v is None:
            return None
        return {'-': lambda: wrap(-v, e.dty), '~': lambda: wrap(~v, e.dty), '!': lambda: int(not v)}[e.a[0]]()
    if e.op == 'bin':
        a, b = fold(e.a[1]), fold(e.a[2])
        if a is None or b is None:
            return None
        op = e.a[0]
        try:
            if op == '+': r = a + b
            elif op == '-': r = a - b
            elif op == '*': r = a * b
            elif op == '/': r = int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
            elif op == '%': r = abs(a) % abs(b) * (1 if a >= 0 else -1)
            elif op == '<<': r = a << b
            elif op == '>>': r = a >> b
            elif op == '&': r = a & b
            elif op == '|': r = a | b
            elif op == '^': r = a ^ b
            elif op == '==': return int(a == b)
            elif op == '!=': return int(a != b)
            elif op == '<': return int(a < b)
            elif op == '>': return int(a > b)
            elif op == '<=': return int(a <= b)
            elif op == '>=': return int(a >= b)
            else: return None
        except (ZeroDivisionError, ValueError):
            return None
        return wrap(r, e.dty)
    return None


_W = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
      'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
      '_Bool': (1, 0)}


def width(ty):
    t = strip_quals(ty)
    if t in _W:
        return _W[t]
    if is_ptr_ty(t):
        return (64, 0)
    if t.startswith('enum '):
        return (32, 0)
    return None


def wrap(v, ty):
    w = width(ty)
    if not w:
        return v
    n, s = w
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v


def load_program(units, defines=None):
    from concurrent.futures import ProcessPoolExecutor
    P = Program()
    defines = defines or {}
    import json
    from concurrent.futures import ThreadPoolExecutor
    cbuild.scratch()
    with ThreadPoolExecutor(8) as ex:
        futs = [(u, ex.submit(cbuild.ast_json, u, defines.get(u, ()))) for u in units]
        for u, f in futs:
            root = f.result()
            annotate(root)
            Lower(P, u, root).run()
    # nop typedef fixups
    return P
