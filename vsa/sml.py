"""Lexer and parser for Standard ML as accepted by Moscow ML (core, modules, prim_val, #[..], .mlp conditionals).

Nodes are `N(kind, line, a)`; infix applications are resolved with the declared fixities.
"""
import os
import re
from .cbuild import AnalysisError


class N:
    __slots__ = ('k', 'line', 'a')

    def __init__(s, k, line, *a):
        s.k, s.line, s.a = k, line, a

    def __repr__(s):
        return '(%s%s)' % (s.k, ''.join(' ' + repr(x) for x in s.a))


RESERVED = set('''abstype and andalso as case datatype do else end eqtype exception fn fun functor handle if in include
infix infixr let local nonfix of op open orelse raise rec sharing sig signature struct structure then type val where
while with withtype prim_val prim_type prim_eqtype prim_EQtype'''.split())
SYMRES = {':', '|', '=', '=>', '->', '#', ':>'}
SYM = r"[!%&$#+\-/:<=>?@\\~`^|*]+"
TOK = re.compile(r'''
  (?P<ws>[ \t\r\n\f]+)
 |(?P<com>\(\*)
 |(?P<chr>\#"(?:\\.|[^"\\])*")
 |(?P<vec>\#\[)
 |(?P<str>")
 |(?P<word>0wx[0-9a-fA-F]+|0w[0-9]+)
 |(?P<real>~?[0-9]+(?:\.[0-9]+(?:[eE]~?[0-9]+)?|[eE]~?[0-9]+))
 |(?P<hex>~?0x[0-9a-fA-F]+)
 |(?P<int>~?[0-9]+)
 |(?P<tyvar>'[A-Za-z0-9_']*)
 |(?P<id>[A-Za-z][A-Za-z0-9_']*(?:\.(?:[A-Za-z][A-Za-z0-9_']*|[!%&$\#+\-/:<=>?@\\~`^|*]+))*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[()\[\]{},;_])
 |(?P<sym>[!%&$\#+\-/:<=>?@\\~`^|*]+)
''', re.X)
QID = re.compile(r"[A-Za-z][A-Za-z0-9_']*")


class Tok:
    __slots__ = ('t', 'v', 'line')

    def __init__(s, t, v, line):
        s.t, s.v, s.line = t, v, line

    def __repr__(s):
        return '%s:%r@%d' % (s.t, s.v, s.line)


def cpp(text, defs):
    """the conditionals of .mlp files; keeps line numbers"""
    out = []
    stack = []

    def ev(c):
        c = re.sub(r'defined\s*\(\s*(\w+)\s*\)|defined\s+(\w+)', lambda m: '1' if (m.group(1) or m.group(2)) in defs else '0', c)
        c = re.sub(r'\b[A-Za-z_]\w*\b', lambda m: str(defs.get(m.group(0), 0)), c)
        c = c.replace('&&', ' and ').replace('||', ' or ').replace('!', ' not ')
        return bool(eval(c, {'__builtins__': {}}))
    for l in text.split('\n'):
        m = re.match(r'#\s*(\w+)\s*(.*)', l)
        if m and m.group(1) in ('if', 'ifdef', 'ifndef', 'elif', 'else', 'endif', 'include', 'define', 'undef'):
            d, r = m.groups()
            if d == 'ifdef':
                c = r.split()[0] in defs
                stack.append([c, c])
            elif d == 'ifndef':
                c = r.split()[0] not in defs
                stack.append([c, c])
            elif d == 'if':
                c = ev(r)
                stack.append([c, c])
            elif d == 'elif':
                c = not stack[-1][1] and ev(r)
                stack[-1] = [c, stack[-1][1] or c]
            elif d == 'else':
                stack[-1] = [not stack[-1][1], True]
            elif d == 'endif':
                stack.pop()
            elif d == 'define' and all(x[0] for x in stack):
                p = r.split(None, 1)
                defs = dict(defs)
                defs[p[0]] = p[1] if len(p) > 1 else 1
            out.append('')
        elif all(x[0] for x in stack):
            out.append(l)
        else:
            out.append('')
    return '\n'.join(out)


ESC = {'n': '\n', 't': '\t', 'a': '\a', 'b': '\b', 'v': '\v', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}


def unescape(s):
    r, i = [], 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            r.append(c)
            i += 1
            continue
        d = s[i + 1]
        if d in ESC:
            r.append(ESC[d])
            i += 2
        elif d == '^':
            r.append(chr(ord(s[i + 2]) - 64))
            i += 3
        elif d.isdigit():
            r.append(chr(int(s[i + 1:i + 4])))
            i += 4
        elif d == 'u':
            r.append(chr(int(s[i + 2:i + 6], 16)))
            i += 6
        else:
            j = i + 1
            while j < len(s) and s[j] in ' \t\r\n\f':
                j += 1
            i = j + 1
    return ''.join(r)


def lex(text, name='?'):
    r = []
    i, line = 0, 1
    n = len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise AnalysisError('%s:%d: cannot read %r' % (name, line, text[i:i + 10]))
        k = m.lastgroup
        s = m.group()
        if k == 'ws':
            line += s.count('\n')
            i = m.end()
            continue
        if k == 'com':
            d = 1
            j = i + 2
            while d:
                a = text.find('(*', j)
                b = text.find('*)', j)
                if b < 0:
                    raise AnalysisError('%s:%d: unterminated comment' % (name, line))
                if 0 <= a < b:
                    d += 1
                    j = a + 2
                else:
                    d -= 1
                    j = b + 2
            line += text.count('\n', i, j)
            i = j
            continue
        if k == 'str':
            j = i + 1
            while text[j] != '"':
                if text[j] == '\\':
                    if text[j + 1] in ' \t\n\r\f':
                        j += 1
                        while text[j] in ' \t\n\r\f':
                            j += 1
                        j += 1
                    else:
                        j += 2
                else:
                    j += 1
            r.append(Tok('str', unescape(text[i + 1:j]), line))
            line += text.count('\n', i, j + 1)
            i = j + 1
            continue
        if k == 'chr':
            r.append(Tok('chr', unescape(s[2:-1]), line))
        elif k == 'vec':
            r.append(Tok('p', '#[', line))
        elif k == 'word':
            r.append(Tok('word', int(s[3:], 16) if s.startswith('0wx') else int(s[2:]), line))
        elif k == 'real':
            r.append(Tok('real', s, line))
        elif k == 'hex':
            r.append(Tok('int', int(s.replace('~', '-'), 16), line))
        elif k == 'int':
            r.append(Tok('int', int(s.replace('~', '-')), line))
        elif k == 'tyvar':
            r.append(Tok('tyvar', s, line))
        elif k == 'id':
            r.append(Tok('kw' if s in RESERVED else 'id', s, line))
        elif k == 'dots':
            r.append(Tok('p', '...', line))
        elif k == 'punct':
            r.append(Tok('p', s, line))
        elif k == 'sym':
            if s.startswith('`'):
                # quotation: skip to the closing backquote
                j = text.index('`', i + (2 if s.startswith('``') else 1))
                j2 = j + (2 if s.startswith('``') else 1)
                r.append(Tok('str', text[i:j2], line))
                line += text.count('\n', i, j2)
                i = j2
                continue
            r.append(Tok('kw' if s in SYMRES else 'id', s, line))
        line += s.count('\n')
        i = m.end()
    r.append(Tok('eof', '', line))
    return r


DEFFIX = {}
for _p, _a, _ids in ((7, 'l', '* / div mod quot rem'), (6, 'l', '+ - ^'), (5, 'r', ':: @'), (4, 'l', '= <> > >= < <= == !='),
                     (3, 'l', ':= o'), (0, 'l', 'before')):
    for _i in _ids.split():
        DEFFIX[_i] = (_p, _a)
for _i in ('quot', 'rem', '==', '!='):
    del DEFFIX[_i]


class Parser:
    def __init__(s, toks, name, fix=None):
        s.t, s.i, s.name = toks, 0, name
        s.fix = dict(DEFFIX if fix is None else fix)

    # -- helpers
    @property
    def tok(s):
        return s.t[s.i]

    def err(s, m='syntax'):
        raise AnalysisError('%s:%d: %s near %s' % (s.name, s.tok.line, m, s.t[max(0, s.i - 2):s.i + 4]))

    def isk(s, *v):
        t = s.t[s.i]
        return t.t in ('kw', 'p') and t.v in v

    def isv(s, v):
        t = s.t[s.i]
        return t.t in ('kw', 'p', 'id') and t.v == v

    def eat(s, v):
        if s.isv(v):
            s.i += 1
            return True
        return False

    def need(s, v):
        if not s.eat(v):
            s.err('expected ' + v)

    def ident(s, eq=True):
        t = s.tok
        if t.t == 'id' or eq and t.t == 'kw' and t.v == '=':
            s.i += 1
            return t.v
        s.err('identifier expected')

    def opident(s):
        s.eat('op')
        return s.ident()

    # -- types
    def ty(s):
        l = s.tok.line
        a = s.tytuple()
        if s.isk('->'):
            s.i += 1
            return N('tyfun', l, a, s.ty())
        return a

    def tytuple(s):
        l = s.tok.line
        a = [s.tyapp()]
        while s.tok.t == 'id' and s.tok.v == '*':
            s.i += 1
            a.append(s.tyapp())
        return a[0] if len(a) == 1 else N('tytuple', l, a)

    def tyapp(s):
        l = s.tok.line
        t = s.tok
        if t.t == 'tyvar':
            s.i += 1
            x = [N('tyvar', l, t.v)]
        elif s.isk('{'):
            s.i += 1
            fs = []
            while not s.isk('}'):
                lab = str(s.tok.v)
                s.i += 1
                s.need(':')
                fs.append((lab, s.ty()))
                if not s.eat(','):
                    break
            s.need('}')
            x = [N('tyrecord', l, fs)]
        elif s.isk('('):
            s.i += 1
            x = [s.ty()]
            while s.eat(','):
                x.append(s.ty())
            s.need(')')
        elif s.isk('['):
            # package type [S]
            s.i += 1
            sg = s.sigexp()
            s.need(']')
            x = [N('typack', l, sg)]
        elif t.t == 'id' and t.v != '*':
            s.i += 1
            x = [N('tycon', l, [], t.v)]
        else:
            s.err('type expected')
        while s.tok.t == 'id' and s.tok.v != '*' and QID.match(s.tok.v):
            x = [N('tycon', l, x, s.tok.v)]
            s.i += 1
        if len(x) != 1:
            s.err('type')
        return x[0]

    def tyvarseq(s):
        if s.tok.t == 'tyvar':
            s.i += 1
            return [s.t[s.i - 1].v]
        if s.isk('(') and s.t[s.i + 1].t == 'tyvar':
            s.i += 1
            r = []
            while True:
                r.append(s.tok.v)
                s.i += 1
                if not s.eat(','):
                    break
            s.need(')')
            return r
        return []

    # -- patterns
    def atpat_start(s):
        t = s.tok
        return t.t in ('int', 'word', 'str', 'chr', 'real') or t.t == 'id' and t.v not in s.fix or s.isk('(', '[', '{', '_', '#[') \
            or t.t == 'kw' and t.v == 'op'

    def pat(s):
        l = s.tok.line
        p = s.pat_infix()
        while True:
            if s.isk(':'):
                s.i += 1
                p = N('ptyped', l, p, s.ty())
            elif s.isk('as'):
                s.i += 1
                p = N('pas', l, p, s.pat())
            else:
                return p

    def pat_infix(s):
        items = []
        while True:
            if s.atpat_start():
                items.append(s.pat_app())
            elif s.tok.t == 'id' and s.tok.v in s.fix:
                items.append(Tok('op', s.tok.v, s.tok.line))
                s.i += 1
            else:
                break
        return s.resolve(items, lambda o, a, b, l: N('papp', l, o, N('ptuple', l, [a, b])))

    def pat_app(s):
        t = s.tok
        l = t.line
        if t.t == 'id' and t.v not in s.fix or t.t == 'kw' and t.v == 'op':
            v = s.opident()
            if s.isk(':', 'as'):
                return N('pid', l, v)
            if s.atpat_start():
                return N('papp', l, v, s.atpat())
            return N('pid', l, v)
        return s.atpat()

    def atpat(s):
        t = s.tok
        l = t.line
        if t.t in ('int', 'word', 'str', 'chr', 'real'):
            s.i += 1
            return N('pconst', l, t.t, t.v)
        if t.t == 'id' or t.t == 'kw' and t.v == 'op':
            return N('pid', l, s.opident())
        if s.eat('_'):
            return N('pwild', l)
        if s.eat('('):
            if s.eat(')'):
                return N('ptuple', l, [])
            ps = [s.pat()]
            while s.eat(','):
                ps.append(s.pat())
            s.need(')')
            return ps[0] if len(ps) == 1 else N('ptuple', l, ps)
        if s.isk('[', '#['):
            k = 'plist' if s.isk('[') else 'pvec'
            s.i += 1
            ps = []
            while not s.isk(']'):
                ps.append(s.pat())
                if not s.eat(','):
                    break
            s.need(']')
            return N(k, l, ps)
        if s.eat('{'):
            fs, flex = [], False
            while not s.isk('}'):
                if s.eat('...'):
                    flex = True
                else:
                    lab = str(s.tok.v)
                    lt = s.tok
                    s.i += 1
                    if s.eat('='):
                        fs.append((lab, s.pat()))
                    else:
                        p = N('pid', lt.line, lab)
                        if s.eat(':'):
                            p = N('ptyped', lt.line, p, s.ty())
                        if s.eat('as'):
                            p = N('pas', lt.line, p, s.pat())
                        fs.append((lab, p))
                if not s.eat(','):
                    break
            s.need('}')
            return N('precord', l, fs, flex)
        s.err('pattern')

    def resolve(s, items, mk, app=None):
        """precedence resolution; items: nodes and op tokens"""
        if not items:
            s.err('empty expression')
        out, ops = [], []

        def red():
            o = ops.pop()
            b = out.pop()
            a = out.pop()
            out.append(mk(o.v, a, b, o.line))
        want = True
        for x in items:
            if isinstance(x, Tok):
                if want:
                    # an infix identifier used as a plain value (e.g. after op elision): error
                    s.err('infix operator %s' % x.v)
                p, a = s.fix[x.v]
                while ops:
                    q, _ = s.fix[ops[-1].v]
                    if q > p or q == p and a == 'l':
                        red()
                    else:
                        break
                ops.append(x)
                want = True
            else:
                if not want:
                    if app is None:
                        s.err('juxtaposed patterns')
                    out[-1] = app(out[-1], x)
                else:
                    out.append(x)
                want = False
        if want:
            s.err('operand missing')
        while ops:
            red()
        return out[0]

    # -- expressions
    def exp(s):
        l = s.tok.line
        e = s.exp_or()
        while s.isk('handle'):
            s.i += 1
            e = N('handle', l, e, s.rules())
        return e

    def exp_noh(s):
        return s.exp()

    def exp_or(s):
        l = s.tok.line
        e = s.exp_and()
        while s.isk('orelse'):
            s.i += 1
            e = N('orelse', l, e, s.exp_and())
        return e

    def exp_and(s):
        l = s.tok.line
        e = s.exp_ty()
        while s.isk('andalso'):
            s.i += 1
            e = N('andalso', l, e, s.exp_ty())
        return e

    def exp_ty(s):
        l = s.tok.line
        e = s.exp_infix()
        while s.isk(':'):
            s.i += 1
            e = N('typed', l, e, s.ty())
        return e

    def rules(s):
        r = []
        s.eat('|')
        while True:
            p = s.pat()
            s.need('=>')
            r.append((p, s.exp()))
            if not s.eat('|'):
                return r

    def exp_infix(s):
        items = []
        while True:
            t = s.tok
            l = t.line
            if t.t == 'kw':
                if t.v == 'raise':
                    s.i += 1
                    items.append(N('raise', l, s.exp()))
                    break
                if t.v == 'if':
                    s.i += 1
                    c = s.exp()
                    s.need('then')
                    a = s.exp()
                    s.need('else')
                    items.append(N('if', l, c, a, s.exp()))
                    break
                if t.v == 'while':
                    s.i += 1
                    c = s.exp()
                    s.need('do')
                    items.append(N('while', l, c, s.exp()))
                    break
                if t.v == 'case':
                    s.i += 1
                    c = s.exp()
                    s.need('of')
                    items.append(N('case', l, c, s.rules()))
                    break
                if t.v == 'fn':
                    s.i += 1
                    items.append(N('fn', l, s.rules()))
                    break
                if t.v == '=' and '=' in s.fix:
                    items.append(Tok('op', '=', l))
                    s.i += 1
                    continue
            if t.t == 'id' and t.v in s.fix:
                items.append(Tok('op', t.v, l))
                s.i += 1
                continue
            if s.atexp_start():
                items.append(s.atexp())
                continue
            break
        return s.resolve(items, lambda o, a, b, l: N('app', l, N('id', l, o), N('tuple', l, [a, b])), lambda f, x: N('app', x.line if f.k != 'id' else f.line, f, x))

    def atexp_start(s):
        t = s.tok
        return t.t in ('int', 'word', 'real', 'str', 'chr', 'id') or s.isk('(', '[', '{', '#[', 'let', 'op', '#')

    def atexp(s):
        t = s.tok
        l = t.line
        if t.t in ('int', 'word', 'real', 'str', 'chr'):
            s.i += 1
            return N(t.t, l, t.v)
        if t.t == 'id' or t.t == 'kw' and t.v == 'op':
            return N('id', l, s.opident())
        if s.eat('#'):
            lab = str(s.tok.v)
            s.i += 1
            return N('sel', l, lab)
        if s.eat('('):
            if s.eat(')'):
                return N('tuple', l, [])
            e = s.exp()
            if s.isk(','):
                es = [e]
                while s.eat(','):
                    es.append(s.exp())
                s.need(')')
                return N('tuple', l, es)
            if s.isk(';'):
                es = [e]
                while s.eat(';'):
                    if s.isk(')'):
                        break
                    es.append(s.exp())
                s.need(')')
                return N('seq', l, es)
            s.need(')')
            return N('par', l, e) if e.k in ('typed',) else e
        if s.isk('[') and s.t[s.i + 1].t == 'kw' and s.t[s.i + 1].v in ('structure', 'functor'):
            s.i += 2
            m = s.modexp()
            ty = None
            if s.eat('as'):
                ty = s.sigexp()
            s.need(']')
            return N('pack', l, m, ty)
        if s.isk('[', '#['):
            k = 'list' if s.isk('[') else 'vec'
            s.i += 1
            es = []
            while not s.isk(']'):
                es.append(s.exp())
                if not s.eat(','):
                    break
            s.need(']')
            return N(k, l, es)
        if s.eat('{'):
            fs = []
            while not s.isk('}'):
                lab = str(s.tok.v)
                lt = s.tok
                s.i += 1
                if s.eat('='):
                    fs.append((lab, s.exp()))
                else:
                    fs.append((lab, N('id', lt.line, lab)))
                if not s.eat(','):
                    break
            s.need('}')
            return N('record', l, fs)
        if s.eat('let'):
            old = dict(s.fix)
            ds = s.decs()
            s.need('in')
            es = [s.exp()]
            while s.eat(';'):
                if s.isk('end'):
                    break
                es.append(s.exp())
            s.need('end')
            s.fix = old
            return N('let', l, ds, es[0] if len(es) == 1 else N('seq', l, es))
        s.err('expression')

    # -- declarations
    def decs(s):
        r = []
        while True:
            while s.eat(';'):
                pass
            d = s.dec()
            if d is None:
                return r
            r.append(d)

    def dec(s):
        t = s.tok
        l = t.line
        if t.t != 'kw':
            return None
        v = t.v
        if v == 'val':
            s.i += 1
            tv = s.tyvarseq()
            rec = False
            bs = []
            while True:
                if s.eat('rec'):
                    rec = True
                p = s.pat_nocolon()
                s.need('=')
                bs.append((p, s.exp()))
                if not s.eat('and'):
                    break
            return N('val', l, rec, bs)
        if v == 'fun':
            s.i += 1
            s.tyvarseq()
            fs = []
            while True:
                cl = []
                s.eat('|')
                while True:
                    cl.append(s.funclause())
                    if not s.eat('|'):
                        break
                fs.append(cl)
                if not s.eat('and'):
                    break
            return N('fun', l, fs)
        if v == 'type':
            s.i += 1
            return N('type', l, s.typbinds())
        if v in ('prim_type', 'prim_eqtype', 'prim_EQtype', 'eqtype'):
            s.i += 1
            r = []
            while True:
                tv = s.tyvarseq()
                r.append((tv, s.ident()))
                if not s.eat('and'):
                    break
            return N('primtype', l, v, r)
        if v == 'datatype':
            s.i += 1
            if s.t[s.i].t == 'id' and s.t[s.i + 1].v == '=' and s.t[s.i + 2].t == 'kw' and s.t[s.i + 2].v == 'datatype':
                n = s.ident()
                s.i += 2
                return N('datarepl', l, n, s.ident())
            d = s.datbinds()
            w = []
            if s.eat('withtype'):
                w = s.typbinds()
            return N('datatype', l, d, w)
        if v == 'abstype':
            s.i += 1
            d = s.datbinds()
            w = []
            if s.eat('withtype'):
                w = s.typbinds()
            s.need('with')
            ds = s.decs()
            s.need('end')
            return N('abstype', l, d, w, ds)
        if v == 'exception':
            s.i += 1
            r = []
            while True:
                n = s.opident()
                if s.eat('of'):
                    r.append((n, s.ty(), None))
                elif s.eat('='):
                    r.append((n, None, s.opident()))
                else:
                    r.append((n, None, None))
                if not s.eat('and'):
                    break
            return N('exception', l, r)
        if v == 'local':
            s.i += 1
            old = dict(s.fix)
            a = s.decs()
            s.need('in')
            b = s.decs()
            s.need('end')
            new = s.fix
            s.fix = old
            return N('local', l, a, b)
        if v == 'open':
            s.i += 1
            r = []
            while s.tok.t == 'id':
                r.append(s.ident())
            return N('open', l, r)
        if v in ('infix', 'infixr'):
            s.i += 1
            p = 0
            if s.tok.t == 'int':
                p = s.tok.v
                s.i += 1
            ids = []
            while s.tok.t == 'id' or s.tok.t == 'kw' and s.tok.v == '=':
                ids.append(s.ident())
            for x in ids:
                s.fix[x] = (p, 'r' if v == 'infixr' else 'l')
            return N('infix', l, v, p, ids)
        if v == 'nonfix':
            s.i += 1
            ids = []
            while s.tok.t == 'id':
                ids.append(s.ident())
            for x in ids:
                s.fix.pop(x, None)
            return N('nonfix', l, ids)
        if v == 'prim_val':
            s.i += 1
            r = []
            while True:
                n = s.opident()
                s.need(':')
                ty = s.ty()
                s.need('=')
                ar = s.tok.v
                s.i += 1
                cn = s.tok.v
                s.i += 1
                r.append((n, ty, ar, cn, l))
                if not s.eat('and'):
                    break
            return N('prim_val', l, r)
        if v == 'structure':
            s.i += 1
            r = []
            while True:
                n = s.ident()
                sg, opq = None, None
                if s.isk(':', ':>'):
                    opq = s.tok.v == ':>'
                    s.i += 1
                    sg = s.sigexp()
                me = None
                if s.eat('='):
                    me = s.modexp()
                r.append((n, sg, opq, me))
                if not s.eat('and'):
                    break
            return N('structure', l, r)
        if v == 'signature':
            s.i += 1
            r = []
            while True:
                n = s.ident()
                s.need('=')
                r.append((n, s.sigexp()))
                if not s.eat('and'):
                    break
            return N('signature', l, r)
        if v == 'functor':
            s.i += 1
            r = []
            while True:
                n = s.ident()
                args = []
                while s.isk('('):
                    s.i += 1
                    if s.tok.t == 'id' and s.t[s.i + 1].v == ':':
                        an = s.ident()
                        s.need(':')
                        args.append((an, s.sigexp()))
                    else:
                        args.append((None, s.specs()))
                    s.need(')')
                sg, opq = None, None
                if s.isk(':', ':>'):
                    opq = s.tok.v == ':>'
                    s.i += 1
                    sg = s.sigexp()
                s.need('=')
                r.append((n, args, sg, opq, s.modexp()))
                if not s.eat('and'):
                    break
            return N('functor', l, r)
        return None

    def pat_nocolon(s):
        return s.pat()

    def typbinds(s):
        r = []
        while True:
            tv = s.tyvarseq()
            n = s.ident()
            t = None
            if s.eat('='):
                t = s.ty()
            r.append((tv, n, t))
            if not s.eat('and'):
                return r

    def datbinds(s):
        r = []
        while True:
            tv = s.tyvarseq()
            n = s.ident()
            s.need('=')
            cs = []
            s.eat('|')
            while True:
                c = s.opident()
                cs.append((c, s.ty() if s.eat('of') else None))
                if not s.eat('|'):
                    break
            r.append((tv, n, cs))
            if not s.eat('and'):
                return r

    def funclause(s):
        l = s.tok.line
        # gather atomic patterns up to '=' or ':'
        start = s.i
        name, pats = None, []
        if s.eat('op'):
            name = s.ident()
        elif s.tok.t == 'id' and s.tok.v not in s.fix:
            # could be  name pats   or  pat infix pat
            if s.is_infix_clause():
                a = s.atpat()
                name = s.ident()
                b = s.atpat()
                pats = [N('ptuple', l, [a, b])]
            else:
                name = s.ident()
        elif s.isk('('):
            # (pat infix pat) pats   or   pat infix pat
            if s.is_infix_clause():
                a = s.atpat()
                name = s.ident()
                b = s.atpat()
                pats = [N('ptuple', l, [a, b])]
            else:
                s.i += 1
                a = s.atpat_app()
                name = s.ident()
                b = s.atpat_app()
                s.need(')')
                pats = [N('ptuple', l, [a, b])]
        else:
            if not s.is_infix_clause():
                s.err('fun clause')
            a = s.atpat()
            name = s.ident()
            b = s.atpat()
            pats = [N('ptuple', l, [a, b])]
        while s.atpat_start():
            pats.append(s.atpat())
        rt = None
        if s.eat(':'):
            rt = s.ty()
        s.need('=')
        return (name, pats, rt, s.exp(), l)

    def atpat_app(s):
        return s.pat_app()

    def is_infix_clause(s):
        """an atomic pattern followed by an infix identifier"""
        i = s.i
        try:
            s.atpat()
            r = s.tok.t == 'id' and s.tok.v in s.fix or (s.isk('=') and False)
        except AnalysisError:
            r = False
        s.i = i
        return r

    # -- modules
    def modexp(s):
        l = s.tok.line
        m = s.modexp_app()
        while s.isk(':', ':>'):
            o = s.tok.v == ':>'
            s.i += 1
            m = N('constraint', l, m, s.sigexp(), o)
        return m

    def modexp_app(s):
        l = s.tok.line
        m = s.atmod()
        while s.isk('(', 'struct', 'let') or s.tok.t == 'id':
            m = N('fapp', l, m, s.atmod())
        return m

    def atmod(s):
        l = s.tok.line
        if s.eat('struct'):
            old = dict(s.fix)
            ds = s.decs()
            s.need('end')
            s.fix = old
            return N('struct', l, ds)
        if s.eat('let'):
            old = dict(s.fix)
            ds = s.decs()
            s.need('in')
            m = s.modexp()
            s.need('end')
            s.fix = old
            return N('mlet', l, ds, m)
        if s.eat('functor'):
            s.eat('(')
            n = s.ident()
            s.need(':')
            sg = s.sigexp()
            s.need(')')
            s.need('=>')
            return N('mfn', l, n, sg, s.modexp())
        if s.eat('('):
            if s.tok.t == 'kw' and s.tok.v in ('val', 'fun', 'type', 'structure', 'datatype', 'exception', 'open', 'local', 'infix', 'infixr'):
                ds = s.decs()
                s.need(')')
                return N('struct', l, ds)
            m = s.modexp()
            s.need(')')
            return m
        s.eat('op')
        return N('mid', l, s.ident())

    def sigexp(s):
        l = s.tok.line
        if s.eat('sig'):
            g = N('sig', l, s.specs())
            s.need('end')
        elif s.eat('('):
            g = s.sigexp()
            s.need(')')
        elif s.eat('functor'):
            s.eat('(')
            n = s.ident()
            s.need(':')
            a = s.sigexp()
            s.need(')')
            s.need('->')
            g = N('sigfun', l, n, a, s.sigexp())
        else:
            g = N('sigid', l, s.ident())
        while s.isk('where'):
            s.i += 1
            ws = []
            s.need('type')
            while True:
                tv = s.tyvarseq()
                n = s.ident()
                s.need('=')
                ws.append((tv, n, s.ty()))
                if not (s.isk('and') and s.t[s.i + 1].v == 'type'):
                    break
                s.i += 2
            g = N('where', l, g, ws)
        return g

    def specs(s):
        r = []
        while True:
            while s.eat(';'):
                pass
            t = s.tok
            l = t.line
            if t.t != 'kw':
                return r
            v = t.v
            if v == 'val':
                s.i += 1
                s.tyvarseq()
                b = []
                while True:
                    n = s.opident()
                    s.need(':')
                    b.append((n, s.ty()))
                    if not s.eat('and'):
                        break
                r.append(N('sval', l, b))
            elif v in ('type', 'datatype', 'prim_type', 'prim_eqtype', 'prim_EQtype', 'eqtype', 'exception', 'infix', 'infixr', 'prim_val', 'open', 'nonfix', 'signature'):
                r.append(s.dec())
            elif v == 'local':
                s.i += 1
                a = s.specs()
                s.need('in')
                b = s.specs()
                s.need('end')
                r.append(N('slocal', l, a, b))
            elif v == 'structure':
                s.i += 1
                b = []
                while True:
                    n = s.ident()
                    if s.eat('='):
                        b.append((n, N('mid', l, s.ident())))
                    else:
                        s.need(':')
                        b.append((n, s.sigexp()))
                    if not s.eat('and'):
                        break
                r.append(N('sstruct', l, b))
            elif v == 'functor':
                s.i += 1
                n = s.ident()
                args = []
                if s.isk('('):
                    while s.eat('('):
                        an = s.ident()
                        s.need(':')
                        args.append((an, s.sigexp()))
                        s.need(')')
                s.need(':')
                r.append(N('sfunctor', l, n, args, s.sigexp()))
            elif v == 'include':
                s.i += 1
                ids = []
                if s.tok.t == 'id':
                    while s.tok.t == 'id':
                        ids.append(s.ident())
                    r.append(N('include', l, ids))
                else:
                    r.append(N('include', l, s.sigexp()))
            elif v == 'sharing':
                s.i += 1
                s.eat('type')
                s.ident()
                while s.eat('='):
                    s.ident(False)
            else:
                return r

    def program(s, sig=False):
        r = []
        while s.tok.t != 'eof':
            ds = s.specs() if sig else s.decs()
            r += ds
            if s.tok.t == 'eof':
                break
            if sig:
                ds = s.decs()
                if ds:
                    r += ds
                    continue
                s.err('specification')
            if s.atexp_start() or s.isk('if', 'case', 'raise', 'fn', 'while'):
                l = s.tok.line
                r.append(N('exp', l, s.exp()))
            else:
                s.err('declaration')
        return r


MLPDEFS = {'unix': 1, 'SIXTYFOUR': 1}


def parse_file(path, rel=None, defs=MLPDEFS):
    with open(path, encoding='latin-1') as f:
        text = f.read()
    if path.endswith('.mlp'):
        text = cpp(text, dict(defs))
    p = Parser(lex(text, rel or path), rel or path)
    return p.program(path.endswith('.sig'))


def walk(n, f):
    """pre-order over nodes, entering nested lists and tuples; f returns False to stop descending"""
    if isinstance(n, N):
        if f(n) is False:
            return
        for x in n.a:
            walk(x, f)
    elif isinstance(n, (list, tuple)):
        for x in n:
            walk(x, f)
