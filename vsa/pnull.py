"""C02: pointers that may be null are tested before use.  C03: results of system calls are tested.

Both follow the result of a call site (an origin) through variables, fields, helper functions and branches
(pstate.Engine); functions are summarised by the pointer parameters they dereference or keep untested and
by whether they may return null."""
from . import cflow, pstate, checks
from .cbuild import AnalysisError
from .cir import is_ptr_ty, strip_quals
from .cflow import walk_e, ins_exprs
from .pstate import Engine, State
from .report import Result

NULLABLE = set('''malloc calloc realloc reallocarray strdup strndup getenv localtime gmtime gethostbyname gethostbyaddr getservbyname
 getprotobyname getpwnam getpwuid getgrnam getgrgid opendir readdir fopen fdopen popen tmpfile strchr strrchr strstr strpbrk memchr
 getcwd getwd tempnam tmpnam crypt dlopen dlsym ttyname getlogin ctermid asctime ctime fgets gdbm_open mmap_never
 gdImageCreate gdImageCreateFromPng gdImageCreateFromGd localeconv_never setlocale strtok bsearch sbrk_never'''.split())
# arguments that the C library dereferences
DEREF = {'strlen': (0,), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1), 'strcmp': (0, 1), 'strncmp': (0, 1),
         'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'bcopy': (0, 1), 'bzero': (0,), 'memcmp': (0, 1), 'bcmp': (0, 1),
         'fread': (0, 3), 'fwrite': (0, 3), 'fclose': (0,), 'fprintf': (0,), 'fputs': (0, 1), 'fgets': (0, 2), 'getc': (0,), 'putc': (1,),
         'fgetc': (0,), 'fputc': (1,), 'readdir': (0,), 'closedir': (0,), 'rewinddir': (0,), 'sprintf': (0, 1), 'atoi': (0,), 'atof': (0,),
         'strtol': (0,), 'strtod': (0,), 'strdup': (0,), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'mktime': (0,), 'strftime': (0, 3),
         'asctime': (0,), 'rewind': (0,), 'fflush_never': (), 'fseek': (0,), 'ftell': (0,), 'feof': (0,), 'ferror': (0,), 'ungetc': (1,),
         'puts': (0,), 'system_never': (), 'fileno': (0,), 'vsprintf': (0, 1), 'snprintf': (0,), 'sscanf': (0, 1), 'localtime': (0,), 'gmtime': (0,), 'qsort': (0,),
         '__builtin_memcpy': (0, 1), '__memcpy_chk': (0, 1), 'strspn': (0, 1), 'strcspn': (0, 1), '__builtin_strlen': (0,)}
NEVERNULL_ARG = {'realloc_never'}


class Sum:
    __slots__ = ('deref', 'keep', 'ret', 'why')

    def __init__(s):
        s.deref, s.keep, s.ret, s.why = {}, {}, False, None

    def key(s):
        return (tuple(sorted(s.deref)), tuple(sorted(s.keep)), s.ret)


class Null:
    def __init__(s, P):
        s.P = P
        s.F = cflow.Facts(P)
        s.mods = pstate.modsets(s.F)
        s.sum = {k: Sum() for k in P.fns}
        s.helpers = cflow.internal_helpers(s.F)
        s.rep = {}
        s.stats = dict(functions=0, sources=0, dereferences=0, states=0)
        s.pre = {}

    def body(s, k):
        if k not in s.pre:
            f = s.P.fns[k]
            s.pre[k] = cflow.tempalias(f if k == 'interprete' else cflow.inline(s.F, f, lambda x: x in s.helpers and not s.P.resolve(s.P.fns[x].ret).endswith('*') and len(s.P.fns[x].blocks) < 25, maxblocks=250, depth=3), s.F, s.mods)
        return s.pre[k]

    def run(s):
        order = list(s.P.fns)
        rounds = 0
        dirty = set(order)
        callers = {}
        for k, f in s.P.fns.items():
            for i in s.F.calls[k]:
                if isinstance(i.a[1], str):
                    for t in s.F.targets(i, f)[0]:
                        callers.setdefault(t, set()).add(k)
        s.callers = callers
        byf = {}
        while dirty:
            rounds += 1
            if rounds > 12:
                raise AnalysisError('summaries do not stabilise')
            nxt = set()
            for k in order:
                if k not in dirty:
                    continue
                c = NullClient(s, k)
                e = Engine(s.F, s.body(k), c, s.mods)
                e.run()
                byf[k] = (c, e)
                if c.out.key() != s.sum[k].key():
                    nxt |= callers.get(k, set())
                    # inlined bodies: callers of callers too
                    for h in callers.get(k, set()):
                        if h in s.helpers:
                            nxt |= callers.get(h, set())
                s.sum[k] = c.out
            dirty = nxt
        for k, (c, e) in byf.items():
            s.rep.update(c.rep)
            s.stats['functions'] += 1
            s.stats['states'] += e.nstates
            s.big = sorted(getattr(s, 'big', []) + [(e.nstates, k)], reverse=True)[:12]
            s.stats['dereferences'] += len(c.nd)
            s.stats['sources'] += len([x for x in e.sites])
        return s


class NullClient:
    follow_igoto = True

    def __init__(s, ctx, k):
        s.ctx, s.k, s.f = ctx, k, ctx.P.fns[k]
        s.out = Sum()
        s.rep = {}
        s.nd = set()
        if s.f.ret.endswith('*') or is_ptr_ty(ctx.P.resolve(s.f.ret)):
            s.keepvars = {u for u, t in s.f.params}

    def entry(s, eng):
        st = State()
        for n, (u, t) in enumerate(s.f.params):
            v = s.f.vars.get(u)
            ty = s.ctx.P.resolve(v[2] if v else t)
            if is_ptr_ty(ty) or ty.endswith('*'):
                st.env[u] = ('o', ('param', n))
                st.sg[('param', n)] = frozenset('0+')
        return st

    def source(s, eng, i, args):
        c = i.a[1]
        if not isinstance(c, str):
            return None
        f = s.ctx.F.lookup(c, s.f)
        if f is not None:
            if s.ctx.sum[f.key].ret:
                return '0+'
            return None
        if c in NULLABLE:
            return '0+'
        return None

    def on_deref(s, eng, st, site, i, what):
        s.nd.add((i.id, site))
        s.bad(eng, st, site, i, 'dereferenced')

    def bad(s, eng, st, site, i, how):
        sg = st.sg.get(site)
        if sg is None or '0' not in sg:
            return
        if isinstance(site[0], str) and site[0] == 'param':
            s.out.deref.setdefault(site[1], i)
            st.sg[site] = sg - {'0'} or frozenset('+')
            return
        src = eng.sites.get(site)
        if src is None:
            return
        st.sg[site] = sg - {'0'} or frozenset('+')
        s.rep[(i.file or s.f.file, i.line, name(src), how)] = (s.f.name, src.line)

    def on_call(s, eng, st, i, args, site):
        c = i.a[1]
        if not isinstance(c, str):
            return
        f = s.ctx.F.lookup(c, s.f)
        for n, v in enumerate(args):
            if not v or v[0] not in ('o', 'd'):
                continue
            if f is not None:
                if n in s.ctx.sum[f.key].deref:
                    s.bad(eng, st, v[1], i, 'passed to %s, which uses it' % c)
                elif n in s.ctx.sum[f.key].keep:
                    s.keep(eng, st, v[1], i)
            elif n in DEREF.get(c, ()):
                s.bad(eng, st, v[1], i, 'passed to %s' % c)

    def keep(s, eng, st, site, i):
        sg = st.sg.get(site)
        if sg and '0' in sg and '+' in sg:
            st.fl = st.fl | {('kept', i.line, i.file or s.f.file, site)}

    def on_set(s, eng, st, i, l, v):
        u = l.a[0]
        if v and v[0] in ('o', 'd') and (u not in eng.f.vars and not u.startswith('%') or u in eng.f.vars and eng.f.vars[u][3]):
            s.keep(eng, st, v[1], i)

    def on_store(s, eng, st, i, l, v):
        if v and v[0] in ('o', 'd'):
            r = l.root()
            if r.kind == 'var' and r.a[0] in eng.f.vars:
                return
            s.keep(eng, st, v[1], i)

    def join_flags(s, a, b):
        return frozenset(x for x in a | b if x[0] == 'kept' or x in a and x in b)

    def on_ret(s, eng, st, t, v):
        for x in st.fl:
            if x[0] == 'kept':
                site = x[3]
                sg = st.sg.get(site)
                if sg and '0' in sg and '+' in sg:
                    if site[0] == 'param':
                        s.out.keep.setdefault(site[1], t)
                    elif site in eng.sites:
                        s.rep[(x[2], x[1], name(eng.sites[site]), 'kept for later use')] = (s.f.name, eng.sites[site].line)
        if v is None:
            return
        if v[0] == 'o' and v[1] in eng.sites and '0' in st.sg.get(v[1], ()) and strip_quals(s.f.ret) == 'value' and s.k not in s.ctx.callers:
            src = eng.sites[v[1]]
            if not (name(src) == 'dlsym' and st.sg[v[1]] == frozenset('0+') and any(name(i) == 'dlerror' for i in s.ctx.F.calls[s.k])):
                s.rep[(t.file or s.f.file, t.line, name(src), 'returned to the ML program')] = (s.f.name, src.line)
            return
        if not (is_ptr_ty(s.ctx.P.resolve(s.f.ret)) or s.ctx.P.resolve(s.f.ret).endswith('*')):
            if v[0] in ('o', 'd') and v[1] in eng.sites:
                pass
            else:
                return
        if v == ('c', 0) and not any(st.env.get(u) == ('c', 0) for u, t in s.f.params):
            s.out.ret = True
            s.out.why = t
        elif v[0] == 'o' and v[1][0] != 'param':
            if '0' in st.sg.get(v[1], ()):
                s.out.ret = True
                s.out.why = t


def name(i):
    return i.a[1] if isinstance(i.a[1], str) else 'the call'


def C02(tier):
    from . import cir, cbuild
    r = Result()
    fx = []
    tot = {}

    def take(c, what):
        for (file, line, src, how), (fn, sl) in sorted(c.rep.items(), key=repr):
            if file.endswith('vsa_null.c'):
                fx.append(line)
                continue
            r.add(file, line, fn, 'null result used', 'the result of %s (line %s) may be null when it is %s' % (src, sl, how), key='%s|%s|%s|%s' % (file, fn, src, how))
        for k, n in c.stats.items():
            tot[k] = tot.get(k, 0) + n
            tot['%s_%s' % (what, k)] = n
    c = Null(checks.program(('vsa_null.c',))).run()
    take(c, 'runtime')
    r1 = sorted(k for k, x in c.sum.items() if x.ret)
    c = Null(cir.load_program(cbuild.yacc_units())).run()
    take(c, 'mosmlyac')
    n = checks.selftest('vsa_null.c', 'C02', fx)
    for k, lo in dict(runtime_sources=40, mosmlyac_sources=80, runtime_functions=330, mosmlyac_functions=150).items():
        if tot[k] < lo:
            raise AnalysisError('only %d %s analysed (at least %d expected)' % (tot[k], k, lo))
    r.coverage = dict(explanation='Forward dataflow of the possible signs (null / non-null) of the result of every call that may return null, through variables, fields, conditions, inlined helpers and function summaries (which pointer parameters a function dereferences or keeps untested, whether it may itself return null), in every function of the runtime, the foreign libraries and mosmlyac.',
                      internal_functions_that_may_return_null=r1, selftest_instances=n, **tot)
    r.assumptions = ['a function that returns null only when an integer parameter is 0 is not a failing function (its callers test the size)',
                     'two names of the same heap cell are recognised only when they have the same access path or field']
    return r
