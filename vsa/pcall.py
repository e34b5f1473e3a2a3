"""C03: the failure of a system call never looks like success.

The result of each call that can fail is followed (signs: '-', '0', '+') through variables, conditions and
helper functions.  At every normal return of a function, a call that may still have failed must show in the
returned value: either the value is computed from the call's result, or it is a constant that no successful
path returns.  Such functions become failing calls for their callers; a call repeated without a test of its
previous result, and a byte count that is never used, are reported too."""
from . import cflow, pstate, checks
from .cbuild import AnalysisError
from .cir import strip_quals
from .cflow import walk_e
from .pstate import Engine, State
from .report import Result

NEG = frozenset('-')
NZ = frozenset('-+')


def _t():
    r = {}
    for n in 'stat lstat fstat unlink rename chdir mkdir rmdir utime access ftruncate truncate pipe kill connect bind listen shutdown setsockopt getsockname getpeername gethostname closedir link symlink chmod fsync setitimer fclose fseek execv execve execvp chroot sigprocmask_never tcsetattr getsockopt'.split():
        r[n] = ('-0', NEG, False)
    for n in 'open creat lseek fork waitpid wait accept select fcntl readlink system socket dup ftell'.split():
        r[n] = ('-0+', NEG, False)
    for n in 'read write send sendto recv recvfrom'.split():
        r[n] = ('-0+', NEG, True)
    for n in 'regcomp gdbm_store gdbm_delete gdbm_reorganize pthread_create_never'.split():
        r[n] = ('-0+', NZ, False)
    return r


SRC = _t()
CODES = {'gdbm_store', 'system'}     # the ML library interprets the result of these itself


class Calls:
    def __init__(s, P, src=SRC, roots=None):
        s.P, s.src = P, src
        s.F = cflow.Facts(P)
        s.mods = pstate.modsets(s.F)
        s.rep = {}
        s.stats = dict(functions=0, contexts=0, call_sites=0, returns=0, states=0)
        s.pre, s.sum, s.users, s.seen = {}, {}, {}, set()
        # functions that may reach a source
        rel = set()
        ch = True
        while ch:
            ch = False
            for k, f in P.fns.items():
                if k not in rel and any(isinstance(i.a[1], str) and ((i.a[1] in src or i.a[1] == 'close') and not s.F.lookup(i.a[1], f) or any(t in rel for t in s.F.targets(i, f)[0])) for i in s.F.calls[k]):
                    rel.add(k)
                    ch = True
        s.rel = rel
        s.callers = {}
        for k, f in P.fns.items():
            for i in s.F.calls[k]:
                if isinstance(i.a[1], str):
                    for t in s.F.targets(i, f)[0]:
                        s.callers.setdefault(t, set()).add(k)
        s.writes = s.reach({'write', 'send', 'fwrite'})
        s.frees = {'free', 'stat_free'}

    def reach(s, names):
        r = set()
        ch = True
        while ch:
            ch = False
            for k, f in s.P.fns.items():
                if k not in r and k != 'interprete' and any(isinstance(i.a[1], str) and not s.F.is_noreturn(i, f) and (i.a[1] in names or any(t in r for t in s.F.targets(i, f)[0])) for i in s.F.calls[k]):
                    r.add(k)
                    ch = True
        return r

    def body(s, k):
        if k not in s.pre:
            f = s.P.fns[k]
            if k != 'interprete':
                f = cflow.inline(s.F, f, lambda x: x in s.rel and '#' not in x and s.P.fns[x].name != k and strip_quals(s.P.fns[x].ret) == 'void' and len(s.P.fns[x].blocks) < 25, maxblocks=200, depth=3)
            s.pre[k] = cflow.tempalias(f, s.F, s.mods)
        return s.pre[k]

    def need(s, key, user):
        s.users.setdefault(key, set()).add(user)
        if key not in s.sum:
            s.sum[key] = None
            s.work.append(key)
        return s.sum[key]

    def run(s):
        s.work = [(k, ()) for k in s.P.fns if k in s.rel and k not in s.callers]
        s.work += [(k, ()) for k in s.P.fns if k in s.rel and k in s.F.addr_taken] if hasattr(s.F, 'addr_taken') else []
        for k in s.work:
            s.sum.setdefault(k, None)
        n = 0
        byk = {}
        while s.work:
            key = s.work.pop()
            n += 1
            if n > 6000:
                raise AnalysisError('summaries do not stabilise')
            c = Client(s, key)
            e = Engine(s.F, s.body(key[0]), c, s.mods)
            e.run()
            r = c.finish(e)
            byk[key] = (c, e)
            if r != s.sum.get(key):
                s.sum[key] = r
                s.work += [u for u in s.users.get(key, ()) if u not in s.work]
        sites = set()
        for (k, cx), (c, e) in byk.items():
            s.rep.update(c.rep)
            s.stats['contexts'] += 1
            s.stats['states'] += e.nstates
            s.stats['returns'] += len(c.rets)
            sites |= {(i.file or s.P.fns[k].file, i.line, i.a[1]) for i in e.sites.values()}
            s.seen.add(k)
        s.stats['functions'] = len(s.seen)
        s.stats['call_sites'] = len(sites)
        s.sites = sites
        return s


class Client:
    eq_expected = True
    follow_igoto = True

    def __init__(s, ctx, key):
        s.ctx, s.key = ctx, key
        s.f = ctx.P.fns[key[0]]
        s.rep, s.fail, s.count, s.rets, s.query = {}, {}, {}, [], set()   # query: only asks whether there is a position

    def entry(s, eng):
        st = State()
        for n, c in s.key[1]:
            if n < len(s.f.params):
                st.env[s.f.params[n][0]] = ('c', c)
        return st

    def source(s, eng, i, args):
        c = i.a[1]
        if not isinstance(c, str):
            return None
        f = s.ctx.F.lookup(c, s.f)
        if f is not None:
            if f.key not in s.ctx.rel:
                return None
            cx = tuple((n, v[1]) for n, v in enumerate(args) if v and v[0] == 'c' and f.key not in ('interprete',))
            r = s.ctx.need((f.key, cx), s.key)
            if r is None:
                return None
            s.fail[eng.here], s.count[eng.here] = r[1], r[2]
            return r[0]
        if c == 'close':
            if not s.close_matters(eng, i):
                return None
            s.fail[eng.here], s.count[eng.here] = NEG, False
            return '-0'
        if c == 'lseek' and args[1:] == [('c', 0), ('c', 1)]:
            s.query.add(eng.here)
        if c in s.ctx.src:
            sg, F, cnt = s.ctx.src[c]
            s.fail[eng.here], s.count[eng.here] = F, cnt
            return sg
        return None

    def close_matters(s, eng, i):
        """closing loses data if something was written; or it is all the function does"""
        calls = [j for b in eng.f.blocks.values() for j in b.ins if j.op == 'call' and isinstance(j.a[1], str)]
        names = {j.a[1] for j in calls}
        if any(j.a[1] in ('write', 'send') or any(t in s.ctx.writes for t in s.ctx.F.targets(j, s.f)[0]) for j in calls):
            return True
        return not names & s.ctx.frees and not any(n in SRC or n in s.ctx.rel for n in names if n != 'close') and strip_quals(s.f.ret) == 'value'

    def on_call(s, eng, st, i, args, site):
        for v in args:
            if v and v[0] in ('o', 'x', 'd') and v[1] in eng.sites:
                st.fl = st.fl | {('used', v[1])}
        if site in st.sg and site in s.fail and st.sg[site] & s.fail[site] and ('tested', site) not in st.fl and ('used', site) not in st.fl:
            s.report(i, i, 'the call is repeated while the failure of the previous one was not tested')

    def on_set(s, eng, st, i, l, v):
        if v and v[0] == 'x':
            st.fl = st.fl | {('used', v[1])}

    def on_store(s, eng, st, i, l, v):
        if v and v[0] in ('o', 'x', 'd', 't'):
            st.fl = st.fl | {('used', v[1])}
            return
        # n -= r stores an unknown value computed from r
        for k in list(st.sg):
            pass

    def on_ret(s, eng, st, t, v):
        s.rets.append((dict(st.sg), v, st.fl, t))

    def report(s, i, src, msg):
        s.rep[(i.file or s.f.file, i.line, name(src), msg)] = (s.f.name, src.line)

    def finish(s, eng):
        fs, ss = set(), set()      # signs returned on failing / succeeding paths
        source = False
        cnt = False
        value = strip_quals(s.f.ret) == 'value'
        for site, i in eng.sites.items():
            F = s.fail.get(site)
            if F is None:
                continue
            failing = [(v, t, fl, sg[site] - F) for sg, v, fl, t in s.rets if site in sg and sg[site] & F]
            okv = [(v, sg[site] - F) for sg, v, fl, t in s.rets if site in sg and not sg[site] & F and not any(sg[x] & s.fail[x] for x in sg if x in s.fail)]
            # the count must be used
            if s.count.get(site):
                for sg, v, fl, t in s.rets:
                    if site in sg and '+' in sg[site] and ('used', site) not in fl and not (v and len(v) > 1 and v[1] == site and v[0] != 'c'):
                        s.report(i, i, 'the number of bytes transferred is not used before the return at line %d' % t.line if False else 'the number of bytes transferred is never used on a path to a normal return')
                        break
            for v, t, fl, mixed in failing:
                if site in s.query and ('tested', site) in fl:
                    continue
                if v and v[0] != 'c' and len(v) > 1 and v[1] == site:
                    if v[0] == 'o' and not value:
                        source = True
                    if not value or v[0] in ('t', 'b', 'tq', 'tp', 'tn') or name(i) in CODES:
                        continue
                    s.report(i, i, 'a result that may be the failure value reaches the ML program as an ordinary one')
                    break
                if value and v and v[0] == 'c' and v[1] < 0 and v[1] & 1 and not any(w == v for w, sg in okv):
                    continue      # an ML integer that only failing paths return
                if v and v[0] in ('c', 'a') and ('tested', site) in fl:
                    bad = bool(mixed) and not okv
                    for w, sg in okv:
                        if w == v:
                            bad = True
                        elif v == ('a',) and (w is None or w == ('a',)) or v[0] == 'a' and w == ('a',):
                            bad = True
                        elif w and w[0] in ('c', 'a') or v[0] == 'a':
                            pass
                        elif w and len(w) > 1 and w[1] == site:
                            if value:
                                bad = bad or w[0] in ('o', 'x')
                            elif w[0] == 'o':
                                bad = bad or sgn(v[1]) in sg
                            else:
                                bad = bad or v[1] >= 0
                        elif not value and v[1] >= 0:
                            bad = True
                    if not bad:
                        if not value:
                            source = True
                        continue
                s.report(i, i, 'a normal return is reached although the call may have failed')
                break
        if not source:
            return None
        # summary: signs on failing and on other paths
        for sg, v, fl, t in s.rets:
            for site in eng.sites:
                pass
            bad = [site for site in sg if site in s.fail and sg[site] & s.fail[site]]
            if v and v[0] == 'c':
                (fs if bad and not all(sg[x] - s.fail[x] for x in bad) else ss).add(sgn(v[1]))
            elif v and v[0] == 'o' and v[1] in s.fail:
                g = sg.get(v[1], frozenset('-0+'))
                fs |= g & s.fail[v[1]]
                ss |= g - s.fail[v[1]]
                cnt = cnt or s.count.get(v[1], False)
            elif v and v[0] == 'x' and v[1] in s.fail:
                ss |= set('0+')
                cnt = cnt or s.count.get(v[1], False)
            else:
                ss |= set('0+')
        fs -= ss
        if not fs and not cnt:
            return None
        return (''.join(sorted(fs | ss)), frozenset(fs), cnt)


def sgn(n):
    return '-' if n < 0 else '0' if n == 0 else '+'


def name(i):
    return i.a[1] if isinstance(i.a[1], str) else 'the call'


def C03(tier):
    P = checks.program(('vsa_call.c',))
    c = Calls(P).run()
    r = Result()
    fx = []
    for (file, line, src, msg), (fn, sl) in sorted(c.rep.items(), key=repr):
        if file.endswith('vsa_call.c'):
            fx.append(line)
            continue
        r.add(file, line, fn, 'failure not reported', '%s: %s' % (src, msg), key='%s|%s|%s|%s' % (file, fn, src, msg))
    n = checks.selftest('vsa_call.c', 'C03', fx)
    st = c.stats
    for k, lo in dict(functions=220, call_sites=55, returns=1200).items():
        if st[k] < lo:
            raise AnalysisError('only %d %s analysed (at least %d expected)' % (st[k], k, lo))
    r.coverage = dict(explanation='Forward dataflow of the possible signs of the result of every system call through variables, conditions, stores and helper functions (analysed per combination of constant arguments); at each normal return a call that may have failed must show in the returned value, a call repeated must have been tested, and a byte count must be used.',
                      system_calls=sorted({'%s:%s' % (a.split('/')[-1], n) for a, l, n in c.sites if n in SRC or n == 'close'}), selftest_instances=n, **st)
    r.assumptions = ['closing a descriptor matters only when something was written through it or closing is what the primitive is for',
                     'calls that cannot fail with the arguments given (signal, gettimeofday, times, dup2 onto 0/1) are not followed']
    return r
