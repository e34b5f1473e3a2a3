"""Convex polyhedra over integer terms: emptiness of a conjunction of linear facts (elimination of variables
with integer tightening).  Answers 'empty' only when it is; gives up (not empty) when the elimination grows."""
from math import gcd

LIMIT = 260


def rows(facts):
    """facts: {form: (lo, hi)} -> list of (coefs dict, const): sum >= 0"""
    out = []
    for f, (lo, hi) in facts.items():
        d = dict(f)
        if lo is not None:
            out.append((d, -lo))
        if hi is not None:
            out.append(({m: -c for m, c in d.items()}, hi))
    return out


def tighten(d, c):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        return {m: v // g for m, v in d.items()}, c // g
    return d, c


def empty(facts, eqs, p, c0):
    """no integers satisfy the facts, eqs (dict, const: sum == 0) and  p + c0 >= 0"""
    # constraints connected with p
    cons = facts if isinstance(facts, list) else rows(facts)
    eqs = [(dict(d), c) for d, c in eqs]
    act = set(p)
    pool = [(d, c, 0) for d, c in cons] + [(d, c, 1) for d, c in eqs]
    pick = []
    ch = True
    while ch:
        ch = False
        rest = []
        for t in pool:
            if act & t[0].keys():
                act |= t[0].keys()
                pick.append(t)
                ch = True
            else:
                rest.append(t)
        pool = rest
    ineq = [(d, c) for d, c, e in pick if not e] + [(dict(p), c0)]
    eq = [(d, c) for d, c, e in pick if e]
    # pairs of opposite inequalities are equalities
    idx = {}
    for d, c in ineq:
        k = tuple(sorted(d.items()))
        idx[k] = min(c, idx.get(k, c))
    done = set()
    ine = []
    for k, c in idx.items():
        if k in done:
            continue
        nk = tuple((m, -v) for m, v in k)
        if nk in idx and idx[nk] == -c:
            eq.append((dict(k), c))
            done.add(nk)
        else:
            ine.append((dict(k), c))
    # substitute equalities with a unit coefficient
    while eq:
        eq.sort(key=lambda t: len(t[0]))
        d, c = eq.pop(0)
        d = {m: v for m, v in d.items() if v}
        if not d:
            if c:
                return True
            continue
        u = [m for m, v in d.items() if abs(v) == 1]
        if not u:
            g = 0
            for v in d.values():
                g = gcd(g, abs(v))
            if c % g:
                return True
            ine += [(d, c), ({m: -v for m, v in d.items()}, -c)]
            continue
        m = u[0]
        k = d[m]            # k*m + rest + c == 0  ->  m = -(rest + c)/k
        rest = {x: -v * k for x, v in d.items() if x != m}
        rc = -c * k

        def sub(t):
            e, ec = t
            if m not in e:
                return t
            q = e[m]
            n = {x: v for x, v in e.items() if x != m}
            for x, v in rest.items():
                w = n.get(x, 0) + q * v
                if w:
                    n[x] = w
                else:
                    n.pop(x, None)
            return n, ec + q * rc
        eq = [sub(t) for t in eq]
        ine = [sub(t) for t in ine]
    cur = {}

    def add(d, c):
        if not d:
            return c < 0
        d, c = tighten(d, c)
        k = tuple(sorted(d.items()))
        if k not in cur or c < cur[k]:
            cur[k] = c
        nk = tuple((m, -v) for m, v in k)
        return nk in cur and cur[nk] + cur[k] < 0
    for d, c in ine:
        if add(d, c):
            return True
    while True:
        cnt = {}
        for k in cur:
            for m, v in k:
                a = cnt.setdefault(m, [0, 0])
                a[v > 0] += 1
        if not cnt:
            return False
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - sum(cnt[x]), repr(x)))
        lo = [(dict(k), c) for k, c in cur.items() if any(x == m and v > 0 for x, v in k)]
        hi = [(dict(k), c) for k, c in cur.items() if any(x == m and v < 0 for x, v in k)]
        cur = {k: c for k, c in cur.items() if all(x != m for x, v in k)}
        for d, c in lo:
            for e, f in hi:
                a, b = d[m], -e[m]
                n = {}
                for x, v in d.items():
                    if x != m:
                        n[x] = v * b
                for x, v in e.items():
                    if x != m:
                        w = n.get(x, 0) + v * a
                        if w:
                            n[x] = w
                        else:
                            n.pop(x, None)
                if add(n, c * b + f * a):
                    return True
        if len(cur) > LIMIT:
            return False
