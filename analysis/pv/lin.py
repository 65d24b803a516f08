"""Linear forms over opaque atoms and a small interval/inequality domain.

A value term is either an opaque hashable tuple, ('c', n) or
('lin', n, ((atom, coef), ...)).  Facts bound linear forms: key -> (lo, hi, ne).
"""
from fractions import Fraction

RANGE = {}                # atom -> (lo, hi) known from its type or its construction


class _Uns(object):
    def add(self, a):
        if a not in RANGE:
            RANGE[a] = (0, None)

    def __contains__(self, a):
        r = RANGE.get(a)
        return r is not None and r[0] is not None and r[0] >= 0


UNSIGNED = _Uns()


def setrange(a, lo, hi):
    if a[0] in ('c', 'lin'):
        return
    r = RANGE.get(a)
    if r is None:
        RANGE[a] = (lo, hi)


def c(n):
    return ('c', int(n))


def parts(t):
    """-> (const, {atom: coef})"""
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


_okey = {}


def okey(a):
    r = _okey.get(a)
    if r is None:
        r = _okey[a] = repr(a)
    return r


def build(k, d):
    items = [(a, v) for a, v in d.items() if v]
    if not items:
        return ('c', k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: okey(x[0]))
    return ('lin', k, tuple(items))


def add(a, b, s=1):
    if a[0] == 'c' and b[0] == 'c':
        return ('c', a[1] + s * b[1])
    ka, da = parts(a)
    kb, db = parts(b)
    d = dict(da)
    for x, v in db.items():
        d[x] = d.get(x, 0) + s * v
    return build(ka + s * kb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    k, d = parts(a)
    return build(k * n, {x: v * n for x, v in d.items()})


def mul(a, b):
    if a[0] == 'c':
        return scale(b, a[1])
    if b[0] == 'c':
        return scale(a, b[1])
    x, y = sorted((a, b), key=okey)
    t = ('mul', x, y)
    if nonneg(a) and nonneg(b):
        UNSIGNED.add(t)
    return t


def nonneg(t):
    if t[0] == 'c':
        return t[1] >= 0
    if t[0] == 'lin':
        return t[1] >= 0 and all(v > 0 and a in UNSIGNED for a, v in t[2])
    return t in UNSIGNED


def key_of(t):
    """normalise to (key, const, sign): t = sign*key + const, key has no constant
    and its first coefficient is positive."""
    k, d = parts(t)
    if not d:
        return None, k, 1
    items = sorted(((a, v) for a, v in d.items() if v), key=lambda x: okey(x[0]))
    s = 1
    if items[0][1] < 0:
        s = -1
        items = [(a, -v) for a, v in items]
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0], k, s
    return ('lin', 0, tuple(items)), k, s


INF = None


def _lo(facts, key):
    f = facts.get(key)
    lo = f[0] if f else None
    if lo is None:
        r = RANGE.get(key)
        if r is not None:
            lo = r[0]
        elif key[0] == 'lin' and nonneg(key):
            lo = 0
    if f and lo is not None:
        while lo in f[2]:
            lo += 1
    return lo


def _hi(facts, key):
    f = facts.get(key)
    hi = f[1] if f else None
    if hi is None:
        r = RANGE.get(key)
        if r is not None:
            hi = r[1]
        elif key[0] == 'lin' and nonneg(scale(key, -1)):
            hi = 0
    if f and hi is not None:
        while hi in f[2]:
            hi -= 1
    return hi


def interval(facts, t):
    """cheap bounds of t"""
    key, k, s = key_of(t)
    if key is None:
        return k, k
    lo, hi = _lo(facts, key), _hi(facts, key)
    if key[0] == 'lin' and (lo is None or hi is None):
        l2, h2 = 0, 0
        for a, v in key[2]:
            al, ah = _lo(facts, a), _hi(facts, a)
            if v < 0:
                al, ah = ah, al
            l2 = None if (l2 is None or al is None) else l2 + v * al
            h2 = None if (h2 is None or ah is None) else h2 + v * ah
        if lo is None or (l2 is not None and l2 > lo):
            lo = l2
        if hi is None or (h2 is not None and h2 < hi):
            hi = h2
    if s < 0:
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    return (None if lo is None else lo + k), (None if hi is None else hi + k)


def decide(facts, t, op):
    """t op 0, op in '==','>=': True/False/None using cheap bounds"""
    lo, hi = interval(facts, t)
    if op == '>=':
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        return None
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    if lo == 0 and hi == 0:
        return True
    key, k, s = key_of(t)
    if key is not None:
        f = facts.get(key)
        if f and (-k * s) in f[2]:
            return False
    return None


def assume(facts, t, op, truth):
    """facts (dict) + (t op 0)==truth -> new facts dict or None when contradictory.
    op '>=' or '=='."""
    d = decide(facts, t, op)
    if d is not None:
        if d != truth:
            return None
        if not (d and op == '=='):
            return facts
    key, k, s = key_of(t)
    if key is None:
        return facts
    f = facts.get(key, (None, None, frozenset()))
    lo, hi, ne = f
    if op == '>=':
        if not truth:            # t <= -1
            k = k + 1
            s2, k2 = -s, -k
        else:
            s2, k2 = s, k
        # s2*key + k2 >= 0
        if s2 > 0:
            b = -k2
            lo = b if lo is None else max(lo, b)
        else:
            b = k2
            hi = b if hi is None else min(hi, b)
    else:
        v = -k * s
        if truth:
            lo = v if lo is None else max(lo, v)
            hi = v if hi is None else min(hi, v)
        else:
            ne = ne | {v}
            l0 = _lo(facts, key)
            if l0 == v:
                lo = v + 1
            if hi == v:
                hi = v - 1
    if lo is not None and hi is not None and lo > hi:
        return None
    facts = dict(facts)
    facts[key] = (lo, hi, ne)
    return facts


def entails(facts, t, depth=0):
    """facts |= t >= 0 ?  Fourier-Motzkin on the connected facts."""
    r = decide(facts, t, '>=')
    if r is not None:
        return r
    # constraints: list of (const, {atom:coef}) meaning const + sum >= 0
    k, d = parts(t)
    cons = [(-k - 1, {a: -v for a, v in d.items()})]      # negation: t <= -1
    atoms = set(d)
    pool = []
    for key, (lo, hi, ne) in facts.items():
        _, kd = parts(key)
        if lo is not None:
            pool.append((-lo, kd))
        if hi is not None:
            pool.append((hi, {a: -v for a, v in kd.items()}))
    # connected closure
    used = [False] * len(pool)
    changed = True
    while changed:
        changed = False
        for i, (kk, kd) in enumerate(pool):
            if not used[i] and any(a in atoms for a in kd):
                used[i] = True
                changed = True
                atoms |= set(kd)
    cons += [pool[i] for i in range(len(pool)) if used[i]]
    for a in atoms:
        r = RANGE.get(a)
        if r:
            if r[0] is not None:
                cons.append((-r[0], {a: 1}))
            if r[1] is not None:
                cons.append((r[1], {a: -1}))
    if len(cons) > 60:
        cons = cons[:60]
    atoms = sorted(atoms, key=okey)
    for a in atoms:
        pos, neg, rest = [], [], []
        for kk, kd in cons:
            v = kd.get(a, 0)
            (pos if v > 0 else neg if v < 0 else rest).append((kk, kd))
        if len(pos) * len(neg) > 400:
            return False
        for kp, dp in pos:
            for kn, dn in neg:
                vp, vn = dp[a], -dn[a]
                kd = {}
                for x, v in dp.items():
                    kd[x] = kd.get(x, 0) + v * vn
                for x, v in dn.items():
                    kd[x] = kd.get(x, 0) + v * vp
                kd = {x: v for x, v in kd.items() if v}
                kk = kp * vn + kn * vp
                if not kd:
                    if kk < 0:
                        return True
                else:
                    rest.append((kk, kd))
        cons = rest
    return any(not kd and kk < 0 for kk, kd in cons)


def mentions(t, pred):
    """does term t contain a sub-term satisfying pred"""
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(mentions(x, pred) for x in t if isinstance(x, tuple))


def subst(t, m):
    """replace top-level atoms; None when a replaced atom occurs nested in another"""
    k, d = parts(t)
    r = ('c', k)
    for a, v in d.items():
        if a in m:
            r = add(r, scale(m[a], v))
        else:
            if a[0] not in ('init',) and mentions(a, lambda x: x in m):
                return None
            r = add(r, scale(a, v))
    return r
