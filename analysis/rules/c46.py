"""Algebra of bit sets, by abstract interpretation with exact Boolean functions of words, over all shapes of up to three words per set.

The helpers on one word are proved for all 2^64 arguments: trailing zeros in a known-bits domain, one class per position of the
lowest set bit; the population count as an exact sum over the bits. With them, the words left by each member are compared with the
set operation by truth tables for every position (words beyond the end count as empty), and the results of the queries with
their definition under the condition of each path."""
from pv import lin
from pv.lin import c, add, sub, scale
from rules import bits

C0, M = c(0), c(bits.M64)
NOT = lambda t: ('op', '~', t)
AND = lambda a, b: ('bop', '&', a, b)
OR = lambda a, b: ('bop', '|', a, b)
XOR = lambda a, b: ('bop', '^', a, b)


def run(ctx):
    B = bits.BitOps(ctx)
    ntz, pop, und = bits.helpers(ctx, B)
    for f in list(ntz.values()):
        ctx.ob('word-helper', f.qt + ' counts trailing zeros', True)
        ctx.seen(f)
    for f in list(pop.values()):
        ctx.ob('word-helper', f.qt + ' counts bits', True)
        ctx.seen(f)
    for f, a, b in und:
        bad = a is False and f.n == 'numberOfTrailingZeros' or b is False and f.n == 'bitCount'
        if bad or f.n in ('numberOfTrailingZeros', 'bitCount'):
            ctx.ob('word-helper', f.qt, False if bad else None, '%s is wrong for some word' % f.n, f)
    done = set()
    shapes = 0
    for f in bits.public(B):
        for k in bits.cases(B, f, ntz, pop):
            if not isinstance(k, bits.Case):
                ctx.ob('algebra', '%s: %s' % (k[0].qt, k[1]), None)
                continue
            shapes += 1
            for kind, s, v in k.outs:
                if kind != 'ret':
                    continue
                W = k.cond(s)
                if not W.feasible():
                    continue
                r = judge(B, k, s, v, W)
                if r is None:
                    continue
                ok, what = r
                done.add((f.n, len(f.params)))
                ctx.seen(f)
                ctx.ob('algebra', k.desc, ok, what, f)
    need = {('set', 1), ('clear', 1), ('flip', 1), ('get', 1), ('operator&=', 1), ('operator|=', 1), ('operator^=', 1), ('or_and', 2),
            ('operator==', 1), ('nextSetBit', 1), ('nextClearBit', 1), ('cardinality', 0), ('isEmpty', 0)}
    ctx.require(done >= need, 'members not found: %s' % (need - done))
    ctx.info['shapes'] = shapes
    ctx.info['bound'] = 'at most 3 words per set (2 where a member takes two sets); the words themselves are arbitrary'
    ctx.assume.append('members behave alike for more than three words (the loops treat every word the same)')


def judge(B, k, s, v, W):
    """None: nothing to say; else (True/False/None, message)"""
    f, I = k.f, k.I
    nm = f.n
    me = k.sets[bits.THIS]
    w = lambda ws, i: ws[i] if i < len(ws) else C0
    new = lambda L, i: B.get(I, s, L, i)

    def words(L, want, n, what):
        """the set at L holds want(i) at every word"""
        sz = B.size(I, s, L)
        if sz is None:
            return None
        for i in range(max(sz, n)):
            t = new(L, i)
            if not W.same(t, want(i)):
                return None if bits.foreign(t) else False
        return True

    def untouched():
        for L, ws in k.sets.items():
            if B.size(I, s, L) != len(ws) or any(new(L, i) != ws[i] for i in range(len(ws))):
                return False
        return True

    def others(*but):
        return all(L in but or B.size(I, s, L) == len(ws) and all(new(L, i) == ws[i] for i in range(len(ws))) for L, ws in k.sets.items())
    n = len(me)
    if nm in ('set', 'clear', 'flip') and k.args and isinstance(k.args[0], tuple):
        u, off = k.args[0]
        b = ('bop', '<<', c(1), off)
        ops = [nm]
        if len(k.args) == 2:
            t = I.truth(s, k.args[1])
            ops = ['set', 'clear'] if t is None else ['set'] if t else ['clear']
        r = True
        for o in ops:
            e = lambda i: w(me, i) if i != u else OR(w(me, i), b) if o == 'set' else AND(w(me, i), NOT(b)) if o == 'clear' else XOR(w(me, i), b)
            x = words(bits.THIS, e, max(n, u + 1), '')
            r = False if x is False or r is False else None if x is None or r is None else True
        return r, '%s does not change exactly the given bit' % nm
    if 'ctor' in f.d:
        if k.args and isinstance(k.args[0], list):
            e = lambda i: _orall([('bop', '<<', c(1), off) for u, off in k.args[0] if u == i])
            return words(bits.THIS, e, 4, ''), 'the constructor does not set exactly the listed bits'
        return words(bits.THIS, lambda i: C0, 0, ''), 'a new bit set is not empty'
    if nm == 'clear':
        return words(bits.THIS, lambda i: C0, n, ''), 'clear leaves bits behind'
    if nm in ('operator&=', 'operator|=', 'operator^=', 'operator=') and k.args:
        o = k.args[0]
        y = k.sets[o]
        e = {'operator&=': lambda i: AND(w(me, i), w(y, i)), 'operator|=': lambda i: OR(w(me, i), w(y, i)),
             'operator^=': lambda i: XOR(w(me, i), w(y, i)), 'operator=': lambda i: w(y, i)}[nm]
        r = words(bits.THIS, e, max(n, len(y)), '')
        if r and not others(bits.THIS):
            r = False
        return r, '%s is not the set operation%s' % (nm, ' on the same set' if o == bits.THIS else '')
    if nm == 'or_and':
        x, y = k.sets[k.args[0]], k.sets[k.args[1]]
        r = words(bits.THIS, lambda i: OR(w(me, i), AND(w(x, i), w(y, i))), max(n, len(x), len(y)), '')
        if r and not others(bits.THIS):
            r = False
        return r, 'or_and does not add exactly the bits the two sets have in common'
    if nm == 'swap':
        o = k.args[0]
        r = words(bits.THIS, lambda i: w(k.sets[o], i), len(k.sets[o]), '')
        if o != bits.THIS and r:
            r = words(o, lambda i: w(me, i), n, '')
        return r, 'swap does not exchange the sets'
    if v is None:
        return None
    if f.d.get('const') is not False and nm in ('get', 'isEmpty', 'cardinality', 'size', 'logical_and', 'logical_or', 'operator==', 'operator!=',
                                               'nextSetBit', 'nextClearBit') and not untouched():
        return False, '%s changes a set' % nm
    if nm in ('get', 'isEmpty', 'logical_and', 'logical_or', 'operator==', 'operator!='):
        res = []
        for t in (True, False):
            z = s.fork()
            if not I.assume(z, v, t):
                continue
            if v[0] == 'eq' and t in (True, False):
                res.append(None)
                continue
            Y = k.cond(z)
            if not Y.feasible():
                continue
            res.append(boolean(k, nm, t, Y, me, w))
        if not res:
            return None
        ok = False if False in res else None if None in res else True
        if ok is False and bits.foreign(v):
            ok = None
        return ok, '%s gives the wrong answer%s' % (nm, ' for two references to one set' if k.args and k.args[0] == bits.THIS else '')
    if nm == 'cardinality':
        want = C0
        for x in me:
            want = add(want, ('pop', x))
        return eq(I, s, v, want), 'cardinality is not the number of set bits'
    if nm == 'size':
        return eq(I, s, v, c(64 * n)), 'size is not the number of bits held'
    if nm in ('nextSetBit', 'nextClearBit'):
        u, off = k.args[0]
        val = (lambda x: x) if nm == 'nextSetBit' else NOT
        m = ('bop', '<<', c(bits.M64), off)
        cand = [(i, AND(val(me[i]), m) if i == u else val(me[i])) for i in range(u, n)]
        # the first candidate word that is not empty decides
        got = I.num(v)
        rest = True
        for i, t in cand:
            base = sub(got, c(64 * i))
            if base[0] == 'ntz':
                ok = rest and W.same(base[1], t) and W.nonzero(t)
                return (True if ok else None if bits.foreign(base) else False), '%s does not find the next bit' % nm
            if not W.zero(t):
                return (None if bits.foreign(got) else False), '%s skips bits of a word' % nm
        end = c(-1) if nm == 'nextSetBit' else c(64 * n) if u < n else add(c(64 * u), off)
        return eq(I, s, v, end), '%s gives the wrong answer behind the last bit' % nm
    return None


def _orall(ts):
    r = C0
    for t in ts:
        r = OR(r, t)
    return r


def eq(I, s, a, b):
    a = I.num(a)
    if a == b:
        return True
    d = sub(a, b)
    if I.ge0(s, d) and I.ge0(s, scale(d, -1)):
        return True
    return None if bits.foreign(a) else False


def boolean(k, nm, t, Y, me, w):
    """is answer t right whenever Y holds"""
    if nm == 'get':
        u, off = k.args[0]
        x = AND(w(me, u), ('bop', '<<', c(1), off))
        return Y.nonzero(x) if t else Y.zero(x)
    if nm == 'isEmpty':
        return (all(Y.zero(x) for x in me)) if t else any(Y.nonzero(x) for x in me)
    y = k.sets[k.args[0]]
    n = max(len(me), len(y))
    if nm in ('operator==', 'operator!='):
        same = t == (nm == 'operator==')
        d = [XOR(w(me, i), w(y, i)) for i in range(n)]
        return all(Y.zero(x) for x in d) if same else any(Y.nonzero(x) for x in d)
    d = [(AND if nm == 'logical_and' else OR)(w(me, i), w(y, i)) for i in range(n)]
    return any(Y.nonzero(x) for x in d) if t else all(Y.zero(x) for x in d)
