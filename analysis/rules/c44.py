"""Conversions between numbers, and of integers and booleans to text, by abstract interpretation of castUnsafe for every pair.

Between numbers: the result must be the argument, passed only through types that hold every value both ends can hold (an integer type that
contains the common range, or is at least as wide as a destination integer; a floating type with enough digits), or, on paths where the
argument is known not to fit, anything. To text: exactly one insertion, of the argument itself, into a stream with its default decimal
format, as a number and not as a character; booleans give the texts that parse back to them. Parsing is C29's."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t
from rules.objs import NS, ELEM, C0, C1, STR, bare
from rules.c29 import TR, P, OUT, go, pt

FL = {'float': 24, 'double': 53, 'long double': 64}
X = ('from',)
WID = {'i8': 'signed char', 'u8': 'unsigned char', 'i16': 'short', 'u16': 'unsigned short', 'i32': 'int', 'u32': 'unsigned int', 'i64': 'long', 'u64': 'unsigned long'}


def num(t):
    """('i', lo, hi) or ('f', digits)"""
    if t in TR:
        return ('i',) + TR[t]
    if t in FL:
        return ('f', FL[t])
    return None


def bits(r):
    return max((-r[1] - 1).bit_length() if r[1] < 0 else 0, r[2].bit_length())


def holds(m, a, b, modulo=True):
    """does type m hold every value that both a and b hold; between them values may be changed only in ways b drops again"""
    ints = [x for x in (a, b) if x[0] == 'i']
    if m[0] == 'i':
        if not ints:
            return False
        lo, hi = max(x[1] for x in ints), min(x[2] for x in ints)
        if m[1] <= lo and hi <= m[2]:
            return True
        # modulo arithmetic: the low bits are all the destination takes
        return modulo and a[0] == b[0] == 'i' and m[2] - m[1] >= b[2] - b[1]
    fls = [x[1] for x in (a, b) if x[0] == 'f']
    if fls and min(fls) <= m[1]:
        return True
    if ints:
        lo, hi = max(x[1] for x in ints), min(x[2] for x in ints)
        return bits(('i', lo, hi)) <= m[1]
    return False


class N(Client):
    cap = 20000
    max_depth = 8

    def __init__(self):
        self.ins = 0
        self.bad = []

    def inline(self, I, fn, fr):
        return True

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        q = strip_t(n.get('fq') or '')
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if nm == 'epicsConvertDoubleToFloat' and len(args) == 1:
            # of EPICS base: the nearest float, out-of-range values clipped
            return [('ret', st, ('fcast', 'float', val(0)))]
        if nm in ('round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundf', 'floorf', 'ceilf', 'truncf', 'lround', 'llround', 'lrint', 'llrint') and len(args) == 1:
            # leaves whole numbers alone
            return [('ret', st, val(0) if nm[0] != 'l' else ('fcast', 'long', val(0)))]
        ts = [strip_t(fr.fn.nodes[x[0]]['t']) for x in args]
        if 'stream' in (n.get('fq') or '') or nm == 'operator<<' and 'stream' in n['t']:
            if nm == 'operator<<':
                i = len(args) - 1
                arg = fr.fn.nodes[args[i][0]]
                pt_ = arg['t']
                v = val(i)
                if '(' in pt_ or 'ios_base' in pt_:
                    self.bad.append('the format of the stream is changed')
                    return None
                key = ('gh', 'text')
                st.mem[key] = (st.mem.get(key) or ('seq',)) + ((bare(pt_.rstrip('& ')), v),)
                r = obj if obj is not None and not nm == '' and len(args) == 1 else (args[0][1] if args[0][2] else args[0][1])
                return [('ret', st, r)]
            if nm == 'str' and not args:
                return I.models.ret(I, st, fr, nid, n, ('streamed',))
            if nm in ('setf', 'width', 'fill', 'flags', 'unsetf', 'imbue', 'put', 'write') or nm == 'precision' and args:
                if nm != 'precision':
                    self.bad.append('the format of the stream is changed')
                return None
        return None


def chain(v):
    """(innermost value, [types passed through])"""
    ts = []
    while True:
        if v[0] == 'cast':
            ts.append(WID.get(v[1]))
            v = v[2]
        elif v[0] == 'fcast':
            ts.append(bare(v[1]))
            v = v[2]
        else:
            return v, ts


def run(ctx):
    p = ctx.p
    fs = [f for f in p.fns.values() if strip_t(f.q) == NS + 'castUnsafe' and f.blocks and len(f.params) == 1]
    byp = {}
    for f in fs:
        byp.setdefault((bare(f.d.get('rt') or ''), bare(f.vars[f.params[0]]['t'].rstrip('& '))), []).append(f)
    nums = [t for t in ELEM.values() if t not in (STR, 'char')]
    n = 0
    for to in nums:
        for frm in nums:
            fl = byp.get((to, frm), [])
            n += bool(fl)
            for f in fl:
                pair(ctx, p, f, to, frm)
    ctx.require(n >= 100, 'castUnsafe between numbers not found')
    ctx.info['pairs of numeric types'] = n
    for frm in nums + ['char']:
        fl = byp.get((STR, frm), [])
        ctx.require(fl, 'castUnsafe<string,%s> not found' % frm)
        for f in fl:
            totext(ctx, p, f, frm)


def pair(ctx, p, f, to, frm):
    A, B = num(frm), num(to)
    ctx.seen(f)
    cl = N()
    I = Interp(p, cl, 20000)
    st = State()
    fr = I.frame(f, None, None, None)
    S = ('cb', 'src')
    st.mem[('var', fr.id, f.params[0])] = ('addr', S)
    x = ('from', frm)
    if A[0] == 'i':
        lin.setrange(x, A[1], A[2])
    st.mem[S] = x
    what = '%s to %s' % (frm, to)
    for k, s, v in I.run_fn(fr, st):
        if A[0] == 'i' and B[0] == 'i':
            lo, hi = lin.interval(s.facts, x)
            if lo is not None and lo > B[2] or hi is not None and hi < B[1]:
                continue             # does not fit
        if k == 'throw':
            ctx.ob('value', what, False, 'a number is refused', f)
            continue
        if v is not None and v[0] in ('var', 'tmp', 'cb'):
            v = I.rd(s, v)
        b, ts = chain(v)
        same = b == x
        if not same and A[0] == 'i':
            d = sub(v, x)
            same = d == C0 or lin.decide(s.facts, d, '==') is True if d[0] != 'c' else d == C0
            ts = []
        ok = same and all(t is not None and num(t) is not None and (num(t) == B or holds(num(t), A, B)) for t in ts)
        ctx.ob('value', what, ok, 'the result is not the number converted, or it passes through a type that does not hold it', f)
    ctx.absorb(I)


def totext(ctx, p, f, frm):
    ctx.seen(f)
    cases = [None] if frm != 'char' else [0, 1]
    for cv in cases:
        cl = N()
        I = Interp(p, cl, 20000)
        st = State()
        fr = I.frame(f, None, None, None)
        S = ('cb', 'src')
        st.mem[('var', fr.id, f.params[0])] = ('addr', S)
        x = ('from', frm) if cv is None else c(cv)
        A = num(frm)
        if cv is None and A[0] == 'i':
            lin.setrange(x, A[1], A[2])
        st.mem[S] = x
        what = '%s to text' % (frm if frm != 'char' else 'boolean')
        rets = 0
        for k, s, v in I.run_fn(fr, st):
            if k == 'throw':
                continue             # the stream failed
            rets += 1
            seq = (s.mem.get(('gh', 'text')) or ('seq',))[1:]
            ctx.ob('format', what, not cl.bad, '; '.join(sorted(set(cl.bad))), f)
            if v is not None and v[0] in ('var', 'tmp', 'cb'):
                v = I.rd(s, v)
            ctx.ob('text', what, v == ('streamed',), 'what is returned is not what was written', f)
            ctx.ob('text', what, len(seq) == 1, 'not exactly one value is written', f)
            if len(seq) != 1:
                continue
            t, y = seq[0]
            if cv is not None:
                ok = y[0] in ('strlit', 'str') and str(y[1] if not isinstance(y[1], bytes) else y[1].decode()) == ('true' if cv else 'false')
                ctx.ob('text', what, ok, 'the boolean %d is not written as the text that stands for it' % cv, f)
                continue
            b, ts = chain(y)
            ts = ts + [t]
            ok = b == x and all(u is not None and num(u) is not None and holds(num(u), A, A, False) for u in ts)
            ctx.ob('text', what, ok, 'what is written is not the number', f)
            ctx.ob('digits', what, t not in ('char', 'signed char', 'unsigned char', 'bool'), 'the number is written as a character', f)
        ctx.ob('text', what, rets > 0, 'never succeeds', f)
        ctx.absorb(I)
