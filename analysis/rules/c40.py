"""Escaped printing of text, by abstract interpretation of the two output operators with symbolic characters.

The operators are run over texts of one and two symbolic characters; every path yields its condition (over the characters and the
abstract predicate isprint) and the sequence of characters it sends to the stream, as terms over the characters. Each path's terms
are then compared with the specification for every character the path's condition admits (256 values; for two characters the
representatives of each class of the specification)."""
from pv import lin
from pv.lin import c
from pv.interp import Interp, Client, State, Budget, strip_t

C0 = c(0)
SPECIAL = {7: 'a', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't', 11: 'v', 92: '\\', 39: "'", 34: '"'}
REPS = sorted(SPECIAL) + [0, 1, 0x19, 32, 48, 65, 126, 127, 0x9f - 256, -1, -128]
STREAM = ('deref', ('stream',))
TEXT = ('text',)
NS = 'epics::pvData::'


class Unknown(Exception):
    pass


def ev(t, env):
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'lin':
        return t[1] + sum(v * ev(a, env) for a, v in t[2])
    if k == 'chr':
        return env[t[1]]
    if k == 'and':
        return ev(t[1], env) & ev(t[2], env)
    if k == 'sar':
        return ev(t[1], env) // ev(t[2], env)
    if k == 'div':
        a, b = ev(t[1], env), ev(t[2], env)
        return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    if k in ('mod', 'smod'):
        a, b = ev(t[1], env), ev(t[2], env)
        return abs(a) % abs(b) * (-1 if a < 0 else 1)
    if k == 'cast':
        w = int(t[1][1:])
        v = ev(t[2], env) & ((1 << w) - 1)
        return v - (1 << w) if t[1][0] == 'i' and v >> (w - 1) else v
    if k == 'bop':
        a, b = ev(t[2], env), ev(t[3], env)
        return {'|': a | b, '^': a ^ b, '&': a & b}.get(t[1]) if t[1] in '|^&' else Unknown.throw()
    if k == 'isprint':
        v = ev(t[1], env)
        if v < -1 or v > 255:
            return BAD
        return int(32 <= v < 127)
    if k == 'init' and t[1][0] == 'idx' and t[1][1][0] == 'strlit':
        i = ev(t[1][2], env)
        s = t[1][1][1]
        if 0 <= i < len(s):
            return ord(s[i])
        return 0 if i == len(s) else BAD
    if k == 'cmp':
        v = ev(t[2], env)
        return int(v >= 0 if t[1] == '>=' else v == 0)
    if k == 'not':
        return int(not ev(t[1], env))
    if k == 'op' and len(t) == 3 and t[1] == '~':
        return ~ev(t[2], env)
    raise Unknown(repr(t)[:80])


BAD = 10 ** 9


class C(Client):
    max_depth = 6
    unroll = 4
    cap = 100000

    def __init__(self, n):
        self.n = n

    def inline(self, I, fn, fr):
        return fn.q.startswith((NS, '(anonymous')) and not fn.n.startswith('operator<<') or (fn.cls or '') == NS + 'escape' or fn.d.get('static')

    def emit(self, st, *items):
        k = ('gh', 'out')
        st.mem[k] = st.mem.get(k, ('o',)) + items

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        cls = strip_t(n.get('cls') or '')
        if nm == 'put' and 'ostream' in cls:
            self.emit(st, ('ch', val(0)))
            return [('ret', st, STREAM)]
        if nm == 'write' and 'ostream' in cls:
            p, k = val(0), val(1)
            if p[0] == 'strlit' and k[0] == 'c':
                self.emit(st, *[('ch', c(ord(x))) for x in p[1][:k[1]]])
                return [('ret', st, STREAM)]
        if nm == 'operator<<':
            xs = ([obj] if obj is not None else [args[0][1]]), args[-1]
            x = args[-1]
            t = strip_t(fr.fn.nodes[x[0]]['t'].replace('const ', ''))
            v = I.rd(st, x[1]) if x[2] else x[1]
            if x[2] and x[1][0] == 'strlit':
                v = x[1]
            if t.endswith(NS + 'escape') or t == 'escape':
                o = [val2 for k2, val2 in st.mem.items() if k2[0] == 'fld' and k2[1] == x[1] and k2[2].endswith('::orig')]
                if not o or o[0] not in (('addr', TEXT), TEXT):
                    return None
                sty = [val2 for k2, val2 in st.mem.items() if k2[0] == 'fld' and k2[1] == x[1] and k2[2] == NS + 'escape::S']
                self.emit(st, ('esc', sty[0] if sty else C0))
                return [('ret', st, STREAM)]
            if v[0] in ('strlit',) or v[0] == 'addr' and v[1][0] == 'strlit':
                s = v[1] if v[0] == 'strlit' else v[1][1]
                self.emit(st, *[('ch', c(ord(z))) for z in s])
                return [('ret', st, STREAM)]
            if x[2] and x[1] == TEXT:
                self.emit(st, ('text',))
                return [('ret', st, STREAM)]
            if t in ('char', 'signed char', 'unsigned char'):
                self.emit(st, ('ch', v))
                return [('ret', st, STREAM)]
            self.emit(st, ('?', t))
            return [('ret', st, STREAM)]
        if obj == TEXT:
            if nm in ('size', 'length'):
                return [('ret', st, c(self.n))]
            if nm == 'empty':
                return [('ret', st, c(0))]
            if nm in ('operator[]', 'at'):
                i = val(0)
                I.oblige('index', fr, nid, 'text[i]', i[0] == 'c' and 0 <= i[1] < self.n, 'a character outside the text is read')
                return [('ret', st, ('at', i))]
            if nm in ('begin', 'cbegin'):
                return [('ret', st, ('addr', ('idx', TEXT, C0)))]
            if nm in ('end', 'cend'):
                return [('ret', st, ('addr', ('idx', TEXT, c(self.n))))]
            if nm in ('c_str', 'data'):
                return [('ret', st, ('addr', ('idx', TEXT, C0)))]
        if nm in ('isprint',) and len(args) >= 1:
            t = ('isprint', val(0))
            lin.setrange(t, 0, 1)
            return [('ret', st, t)]
        return None


def chars(st, n):
    for i in range(n):
        t = ('chr', i)
        lin.setrange(t, -128, 127)
        st.mem[('at', c(i))] = t
        st.mem[('idx', TEXT, c(i))] = t


def paths(ctx, f, n, setup):
    cl = C(n)
    I = Interp(ctx.p, cl, budget=200000)
    st = State()
    chars(st, n)
    fr = I.frame(f, None, None, None)
    setup(I, st, fr)
    try:
        outs = I.run_fn(fr, st)
    except Budget:
        return None
    ctx.absorb(I)
    if I.exceeded:
        return None
    return [(s, s.mem.get(('gh', 'out'), ('o',))[1:], k) for k, s, v in outs]


def admits(s, env):
    for t, (lo, hi, ne) in s.facts.items():
        try:
            v = ev(t, env)
        except (Unknown, KeyError, TypeError):
            continue
        if v == BAD:
            return BAD
        if lo is not None and v < lo or hi is not None and v > hi or v in ne:
            return False
    return True


def show(x):
    return repr(chr(x & 255))


def spec(ch, csv):
    b = ch & 255
    if b in SPECIAL:
        r = [ord('"') if csv and b == 34 else 92, ord(SPECIAL[b])]
        return r + [b] if b < 32 else r
    if 32 <= b < 127:
        return [b]
    return [92, ord('x'), b >> 4, b & 15]


def same(out, want, env):
    """out: terms; want: bytes, hex digits as values"""
    got = []
    for o in out:
        if o[0] != 'ch':
            return 'writes something other than the characters'
        v = ev(o[1], env)
        if v == BAD:
            return 'reads outside its digit table'
        got.append(v & 255)
    def alts(w):
        if len(w) == 4:
            return [[{92}, {ord('x')}] + [{ord('%x' % d), ord('%X' % d)} for d in w[2:]]]
        if len(w) == 3:
            # a control character may be written by its letter or by its code
            return [[{w[0]}, {w[1]}]] + alts([92, ord('x'), w[2] >> 4, w[2] & 15])
        return [[{x} for x in w]]

    def match(i, ws):
        if not ws:
            return i == len(got)
        for a in alts(ws[0]):
            if len(got) >= i + len(a) and all(g in e for g, e in zip(got[i:], a)) and match(i + len(a), ws[1:]):
                return True
        return False
    if not match(0, want):
        return 'is written as %r' % ''.join(map(chr, got))
    return None


def run(ctx):
    p = ctx.p
    esc = [f for f in p.fns.values() if f.n == 'operator<<' and f.blocks and len(f.params) == 2 and
           strip_t(f.vars[f.params[1]]['t'].replace('const ', '').rstrip('& ')) == NS + 'escape']
    mq = [f for f in p.fns.values() if f.n == 'operator<<' and f.blocks and len(f.params) == 2 and
          strip_t(f.vars[f.params[1]]['t'].replace('const ', '').rstrip('& ')) == NS + 'maybeQuote']
    ctx.require(len(esc) == 1 and len(mq) == 1, 'output operators of escape and maybeQuote not found')
    rec = p.rec_qt.get(NS + 'escape')
    rq = p.rec_qt.get(NS + 'maybeQuote')
    ctx.require(rec and rq, 'escape, maybeQuote not found')
    orig = [x['q'] for x in rec['fields'] if 'string' in x['t']]
    sty = [x['q'] for x in rec['fields'] if 'style' in x['t']]
    qs = [x['q'] for x in rq['fields'] if 'string' in x['t']]
    ctx.require(len(orig) == len(sty) == len(qs) == 1, 'members of escape, maybeQuote not found')
    csvv = [v['v'] for e in p.enums.values() for v in e['vals'] if v['n'].endswith('escape::CSV')]
    ctx.require(csvv, 'escape::CSV not found')
    f = esc[0]
    ctx.seen(f)
    for n in (0, 1, 2):
        for csv in (False, True):
            def setup(I, st, fr):
                q = I.deref(('init', ('var', fr.id, f.params[1])))
                st.mem[('fld', q, orig[0])] = ('addr', TEXT)
                st.mem[('fld', q, sty[0])] = c(csvv[0] if csv else 0)
            ps = paths(ctx, f, n, setup)
            if ps is None:
                ctx.ob('escape', '%d characters' % n, None)
                continue
            check(ctx, f, ps, n, lambda ch: spec(ch, csv), 'CSV' if csv else 'C')
    f = mq[0]
    ctx.seen(f)
    for n in (1, 2):
        def setup2(I, st, fr):
            q = I.deref(('init', ('var', fr.id, f.params[1])))
            st.mem[('fld', q, qs[0])] = ('addr', TEXT)
        ps = paths(ctx, f, n, setup2)
        if ps is None:
            ctx.ob('quote', '%d characters' % n, None)
            continue
        for env in envs(n):
            hit = 0
            for s, out, kind in ps:
                a = admits(s, env)
                if a == BAD:
                    ctx.ob('quote', 'isprint', False, 'isprint() is given a negative character', f)
                    continue
                if not a:
                    continue
                hit += 1
                try:
                    must = any((e & 255) in SPECIAL or not 32 <= (e & 255) < 127 for e in env)
                    if out == (('text',),):
                        ctx.ob('quote', '%d characters' % n, not must, 'the text %r is written without escapes' % ''.join(chr(e & 255) for e in env), f)
                    else:
                        ok = len(out) == 3 and out[1] == ('esc', C0) and all(o[0] == 'ch' and ev(o[1], env) == 34 for o in (out[0], out[2]))
                        ctx.ob('quote', '%d characters' % n, ok, 'the text is neither written as it is nor escaped between quotes', f)
                except Unknown as e:
                    ctx.ob('quote', 'output %s' % e, None)
            ctx.require(hit, 'maybeQuote: no path for %r' % (env,))
    ctx.assume += ['isprint() of the C locale']


def envs(n):
    if n == 0:
        return [()]
    if n == 1:
        return [(x,) for x in range(-128, 128)]
    return [(x, y) for x in REPS for y in REPS]


def check(ctx, f, ps, n, sp, name):
    for env in envs(n):
        hit = 0
        for s, out, kind in ps:
            a = admits(s, env)
            if a == BAD:
                ctx.ob('escape', 'isprint', False, 'isprint() is given a negative character', f)
                hit += 1
                continue
            if not a:
                continue
            hit += 1
            try:
                w = same(out, [sp(x) for x in env], env)
            except Unknown as e:
                ctx.ob('escape', '%s style %s: %s' % (name, env, e), None)
                continue
            ctx.ob('escape', '%s style, %s' % (name, ' '.join('%02x' % (x & 255) for x in env)), w is None,
                   'in %s style the %s %s %s' % (name, 'character' if n == 1 else 'text', ' '.join('0x%02x' % (x & 255) for x in env), w), f)
        ctx.require(hit, 'escape: no path for %r' % (env,))
