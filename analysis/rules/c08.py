"""Invalid type descriptions cannot be created.

Every public function of the factory of descriptions that hands out a structured or bounded description is interpreted with member names,
members and ids of every shape (right, missing, null, repeated, badly spelt, differing in number; at every position of up to three), and
the decoder with descriptions made of them. A path on which it returns must have made a valid description (judged on the object itself);
valid input must be accepted. The spelling rule is run for all 256 characters, first and later. Every place that creates such an object
has to lie in a function that was run, so there is no other way to get one."""
import re
from pv import lin, models
from pv.lin import c
from pv.interp import State, strip_t
from rules import objs
from rules.objs import NS, C0, C1, World, setvec, bare
from rules.c04 import T, factory, describe, content, value, scalar
from rules.c09 import Builder

KINDS = ('Structure', 'Union', 'StructureArray', 'UnionArray', 'BoundedString')
NAME = re.compile('[A-Za-z_][A-Za-z0-9_]*$')
BAD = ('', '1a', 'a.b', 'a b', 'a\n', 'a\xe9', '-')


class T8(T):
    skip_names = False
    max_depth = 16
    unroll = 12

    def __init__(self, w):
        T.__init__(self, w)
        self.entered = set()

    def pre_call(self, I, st, fr, nid, n, a):
        self.entered.add(fr.fn.usr)
        r = T.pre_call(self, I, st, fr, nid, n, a)
        return r


def lists(good=('a', 'b', 'c')):
    """lists of names"""
    for k in range(4):
        yield list(good[:k])
    yield ['a', 'a']
    yield ['a', 'a', 'c']
    yield ['a', 'b', 'a']
    yield ['a', 'b', 'b']
    for k in (1, 2, 3):
        for i in range(k):
            for b in BAD if k == 1 else BAD[:2]:
                yield list(good[:i]) + [b] + list(good[i + 1:k])


def members(k):
    yield [1] * k
    for i in range(k):
        yield [1] * i + [0] + [1] * (k - i - 1)


def pairs():
    for ns in lists():
        k = len(ns)
        for fs in members(k):
            yield ns, fs
        if k:
            yield ns, [1] * (k - 1)
        yield ns, [1] * (k + 1)
    yield ['a', 'b'], []
    yield [], [1, 1]


def faults(w, cl, I, s, cls, o):
    """what is wrong with the description o -> [text], or None if it cannot be told"""
    a = content(w, I, s, NS + cls, o)
    out = []
    names = fields = None
    for q, v in a.items():
        t = next(f['t'] for f in w.fields(NS + cls) if f['q'] == q)
        if t.startswith('std::vector<') and 'basic_string' in t:
            names = v
        elif t.startswith('std::vector<'):
            fields = v
        elif 'shared_ptr' in t:
            if v == C0:
                out.append('no element type')
            elif v[0] != 'addr' or cl.cls_of(I, v[1]) is None:
                return None
            elif not w.isa(cl.cls_of(I, v[1]), bare(t)):
                out.append('an element type of another kind')
        elif q.startswith(NS + 'BoundedString::'):
            if v == C0:
                out.append('a bound of zero')
            elif v[0] != 'c':
                return None
        elif 'basic_string' in t:
            if v == ('str', ''):
                out.append('an empty id')
            elif v[0] != 'str':
                return None
    if names is not None:
        if names[:1] == ('?',) or fields[:1] == ('?',) or any(x[0] != 'str' for x in names):
            return None
        if len(names) != len(fields):
            out.append('%d names and %d members' % (len(names), len(fields)))
        if C0 in fields:
            out.append('a missing member')
        if any(f != C0 and f[0] != 'addr' for f in fields):
            return None
        if len(set(names)) != len(names):
            out.append('a repeated name')
        for x in names:
            if not NAME.match(x[1]) or x[1].endswith('\n'):
                out.append('a member named %r' % x[1])
    return out


def judge(ctx, w, cl, I, what, outs, fn, good):
    ok = 0
    for k, s, v in outs:
        if k != 'ret':
            continue
        V = value(I, s, v)
        o = V[1] if V[0] == 'addr' else None
        k2 = cl.cls_of(I, o) if o else None
        if k2 is None:
            ctx.ob('valid', what, None, '%s: what is returned could not be told (%s)' % (what, str(V)[:60]), fn)
            continue
        ok += 1
        cls = k2.replace(NS, '')
        if cls not in KINDS:
            continue
        r = faults(w, cl, I, s, cls, o)
        ctx.ob('valid', what, None if r is None else not r, 'a %s with %s is made from %s' % (cls, ' and '.join(r or ['?']), what), fn)
    if good is not None:
        ctx.ob('accepted' if good else 'refused', what, bool(ok) == good, '%s: a valid description is refused' % what if good else 'an invalid description is made from %s' % what, fn)


def run(ctx):
    p = ctx.p
    w = World(p)
    B = Builder(p)
    cl, I, FC, base = factory(ctx, w, T8)
    kid = lambda i: ('addr', w.add('member %d' % i, NS + 'Scalar', opaque=True)) if ('cb', 'member %d' % i) not in w.cls else ('addr', ('cb', 'member %d' % i))
    count = [0]

    def arg(st, fr, i, t, val):
        t = t.replace(' const', '').replace('const ', '').strip(' &')
        prm = ('var', fr.id, fr.fn.params[i])
        if t.startswith('std::vector<'):
            L = ('cb', 'argument', count[0], i)
            setvec(st, L, val)
            st.mem[prm] = ('addr', L)
        elif 'shared_ptr<' in t or 'basic_string' in t:
            L = ('cb', 'argument', count[0], i)
            st.mem[L] = val
            st.mem[prm] = ('addr', L)
        else:
            st.mem[prm] = val

    # ---- the functions of the factory
    fns = [f for f in p.fns.values() if f.cls == NS + 'FieldCreate' and f.blocks and f.d.get('acc') == 'public' and not f.d.get('static')
           and any(('const %s%s>' % (NS, k)) in f.d.get('rt', '') for k in KINDS)]
    ctx.require(len(fns) >= 10, 'functions creating descriptions not found')
    S0 = {}
    for f in sorted(fns, key=lambda f: f.l):
        ctx.seen(f)
        ts = [f.vars[v]['t'] for v in f.params]
        base_ts = [t.replace('const ', '').strip(' &') for t in ts]
        nn = [i for i, t in enumerate(base_ts) if t.startswith('std::vector<') and 'basic_string' in t]
        ff = [i for i, t in enumerate(base_ts) if t.startswith('std::vector<') and 'shared_ptr' in t]
        ss = [i for i, t in enumerate(base_ts) if 'basic_string' in t and not t.startswith('std::vector')]
        oo = [i for i, t in enumerate(base_ts) if 'shared_ptr<' in t and not t.startswith('std::vector')]
        zz = [i for i, t in enumerate(base_ts) if i not in nn + ff + ss + oo]
        ctx.require(len(nn) <= 1 and len(nn) == len(ff) and len(ss) <= 1 and len(zz) <= 1, '%s: parameters not understood' % f.q)
        uni = 'Union>' in f.d['rt'] or 'UnionArray>' in f.d['rt']
        good_any = False
        app = any(bare(ts[i]) == NS + 'Structure' for i in oo) and (nn or ss)
        P = list(pairs()) if nn else [(None, None)]
        if app and nn:
            P += [(['m0'], [1]), (['a', 'm0'], [1, 1])]
        for ns, fs in P:
            okpair = ns is None or len(ns) == len(fs) and all(fs) and len(set(ns)) == len(ns) and all(NAME.match(x) and x[-1] != '\n' for x in ns) and not (app and 'm0' in ns)
            for sv in (('some_id', '', 'any', 'm0', '1a', 'a.b') if ss and okpair else ('some_id',) if ss else (None,)):
                objects = [None]
                if oo:
                    objects = [[1] * len(oo)] + [[1] * i + [0] + [1] * (len(oo) - i - 1) for i in range(len(oo)) if not (app and bare(ts[oo[i]]) == NS + 'Structure')]
                for ov in objects:
                    for z in ((0, 7) if zz else (None,)):
                        count[0] += 1
                        st = base.fork()
                        fr = I.frame(f, None, None, FC)
                        txt = []
                        if ns is not None:
                            arg(st, fr, nn[0], ts[nn[0]], [('str', x) for x in ns])
                            arg(st, fr, ff[0], ts[ff[0]], [kid(i) if x else C0 for i, x in enumerate(fs)])
                            txt.append('names %s, members %s' % (ns, ''.join('x' if x else '0' for x in fs)))
                        if sv is not None:
                            arg(st, fr, ss[0], ts[ss[0]], ('str', sv))
                            txt.append('%r' % sv)
                        if ov is not None:
                            for i, x in zip(oo, ov):
                                if not x:
                                    v = C0
                                elif bare(ts[i]) == NS + 'Field':
                                    v = kid(0)
                                else:
                                    v = ('addr', describe(w, st, B, 'given %s' % bare(ts[i]), bare(ts[i]).replace(NS, ''), 1, None, None, 'given'))
                                arg(st, fr, i, ts[i], v)
                            txt.append('objects %s' % ''.join('x' if x else '0' for x in ov))
                        if z is not None:
                            arg(st, fr, zz[0], ts[zz[0]], c(z))
                            txt.append('%d' % z)
                        what = '%s(%s)' % (f.n, '; '.join(txt))
                        outs = I.run_fn(fr, st)
                        good = None
                        if okpair and (ov is None or all(ov)) and (sv is None or sv == 'some_id') and z in (None, 7) and not (uni and ns == []):
                            good = True
                        judge(ctx, w, cl, I, what, outs, f, good)
                        ctx.ob('outcome', what, True if outs else None, fn=f)
    # ---- the decoder
    fdes = [f for f in p.by_q.get(NS + 'FieldCreate::deserialize', []) if f.blocks][0]
    ctx.seen(fdes)
    for code, nm in ((0x80, 'structure'), (0x81, 'union')):
        for ns, fs in pairs():
            if len(ns) != len(fs):
                continue
            for id_ in ('', 'some_id'):
                cl.script = (('byte', c(code - 256)), ('string', ('str', id_)), ('size', c(len(ns))))
                for i, x in enumerate(ns):
                    cl.script += (('string', ('str', x)), ('field', kid(i) if fs[i] else C0))
                st = base.fork()
                st.mem[('gh', 'pos')] = C0
                outs = I.run_fn(I.frame(fdes, None, None, FC), st)
                what = 'decoding a %s %r, names %s, members %s' % (nm, id_, ns, ''.join('x' if x else '0' for x in fs))
                ok = all(fs) and len(set(ns)) == len(ns) and all(NAME.match(x) and x[-1] != '\n' for x in ns) and (ns or code == 0x80)
                judge(ctx, w, cl, I, what, outs, fdes, True if ok else None)
                ctx.ob('outcome', what, True if outs else None, fn=fdes)
    for z in (0, 7):
        cl.script = (('byte', c(0x83 - 256)), ('size', c(z)))
        st = base.fork()
        st.mem[('gh', 'pos')] = C0
        judge(ctx, w, cl, I, 'decoding a bounded string of %d' % z, I.run_fn(I.frame(fdes, None, None, FC), st), fdes, True if z else None)
    for code, nm in ((0x88, 'Structure'), (0x89, 'Union')):
        for g in (0, 1, 2):
            st = base.fork()
            v = kid(0) if g == 2 else ('addr', describe(w, st, B, 'given %s' % nm, nm, 1, None, None, 'given')) if g else C0
            cl.script = (('byte', c(code - 256)), ('field', v))
            st.mem[('gh', 'pos')] = C0
            judge(ctx, w, cl, I, 'decoding an array of %s' % ('no %s' % nm, 'a %s' % nm, 'no %s but a scalar' % nm)[g], I.run_fn(I.frame(fdes, None, None, FC), st), fdes, g == 1)
    cl.script = None
    # ---- spelling of names, character by character
    cs1 = [f for f in fns if f.n == 'createStructure' and len(f.params) == 2]
    ctx.require(len(cs1) == 1, 'createStructure(names, members) not found')
    f = cs1[0]
    ts = [f.vars[v]['t'] for v in f.params]
    for ch in range(256):
        for nm in (chr(ch), 'a' + chr(ch), chr(ch) + 'a'):
            count[0] += 1
            st = base.fork()
            fr = I.frame(f, None, None, FC)
            for i, t in enumerate(ts):
                arg(st, fr, i, t, [('str', nm)] if 'basic_string' in t else [kid(0)])
            ok = bool(re.match('[A-Za-z_][A-Za-z0-9_]*\\Z', nm))
            judge(ctx, w, cl, I, 'the name %r' % nm, I.run_fn(fr, st), f, ok)
    # ---- no other way
    n = 0
    for g in p.fns.values():
        if not g.blocks:
            continue
        for i, x in g.nodes.items():
            cls = x.get('cls') or strip_t(x.get('fq') or '').rsplit('::', 1)[0]
            if x['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and cls in [NS + k for k in KINDS]:
                c0 = p.fns.get(x.get('fn'))
                if c0 is not None and not c0.params and cls != NS + 'Structure':
                    continue      # the variant union, made once
                n += 1
                ok = g.usr in cl.entered or g.d.get('ctor')
                ctx.ob('site', '%s: %s' % (g.q, x.get('fq')), bool(ok), 'a %s is created in %s, by a way of its own' % (cls.replace(NS, ''), g.q), g)
    ctx.require(n >= 8, 'places creating descriptions not found (%d)' % n)
    ctx.info['inputs'] = count[0]
    ctx.absorb(I)
