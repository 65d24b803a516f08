"""Run-time typed conversions, by abstract interpretation of the converter for every pair of scalar types.

castUnsafeV is interpreted for all pairs (source type, destination type) and small numbers of elements, the two buffers being two
objects: every read of the source must be of the source's element type, every write to the destination of the destination's, element i
of the destination must come from element i of the source, and all are written. A byte-wise copy is accepted between integer types of
one width, or equal types, with that width. Values outside the enumeration must be refused. Every function that calls the converter is
interpreted with typed storage: the type code handed over must be that of the storage whose address goes with it."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t
from rules import svec
from rules.objs import NS, ELEM, C0, C1, STR, bare

SIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
        'float': 4, 'double': 8, STR: 32}
INT = ('signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long')
D, S = ('cb', 'dest'), ('cb', 'src')


def elem(t):
    t = t.strip()
    while t.startswith('const '):
        t = t[6:]
    return t.rstrip('&* ').strip()


class C(Client):
    unroll = 6
    cap = 100000
    max_depth = 10

    def __init__(self, to, frm):
        self.to, self.frm = to, frm
        self.n = 0

    def inline(self, I, fn, fr):
        return fn.n not in ('parseToPOD', 'operator<<', 'elementSize')

    def chk(self, I, fr, nid, L, t, what):
        if L[0] != 'idx' or L[1] not in (D, S):
            return
        want = self.to if L[1] == D else self.frm
        self.n += 1
        I.oblige('types', fr, nid, what, elem(t) == want and not (L[1] == S and what == 'write'),
                 'the %s of type %s is accessed as %s' % ('destination' if L[1] == D else 'source', want.replace(STR, 'string'), elem(t).replace(STR, 'string')))

    def on_read(self, I, st, fr, nid, L):
        o = fr.fn.nodes[nid].get('o')
        self.chk(I, fr, nid, L, fr.fn.nodes[o[0]]['t'] if o else fr.fn.nodes[nid]['t'], 'read')

    def on_write(self, I, st, fr, nid, L, v):
        if L[0] != 'idx' or L[1] not in (D, S):
            return
        n = fr.fn.nodes[nid]
        if n.get('fname') in ('memcpy', 'memmove', 'copy', 'copy_n'):
            return
        o = n.get('o')
        self.chk(I, fr, nid, L, fr.fn.nodes[o[0]]['t'] if o else n['t'], 'write')

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        fq = strip_t(n.get('fq') or '')
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if nm == 'castUnsafe' and len(args) == 1:
            x = args[0]
            ta = n.get('targs') or []
            if x[2] and x[1][0] == 'idx':
                self.chk(I, fr, nid, x[1], ta[1] if len(ta) > 1 else fr.fn.nodes[x[0]]['t'], 'read')
            v = I.rd(st, x[1]) if x[2] else x[1]
            r = ('conv', ta[0] if ta else n['t'], v)
            return I.models.ret(I, st, fr, nid, n, r)
        if fq in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'):
            d, s, k = val(0), val(1), val(2)
            if d == ('addr', ('idx', D, C0)) and s == ('addr', ('idx', S, C0)):
                w = SIZE[self.to]
                ok = self.to == self.frm and self.to != STR or self.to in INT and self.frm in INT and w == SIZE[self.frm]
                I.oblige('bytes', fr, nid, 'byte-wise copy', ok, 'values of type %s are copied byte by byte to %s' % (self.frm.replace(STR, 'string'), self.to))
                I.oblige('bytes', fr, nid, 'byte count', k == c(w * self.count), 'a byte-wise copy of %d elements of %d bytes copies %s bytes' % (
                    self.count, w, k[1] if k[0] == 'c' else '?'))
                self.n += 1
                if k[0] == 'c' and ok:
                    for i in range(min(self.count, k[1] // w)):
                        st.mem[('idx', D, c(i))] = ('bytes', I.rd(st, ('idx', S, c(i))))
                return [('ret', st, d)]
        if fq in ('std::copy', 'std::copy_n') and len(args) == 3:
            b, e, d = val(0), val(1), val(2)
            t = elem(fr.fn.nodes[args[0][0]]['t'])
            t2 = elem(fr.fn.nodes[args[2][0]]['t'])
            k = I.ptrsub(e, b) if fq == 'std::copy' else e
            if b[0] == 'addr' and b[1][:2] == ('idx', S) and d[0] == 'addr' and d[1][:2] == ('idx', D) and k[0] == 'c':
                for i in range(k[1]):
                    x, y = ('idx', S, lin.add(b[1][2], c(i))), ('idx', D, lin.add(d[1][2], c(i)))
                    self.chk(I, fr, nid, x, t, 'read')
                    self.chk(I, fr, nid, y, t2, 'write')
                    st.mem[y] = ('conv', t2, I.rd(st, x))
                return [('ret', st, I.ptradd(d, k))]
        if fq == 'std::transform' and len(args) == 4:
            b, e, d = val(0), val(1), val(2)
            if b[0] == 'addr' and b[1][:2] == ('idx', S) and e[0] == 'addr' and d[0] == 'addr' and d[1][:2] == ('idx', D):
                k = I.ptrsub(e, b)
                for i in range(k[1] if k[0] == 'c' else 0):
                    x, y = ('idx', S, lin.add(b[1][2], c(i))), ('idx', D, lin.add(d[1][2], c(i)))
                    self.chk(I, fr, nid, x, fr.fn.nodes[args[0][0]]['t'], 'read')
                    self.chk(I, fr, nid, y, fr.fn.nodes[args[2][0]]['t'], 'write')
                    st.mem[y] = ('conv', self.to, I.rd(st, x))
                return [('ret', st, I.ptradd(d, k))]
        return None


def source(v, i):
    """is the value made from element i of the source and nothing else of it"""
    w = ('init', ('idx', S, c(i)))
    if v[0] in ('conv', 'bytes'):
        return v[-1] == w
    found = []
    lin.mentions(v, lambda x: found.append(x) and False if isinstance(x, tuple) and x[:1] == ('init',) and x[1][:2] == ('idx', S) else False)
    return bool(found) and all(x == w for x in found)


def run(ctx):
    p = ctx.p
    f = p.by_q.get(NS + 'castUnsafeV', [])
    ctx.require(len(f) == 1 and len(f[0].params) == 5, 'castUnsafeV not found')
    f = f[0]
    ctx.seen(f)
    codes = dict(p.enum_vals(NS + 'ScalarType'))
    ctx.require(set(codes) == set(ELEM), 'scalar types are not those expected')
    pairs = accesses = 0

    def go(cnt, to, frm, tn, fn_):
        cl = C(ELEM.get(tn), ELEM.get(fn_))
        cl.count = cnt
        I = Interp(p, cl, 100000)
        st = State()
        fr = I.frame(f, None, None, None)
        for vid, v in zip(f.params, (c(cnt), c(to), ('addr', ('idx', D, C0)), c(frm), ('addr', ('idx', S, C0)))):
            st.mem[('var', fr.id, vid)] = v
        st.mem[('fld', S, '#n')] = c(cnt)
        return cl, I, I.run_fn(fr, st)

    for tn, to in sorted(codes.items()):
        for fn_, frm in sorted(codes.items()):
            pairs += 1
            supported = tn == fn_ or (tn != 'pvBoolean' or fn_ == 'pvString') and (fn_ != 'pvBoolean' or tn == 'pvString')
            for cnt in (0, 1, 2, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 5):
                cl, I, outs = go(cnt, to, frm, tn, fn_)
                what = '%s -> %s' % (fn_, tn)
                rets = [o for o in outs if o[0] == 'ret']
                ctx.ob('supported', what, bool(rets) or not supported, 'converting %s is refused' % what, f)
                if supported and cnt == 0:
                    ctx.ob('supported', what, not [o for o in outs if o[0] == 'throw'], 'converting no element %s fails' % what, f)
                for k, s, v in rets:
                    for i in range(cnt):
                        w = s.mem.get(('idx', D, c(i)))
                        ctx.ob('converted', what, w is not None, 'converting %s leaves elements unconverted' % what, f)
                        if w is not None:
                            ctx.ob('element', what, source(w, i), 'converting %s: an element does not come from the element it stands for' % what, f)
                    ctx.ob('inside', what, not any(k2[:2] == ('idx', D) and k2[2][0] == 'c' and k2[2][1] >= cnt for k2 in s.mem),
                           'converting %s writes beyond the count' % what, f)
                accesses += cl.n
                ctx.absorb(I)
    for bad in (-1, 12, 255):
        for to, frm in ((bad, 3), (3, bad), (bad, bad), (0, bad), (11, bad)):
            cl, I, outs = go(1, to, frm, 'pvInt', 'pvInt')
            ctx.ob('unknown', 'type code %d -> %d' % (frm, to), not any(o[0] == 'ret' for o in outs), 'an unknown type code is accepted', f)
    ctx.info['pairs'] = pairs
    ctx.info['typed accesses checked'] = accesses
    callers(ctx, p, f, codes)
    instances(ctx, p)
    windows(ctx, p, codes)


def windows(ctx, p, codes):
    """views of untyped arrays as typed ones and back, and the table of element sizes"""
    back = {v: k for k, v in ELEM.items()}
    n = 0
    VT = svec.SV

    class W(svec.SvClient):
        pass
    for f in sorted((f for f in p.fns.values() if f.n == 'shared_vector' and 'ctor' in f.d and len(f.params) == 2 and '_cast_tag' in f.vars[f.params[1]]['t']),
                    key=lambda f: f.qt):
        dst, src = f.cls, elem(f.vars[f.params[0]]['t'])
        te, fe = svec.elem_of(dst), svec.elem_of(src)
        ctx.seen(f)
        for trip in ((2, 3, 5), (0, 7, 7), (0, 0, 0)):
            I = Interp(p, W(), 20000)
            st = State()
            T, O = ('cb', 'to'), ('cb', 'from')
            o = svec.Obj(p, src, O)
            m = svec.Obj(p, dst, T)
            ts = SIZE[te] if te != 'void' else SIZE[fe]
            for L, x in zip((o.off, o.cnt, o.tot), trip):
                st.mem[L] = c(x * (ts if fe == 'void' else 1))
            st.mem[o.ptr] = ('addr', ('idx', ('cb', 'data'), C0)) if trip[2] else C0
            fr = I.frame(f, None, None, T)
            st.mem[('var', fr.id, f.params[0])] = ('addr', O)
            outs = I.run_fn(fr, st)
            want = [x * (ts if te == 'void' else 1) for x in trip]
            what = '%s from %s' % (dst.replace(NS, '').replace(STR, 'string'), src.replace(NS, '').replace(STR, 'string'))
            for k, s, v in outs:
                if k != 'ret':
                    continue
                n += 1
                got = [I.rd(s, L) for L in (m.off, m.cnt, m.tot)]
                # the unused tail may be given up
                ok = got[:2] == [c(x) for x in want[:2]] and got[2] in (c(want[2]), c(want[1])) and I.rd(s, m.ptr) == st.mem[o.ptr]
                ctx.ob('view', what, ok, 'the view does not cover the same elements', f)
                if te == 'void':
                    vt = [I.rd(s, ('fld', T, r['q'])) for r in p.rec_qt[dst]['fields'] if 'ScalarType' in r['t']]
                    ctx.ob('recorded', what, vt == [c(codes[back[fe]])], 'the recorded element type is not that of the elements', f)
    ctx.require(n >= 24, 'views of untyped arrays not found')
    g = p.by_q.get(NS + 'ScalarTypeFunc::elementSize', [])
    ctx.require(len(g) == 1, 'elementSize not found')
    g = g[0]
    ctx.seen(g)
    for name, v in list(codes.items()) + [('bad', 12), ('bad', 255)]:
        cl = C(None, None)
        I = Interp(p, cl, 20000)
        st = State()
        fr = I.frame(g, None, None, None)
        st.mem[('var', fr.id, g.params[0])] = c(v)
        outs = I.run_fn(fr, st)
        rs = [o[2] for o in outs if o[0] == 'ret']
        if name == 'bad':
            ctx.ob('size', 'unknown', not rs, 'an element size is given for an unknown type', g)
        else:
            ctx.ob('size', name, rs == [c(SIZE[ELEM[name]])] and len(rs) == len(outs), 'the element size of %s is not %d' % (name, SIZE[ELEM[name]]), g)


class Caller(Client):
    """functions that hand typed storage to the converter"""
    max_depth = 6

    def __init__(self, codes, name):
        self.codes = {v: k for k, v in codes.items()}
        self.calls = 0
        self.name = name

    def inline(self, I, fn, fr):
        return fn.n not in ('parseToPOD', 'operator<<', 'put', 'notify', 'message')

    def static(self, fr, nid):
        """type of the storage an argument points at, through casts to void"""
        n = fr.fn.nodes[nid]
        while True:
            t = n['t']
            if 'void' not in t:
                return elem(t)
            if n.get('o') and n['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ParenExpr', 'CXXReinterpretCastExpr'):
                n = fr.fn.nodes[n['o'][0]]
                continue
            return None

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        if n.get('fname') == 'castUnsafeV' and len(args) == 5:
            self.calls += 1
            v = [I.rd(st, x[1]) if x[2] else x[1] for x in args]
            for what, ti, pi in (('destination', 1, 2), ('source', 3, 4)):
                t, ptr = v[ti], v[pi]
                T = self.static(fr, args[pi][0])
                if t[0] == 'c':
                    want = ELEM.get(self.codes.get(t[1]))
                    ok = want is not None and T == want
                    I.oblige('storage', fr, nid, what, ok, 'the %s is announced as %s, its storage is %s' % (
                        what, self.codes.get(t[1], t[1]), (T or 'untyped').replace(STR, 'string')))
                else:
                    # both come from the caller: the tag and the bytes of one object, or two parameters
                    I.oblige('storage', fr, nid, what, self.paired(I, fr, t, ptr, T), 'the %s is announced with a type that is not recorded for it' % what)
            self.amount(I, st, fr, nid, v)
            d = v[2][1] if v[2][0] == 'addr' else None
            if d is not None and d[0] == 'var':
                st.mem[d] = ('converted',)
            st.mem[('gh', 'dest')] = ('of', v[2])
            return [('ret', st, C0)]
        if n.get('fname') == 'put' and args:
            v = I.rd(st, args[0][1]) if args[0][2] else args[0][1]
            I.oblige('result', fr, nid, 'put', v == ('converted',), 'what is stored is not the converted value')
            st.mem[('gh', 'dest')] = ('of', 'put')
            return [('ret', st, C0)]
        if n.get('fname') == 'elementSize' and args:
            t = ('esz', I.rd(st, args[0][1]) if args[0][2] else args[0][1])
            lin.setrange(t, 1, 64)
            return [('ret', st, t)]
        return None

    def amount(self, I, st, fr, nid, v):
        """the number of elements is that of the untyped array the source comes from, and of the new array they go to"""
        k = v[0]
        if lin.mentions(v[4], lambda x: isinstance(x, tuple) and x[0] == 'init' and x[1][0] == 'fld' and x[1][2].endswith('::m_sdata')):
            ok = k[0] == 'div' and k[2] == ('esz', v[3]) and k[1][0] == 'init' and k[1][1][0] == 'fld' and k[1][1][2].endswith('::m_count') and \
                self.root(k[1]) == self.root(v[4])
            I.oblige('amount', fr, nid, 'source', ok, 'not all elements of the source are converted, or more than it has')
        else:
            I.oblige('amount', fr, nid, 'source', k == C1, 'more than the one value of the source is converted')
        if v[2][0] == 'addr' and v[2][1][0] == 'idx' and v[2][1][1][0] == 'new':
            n = I.rd(st, ('fld', v[2][1][1], '#n'))
            I.oblige('amount', fr, nid, 'destination', n == k and v[2][1][2] == C0, 'the destination is not an array of as many elements')

    def root(self, v):
        """object (or parameter) a value was read from"""
        while True:
            if v[0] in ('init', 'addr'):
                v = v[1]
            elif v[0] in ('fld', 'idx'):
                v = v[1]
            elif v[0] == 'lin':
                ps = [x for x in lin.parts(v)[1] if isinstance(x, tuple)]
                ps = [x for x in ps if 'init' in x[:1]] or ps
                if not ps:
                    return v
                r = {self.root(x) for x in ps}
                return r.pop() if len(r) == 1 else v
            elif v[0] == 'deref':
                v = v[1]
            else:
                return v

    def paired(self, I, fr, t, ptr, T):
        r1, r2 = self.root(t), self.root(ptr)
        if r1 == r2:
            return True
        if r1[0] == r2[0] == 'var' and r1[1] == r2[1]:
            f = next((x.fn for x in I.frames.values() if x.id == r1[1]), None)
            if f is None:
                return False
            # exactly one untyped pointer and one type among the parameters
            ts = [v for v in f.params if 'ScalarType' in f.vars[v]['t']]
            ps = [v for v in f.params if 'void' in f.vars[v]['t']]
            return len(ts) == len(ps) == 1 and [r1[2]] == ts and [r2[2]] == ps
        return False


def callers(ctx, p, conv, codes):
    n = 0
    fs = [g for g in p.fns.values() if g is not conv and any(x.get('fname') == 'castUnsafeV' and x['k'] == 'CallExpr' for x in g.nodes.values())]
    ctx.require(len(fs) >= 20, 'callers of castUnsafeV not found')
    for g in sorted(fs, key=lambda g: (g.l, g.qt)):
        ctx.seen(g)
        cl = Caller(codes, g.qt)
        I = Interp(p, cl, 100000)
        for k, s, v in I.run_fn(I.frame(g, None, None, ('this0',)), State()):
            d = s.mem.get(('gh', 'dest'))
            if k != 'ret' or d is None or d[1] == 'put':
                continue
            rt = g.d.get('rt') or ''
            if d[1][0] == 'addr' and d[1][1][0] == 'var':
                x = I.rd(s, v) if v is not None and v[0] in ('var', 'tmp') else v
                ctx.ob('result', g.qt.replace(STR, 'string'), x == ('converted',), 'the converted value is not what is returned', g)
            elif 'shared_vector<' in rt and v is not None:
                o = svec.Obj(p, rt, v)
                ctx.ob('result', g.qt.replace(STR, 'string'), I.rd(s, o.ptr) == d[1], 'the converted array is not what is returned', g)
        ctx.ob('calls', g.qt.replace(STR, 'string'), True if cl.calls else None)
        n += cl.calls
        ctx.absorb(I)
        if 'shared_vector_converter<' in g.qt and len(g.params) == 1:
            converter(ctx, p, g, codes)
    ctx.info['calls of the converter checked'] = n


def converter(ctx, p, g, codes):
    """from an untyped array of each recorded type: taken over as it is only when that is the wanted type"""
    wt = svec.elem_of(g.d['rt']) if 'shared_vector<' in (g.d.get('rt') or '') else None
    src = elem(g.vars[g.params[0]]['t'])
    if wt is None:
        return
    for name, code in sorted(codes.items()):
        cl = Caller(codes, g.qt)
        I = Interp(p, cl, 100000)
        st = State()
        O = ('cb', 'from')
        o = svec.Obj(p, src, O)
        st.mem[o.off], st.mem[o.cnt], st.mem[o.tot] = C0, c(3 * SIZE[ELEM[name]]), c(3 * SIZE[ELEM[name]])
        st.mem[o.ptr] = ('addr', ('idx', ('cb', 'data'), C0))
        for r in p.rec_qt[src]['fields']:
            if 'ScalarType' in r['t']:
                st.mem[('fld', O, r['q'])] = c(code)
        fr = I.frame(g, None, None, None)
        st.mem[('var', fr.id, g.params[0])] = ('addr', O)
        for k, s, v in I.run_fn(fr, st):
            if k != 'ret':
                continue
            d = s.mem.get(('gh', 'dest'))
            what = '%s from %s' % (g.qt.split('<')[1].split(',')[0].replace('std::basic_string', 'string'), name)
            r = svec.Obj(p, g.d['rt'], v)
            if d is None:
                ok = ELEM[name] == wt and I.rd(s, r.ptr) == st.mem[o.ptr] and I.rd(s, r.cnt) == c(3)
                ctx.ob('taken-over', what, ok, 'an array of %s is taken over, or dropped, as one of %s' % (ELEM[name].replace(STR, 'string'), wt.replace(STR, 'string')), g)


def instances(ctx, p):
    """the type code of each typed class is that of its element type"""
    codes = dict(p.enum_vals(NS + 'ScalarType'))
    back = {v: k for k, v in ELEM.items()}
    n = 0
    for g in p.globs.values():
        q = g['q']
        for pre in ('PVScalarValue<', 'PVValueArray<'):
            if q.startswith(NS + pre) and q.endswith('>::typeCode'):
                t = q[len(NS + pre):-len('>::typeCode')]
                if t in back:
                    n += 1
                    ctx.ob('typecode', q.replace(STR, 'string'), g.get('val') == codes[back[t]], 'the type code of %s is %s' % (q.replace(STR, 'string'), g.get('val')), None, g.get('l'))
    ctx.require(n == 24, 'type codes of the typed classes not found')
