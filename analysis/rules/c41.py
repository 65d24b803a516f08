"""Slice copies between array fields, by abstract interpretation of every overload and instantiation of copy().

The lengths and capacities of both fields are symbols. Every element access is an obligation: its index is proved to be below the size
of the vector it indexes, and to be computed without wrap-around, with linear arithmetic and, for the products index * stride, the lemma
i < q and s >= 1 imply i*s + s <= q*s. The new contents are only stored into a destination proved mutable, of the same element type as the
source, and the strides proved positive; no element the destination had is dropped."""
from pv import lin
from pv.lin import c, sub, add, mul
from pv.interp import Interp, Client, State, Budget, strip_t

C0, C1 = c(0), c(1)
NS = 'epics::pvData::'
MAX = (1 << 64) - 1
TYPE = {'char': 0, 'signed char': 1, 'short': 2, 'int': 3, 'long': 4, 'unsigned char': 5, 'unsigned short': 6, 'unsigned int': 7,
        'unsigned long': 8, 'float': 9, 'double': 10, 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>': 11}


class Copy(Client):
    cap = 300
    max_depth = 5

    def __init__(self, tops):
        self.n = {'read': 0, 'write': 0, 'replace': 0}
        self.tops = tops

    def inline(self, I, fn, fr):
        return fn.file == self.tops[0].file

    # --- fields: what the accessors of an array field yield
    def attr(self, o, what, lo=0, hi=MAX):
        t = ('attr', what, o)
        lin.setrange(t, lo, hi)
        return t

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        nm = n.get('fname')
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and fq.endswith('shared_vector::shared_vector'):
            d = I.destloc(st, fr, nid)
            if not args:
                self.setvec(st, d, C0, ('none',))
            elif n.get('copy') or n.get('move') or args[0][2]:
                self.copyvec(I, st, args[0][1], d, move=n.get('move') or 'm' in (n.get('pk') or [''])[0])
            else:
                sz = I.aval(st, fr, args[0])
                self.nowrap(I, st, fr, nid, 'size', sz)
                self.setvec(st, d, sz, ('own',))
            return [('ret', st, d)]
        if fq in (NS + 'freeze', NS + 'thaw'):
            d = I.destloc(st, fr, nid)
            self.copyvec(I, st, args[0][1], d, move=True)
            return [('ret', st, d)]
        if 'shared_vector' in fq and obj is not None:
            if nm in ('operator[]', 'at'):
                return self.index(I, st, fr, nid, n, obj, I.aval(st, fr, args[0]), nm)
            if nm == 'size':
                return [('ret', st, self.vec(st, obj)[0])]
            if nm == 'empty':
                return [('ret', st, I.compare(st, self.vec(st, obj)[0], C0, '=='))]
            if nm == 'resize':
                sz = I.aval(st, fr, args[0])
                self.nowrap(I, st, fr, nid, 'size', sz)
                v = self.vec(st, obj)
                self.setvec(st, obj, sz, ('own',) if v[1][0] == 'own' else ('own',), keep=True)
                return [('ret', st, C0)]
            if nm == 'operator=' and args and args[0][2]:
                self.copyvec(I, st, args[0][1], obj)
                return [('ret', st, obj)]
            if nm in ('data', 'begin', 'end', 'slice', 'swap', 'push_back', 'insert', 'reserve', 'dataPtr'):
                I.oblige('inside', fr, nid, nm, None)
            return None
        o = obj
        if nm == 'isImmutable':
            t = self.attr(o, 'immutable', 0, 1)
            if I.truth(st, t) is None:
                s2 = st.fork()
                out = []
                for s, v in ((st, True), (s2, False)):
                    if I.assume(s, ('cmp', '==', sub(t, C1)), v):
                        out.append(('ret', s, C1 if v else C0))
                return out
            return [('ret', st, t)]
        if nm == 'getLength':
            return [('ret', st, self.attr(o, 'length'))]
        if nm in ('getCapacity', 'getMaximumCapacity'):
            t = self.attr(o, nm)
            if nm == 'getCapacity':
                I.fact(st, sub(t, self.attr(o, 'length')))
            return [('ret', st, t)]
        if nm == 'view' and n.get('c'):
            d = I.destloc(st, fr, nid)
            self.setvec(st, d, self.attr(o, 'length'), ('view', o))
            return [('ret', st, d)]
        if nm == 'replace':
            self.stored(I, st, fr, nid, o, args[0][1])
            return [('ret', st, C0)]
        if nm in ('getScalarArray', 'getStructureArray', 'getUnionArray', 'getField', 'getArray') and o is not None:
            t = ('desc', o)
            lin.setrange(t, 1, MAX)
            if n.get('lv'):
                return [('ret', st, ('cell', t))]
            d = I.destloc(st, fr, nid)
            I.wr(st, d, ('addr', ('descobj', o)))
            return [('ret', st, d)]
        if nm in ('getElementType', 'getType') and o is not None and o[0] == 'descobj':
            return [('ret', st, self.attr(o[1], nm, 0, 20))]
        if nm in ('getStructure', 'getUnion') and o is not None and o[0] == 'descobj':
            d = I.destloc(st, fr, nid) if n.get('c') and not n.get('lv') else None
            t = self.attr(o[1], 'elem', 1, MAX)
            if d is not None:
                I.wr(st, d, t)
                return [('ret', st, d)]
            l = ('ecell', o[1])
            st.mem[l] = t
            return [('ret', st, l)]
        return None

    # --- vectors: size, where the elements come from
    def vec(self, st, L):
        v = st.mem.get(('gh', 'vec', L))
        if v is None:
            t = ('attr', 'vsize', L)
            lin.setrange(t, 0, MAX)
            v = (t, ('unknown',))
        return v

    def setvec(self, st, L, size, what, keep=False):
        st.mem[('gh', 'vec', L)] = (size, what)

    def copyvec(self, I, st, src, dst, move=False):
        v = self.vec(st, src)
        st.mem[('gh', 'vec', dst)] = v
        if move:
            self.setvec(st, src, C0, ('none',))

    def index(self, I, st, fr, nid, n, L, i, nm):
        size, what = self.vec(st, L)
        i = I.num(i)
        rd = what[0] == 'view'
        if not I.mute:
            self.n['read' if rd else 'write'] += 1
        self.lemmas(I, st, (i, size))
        lo = I.ge0(st, i)
        hi = I.ge0(st, sub(sub(size, C1), i))
        ok = bool(lo and hi)
        if not ok and nm == 'at':
            ok = True
        if not ok and not self.exact(I, i):
            ok = None
        I.oblige('inside', fr, nid, 'read' if rd else 'write', ok,
                 'an element is %s an index that is not known to be inside the %s' % (
                     'read from the source at' if rd else 'written at', 'source' if rd else 'new contents'))
        if ok:
            self.nowrap(I, st, fr, nid, 'index', i)
        return [('ret', st, ('idx', ('fld', L, '#el'), i))]

    def exact(self, I, t):
        """no loop variable in it whose range is lost"""
        return not lin.mentions(t, lambda x: x[0] in ('phi', 'hv') and x not in I.counted)

    def nowrap(self, I, st, fr, nid, what, t):
        t = I.num(t)
        _, d = lin.parts(t)
        if any(lin.mentions(x, lambda y: y[0] == 'mul') for x in d):
            self.lemmas(I, st, (t,))
            ok = bool(I.ge0(st, sub(c(MAX), t)))
            if not ok and not self.exact(I, t):
                ok = None
            I.oblige('no-wrap', fr, nid, what, ok, 'the %s computed from the caller\'s offset, count and stride may wrap around' % what)

    def lemmas(self, I, st, ts):
        """products with a common factor s >= 1 (unsigned): i < q gives i*s + s <= q*s"""
        prods = {}
        cnt = [0]

        def scan(t):
            for a in lin.parts(t)[1]:
                if a[0] == 'mul':
                    for s, x in ((a[1], a[2]), (a[2], a[1])):
                        prods.setdefault(s, set()).add(x)
                elif a[0] == 'max':
                    for y in a[1:]:
                        scan(y)
        for t in ts:
            scan(t)
        for k in st.facts:
            scan(k)
        for s in list(prods):
            if not I.ge0(st, sub(s, C1)):
                continue
            xs = sorted(prods[s], key=repr)
            for x in xs:
                if I.ge0(st, lin.scale(x, -1)):
                    I.fact(st, lin.scale(mul(x, s), -1))
            qs = set(xs)
            for k in list(st.facts):
                for a in lin.parts(k)[1]:
                    if a[0] == 'div' and a[2] == s:
                        qs.add(a)
            for q in sorted(qs, key=repr):
                if q[0] == 'div':
                    I.fact(st, sub(q[1], mul(q, s)))       # q*s <= dividend
                for x in xs:
                    if x == q:
                        continue
                    if I.ge0(st, sub(sub(q, x), C1)):
                        I.fact(st, sub(sub(mul(q, s), mul(x, s)), s))
                    elif I.ge0(st, sub(q, x)):
                        I.fact(st, sub(mul(q, s), mul(x, s)))

    # --- storing into the destination
    def params(self, I, fr):
        """of the outermost copy()"""
        while fr.parent is not None:
            fr = fr.parent
        return fr

    def stored(self, I, st, fr, nid, o, L):
        if not I.mute:
            self.n['replace'] += 1
        im = self.attr(o, 'immutable', 0, 1)
        I.oblige('mutable', fr, nid, 'replace', I.truth(st, ('cmp', '==', im)) is True,
                 'the destination is changed on a path where it may be immutable')
        size, what = self.vec(st, L)
        self.lemmas(I, st, (size,))
        I.oblige('kept', fr, nid, 'replace', what[0] == 'own' and bool(I.ge0(st, sub(size, self.attr(o, 'length')))) if what[0] != 'unknown' else None,
                 'the destination may lose elements it had')
        top = self.params(I, fr)
        ps = top.fn.params
        P = [('init', ('var', top.id, x)) for x in ps]
        src = None
        for g, v in st.mem.items():
            if g[:2] == ('gh', 'vec') and v[1][0] == 'view' and v[1][1] != o:
                src = v[1][1]
        if src is None:
            I.oblige('same-type', fr, nid, 'source', None)
        else:
            # element types
            t = strip_elem(fr.fn.vars[fr.fn.params[0]]['t'])
            if t not in TYPE or fr.parent is not None:
                e1, e2 = (self.attr(src, 'elem', 1, MAX), self.attr(o, 'elem', 1, MAX)) if t not in TYPE else \
                    (self.attr(src, 'getElementType', 0, 20), self.attr(o, 'getElementType', 0, 20))
                I.oblige('same-type', fr, nid, 'elements', bool(I.ge0(st, sub(e1, e2)) and I.ge0(st, sub(e2, e1))),
                         'elements are copied between fields whose element types were not compared')
            if t in TYPE and fr.parent is not None:
                I.oblige('same-type', fr, nid, 'accessors', bool(I.ge0(st, sub(e1, c(TYPE[t]))) and I.ge0(st, sub(c(TYPE[t]), e1))),
                         'fields are accessed as another element type than the one they have')
        for i in (2, 5):
            I.oblige('stride', fr, nid, 'from' if i == 2 else 'to', bool(I.ge0(st, sub(P[i], C1))),
                     'the copy goes on with a stride that may be zero')


def strip_elem(t):
    t = t.replace('const ', '').rstrip(' &')
    i = t.find('PVValueArray<')
    return t[i + 13:-1] if i >= 0 else t


def run(ctx):
    p = ctx.p
    fs = [f for f in p.by_q.get(NS + 'copy', []) if len(f.params) == 7]
    ctx.require(len(fs) >= 17, 'only %d overloads of copy()' % len(fs))
    k = 0
    for f in sorted(fs, key=lambda f: f.qt + f.vars[f.params[0]]['t']):
        cl = Copy(fs)
        I = Interp(p, cl, 300000)
        fr = I.frame(f, None, None, None)
        st = State()
        for i, x in enumerate(f.params):
            if i not in (0, 3):
                lin.setrange(('init', ('var', fr.id, x)), 0, MAX)
            elif 'shared_ptr' in f.vars[x]['t'] and 'PVValueArray' not in f.vars[x]['t']:
                st.mem[('var', fr.id, x)] = ('addr', ('cell', i))
                st.mem[('cell', i)] = ('addr', ('object', i))
            else:
                st.mem[('var', fr.id, x)] = ('addr', ('object', i))
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('analysed', f.qt, None)
            continue
        ctx.seen(f)
        ctx.absorb(I)
        t = f.vars[f.params[0]]['t']
        if 'PVArray' not in t and 'PVScalarArray' not in t:
            ctx.require(cl.n['read'] >= 1 and cl.n['write'] >= 1 and cl.n['replace'] >= 1,
                        '%s: accesses not found: %s' % (t, cl.n))
        k += sum(cl.n.values())
    ctx.info['element_accesses_and_stores'] = k
    ctx.assume += ['sums of sizes of existing arrays do not wrap around', 'allocation does not fail']

