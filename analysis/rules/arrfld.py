"""shared pieces of the rules about values of data fields (arrays, scalars)

The storage class shared_vector is replaced by a token model: every vector location has a token (which elements it holds)
and a length; copying, freezing, thawing and swapping move tokens around, modifying makes a new token."""
from pv import lin
from pv.lin import c, add, sub
from pv.interp import Interp, Client, State, strip_t

NS = 'epics::pvData::'
SV = (NS + 'shared_vector<', NS + 'detail::shared_vector_base<')
PVA = NS + 'PVValueArray<'
PVS = NS + 'PVScalarValue<'
THIS = ('this0',)
C0, C1 = c(0), c(1)
VARIABLE, FIXED, BOUNDED = 'variable', 'fixed', 'bounded'
BASES = tuple(NS + x for x in ('PVArray', 'PVField', 'PVScalarArray', 'PVScalar', 'PVString', 'PVUnion'))
CHILD_CHANGE = ('copyUnchecked', 'copy', '_putFromVoid', 'replace', 'put', 'putFrom', 'assign', 'swap', 'select', 'set', 'deserialize')
LEN = ('fld', THIS, '#length0')


def is_sv(t):
    t = (t or '').replace('const ' + NS, NS, 1)
    return t.startswith(SV)


def lineage(p, cls):
    """cls and its bases, nearest first"""
    out, todo = [], [cls]
    while todo:
        k = todo.pop(0)
        if k in out:
            continue
        out.append(k)
        r = p.rec_qt.get(k)
        todo += [b.get('t') or b.get('c') if isinstance(b, dict) else b for b in (r or {}).get('bases', [])]
    return out


class FieldClient(Client):
    max_depth = 9
    cls = None            # dynamic class of *this
    state = ()            # qualified names of the members that are the value
    asz = None            # enumerators of Array::ArraySizeType by name
    variable_only = False

    def inline(self, I, fn, fr):
        q = fn.cls or ''
        if q == self.cls or q.startswith((PVA, PVS, NS + 'detail::PVVectorStorage<', NS + 'detail::ScalarStorageOps<')) or q in BASES:
            return True
        r = fr
        while r.parent:
            r = r.parent
        return fn.file == r.fn.file and not q.startswith(NS) and not fn.d.get('ctor')

    # ---- value of the field
    def mine(self, loc):
        while loc[0] in ('fld', 'idx', 'base'):
            if loc[0] == 'fld' and loc[1] == THIS:
                return loc[2] in self.state
            loc = loc[1]
        return False

    def changed(self, I, st, fr=None, nid=None):
        st.mem[('gh', 'changed')] = C1
        st.mem[('gh', 'posted')] = C0

    def on_write(self, I, st, fr, nid, loc, val):
        if nid is not None and self.mine(loc):
            if val is not None and val == I.__dict__.get('_old'):
                return
            self.changed(I, st, fr, nid)

    def devirt(self, I, st, fr, nid, n, obj):
        if obj != THIS or not self.cls:
            return None
        f = I.p.fns.get(n['fn'])
        over = [I.p.fns[u] for u in I.p.overriders(n['fn']) if u in I.p.fns] + ([f] if f else [])
        for k in lineage(I.p, self.cls):
            for g in over:
                if g.cls == k:
                    return self.ok(g, fr) if g.blocks else None
        return None

    def ok(self, f, fr):
        x = fr
        while x:
            if x.fn is f:
                return None
            x = x.parent
        return f if fr.depth < self.max_depth else None

    # ---- the vector model
    def tok(self, I, st, L):
        return I.rd(st, ('fld', L, '#tok'))

    def len(self, I, st, L):
        v = I.rd(st, ('fld', L, '#len'))
        lin.setrange(v, 0, (1 << 60))
        return v

    def set(self, I, st, fr, nid, L, tok, ln):
        st.mem[('fld', L, '#tok')] = tok
        st.mem[('fld', L, '#len')] = ln
        if self.mine(L):
            self.changed(I, st, fr, nid)

    def thrown(self, I, st, fr, nid, n):
        return None

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        q = strip_t(n.get('fq') or '')
        if q == NS + 'PVField::postPut':
            st.mem[('gh', 'posts')] = add(I.rd(st, ('gh', 'posts')), C1)
            if obj == THIS:
                st.mem[('gh', 'posted')] = C1
            return [('ret', st, C0)]
        if nm == 'getArraySizeType' and obj is not None:
            lin.setrange(('asz',), min(self.asz.values()), max(self.asz.values()))
            return [('ret', st, c(self.asz[VARIABLE]) if self.variable_only else ('asz',))]
        if nm == 'getMaximumCapacity' and obj is not None:
            lin.setrange(('maxcap',), 0, (1 << 60))
            return [('ret', st, ('maxcap',))]
        if q in (NS + 'freeze', NS + 'thaw') and args:
            d = I.destloc(st, fr, nid)
            L = args[0][1]
            t, k = self.tok(I, st, L), self.len(I, st, L)
            self.set(I, st, fr, nid, L, C0, C0)
            self.set(I, st, fr, nid, d, t, k)
            return [('ret', st, d)]
        if q in (NS + 'shared_vector_convert', NS + 'static_shared_vector_cast') and args:
            d = I.destloc(st, fr, nid)
            self.set(I, st, fr, nid, d, ('conv', self.tok(I, st, args[0][1])), self.len(I, st, args[0][1]))
            return [('ret', st, d)]
        if is_sv(n.get('cls')) or (n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and is_sv(n.get('t'))):
            r = self.vector(I, st, fr, nid, n, obj, args, nm)
            if r is not None:
                return r
        if q == 'std::swap' and len(args) == 2 and is_sv(fr.fn.nodes[args[0][0]]['t']):
            self.swap2(I, st, fr, nid, args[0][1], args[1][1])
            return [('ret', st, C0)]
        return None

    def swap2(self, I, st, fr, nid, A, B):
        x = self.tok(I, st, A), self.len(I, st, A)
        y = self.tok(I, st, B), self.len(I, st, B)
        self.set(I, st, fr, nid, A, *y)
        self.set(I, st, fr, nid, B, *x)

    def vector(self, I, st, fr, nid, n, obj, args, nm):
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            d = I.destloc(st, fr, nid)
            real = [x for x in args if fr.fn.nodes[x[0]]['k'] != 'CXXDefaultArgExpr']
            if not real:
                self.set(I, st, fr, nid, d, C0, C0)
            elif is_sv(fr.fn.nodes[real[0][0]]['t']):
                L = real[0][1]
                t, k = self.tok(I, st, L), self.len(I, st, L)
                if n.get('move'):
                    self.set(I, st, fr, nid, L, C0, C0)
                self.set(I, st, fr, nid, d, t, k)
            elif fr.fn.nodes[real[0][0]].get('w'):
                self.set(I, st, fr, nid, d, ('new', fr.id, nid), I.aval(st, fr, real[0]))
            else:
                self.set(I, st, fr, nid, d, ('new', fr.id, nid), ('hv', fr.id, nid, 'len'))
            return [('ret', st, d)]
        if obj is None:
            return None
        L = obj
        if nm == 'swap':
            self.swap2(I, st, fr, nid, L, args[0][1])
            return [('ret', st, C0)]
        if nm == 'operator=':
            t, k = self.tok(I, st, args[0][1]), self.len(I, st, args[0][1])
            if (n.get('pk') or ['v'])[0] == 'm':
                self.set(I, st, fr, nid, args[0][1], C0, C0)
            self.set(I, st, fr, nid, L, t, k)
            return [('ret', st, L)]
        if nm == 'size':
            return [('ret', st, self.len(I, st, L))]
        if nm == 'empty':
            return [('ret', st, I.compare(st, self.len(I, st, L), C0, '=='))]
        if nm == 'resize':
            self.set(I, st, fr, nid, L, ('mod', fr.id, nid), I.aval(st, fr, args[0]))
            return [('ret', st, C0)]
        if nm in ('push_back', 'pop_back'):
            self.set(I, st, fr, nid, L, ('mod', fr.id, nid), add(self.len(I, st, L), C1 if nm == 'push_back' else c(-1)))
            return [('ret', st, C0)]
        if nm == 'clear':
            self.set(I, st, fr, nid, L, C0, C0)
            return [('ret', st, C0)]
        if nm == 'slice':
            k = self.len(I, st, L)
            o = I.aval(st, fr, args[0])
            m = I.aval(st, fr, args[1]) if len(args) > 1 and fr.fn.nodes[args[1][0]]['k'] != 'CXXDefaultArgExpr' else None
            outs = []
            # documented: offset limited to the size, then the length to what is left
            for otrue in (True, False):
                s = st.fork()
                if not I.assume(s, ('cmp', '>=', sub(k, o)), otrue):
                    continue
                left = sub(k, o) if otrue else C0
                if m is None:
                    self.set(I, s, fr, nid, L, ('mod', fr.id, nid), left)
                    outs.append(('ret', s, C0))
                    continue
                for mtrue in (True, False):
                    s2 = s.fork()
                    if I.assume(s2, ('cmp', '>=', sub(left, m)), mtrue):
                        self.set(I, s2, fr, nid, L, ('mod', fr.id, nid), m if mtrue else left)
                        outs.append(('ret', s2, C0))
            return outs
        if nm in ('reserve', 'make_unique'):
            return [('ret', st, C0)]
        if nm == 'capacity':
            v = ('cap', self.tok(I, st, L))
            lin.setrange(v, 0, (1 << 60))
            return [('ret', st, v)]
        if nm == 'unique':
            v = ('uniq', self.tok(I, st, L))
            lin.setrange(v, 0, 1)
            return [('ret', st, v)]
        if nm in ('operator[]', 'at', 'front', 'back'):
            i = I.aval(st, fr, args[0]) if args else (C0 if nm == 'front' else sub(self.len(I, st, L), C1))
            self.element(I, st, fr, nid, L, i, nm)
            t = self.tok(I, st, L)
            return [('ret', st, ('idx', ('deref', ('store', t)), i))]
        if nm in ('begin', 'data', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
            t = self.tok(I, st, L)
            k = self.len(I, st, L)
            v = ('addr', ('idx', ('deref', ('store', t)), k if 'end' in nm else C0))
            if n.get('c') and not n.get('lv'):
                d = I.destloc(st, fr, nid)
                st.mem[d] = v
                return [('ret', st, d)]
            return [('ret', st, v)]
        return None

    def element(self, I, st, fr, nid, L, i, nm):
        pass


def sizes(ctx):
    en = [e for e in ctx.p.enums.values() if e['q'].endswith('Array::ArraySizeType')]
    ctx.require(en, 'enum Array::ArraySizeType not found')
    by = {v['n'].split('::')[-1]: v['v'] for v in en[0]['vals']}
    ctx.require(set(by) >= {VARIABLE, FIXED, BOUNDED}, 'array size types not found')
    return by


def always_variable(ctx, q):
    """does q::getArraySizeType() return 'variable' for every object"""
    p = ctx.p
    fs = [f for f in p.fns.values() if f.cls == q and f.n == 'getArraySizeType' and f.blocks]
    if len(fs) != 1 or p.all_subclasses(q_usr(p, q)):
        return False
    I = Interp(p, Client())
    outs = I.run_fn(I.frame(fs[0], None, None, THIS), State())
    return bool(outs) and all(k == 'ret' and v == c(sizes(ctx)[VARIABLE]) for k, s, v in outs)


def q_usr(p, q):
    r = p.rec_qt.get(q)
    return r.get('usr') if r else None


def array_classes(ctx):
    cs = sorted({f.cls for f in ctx.p.fns.values() if f.cls and f.cls.startswith(PVA) and f.blocks})
    ctx.require(len(cs) >= 14, 'array field classes not found')
    return cs


def methods(p, cls):
    return sorted((f for f in p.fns.values() if f.cls == cls and f.blocks and not f.n.startswith('~') and 'ctor' not in f.d
                   and not f.d.get('implicit') and not f.d.get('static')), key=lambda f: (f.l, f.qt))


def start(ctx, cl, cls, state):
    """interpreter start state for a method of array/scalar field class cls"""
    cl.cls = cls
    cl.state = state
    st = State()
    st.mem[('gh', 'changed')] = C0
    st.mem[('gh', 'posted')] = C1
    st.mem[('gh', 'posts')] = C0
    return st


def value_member(ctx, cls):
    """the member that holds the elements of an array field"""
    p = ctx.p
    rec = p.rec_qt.get(cls)
    ctx.require(rec, 'class %s not found' % cls)
    fs = [x for x in rec['fields'] if is_sv(x['t'])]
    ctx.require(len(fs) == 1, 'value member of %s not found' % cls)
    return fs[0]['q']


def name(f):
    return '%s(%s)' % (f.qt.replace(NS, ''), ', '.join(f.vars[v]['t'].replace(NS, '').replace('const ', '').split('<')[0] for v in f.params))
