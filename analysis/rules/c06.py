"""Objects are treated as a more specific kind only after their kind was established.

Every unchecked downcast between descriptions or between data fields (static_pointer_cast, static_cast, C-style cast) is interpreted on every
path of the function it is in, with parameters about which nothing is known but their declared class. At the cast the kind must follow from
what the path established: the kind tag (and scalar type) compared, a checked conversion that succeeded, creation by the path itself, the
class of `this`, or the rule that a data field of a class has a description of the matching class. Functions local to a file that leave a
cast open are judged in the functions that call them. The constructors that make the tags and the matching true are checked as well."""
from pv import lin, models
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t
from rules.objs import NS, C0, C1, World, bare, ELEM

TAG = {'Scalar': 'scalar', 'ScalarArray': 'scalarArray', 'Structure': 'structure', 'StructureArray': 'structureArray', 'Union': 'union_',
       'UnionArray': 'unionArray'}
PV = {'PVScalar': 'Scalar', 'PVScalarArray': 'ScalarArray', 'PVStructure': 'Structure', 'PVValueArray<std::shared_ptr<epics::pvData::PVStructure>>': 'StructureArray',
      'PVUnion': 'Union', 'PVValueArray<std::shared_ptr<epics::pvData::PVUnion>>': 'UnionArray'}
FT, FLD = NS + 'Field::m_fieldType', NS + 'PVField::field'
STY = {'Scalar': NS + 'Scalar::scalarType', 'ScalarArray': NS + 'ScalarArray::elementType'}

KEY = {FT, FLD} | set(STY.values())
RANGE = {FT: 5, STY['Scalar']: 11, STY['ScalarArray']: 11}


class Kinds(Client):
    max_depth = 6
    cap = 20

    def __init__(self, w, roots):
        self.w, self.p = w, w.p
        self.types = {}            # location -> declared class
        self.local = roots
        self.scalars = {NS + 'PVString': ('Scalar', 'pvString')}
        for k, e in ELEM.items():
            self.scalars[NS + 'PVScalarValue<%s>' % e] = ('Scalar', k)
            self.scalars[NS + 'PVValueArray<%s>' % e] = ('ScalarArray', k)

    def inline(self, I, fn, fr):
        if not (fn.q.startswith('epics::') or '(anonymous' in fn.q or fn.usr in self.local):
            return False
        if fn.usr in self.local:
            return True
        if is_local(fn) and bare(fn.d.get('rt') or '') in (NS + 'Field', NS + 'PVField', NS + 'PVScalar', NS + 'PVScalarArray', NS + 'Array'):
            return True
        if is_local(fn) and fn.d.get('rt') == 'bool' and any('Field' in fn.vars[v]['t'] or 'PV' in fn.vars[v]['t'] or 'Structure' in fn.vars[v]['t'] for v in fn.params) \
                and not any(n.get('fn') == fn.usr for n in fn.nodes.values()):
            return len(fn.blocks) <= 20
        return fn.cls is not None and len(fn.blocks) <= 4

    def begin(self, fr):
        f = fr.fn
        if f.cls and fr.this is not None:
            self.types[fr.this] = f.cls
            if f.n == 'copyUnchecked' and f.params and bare(f.vars[f.params[0]]['t']) == f.cls:
                self.pairs.append((fr.this, ('deref', ('init', ('var', fr.id, f.params[0])))))

    # ---- what is known about the object at L
    def classes(self, I, st, L):
        """classes the object at L is known to be of"""
        out = set(k[3] for k, v in st.mem.items() if k[0] == 'gh' and k[1] == 'is' and k[2] == L and v == C1)
        out |= self.ret.get(L, set())
        if L in self.types:
            out.add(self.types[L])
        if L[0] == 'new':
            f = next((x.fn for x in I.frames.values() if x.id == L[1]), None)
            if f is not None and L[2] in f.nodes:
                out.add(bare(f.nodes[L[2]]['t']))
        if L[0] in ('var', 'tmp'):
            f = next((x.fn for x in I.frames.values() if x.id == L[1]), None)
            if f is not None and L[0] == 'var' and L[2] in f.vars:
                out.add(bare(f.vars[L[2]]['t']))
        return out

    def tag(self, I, st, L, q, k):
        t = I.rd(st, ('fld', L, q))
        d = sub(t, c(k))
        if I.truth(st, ('cmp', '==', d)) is True:
            return True
        return d[0] != 'c' and lin.entails(st.facts, d) and lin.entails(st.facts, sub(c(k), t))

    def same(self, I, st, L):
        """locations of objects known to be the one at L"""
        yield L
        if L[0] != 'deref':
            return
        for M in list(self.pvs) + list(self.types):
            F = I.rd(st, ('fld', M, FLD))
            if F != L[1] and F[0] != 'addr' and I.truth(st, ('cmp', '==', sub(F, L[1]))) is True:
                yield I.deref(F)

    def on_loop(self, I, fr, h, st, backs, phis, outs):
        """a tag that every pass of a counting loop finds in the element it looks at is that of all elements counted"""
        for l, ph in phis.items():
            v0 = I.rd(st, l)
            it = v0[0] == 'addr' and v0[1][0] == 'idx' and v0[1][2] == C0
            if not backs or not (it or v0 == C0) or any(I.rd(b, l) != lin.add(ph, C1) for b in backs):
                continue
            vs = {v0[1][1]} if it else set()
            for k in list(backs[0].facts) if not it else ():
                find(k, ph, vs)
            for V in vs:
                F = ('deref', ('init', ('deref', ph) if it else ('idx', V, ph)))
                for k in self.w.types.values():
                    if all(self.tag(I, b, F, FT, k) for b in backs):
                        for s in outs:
                            s.mem[('gh', 'all', V, ph, k)] = C1
                        I.rel.clear()
                        I.sizes.add(ph if it else ('fld', V, '#n'))

    def all_tagged(self, I, st, V, k):
        n = I.rd(st, ('fld', V, '#n'))
        return any(x[0] == 'gh' and x[1] == 'all' and x[2] == V and x[4] == k and v == C1 and
                   (lin.entails(st.facts, sub(x[3], n)) or I.truth(st, ('cmp', '==', sub(x[3], ('addr', ('idx', V, n))))) is True)
                   for x, v in list(st.mem.items()))

    def described(self, I, st, L):
        """the description of the member L of a structure is the member of its description at the same place"""
        if L[0] == 'deref' and L[1][0] == 'init' and L[1][1][0] == 'idx' and L[1][1][1][0] == 'fld' and L[1][1][1][2] == NS + 'PVStructure::pvFields':
            P, i = L[1][1][1][1], L[1][1][2]
            for q in (FLD, NS + 'PVStructure::structurePtr'):
                S = I.rd(st, ('fld', P, q))
                while S[0] == 'dyn':
                    S = S[2]
                yield I.deref(I.rd(st, ('idx', ('fld', I.deref(S), NS + 'Structure::fields'), i)))

    def is_field(self, I, st, L, t, deep=True):
        n = t.replace(NS, '')
        if n in TAG and L[0] == 'deref' and L[1][0] == 'init' and L[1][1][0] == 'idx' and self.all_tagged(I, st, L[1][1][1], self.w.types[TAG[n]]):
            return True
        if any(self.w.isa(x, t) for x in self.classes(I, st, L)):
            return True
        for M in self.same(I, st, L):
            if n in TAG and self.tag(I, st, M, FT, self.w.types[TAG[n]]):
                return True
            if deep and M[0] == 'deref':
                Ps = list(self.pvs)
                if M[1][0] == 'init' and M[1][1][0] == 'fld' and M[1][1][2] == FLD:
                    Ps.append(M[1][1][1])
                for P in Ps:
                    if I.rd(st, ('fld', P, FLD)) == M[1]:
                        for pv, fc in PV.items():
                            if self.w.isa(NS + fc, t) and self.is_pv(I, st, P, NS + pv if pv.startswith('PV') else pv, False):
                                return True
        return False

    def twin(self, I, L):
        """the member of the other object that corresponds to the member L, in functions that are given two objects of one type"""
        if L[0] != 'deref' or L[1][0] != 'init' or L[1][1][0] != 'idx' or L[1][1][1][0] != 'fld':
            return None
        q, i, P = L[1][1][1][2], L[1][1][2], L[1][1][1][1]
        for a, b in self.pairs:
            for x, y in ((a, b), (b, a)):
                if P == x:
                    return ('deref', ('init', ('idx', ('fld', y, q), i)))
        return None

    def is_pv(self, I, st, L, t, deep=True):
        if any(self.w.isa(x, t) for x in self.classes(I, st, L)):
            return True
        if t == NS + 'PVStructure':
            for M in (L, self.twin(I, L)):
                if self.nf.get(M) is not None and I.truth(st, ('cmp', '==', sub(self.nf[M], C1))) is False:
                    return True                # only structures are numbered as more than one field
        F = I.rd(st, ('fld', L, FLD))
        if F == C0:
            return False
        FL = I.deref(F)
        for pv, fc in PV.items():
            if t == NS + pv:
                return deep and any(self.is_field(I, st, x, NS + fc, False) for x in [FL] + list(self.described(I, st, L)))
        if t == NS + 'PVString':
            t = NS + 'PVScalarValue<%s>' % ELEM['pvString']       # all of them are made so (see `made`)
        el = t[t.index('<') + 1:-1] if t.endswith('>') else None
        k = next((k for k, e in ELEM.items() if e == el), None)
        if k is None:
            return False
        base = 'Scalar' if 'PVScalarValue<' in t else 'ScalarArray'
        if not self.is_pv(I, st, L, NS + 'PV' + base) and not self.is_field(I, st, FL, NS + base):
            return False
        return any(self.tag(I, st, M, STY[base], self.w.scalars[k]) for M in self.same(I, st, FL))

    # ---- hooks
    def on_read(self, I, st, fr, nid, L):
        if L[0] == 'fld' and L[2] == FLD:
            self.pvs[L[1]] = 1
        if L[0] == 'fld' and L[2] in RANGE:
            v = I.rd(st, L)
            if v[0] in ('init', 'prj', 'hv'):
                lin.setrange(v, 0, RANGE[L[2]])

    def on_cast(self, I, st, fr, nid, n, v):
        if n.get('ck') == 'Dynamic' or v == C0:
            return
        t = bare(n['t']) if n.get('ck') else bare((n.get('targs') or [n['t']])[0])
        ft = bare(n['ft']) if n.get('ft') else bare(n['targs'][1])
        pvc = self.w.isa(t, NS + 'PVField')
        if t not in self.p.rec_qt or not (pvc or self.w.isa(t, NS + 'Field')):
            return
        L = I.deref(v)
        if self.w.isa(ft, t):
            return
        w = v
        while w[0] == 'dyn':
            if self.w.isa(bare(w[1]), t):
                return
            w = w[2]
        ok = False
        for T in list(self.p.rec_qt):
            if self.w.isa(T, t):
                for x in (T + ' *', 'const ' + T + ' *', 'const ' + T, T):
                    d = ('dyn', x, w)
                    if self.seen_dyn.get(d) and I.truth(st, ('cmp', '==', d)) is False:
                        ok = True
        if pvc:
            self.pvs.setdefault(L, 1)
        ok = ok or (self.is_pv if pvc else self.is_field)(I, st, L, t)
        self.note(fr, nid, ok)

    def note(self, fr, nid, ok):
        key = (fr.fn.usr, nid)
        self.done[key] = self.done.get(key, True) and ok
        if not ok:
            self.where.setdefault(key, set()).add(self.root.usr)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        fq = strip_t(n.get('fq') or '')
        if n['k'] == 'CXXConstructExpr' and not fr.fn.d.get('ctor') and bare(n['t']) in self.scalars and args:
            t = bare(n['t'])
            base, k = self.scalars[t]
            v = I.rd(st, args[0][1]) if args[0][2] else args[0][1]
            ok = v[0] != 'c' and any(self.tag(I, st, M, STY[base], self.w.scalars[k]) for M in self.same(I, st, I.deref(v))) \
                and (k != 'pvString' or base != 'Scalar' or t == NS + 'PVString')
            self.note(fr, nid, ok)
        if not fq.startswith(NS):
            return None
        if nm == 'getNumberFields' and obj is not None:
            t = ('nf', obj)
            lin.setrange(t, 1, (1 << 31) - 1)
            self.nf[obj] = t
            return [('ret', st, t)]
        if nm in ('compare', 'operator==', 'operator!=') and len(args) == 2 and n.get('pk') == ['r', 'r'] or nm == 'compare' and len(args) == 2:
            x, y = args[0][1], args[1][1]
            fx = bare(fr.fn.nodes[args[0][0]]['t'])
            if fx in self.p.rec_qt and self.w.isa(fx, NS + 'Field'):
                no = st.fork()
                out = [('ret', no, C1 if nm == 'operator!=' else C0)]
                d = sub(I.rd(st, ('fld', x, FT)), I.rd(st, ('fld', y, FT)))
                for T in list(self.p.rec_qt):
                    if self.w.isa(T, NS + 'Field') and (self.is_field(I, st, x, T) or self.is_field(I, st, y, T)):
                        st.mem[('gh', 'is', x, T)] = C1
                        st.mem[('gh', 'is', y, T)] = C1
                if d[0] == 'c' or I.assume(st, ('cmp', '==', d), True):
                    out.append(('ret', st, C0 if nm == 'operator!=' else C1))
                return out
        if nm in ('createPVScalar', 'createPVScalarArray') and args:
            v = I.rd(st, args[0][1]) if args[0][2] else args[0][1]
            if v[0] == 'c' and 'shared_ptr' in (n.get('t') or ''):
                k = next((k for k, x in self.w.scalars.items() if x == v[1]), None)
                if k:
                    o = ('made', fr.id, nid)
                    t = 'PVValueArray<%s>' % ELEM[k] if nm == 'createPVScalarArray' else 'PVString' if k == 'pvString' else 'PVScalarValue<%s>' % ELEM[k]
                    st.mem[('gh', 'is', o, NS + t)] = C1
                    return models.ret(I, st, fr, nid, n, ('addr', o))
        return None

    def post_call(self, I, st, fr, nid, n, args, val):
        t = n.get('t') or ''
        if val is not None and ('shared_ptr<' in t or t.endswith('*')) and val[0] not in ('c', 'addr', 'dyn'):
            v = I.rd(st, val) if val[0] in ('tmp', 'var', 'fld', 'idx') else val
            b = bare(t)
            if v[0] not in ('c', 'addr', 'dyn') and b in self.p.rec_qt:
                self.ret.setdefault(I.deref(v), set()).add(b)
        return val

    def dyncast(self, I, st, fr, nid, n, v, t):
        self.seen_dyn[('dyn', strip(t), v)] = True
        self.seen_dyn[('dyn', t, v)] = True
        if v[0] == 'addr':
            cs = self.classes(I, st, v[1])
            if any(self.w.isa(x, bare(t)) for x in cs):
                return v
        return None


class KInterp(Interp):
    """remembers only conditions that say something about the kind of an object"""
    def __init__(self, *a):
        Interp.__init__(self, *a)
        self.rel = {}
        self.sizes = set()

    def relevant(self, v):
        r = self.rel.get(v)
        if r is None and isinstance(v, tuple) and len(v) == 3 and v[0] == 'var':
            f = next((x.fn for x in self.frames.values() if x.id == v[1]), None)
            r = self.rel[v] = f is not None and v[2] in f.vars and bare(f.vars[v[2]]['t']) in (NS + 'Type', NS + 'ScalarType')
        elif r is None:
            r = self.rel[v] = v in KEY or v in ('dyn', 'nf', 'is') if isinstance(v, str) else isinstance(v, tuple) and (v in self.sizes or any(self.relevant(x) for x in v))
        return r

    def assume(self, st, v, truth):
        if self.relevant(v):
            return Interp.assume(self, st, v, truth)
        t = None if v[0] not in ('c', 'addr', 'newp', 'str', 'not', 'cmp') else self.truth(st, v) if v[0] != 'cmp' or v[2][0] == 'c' else None
        return t is None or t == truth


def find(t, ph, out):
    """arrays whose element at ph the term t is about"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'idx' and t[2] == ph:
            out.add(t[1])
        for x in t:
            find(x, ph, out)


def strip(t):
    return t[6:] if t.startswith('const ') and not t.endswith('*') else t


def sites(p, w, f):
    """unchecked casts in f to a description or data field class that is not a base of what is cast"""
    for i, n in f.nodes.items():
        if n.get('ck') == 'BaseToDerived' and 'ft' in n:
            t, ft = bare(n['t']), bare(n['ft'])
        elif n.get('fname') == 'static_pointer_cast' and 'Call' in n['k']:
            t, ft = bare(n['targs'][0]), bare(n['targs'][1])
        else:
            continue
        if t in p.rec_qt and (w.isa(t, NS + 'PVField') or w.isa(t, NS + 'Field')) and not w.isa(ft, t):
            yield i, n, ft, t


def is_local(f):
    return '(anonymous' in f.q or f.usr.startswith('c:') and '.cpp@' in f.usr.split('#')[0].split('@N@')[0] or f.d.get('acc') in ('private', 'protected')


def run(ctx):
    p = ctx.p
    w = World(p)
    S = {}
    for f in p.fns.values():
        if f.blocks:
            x = list(sites(p, w, f))
            if x:
                S[f.usr] = x
    ctx.require(len(S) >= 30, 'casts not found')
    callers = {}
    for f in p.fns.values():
        for n in f.nodes.values():
            if n.get('fn') and f.blocks:
                callers.setdefault(n['fn'], set()).add(f.usr)
    for r in p.rec_qt.values():
        for x in r['fields']:
            if bare(x['t']) in (NS + 'Type', NS + 'ScalarType'):
                KEY.add(x['q'])
    cl = Kinds(w, set())
    I = None
    cl.done, cl.where, cl.seen_dyn, cl.pvs = {}, {}, {}, {}
    tables = set()
    for g in p.globs.values():
        if 'yajl_callbacks' in (g.get('t') or ''):
            tables |= {n['fn'] for n in g['nodes'].values() if n.get('fn')}
    built = {}
    for f in p.fns.values():
        if not f.d.get('ctor'):
            for i, n in f.nodes.items():
                t = bare(n['t']) if n['k'] == 'CXXConstructExpr' and n.get('fq') else None
                if t in cl.scalars and n['fq'].rsplit('::', 1)[0] == t:
                    built.setdefault(f.usr, []).append((i, t))
    todo, tried = [(u, u) for u in sorted(set(S) | set(built))], set()
    while todo:
        u, why = todo.pop()
        if u in tried:
            continue
        tried.add(u)
        f = p.fns[u]
        cl.root = f
        cl.types, cl.pvs, cl.seen_dyn, cl.nf, cl.ret = {}, {}, {}, {}, {}
        cl.pairs = []
        I = KInterp(p, cl, 300000)
        fr = I.frame(f, None, None, ('cb', 'this') if f.cls else None)
        cl.begin(fr)
        I.run_fn(fr, State())
        ctx.seen(f)
        for key in [k for k, ok in cl.done.items() if not ok and u in cl.where.get(k, ())]:
            if is_local(f) and (callers.get(u, set()) - {u} or u in tables):
                cl.done.pop(key)
                cl.where.pop(key)
                if u not in cl.local and u not in tables:
                    cl.local.add(u)
                    for x in callers[u] - {u}:
                        tried.discard(x)
                        todo.append((x, u))
    n = 0
    for u, xs in sorted(S.items(), key=lambda x: p.fns[x[0]].l):
        f = p.fns[u]
        for i, nd, ft, t in xs:
            ok = cl.done.get((u, i))
            if ok is None:
                ctx.info.setdefault('never reached, or judged by the rule for the callbacks of the JSON parsers', []).append('%s: %s' % (f.q, t))
                continue
            n += 1
            ctx.ob('cast', '%s: %s as %s' % (f.q, ft.replace(NS, ''), t.replace(NS, '')), ok, '%s is treated as %s on a path on which nothing has established that it is one' % (
                ft.replace(NS, ''), t.replace(NS, '')), f, nd.get('l'))
    ctx.require(n >= 40, 'only %d casts judged' % n)
    constructors(ctx, w)
    made(ctx, w, cl, built)


class Ctor(Client):
    max_depth = 6

    def __init__(self, bases):
        self.bases, self.got = bases, {}

    def inline(self, I, g, fr):
        return bool(g.d.get('ctor')) and g.cls in self.bases

    def on_write(self, I, st, fr, nid, loc, val):
        if loc in (('fld', ('cb', 'this'), FLD), ('fld', ('cb', 'this'), FT)):
            self.got[loc[2]] = val


def constructors(ctx, w):
    """the tag and the description an object carries are those of its class, whatever constructed it"""
    p = ctx.p
    N = 0
    for f in p.fns.values():
        if not f.d.get('ctor') or not f.blocks or not f.cls:
            continue
        ps = [bare(f.vars[v]['t']) for v in f.params]
        if ps == [f.cls]:
            continue                                       # copy: of an object of the class
        if w.isa(f.cls, NS + 'Field') and f.cls != NS + 'Field' or w.isa(f.cls, NS + 'PVField') and f.cls != NS + 'PVField':
            bases = {x for x in p.rec_qt if w.isa(f.cls, x)}
            cc = Ctor(bases)
            I = Interp(p, cc, 100000)
            fr = I.frame(f, None, None, ('cb', 'this'))
            outs = [o for o in I.run_fn(fr, State()) if o[0] == 'ret']
            ctx.seen(f)
            N += 1
            if w.isa(f.cls, NS + 'Field'):
                for _, st, _v in outs:
                    t = cc.got.get(FT)
                    base = next((k for k in TAG if w.isa(f.cls, NS + k)), None)
                    if base:
                        ctx.ob('tag', '%s: the kind tag set by the constructor' % f.cls, t == c(w.types[TAG[base]]),
                               'a %s is tagged as another kind' % f.cls.replace(NS, ''), f)
            else:
                base = next((fc for pv, fc in PV.items() if w.isa(f.cls, NS + pv if pv.startswith('PV') and '<' not in pv else pv_name(pv))), None)
                if base is None:
                    continue
                for _, st, _v in outs:
                    v = cc.got.get(FLD)
                    ok = False
                    for x, y in zip(f.params, ps):
                        if v == ('init', ('var', fr.id, x)) or v == I.rd(st, ('deref', ('init', ('var', fr.id, x)))):
                            ok = y in p.rec_qt and w.isa(y, NS + base)
                    ctx.ob('description', '%s: the description given to the constructor' % f.cls, ok,
                           'a %s is given a description that need not be a %s' % (f.cls.replace(NS, ''), base), f)
    ctx.require(N >= 12, 'constructors not found')


def pv_name(x):
    return x.replace('PVValueArray', NS + 'PVValueArray', 1)


def made(ctx, w, cl, built):
    """data fields of one scalar type are constructed only for a description of that scalar type, and know their own code"""
    p = ctx.p
    n = 0
    for u, xs in sorted(built.items(), key=lambda x: p.fns[x[0]].l):
        f = p.fns[u]
        for i, t in xs:
            ok = cl.done.get((u, i))
            n += 1
            ctx.ob('made', '%s: constructs %s' % (f.q, t.replace(NS, '')), bool(ok),
                   'a %s is constructed where the description is not known to be of that scalar type' % t.replace(NS, ''), f, f.nodes[i].get('l'))
    ctx.require(n >= 24, 'constructions of data fields not found')
    n = 0
    for k, e in ELEM.items():
        for t in ('PVScalarValue<%s>' % e, 'PVValueArray<%s>' % e):
            for g in p.globs.values():
                if g.get('q') == NS + t + '::typeCode':
                    n += 1
                    ctx.ob('code', t + '::typeCode', g.get('val') == w.scalars[k], 'the code of this type is %s, not that of %s' % (g.get('val'), k), None, g.get('l'))
    ctx.require(n >= 24, 'type codes not found')
