"""Type and value equality, by abstract interpretation on exact pairs of objects.

compare() of two field descriptions and operator== of two data fields are interpreted for every pair of classes, with every data member
a symbol of its own (small numbers of members and elements). A path that answers true must have established that every attribute of the
two is equal; one that answers false, that some attribute differs. Attributes are taken from the class definitions themselves."""
import itertools
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, State, strip_t
from rules import objs
from rules.objs import NS, C0, C1, World, ObjClient, setvec, setsv, bare

FIELD = {'Scalar': 'scalar', 'BoundedString': 'scalar', 'ScalarArray': 'scalarArray', 'BoundedScalarArray': 'scalarArray',
         'FixedScalarArray': 'scalarArray', 'Structure': 'structure', 'StructureArray': 'structureArray', 'Union': 'union_',
         'UnionArray': 'unionArray'}
NOT_ATTR = (NS + 'Field::m_fieldType', NS + 'Field::m_hash')


class C(ObjClient):
    def __init__(self, w, deep):
        ObjClient.__init__(self, w)
        self.deep = deep
        self.nested = 0

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        if len(args) == 2 and nm in ('compare', 'operator==', 'operator!=') and (n.get('fq') or '').startswith(NS):
            x, y = args[0][1], args[1][1]
            for z in (x, y):
                if z == ('deref', C0):
                    I.oblige('null', fr, nid, 'comparison', False, 'a missing member is compared as if it were there')
                    return []
            tgt = self.w.p.fns.get(n.get('fn'))
            if x in self.w.opaque or y in self.w.opaque:
                isf = lambda o: self.w.isa(self.w.cls[o], NS + 'Field')
                if x in self.w.cls and y in self.w.cls and not (nm != 'compare' and isf(x)):
                    self.nested += 1
                    return self.fork_eq(I, st, x, y, nm == 'operator!=')
        return ObjClient.pre_call(self, I, st, fr, nid, n, a)

    def fork_eq(self, I, st, x, y, neg=False):
        if x == y:
            return [('ret', st, C0 if neg else C1)]
        k = ('gh', 'eq', frozenset((x, y)))
        outs = []
        for v in (0, 1):
            s = st.fork()
            if k in st.mem and st.mem[k] != c(v):
                continue
            s.mem[k] = c(v)
            outs.append(('ret', s, c(1 - v) if neg else c(v)))
        return outs


def opaque_field(w, name, cls):
    return w.add(name, NS + cls, opaque=True)


class Builder(object):
    def __init__(self, p):
        self.p = p

    def field(self, w, st, name, cls, k, share, nullchild=False):
        """a description of class cls with k members; share: names of children shared with the other object"""
        p = self.p
        L = w.add(name, NS + cls)
        st.mem[('fld', L, NS + 'Field::m_fieldType')] = c(w.types[FIELD[cls]])
        for f in w.fields(NS + cls):
            q, t = f['q'], f['t']
            if q in NOT_ATTR:
                continue
            loc = ('fld', L, q)
            if t.startswith('std::vector<') and 'shared_ptr' in t:
                ch = []
                for i in range(k):
                    nm = 'shared.f%d' % i if i in share else '%s.f%d' % (name, i)
                    ch.append(('addr', opaque_field(w, nm, 'Field')))
                setvec(st, loc, ch)
            elif t.startswith('std::vector<') and 'basic_string' in t:
                setvec(st, loc, [('init', ('idx', loc, c(i))) for i in range(k)])
            elif 'shared_ptr<' in t:
                nm = 'shared.' + q if 0 in share else name + '.' + q
                st.mem[loc] = ('addr', opaque_field(w, nm, bare(t).split('::')[-1]))
            elif cls == 'BoundedString' and q.endswith('scalarType'):
                st.mem[loc] = c(w.scalars['pvString'])
            elif 'ScalarType' in t:
                lin.setrange(('init', loc), 0, 11)
            else:
                lin.setrange(('init', loc), 0, None)
        return L

    def attrs(self, w, clsA, A, clsB, B):
        """[(name, type, locA, locB)]"""
        out = []
        for f in w.fields(clsA):
            if f['q'] in NOT_ATTR:
                continue
            out.append((f['q'].split('::')[-1], f['t'], ('fld', A, f['q']), ('fld', B, f['q'])))
        return out


def known(I, cl, st, t, x, y):
    """True/False/None: are the values of type t at x and y equal"""
    if t.startswith('std::vector<'):
        m, n = st.mem.get(('fld', x, '#n')), st.mem.get(('fld', y, '#n'))
        if m != n:
            return False
        et = t[len('std::vector<'):]
        rs = [known(I, cl, st, et, ('idx', x, c(i)), ('idx', y, c(i))) for i in range(m[1])]
        return False if False in rs else None if None in rs else True
    a, b = I.rd(st, x), I.rd(st, y)
    if 'shared_ptr<' in t:
        if a == b:
            return True
        if C0 in (a, b):
            return False
        v = st.mem.get(('gh', 'eq', frozenset((a[1], b[1]))))
        if v is None:
            # two descriptions with the same content are one object (C07); two values are only equal when compared
            return False if cl.w.isa(cl.w.cls[a[1]], NS + 'Field') else None
        return v == C1
    v = cl.same(I, st, a, b, t)
    return I.truth(st, v)


def judge(ctx, I, cl, what, fn, outs, attrs, must_differ, both):
    """both: false answers are judged too"""
    n = 0
    for k, s, v in outs:
        if k == 'throw':
            ctx.ob('no-throw', what, False, 'comparing throws %s' % v, fn)
            continue
        for tr in (True, False):
            s2 = s.fork()
            if not I.assume(s2, v, tr):
                continue
            n += 1
            if must_differ:
                if tr:
                    ctx.ob('different-kind', what, False, '%s: two objects of different kind compare equal' % what, fn)
                continue
            ks = [(nm, known(I, cl, s2, t, x, y)) for nm, t, x, y in attrs]
            if tr:
                bad = [nm for nm, r in ks if r is not True]
                ctx.ob('compared', what, not bad, '%s: equal although %s %s not found equal' % (what, ', '.join(bad), 'was' if len(bad) == 1 else 'were'), fn)
            elif both:
                ok = any(r is False for nm, r in ks)
                ctx.ob('reason', what, ok, '%s: not equal although no attribute is known to differ' % what, fn)
    return n


def loc_of_var(I, fr, args, st):
    for vid, o in zip(fr.fn.params, args):
        V = fr.fn.vars[vid]
        st.mem[('var', fr.id, vid)] = ('addr', o)


def run(ctx):
    p = ctx.p
    w0 = World(p)
    B = Builder(p)
    ctx.require(all(NS + k in p.rec_qt for k in FIELD), 'classes of field descriptions not found')
    # every class of field description is in the list
    for u in p.all_subclasses(next(r for r in p.recs.values() if r['qt'] == NS + 'Field')['usr']):
        r = p.recs[u]
        n = r['qt'].replace(NS, '')
        if n == 'Array':
            continue
        ctx.ob('classes', n, True if n in FIELD else None)
    fns = []
    for f in sorted(p.by_q.get(NS + 'compare', []) + p.by_q.get(NS + 'operator==', []), key=lambda f: f.l):
        if len(f.params) != 2 or not f.blocks:
            continue
        t = bare(f.vars[f.params[0]]['t'])
        if bare(f.vars[f.params[1]]['t']) == t and w0.isa(t, NS + 'Field'):
            fns.append((f, t))
    ctx.require(len([f for f, t in fns if f.n == 'compare']) >= 8, 'compare() functions not found')
    ndone = 0
    nests = 0
    for f, t in fns:
        both = f.n == 'compare'
        for ca, cb in itertools.product(sorted(FIELD), repeat=2):
            if not (w0.isa(NS + ca, t) and w0.isa(NS + cb, t)):
                continue
            ctx.seen(f)
            composite = ca == cb and ca in ('Structure', 'Union')
            ks = [(0, 0), (1, 1), (2, 2), (1, 2), (2, 1), (0, 1)] if composite else [(1, 1)]
            if ctx.tier == 'thorough' and composite:
                ks += [(3, 3), (3, 2)]
            for ka, kb in ks:
                shares = [s for r in range(3 + (ka > 2)) for s in itertools.combinations(range(max(ka, kb)), r)] if ca == cb else [()]
                for sh in shares + (['same'] if ca == cb else []):
                    w = World(p)
                    st = State()
                    A = B.field(w, st, 'A', ca, ka, sh if sh != 'same' else ())
                    Bo = A if sh == 'same' else B.field(w, st, 'B', cb, kb, sh)
                    cl = C(w, None)
                    I = Interp(p, cl, 200000)
                    fr = I.frame(f, None, None, None)
                    loc_of_var(I, fr, (A, Bo), st)
                    outs = I.run_fn(fr, st)
                    what = '%s(%s): %s/%s' % (f.n, t.replace(NS, ''), ca, cb)
                    at = B.attrs(w, NS + ca, A, NS + cb, Bo) if ca == cb else []
                    ctx.require(outs or any(v is False for v in I.obl.values()), what + ': no outcome')
                    ndone += judge(ctx, I, cl, what, f, outs, at, ca != cb, both)
                    nests += cl.nested
                    ctx.absorb(I)
    ctx.info['answers of type comparison judged'] = ndone
    values(ctx, p)


def pvclasses(p, w):
    """[(class, field class, scalar type or None)]"""
    out = []
    for s, e in objs.ELEM.items():
        q = NS + 'PVString' if s == 'pvString' else NS + 'PVScalarValue<%s>' % e
        out.append((q, 'Scalar', s))
        out.append((NS + 'PVValueArray<%s>' % e, 'ScalarArray', s))
    out.append((NS + 'PVValueArray<std::shared_ptr<%sPVStructure>>' % NS, 'StructureArray', None))
    out.append((NS + 'PVValueArray<std::shared_ptr<%sPVUnion>>' % NS, 'UnionArray', None))
    out.append((NS + 'PVStructure', 'Structure', None))
    out.append((NS + 'PVUnion', 'Union', None))
    return [x for x in out if x[0] in p.rec_qt]


class Val(object):
    """data fields"""

    def __init__(self, p):
        self.p = p

    def make(self, w, st, name, pc, fc, s, shape, ftype):
        """shape: class specific; ftype: name of the field description"""
        p = self.p
        L = w.add(name, pc)
        F = ('cb', ftype)
        if F not in w.cls:
            b = Builder(p)
            k = shape.get('members', 0)
            b.field(w, st, ftype, fc, k, ())
            if s is not None:
                st.mem[('fld', F, NS + ('Scalar::scalarType' if fc == 'Scalar' else 'ScalarArray::elementType'))] = c(w.scalars[s])
            if fc == 'Union' and shape.get('variant'):
                setvec(st, ('fld', F, NS + 'Union::fieldNames'), [])
                setvec(st, ('fld', F, NS + 'Union::fields'), [])
            sub = shape.get('sub')
            for f in w.fields(NS + fc):
                if sub and f['q'].endswith(('::pstructure', '::punion')):
                    st.mem[('fld', F, f['q'])] = ('addr', w.add(sub, bare(f['t']), opaque=True))
        st.mem[('fld', L, NS + 'PVField::field')] = ('addr', F)
        vals = []
        for f in w.fields(pc):
            q, t = f['q'], f['t']
            loc = ('fld', L, q)
            m = q.split('::')[-1]
            if m in ('structurePtr', 'unionPtr', 'structureArray', 'unionArray'):
                st.mem[loc] = ('addr', F)
            elif m == 'storage':
                vals.append((m, next(g['t'] for g in p.rec_qt[t]['fields'] if g['q'].endswith('::value')), ('fld', loc, t + '::value')))
            elif m == 'value' and 'shared_vector' in t:
                D = ('cb', 'data.' + name)
                es = []
                if shape.get('elems') is None:
                    es = [('init', ('idx', D, c(i))) for i in range(shape['n'])]
                else:
                    for i, e in enumerate(shape['elems']):
                        es.append(C0 if e == 'null' else ('addr', w.add(('shared.e%d' if e == 'share' else name + '.e%d') % i, bare(objs.svec.elem_of(t)), opaque=True)))
                o = setsv(p, st, loc, t, D, es)
                vals.append(('elements', 'std::vector<' + objs.svec.elem_of(t), D))
            elif m == 'pvFields':
                es = []
                for i, e in enumerate(shape['elems']):
                    es.append(('addr', w.add(('shared.e%d' if e == 'share' else name + '.e%d') % i, NS + 'PVField', opaque=True)))
                setvec(st, loc, es)
                vals.append((m, t, loc))
            elif m == 'selector':
                st.mem[loc] = c(shape['sel'])
                vals.append((m, t, loc))
            elif m == 'variant':
                st.mem[loc] = c(int(bool(shape.get('variant'))))
            elif m == 'value' and pc == NS + 'PVUnion':
                e = shape['value']
                st.mem[loc] = C0 if e == 'null' else ('addr', w.add('shared.v' if e == 'share' else name + '.v', NS + 'PVField', opaque=True))
                vals.append((m, t, loc))
        return L, vals


def shapes(pc, fc, thorough):
    """pairs of shapes, and whether the two have the same type"""
    if fc == 'Scalar':
        return [({}, {}, ty) for ty in (True, False)]
    ns = (0, 1, 2) if not thorough else (0, 1, 2, 3)
    if fc == 'ScalarArray':
        return [({'n': a}, {'n': b}, ty) for a in ns for b in ns for ty in (True, False)]
    ch = ('null', 'own', 'share')
    if fc in ('StructureArray', 'UnionArray'):
        out = []
        seqs = [s for k in (0, 1, 2) for s in itertools.product(ch, repeat=k)]
        for a in seqs:
            for b in seqs:
                if abs(len(a) - len(b)) > 1 and len(a) + len(b) > 2:
                    continue
                out.append(({'elems': a, 'sub': 'S'}, {'elems': b, 'sub': 'S'}, True))
        out.append(({'elems': ('share',), 'sub': 'S'}, {'elems': ('share',), 'sub': 'T'}, False))
        out.append(({'elems': (), 'sub': 'S'}, {'elems': (), 'sub': 'T'}, False))
        return out
    if fc == 'Structure':
        out = []
        for k in (0, 1, 2):
            for a in itertools.product(('own', 'share'), repeat=k):
                out.append(({'members': k, 'elems': a}, {'members': k, 'elems': a}, True))
        out.append(({'members': 1, 'elems': ('own',)}, {'members': 2, 'elems': ('own', 'own')}, False))
        out.append(({'members': 1, 'elems': ('share',)}, {'members': 1, 'elems': ('share',)}, False))
        out.append(({'members': 0, 'elems': ()}, {'members': 0, 'elems': ()}, False))
        return out
    if fc == 'Union':
        out = []
        for a in ch:
            for b in ch:
                out.append(({'variant': 1, 'sel': -1, 'value': a}, {'variant': 1, 'sel': -1, 'value': b}, True))
        sel = [(-1, 'null')] + [(i, e) for i in (0, 1) for e in ('own', 'share')]
        for i, a in sel:
            for j, b in sel:
                for ty in (True, False):
                    out.append(({'members': 2, 'sel': i, 'value': a}, {'members': 2, 'sel': j, 'value': b}, ty))
        out.append(({'variant': 1, 'sel': -1, 'value': 'share'}, {'members': 2, 'sel': 0, 'value': 'share'}, False))
        out.append(({'variant': 1, 'sel': -1, 'value': 'null'}, {'members': 2, 'sel': -1, 'value': 'null'}, False))
        return out


def values(ctx, p):
    w0 = World(p)
    fns = [f for f in p.by_q.get(NS + 'operator==', []) if len(f.params) == 2 and w0.isa(bare(f.vars[f.params[0]]['t']), NS + 'PVField') and f.blocks]
    ctx.require(len(fns) == 1, 'operator== of data fields not found')
    f = fns[0]
    ctx.seen(f)
    V = Val(p)
    pcs = pvclasses(p, w0)
    ctx.require(len(pcs) == 28, 'classes of data fields not found')
    n = 0

    def go(a, b, sa, sb, ty, same=False):
        w, st = World(p), State()
        A, va = V.make(w, st, 'A', a[0], a[1], a[2], sa, 'FA')
        if same:
            Bo, vb = A, va
        else:
            Bo, vb = V.make(w, st, 'B', b[0], b[1], b[2], sb, 'FA' if ty and a == b else 'FB')
        cl = C(w, None)
        I = Interp(p, cl, 300000)
        fr = I.frame(f, None, None, None)
        loc_of_var(I, fr, (A, Bo), st)
        outs = I.run_fn(fr, st)
        what = 'operator==: %s/%s' % tuple(x[0].replace(NS, '').replace(objs.STR, 'string') for x in (a, b))
        ctx.require(outs or any(v is False for v in I.obl.values()), what + ': no outcome')
        # for scalars and scalar arrays the element type is the type; elsewhere the description
        differ = a != b or not ty and a[1] not in ('Scalar', 'ScalarArray')
        at = [(x[0], x[1], x[2], y[2]) for x, y in zip(va, vb)] if a == b else []
        k = judge(ctx, I, cl, what, f, outs, at, differ, True)
        ctx.absorb(I)
        return k

    for a in pcs:
        for sa, sb, ty in shapes(a[0], a[1], ctx.tier == 'thorough'):
            n += go(a, a, sa, sb, ty)
        n += go(a, a, shapes(a[0], a[1], False)[0][0], None, True, True)
    first = {a: shapes(a[0], a[1], False)[0][0] for a in pcs}
    for a in pcs:
        for b in pcs:
            if a != b:
                n += go(a, b, first[a], first[b], False)
    ctx.info['answers of value comparison judged'] = n
