"""Consistency of selector and value of the union field, by abstract interpretation of all its members over the class invariant.

Invariant: a variant union has the undefined selector; a regular union has the undefined selector and no value, or a selector
inside the member range and a value whose type is (or equals) that member's type. Each member that can write the selector
or the value is run from every state that satisfies the invariant, with every argument and every number received from a
peer; the invariant must hold on each way out, including when creating or decoding a value fails. The constructor
establishes it. No other function writes the two members."""
from pv import lin
from pv.lin import c, add, sub
from pv.interp import Interp, Client, State, Budget, strip_t
from .arrfld import NS, THIS, methods

U = NS + 'PVUnion'
C0 = c(0)
UNDEF = c(-1)


def ftype(v):
    """the type description of a data object"""
    if v[0] == 'pvof':
        return v[1]
    return ('ftype', v)


class C(Client):
    max_depth = 6

    def inline(self, I, fn, fr):
        r = fr
        while r.parent:
            r = r.parent
        return fn.cls == U or (fn.file == r.fn.file and not (fn.cls or '').startswith(NS)) or \
            (fn.cls in (NS + 'PVField',) and fn.n in ('getField', 'isImmutable'))

    def nfields(self):
        v = ('nfields',)
        lin.setrange(v, 0, (1 << 31) - 1)
        return v

    def obj_of(self, I, st, L):
        """value behind an object location"""
        if L[0] == 'deref':
            return L[1]
        return ('addr', L)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm, q = n.get('fname') or '', strip_t(n.get('fq') or '')
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]

        def ret(v, s=st):
            if n.get('c') and not n.get('lv'):
                d = I.destloc(s, fr, nid)
                s.mem[d] = v
                return [('ret', s, d)]
            if n.get('lv'):
                t = ('tmp', fr.id, nid)
                s.mem[t] = v
                return [('ret', s, t)]
            return [('ret', s, v)]
        if q == NS + 'PVField::postPut':
            return [('ret', st, C0)]
        if nm == 'createPVField' and n.get('mem'):
            bad = st.fork()
            v = ('pvof', val(0), fr.id, nid)
            lin.setrange(v, 1, None)
            return ret(v) + [('throw', bad, 'std::exception')]
        if nm == 'getField' and obj is not None and n.get('cls') == NS + 'PVField':
            v = ftype(self.obj_of(I, st, obj))
            lin.setrange(v, 1, None)
            return ret(v)
        if nm == 'getField' and n.get('cls') == NS + 'Union' and args and fr.fn.nodes[args[0][0]].get('w'):
            i = val(0)
            k = self.nfields()
            outs = []
            if i[0] == 'cast' and i[1] == 'u64':
                # a negative number converts to more than any count: inside the range both are the same
                i = i[2]
            ok, bad = st.fork(), st.fork()
            inside = I.assume(ok, ('cmp', '>=', i), True) and I.assume(ok, ('cmp', '>=', sub(sub(k, i), c(1))), True)
            if inside:
                v = ('member', i)
                lin.setrange(v, 1, None)
                outs += ret(v, ok)
            if not (I.ge0(bad, i) and I.ge0(bad, sub(sub(k, i), c(1)))):
                outs.append(('throw', bad, 'std::out_of_range'))
            return outs
        if nm == 'getFieldName' and n.get('cls') == NS + 'Union':
            i = val(0)
            I.oblige('index-in-range', fr, nid, 'member name', bool(I.ge0(st, i) and I.ge0(st, sub(sub(self.nfields(), i), c(1)))),
                     'the name of a member is asked for with an index that may be outside the union')
            return None
        if nm == 'getFieldIndex' and n.get('cls') == NS + 'Union':
            v = ('hv', fr.id, nid, 'ix')
            lin.setrange(v, -1, None)
            outs = []
            s = st.fork()
            if I.assume(s, ('cmp', '==', add(v, c(1))), True):
                outs.append(('ret', s, I.intcast(s, {'w': 64, 'u': True}, c(-1)) if n.get('u') else c(-1)))
            s = st
            I.assume(s, ('cmp', '>=', v), True)
            I.assume(s, ('cmp', '>=', sub(sub(self.nfields(), v), c(1))), True)
            outs.append(('ret', s, v))
            return outs
        if nm == 'getFields' and n.get('cls') == NS + 'Union':
            t = ('fields',)
            st.mem[('fld', t, '#n')] = self.nfields()
            return [('ret', st, t)]
        if nm == 'getNumberFields' and n.get('cls') == NS + 'Union':
            return [('ret', st, self.nfields())]
        if nm == 'isVariant':
            lin.setrange(('variant', 'from' if obj is not None and self.frm and self.of_from(obj) else 'this'), 0, 1)
            return [('ret', st, ('variant', 'this'))]
        if nm == 'readSize':
            bad = st.fork()
            v = ('hv', fr.id, nid, 'size')
            lin.setrange(v, 0, (1 << 64) - 1)
            return [('ret', st, v), ('throw', bad, 'std::exception')]
        if nm in ('deserialize', 'cachedDeserialize', 'copyUnchecked', 'serialize', 'cachedSerialize') and (n.get('virt') or n.get('cls') == NS + 'PVField'):
            if not nm.startswith('cached') and obj is not None and obj[0] == 'deref':
                I.oblige('value-present', fr, nid, 'call on the value', I.truth(st, I.compare(st, obj[1], C0, '!=')) is True,
                         'a value is used that may be absent')
            bad = st.fork()
            if nm == 'cachedDeserialize':
                v = ('hv', fr.id, nid, 'field')
                lin.setrange(v, 0, None)
                return ret(v) + [('throw', bad, 'std::exception')]
            return [('ret', st, C0), ('throw', bad, 'std::exception')]
        if nm in ('operator!=', 'operator==') and len(args) == 2 and 'Field' in fr.fn.nodes[args[0][0]]['t'] and 'shared_ptr' not in fr.fn.nodes[args[0][0]]['t']:
            x, y = self.obj_of(I, st, args[0][1]), self.obj_of(I, st, args[1][1])
            x, y = sorted((x, y), key=lin.okey)
            t = ('fieldeq', x, y)
            lin.setrange(t, 0, 1)
            if x == y:
                t = c(1)
            return [('ret', st, t if nm == 'operator==' else ('c', 1 - t[1]) if t[0] == 'c' else ('not', t))]
        if n.get('noret'):
            return None
        return None

    frm = None

    def of_from(self, obj):
        return False


def holds(I, s, sel, v, variant):
    """None if the invariant holds, else what is wrong"""
    if variant:
        return None if I.ge0(s, sub(sel, UNDEF)) and I.ge0(s, sub(UNDEF, sel)) else 'a variant union has a selector'
    s0 = s.fork()
    undef = I.assume(s0, ('cmp', '==', sub(sel, UNDEF)), True)
    if undef:
        if I.truth(s0, I.compare(s0, v, C0, '==')) is not True:
            return 'the selector can be undefined while there is a value'
    s1 = s.fork()
    if I.assume(s1, ('cmp', '==', sub(sel, UNDEF)), False):
        k = ('nfields',)
        if not (I.ge0(s1, sel) and I.ge0(s1, sub(sub(k, sel), c(1)))):
            return 'the selector can be outside the members'
        if I.truth(s1, I.compare(s1, v, C0, '!=')) is not True:
            return 'a member is selected while there is no value'
        t = ftype(v)

        def is_sel(m):
            return m[0] == 'member' and I.ge0(s1, sub(m[1], sel)) and I.ge0(s1, sub(sel, m[1]))
        if is_sel(t):
            return None
        for m in list(s1.facts):
            if m[0] == 'fieldeq' and t in m[1:] and I.truth(s1, m) is True:
                o = m[2] if m[1] == t else m[1]
                if is_sel(o):
                    return None
        # pointer equality of type descriptions
        for m in members(I, s1):
            if is_sel(m) and I.truth(s1, I.compare(s1, t, m, '==')) is True:
                return None
        return 'the value can have another type than the selected member'
    return None


def members(I, s):
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] == 'member':
                out.add(t)
            for x in t:
                walk(x)
    for t in list(s.facts):
        walk(t)
    for v in s.mem.values():
        walk(v)
    walk(tuple(s.lin) if hasattr(s, 'lin') else ())
    return out


def run(ctx):
    p = ctx.p
    rec = p.rec_qt.get(U)
    ctx.require(rec, 'class PVUnion not found')
    sel = [x['q'] for x in rec['fields'] if x['t'] == 'int']
    val = [x['q'] for x in rec['fields'] if x['t'].startswith('std::shared_ptr<') and 'PVField' in x['t'] and not x.get('static')]
    var = [x['q'] for x in rec['fields'] if x['t'] == 'bool']
    ctx.require(len(sel) == len(val) == len(var) == 1, 'selector, value and variant members of PVUnion not found')
    S, V, R = (('fld', THIS, x[0]) for x in (sel, val, var))
    und = [g for g in p.globs.values() if g['q'] == U + '::UNDEFINED_INDEX']
    ctx.require(und, 'PVUnion::UNDEFINED_INDEX not found')
    ctx.ob('constant', 'UNDEFINED_INDEX', und[0].get('val') == -1 and und[0].get('const'), 'UNDEFINED_INDEX is not the constant -1')
    fs = [f for f in p.fns.values() if f.cls == U and f.blocks and not f.d.get('implicit') and not f.n.startswith('~') and not f.d.get('static')]
    names = {f.n for f in fs}
    ctx.require({'select', 'set', 'deserialize', 'copyUnchecked'} <= names, 'operations of PVUnion not found')
    k = 0

    def states(I, fr, other=None):
        """all start states that satisfy the invariant (for this and, when given, for the other union)"""
        def one(st, L):
            S_, V_, R_ = (('fld', L, x[0]) for x in (sel, val, var))
            out = []
            lin.setrange(('init', V_), 0, None)
            a = st.fork()
            a.mem[R_], a.mem[S_] = c(1), UNDEF
            out.append(('variant', a))
            a = st.fork()
            a.mem[R_], a.mem[S_], a.mem[V_] = c(0), UNDEF, C0
            out.append(('undefined', a))
            a = st.fork()
            a.mem[R_] = c(0)
            lin.setrange(('init', S_), 0, (1 << 31) - 1)
            I.fact(a, sub(sub(('nfields',), ('init', S_)), c(1)))
            I.assume(a, ('cmp', '==', ('init', V_)), False)
            out.append(('selected', a))
            return out
        st = State()
        lin.setrange(('nfields',), 0, (1 << 31) - 1)
        res = []
        for nm, a in one(st, THIS):
            if other is None:
                res.append((nm, a))
            else:
                for nm2, b in one(a, other):
                    if (nm == 'variant') == (nm2 == 'variant'):
                        res.append((nm + '/' + nm2, b))
        return res

    for f in sorted(fs, key=lambda f: (f.l, f.qt)):
        ctor = 'ctor' in f.d
        cl = C()
        I = Interp(p, cl, budget=60000)
        fr = I.frame(f, None, None, THIS)
        other = None
        for v in f.params:
            if strip_t(f.vars[v]['t'].replace('const ', '').rstrip(' &')) == U:
                other = I.deref(('init', ('var', fr.id, v)))
        todo = states(I, fr, other)
        if ctor:
            s = State()
            todo = [('new', s)]
        for nm, st in todo:
            # the constant has the value -1
            for g in und:
                st.mem[('glob', g['usr'])] = UNDEF
            I = Interp(p, cl, budget=60000)
            if 'selected' in nm.split('/')[0]:
                t = ('fieldeq',) + tuple(sorted((ftype(('init', V)), ('member', ('init', S))), key=lin.okey))
                lin.setrange(t, 0, 1)
                I.assume(st, t, True)
            if other is not None and nm.endswith('selected'):
                t = ('fieldeq',) + tuple(sorted((ftype(('init', ('fld', other, val[0]))), ('member', ('init', ('fld', other, sel[0])))), key=lin.okey))
                lin.setrange(t, 0, 1)
                I.assume(st, t, True)
            vb = ('variant', 'this')
            lin.setrange(vb, 0, 1)
            if not ctor:
                I.assume(st, ('cmp', '==', sub(vb, c(1 if nm.startswith('variant') else 0))), True)
            try:
                outs = I.run_fn(fr, st)
            except Budget:
                ctx.ob('invariant', '%s from %s' % (f.qt, nm), None)
                continue
            ctx.absorb(I)
            ctx.seen(f)
            k += 1
            for kind, s, v in outs:
                if ctor and kind == 'throw':
                    continue
                vs = [nm == 'variant' or nm.startswith('variant')] if not ctor else [True, False]
                for isv in vs:
                    s2 = s.fork()
                    if ctor and not I.assume(s2, I.rd(s2, R), isv):
                        continue
                    w = holds(I, s2, I.rd(s2, S), I.rd(s2, V), isv)
                    ctx.ob('invariant', '%s(%d) from %s: %s' % (f.qt, len(f.params), nm, kind), w is None,
                           '%s on %s of %s() (union was: %s)' % (w, 'return' if kind == 'ret' else 'an error out', f.n, nm), f)
                    if not ctor:
                        ctx.ob('kind-constant', '%s(%d) from %s' % (f.qt, len(f.params), nm), I.rd(s2, R) == c(1 if isv else 0),
                               '%s() changes the kind of the union' % f.n, f)
    # nobody else writes
    w = 0
    for f in p.fns.values():
        if f.cls == U:
            continue
        for nid, n in f.nodes.items():
            if n['k'] == 'MemberExpr' and n.get('m') in (sel[0], val[0], var[0]):
                w += 1
                ctx.ob('writers', '%s %s' % (f.qt, n['l']), False, 'selector or value of a union is accessed outside the class', f, n['l'])
    ctx.ob('writers', 'all functions')
    ctx.info['operations'] = k
    ctx.assume += ['a value handed to a variant union is not null unless meant so', 'FieldCreate shares equal type descriptions (C07)']
