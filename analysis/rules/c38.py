"""Member coverage of copy, move, swap and reset, by abstract interpretation with every data member (bases and member objects of
the library's own classes included) as one symbolic cell.

copy/move construction and assignment must leave every cell of the target with the source's cell; a copy leaves the source
alone; swap must exchange every cell; reset()/clear() must give every cell that any other member function can change the value
the default constructor gives it. All user-written functions of these kinds in all classes of the library are analysed."""
from pv import lin
from pv.lin import c
from pv.interp import Interp, Client, State, Budget, strip_t

THIS = ('this0',)
EMPTY = ('empty',)
# clear() of these is not a reset of the whole object (documented): ByteBuffer::clear() only resets the cursor (C01);
# the tagged storage of AnyScalar is decided by C34
SKIP = {'epics::pvData::ByteBuffer': ('clear',), 'epics::pvData::AnyScalar': None}


def own(t):
    t = strip_t(t.replace('const ', '').strip())
    return t.startswith('epics::') and 'shared_ptr' not in t[:20]


class C(Client):
    max_depth = 8

    def __init__(self, p):
        self.p = p

    def inline(self, I, fn, fr):
        return (fn.cls or '').startswith(('epics::', 'detail::')) or not fn.cls and fn.q.startswith('epics::') and fn.n in ('swap',)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            f = self.p.fns.get(n.get('fn'))
            if f is not None and f.blocks and self.inline(I, f, fr):
                return None
            d = I.destloc(st, fr, nid)
            if n.get('defarg'):
                pass
            if not args:
                self.put(I, st, d, EMPTY, n['t'])
                return [('ret', st, d)]
            if len(args) >= 1:
                x = args[0]
                v = I.rd(st, x[1]) if x[2] else x[1]
                same = strip_t(fr.fn.nodes[x[0]]['t'].replace('const ', '')) == strip_t(n['t'].replace('const ', ''))
                vs = [I.rd(st, y[1]) if y[2] else y[1] for y in args]
                if same and len(args) == 1 and x[2]:
                    self.copy(I, st, d, x[1], n['t'])
                else:
                    st.mem[d] = ('from',) + tuple(vs)
                return [('ret', st, d)]
        if n.get('noret'):
            return None
        if nm in ('seekp', 'seekg', 'reserve') and obj is not None:
            return [('ret', st, obj)]
        if nm == 'assign' and obj is not None and len(args) == 2:
            x, y = ((I.rd(st, w[1]) if w[2] else w[1]) for w in args)
            if x[:2] == ('of', 'begin') and y[:2] == ('of', 'end') and x[2] == y[2]:
                st.mem[obj] = x[2]
                return [('ret', st, obj)]
        q = n.get('fq') or ''
        if nm in ('move', 'forward') and len(args) == 1 and args[0][2]:
            return [('ret', st, args[0][1])]
        if nm == 'swap' and not (n.get('cls') or '').startswith('epics::'):
            locs = ([obj] if obj is not None else []) + [x[1] for x in args if x[2]]
            if len(locs) == 2:
                self.swap(I, st, locs[0], locs[1], fr.fn.nodes[args[-1][0]]['t'])
                return [('ret', st, C0)]
        if nm == 'operator=' and len(args) >= 1 and not (n.get('cls') or '').startswith(('epics::',)):
            if obj is None and len(args) == 2 and args[0][2]:
                obj, args = args[0][1], args[1:]
            if obj is not None:
                x = args[0]
                t = fr.fn.nodes[x[0]]['t']
                same = x[2] and strip_t(t.replace('const ', '')) == strip_t((n.get('cls') or n['t']).replace('const ', ''))
                if same or x[2]:
                    v = I.rd(st, x[1])
                    st.mem[obj] = v
                else:
                    st.mem[obj] = x[1]
                return [('ret', st, obj)]
        if obj is not None and all(fr.fn.nodes[x[0]]['k'] == 'CXXDefaultArgExpr' for x in args) and nm in ('clear', 'reset', 'erase') and not (n.get('cls') or '').startswith('epics::'):
            self.put(I, st, obj, EMPTY, None)
            return [('ret', st, obj)]
        if obj is not None and (n.get('cm') or nm in ('str', 'get', 'size', 'empty', 'unique', 'use_count')) and not (n.get('cls') or '').startswith('epics::'):
            if n.get('lv'):
                return None
            v = ('of', nm, I.rd(st, obj))
            if n.get('c'):
                d = I.destloc(st, fr, nid)
                st.mem[d] = v
                return [('ret', st, d)]
            return [('ret', st, v)]
        return None

    def put(self, I, st, d, v, t):
        for k in [k for k in st.mem if self.below(k, d)]:
            del st.mem[k]
        st.mem[d] = v

    @staticmethod
    def below(k, d):
        while k[0] in ('fld', 'idx'):
            k = k[1]
            if k == d:
                return True
        return False

    def cells(self, t, L):
        return [L]

    def copy(self, I, st, d, s, t):
        for k in [k for k in st.mem if self.below(k, d)]:
            del st.mem[k]
        st.mem[d] = I.rd(st, s)

    def swap(self, I, st, x, y, t):
        a, b = I.rd(st, x), I.rd(st, y)
        st.mem[x], st.mem[y] = b, a


C0 = c(0)


def cells(p, rec, L, out=None, seen=()):
    """locations of all data members, bases and own member objects expanded"""
    out = [] if out is None else out
    for b in rec['bases']:
        r = p.rec_qt.get(strip_rec(b['t'])) or p.recs.get(b.get('usr'))
        if r is not None and strip_t(b['t']).startswith(('epics::', 'detail::')):
            cells(p, r, L, out)
    for f in rec['fields']:
        if f.get('static'):
            continue
        r = p.rec_qt.get(f['t'].replace('const ', ''))
        if r is not None and own(f['t']):
            cells(p, r, ('fld', L, f['q']), out)
        else:
            out.append((('fld', L, f['q']), f))
    return out


def strip_rec(t):
    return t.replace('class ', '').replace('struct ', '')


def moveloc(loc, new):
    return ('fld', moveloc(loc[1], new), loc[2]) if loc[0] == 'fld' else new


def run(ctx):
    p = ctx.p
    todo = []
    for f in p.fns.values():
        if not f.cls or not f.blocks or f.d.get('implicit') or f.d.get('static'):
            continue
        rec = p.rec_qt.get(f.cls)
        if rec is None:
            continue
        base = f.cls.split('<')[0]
        par = [f.vars[v]['t'] for v in f.params]
        me = [x.replace('const ', '', 1).rstrip('& ') == f.cls for x in par]
        kind = None
        if f.n == 'swap' and len(par) == 1 and me[0] and par[0].endswith('&') and not par[0].startswith('const'):
            kind = 'swap'
        elif f.n == 'operator=' and len(par) == 1 and me[0]:
            kind = 'move-assign' if par[0].endswith('&&') else 'copy-assign'
        elif 'ctor' in f.d and len(par) >= 1 and me[0] and len(par) == 1 and par[0].endswith('&'):
            kind = 'move' if par[0].endswith('&&') or not par[0].startswith('const') else 'copy'
        elif f.n in ('clear', 'reset') and not par and not f.d.get('const'):
            kind = 'reset'
        if kind is None:
            continue
        s = SKIP.get(base, ())
        if s is None or f.n in s:
            continue
        todo.append((kind, f, rec))
    got = {(k, f.cls.split('<')[0].split('::')[-1]) for k, f, r in todo}
    for need in (('swap', 'RefSnapshot'), ('swap', 'PVRequestMapper'), ('swap', 'BitSet'), ('copy-assign', 'BitSet'), ('reset', 'FieldBuilder'),
                 ('reset', 'PVRequestMapper'), ('swap', 'shared_vector_base'), ('copy', 'shared_vector_base'), ('copy-assign', 'shared_vector')):
        ctx.require(need in got, '%s of %s not found' % need)
    ctx.info['functions_by_kind'] = {}
    written = {}
    for kind, f, rec in sorted(todo, key=lambda x: (x[1].qt, x[1].l)):
        ctx.info['functions_by_kind'][kind] = ctx.info['functions_by_kind'].get(kind, 0) + 1
        ctx.seen(f)
        mine = [(l, x) for l, x in cells(p, rec, THIS) if x['q'].split('::')[-1] not in DIAG.get(rec_base(f.cls), ())]
        if kind == 'reset':
            do_reset(ctx, p, f, rec, mine)
            continue
        cl = C(p)
        I = Interp(p, cl, budget=30000)
        st = State()
        fr = I.frame(f, None, None, THIS)
        other = I.deref(('init', ('var', fr.id, f.params[0])))
        I.assume(st, I.compare(st, ('addr', THIS), ('addr', other), '!='), True)
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('covered', f.qt, None)
            continue
        ctx.absorb(I)
        for k, s, v in outs:
            for L, x in mine:
                name = x['q'].split('::')[-1]
                src = moveloc(L, other)
                a, b = I.rd(s, L), I.rd(s, src)
                i_m, i_o = ('init', L), ('init', src)
                if k == 'throw':
                    continue
                ok = a == i_o or kind == 'move' and contains(a, i_o) or I.truth(s, I.compare(s, a, i_o, '==')) is True
                ctx.ob('target-takes-all', '%s %s.%s' % (kind, f.qt, name), ok,
                       '%s of %s does not take over the member %s' % (KIND[kind], f.cls.split('::')[-1], name), f)
                if kind == 'swap':
                    ctx.ob('source-takes-all', '%s %s.%s' % (kind, f.qt, name), b == i_m,
                           '%s of %s does not hand over the member %s' % (KIND[kind], f.cls.split('::')[-1], name), f)
                if kind.startswith('copy'):
                    ctx.ob('source-kept', '%s %s.%s' % (kind, f.qt, name), b == i_o,
                           '%s of %s changes the member %s of the source' % (KIND[kind], f.cls.split('::')[-1], name), f)


KIND = {'swap': 'the swap', 'copy': 'the copy constructor', 'move': 'the move constructor', 'copy-assign': 'the assignment',
        'move-assign': 'the move assignment'}
# members that describe the holder itself, not its value
DIAG = {'epics::debug::shared_ptr': ('m_stack', 'm_depth'), 'epics::debug::shared_ptr_base': ('m_stack', 'm_depth'),
        'epics::debug::weak_ptr': ()}


def rec_base(c):
    return c.split('<')[0]


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t)


def writes_of(p, rec, skip):
    """qualified names of members that member functions other than constructors and `skip` may change"""
    out = set()
    qs = {x['q'] for x in rec['fields']}
    for f in p.fns.values():
        if f.usr in skip or 'ctor' in f.d or f.n.startswith('~') or f.n in ('swap', 'operator='):
            continue
        for n in f.nodes.values():
            if n['k'] == 'MemberExpr' and n.get('m') in qs:
                out.add((n['m'], f.qt))
    return {q for q, _ in out}


def do_reset(ctx, p, f, rec, mine):
    ctors = [g for g in p.fns.values() if g.cls == f.cls and 'ctor' in g.d and not g.params and g.blocks]
    cl = C(p)
    I = Interp(p, cl, budget=30000)
    want = {}
    if ctors:
        for k, s, v in I.run_fn(I.frame(ctors[0], None, None, THIS), State()):
            for L, x in mine:
                want.setdefault(L, set()).add(I.rd(s, L) if I.rd(s, L) != ('init', L) else EMPTY)
    live = writes_of(p, rec, {f.usr})
    I = Interp(p, cl, budget=30000)
    try:
        outs = I.run_fn(I.frame(f, None, None, THIS), State())
    except Budget:
        ctx.ob('reset', f.qt, None)
        return
    ctx.absorb(I)
    for k, s, v in outs:
        for L, x in mine:
            name = x['q'].split('::')[-1]
            if x['t'].startswith('const ') or x['q'] not in live and L[1] == THIS:
                continue
            a = I.rd(s, L)
            w = want.get(L) or {EMPTY, C0}
            ctx.ob('reset', '%s.%s' % (f.qt, name), a in w or (a in (EMPTY, C0) and w & {EMPTY, C0}), '%s() does not give the member %s its initial value' % (f.n, name), f)
