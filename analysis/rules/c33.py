"""Property views, by abstract interpretation of every member of every class with attach()/detach().

The members of a view are symbolic pointers. attach() is run from an attached and from a detached view, with every look-up of a member
ending both ways: on success every pointer comes from this call, from one structure and each from another member; otherwise (errors
included) all are null. The other members are run from both states: on a detached view they refuse without touching a null pointer, on
an attached one they do not refuse; nothing is modified unless every member that is modified was found mutable before the first
change; get and set move the same values between the same places, and what set leaves out was equal."""
from pv import lin
from pv.lin import c
from pv.interp import Interp, Client, State, Budget, strip_t, is_loc

NS = 'epics::pvData::'
THIS = ('this0',)
C0, C1 = c(0), c(1)
PUTS = ('gh', 'puts')
NOPUT = ('puts',)


def inside(t, x):
    return t == x or isinstance(t, tuple) and any(inside(y, x) for y in t)


class C(Client):
    max_depth = 6
    unroll = 3
    cap = 4000

    def __init__(self, cls, cells):
        self.cls = cls
        self.cells = cells
        self.lookups = 0

    def inline(self, I, fn, fr):
        if fn.cls == self.cls:
            return True
        if fn.n == 'normalize':
            return False
        # plain accessors of the value classes (Alarm, Control, ...)
        return bool(fn.cls) and fn.cls in self.values or fn.file.startswith('property/')

    def on_deref(self, I, st, fr, nid, ptr):
        if ptr == C0 or I.truth(st, I.compare(st, ptr, C0, '==')) is True:
            I.oblige('null', fr, nid, 'access', False, 'a member that was not found is used')
        else:
            I.oblige('null', fr, nid, 'access', True)

    def may_throw(self, I, st, fr, nid, n):
        return False

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if nm == 'normalize':
            return [('ret', st, C0)]
        if nm in ('getSubField', 'getSubFieldT') and obj is not None:
            self.lookups += 1
            key = val(0)
            key = self.text(I, st, fr, args[0])
            t = (n.get('targs') or ['PVField'])[0]
            cells = ('addr', ('found', I.objkey(st, obj), key, t))
            s2 = st.fork()
            d = I.destloc(st, fr, nid)
            I.wr(st, d, cells)
            if nm.endswith('T'):
                return [('ret', st, d), ('throw', s2, 'std::runtime_error')]
            I.wr(s2, d, C0)
            return [('ret', st, d), ('ret', s2, d)]
        if obj is not None and obj[0] in ('found', 'cell'):
            if nm == 'isImmutable':
                k = ('gh', 'imm', obj)
                if k in st.mem:
                    return [('ret', st, st.mem[k])]
                s2 = st.fork()
                st.mem[k] = C0
                s2.mem[k] = C1
                return [('ret', st, C0), ('ret', s2, C1)]
            if n.get('cm') or nm in ('get', 'getAs', 'view', 'getLength'):
                if nm == 'get' and not args:
                    t = ('value', obj)
                    if n.get('c'):
                        if n.get('lv'):
                            return [('ret', st, ('place', obj))]
                        d = I.destloc(st, fr, nid)
                        I.wr(st, d, t)
                        return [('ret', st, d)]
                    return [('ret', st, I.typed(t, n))]
                return None
            # a modification
            if any(k[:2] == ('gh', 'imm') and v == C1 for k, v in st.mem.items()):
                I.oblige('immutable', fr, nid, 'modification', False, 'a field is modified although one of the fields was found immutable')
            seen = st.mem.get(PUTS, NOPUT)
            st.mem[PUTS] = seen + ((obj, tuple(self.deep(I, st, args[i]) for i in range(len(args))),
                                    st.mem.get(('gh', 'imm', obj)), fr.fn.nodes[nid].get('l'),
                                    tuple(sorted(k[2] for k, v in st.mem.items() if k[:2] == ('gh', 'imm') and v == C0))),)
            return [('ret', st, C0)]
        if nm in ('operator==', 'operator!=') and len(args) == 2 - (obj is not None) and \
                ('basic_string' in (n.get('fq') or '') or any('basic_string' in fr.fn.nodes[x[0]]['t'] for x in args)):
            x = I.rd(st, obj) if obj is not None else self.deep(I, st, args[0])
            y = self.deep(I, st, args[-1])
            s2 = st.fork()
            st.mem[('gh', 'eq', x, y)] = C1
            s2.mem[('gh', 'eq', x, y)] = C0
            e = nm == 'operator=='
            return [('ret', st, C1 if e else C0), ('ret', s2, C0 if e else C1)]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'basic_string' in (n.get('cls') or '') and args and args[0][2]:
            d = I.destloc(st, fr, nid)
            I.wr(st, d, self.deep(I, st, args[0]))
            return [('ret', st, d)]
        if nm == 'operator=' and 'basic_string' in (n.get('cls') or '') and obj is not None and args and args[0][2]:
            I.wr(st, obj, self.deep(I, st, args[0]))
            return [('ret', st, obj)]
        return None

    def deep(self, I, st, x):
        if not x[2]:
            return x[1]
        if x[1][0] == 'place':
            return ('value', x[1][1])
        return I.rd(st, x[1])

    def text(self, I, st, fr, x):
        """the name looked up, as a key"""
        seen = []
        work = [x[0]]
        while work:
            n = fr.fn.nodes[work.pop()]
            if n['k'] == 'StringLiteral':
                return n.get('str', n.get('cv'))
            work += [o for o in n.get('o', []) if o is not None]
        return self.deep(I, st, x)


def run(ctx):
    p = ctx.p
    views = []
    for rs in p.rec_q.values():
        for r in (rs if isinstance(rs, list) else [rs]):
            q = r['qt']
            if not q.startswith(NS):
                continue
            ms = [f for f in p.fns.values() if f.cls == q and f.blocks]
            if any(f.n == 'attach' and len(f.params) == 1 and 'PVField' in f.vars[f.params[0]]['t'] for f in ms) and any(f.n == 'detach' for f in ms):
                views.append((q, r, ms))
    ctx.require(len(views) >= 5, 'property views not found (%d)' % len(views))
    lookups = 0
    for q, r, ms in sorted(views, key=lambda x: x[0]):
        cells = [f for f in r['fields'] if not f.get('static') and 'shared_ptr' in f['t']]
        ctx.require(len(cells) >= 2, 'members of %s not found' % q)
        locs = [('fld', THIS, f['q']) for f in cells]
        name = q.split('::')[-1]
        values = set()
        for f in ms:
            for v in f.params:
                t = f.vars[v]['t'].replace('const ', '').rstrip('& ')
                if t in p.rec_qt and t.startswith(NS) and not t.startswith(NS + 'PV'):
                    values.add(t)
        acc = {m['n']: m.get('acc') for m in r.get('methods', [])}

        def go(f, attached):
            cl = C(q, cells)
            cl.values = values
            I = Interp(p, cl, 100000)
            st = State()
            for L in locs:
                st.mem[L] = ('addr', ('cell', L)) if attached else C0
            st.mem[PUTS] = NOPUT
            try:
                outs = I.run_fn(I.frame(f, None, None, THIS), st)
            except Budget:
                ctx.ob('analysed', '%s %s' % (f.qt, attached), None)
                return None, cl, I
            ctx.seen(f)
            ctx.absorb(I)
            return outs, cl, I
        gets, sets = {}, {}
        for f in sorted(ms, key=lambda f: f.l):
            if 'ctor' in f.d or f.n.startswith('~') or f.d.get('implicit') or f.n == 'operator=' or f.d.get('static'):
                continue
            for attached in (True, False):
                outs, cl, I = go(f, attached)
                if outs is None:
                    continue
                what = '%s::%s on %s view' % (name, f.n, 'an attached' if attached else 'a detached')
                lookups += cl.lookups
                if f.n == 'attach':
                    ok = [o for o in outs if o[0] == 'ret' and I.truth(o[1], o[2]) is not False]
                    ctx.ob('attach', what + ' can succeed', bool(ok), '%s::attach never succeeds' % name, f)
                    for k, s, v in outs:
                        pv = [I.rd(s, L) for L in locs]
                        good = k == 'ret' and I.truth(s, v) is True
                        maybe = k == 'ret' and I.truth(s, v) is None
                        if good or maybe:
                            fresh = all(x[0] == 'addr' and x[1][0] == 'found' for x in pv)
                            ctx.ob('attach', what + ' succeeds completely', fresh,
                                   '%s::attach reports success although a member was not found (or is left from before)' % name, f)
                            if fresh:
                                ctx.ob('attach', what + ' distinct', len({x[1][2] for x in pv}) == len(pv),
                                       '%s::attach takes two members from the same field' % name, f)
                                ctx.ob('attach', what + ' one structure', len({x[1][1] for x in pv}) == 1,
                                       '%s::attach mixes the members of different structures' % name, f)
                        if not good:
                            ctx.ob('attach', what + ' fails completely', all(x == C0 for x in pv),
                                   '%s::attach fails but leaves the view partly attached' % name, f)
                    continue
                if f.n == 'detach':
                    for k, s, v in outs:
                        for L in locs:
                            ctx.ob('detach', '%s %s' % (what, L[2]), k == 'ret' and I.rd(s, L) == C0,
                                   '%s::detach keeps hold of %s' % (name, L[2].split('::')[-1]), f)
                    continue
                for k, s, v in outs:
                    for L in locs:
                        ctx.ob('kept', '%s %s' % (what, L[2]), I.rd(s, L) == (('addr', ('cell', L)) if attached else C0),
                               '%s::%s changes what the view is attached to' % (name, f.n), f)
                if f.n == 'isAttached':
                    for k, s, v in outs:
                        ctx.ob('isAttached', what, k == 'ret' and I.truth(s, v) is attached,
                               '%s::isAttached() reports the opposite' % name if k == 'ret' and I.truth(s, v) is (not attached) else
                               '%s::isAttached() does not say what is' % name, f)
                    continue
                if not attached:
                    for k, s, v in outs:
                        ctx.ob('refused', what, k == 'throw', '%s::%s does not refuse a detached view' % (name, f.n), f)
                    continue
                rets = [o for o in outs if o[0] == 'ret']
                ctx.ob('accepted', what, bool(rets),
                       '%s::%s refuses an attached view' % (name, f.n), f)
                isset = any(s.mem[PUTS] != NOPUT for k, s, v in rets)
                for k, s, v in rets:
                    if s.mem[PUTS][0] != 'puts':        # too many paths
                        ctx.ob('immutable', what + ' end states', None)
                        continue
                    imm = [x for x in s.mem if x[:2] == ('gh', 'imm') and s.mem[x] == C1]
                    puts = s.mem[PUTS][1:]
                    if isset:
                        if imm:
                            ctx.ob('immutable', what + ' changes nothing', not puts,
                                   '%s::%s modifies a field although one of them is immutable' % (name, f.n), f)
                            ctx.ob('immutable', what + ' reports', I.truth(s, v) is False,
                                   '%s::%s does not report failure on an immutable field' % (name, f.n), f)
                        for i, (o, av, im, l, known) in enumerate(puts):
                            ctx.ob('immutable', '%s asks %s' % (what, o), im == C0 and o in puts[0][4],
                                   '%s::%s modifies %s without having asked whether it is immutable before the first change' % (
                                       name, f.n, o[1][2].split('::')[-1] if o[0] == 'cell' else o), f, l)
                if f.n == 'choicesMutable':
                    for k, s, v in rets:
                        im = [s.mem[x] for x in s.mem if x[:2] == ('gh', 'imm')]
                        ctx.ob('mutable', what, len(im) == 1 and I.truth(s, v) is (im[0] == C0), '%s::%s reports the opposite' % (name, f.n), f)
                par = [v for v in f.params if f.vars[v]['t'].replace('const ', '').rstrip('& ') in values]
                if len(par) == 1 and f.n in ('get', 'set'):
                    src = I.deref(('init', ('var', I.frame(f, None, None, THIS).id, par[0])))
                    for k, s, v in rets:
                        if f.n == 'get':
                            for L in locs:
                                cv = ('value', ('cell', L))
                                w = {x[2] for x in s.mem if x[0] == 'fld' and x[1] == src and
                                     (inside(s.mem[x], cv) or is_num(s.mem[x]) and I.truth(s, I.compare(s, I.num(s.mem[x]), cv, '==')) is True)}
                                gets[L] = gets[L] & w if L in gets else w
                        elif s.mem[PUTS][0] == 'puts' and not any(x[:2] == ('gh', 'imm') and s.mem[x] == C1 for x in s.mem):
                            done = {o: av for o, av, _, _, _ in s.mem[PUTS][1:]}
                            for L in locs:
                                o = ('cell', L)
                                sets.setdefault(L, []).append((f, src, done.get(o), s, I))
        for L in locs:
            short = L[2].split('::')[-1]
            if not gets and not sets:
                continue
            g = gets.get(L, set())
            ctx.ob('round-trip', '%s get %s' % (name, short), len(g) == 1,
                   '%s::get does not deliver %s to one place' % (name, short))
            fld = list(g)[0] if len(g) == 1 else None
            if fld is None:
                continue
            for f, src, av, s, I in sets.get(L, []):
                place = ('fld', src, fld)
                if av is not None:
                    ctx.ob('round-trip', '%s set %s' % (name, short), any(inside(x, ('init', place)) or I.truth(s, I.compare(s, I.num(x), ('init', place), '==')) is True
                                                                                  for x in av if is_num(x)),
                           '%s::set stores something into %s that get does not read from there' % (name, short), f)
                else:
                    ctx.ob('round-trip', '%s set leaves %s' % (name, short), equal(I, s, L, place),
                           '%s::set leaves %s as it is although it may differ' % (name, short), f)
    ctx.require(lookups >= 20, 'look-ups not found')


def equal(I, s, L, place):
    """was the value of the cell found equal to the value given?"""
    cv, pv = ('value', ('cell', L)), ('init', place)
    for k, v in s.mem.items():
        if k[:2] == ('gh', 'eq') and v == C1 and (inside(k[2], cv) and inside(k[3], pv) or inside(k[2], pv) and inside(k[3], cv)):
            return True
    if I.truth(s, I.compare(s, cv, pv, '==')) is True:
        return True
    for key, (lo, hi, ne) in s.facts.items():
        if key[0] == 'fcmp' and inside(key, cv) and inside(key, pv):
            if key[1] == '==' and (lo is not None and lo > 0 or 0 in (ne or ())):
                return True
    return False


def is_num(x):
    return x[0] not in ('addr', 'text', 'str')
