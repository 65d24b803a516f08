"""The tagged storage of AnyScalar, by abstract interpretation over all combinations of recorded types.

The storage of every object is a ghost cell: raw, a number of a certain type, or a live text. Every member (and every other function
that looks at the tag or the storage) is run from each of the 13 recorded types - for two objects, from each pair, and once with the
two being the same object - and the ghost is checked at every placement new, bitwise copy, destructor call and typed access, and on
the way out: tag and storage agree, no live text was overwritten or lost, the value is the one the operation promises."""
from pv import lin
from pv.lin import c
from pv.interp import Interp, Client, State, Budget, strip_t, is_loc

A = 'epics::pvData::AnyScalar'
TAG, WRAP = A + '::_stype', A + '::_wrap'
THIS = ('this0',)
C0 = c(0)
CODE = {'char': 0, 'signed char': 1, 'short': 2, 'int': 3, 'long': 4, 'unsigned char': 5, 'unsigned short': 6, 'unsigned int': 7,
        'unsigned long': 8, 'float': 9, 'double': 10}
SIZE = {0: 1, 1: 1, 2: 2, 3: 4, 4: 8, 5: 1, 6: 2, 7: 4, 8: 8, 9: 4, 10: 8}
STR = 11
NIL = 0xffffffff
TYPES = [NIL] + list(range(12))


def code(t):
    t = t.replace('const ', '').replace('&', '').strip()
    if 'basic_string<' in t.split(' ')[0] and t.startswith('std::'):
        return STR
    return CODE.get(t)


def owner(L):
    """the AnyScalar whose storage L lies in"""
    while L is not None and L[0] in ('fld', 'idx'):
        if L[0] == 'fld' and L[2] == WRAP:
            return L[1]
        L = L[1]
    return None


def gh(o):
    return ('gh', 'blob', o)


class C(Client):
    max_depth = 8

    def __init__(self, ctx):
        self.ctx = ctx
        self.names = {}

    def inline(self, I, fn, fr):
        return (fn.cls or '') == A or fn.q.startswith('epics::pvData::ScalarTypeFunc') or fn.q.startswith('epics::pvData::detail')

    def get(self, st, o):
        return st.mem.get(gh(o), ('raw',))

    def put(self, st, o, v):
        st.mem[gh(o)] = v

    def bad(self, I, fr, nid, what, msg):
        I.oblige('storage', fr, nid, what, False, msg)

    def good(self, I, fr, nid, what):
        I.oblige('storage', fr, nid, what, True)

    def live(self, I, st, fr, nid, o, what):
        x = self.get(st, o)
        if x[0] == 'str':
            self.good(I, fr, nid, what)
            return x[1]
        self.bad(I, fr, nid, what, 'the storage is used as a text (%s) although it holds none' % what)
        return ('unk0',)

    def dead(self, I, st, fr, nid, o, what):
        if self.get(st, o)[0] == 'str':
            self.bad(I, fr, nid, what, 'a live text is overwritten (%s) without being destroyed' % what)
        else:
            self.good(I, fr, nid, what)

    # text values, inside the storage of an AnyScalar or not
    def sget(self, I, st, fr, nid, L, what):
        o = owner(L)
        if o is not None:
            return self.live(I, st, fr, nid, o, what)
        return I.rd(st, L)

    def sput(self, I, st, L, v):
        o = owner(L)
        if o is not None:
            self.put(st, o, ('str', v))
        else:
            st.mem[L] = v

    def on_new(self, I, st, fr, nid, n, place, l):
        L = I.deref(place)
        o = owner(L)
        if o is None:
            return
        self.dead(I, st, fr, nid, o, 'construction')
        k = code(n.get('at', ''))
        if k is None:
            self.bad(I, fr, nid, 'construction', 'an object of a type no tag stands for is built in the storage')
            return
        v = st.mem.get(l, ('init', l))
        self.put(st, o, ('str', v) if k == STR else ('pod', k, v))

    def on_read(self, I, st, fr, nid, loc):
        o = owner(loc)
        if o is None:
            return
        n = fr.fn.nodes[nid]
        k = code(n.get('t', ''))
        if k is None:
            return
        self.typed(I, st, fr, nid, o, k)

    def typed(self, I, st, fr, nid, o, k):
        x = self.get(st, o)
        have = STR if x[0] == 'str' else x[1] if x[0] == 'pod' else None
        if have == k:
            self.good(I, fr, nid, 'typed access')
        else:
            self.bad(I, fr, nid, 'typed access', 'the storage is read as a type other than the recorded one')

    def on_dtor(self, I, st, fr, loc, el):
        pass

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        cls = n.get('cls') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        throws = not n.get('nothrow')

        def done(v, thr=False):
            out = [('ret', st, v)]
            if thr:
                out.append(('throw', st.fork(), 'std::bad_alloc'))
            return out
        if nm in ('memcpy', '__builtin_memcpy', 'memmove') and len(args) == 3:
            d, s, k = I.deref(I.num(val(0))) if val(0)[0] == 'addr' else None, val(1), I.num(val(2))
            do = owner(d) if d else None
            sl = s[1] if s[0] == 'addr' else None
            so = owner(sl) if sl else None
            if do is None and so is None:
                return None
            size = k[1] if k[0] == 'c' else None
            if so is not None:
                x = self.get(st, so)
                if x[0] == 'str':
                    self.bad(I, fr, nid, 'bitwise copy', 'a live text is copied bitwise')
                else:
                    self.good(I, fr, nid, 'bitwise copy')
                if x[0] == 'pod' and (size is None or size < SIZE[x[1]]):
                    x = ('part', x)
            elif sl is not None and sl[0] in ('var', 'tmp'):
                x = st.mem.get(sl, ('part', sl))
            else:
                x = ('bytes', s, size)
            if do is not None:
                self.dead(I, st, fr, nid, do, 'bitwise copy')
                if size is None or size > self.room:
                    self.bad(I, fr, nid, 'room', 'more bytes are copied than the storage has')
                self.put(st, do, x)
            else:
                st.mem[d] = x
            return done(val(0))
        if cls.startswith('std::basic_string<') or nm == 'swap' and len(args) == 2 and obj is None:
            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                d = I.destloc(st, fr, nid)
                if not args:
                    v = ('text', 'empty')
                    st.mem[d] = v
                    return done(d)
                if args[0][2] and code(fr.fn.nodes[args[0][0]]['t']) == STR:
                    v = self.sget(I, st, fr, nid, args[0][1], 'copy')
                    thr = not (n.get('pk') or ['?'])[0] == 'm' and throws
                    if not thr:
                        self.sput(I, st, args[0][1], ('text', 'moved'))
                    st.mem[d] = v
                    return done(d, thr)
                st.mem[d] = ('text', 'from', val(0))
                return done(d, throws)
            if nm.startswith('~'):
                o = owner(obj)
                if o is not None:
                    if self.get(st, o)[0] == 'str':
                        self.good(I, fr, nid, 'destruction')
                    else:
                        self.bad(I, fr, nid, 'destruction', 'a text is destroyed that does not exist')
                    self.put(st, o, ('raw',))
                return done(C0)
            if nm == 'swap':
                x = obj if obj is not None else args[0][1]
                y = args[-1][1]
                if not (args[-1][2] and (is_loc(x))):
                    return None
                if code(fr.fn.nodes[args[-1][0]]['t']) != STR:
                    u, w = I.rd(st, x), I.rd(st, y)
                    st.mem[x], st.mem[y] = w, u
                    return done(C0)
                u, w = self.sget(I, st, fr, nid, x, 'swap'), self.sget(I, st, fr, nid, y, 'swap')
                self.sput(I, st, x, w)
                self.sput(I, st, y, u)
                return done(C0)
            if nm == 'operator=' and obj is not None and args:
                self.sget(I, st, fr, nid, obj, 'assignment')
                thr = (n.get('pk') or ['?'])[0] != 'm' and throws
                f = st.fork() if thr else None
                if args[0][2]:
                    v = self.sget(I, st, fr, nid, args[0][1], 'assignment')
                    if not thr and args[0][1] != obj:
                        self.sput(I, st, args[0][1], ('text', 'moved'))
                else:
                    v = ('text', 'from', val(0))
                self.sput(I, st, obj, v)
                return [('ret', st, obj)] + ([('throw', f, 'std::bad_alloc')] if thr else [])
            if obj is not None:
                self.sget(I, st, fr, nid, obj, nm)
                return None
        if nm == 'castUnsafeV' and len(args) == 5:
            src = I.deref(val(4)) if val(4)[0] == 'addr' else None
            o = owner(src) if src else None
            if o is not None:
                want = st.mem.get(('fld', o, TAG))
                I.oblige('conversion', fr, nid, 'source type', want is not None and I.num(val(3)) == I.num(want),
                         'the storage is converted as a type other than the recorded one')
                d = I.deref(val(2)) if val(2)[0] == 'addr' else None
                t = self.dtype(fr, args[2][0])
                k = I.num(val(1))
                I.oblige('conversion', fr, nid, 'result type', d is not None and k[0] == 'c' and t is not None and k[1] == t,
                         'the conversion writes a type other than that of its result')
                I.oblige('conversion', fr, nid, 'one element', I.num(val(0)) == c(1), 'the conversion is not for one element')
                return [('ret', st, C0), ('throw', st.fork(), 'std::runtime_error')]
        for x in args:                        # typed references handed out (output operators)
            if x[2] and owner(x[1]) is not None and owner(x[1]) != x[1] and 'operator<<' in nm:
                k = code(fr.fn.nodes[x[0]]['t'])
                if k is not None:
                    self.typed(I, st, fr, nid, owner(x[1]), k)
        return None

    def dtype(self, fr, nid):
        """C++ type behind a pointer argument"""
        n = fr.fn.nodes[nid]
        while n.get('k') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('o'):
            n = fr.fn.nodes[n['o'][0]]
        t = n.get('t', '')
        return code(t[:-1].strip()) if t.endswith('*') else None


def setup(st, o, t):
    v = ('val', o, t)
    st.mem[('fld', o, TAG)] = c(t)
    st.mem[gh(o)] = ('raw',) if t == NIL else ('str', v) if t == STR else ('pod', t, v)
    return st.mem[gh(o)]


def tname(t):
    return 'nothing' if t == NIL else 'a text' if t == STR else 'a number (type %d)' % t


def consistent(I, s, o):
    """None if tag and storage agree, else what is wrong"""
    t = I.num(s.mem.get(('fld', o, TAG), ('init', ('fld', o, TAG))))
    x = s.mem.get(gh(o), ('raw',))
    if t[0] != 'c':
        return 'the tag has no definite value'
    k = t[1] & 0xffffffff
    if k == STR:
        return None if x[0] == 'str' else 'the tag says text but the storage holds none'
    if x[0] == 'str':
        return 'a live text is left in the storage although the tag says otherwise'
    if k == NIL:
        return None
    if x[0] == 'pod':
        return None if x[1] == k else 'the tag says another type than the one stored'
    if x[0] == 'bytes':
        return None if k in SIZE and x[2] is not None and x[2] >= SIZE[k] else 'not all bytes of the number were stored'
    return 'the tag says that there is a number, but the storage holds none'


def content(s, o):
    x = s.mem.get(gh(o), ('raw',))
    return x


def run(ctx):
    p = ctx.p
    rec = p.rec_q.get(A)
    ctx.require(rec, 'AnyScalar not found')
    rec = rec[0] if isinstance(rec, list) else rec
    ctx.require({'_stype', '_wrap'} <= {f['n'] for f in rec['fields']}, 'members of AnyScalar not found')
    wt = p.rec_qt.get(A + '::wrap_t')
    roots = []
    for f in p.fns.values():
        if f.blocks and not f.d.get('implicit') and (f.cls == A or any(n.get('m') in (TAG, WRAP, A + '::_as') for n in f.nodes.values())):
            roots.append(f)
    ctx.require(len(roots) > 60, 'members of AnyScalar not found')
    kinds = {}
    runs = 0
    for f in sorted(roots, key=lambda f: (f.qt, f.l, f.usr)):
        ctx.seen(f)
        me = f.cls == A and not f.d.get('static')
        ctor, dtor = 'ctor' in f.d, f.n.startswith('~')
        others = [v for v in f.params if f.vars[v]['t'].replace('const ', '').startswith(A) and f.vars[v].get('ref')]
        val = [v for v in f.params if v not in others]
        kind = ('dtor' if dtor else 'ctor' if ctor and not others else
                'movector' if ctor and f.vars[others[0]]['t'].endswith('&&') else 'copyctor' if ctor else
                'assignval' if f.n == 'operator=' and not others else
                'move' if f.n == 'operator=' and f.vars[others[0]]['t'].endswith('&&') else 'copy' if f.n == 'operator=' else
                f.n)
        if kind == '_as':
            continue          # judged where its result is used
        kinds[kind] = kinds.get(kind, 0) + 1
        aliased = bool(me and others and not ctor)
        for t in (TYPES if me and not ctor else [None]):
            for ot in (TYPES + ([None] if aliased else []) if others else [None]):
                if others and ot is None and not aliased:
                    continue
                for extra in (list(range(12)) if kind == 'ctor' and len(f.params) == 2 else [None]):
                    runs += 1
                    one(ctx, p, f, kind, t, ot, others, extra, wt)
    for need in ('swap', 'copyctor', 'movector', 'copy', 'move', 'clear', 'dtor', 'ref', 'as', 'operator<<', 'ctor'):
        ctx.require(kinds.get(need), '%s of AnyScalar not found' % need)
    ctx.info['runs'] = runs
    ctx.info['functions_by_kind'] = kinds


def one(ctx, p, f, kind, t, ot, others, extra, wt):
    cl = C(ctx)
    cl.room = 32
    if wt:
        m = [x for x in wt['fields'] if x['n'] == 'blob']
        if m:
            import re
            g = re.search(r'aligned_storage<(\d+)', m[0]['t'])
            if g:
                cl.room = int(g.group(1))
    I = Interp(p, cl, 60000)
    st = State()
    fr = I.frame(f, None, None, THIS)
    mine = setup(st, THIS, t) if t is not None else None
    if t is None:
        st.mem[gh(THIS)] = ('raw',)
    other = theirs = None
    if others:
        other = ('other0',) if ot is not None else THIS
        if ot is not None:
            theirs = setup(st, other, ot)
        st.mem[('var', fr.id, others[0])] = ('addr', other)
    if extra is not None:
        st.mem[('var', fr.id, f.params[0])] = c(extra)
    what = '%s(%s)' % (f.n if f.cls else f.qt.split('::')[-1], f.l)
    state = []
    if t is not None:
        state.append('holding %s' % tname(t))
    if ot is not None:
        state.append('with one holding %s' % tname(ot))
    elif others:
        state.append('with itself')
    where = '%s %s' % (what, ' '.join(state))
    try:
        outs = I.run_fn(fr, st)
    except Budget:
        ctx.ob('storage', where, None)
        return
    ctx.absorb(I)
    rets = [o for o in outs if o[0] == 'ret']
    for k, s, v in outs:
        def need(rule, ok, msg):
            ctx.ob(rule, where + (' thrown' if k == 'throw' else '') + ': ' + msg, ok, '%s: %s (%s)' % (f.n, msg, ' '.join(state) or 'any argument'), f)
        if kind == 'dtor':
            need('released', s.mem.get(gh(THIS), ('raw',))[0] != 'str', 'the text is not destroyed with its holder')
            continue
        ctor = kind in ('ctor', 'copyctor', 'movector')
        objs = ([] if k == 'throw' and ctor or f.cls != A else [THIS]) + ([other] if other and other != THIS else [])
        for o in objs:
            msg = consistent(I, s, o)
            need('tagged', msg is None, msg or 'tag and storage agree')
        if ctor and k == 'throw':
            need('released', s.mem.get(gh(THIS), ('raw',))[0] != 'str', 'a text is left behind by a construction that failed')
            if other and not (other == THIS):
                need('value', content(s, other) == theirs, 'the source of a failed copy is changed')
            continue
        tag = I.num(s.mem.get(('fld', THIS, TAG), C0))
        if k == 'throw':
            if kind in ('ref', 'as'):
                want = t == NIL if kind == 'as' else target(f) != t
                # as<>() may also fail in the conversion
                need('access', want or kind == 'as', 'access by the recorded type is refused')
            continue
        if kind == 'ref':
            need('access', target(f) == t, 'access by another type than the recorded one is allowed')
            L = v if v is not None and is_loc(v) else None
            need('access', L is not None and owner(L) == THIS, 'the reference does not lead to the storage')
        elif kind == 'as':
            need('access', t != NIL, 'a value is produced from nothing')
        elif kind in ('copyctor', 'copy', 'movector', 'move'):
            if other != THIS:
                need('value', same(content(s, THIS), theirs) or ot == NIL and tag == c(NIL), 'the target does not hold the value of the source')
                need('value', tag == c(ot), 'the target does not have the type of the source')
                if kind in ('copyctor', 'copy'):
                    need('value', content(s, other) == theirs and I.num(s.mem[('fld', other, TAG)]) == c(ot), 'copying changes the source')
                elif kind == 'movector':
                    need('value', I.num(s.mem[('fld', other, TAG)]) == c(NIL), 'the source of a move is not left empty')
            elif kind == 'copy':
                need('value', same(content(s, THIS), mine) or t == NIL, 'assigning an object to itself loses its value')
        elif kind == 'swap':
            if other != THIS:
                need('value', (same(content(s, THIS), theirs) or ot == NIL) and tag == c(ot) and
                     (same(content(s, other), mine) or t == NIL) and I.num(s.mem[('fld', other, TAG)]) == c(t), 'the values are not exchanged')
            else:
                need('value', (same(content(s, THIS), mine) or t == NIL) and tag == c(t), 'swapping an object with itself loses its value')
        elif kind == 'clear':
            need('value', tag == c(NIL), 'clear() does not leave the object empty')
        elif kind in ('ctor', 'assignval') and f.params:
            if extra is not None:
                need('value', tag == c(extra), 'the object does not have the type it was built with')
                x = content(s, THIS)
                src = ('init', ('var', I.frame(f, None, None, THIS).id, f.params[1]))
                need('value', x[0] == 'bytes' and x[1] == src or x[0] == 'str' and mentions(x, src), 'the object does not hold the value it was built with')
            else:
                T = f.vars[f.params[0]]['t']
                tt = STR if 'char *' in T else code(T)
                need('value', tag == c(tt), 'the object does not have the type of the value it was built from')
                x = content(s, THIS)
                pl = ('var', fr.id, f.params[0])
                need('value', x[0] in ('pod', 'str') and mentions(x, pl), 'the object does not hold the value it was built from')
        elif kind == 'ctor':
            need('value', tag == c(NIL), 'an object built from nothing is not empty')
        elif kind == 'empty' or kind.startswith('operator bool'):
            b = I.truth(s, v)
            need('access', b is (t == NIL if kind == 'empty' else t != NIL), 'emptiness is reported wrongly')
        elif kind == 'type':
            need('access', I.num(v) == c(t), 'the recorded type is reported wrongly')
        if kind not in ('copyctor', 'copy', 'movector', 'move', 'swap', 'clear', 'ctor', 'assignval'):
            if mine is not None and t != NIL:
                need('value', same(content(s, THIS), mine) and tag == c(t), 'an access changes the object')
            if theirs is not None and ot != NIL:
                need('value', content(s, other) == theirs, 'an access changes the object')
    if kind in ('ref',) and target(f) == t:
        ctx.ob('access', where + ' returns', bool(rets), 'access by the recorded type is refused', f)
    if kind == 'as' and t != NIL:
        ctx.ob('access', where + ' returns', bool(rets), 'a recorded value cannot be read', f)


def target(f):
    r = f.d.get('rt') or ''
    return code(r)


def same(a, b):
    return a == b


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)
