"""A request mapper changes all of its state or none of it.

compute() is interpreted on all paths with its helpers inlined; what each member of each mapper holds is tracked as a token through
assignments, exchanges and clearing. No path that leaves by an exception may have changed the mapper, nothing that may throw is done
after the first change, and every path that succeeds has replaced every member. swap() and reset() are run on the same tokens. The failure
of a part of the request must make the whole fail. In the mapping functions every access to the tables is bounded for arbitrary masks, and
entries are used only when they are marked valid."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t

NS = 'epics::pvData::'
M = NS + 'PVRequestMapper'
MP = M + '::Mapping'
THIS = ('cb', 'this')
C0, C1 = c(0), c(1)
DIRTY = ('gh', 'dirty')
SAFE = ('swap', 'clear', 'reset', 'operator bool', 'get', 'empty', 'size', 'begin', 'end')


def short(q):
    return q.rsplit('::', 1)[1]


class Tok(Client):
    max_depth = 4
    cap = 40

    def __init__(self, p, fields):
        self.p, self.fields = p, fields
        self.cnt = 0

    def inline(self, I, fn, fr):
        return (fn.cls == M or fn.q.startswith(M) or fn.file.endswith('requestmapper.cpp')) and not self.active(I, fr, fn)

    def active(self, I, fr, fn):
        return fr.fn.usr == fn.usr

    def field(self, L):
        """the member of a mapper that L is or lies in"""
        while L is not None and L[0] in ('fld', 'idx', 'deref'):
            if L[0] == 'fld' and L[2] in self.fields:
                return L
            L = L[1]
            if L and L[0] == 'addr':
                L = L[1]
            elif L and L[0] == 'init':
                return None
        return None

    def content(self, st, F):
        v = st.mem.get(('gh', 'c', F))
        if v is None and F[0] != 'fld':
            return None
        if v is None:
            v = ('empty',) if F[1][0] in ('var', 'tmp', 'new') else ('old', F)
        return v

    def put(self, I, st, fr, nid, F, v):
        if v is None:
            self.cnt += 1
            v = ('val', fr.id, nid)
        if F[0] == 'fld' and F[1] == THIS:
            if F[2] in self.keep:
                st.mem[DIRTY] = C1
        st.mem[('gh', 'c', F)] = v

    def on_write(self, I, st, fr, nid, loc, val):
        F = self.field(loc)
        if F is None:
            return
        if fr.fn.d.get('ctor') and fr.fn.cls == M and self.content(st, F) in (('old', F), ('empty',)):
            if val == C0 or val == ('str', ''):
                return
        self.put(I, st, fr, nid, F, None)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        fn = self.p.fns.get(n.get('fn') or '')
        locs = [x[1] if x[2] else None for x in args]
        if st.mem.get(DIRTY) is not None and not n.get('nothrow') and nm not in SAFE and not nm.startswith('~') and not (fn is not None and self.inline(I, fn, fr)):
            I.oblige('all or nothing', fr, nid, 'after the first change of the mapper', False, '%s may throw after a part of the mapper has been changed' % (nm or 'a call'))
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.get('c') and not (fn is not None and self.inline(I, fn, fr)):
            v = ('empty',) if not args else self.content(st, locs[0]) if len(args) == 1 and locs[0] is not None and (n.get('copy') or n.get('move')) \
                and self.field(locs[0]) in (None, locs[0]) else None
            if v is not None:
                d = I.destloc(st, fr, nid)
                if self.field(d) is None:
                    st.mem[('gh', 'c', d)] = v
        F = self.field(obj) if obj is not None else None
        A = [self.field(x) if x is not None else None for x in locs]
        if nm == 'swap' and len(args) == 2 and obj is None:
            F, A = A[0], A[1:]
        if nm == 'swap' and locs and (F is not None or A and A[0] is not None):
            F, A = F or obj, [A[0] or locs[-1]]
            x, y = self.content(st, F), self.content(st, A[0])
            self.put(I, st, fr, nid, F, y)
            self.put(I, st, fr, nid, A[0], x)
            return [('ret', st, None)]
        if fn is not None and self.inline(I, fn, fr):
            return None
        if F is not None and not n.get('cm'):
            if F == obj and nm in ('clear', 'reset') and not args:
                self.put(I, st, fr, nid, F, ('empty',))
                return [('ret', st, None)]
            elif F == obj and nm in ('operator=', 'assign') and args:
                v = self.content(st, locs[0]) if locs[0] is not None and A[0] in (None, locs[0]) else None
                self.put(I, st, fr, nid, F, v)
                return [('ret', st, obj)]
            elif nm not in ('begin', 'end', 'operator[]', 'at', 'back', 'front', 'get', 'operator->', 'operator*', 'nextSetBit', 'size'):
                self.put(I, st, fr, nid, F, None)
        pk = n.get('pk') or []
        for i, x in enumerate(A):
            if x is not None and i < len(pk) and pk[i] == 'r' and nm != 'swap':
                self.put(I, st, fr, nid, x, None)
        for i, x in enumerate(locs):
            if x == THIS and i < len(pk) and pk[i] == 'r':
                st.mem[DIRTY] = C1
        return None


class Fail(Client):
    """a part that fails makes the whole fail"""
    max_depth = 3
    unroll = 2
    cap = 20000

    def __init__(self, p, helper):
        self.p, self.helper = p, helper

    def inline(self, I, fn, fr):
        return False

    def pre_call(self, I, st, fr, nid, n, a):
        if n.get('fn') in self.helper:
            s = st.fork()
            s.mem[('gh', 'failed')] = C1
            return [('ret', st, C1), ('ret', s, C0)]
        return None


class Lean(Interp):
    """takes both ways at every condition whose value it does not know, without remembering which"""
    def assume(self, st, v, truth):
        t = self.truth(st, v) if v[0] in ('c', 'addr', 'not') or v[0] == 'cmp' and v[2][0] == 'c' else None
        return t is None or t == truth


class Map(Client):
    max_depth = 3

    def __init__(self, p):
        self.p = p
        self.n = 0

    def inline(self, I, fn, fr):
        return fn.file.endswith('requestmapper.cpp') or fn.q.startswith(M)

    def sized(self, I, st, L):
        n = I.rd(st, ('fld', L, '#n'))
        if n[0] != 'c':
            lin.setrange(n, 0, (1 << 31) - 1)
        return n

    def on_read(self, I, st, fr, nid, L):
        if L[0] == 'fld' and L[2] in (M + '::base2req', M + '::req2base'):
            self.sized(I, st, L)
        self.entry(I, st, fr, nid, L)

    def pre_call(self, I, st, fr, nid, n, a):
        if a[0] is not None and a[0][0] == 'fld' and a[0][2] in (M + '::base2req', M + '::req2base'):
            self.sized(I, st, a[0])
        return None

    def on_index(self, I, st, fr, nid, base, ix, size):
        t = fr.fn.nodes.get(nid, {}).get('t') or ''
        if 'Mapping' not in t and not (base and base[0] == 'fld' and base[2] in (M + '::base2req', M + '::req2base')):
            return
        n = size if size is not None else I.rd(st, ('fld', base, '#n'))
        self.n += 1
        ok = lin.entails(st.facts, ix) and lin.entails(st.facts, sub(sub(n, ix), C1))
        I.oblige('bounds', fr, nid, 'table of mappings indexed', ok, 'a table of mappings is indexed with a number that is not known to be inside it')

    def entry(self, I, st, fr, nid, L):
        if L[0] == 'fld' and L[2] in (MP + '::to', MP + '::leaf'):
            self.n += 1
            ok = I.truth(st, I.rd(st, ('fld', L[1], MP + '::valid'))) is True
            I.oblige('valid', fr, nid, '%s of an entry used' % short(L[2]), ok, 'an entry of the mapping is used without being known to be valid')


def run(ctx):
    p = ctx.p
    rec = p.rec_qt[M]
    mut = {x['q'] for x in rec['fields'] if x.get('mut')}
    fields = {x['q'] for x in rec['fields']}
    keep = fields - mut
    ctx.require(len(keep) >= 4, 'state of the mapper not found')
    fn = {}
    for f in p.fns.values():
        if f.cls == M and f.blocks:
            fn.setdefault(f.n, []).append(f)
    ctx.require({'compute', 'swap', 'reset', '_map', '_mapMask'} <= set(fn), 'members of the mapper not found')

    def new():
        cl = Tok(p, fields)
        cl.keep = keep
        return cl

    # compute
    f = fn['compute'][0]
    cl = new()
    I = Interp(p, cl, 600000)
    fr = I.frame(f, None, None, THIS)
    outs = I.run_fn(fr, State())
    ctx.seen(f)
    ctx.absorb(I)
    n = {'ret': 0, 'throw': 0}
    for kind, st, v in outs:
        n[kind] = n.get(kind, 0) + 1
        if kind == 'throw':
            ctx.ob('all or nothing', 'compute() left by an exception', st.mem.get(DIRTY) is None, 'compute() leaves by an exception after it changed the mapper', f)
        else:
            for q in sorted(keep):
                F = ('fld', THIS, q)
                ctx.ob('all or nothing', 'compute() succeeded: ' + short(q), cl.content(st, F) != ('old', F), 'compute() succeeds without replacing %s' % short(q), f)
    ctx.require(n['ret'] >= 1 and n['throw'] >= 1, 'compute() has no path that succeeds or none that fails')

    # swap
    f = fn['swap'][0]
    cl = new()
    I = Interp(p, cl, 100000)
    fr = I.frame(f, None, None, THIS)
    o = ('deref', ('init', ('var', fr.id, f.params[0])))
    outs = I.run_fn(fr, State())
    ctx.seen(f)
    for kind, st, v in outs:
        ctx.ob('swap', 'swap() does not throw', kind == 'ret', 'swap() may throw', f)
        for q in sorted(keep):
            x, y = ('fld', THIS, q), ('fld', o, q)
            ctx.ob('swap', 'swap(): ' + short(q), cl.content(st, x) == ('old', y) and cl.content(st, y) == ('old', x), 'swap() does not exchange %s' % short(q), f)

    # reset, and the state of a new mapper
    f = fn['reset'][0]
    cl = new()
    I = Interp(p, cl, 100000)
    fr = I.frame(f, None, None, THIS)
    outs = I.run_fn(fr, State())
    ctx.seen(f)
    for kind, st, v in outs:
        for q in sorted(keep):
            ctx.ob('reset', 'reset(): ' + short(q), cl.content(st, ('fld', THIS, q)) == ('empty',), 'reset() does not return %s to its initial state' % short(q), f)
    for f in fn.get('PVRequestMapper', ()):
        if not f.params:
            cl = new()
            I = Interp(p, cl, 100000)
            outs = I.run_fn(I.frame(f, None, None, THIS), State())
            ctx.seen(f)
            for kind, st, v in outs:
                for q in sorted(keep):
                    F = ('fld', THIS, q)
                    ctx.ob('reset', 'a new mapper: ' + short(q), cl.content(st, F) in (('old', F), ('empty',)), 'a new mapper starts with %s set' % short(q), f)

    # failure of a part
    helpers = {f.usr for x in fn.values() for f in x if f.d.get('rt') == 'bool' and f.d.get('acc') == 'private'}
    for f in [f for x in fn.values() for f in x]:
        if not any(n.get('fn') in helpers for n in f.nodes.values()):
            continue
        I = Lean(p, Fail(p, helpers), 800000)
        outs = I.run_fn(I.frame(f, None, None, THIS), State())
        ctx.seen(f)
        for kind, st, v in outs:
            if st.mem.get(('gh', 'failed')) is None:
                continue
            ok = kind == 'throw' or f.usr in helpers and v == C0
            ctx.ob('failure', '%s: a part failed' % f.n, ok, 'the failure of a part of the request is not reported by %s' % f.n, f)
    # tables
    cl = Map(p)
    for nm in ('_map', '_mapMask'):
        for f in fn[nm]:
            I = Interp(p, cl, 300000)
            I.run_fn(I.frame(f, None, None, THIS), State())
            ctx.seen(f)
            ctx.absorb(I)
    ctx.require(cl.n >= 4, 'uses of the tables not found')
