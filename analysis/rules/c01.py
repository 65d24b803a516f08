"""Abstract interpretation of every ByteBuffer member function (all instantiations, helpers inlined).

The class invariant  buffer <= position <= limit <= buffer+size  is assumed on entry.  Obligations: (1) every
memory access whose address derives from the buffer, position or limit pointer, of the width of the accessed type or
the length of the transfer, lies in [buffer, limit] given the checks on its path; (2) the invariant holds again on every
return; (3) when an access went through the cursor the cursor advanced by exactly the bytes accessed, and when one went
through an index the cursor did not move."""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, Budget, strip_t

NS = 'epics::pvData::ByteBuffer'
THIS = ('this0',)


class C(Client):
    max_depth = 6
    roles = None

    def acc(self, I, st, fr, nid, ptr, nbytes, what):
        if self.roles is None:
            return
        B, P, L, N = self.roles
        ats = lin.parts(ptr)[1]
        if not any(x in ats for x in (B, P, L)):
            return
        n = c(nbytes) if isinstance(nbytes, int) else nbytes
        lo, hi = sub(ptr, B), sub(L, add(ptr, n))
        okl, okh = I.ge0(st, lo), I.ge0(st, hi)
        ok = okl and okh
        if not ok and not (I.clean(lo) and I.clean(hi)):
            ok = None
        I.oblige('in-bounds', fr, nid, what, ok,
                 '%s may touch bytes %s the checked range of the buffer' % (what, 'beyond' if not okh else 'before'))
        st.mem[('gh', 'acc')] = c(1)
        if P in ats:
            st.mem[('gh', 'moved')] = add(st.mem.get(('gh', 'moved'), c(0)), n)

    def on_write(self, I, st, fr, nid, loc, val):
        if loc[0] == 'deref':
            self.acc(I, st, fr, nid, loc[1], fr.fn.nodes[nid].get('sz', 1), 'store')

    def on_read(self, I, st, fr, nid, loc):
        if loc[0] == 'deref':
            self.acc(I, st, fr, nid, loc[1], fr.fn.nodes[nid].get('sz', 1), 'load')

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        q = n.get('fq')
        if q in ('memcpy', 'memmove', 'memset', 'std::memcpy', 'std::memmove'):
            cnt = I.aval(st, fr, args[2])
            for i in range(1 if q.endswith('set') else 2):
                self.acc(I, st, fr, nid, I.aval(st, fr, args[i]), cnt, 'block transfer')
            return [('ret', st, I.aval(st, fr, args[0]))]
        if strip_t(q or '') in ('std::copy', 'std::swap_ranges') and len(args) == 3:
            f, l, d = [I.aval(st, fr, x) for x in args]
            cnt = sub(l, f)
            w = fr.fn.nodes[args[2][0]].get('psz', 1)
            self.acc(I, st, fr, nid, f, scale(cnt, w), 'block transfer')
            self.acc(I, st, fr, nid, d, scale(cnt, w), 'block transfer')
            return [('ret', st, add(d, cnt))]
        return None


def run(ctx):
    p = ctx.p
    ms = [f for f in p.fns.values() if f.cls and strip_t(f.cls) == NS and f.blocks]
    ctx.require(len(ms) >= 20, 'ByteBuffer members not found')

    def value_of(name):
        fs = [f for f in ms if f.n == name and f.d.get('const') and not f.params]
        ctx.require(fs, 'ByteBuffer::%s() not found' % name)
        I = Interp(p, C())
        outs = [o for o in I.run_fn(I.frame(fs[0], None, None, THIS), State()) if o[0] == 'ret']
        ctx.require(len(outs) == 1, 'ByteBuffer::%s() is not a plain accessor' % name)
        return outs[0][2]
    # roles of the private members, from what the public accessors compute
    N = value_of('getSize')
    B = value_of('getBuffer')
    P = add(value_of('getPosition'), B)
    L = add(value_of('getLimit'), B)
    for x in (N, B, P, L):
        ctx.require(x[0] == 'init', 'ByteBuffer accessors do not read plain members %r' % (x,))
    lin.setrange(N, 0, None)
    cl_roles = (B, P, L, N)
    ctx.info['roles'] = {k: v[1][-1] for k, v in zip(('buffer', 'position', 'limit', 'size'), cl_roles)}
    done = set()
    for f in ms:
        if f.d.get('smeth') or f.d.get('dtor') or f.d.get('implicit'):
            continue
        ctx.seen(f)
        cl = C()
        I = Interp(p, cl, budget=200000)
        st = State()
        st.mem[('gh', 'moved')] = c(0)
        ctor = 'ctor' in f.d
        if not ctor:
            cl.roles = cl_roles
            for t in (sub(P, B), sub(L, P), sub(add(B, N), L)):
                st.facts = lin.assume(st.facts, t, '>=', True)
        try:
            outs = I.run_fn(I.frame(f, None, None, THIS), st)
        except Budget:
            ctx.ob('in-bounds', f.qt, None)
            continue
        ctx.absorb(I)
        for k, s, v in outs:
            if k != 'ret':
                continue
            b2, p2, l2, n2 = [I.rd(s, x[1]) for x in cl_roles]
            inv = all(I.ge0(s, t) for t in (sub(p2, b2), sub(l2, p2), sub(add(b2, n2), l2)))
            if not inv and not all(I.clean(t) for t in (p2, l2, b2, n2)):
                inv = None
            ctx.ob('cursor-invariant', f.qt, inv, 'returns with position or limit outside the buffer', f)
            if ctor:
                ctx.ob('initial-cursor', f.qt, p2 == b2 and I.ge0(s, sub(sub(l2, b2), n2)),
                       'a new buffer does not start at position 0 with limit equal to its size', f)
            elif s.mem.get(('gh', 'acc')):
                mv = s.mem.get(('gh', 'moved'), c(0))
                d = sub(sub(p2, P), mv)
                ok = I.ge0(s, d) and I.ge0(s, scale(d, -1))
                if not ok and not I.clean(d):
                    ok = None
                ctx.ob('cursor-advance', f.qt, ok, 'the cursor does not advance by the number of bytes transferred', f)
