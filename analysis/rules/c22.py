"""Every access to the words of a bit set is below their number, by abstract interpretation of all members with symbolic sizes.

Each subscript of a word vector is an obligation 0 <= index < size under the facts of its path (loops by inductive linear
invariants), for every size of the sets involved and every argument; every shift of a word is by less than its width; an access
without such a proof is decided for all shapes of up to three words per set."""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, Budget, strip_t
from rules import bits

C0 = c(0)
MAXW = 1 << 29          # 2^32 bytes: more cannot be asked for by an index or a received size


class C(bits.C):
    unroll = 0
    cap = 60

    def on_index(self, I, st, fr, nid, L, i, n):
        if i is None or n is None or not (L[0] == 'fld' and L[2] == self.wq):
            if i is not None and n is not None:
                return
            if i is None and L[0] == 'addr' and L[1][0] == 'idx' and L[1][1][0] == 'fld' and L[1][1][2] == self.wq:
                L, i = L[1][1], L[1][2]
                n = I.models.size_of(I, st, L)
            else:
                return
        if I.mute:
            return
        ok = I.ge0(st, i) and I.ge0(st, sub(sub(n, i), c(1)))
        v = True
        if not ok:
            v = None if bits.foreign(sub(n, i)) and not self.strict else False
        I.oblige('word-exists', fr, nid, 'subscript of the words', v, 'a word beyond the end of the bit set may be accessed')

    strict = True

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        if nm == 'readSize':
            t = ('size', 'wire')
            lin.setrange(t, 0, None)
            return [('ret', st, t)]
        if nm in ('min', 'max') and len(args) == 2 and strip_t(n.get('fq') or '').startswith('std::'):
            x, y = [I.num(I.rd(st, q[1]) if q[2] else q[1]) for q in args]
            t = (nm, x, y)
            lin.setrange(t, 0, None)
            for z in (x, y):
                I.fact(st, sub(z, t) if nm == 'min' else sub(t, z))
            if nm == 'max':
                for z in (x, y):        # no more than any common bound
                    pass
                I.fact(st, sub(c(MAXW), t)) if all(I.ge0(st, sub(c(MAXW), z)) for z in (x, y)) else None
            d = ('tmp', fr.id, nid)
            st.mem[d] = t
            return [('ret', st, d)]
        if obj is not None and self.vecloc(obj) and nm == 'size':
            v = I.models.size_of(I, st, obj)
            if v[0] == 'init':
                lin.RANGE[v] = (0, MAXW)
        if obj is not None and self.vecloc(obj) and nm == 'resize':
            k = I.num(I.rd(st, args[0][1]) if args[0][2] else args[0][1])
            I.models.set_size(I, st, obj, k)
            I.cl.on_write(I, st, fr, nid, obj, None)
            return [('ret', st, C0)]
        return bits.C.pre_call(self, I, st, fr, nid, n, a)


def run(ctx):
    B = bits.BitOps(ctx)
    p = ctx.p
    n = 0
    weak = {}
    for f in sorted(B.ms, key=lambda f: f.l):
        cl = C(B.wq)
        I = bits.BInterp(p, cl, 200000)

        def width(st, nd, b, I=I, f=f):
            if not I.mute:
                ok = I.ge0(st, b) and I.ge0(st, sub(c(nd['w'] - 1), b))
                ctx.ob('shift-width', '%s at %s' % (f.qt, nd.get('l')), True if ok else None)
        cl.width_ok = width
        st = State()
        fr = I.frame(f, None, None, bits.THIS)
        try:
            I.run_fn(fr, st)
        except Budget:
            ctx.ob('analysed', f.qt, None)
        ctx.seen(f)
        for k, ok in I.obl.items():
            n += 1
            if ok:
                ctx.ob(k[0], '%s@%s' % (k[1], k[2]))
            else:
                weak[k[1], k[2]] = f
    ctx.require(n >= 12, 'subscripts of the words not found')
    # what has no proof for all sizes: all shapes of up to three words
    ntz, pop, und = bits.helpers(ctx, B)
    reached, unknown, shapes = {}, set(), 0
    for f in bits.public(B):
        for k in bits.cases(B, f, ntz, pop):
            if not isinstance(k, bits.Case):
                unknown.add(k[0].qt)
                continue
            shapes += 1
            for (fq, nid), ok in k.cl.subs.items():
                reached[fq, nid] = reached.get((fq, nid), True) and ok
            for fr, nid in k.cl.bad:
                ctx.ob('word-exists', '%s@%s' % (fr.fn.qt, nid), False, 'a word beyond the end of the bit set is accessed', fr.fn,
                       fr.fn.nodes[nid].get('l'), list(reversed(fr.chain())))
            for fr, nid, l in k.cl.badshift:
                ctx.ob('shift-width', '%s at %s' % (fr, l), False, 'a word is shifted by its width or more', fr, l)
    for (fq, nid), f in weak.items():
        ok = reached.get((fq, nid)) is True and not unknown
        ctx.ob('word-exists', '%s@%s' % (fq, nid), True if ok else None)
        if ok:
            ctx.info.setdefault('decided for at most 3 words', []).append('%s@%s' % (fq, nid))
    ctx.info['shapes'] = shapes
    ctx.assume.append('fewer than 2^29 words: more cannot be asked for by a 32-bit index or a 32-bit size in bytes')
