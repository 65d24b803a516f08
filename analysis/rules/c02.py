"""Reservation of buffer space, by abstract interpretation of every serializer and deserializer with a ghost count of guaranteed bytes.

The ghost is a linear term: it becomes n when the transport was asked for n bytes, the value seen when the remaining space was looked
at, one after an explicit flush, and nothing after any call that may itself use the buffer. Every transfer of k bytes is an obligation
ghost >= k and takes k away. Each function starts with nothing guaranteed, so that the verdicts compose; loops are proved by
inductive linear invariants over the ghost and the loop counters; the bit set, whose last bytes are counted by a loop, is decided for
every number of bytes up to three words."""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, Budget, strip_t
from rules import wire, bits

C0 = c(0)
R = ('gh', 'R')
POS = ('gh', 'pos')
THIS = ('this0',)


def cnt_of(nm):
    return nm in ('getSize', 'getLimit')


class C(Client):
    max_depth = 5
    cap = 60

    def __init__(self, root):
        self.root = root
        self.sites = 0
        self.opaque = []

    def inline(self, I, fn, fr):
        if wire.has_control(fn):
            return False
        if fn.q.startswith(wire.BUF):
            return False
        return wire.has_buffer(fn) or fn.file == self.root.file

    def fresh(self):
        """a number that tells repeated evaluations apart where loops are unrolled"""
        if not self.unroll:
            return 0
        self.n = getattr(self, 'n', 0) + 1
        return self.n

    def take(self, I, st, fr, nid, k, what):
        r = st.mem[R]
        self.sites += 1
        d = sub(r, k)
        if I.ge0(st, d):
            ok = True
        else:
            ok = None if bits.foreign(d) and not self.definite(I, st, d) else False
        I.oblige('reserved', fr, nid, what, ok, 'bytes are %s that were not asked for before' % (
            'written' if what.startswith('put') else 'read'))
        st.mem[R] = sub(r, k) if ok else C0

    def definite(self, I, st, d):
        lo, hi = lin.interval(st.facts, d)
        return hi is not None and hi < 0

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        b = wire.buffer_call(I, st, fr, nid, n, obj, args)
        val = lambda i: I.num(I.rd(st, args[i][1]) if args[i][2] else args[i][1])
        if b is not None:
            kind, ty, cnt, absolute = b
            if kind in ('put', 'get'):
                if not absolute:
                    w = wire.W.get(ty)
                    if w is None:
                        I.oblige('reserved', fr, nid, '%s of an unknown type' % kind, None)
                    else:
                        k = c(w) if cnt is None else scale(val(cnt), w)
                        self.take(I, st, fr, nid, k, '%s of %s' % (kind, ty))
                if kind == 'get' and cnt is None:
                    t = ('rd', fr.id, nid, self.fresh())
                    return [('ret', st, I.typed(t, n))]
                return [('ret', st, C0)]
            if kind == 'remaining':
                t = ('remaining', fr.id, nid, self.fresh())
                lin.setrange(t, 0, None)
                r = st.mem[R]
                I.fact(st, sub(t, r))
                st.mem[R] = t
                return [('ret', st, t)]
            if kind == 'position':
                return [('ret', st, st.mem[POS])]
            if kind == 'setposition':
                d = sub(val(0), st.mem[POS])
                self.take(I, st, fr, nid, d, 'skip of')
                st.mem[POS] = val(0)
                return [('ret', st, C0)]
            if cnt_of(nm):
                t = (nm, fr.id, nid, self.fresh())          # about the buffer, but unrelated to what is left of it
                lin.setrange(t, 0, None)
                return [('ret', st, t)]
            if kind == 'raw':
                t = ('rawbuf',)
                lin.setrange(t, 1, None)
                return [('ret', st, t)]
            return None
        if nm in ('ensureBuffer', 'ensureData') and args:
            k = val(0)
            if not I.ge0(st, sub(st.mem[R], k)):
                st.mem[R] = k
            outs = [('ret', st, C0)]
            if nm == 'ensureData':
                st.mem[POS] = self.newpos(fr, nid)
            return outs
        if nm == 'flushSerializeBuffer':
            st.mem[R] = c(1)
            st.mem[POS] = self.newpos(fr, nid)
            return [('ret', st, C0)]
        # anything else that gets hold of the buffer or the transport
        tgt = I.p.fns.get(n.get('fn') or '')
        touches = False
        for x in args:
            t = fr.fn.nodes[x[0]].get('t', '')
            if wire.BUF in t or any(z in t for z in wire.CONTROL):
                touches = True
        if touches and not (tgt is not None and tgt.blocks and not n.get('virt') and self.inline(I, tgt, fr)):
            st.mem[R] = C0
            st.mem[POS] = self.newpos(fr, nid)
            if nm == 'readSize':                  # whatever the peer sent
                t = ('rd', fr.id, nid, self.fresh())
                return [('ret', st, I.typed(t, n))]
        return None

    def newpos(self, fr=None, nid=None):
        t = ('pos', fr.id if fr else 0, nid, self.fresh())
        lin.setrange(t, 0, None)
        return t


PQ = ('gh', 'PQ')
PR = ('gh', 'PR')
LAST = ('gh', 'last')
MIN = 9            # what a flush leaves at the least: the largest single request (SerializeHelper::writeSize)


class PC(C):
    """no retry without progress: loops run a few times, and a site that asks for space (or looks at the space left) twice without
    anything having been transferred, requested or flushed in between would do so forever"""
    unroll = 3

    def start(self, st, I):
        st.mem[PQ] = st.mem[PR] = C0
        st.mem[LAST] = None
        self.ids = {}
        self.loops = 0

    def sid(self, fr, nid):
        return c(self.ids.setdefault((fr.fn.usr, nid), len(self.ids) + 1))

    def loopy(self, fr, nid):
        """is the call part of a loop of its function?"""
        return bool(loops_of(fr.fn).get(nid))

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        b = wire.buffer_call(I, st, fr, nid, n, obj, args)
        val = lambda i: I.num(I.rd(st, args[i][1]) if args[i][2] else args[i][1])
        me = self.sid(fr, nid)
        if b is not None and b[0] == 'remaining':
            if self.loopy(fr, nid):
                self.sites += 1
                I.oblige('progress', fr, nid, 'looking at the space left', st.mem[PR] != me,
                         'the space left is looked at again although nothing was transferred or requested since')
            st.mem[PR] = me
            if st.mem[LAST] is not None:
                return [('ret', st, st.mem[LAST])]
            if not I.ge0(st, sub(st.mem[R], c(1))):         # nothing left, or something
                s0 = st.fork()
                s0.mem[R] = s0.mem[LAST] = C0
                st.mem[R] = c(1)
                outs = [('ret', s0, C0)]
            else:
                outs = []
            out = C.pre_call(self, I, st, fr, nid, n, a)
            st.mem[LAST] = out[0][2]
            return outs + out
        if b is not None and b[0] in ('put', 'get', 'setposition') and not b[3]:
            w = wire.W.get(b[1])
            k = (sub(val(0), st.mem[POS]) if b[0] == 'setposition' else None if w is None else c(w) if b[2] is None else scale(val(b[2]), w))
            if k is None or not I.ge0(st, sub(C0, k)):
                st.mem[PQ] = st.mem[PR] = C0
                st.mem[LAST] = None
        elif nm in ('ensureBuffer', 'ensureData', 'flushSerializeBuffer'):
            k = c(MIN) if nm[0] == 'f' else val(0)
            if self.loopy(fr, nid):
                self.sites += 1
                I.oblige('progress', fr, nid, '%s' % nm, st.mem[PQ] != me,
                         'the loop asks for space again although what it got was not used: it was not enough to continue')
            st.mem[PQ] = me
            st.mem[PR] = C0
            st.mem[LAST] = None
            if nm[0] == 'f':
                st.mem[R] = k
                st.mem[POS] = self.newpos(fr, nid)
                return [('ret', st, C0)]
        elif b is None:
            r0 = st.mem[R]
            out = C.pre_call(self, I, st, fr, nid, n, a)
            if out is None and any(wire.BUF in fr.fn.nodes[x[0]].get('t', '') or
                                   any(z in fr.fn.nodes[x[0]].get('t', '') for z in wire.CONTROL) for x in args):
                tgt = I.p.fns.get(n.get('fn') or '')
                if not (tgt is not None and tgt.blocks and not n.get('virt') and self.inline(I, tgt, fr)):
                    st.mem[PQ] = st.mem[PR] = C0
                    st.mem[LAST] = None
            return out
        return C.pre_call(self, I, st, fr, nid, n, a)


_loops = {}


def loops_of(f):
    """node id -> True for the nodes of blocks that lie on a cycle"""
    r = _loops.get(f.usr)
    if r is None:
        r = _loops[f.usr] = {}
        succ = {b: [s for s in blk['su'] if s is not None] for b, blk in f.blocks.items()}
        for b in f.blocks:
            seen, work = set(), list(succ[b])
            while work:
                x = work.pop()
                if x in seen or x not in succ:
                    continue
                seen.add(x)
                work += succ[x]
            if b in seen:
                for e in f.blocks[b]['el']:
                    if isinstance(e, int):
                        r[e] = True
    return r


class BC(bits.C):
    """the bit set for a concrete number of words"""
    def start(self, st):
        st.mem[R] = C0
        self.ob = {}

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.num(I.rd(st, args[i][1]) if args[i][2] else args[i][1])
        b = wire.buffer_call(I, st, fr, nid, n, obj, args)
        if b is not None and b[0] in ('put', 'get') and not b[3]:
            w = wire.W.get(b[1])
            k = None if w is None else c(w) if b[2] is None else scale(val(b[2]), w)
            r = st.mem[R]
            key = (fr.fn.qt, nid, '%s of %s' % (b[0], b[1]))
            if k is not None:
                d = sub(r, k)
                if not I.ge0(st, d):
                    if bits.Words(st, self.base_nz).feasible():
                        self.ob[key] = False if d[0] == 'c' else None if self.ob.get(key) is not False else False
                else:
                    self.ob.setdefault(key, True)
                st.mem[R] = d if I.ge0(st, d) else C0
        elif nm in ('ensureBuffer', 'ensureData'):
            k = val(0)
            if not I.ge0(st, sub(st.mem[R], k)):
                st.mem[R] = k
            if nm == 'ensureBuffer':
                return [('ret', st, C0)]
        elif nm == 'flushSerializeBuffer':
            st.mem[R] = c(1)
        elif b is None and any(wire.BUF in fr.fn.nodes[x[0]].get('t', '') or any(z in fr.fn.nodes[x[0]].get('t', '') for z in wire.CONTROL)
                               for x in args):
            st.mem[R] = C0
        return bits.C.pre_call(self, I, st, fr, nid, n, a)


def run(ctx):
    p = ctx.p
    roots = [f for f in p.fns.values() if f.blocks and wire.has_buffer(f) and wire.has_control(f)]
    ctx.require(len(roots) >= 60, 'serializers not found')
    weak = []
    sites = 0
    for f in sorted(roots, key=lambda f: (f.qt, f.l)):
        cl = C(f)
        I = Interp(p, cl, 150000)
        st = State()
        st.mem[R] = C0
        st.mem[POS] = cl.newpos()
        fr = I.frame(f, None, None, THIS)
        try:
            I.run_fn(fr, st)
        except Budget:
            ctx.ob('reserved', f.qt + ' not analysed', None)
            continue
        ctx.seen(f)
        sites += cl.sites
        if f.cls == bits.Q:
            weak.append(f)
            for k, v in I.obl.items():
                if v:
                    ctx.ob(k[0], '%s@%s: %s' % (k[1], k[2], k[3]))
            continue
        ctx.absorb(I)
    for f in sorted(roots, key=lambda f: (f.qt, f.l)):
        if not loops_of(f):
            continue
        cl = PC(f)
        I = Interp(p, cl, 150000)
        st = State()
        st.mem[R] = C0
        st.mem[POS] = cl.newpos()
        cl.start(st, I)
        try:
            I.run_fn(I.frame(f, None, None, THIS), st)
        except Budget:
            ctx.ob('progress', f.qt + ' not analysed', None)
            continue
        sites += cl.sites
        for k, v in I.obl.items():
            if k[0] == 'progress':
                kk = (k[0], '%s@%s: %s' % (k[1], k[2], k[3]))
                ctx.obl[kk] = bool(v) and ctx.obl.get(kk, True)
        for r in I.reports.values():
            if r['rule'] == 'progress':
                ctx.violation(r['rule'], r['msg'], r['fn'], r['loc'], r['path'])
    B = bits.BitOps(ctx)
    bs = 0
    for f in weak:
        for k in bits.cases(B, f, client=BC):
            if not isinstance(k, bits.Case):
                ctx.ob('reserved', '%s: %s' % (k[0].qt, k[1]), None)
                continue
            for (fq, nid, what), ok in k.cl.ob.items():
                bs += 1
                ctx.ob('reserved', '%s@%s: %s (up to three words)' % (fq, nid, what), ok,
                       'bytes are transferred that were not asked for before', fq, f.nodes[nid].get('l') if f.qt == fq else f.l)
    ctx.require(bs, 'transfers of the bit set not found')
    ctx.require(sites >= 60, 'transfers not found')
    ctx.info['transfers'] = sites
