"""Balance of the live-instance counters, by abstract interpretation of constructors and destructors.

A counter is any static data member that is changed through the atomic operations of the library or registered as a
reference counter.  Every constructor of its class (also a copying one, unless it cannot be called) adds exactly one on
every normal way out and nothing on an exceptional one, the destructor takes off exactly one on every way out, nothing
else changes it, and it is registered once, under the name of its class."""
from pv.lin import c, add
from pv.interp import Interp, Client, State, strip_t, Budget

THIS = ('this0',)
INC = ('epics::atomic::increment', 'epicsAtomicIncrSizeT')
DEC = ('epics::atomic::decrement', 'epicsAtomicDecrSizeT')
ALL = INC + DEC + ('epics::atomic::add', 'epics::atomic::subtract', 'epics::atomic::set', 'epicsAtomicAddSizeT', 'epicsAtomicSubSizeT', 'epicsAtomicSetSizeT', 'epics::atomic::compareAndSwap')


def base(fq):
    return strip_t(fq or '')


class C(Client):
    max_depth = 4

    def __init__(self, usr, cls):
        self.usr, self.cls = usr, cls

    def inline(self, I, fn, fr):
        return fn.cls == self.cls or fn.usr in self.touch

    def pre_call(self, I, st, fr, nid, n, a):
        q = base(n.get('fq'))
        if q in ALL and a[1]:
            l = a[1][0][1]
            if l[0] == 'addr':
                l = l[1]
            if l == ('glob', self.usr):
                k = ('gh', 'cnt')
                if q in INC + DEC:
                    st.mem[k] = add(I.rd(st, k), c(1 if q in INC else -1))
                else:
                    st.mem[k] = ('hv', fr.id, nid, 'cnt')
                return [('ret', st, c(0))]
        return None

    def on_write(self, I, st, fr, nid, loc, val):
        if loc == ('glob', self.usr):
            st.mem[('gh', 'cnt')] = ('hv', fr.id, nid, 'cnt')


def run(ctx):
    p = ctx.p
    # static data members used as counters: touched directly in a function
    use = {}
    reg = {}
    for f in p.fns.values():
        if not f.blocks:
            continue
        for nid, n in f.nodes.items():
            if n['k'] not in ('CallExpr', 'CXXMemberCallExpr'):
                continue
            q = base(n.get('fq'))
            if q in ALL or q.endswith('::registerRefCounter'):
                for o in n.get('o', []):
                    m = f.nodes[o]
                    while m.get('o') and 'v' not in m:
                        m = f.nodes[m['o'][0]]
                    if 'v' in m:
                        V = f.vars[m['v']]
                        if V['k'] == 'global' and V.get('qn', '').count('::') and p.rec_qt.get(V['qn'].rpartition('::')[0]):
                            if q in ALL:
                                use.setdefault((V['usr'], V['qn']), []).append(f)
                            else:
                                nm = f.nodes[n['o'][0]]
                                while nm.get('o') and 'str' not in nm:
                                    nm = f.nodes[nm['o'][0]]
                                reg.setdefault((V['usr'], V['qn']), []).append((f, nm.get('str'), n['l']))
    keys = set(use) | set(reg)
    ctx.require(len(keys) >= 3, 'instance counters not found')
    ctx.info['counters'] = sorted(k[1] for k in keys)
    for usr, qn in sorted(keys):
        cls = qn.rpartition('::')[0]
        rec = p.rec_qt[cls]
        r = reg.get((usr, qn), [])
        short = cls.split('::')[-1]
        ctx.ob('registered', qn, len(r) == 1 and r[0][1] == short, 'the counter %s is registered %d times, as %s' % (
            qn, len(r), [x[1] for x in r]), r[0][0] if r else None, r[0][2] if r else rec.get('l'))
        ms = [f for f in p.fns.values() if f.cls == cls and f.blocks]
        ctors = [f for f in ms if 'ctor' in f.d]
        dtors = [f for f in ms if f.n.startswith('~')]
        ctx.require(ctors and dtors, 'constructors or destructor of %s not found' % cls)
        # constructors that exist but have no analysed body
        for m in rec['methods']:
            if m.get('ctor') and not m.get('deleted') and m['usr'] not in p.fns:
                used = m['usr'] in p.defaulted
                ctx.ob('no-uncounted-constructor', '%s %s' % (cls, m['t']), not used and m['acc'] == 'private' or
                       m['acc'] == 'private', 'instances of %s can be made by a compiler-made constructor that does not count them' % cls, loc=rec.get('l'))
        touch = set(f.usr for f in use.get((usr, qn), []))
        covered = set()
        for f in ctors + dtors:
            cl = C(usr, cls)
            cl.touch = touch
            I = Interp(p, cl)
            st = State()
            st.mem[('gh', 'cnt')] = c(0)
            ctx.seen(f)
            deleg = False
            try:
                outs = I.run_fn(I.frame(f, None, None, THIS), st)
            except Budget:
                ctx.ob('balance', f.qt, None)
                continue
            covered |= {fr.fn.usr for fr in I.frames.values()}
            want = 1 if f in ctors else -1
            if f in ctors and f.d.get('implicit') and f.d['ctor'] in ('copy', 'move') and not any(1 for o in outs):
                continue
            for k, s, v in outs:
                d = I.rd(s, ('gh', 'cnt'))
                w = c(want if k == 'ret' or f in dtors else 0)
                ctx.ob('balance', '%s %s' % (f.qt, f.l), d == w, '%s changes %s by %s on a %s path, not by %d' % (
                    f.n, qn, d[1] if d[0] == 'c' else 'an unknown amount', 'normal' if k == 'ret' else 'throwing', w[1]), f)
        for f in use.get((usr, qn), []):
            ctx.ob('only-ctor-dtor', '%s in %s' % (qn, f.qt), f.usr in covered, '%s changes %s outside construction and destruction' % (
                f.qt, qn), f)
            # helpers must not be called from anywhere else
            if f.cls != cls or not ('ctor' in f.d or f.n.startswith('~')):
                for g in p.fns.values():
                    if g.usr not in covered and any(n.get('fn') == f.usr for n in g.nodes.values()):
                        ctx.ob('only-ctor-dtor', '%s via %s in %s' % (qn, f.qt, g.qt), False,
                               '%s changes %s outside construction and destruction' % (g.qt, qn), g)
