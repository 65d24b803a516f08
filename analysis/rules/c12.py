"""Class invariant of shared_vector, by abstract interpretation with linear inequalities of every member of every instantiation.

Assuming offset + total elements lie inside the storage and count <= total on entry, every member function, constructor and
conversion re-establishes it on every way out, throwing ones included, for every object it was given; every block copy and
fill stays inside the allocation it reads or writes; at() returns only elements inside the window and refuses only indexes
outside it; slice() never widens the window; the size after resize, push_back and pop_back is the requested one, and a
reallocation carries over every element that stays visible."""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, State, strip_t, Budget
from .svec import *


class C(SvClient):
    def transfer(self, I, st, fr, nid, what, ok, b, cnt):
        I.oblige('block-inside-storage', fr, nid, what, bool(ok), 'a block %s of elements may reach outside its storage' % what)
        if what == 'write':
            st.mem[('gh', 'copied')] = ('tup', b[2], b[1], cnt)
        else:
            st.mem[('gh', 'from')] = ('tup', b[2], b[1], cnt)


def analyse(ctx, f):
    p = ctx.p
    cl = C()
    I = Interp(p, cl, budget=60000)
    fr = I.frame(f, None, None, THIS)
    ctor = 'ctor' in f.d
    objs = []
    this = Obj(p, f.cls, THIS)
    st = State()
    cl.esz = this.esz
    if not ctor:
        objs.append(('this', this))
    for v in f.params:
        V = f.vars[v]
        t = V['t'].replace(' &&', '').replace(' &', '').strip()
        if t.startswith('const ') and not t.startswith('const epics::pvData::shared_vector<const') or t.startswith('const epics'):
            t = t[6:]
        if t.startswith((SV + '<', BASE + '<')):
            try:
                objs.append((V['n'], Obj(p, t, I.deref(('init', ('var', fr.id, v))) if V.get('ref') else ('var', fr.id, v))))
            except KeyError:
                pass
        elif V.get('u') or V.get('w'):
            lin.setrange(('init', ('var', fr.id, v)), 0, None)
    ptrs = set()
    sts = [st]
    for nm, o in objs:
        ptrs.add(('init', o.ptr))
        nxt = []
        for s in sts:
            o.start(I, s)
            nxt += o.null_facts(I, s)
        sts = nxt
    if ctor:
        # documented precondition of the constructors from raw or smart pointers: c elements at v + o
        P = [('init', ('var', fr.id, v)) for v in f.params]
        V = [f.vars[v] for v in f.params]
        if len(P) in (3, 4) and all(x.get('w') for x in V[-2:]):
            pv = P[0] if not V[0].get('ref') else ('init', I.deref(P[0]))
            lin.setrange(pv, 0, None)
            for s in sts:
                I.fact(s, sub(cap(I, s, pv, this.esz), scale(add(P[-2], P[-1]), this.esz)))
            ptrs.add(pv)
    cl.ptrs = ptrs
    ctx.seen(f)
    name = '%s(%s)' % (f.qt, ', '.join(f.vars[v]['t'] for v in f.params))
    old = {k: ('init', k) for k in this.all}
    for s0 in sts:
        try:
            outs = I.run_fn(fr, s0.fork())
        except Budget:
            ctx.ob('window-inside-storage', name, None)
            continue
        for k, s, v in outs:
            chk = objs + ([('this', this)] if ctor and k == 'ret' else [])
            for nm, o in chk:
                for what, good in o.holds(I, s).items():
                    vals = [I.rd(s, x) for x in o.all]
                    und = not good and any(not I.clean(x) for x in vals)
                    ctx.ob('window-inside-storage', '%s: %s of %s' % (name, what, nm), True if good else None if und else False,
                           '%s of %s is not kept on a %s path' % (what, nm, 'normal' if k == 'ret' else 'throwing'), f)
            o0 = {x: I.rd(s0, x) for x in this.all} if not ctor else {}
            par = [('init', ('var', fr.id, q)) for q in f.params]
            now = {x: I.rd(s, x) for x in this.all}

            def eq(a, b):
                d = sub(a, b)
                return I.ge0(s, d) and I.ge0(s, scale(d, -1))
            if f.n == 'at' and par:
                ins = I.ge0(s, sub(sub(o0[this.cnt], par[0]), c(1)))
                if k == 'ret':
                    ctx.ob('checked-access', name, bool(ins), 'an index that is not below size() is accepted', f)
                    if v is not None and v[0] == 'deref':
                        ctx.ob('checked-access', name + ' element', eq(sub(v[1], o0[this.ptr]), add(o0[this.off], par[0])) or
                               o0[this.ptr] == C0, 'the element returned is not the one at the index', f)
                else:
                    ctx.ob('checked-access', name + ' throw', bool(I.ge0(s, sub(par[0], o0[this.cnt]))),
                           'an index below size() is refused', f)
            if ctor or k != 'ret':
                continue
            if f.n == 'slice':
                ctx.ob('slice-narrows', name, bool(I.ge0(s, sub(now[this.off], o0[this.off])) and
                       I.ge0(s, sub(add(o0[this.off], o0[this.cnt]), add(now[this.off], now[this.cnt]))) and
                       now[this.ptr] == o0[this.ptr]),
                       'the window after slice() is not inside the window before', f)
                # exactly min(length, count - min(offset, count))
                a = I.ge0(s, sub(o0[this.cnt], par[0]))
                b = I.ge0(s, sub(par[0], o0[this.cnt]))
                if len(par) == 2 and (a or b):
                    mo = par[0] if a else o0[this.cnt]
                    rest = sub(o0[this.cnt], mo)
                    good = eq(now[this.off], add(o0[this.off], mo)) and (
                        eq(now[this.cnt], par[1]) or eq(now[this.cnt], rest) and I.ge0(s, sub(par[1], rest)))
                    ctx.ob('slice-exact', name, bool(good), 'slice() does not select the requested part', f)
            want = None
            if f.n == 'resize':
                want = par[0]
            elif f.n == 'push_back':
                want = add(o0[this.cnt], c(1))
            elif f.n == 'pop_back':
                if I.ge0(s, sub(o0[this.cnt], c(1))):
                    want = sub(o0[this.cnt], c(1))
                elif I.ge0(s, scale(o0[this.cnt], -1)):
                    want = C0
                else:
                    continue
            elif f.n == 'clear':
                want = C0
            elif f.n == 'make_unique':
                want = o0[this.cnt]
            if want is not None:
                ctx.ob('size-after', name, bool(eq(now[this.cnt], want)), 'size() after %s is not the requested one' % f.n, f)
            if f.n == 'reserve':
                ctx.ob('capacity-after', name, bool(I.ge0(s, sub(now[this.tot], par[0]))), 'the capacity after reserve() is less than requested', f)
            if f.n in ('resize', 'push_back', 'make_unique', 'reserve') and now[this.ptr] != o0[this.ptr]:
                # reallocated: everything that stays visible was copied
                cp = s.mem.get(('gh', 'copied'))
                fm = s.mem.get(('gh', 'from'))
                keep_old = I.ge0(s, sub(now[this.cnt], o0[this.cnt]))
                keep = o0[this.cnt] if keep_old else now[this.cnt]
                if f.n == 'resize' and len(par) > 1 or f.n == 'push_back':
                    pass
                elif cp is None or fm is None:
                    ctx.ob('elements-kept', name, bool(I.ge0(s, scale(keep, -1))), 'the elements are not carried over by a reallocation', f)
                else:
                    good = I.ge0(s, sub(cp[3], keep)) and cp[1] == now[this.ptr] and cp[2] == now[this.off] and \
                        fm[1] == o0[this.ptr] and eq(fm[2], o0[this.off])
                    ctx.ob('elements-kept', name, bool(good), 'not every element that stays visible is carried over to its place by a reallocation', f)
            elif f.n in ('resize', 'push_back', 'make_unique', 'reserve'):
                ctx.ob('elements-kept', name, bool(eq(now[this.off], o0[this.off])), 'the window moves without reallocation', f)
    ctx.absorb(I)


def run(ctx):
    p = ctx.p
    ms = [f for f in p.fns.values() if f.cls and f.blocks and f.cls.startswith((SV + '<', BASE + '<')) and not f.n.startswith('~')
          and not f.d.get('static')]
    ctx.require(len(ms) >= 150 and {'at', 'slice', 'resize', 'reserve', 'make_unique', 'swap', 'push_back', 'clear'} <= {f.n for f in ms},
                'members of shared_vector not found')
    for f in sorted(ms, key=lambda f: (f.l, f.qt)):
        try:
            o = Obj(p, f.cls, THIS)
        except KeyError:
            ctx.require(False, 'data members of %s not recognised' % f.cls)
        if o.esz is None or f.n == '_null_input':
            continue
        analyse(ctx, f)
    ctx.assume += ['raw and smart pointers given to a constructor point to the number of elements it is given',
                   'byte counts do not overflow 64 bits', 'a null pointer is only held with an empty window (part of the invariant)']
