"""Inductive invariant of the time stamp class, by abstract interpretation with linear inequalities.

Every constructor establishes 0 <= nanoseconds <= 999999999 and every other member function that can change the object
preserves it, on every path, for every argument.  Setting, shifting by whole seconds and normalising also leave the
represented instant (seconds * 10^9 + nanoseconds) at exactly the requested value."""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, strip_t

Q = 'epics::pvData::TimeStamp'
THIS = ('this0',)
GIGA = 1000000000


class C(Client):
    def inline(self, I, fn, fr):
        return fn.cls == Q

    def pre_call(self, I, st, fr, nid, n, a):
        if n.get('fq') in ('epicsTimeGetCurrent', 'epicsTimeFromTime_t'):
            v = I.aval(st, fr, a[1][0])
            if v[0] == 'addr':
                I.wr(st, v[1], ('hv', fr.id, nid, 'time'))
                x = ('hv', fr.id, nid, 'nsec')
                lin.setrange(x, 0, GIGA - 1)
                I.wr(st, ('fld', v[1], self.nsec), x)
                y = ('hv', fr.id, nid, 'sec')
                lin.setrange(y, 0, (1 << 32) - 1)
            return [('ret', st, c(0))]
        return None


def run(ctx):
    p = ctx.p
    rec = p.rec_qt.get(Q)
    ctx.require(rec, 'class TimeStamp not found')
    F = {x['q'].split('::')[-1]: x['q'] for x in rec['fields']}
    ctx.require('nanoseconds' in F and 'secondsPastEpoch' in F, 'members of TimeStamp not found')
    nano, secs = ('fld', THIS, F['nanoseconds']), ('fld', THIS, F['secondsPastEpoch'])
    ms = [f for f in p.fns.values() if f.cls == Q and f.blocks and not f.d.get('static')]
    ctx.require(len(ms) >= 15, 'members of TimeStamp not found')
    ets = p.rec_qt.get('epicsTimeStamp')
    n = 0
    for f in sorted(ms, key=lambda f: f.l):
        if f.d.get('implicit'):
            continue
        ctor = 'ctor' in f.d
        cl = C()
        cl.nsec = [x['q'] for x in ets['fields'] if x['q'].endswith('nsec')][0] if ets else 'epicsTimeStamp::nsec'
        I = Interp(p, cl)
        st = State()
        x, y = ('in', 'nano'), ('in', 'secs')
        lin.setrange(x, 0, GIGA - 1)
        if not ctor:
            st.mem[nano], st.mem[secs] = x, y
            if f.n == 'normalize':
                x = ('in', 'anynano')
                lin.setrange(x, -(1 << 31), (1 << 31) - 1)
                st.mem[nano] = x
        fr = I.frame(f, None, None, THIS)
        outs = I.run_fn(fr, st)
        ctx.seen(f)
        prm = [('var', fr.id, v) for v in f.params]
        for k, s, v in outs:
            if k != 'ret':
                continue
            if s.mem.get(nano) == x and f.n != 'normalize' and not ctor:
                ok = True
            else:
                t = I.rd(s, nano)
                good = I.ge0(s, t) and I.ge0(s, sub(c(GIGA - 1), t))
                ok = True if good else False
            ctx.ob('normalised', f.qt + f.l[-5:] if False else '%s(%s)' % (f.qt, ', '.join(f.vars[v]['t'] for v in f.params)), ok,
                   'the nanoseconds may leave 0..999999999 on some path', f)
            n += 1
            # represented instant
            tot = add(scale(I.rd(s, secs), GIGA), I.rd(s, nano))
            old = add(scale(y, GIGA), x)
            P = [('init', q) for q in prm]
            tys = [f.vars[q]['t'] for q in f.params]
            want = None
            if f.n == 'normalize':
                want = old
            elif (f.n == 'put' or ctor) and len(P) >= 2:
                want = add(scale(P[0], GIGA), P[1])
            elif f.n == 'put' and len(P) == 1:
                want = scale(P[0], 1000000)
            elif f.n in ('operator+=', 'operator-=') and tys == ['long']:
                want = add(old, scale(P[0], GIGA if f.n == 'operator+=' else -GIGA))
            if want is not None:
                d = sub(tot, want)
                eq = I.ge0(s, d) and I.ge0(s, scale(d, -1))
                ctx.ob('instant', '%s(%s)' % (f.qt, ', '.join(tys)), bool(eq),
                       'the instant represented afterwards is not the requested one', f)
    ctx.require(n >= 8, 'too few members analysed')
    ctx.assume += ['epicsTimeGetCurrent and epicsTimeFromTime_t deliver nsec < 10^9', 'seconds do not overflow 64 bits']
