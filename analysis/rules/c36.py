"""Typestate of the status class, by abstract interpretation of all its members over every severity.

Every store to the severity is provably one of the declared enumerators; a severity taken from a peer is stored only after
it was checked, and nothing of the object has changed when it is refused; the short OK code leaves OK without texts; an OK
status cannot be constructed with a message; combining two statuses takes over either all of the other one (exactly when
its severity is higher) or nothing; the success predicates hold for exactly the right severities; the encoder sends the
severity it holds."""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, strip_t

Q = 'epics::pvData::Status'
THIS = ('this0',)
WIRE = ('wire', 'type')


class C(Client):
    def inline(self, I, fn, fr):
        return fn.cls == Q or fn.file.endswith('status.cpp')

    def pre_call(self, I, st, fr, nid, n, a):
        fq = strip_t(n.get('fq') or '')
        if fq.startswith('epics::pvData::ByteBuffer::'):
            nm = n['fname']
            if nm.startswith('get') and n['t'] in ('signed char', 'char', 'unsigned char', 'epics::pvData::int8', 'int8', 'int8_t'):
                I.cl.gets += 1
                lin.setrange(WIRE, -128, 127)
                return [('ret', st, WIRE if n['t'] != 'unsigned char' else I.intcast(st, {'w': 8, 'u': True}, WIRE))]
            if nm.startswith('put') and a[1]:
                st.mem[('gh', 'out')] = I.rd(st, ('gh', 'out')) + (I.aval(st, fr, a[1][-1]),)
                return [('ret', st, c(0))]
        if n.get('fname') == 'serializeString':
            st.mem[('gh', 'out')] = I.rd(st, ('gh', 'out')) + (I.rd(st, I.aloc(st, fr, a[1][0])),)
            return [('ret', st, c(0))]
        return None

    def on_write(self, I, st, fr, nid, loc, val):
        if loc[0] == 'fld' and loc[2] == self.tf and val is not None:
            lo, hi = self.lo, self.hi
            ok = I.ge0(st, sub(val, c(lo))) and I.ge0(st, sub(c(hi), val))
            I.oblige('severity-in-range', fr, nid, 'store of the severity', True if ok else False,
                     'a severity is stored that may be none of the defined ones')


def run(ctx):
    p = ctx.p
    rec = p.rec_qt.get(Q)
    ctx.require(rec, 'class Status not found')
    en = p.enums.get(Q + '::StatusType')
    ctx.require(en, 'enum StatusType not found')
    vals = sorted(v['v'] for v in en['vals'])
    by = {v['n'].split('::')[-1]: v['v'] for v in en['vals']}
    ctx.require(set(by) >= {'STATUSTYPE_OK', 'STATUSTYPE_WARNING', 'STATUSTYPE_ERROR', 'STATUSTYPE_FATAL'}, 'severities not found')
    ctx.ob('enum', 'severities are consecutive and ordered', vals == list(range(len(vals))) and
           by['STATUSTYPE_OK'] < by['STATUSTYPE_WARNING'] < by['STATUSTYPE_ERROR'] < by['STATUSTYPE_FATAL'],
           'the severities are not consecutive in order of weight', loc=en.get('l'))
    OK = by['STATUSTYPE_OK']
    tf = [x for x in rec['fields'] if 'StatusType' in x['t']]
    sf = [x for x in rec['fields'] if 'string' in x['t']]
    ctx.require(len(tf) == 1 and len(sf) == 2, 'members of Status not found')
    tq, strs = tf[0]['q'], [x['q'] for x in sf]
    names = [g for g in p.globs.values() if g['q'] == Q + '::StatusTypeName']
    ctx.require(names, 'table of severity names not found')
    ctx.ob('names', 'one name per severity', '[%d]' % len(vals) in names[0]['t'], 'the table of names %s has not one entry per severity'
           % names[0]['t'], loc=names[0]['l'])
    ms = [f for f in p.fns.values() if f.cls == Q and f.blocks and not f.d.get('static')]
    ctx.require(len(ms) >= 8, 'members of Status not found')

    def interp(f, st=None, other=None):
        cl = C()
        cl.tf, cl.lo, cl.hi, cl.gets = tq, vals[0], vals[-1], 0
        I = Interp(p, cl)
        st = st or State()
        st.mem[('gh', 'out')] = ()
        fr = I.frame(f, None, None, THIS)
        t0 = ('init', ('fld', THIS, tq))
        lin.setrange(t0, vals[0], vals[-1])
        for v in f.params:
            V = f.vars[v]
            if 'StatusType' in V['t']:
                lin.setrange(('init', ('var', fr.id, v)), vals[0], vals[-1])
            elif strip_t(V['t']).replace('const ', '').rstrip(' &') in (Q, 'Status'):
                o = ('init', ('fld', I.deref(('init', ('var', fr.id, v))), tq))
                lin.setrange(o, vals[0], vals[-1])
        outs = I.run_fn(fr, st)
        ctx.seen(f)
        ctx.absorb(I)
        return I, fr, outs
    n = set()
    for f in sorted(ms, key=lambda f: f.l):
        if f.n in ('isOK', 'isSuccess', 'operator bool'):
            for v in vals:
                st = State()
                st.mem[('fld', THIS, tq)] = c(v)
                I, fr, outs = interp(f, st)
                want = v == OK or f.n != 'isOK' and v == by['STATUSTYPE_WARNING']
                got = {I.truth(s, r) for k, s, r in outs if k == 'ret'}
                ctx.ob('predicate', '%s for severity %d' % (f.qt, v), got == {want}, '%s is wrong for severity %d' % (f.n, v), f)
            n.add('pred')
            continue
        I, fr, outs = interp(f)
        fl = lambda s, q: I.rd(s, ('fld', THIS, q))
        ini = lambda q: ('init', ('fld', THIS, q))
        if 'ctor' in f.d and len(f.params) >= 2:
            n.add('ctor')
            for k, s, r in outs:
                if k == 'ret':
                    t = fl(s, tq)
                    ctx.ob('no-ok-with-text', '%s/%d' % (f.qt, len(f.params)), I.truth(s, I.compare(s, t, c(OK), '==')) is False,
                           'an OK status can be constructed with a message', f)
                    ctx.ob('takes-arguments', '%s/%d' % (f.qt, len(f.params)),
                           t == ('init', ('var', fr.id, f.params[0])) and
                           fl(s, strs[0]) == I.rd(s, I.deref(('init', ('var', fr.id, f.params[1])))) and
                           (len(f.params) < 3 or fl(s, strs[1]) == I.rd(s, I.deref(('init', ('var', fr.id, f.params[2]))))),
                           'the constructor does not store its arguments in the matching members', f)
        elif 'ctor' in f.d and not f.params:
            for k, s, r in outs:
                ctx.ob('default-ok', f.qt, fl(s, tq) == c(OK), 'a default status is not OK', f)
        elif f.n in ('maximize', 'operator|='):
            n.add('max')
            ol = I.deref(('init', ('var', fr.id, f.params[0])))
            o = lambda q: ('init', ('fld', ol, q))
            for k, s, r in outs:
                d = sub(o(tq), ini(tq))
                if I.ge0(s, sub(d, c(1))):
                    ok = all(fl(s, q) == o(q) for q in [tq] + strs)
                elif I.ge0(s, scale(d, -1)):
                    ok = all(fl(s, q) == ini(q) for q in [tq] + strs) or I.ge0(s, d) and all(fl(s, q) == o(q) for q in [tq] + strs) and False
                else:
                    ok = False
                ctx.ob('maximize', f.qt, ok, 'combining two statuses does not yield exactly the more severe one', f)
        elif f.n == 'deserialize':
            n.add('des')
            ctx.require(I.cl.gets, 'no severity is read in %s' % f.qt)
            seen = set()
            for k, s, r in outs:
                short = I.truth(s, I.compare(s, WIRE, c(-1), '=='))
                good = I.ge0(s, sub(WIRE, c(vals[0]))) and I.ge0(s, sub(c(vals[-1]), WIRE))
                if k == 'throw' and not good and short is not True:
                    seen.add('bad')
                    ctx.ob('refused-unchanged', f.qt, all(fl(s, q) == ini(q) for q in [tq] + strs),
                           'the object has changed when an undefined severity is refused', f)
                elif k == 'throw':
                    ctx.ob('valid-accepted', f.qt, False, 'a defined severity is refused', f)
                elif short is True:
                    seen.add('short')
                    ctx.ob('short-ok', f.qt, I.truth(s, I.compare(s, fl(s, tq), c(OK), '==')) is True and
                           all(fl(s, q) == ('str', '') for q in strs), 'the short OK code does not leave an OK status without texts', f)
                elif short is None:
                    ctx.ob('short-ok', f.qt, False, 'the short OK code is not told apart', f)
                else:
                    seen.add('full')
                    t = fl(s, tq)
                    ctx.ob('severity-decoded', f.qt, bool(good) and t == WIRE and fl(s, strs[0]) != fl(s, strs[1]) and
                           all(fl(s, q) != ini(q) for q in strs),
                           'the severity received is not checked and stored, or the texts are not taken over', f)
            ctx.ob('all-forms', f.qt, {'short', 'full', 'bad'} <= seen, 'decoding does not tell the short OK code, the defined '
                   'severities and undefined ones apart (%s)' % ' '.join(sorted(seen)), f)
        elif f.n == 'serialize':
            n.add('ser')
            for v in vals:
                st = State()
                st.mem[('fld', THIS, tq)] = c(v)
                I2, fr2, outs2 = interp(f, st)
                for k, s, r in outs2:
                    out = s.mem[('gh', 'out')]
                    full = (c(v), ini(strs[0]), ini(strs[1]))
                    ctx.ob('severity-encoded', '%s for %d' % (f.qt, v), out == full or v == OK and out in ((c(-1),), (c(255),)),
                           'severity %d and its texts are not encoded as such' % v, f)
    ctx.require(n >= {'pred', 'ctor', 'max', 'des', 'ser'}, 'members missing: %s' % n)
