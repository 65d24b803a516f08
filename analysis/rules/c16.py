"""Length limits of fixed and bounded types, by abstract interpretation of every member of every array field class and of the
string field over symbolic lengths, limits and type kinds.

On every way out of every operation the field has either the length it had, or a length the type allows: equal to the
size of a fixed type, at most the bound of a bounded type (given that the length before was within the bound). A string
field never ends with a text longer than its limit. The common check refuses exactly the lengths that are not allowed, and
setting a capacity is checked like a length. swap() and reuse() are documented as unchecked building blocks."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Budget, State
from .arrfld import *

TYP, MAX = ('asz',), ('maxcap',)


def cases(I, st, asz):
    """the state split by the kind of the array type"""
    for nm in sorted(asz):
        s = st.fork()
        if I.assume(s, ('cmp', '==', sub(TYP, c(asz[nm]))), True):
            yield nm, s


def allowed(I, s, nm, n):
    if nm == FIXED:
        return bool(I.ge0(s, sub(n, MAX)) and I.ge0(s, sub(MAX, n)))
    if nm == BOUNDED:
        return bool(I.ge0(s, sub(MAX, n)))
    return True


def run(ctx):
    p = ctx.p
    asz = sizes(ctx)
    lin.setrange(MAX, 0, 1 << 60)
    lin.setrange(TYP, min(asz.values()), max(asz.values()))
    # the common check
    fs = [f for f in p.fns.values() if f.qt == NS + 'PVArray::checkLength' and f.blocks]
    ctx.require(len(fs) == 1, 'PVArray::checkLength not found')
    cl = FieldClient()
    cl.asz = asz
    cl.cls = NS + 'PVArray'
    I = Interp(p, cl)
    fr = I.frame(fs[0], None, None, THIS)
    par = ('init', ('var', fr.id, fs[0].params[0]))
    outs = I.run_fn(fr, State())
    ctx.seen(fs[0])
    for kind, s, v in outs:
        for nm, s2 in cases(I, s, asz):
            if kind == 'ret':
                ctx.ob('accepts-only-allowed', '%s' % nm, allowed(I, s2, nm, par), 'checkLength() accepts a length that a %s array must not have' % nm, fs[0])
            else:
                # refuses only what is not allowed: the allowed lengths are impossible here
                s3 = s2.fork()
                ok = {FIXED: lambda: I.assume(s3, ('cmp', '==', sub(par, MAX)), True),
                      BOUNDED: lambda: I.assume(s3, ('cmp', '>=', sub(MAX, par)), True), VARIABLE: lambda: True}[nm]()
                ctx.ob('refuses-only-wrong', nm, not ok, 'checkLength() refuses a length that a %s array may have' % nm, fs[0])
    k = 0
    for cls in array_classes(ctx):
        q = value_member(ctx, cls)
        struct = 'std::shared_ptr' in cls
        vo = struct and always_variable(ctx, NS + ('StructureArray' if 'PVStructure' in cls else 'UnionArray'))
        for f in methods(p, cls):
            if f.n in ('swap', 'reuse'):
                continue
            cl = FieldClient()
            cl.asz = asz
            cl.variable_only = vo
            st = start(ctx, cl, cls, (q,))
            L = ('fld', THIS, q)
            I = Interp(p, cl, budget=100000)
            fr = I.frame(f, None, None, THIS)
            n0 = ('init', ('fld', L, '#len'))
            lin.setrange(n0, 0, 1 << 60)
            try:
                outs = I.run_fn(fr, st)
            except Budget:
                ctx.ob('length-allowed', name(f), None)
                continue
            ctx.seen(f)
            k += 1
            for kind, s, v in outs:
                n = cl.len(I, s, L)
                if n == n0:
                    ctx.ob('length-allowed', '%s: %s' % (name(f), kind))
                    if f.n == 'setCapacity' and kind == 'ret' and not vo:
                        par = ('init', ('var', fr.id, f.params[0]))
                        for nm, s2 in cases(I, s, asz):
                            ctx.ob('capacity-checked', '%s: %s' % (name(f), nm), allowed(I, s2, nm, par),
                                   'setCapacity() accepts a capacity that a %s array must not have' % nm, f)
                    continue
                if vo:
                    ctx.ob('length-allowed', '%s: %s' % (name(f), kind))
                    continue
                for nm, s2 in cases(I, s, asz):
                    if nm == BOUNDED and not I.assume(s2, ('cmp', '>=', sub(MAX, n0)), True):
                        continue
                    ctx.ob('length-allowed', '%s: %s %s' % (name(f), kind, nm), allowed(I, s2, nm, n),
                           '%s() can leave a %s array with a length its type does not allow' % (f.n, nm), f)
    # strings
    str_cls = [x for x in sorted({f.cls for f in p.fns.values() if f.cls and f.cls.startswith(PVS + 'std::basic_string') and f.blocks})]
    ctx.require(len(str_cls) == 1, 'string field class not found')
    ops = [r for r in p.recs.values() if r['q'].endswith('detail::ScalarStorageOps') and any(x['q'].endswith('maxLength') for x in r['fields'])]
    ctx.require(len(ops) == 1, 'string storage not found')
    vq = [x['q'] for x in ops[0]['fields'] if 'string' in x['t']]
    mq = [x['q'] for x in ops[0]['fields'] if x['t'] == 'unsigned long']
    sto = [x['q'] for x in p.rec_qt[str_cls[0]]['fields'] if 'ScalarStorageOps' in x['t']]
    ctx.require(len(vq) == len(mq) == len(sto) == 1, 'string storage members not found')
    S = ('fld', THIS, sto[0])
    lv, lm = ('fld', S, vq[0]), ('fld', S, mq[0])
    for f in methods(p, str_cls[0]) + methods(p, NS + 'PVString'):
        cl = FieldClient()
        cl.asz = asz
        st = start(ctx, cl, NS + 'PVString', (sto[0],))
        cl.bases = (str_cls[0],)
        I = Interp(p, cl, budget=60000)
        fr = I.frame(f, None, None, THIS)
        m = ('init', lm)
        lin.setrange(m, 0, 1 << 60)
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('text-within-limit', name(f), None)
            continue
        ctx.seen(f)
        k += 1
        for kind, s, v in outs:
            t = I.rd(s, lv)
            ok = t == ('init', lv)
            if not ok:
                for has in (True, False):
                    s2 = s.fork()
                    if not I.assume(s2, ('cmp', '>=', sub(m, c(1))), has):
                        continue
                    ln = c(len(t[1])) if t[0] == 'str' else ('strlen', t)
                    ctx.ob('text-within-limit', '%s: %s limited=%s' % (name(f), kind, has), not has or bool(I.ge0(s2, sub(m, ln))),
                           '%s() can store a text longer than the limit' % f.n, f)
            ctx.ob('text-within-limit', '%s: %s' % (name(f), kind))
            ctx.ob('limit-constant', '%s: %s' % (name(f), kind), I.rd(s, lm) == m, '%s() changes the limit' % f.n, f)
    # the limit of a string field is taken from its type
    cs = [f for f in p.fns.values() if f.qt == NS + 'PVString::PVString' and f.blocks and not f.d.get('implicit')]
    ctx.require(len(cs) == 1, 'PVString constructor not found')
    cl = FieldClient()
    cl.asz = asz
    start(ctx, cl, NS + 'PVString', ())
    I = Interp(p, cl)
    fr = I.frame(cs[0], None, None, THIS)
    outs = I.run_fn(fr, State())
    ctx.seen(cs[0])
    kinds = set()
    for kind, s, v in outs:
        m = I.rd(s, lm)
        d = [t for t in s.facts if t[0] == 'dyn' and 'BoundedString' in t[1]]
        bounded = not (d and I.truth(s, I.compare(s, d[0], C0, '==')) is True) and bool(d)
        kinds.add(bounded)
        want = m[0] == 'call' and m[1].endswith('::getMaximumLength') if bounded else m == C0
        ctx.ob('limit-from-type', 'PVString bounded=%s' % bounded, want, 'the limit of a string field is not the one of its type', cs[0])
    ctx.ob('limit-from-type', 'PVString both kinds', kinds == {True, False}, 'the limit of a string field does not depend on its type', cs[0])
    ctx.info['operations'] = k
    ctx.assume += ['lengths are below 2^60', 'the length of a bounded array was within its bound before the operation (base case: new arrays are empty)']

