"""Notification after change, by abstract interpretation of the value-setting operations of every field class.

An operation that ends normally after it changed the value (or let a member value be changed) has notified the listener of
the field after its last change; one that ends with an error has not notified without a change. PVField::postPut() calls the
handler exactly once if there is one and nothing otherwise, and a handler cannot be replaced by a different one. Length
editing (setLength, setCapacity, append, remove, compress, swap, reuse) leaves notification to its caller, as documented
for swap(); so do PVUnion::select() and the decoders of scalars and unions, whose containers notify."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Budget, State, strip_t
from .arrfld import *
from .c14 import C

SETTERS = ('put', 'putFrom', 'assign', 'copy', 'copyUnchecked', 'operator<<=', 'replace', '_putFromVoid', 'set')


class N(C):
    def pre_call(self, I, st, fr, nid, n, a):
        if n.get('fname') == 'postPut' and n.get('cls') == NS + 'PostHandler':
            st.mem[('gh', 'handler')] = I.rd(st, ('gh', 'handler')) + (a[0],)
            return [('ret', st, C0)]
        if getattr(self, 'raw', False):
            return None
        return C.pre_call(self, I, st, fr, nid, n, a)


def run(ctx):
    p = ctx.p
    asz = sizes(ctx)
    work = []
    for cls in array_classes(ctx):
        fs = [f for f in methods(p, cls) if f.n in SETTERS or f.n == 'deserialize']
        ctx.require({'replace', 'deserialize'} <= {f.n for f in fs}, '%s: setters not found' % cls)
        work += [(cls, f) for f in fs]
    scal = sorted({f.cls for f in p.fns.values() if f.cls and f.cls.startswith(PVS) and f.blocks})
    ctx.require(len(scal) >= 12, 'scalar field classes not found')
    for cls in scal:
        fs = [f for f in methods(p, cls) if f.n in SETTERS]
        ctx.require({'put', 'putFrom', 'copy', 'copyUnchecked'} <= {f.n for f in fs}, '%s: setters not found' % cls)
        work += [(cls, f) for f in fs]
    fs = [f for f in methods(p, NS + 'PVUnion') if f.n in SETTERS]
    ctx.require({'set', 'copyUnchecked'} <= {f.n for f in fs}, 'setters of PVUnion not found')
    work += [(NS + 'PVUnion', f) for f in fs]
    k = 0
    for cls, f in work:
        cl = N()
        cl.asz = asz
        fields = tuple(x['q'] for kk in lineage(p, cls) for x in (p.rec_qt.get(kk) or {}).get('fields', [])
                       if is_sv(x['t']) or 'ScalarStorageOps' in x['t'] or (kk == NS + 'PVUnion' and x['q'].split('::')[-1] in ('value', 'selector')))
        ctx.require(fields, '%s: value member not found' % cls)
        st = start(ctx, cl, cls, fields)
        I = Interp(p, cl, budget=100000)
        fr = I.frame(f, None, None, THIS)
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('notified', name(f), None)
            continue
        ctx.seen(f)
        k += 1
        any_change = False
        for kind, s, v in outs:
            ch, po = I.rd(s, ('gh', 'changed')), I.rd(s, ('gh', 'posted'))
            any_change |= ch == C1
            if kind == 'ret':
                ctx.ob('notified', name(f), ch == C0 or po == C1, '%s() returns after a change without notifying the listener' % f.n, f)
            else:
                ctx.ob('no-idle-notice', '%s: error' % name(f), ch == C1 or I.rd(s, ('gh', 'posts')) == C0,
                       '%s() notifies the listener although nothing was changed' % f.n, f)
        ctx.ob('changes', name(f), any_change, '%s() never changes the value' % f.n, f)
    # the notification itself
    rec = p.rec_qt[NS + 'PVField']
    h = [x['q'] for x in rec['fields'] if 'PostHandler' in x['t']]
    ctx.require(len(h) == 1, 'handler member not found')
    H = ('fld', THIS, h[0])
    fs = [f for f in methods(p, NS + 'PVField') if f.n in ('postPut', 'setPostHandler')]
    ctx.require(len(fs) == 2, 'PVField::postPut and setPostHandler not found')
    for f in fs:
        cl = N()
        cl.raw = True
        cl.asz = asz
        cl.cls = NS + 'PVField'
        st = State()
        st.mem[('gh', 'handler')] = ()
        I = Interp(p, cl)
        fr = I.frame(f, None, None, THIS)
        for kind, s, v in I.run_fn(fr, st):
            none = I.truth(s, I.compare(s, ('init', H), C0, '=='))
            calls = I.rd(s, ('gh', 'handler'))
            if f.n == 'postPut':
                for val in (True, False):
                    s2 = s.fork()
                    if none is None or none is val:
                        if I.assume(s2, I.compare(s2, ('init', H), C0, '=='), val):
                            want = 0 if val else 1
                            ctx.ob('handler-called', 'handler %s' % ('absent' if val else 'present'), kind == 'ret' and len(calls) == want and
                                   all(x == I.deref(('init', H)) for x in calls),
                                   'postPut() does not call the handler exactly once', f)
            else:
                new = I.rd(s, H)
                par = ('init', I.deref(('init', ('var', fr.id, f.params[0])))) if f.vars[f.params[0]].get('ref') else ('init', ('var', fr.id, f.params[0]))
                if none is True:
                    ctx.ob('handler-set', 'first handler', kind == 'ret' and new == par, 'setPostHandler() does not store the handler', f)
                else:
                    ctx.ob('handler-set', 'another handler', new == ('init', H), 'setPostHandler() replaces a handler', f)
                    eq = I.truth(s, I.compare(s, ('init', H), par, '=='))
                    ctx.ob('handler-set', 'another handler: %s' % kind, kind == 'throw' or eq is True,
                           'setPostHandler() ignores a second handler without an error', f)
        ctx.seen(f)
    ctx.info['operations'] = k
