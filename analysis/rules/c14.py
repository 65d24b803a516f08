"""Refusal on immutable fields, by abstract interpretation of the checked modifying operations with the field immutable.

Each of them ends in an error, or in a return that is documented to do nothing, and has changed neither the value nor any
part of it. Immutability is permanent: outside construction only 'true' is stored to the flag, and making a structure
immutable makes every subfield immutable."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Budget, State, strip_t
from .arrfld import *

#  operation -> may it return (without a change) on an immutable field
COPY = {'copy': False, 'assign': False}
ARRAY = {'setLength': False, 'setCapacity': False, 'swap': False, 'append': False, 'remove': True, 'compress': True, 'copy': False,
         'reuse': False, 'replace': False}


class C(FieldClient):
    def pre_call(self, I, st, fr, nid, n, a):
        r = FieldClient.pre_call(self, I, st, fr, nid, n, a)
        if r is None and n.get('fname') in CHILD_CHANGE and n.get('mem') and not n.get('cm') and not n.get('static') \
                and self.isfield(I, n.get('cls')):
            if a[0] != THIS or self.target(I, st, fr, nid, n, a[0]) is None:
                self.changed(I, st, fr, nid)
        return r

    def isfield(self, I, t):
        return bool(t) and (NS + 'PVField') in lineage(I.p, t)

    def target(self, I, st, fr, nid, n, obj):
        return I.target(st, fr, nid, n, obj)


def run(ctx):
    p = ctx.p
    asz = sizes(ctx)
    flag = [x['q'] for x in p.rec_qt[NS + 'PVField']['fields'] if x['q'].endswith('::immutable')]
    ctx.require(len(flag) == 1, 'PVField::immutable not found')
    flag = flag[0]
    FL = ('fld', THIS, flag)

    work = []
    for cls in array_classes(ctx):
        have = set()
        for k in lineage(p, cls):
            for f in methods(p, k):
                if f.n in ARRAY and (f.n, len(f.params)) not in have and (k == cls or f.n == 'reuse' or 'std::shared_ptr' not in cls):
                    have.add((f.n, len(f.params)))
                    work.append((cls, f, ARRAY[f.n]))
        need = {'setLength', 'setCapacity', 'swap', 'replace'}
        if 'std::shared_ptr' in cls:
            need |= {'append', 'remove', 'compress', 'copy'}
        ctx.require(need <= {x[0] for x in have}, '%s: operations not found: %s' % (cls, need - {x[0] for x in have}))
    scal = sorted({f.cls for f in p.fns.values() if f.cls and f.cls.startswith(PVS) and f.blocks})
    ctx.require(len(scal) >= 12, 'scalar field classes not found')
    for cls in scal + [NS + x for x in ('PVScalarArray', 'PVStructure', 'PVUnion', 'PVField')]:
        fs = [f for f in methods(p, cls) if f.n in COPY]
        ctx.require(fs, '%s::copy not found' % cls)
        work += [(cls, f, False) for f in fs]
    fs = [f for f in methods(p, NS + 'PVArray') if f.n == 'setCapacityMutable']
    ctx.require(fs, 'PVArray::setCapacityMutable not found')
    for cls, f, may_ret in work:
        cl = C()
        cl.asz = asz
        fields = tuple(x['q'] for k in lineage(p, cls) for x in (p.rec_qt.get(k) or {}).get('fields', [])
                       if is_sv(x['t']) or 'ScalarStorageOps' in x['t'] or (k == NS + 'PVUnion' and x['q'].split('::')[-1] in ('value', 'selector')))
        st = start(ctx, cl, cls, fields)
        st.mem[FL] = C1
        I = Interp(p, cl, budget=100000)
        fr = I.frame(f, None, None, THIS)
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('refused', name(f), None)
            continue
        ctx.seen(f)
        short = '%s in %s' % (name(f), cls.replace(NS, ''))
        if f.n == 'replace' and any(kind == 'ret' for kind, s, v in outs):
            ctx.ob('refused', short, False, 'replace() of an immutable array succeeds although it is documented to fail', f)
        for kind, s, v in outs:
            if f.n == 'replace' and kind == 'ret':
                continue          # reported once, as a refusal that is missing
            ctx.ob('unchanged', '%s: %s' % (short, kind), I.rd(s, ('gh', 'changed')) == C0,
                   '%s() changes an immutable %s' % (f.n, cls.replace(NS, '')), f)
            if kind == 'ret' and not may_ret and f.n != 'replace':
                ctx.ob('refused', short, False, '%s() of an immutable %s reports success' % (f.n, cls.replace(NS, '')), f)
            ctx.ob('flag-kept', '%s: %s' % (short, kind), I.rd(s, FL) == C1, '%s() makes the field mutable' % f.n, f)
        ctx.ob('refused', short)
    # permanence
    k = 0
    for f in p.fns.values():
        for nid, n in f.nodes.items():
            if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ('=', '|=', '&=', '^=') \
                    and f.nodes[n['o'][0]].get('m') == flag:
                x = f.nodes[n['o'][1]]
                k += 1
                ctx.ob('permanent', '%s %s' % (f.qt, n['l']), n['op'] in ('=', '|=') and x.get('cv') == 1,
                       'something other than true is stored to the immutable flag', f, n['l'])
    ctx.require(k, 'no store to the immutable flag found')
    # structure: all subfields
    for q, want in ((NS + 'PVField', None), (NS + 'PVArray', None), (NS + 'PVStructure', 'subfields')):
        fs = [f for f in methods(p, q) if f.n == 'setImmutable']
        ctx.require(len(fs) == 1, '%s::setImmutable not found' % q)
        for cnt in (0, 1, 3) if want else (0,):
            cl = Imm()
            cl.asz = asz
            cl.unroll = 4
            st = start(ctx, cl, q, ())
            st.mem[FL] = C0
            st.mem[('gh', 'imm')] = ()
            for x in p.rec_qt[q]['fields']:
                if strip_t(x['t']) == 'std::vector':
                    st.mem[('fld', ('fld', THIS, x['q']), '#n')] = c(cnt)
            I = Interp(p, cl)
            outs = I.run_fn(I.frame(fs[0], None, None, THIS), st)
            ctx.seen(fs[0])
            ctx.ob('sets-flag', '%s ends' % name(fs[0]), bool(outs) and not I.exceeded, 'setImmutable() does not end', fs[0])
            for kind, s, v in outs:
                ctx.ob('sets-flag', name(fs[0]), kind == 'throw' or I.rd(s, FL) == C1, 'setImmutable() does not make the field immutable', fs[0])
                ctx.ob('sets-subfields', '%s with %d subfields' % (name(fs[0]), cnt), len(set(I.rd(s, ('gh', 'imm')))) == cnt,
                       'setImmutable() of a structure can leave a subfield mutable', fs[0])
    ctx.assume += ['put(), putFrom(), the decoders and the copyUnchecked() family are documented or named as unchecked']


class Imm(FieldClient):
    """setImmutable() of a structure: a loop over all subfields"""
    def pre_call(self, I, st, fr, nid, n, a):
        if n.get('fname') == 'setImmutable' and a[0] != THIS:
            st.mem[('gh', 'imm')] = I.rd(st, ('gh', 'imm')) + (a[0],)
            return [('ret', st, C0)]
        return FieldClient.pre_call(self, I, st, fr, nid, n, a)
