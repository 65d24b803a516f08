"""Value retention of array fields, by abstract interpretation of every member of every array class over a token model of
the storage.

Each way out of each operation (normal, refused by the operation itself, early) leaves the field with elements: either the
ones it had, or ones that were put there by the operation; never the empty vector that is there while the operation has
taken the elements out. Only swap() and reuse(), whose purpose is to take the elements out, may. Operations that only read
leave value and length as they were, and each operation that succeeds leaves exactly the number of elements it was asked for."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Budget, strip_t
from .arrfld import *


def same(I, st, a, b):
    return a == b or bool(I.ge0(st, sub(a, b)) and I.ge0(st, sub(b, a)))


def run(ctx):
    p = ctx.p
    asz = sizes(ctx)
    k = 0
    for cls in array_classes(ctx):
        q = value_member(ctx, cls)
        struct = 'std::shared_ptr' in cls
        vo = False
        if struct:
            vo = always_variable(ctx, NS + ('StructureArray' if 'PVStructure' in cls else 'UnionArray'))
        seen = set()
        for f in methods(p, cls):
            seen.add(f.n)
            if f.n in ('swap', 'reuse'):
                continue
            cl = FieldClient()
            cl.asz = asz
            cl.variable_only = vo
            st = start(ctx, cl, cls, (q,))
            L = ('fld', THIS, q)
            I = Interp(p, cl, budget=100000)
            fr = I.frame(f, None, None, THIS)
            try:
                outs = I.run_fn(fr, st)
            except Budget:
                ctx.ob('value-kept', name(f), None)
                continue
            ctx.absorb(I)
            ctx.seen(f)
            k += 1
            const = f.d.get('const') or f.d.get('cm')
            for x in f.params:
                if f.vars[x]['t'] == 'unsigned long':
                    lin.setrange(('init', ('var', fr.id, x)), 0, 1 << 60)
            for kind, s, v in outs:
                t, n = cl.tok(I, s, L), cl.len(I, s, L)
                ctx.ob('value-kept', '%s: %s' % (name(f), kind), t != C0,
                       'the field can be left empty by %s of %s()' % ('a return' if kind == 'ret' else 'an error out', f.n), f)
                n0 = ('init', ('fld', L, '#len'))
                if kind == 'ret':
                    par = [('init', ('var', fr.id, x)) for x in f.params]
                    want = None
                    if f.n == 'setLength':
                        want = par[0]
                    elif f.n == 'setCapacity' or const or f.n in ('setImmutable', 'setCapacityMutable'):
                        want = n0
                    elif f.n == 'append' and struct:
                        want = I.arith(s, {'w': 64, 'u': True}, n0, par[0], '+')
                        ctx.ob('result', name(f), same(I, s, v, n), '%s() does not return the new length' % f.n, f)
                    elif f.n == 'remove' and struct:
                        r = I.truth(s, v)
                        want = n0 if r is False else sub(n0, par[1]) if r is True else None
                        if r is False:
                            ctx.ob('refused-unchanged', name(f), I.rd(s, ('gh', 'changed')) == C0, 'remove() reports failure after a change', f)
                        ctx.ob('result', name(f), r is not None, 'the result of remove() does not tell what it did', f)
                    elif f.n == 'replace':
                        src = I.deref(par[0])
                        ctx.ob('value-set', name(f), t == cl.tok(I, s, src), 'replace() does not store the new elements', f)
                        want = cl.len(I, s, src)
                    if want is not None:
                        ctx.ob('new-length', name(f), same(I, s, n, want), 'the field does not have the expected number of elements after %s()' % f.n, f)
                if const:
                    ctx.ob('reader-keeps', '%s: %s' % (name(f), kind), t == ('init', ('fld', L, '#tok')),
                           '%s() changes the value' % f.n, f)
                if kind == 'throw':
                    ctx.ob('refused-unchanged', name(f), I.rd(s, ('gh', 'changed')) == C0,
                           '%s() refuses after it has changed the field' % f.n, f)
        need = {'setLength', 'setCapacity', 'replace', 'serialize', 'deserialize', 'view', 'swap'}
        ctx.require(need <= seen, '%s: operations not found: %s' % (cls, need - seen))
    ctx.info['operations'] = k
    ctx.assume += ['allocation does not fail', 'the byte source does not abort a decode in the middle (the value is then unspecified)',
                   'a vector that was thawed can be frozen']
