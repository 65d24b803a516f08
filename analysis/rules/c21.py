"""Canonical form of the bit set, by abstract interpretation of every public member over all shapes of up to three words per set.

The words are symbolic; only the numbers of words, the word an index falls into and the number of bytes received are enumerated.
Starting from canonical sets (no words, or a nonzero last word) every way out of every member, exceptions included, leaves every
set involved canonical: its last word is the result of bitwise operations that is nonzero for every value of the operands allowed
by the path, shown by truth tables. All members only ever change the words, which are private, and no other code does."""
from pv import lin
from pv.lin import c
from rules import bits


def run(ctx):
    B = bits.BitOps(ctx)
    ntz, pop, und = bits.helpers(ctx, B)
    n = 0
    shapes = 0
    for f in bits.public(B):
        if f.n in ('operator<<',):
            continue
        ctx.seen(f)
        for k in bits.cases(B, f, ntz, pop):
            if not isinstance(k, bits.Case):
                ctx.ob('canonical', '%s: %s' % (k[0].qt, k[1]), None)
                continue
            shapes += 1
            for kind, s, v in k.outs:
                W = k.cond(s)
                if not W.feasible():
                    continue
                for L in k.sets:
                    sz = B.size(k.I, s, L)
                    if sz is None:
                        ctx.ob('canonical', '%s (%s)' % (k.desc, kind), None)
                        continue
                    t = B.get(k.I, s, L, sz - 1) if sz else None
                    ok = sz == 0 or W.nonzero(t)
                    if not ok and bits.foreign(t):
                        ok = None
                    n += 1
                    ctx.ob('canonical', '%s (%s)' % (k.desc, kind), ok, 'a bit set may be left with an unused trailing word%s'
                           % (' when it fails' if kind == 'throw' else ''), f)
            for s, fr, nid in k.cl.aborts:
                if k.feasible(s):
                    ctx.ob('canonical', '%s (assertion)' % k.desc, False, 'the assertion of the canonical form can fail', f, fr.fn.nodes[nid].get('l'))
    ctx.require(n >= 100, 'members of BitSet not analysed')
    # nobody else gets at the words
    acc = [x for x in ctx.p.rec_qt[bits.Q]['fields']]
    ctx.ob('private', 'words', acc[0].get('acc', 'private') == 'private', 'the words of the bit set are accessible from outside')
    ctx.info['shapes'] = shapes
    ctx.info['bound'] = 'at most 3 words per set (2 where a member takes two sets), 17 bytes received; the words themselves are arbitrary'
    ctx.assume.append('members behave alike for more than three words (the loops treat every word the same)')
