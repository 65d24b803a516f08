"""Lock discipline, by abstract interpretation of every function that touches shared state or takes a lock.

Each access (read, write, member call, argument) to guarded state must happen while the mutex of the same object is held; each
release must follow an acquisition, and every way out of a function leaves the locks as they were. Private helpers are analysed
inside each of their callers. A constructor may touch its own object until a thread
has been started on it."""
from pv.interp import Interp, State, Budget
from rules import locks


def analyse(ctx, client):
    p = ctx.p
    es, direct = locks.entries(p)
    n = 0
    for f in es:
        I = Interp(p, client, 200000)
        st = State()
        fr = I.frame(f, None, None, locks.THIS)
        client.own = locks.THIS if 'ctor' in f.d else None
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('analysed', f.qt, None)
            continue
        ctx.seen(f)
        n += 1
        yield f, I, outs
    ctx.require(n >= 15, 'only %d functions with locks or shared state' % n)


def run(ctx):
    p = ctx.p
    for r in p.recs.values():
        fs = r.get('fields', [])
        if any(x['t'] == 'epicsMutex' for x in fs):
            for x in fs:
                known = x['q'] in locks.GUARDED or x['q'] in locks.FREE or x.get('const') or x['t'].startswith('const ')
                ctx.ob('classified', x['q'], True if known else None)
    for g in locks.GUARDED:
        cls, _, m = g.rpartition('::')
        rs = p.rec_q.get(cls)
        ctx.require(rs and any(x['n'] == m for r in (rs if isinstance(rs, list) else [rs]) for x in r.get('fields', [])),
                    'guarded state %s not found' % g)
    cl = locks.Guards(ctx)
    for f, I, outs in analyse(ctx, cl):
        for k in [k for k in I.obl if k[0] == 'callback']:
            del I.obl[k]
        for k in [k for k in I.reports if k[0] == 'callback']:
            del I.reports[k]
        ctx.absorb(I)
        for kd, st, v in outs:
            h = locks.held(st)
            ctx.ob('balanced', f.qt, not h, 'a lock is still held when %s (%s)' % (
                'it returns' if kd == 'ret' else 'an exception leaves it', ', '.join(locks.kind(x) for x in h)), f)
    ctx.require(len(cl.sites) >= 40, 'only %d accesses to guarded state found' % len(cl.sites))
    ctx.info['accesses'] = len(cl.sites)
    ctx.info['guarded'] = sorted(set(locks.GUARDED) | set(locks.FOREIGN))
    ctx.assume.append('the table of guarded state and its locks (rules/locks.py); objects reached through different paths are different')
