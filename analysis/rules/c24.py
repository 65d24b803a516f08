"""Calls out of the library while a lock is held, by abstract interpretation of every function that takes a lock.

At each call of user supplied code (virtual functions of classes users derive from, function objects, function pointers) and at each
wait for an event or a thread, the set of held locks must be empty on every path; and no two locks are ever taken in opposite orders."""
from rules import locks
from rules.c23 import analyse


def run(ctx):
    cl = locks.Guards(ctx)
    for f, I, outs in analyse(ctx, cl):
        for d in (I.obl, I.reports):
            for k in [k for k in d if k[0] != 'callback']:
                del d[k]
        ctx.absorb(I)
    out = sorted(set(cl.blocking.values()))
    ctx.require(any('callback' in x for x in out) and any('timerStopped' in x for x in out) and any('show' in x for x in out)
                and any('exitWait' in x for x in out) and any('wait()' in x for x in out), 'calls out not found: %s' % out)
    ctx.info['calls_out'] = out
    order = {}
    for (a, b), (f, l) in cl.edges.items():
        order.setdefault(a, set()).add(b)
    for (a, b), (f, l) in cl.edges.items():
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += order.get(x, ())
        ok = a not in seen or a == b
        ctx.ob('lock-order', '%s before %s' % (a, b), ok, '%s is taken while %s is held, and elsewhere the other way round' % (b, a), f, l)
    ctx.info['lock_order'] = ['%s > %s' % e for e in sorted(cl.edges)]
    ctx.assume.append('EPICS mutexes are recursive: taking a held mutex again in one thread is allowed')
