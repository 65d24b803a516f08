"""Order and time of timer callbacks, by abstract interpretation of every member of the timer over all queues of bounded length.

Queue entries are only added by an insertion that keeps the queue ordered by time, with a comparison that is exactly "earlier than"; the
time of an entry is the current time plus the delay given, or its last time plus its period; only the entry at the front is called, on a
path that found its time not later than the current time, and it is queued again exactly if it has a period; the timer thread sleeps
exactly until the front entry is due."""
from rules import c25

MINE = ('order', 'insert', 'called', 'periodic')


def run(ctx):
    for f, I, outs in c25.analyse(ctx):
        for k in [k for k in I.obl if k[0] not in MINE and not (k[0] == 'wakeup' and 'limit' in k)]:
            del I.obl[k]
        for k in [k for k, r in I.reports.items() if k[0] not in MINE and not (k[0] == 'wakeup' and 'another time' in r['msg'])]:
            del I.reports[k]
        ctx.absorb(I)
    k = ctx.info['counts']
    ctx.require(k.get('callback', 0) > 0 and k.get('timerStopped', 0) > 0, 'calls of callbacks not found')
    if ctx.violations:
        return
    for what in ('expiry', 'period', 'comparator', 'expired', 'from the queue', 're-queued', 'limit'):
        ctx.require(any(w[1].endswith(': ' + what) for w in ctx.obl), 'nothing found about: ' + what)
    ctx.assume.append('epicsTime arithmetic and comparison are exact; std::list::merge keeps sorted lists sorted')
