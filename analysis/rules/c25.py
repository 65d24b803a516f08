"""The timer queue, by abstract interpretation of every member of the timer over all queues of bounded length.

Each time the lock is taken the queue, the flags and the state of the timer are arbitrary subject to the invariant (a callback is marked
as scheduled exactly if it is in the queue, once); each time it is released the invariant must hold again. Inserting at the front of the
queue while the timer thread waits, and closing, must be followed by a wake-up before the call returns or blocks."""
from pv.interp import Interp, Budget
from rules import timer, locks
from rules.timer import G, ALIVE, Q

MEMBERS = ['schedulePeriodic', 'scheduleAfterDelay', 'cancel', 'isScheduled', 'run', 'close', 'dump', '~Timer']
MINE = ('invariant', 'list', 'assert', 'wakeup', 'result', 'unlock')


def analyse(ctx):
    p = ctx.p
    fns = {}
    for r in p.rec_q.get(timer.NS + 'Timer', []):
        for m in r['methods']:
            f = p.fns.get(m['usr'])
            if f is not None and 'ctor' not in f.d:
                fns[f.n] = f
    ctx.require(not set(MEMBERS) - set(fns), 'members of Timer not found: %s' % (set(MEMBERS) - set(fns)))
    n = 3 if ctx.tier == 'thorough' else 2
    names = {x.split('::')[-1] for x in (timer.ON, timer.TTR, timer.PER)}
    tc = p.rec_q.get(timer.NS + 'TimerCallback', [{}])[0]
    ctx.require(names <= {x['n'] for x in tc.get('fields', [])}, 'members of TimerCallback not found')
    counts = {}
    for nm, f in sorted(fns.items()):
        if locks.closed(p, f) and f.n != 'run':
            continue
        cl = timer.T(ctx, n)
        cl.fn = f
        cl.unroll = n + 1 if nm != 'run' else 1
        I = Interp(p, cl, 4000000)
        fr, st = timer.start(I, f)
        try:
            outs = I.run_fn(fr, st)
        except (Budget, timer.Undecided) as e:
            ctx.ob('analysed', '%s: %s' % (f.qt, e), None)
            ctx.absorb(I)
            continue
        ctx.seen(f)
        for k, v in cl.counts.items():
            counts[k] = counts.get(k, 0) + v
        yield f, I, outs
    ctx.info['bound'] = 'queues of up to %d callbacks each time the lock is taken; two rounds of the timer thread' % n
    ctx.info['counts'] = counts


def results(ctx, f, I, outs):
    """what each member reports or leaves behind"""
    X = ('cb', 'p')
    fr = I.frame(f, None, None, locks.THIS)
    for kd, s, v in outs:
        if locks.held(s):
            I.oblige('result', fr, None, 'locks', False, 'it ends with the lock held')
            continue
        I.oblige('wakeup', fr, None, 'before returning', G('pending') not in s.mem, 'it ends without waking the timer thread, which %s' % (
            'may be waiting for a later callback' if f.n != 'close' else 'may never see that the timer was closed'))
        st0 = s.mem.get(G('start'), ('cbs',))[1:]
        fin = s.mem.get(G('fin'), ('cbs',))[1:]
        if f.n == 'cancel':
            if kd == 'throw':
                I.oblige('result', fr, None, 'no error', False, 'cancel() fails for a callback that is properly queued or not')
                continue
            t = I.truth(s, I.rd(s, v) if v[0] in ('tmp', 'var') else v)
            was = X in st0
            I.oblige('result', fr, None, 'cancelled', X not in fin, 'the callback is still queued after cancel()')
            I.oblige('result', fr, None, 'reported', None if t is None else t == was, 'cancel() does not report whether it removed the callback')
            I.oblige('result', fr, None, 'others', set(st0) - {X} == set(fin) - {X}, 'cancel() removes another callback')
        elif f.n == 'isScheduled':
            t = I.truth(s, I.rd(s, v) if v[0] in ('tmp', 'var') else v)
            I.oblige('result', fr, None, 'reported', None if t is None else t == (X in st0), 'isScheduled() does not tell whether the callback is queued')
        elif f.n.startswith('schedule'):
            stopped = X in s.mem.get(G('stopped'), ('cbs',))[1:]
            alive = s.mem.get(G('alive0')) != timer.C0
            if X in st0:
                I.oblige('result', fr, None, 'already queued', kd == 'throw' and st0 == fin, 'scheduling a callback that is queued is not refused')
            elif alive:
                I.oblige('result', fr, None, 'queued', kd == 'ret' and X in fin and not stopped, 'the callback is not queued')
            else:
                I.oblige('result', fr, None, 'closed', kd == 'ret' and X not in fin and stopped, 'scheduling on a closed timer does not report that it is stopped')
            I.oblige('result', fr, None, 'others', [x for x in fin if x != X] == [x for x in st0 if x != X], 'scheduling changes the other callbacks')
        elif f.n == 'close' and kd == 'ret':
            I.oblige('result', fr, None, 'closed', s.mem.get(ALIVE) == timer.C0, 'the timer is still alive after close()')
            stp = s.mem.get(G('stopped'), ('cbs',))[1:]
            I.oblige('result', fr, None, 'drained', sorted(stp) == sorted(x for x in st0 if x not in fin), 'a callback taken out of the queue is not told, or told twice, that the timer stopped')


def run(ctx):
    for f, I, outs in analyse(ctx):
        results(ctx, f, I, outs)
        for k in [k for k in I.obl if k[0] not in MINE or k[0] == 'wakeup' and 'limit' in k]:
            del I.obl[k]
        for k in [k for k, r in I.reports.items() if k[0] not in MINE or k[0] == 'wakeup' and 'another time' in r['msg']]:
            del I.reports[k]
        ctx.absorb(I)
    k = ctx.info['counts']
    ctx.require(k.get('releases', 0) > 20 and k.get('queue states', 0) > 100, 'the timer does not use its lock: %s' % k)
    ctx.assume.append('longer queues behave alike; the timer thread is the only one that runs Timer::run()')
