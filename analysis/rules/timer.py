"""The timer, interpreted with an explicit model of its queue.

Whenever the timer lock is acquired the queue is arbitrary again: every arrangement of the callbacks known on this path and of up to
N unknown ones, each marked as scheduled exactly if it is in the queue (that is the invariant). Whenever the lock is released the
invariant is checked. std::list is interpreted exactly on these bounded contents."""
import itertools
from pv import lin
from pv.lin import c
from pv.interp import Interp, State, Budget, strip_t, under
from rules import locks
from rules.locks import LockClient, THIS, NS, C0, C1

Q = ('fld', THIS, NS + 'Timer::queue')
WAITING = ('fld', THIS, NS + 'Timer::waiting')
ALIVE = ('fld', THIS, NS + 'Timer::alive')
MUTEX = ('fld', THIS, NS + 'Timer::mutex')
EVENT = ('fld', THIS, NS + 'Timer::waitForWork')
TC = NS + 'TimerCallback::'
ON, TTR, PER = TC + 'onList', TC + 'timeToRun', TC + 'period'
FL0 = ('fl', 0.0)
LISTIT = ('std::_List_iterator', 'std::_List_const_iterator')
TIMEOPS = {'operator-', 'operator+', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!='}


class Undecided(Exception):
    pass


def G(*k):
    return ('gh',) + k


def lst(st, L):
    v = st.mem.get(G('list', L))
    return None if v is None else v[1:]


def setlst(st, L, ids):
    st.mem[G('list', L)] = ('lst',) + tuple(ids)


def node(i):
    return ('node', i)


def known(st):
    """callbacks mentioned in a live variable"""
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'cb':
                out.add(t)
                return
            for x in t:
                walk(x)
    for k, v in st.mem.items():
        if k[:1] == ('gh',) and k[1] not in ('ran', 'stopped', 'added', 'pending', 'org'):
            continue
        walk(v)
    return out


class T(LockClient):
    unroll = 3
    cap = 100000
    max_depth = 8

    def __init__(self, ctx, n):
        self.ctx = ctx
        self.n = n
        self.fn = None
        self.nodeid = itertools.count(1)
        self.counts = {}

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    # ---- the lock
    def on_acquire(self, I, st, fr, nid, M):
        if M != MUTEX:
            return None
        first = G('acq') not in st.mem
        ks = known(st)
        for k in [k for k in st.mem if k[0] == 'node' and not self.linked(st, k[1])]:
            del st.mem[k]
        if self.fn.n == 'run':
            for k in ('front', 'last', 'fttr', 'fin', 'popped', 'added'):
                st.mem.pop(G(k), None)
        for k in [k for k in st.mem if k[:2] == ('gh', 'org')]:
            del st.mem[k]
        oldalive = st.mem.get(ALIVE)
        pool = sorted(ks)
        fresh = [('cb', 'x%d' % i) for i in range(self.n + len(ks)) if ('cb', 'x%d' % i) not in ks][:self.n]
        outs = []
        seen = set()
        for k in range(self.n + 1):
            for seq in itertools.permutations(pool + fresh, k):
                fr_used = [x for x in seq if x in fresh]
                if fr_used != fresh[:len(fr_used)]:
                    continue
                for alive in ((C0,) if oldalive == C0 else (C0, C1)):
                    for waiting in ((st.mem[WAITING],) if self.fn.n == 'run' and WAITING in st.mem else (C0, C1)):
                        s = st.fork()
                        s.mem[ALIVE] = alive
                        s.mem[WAITING] = waiting
                        s.mem[G('acq')] = C1
                        s.mem[G('alive0')] = alive
                        ids = []
                        for j, x in enumerate(seq):
                            i = 'q%d' % j
                            s.mem[node(i)] = ('addr', x)
                            ids.append(i)
                        setlst(s, Q, ids)
                        for x in set(pool) | set(seq):
                            s.mem[('fld', x, ON)] = C1 if x in seq else C0
                            s.mem[('fld', x, TTR)] = ('ttr', x, nid)
                            s.mem[('fld', x, PER)] = ('per', x, nid)
                        s.mem[G('start')] = ('cbs',) + seq
                        s.mem[G('added')] = ('cbs',)
                        self.count('queue states')
                        outs.append(s)
        return outs

    def linked(self, st, i):
        return any(i in v[1:] for k, v in st.mem.items() if k[:2] == ('gh', 'list') and k[2] != Q)

    def members(self, st, L):
        return [st.mem.get(node(i)) for i in lst(st, L)]

    def inq(self, st, x):
        return ('addr', x) in self.members(st, Q)

    def on_release(self, I, st, fr, nid, M):
        if M != MUTEX:
            return
        self.check(I, st, fr, nid)
        m = self.members(st, Q)
        front = m[0] if m else C0
        st.mem[G('front')] = front
        st.mem[G('last')] = ('state', st.mem.get(WAITING, C0), st.mem.get(ALIVE, C0), c(len(m)))
        st.mem[G('fttr')] = self.ttr(I, st, front[1]) if front[0] == 'addr' else C0
        st.mem[G('fin')] = ('cbs',) + tuple(x[1] for x in m if x and x[0] == 'addr')
        ad = st.mem[G('added')][1:]
        wake = I.truth(st, st.mem.get(WAITING, C1)) is not False and front[0] == 'addr' and front[1] in ad
        if self.fn.n == 'run':
            wake = False                 # the timer thread itself
        if st.mem.get(G('alive0')) != C0 and st.mem.get(ALIVE) == C0:
            wake = True
        if wake:
            st.mem[G('pending')] = ('wake', fr.fn.qt)

    def check(self, I, st, fr, nid):
        self.count('releases')
        m = self.members(st, Q)
        I.oblige('invariant', fr, nid, 'distinct', len(set(m)) == len(m), 'a callback is in the queue twice')
        cbs = {k[1] for k in st.mem if k[0] == 'fld' and k[1][0] == 'cb' and k[2] == ON}
        for x in m:
            if x is None or x[0] != 'addr':
                I.oblige('invariant', fr, nid, 'no null', False, 'the queue holds an empty entry')
            else:
                cbs.add(x[1])
        for x in cbs:
            on = I.rd(st, ('fld', x, ON))
            t = I.truth(st, on)
            q = ('addr', x) in m
            if t is None:
                I.oblige('invariant', fr, nid, 'flag = queued', None)
            else:
                I.oblige('invariant', fr, nid, 'flag = queued', t == q, 'the lock is released with a callback %s' % (
                    'in the queue but not marked as scheduled' if q else 'marked as scheduled but not in the queue'))
        ran = st.mem.pop(G('ran'), None)
        if ran is not None:
            x = ran[1]
            q = ('addr', x) in m
            per = I.compare(st, ('fl', 0.0), I.rd(st, ('fld', x, PER)), '<')
            tp = I.truth(st, per)
            if x in st.mem[G('added')][1:] and x not in st.mem[G('start')][1:]:
                I.oblige('periodic', fr, nid, 'one-shot', tp is True, 'a callback that may have no period is queued again')
            elif not q and x not in st.mem[G('start')][1:]:
                alive = I.truth(st, st.mem.get(ALIVE, C1))
                ok = tp is False or alive is False
                I.oblige('periodic', fr, nid, 're-queued', True if ok else False if tp is True and alive is True else None,
                         'a periodic callback is not queued again after it ran')

    def ttr(self, I, st, x):
        return I.objkey(st, ('fld', x, TTR))

    # ---- insertion
    def inserted(self, I, st, fr, nid, ptr, i=None):
        if ptr is None or ptr[0] != 'addr' or ptr[1][0] != 'cb':
            I.oblige('insert', fr, nid, 'callback', None if ptr and ptr != C0 else False, 'an empty entry is queued')
            return
        x = ptr[1]
        if i is not None:
            st.mem[G('org', i)] = x
        st.mem[G('added')] = st.mem.get(G('added'), ('cbs',)) + (x,)
        t = self.ttr(I, st, x)
        per = I.rd(st, ('fld', x, PER))
        fn = self.fn.n
        if fn == 'run':
            old = st.mem.get(G('ttr0'), C0)
            ok = t == ('time', '+', ('ttr',) + old[1:], per) if old != C0 else t[:2] == ('time', '+') and t[3] == per
            self.oblige2(I, fr, nid, 'expiry', t[:2] == ('time', '+') and t[2][0] == 'ttr' and t[2][1] == x and t[3] == per or None if t[0] not in ('time', 'ttr') else
                         t[:2] == ('time', '+') and t[2][0] == 'ttr' and t[2][1] == x and t[3] == per,
                         'a periodic callback is queued again with another time than its last one plus its period')
        else:
            want = ('time', '+', ('time', 'now', C0), ('arg', 'delay'))
            self.oblige2(I, fr, nid, 'expiry', t == want if t[0] in ('time', 'ttr') else None, 'a callback is queued with another time than now plus the delay')
            wp = FL0 if fn == 'scheduleAfterDelay' else ('arg', 'period')
            self.oblige2(I, fr, nid, 'period', per in (wp, C0 if wp == FL0 else wp) if per[0] in ('per', 'arg', 'fl', 'c') else None,
                         'a callback is queued with another period than the one given')

    def oblige2(self, I, fr, nid, what, ok, msg):
        I.oblige('insert', fr, nid, what, ok, msg)

    # ---- calls
    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        nm = n.get('fname') or ''
        cls = fq.rpartition('::')[0]
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if cls == 'std::list':
            return self.list(I, st, fr, nid, n, nm, obj, args, val)
        if cls in LISTIT or cls == 'std' and nm in ('operator==', 'operator!=') and args and 'List' in fr.fn.nodes[args[0][0]]['t']:
            return self.iter(I, st, fr, nid, n, nm, obj, args, val)
        if cls == 'std' and nm in ('swap', 'find', 'advance', 'next', 'prev', 'distance') and 'ist' in fr.fn.nodes[args[0][0]]['t']:
            if nm == 'swap':
                return self.list(I, st, fr, nid, n, nm, args[0][1], args[1:], val)
            raise Undecided(fq)
        if fq.startswith('epicsTime::') or cls == 'epicsTime':
            return self.time(I, st, fr, nid, n, nm, obj, args, val)
        if fq.startswith(TC):
            if nm in ('callback', 'timerStopped') and n.get('virt'):
                return self.called(I, st, fr, nid, n, nm, obj)
        if fq.startswith(NS + 'Event::'):
            if nm == 'signal':
                p = st.mem.pop(G('pending'), None)
                return [('ret', st, C0)]
            if nm in ('wait', 'tryWait'):
                if nm == 'wait':
                    self.waits(I, st, fr, nid, args, val)
                    self.later(st)
                return [('ret', st, c(0)), ('ret', st.fork(), c(1))]
            if nm == 'Event':
                return [('ret', st, I.destloc(st, fr, nid))]
        if fq in (NS + 'Thread::exitWait', 'epicsThread::exitWait'):
            I.oblige('wakeup', fr, nid, 'before waiting', G('pending') not in st.mem, 'the timer thread is waited for without having been woken')
            return [('ret', st, C0)]
        return LockClient.pre_call(self, I, st, fr, nid, n, a)

    def called(self, I, st, fr, nid, n, nm, obj):
        if obj[0] != 'cb':
            I.oblige('called', fr, nid, nm, None)
            return [('ret', st, C0)]
        self.count(nm)
        if nm == 'callback':
            fin = st.mem.get(G('fin'), ('cbs',))[1:]
            pop = st.mem.pop(G('popped'), None)
            I.oblige('called', fr, nid, 'from the queue', pop is not None and pop[1] == obj, 'a callback is called that was not taken from the front of the queue')
            if pop is not None and pop[1] == obj:
                e = pop[2]
                I.oblige('called', fr, nid, 'expired', True if e == C1 else False if e == C0 else None, 'a callback is called although its time may not have come')
            I.oblige('called', fr, nid, 'once', obj not in fin, 'a callback is called while it is still queued')
            st.mem[G('ran')] = ('cb1', obj)
            self.later(st)
        else:
            st.mem[G('stopped')] = st.mem.get(G('stopped'), ('cbs',)) + (obj,)
            if self.fn.n in ('close', '~Timer'):
                I.oblige('called', fr, nid, 'drained', obj in st.mem.get(G('start'), ('cbs',))[1:] and obj not in st.mem.get(G('fin'), ('cbs',))[1:],
                         'timerStopped() is called for a callback that was not taken out of the queue')
        return [('ret', st, C0)]

    def waits(self, I, st, fr, nid, args, val):
        if self.fn.n != 'run':
            return
        last = st.mem.get(G('last'))
        if last is None:
            return
        w, al, n = last[1:]
        t = I.truth(st, w)
        I.oblige('wakeup', fr, nid, 'announced', t if t is not None else None, 'the timer thread waits without having announced it, so nobody wakes it')
        I.oblige('wakeup', fr, nid, 'not closed', al != C0, 'the timer thread waits although the timer was closed')
        if not args:
            I.oblige('wakeup', fr, nid, 'nothing to do', n == C0, 'the timer thread waits without a limit although callbacks are queued')
        else:
            v = val(0)
            want = ('time', '-', st.mem.get(G('fttr')), ('time', 'now', st.mem.get(G('phase'), C0)))
            I.oblige('wakeup', fr, nid, 'limit', True if v == want else False if v[0] in ('time', 'fl', 'c', 'per') or self.longer(v) else None,
                     'the timer thread waits for another time than until the first callback is due')

    def longer(self, v):
        return v[0] == 'op' and (v[1] == '+' or v[1] == '*' and any(x[0] in ('fl', 'c') and x[1] > 1 for x in v[2:]))

    def time(self, I, st, fr, nid, n, nm, obj, args, val):
        if nm in ('getCurrent', 'getMonotonic'):
            t = ('time', 'now', st.mem.get(G('phase'), C0))
            d = I.destloc(st, fr, nid)
            I.wr(st, d, t)
            return [('ret', st, d)]
        if nm == 'epicsTime':
            d = I.destloc(st, fr, nid)
            I.wr(st, d, I.rd(st, args[0][1]) if args and args[0][2] else ('time', 'zero'))
            return [('ret', st, d)]
        if nm == 'operator=':
            I.wr(st, obj, val(0), fr, nid)
            return [('ret', st, obj)]
        ops = [I.rd(st, obj)] if obj is not None else []
        ops += [val(i) for i in range(len(args))]
        if nm in ('operator+=', 'operator-=') and obj is not None:
            I.wr(st, obj, ('time', nm[8], ops[0], ops[1]), fr, nid)
            return [('ret', st, obj)]
        if nm in ('operator+', 'operator-') and len(ops) == 2:
            t = ('time', nm[8], ops[0], ops[1])
            if n.get('c'):
                d = I.destloc(st, fr, nid)
                I.wr(st, d, t)
                return [('ret', st, d)]
            return [('ret', st, t)]
        if nm in TIMEOPS and len(ops) == 2:
            a, b = ops
            op = nm[8:]
            if op in ('>', '>='):
                a, b, op = b, a, op.replace('>', '<')
            if op == '<':
                return [('ret', st, ('fcmp', '<', FL0, ('time', '-', b, a)))]
            if op == '<=':
                return [('ret', st, ('not', ('fcmp', '<', FL0, ('time', '-', a, b))))]
        return None

    def expired(self, I, st, t):
        """C1: the path has found that time t is not after now; C0 it has not"""
        for k in range(8):
            now = ('time', 'now', c(k))
            d = ('time', '-', t, now)
            r = ('time', '-', now, t)
            for v in (('not', ('fcmp', '<', FL0, d)), ('fcmp', '<', d, FL0), ('not', ('fcmp', '<', r, FL0)), ('fcmp', '<', FL0, r)):
                if I.truth(st, v) is True:
                    return C1
        return C0

    def later(self, st):
        """time has passed"""
        k = st.mem.get(G('phase'), C0)
        st.mem[G('phase')] = lin.add(k, c(1))

    # ---- std::list
    def list(self, I, st, fr, nid, n, nm, obj, args, val):
        new = lambda: 'n%s_%d' % (nid, sum(1 for k in st.mem if k[0] == 'node' and str(k[1]).startswith('n%s_' % nid)))
        if nm in ('list', '~list'):
            d = I.destloc(st, fr, nid) if nm == 'list' else obj
            if args and args[0][2] and fr.fn.nodes[args[0][0]]['k'] != 'CXXDefaultArgExpr':
                raise Undecided('list copy')
            if nm == 'list':
                setlst(st, d, ())
            return [('ret', st, d)]
        if obj is None or lst(st, obj) is None:
            raise Undecided('list %s at %s' % (nm, n.get('l')))
        ids = list(lst(st, obj))
        if nm == 'empty':
            return [('ret', st, c(int(not ids)))]
        if nm == 'size':
            return [('ret', st, c(len(ids)))]
        if nm in ('front', 'back'):
            I.oblige('list', fr, nid, nm, bool(ids), 'front() of an empty queue')
            if not ids:
                return []
            return [('ret', st, node(ids[0 if nm == 'front' else -1]))]
        if nm in ('begin', 'cbegin', 'end', 'cend'):
            v = ('itr', ids[0]) if 'b' in nm and ids else ('itr', 'end', obj)
            return I.models.ret(I, st, fr, nid, n, v)
        if nm in ('push_back', 'push_front', 'insert', 'emplace_back'):
            i = new()
            p = val(-1 if nm != 'insert' else 1)
            st.mem[node(i)] = p
            if nm == 'insert':
                it = val(0)
                k = len(ids) if it[1] == 'end' else ids.index(it[1])
                ids.insert(k, i)
            else:
                ids.insert(0 if nm == 'push_front' else len(ids), i)
            setlst(st, obj, ids)
            if obj == Q:
                self.inserted(I, st, fr, nid, p, i)
                if nm != 'insert':
                    # only right when the order allows it
                    I.oblige('order', fr, nid, nm, len(ids) == 1, 'a callback is put at the end of the queue without regard to its time')
                else:
                    I.oblige('order', fr, nid, nm, None)
            if nm == 'insert':
                return I.models.ret(I, st, fr, nid, n, ('itr', i))
            return [('ret', st, C0)]
        if nm in ('pop_front', 'pop_back', 'erase'):
            if nm == 'erase':
                it = val(0)
                if len(args) != 1 or it[0] != 'itr' or it[1] not in ids:
                    I.oblige('list', fr, nid, 'erase', False if it[:2] == ('itr', 'end') else None, 'erase(end())')
                    return []
                k = ids.index(it[1])
            else:
                I.oblige('list', fr, nid, nm, bool(ids), 'pop of an empty queue')
                if not ids:
                    return []
                k = 0 if nm == 'pop_front' else len(ids) - 1
            i = ids.pop(k)
            setlst(st, obj, ids)
            st.mem.pop(node(i), None)
            if obj == Q and self.fn.n == 'run':
                self.popped(I, st, fr, nid, i, k)
            if nm == 'erase':
                return I.models.ret(I, st, fr, nid, n, ('itr', ids[k]) if k < len(ids) else ('itr', 'end', obj))
            return [('ret', st, C0)]
        if nm == 'clear':
            for i in ids:
                st.mem.pop(node(i), None)
            setlst(st, obj, ())
            return [('ret', st, C0)]
        if nm == 'swap':
            o = args[0][1]
            b = lst(st, o)
            if b is None:
                raise Undecided('swap')
            setlst(st, obj, b)
            setlst(st, o, ids)
            if o == Q or obj == Q:
                self.rename(st)
            return [('ret', st, C0)]
        if nm in ('merge', 'splice'):
            o = args[0][1] if nm == 'merge' else args[1][1]
            b = lst(st, o)
            if b is None:
                raise Undecided(nm)
            if nm == 'splice' or len(b) != 1 or len(args) < 2:
                if obj == Q and nm == 'splice':
                    I.oblige('order', fr, nid, nm, not ids or not b, 'a callback is put into the queue without regard to its time')
                raise Undecided(nm)
            self.comparator(I, st, fr, nid, args[1])
            outs = []
            if obj == Q:
                self.inserted(I, st, fr, nid, st.mem.get(node(b[0])), b[0])
            for k in range(len(ids) + 1):
                s = st.fork()
                setlst(s, obj, ids[:k] + [b[0]] + ids[k:])
                setlst(s, o, ())
                outs.append(('ret', s, C0))
            return outs
        raise Undecided('list::' + nm)

    def rename(self, st):
        """nodes that left the queue get other names: the queue's names are used again at the next acquisition"""
        m = {}
        for k, v in list(st.mem.items()):
            if k[:2] == ('gh', 'list') and k[2] != Q:
                for i in v[1:]:
                    if str(i).startswith('q'):
                        m[i] = 'l' + str(i)
        if not m:
            return
        for k, v in list(st.mem.items()):
            if k[0] == 'node' and k[1] in m:
                del st.mem[k]
                st.mem[node(m[k[1]])] = v
            elif k[:2] == ('gh', 'list'):
                st.mem[k] = ('lst',) + tuple(m.get(i, i) for i in v[1:])
            elif v[0] == 'itr' and v[1] in m:
                st.mem[k] = ('itr', m[v[1]])

    def popped(self, I, st, fr, nid, i, k):
        x = None
        start = st.mem[G('start')][1:]
        if str(i).startswith('q') and int(i[1:]) < len(start):
            x = start[int(i[1:])]
        x = st.mem.pop(G('org', i), x)
        if x is None:
            return
        st.mem[G('popped')] = ('pop', x if k == 0 else ('cb', 'none'), self.expired(I, st, self.ttr(I, st, x)))

    def comparator(self, I, st, fr, nid, x):
        cls = strip_t(fr.fn.nodes[x[0]]['t'].replace('const ', '').strip())
        fs = I.p.by_q.get(cls + '::operator()', [])
        if not fs:
            I.oblige('order', fr, nid, 'comparator', None)
            return
        for f in fs:
            f2 = I.frame(f, fr, ('call', nid), ('functor', cls))
            s2 = st.fork()
            for i, vid in enumerate(f.params):
                e = ('cb', 'cmp%d' % i)
                s2.mem[('elem', i)] = ('addr', e)
                s2.mem[('fld', e, TTR)] = ('ttr', e, 0)
                s2.mem[('var', f2.id, vid)] = ('addr', ('elem', i))
            a, b = (('ttr', ('cb', 'cmp%d' % i), 0) for i in (0, 1))
            good = {('fcmp', '<', ('time', '-', a, b), FL0), ('fcmp', '<', FL0, ('time', '-', b, a))}
            bad = {('fcmp', '<', ('time', '-', b, a), FL0), ('fcmp', '<', FL0, ('time', '-', a, b))}
            for kd, s, v in I.run_fn(f2, s2):
                if kd == 'ret':
                    v = I.rd(s, v) if isinstance(v, tuple) and v and v[0] in ('tmp', 'var') else v
                    ok = True if v in good else None
                    if ok is None:
                        # a branch of the comparison: the path must agree
                        tv = I.truth(s, v)
                        tg = I.truth(s, ('fcmp', '<', ('time', '-', a, b), FL0))
                        if tv is not None and tg is not None:
                            ok = tv == tg
                        elif v in bad:
                            ok = False
                    I.oblige('order', fr, nid, 'comparator', ok, 'the queue is not ordered by increasing time')

    def iter(self, I, st, fr, nid, n, nm, obj, args, val):
        if nm in ('operator==', 'operator!='):
            a, b = (I.rd(st, obj), val(0)) if obj is not None else (val(0), val(1))
            if a[0] != 'itr' or b[0] != 'itr':
                raise Undecided('iterator')
            return [('ret', st, c(int((a == b) == (nm == 'operator=='))))]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return I.models.ret(I, st, fr, nid, n, val(0) if args else C0)
        if obj is None:
            raise Undecided('iterator')
        v = I.rd(st, obj)
        if nm == 'operator=':
            I.wr(st, obj, val(0), fr, nid)
            return [('ret', st, obj)]
        if v[0] != 'itr':
            raise Undecided('iterator')
        if nm in ('operator*', 'operator->'):
            ok = v[1] != 'end' and ('node', v[1]) in st.mem
            I.oblige('list', fr, nid, 'iterator', ok, 'an invalid iterator into the queue is used')
            if not ok:
                return []
            return [('ret', st, node(v[1]) if nm == 'operator*' else ('addr', node(v[1])))]
        if nm in ('operator++', 'operator--'):
            if nm == 'operator--':
                raise Undecided('iterator')
            nv = None
            for k, x in st.mem.items():
                if k[:2] == ('gh', 'list') and v[1] in x[1:]:
                    ids = x[1:]
                    j = ids.index(v[1]) + 1
                    nv = ('itr', ids[j]) if j < len(ids) else ('itr', 'end', k[2])
            I.oblige('list', fr, nid, 'iterator', nv is not None, 'an invalid iterator into the queue is advanced')
            if nv is None:
                return []
            I.wr(st, obj, nv)
            if args:
                return I.models.ret(I, st, fr, nid, n, v)
            return [('ret', st, obj)]
        raise Undecided(nm)

    def on_abort(self, I, st, fr, nid, n):
        I.oblige('assert', fr, nid, 'not reached', False, 'an assertion about the queue can fail')


def start(I, f, x='p'):
    st = State()
    fr = I.frame(f, None, None, THIS)
    for vid in f.params:
        V = f.vars[vid]
        if 'TimerCallback' in V['t']:
            st.mem[('ptrvar', x)] = ('addr', ('cb', x))
            st.mem[('var', fr.id, vid)] = ('addr', ('ptrvar', x)) if V.get('ref') else ('addr', ('cb', x))
        elif V['t'] == 'double':
            st.mem[('var', fr.id, vid)] = ('arg', V['n'])
    return fr, st
