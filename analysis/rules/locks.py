"""Lock state for the abstract interpreter: which mutexes are held at every point.

A mutex is an abstract location; Lock is interpreted through its own body down to epicsMutex::lock/unlock, epicsGuard and
epicsGuardRelease are summarised (constructor and destructor)."""
from pv.lin import c
from pv.interp import Interp, Client, State, Budget, strip_t, under

C0, C1 = c(0), c(1)
THIS = ('this0',)
NS = 'epics::pvData::'

# state shared between threads -> the mutex it belongs to (member of the same object unless a global rule says otherwise)
GUARDED = {
    NS + 'Timer::queue': NS + 'Timer::mutex',
    NS + 'Timer::waiting': NS + 'Timer::mutex',
    NS + 'Timer::alive': NS + 'Timer::mutex',
    NS + 'FieldCreate::cache': NS + 'FieldCreate::mutex',
    '(anonymous namespace)::refgbl_t::counters': '(anonymous namespace)::refgbl_t::lock',
    'epics::RefMonitor::Impl::worker': 'epics::RefMonitor::Impl::lock',
    'epics::RefMonitor::Impl::prev': 'epics::RefMonitor::Impl::lock',
    'epics::RefMonitor::Impl::done': 'epics::RefMonitor::Impl::lock',
    'epics::debug::tracker::refs': 'epics::debug::tracker::mutex',
}
# state of another object, guarded by the lock of the object that manages it
FOREIGN = {
    NS + 'TimerCallback::onList': NS + 'Timer::mutex',
    NS + 'TimerCallback::timeToRun': NS + 'Timer::mutex',
    NS + 'TimerCallback::period': NS + 'Timer::mutex',
}
# members of classes with a mutex that need no lock: constant after construction or synchronised by themselves
FREE = {
    NS + 'Timer::waitForWork', NS + 'Timer::thread', NS + 'Timer::mutex',
    NS + 'FieldCreate::scalars', NS + 'FieldCreate::scalarArrays', NS + 'FieldCreate::variantUnion',
    NS + 'FieldCreate::variantUnionArray', NS + 'FieldCreate::mutex',
    '(anonymous namespace)::refgbl_t::lock', 'epics::debug::tracker::mutex',
    'epics::RefMonitor::Impl::lock', 'epics::RefMonitor::Impl::owner', 'epics::RefMonitor::Impl::wakeup',
    # written by start() before the worker exists, read by the worker without the lock only while it waits
    'epics::RefMonitor::Impl::period',
}


def held(st):
    return [k[2] for k, v in st.mem.items() if k[:2] == ('gh', 'lk') and v[1] > 0]


class LockClient(Client):
    max_depth = 6
    cap = 400

    def inline(self, I, fn, fr):
        return True

    # events
    def on_acquire(self, I, st, fr, nid, M):
        pass

    def on_release(self, I, st, fr, nid, M):
        pass

    def lock(self, I, st, fr, nid, M):
        k = ('gh', 'lk', M)
        n = st.mem.get(k, C0)[1]
        st.mem[k] = c(n + 1)
        if n == 0:
            return self.on_acquire(I, st, fr, nid, M) or [st]
        return [st]

    def unlock(self, I, st, fr, nid, M):
        k = ('gh', 'lk', M)
        n = st.mem.get(k, C0)[1]
        I.oblige('unlock', fr, nid, 'release', n > 0, 'a mutex is released that is not held')
        if n == 1:
            self.on_release(I, st, fr, nid, M)
        if n > 0:
            st.mem[k] = c(n - 1)
            if n == 1:
                del st.mem[k]

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        if fq.startswith('epicsGuard'):
            return self.guard(I, st, fr, nid, n, fq, obj, args)
        if fq.startswith('epicsMutex::'):
            nm = fq[12:]
            if nm == 'lock':
                return [('ret', s, C0) for s in self.lock(I, st, fr, nid, obj)]
            if nm == 'unlock':
                self.unlock(I, st, fr, nid, obj)
                return [('ret', st, C0)]
            if nm == 'tryLock':
                s2 = st.fork()
                return [('ret', s, C1) for s in self.lock(I, st, fr, nid, obj)] + [('ret', s2, C0)]
            if nm == 'epicsMutex':
                return [('ret', st, I.destloc(st, fr, nid))]
        return None

    def guard(self, I, st, fr, nid, n, fq, obj, args):
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and args:
            d = I.destloc(st, fr, nid)
            src = args[0][1]
            if fq.endswith('::epicsGuard'):
                M = src
                if ('gh', 'guard', src) in st.mem:
                    M = st.mem[('gh', 'guard', src)][1]
                st.mem[('gh', 'guard', d)] = ('addr', M)
                return [('ret', s, d) for s in self.lock(I, st, fr, nid, M)]
            if fq.endswith('::epicsGuardRelease'):
                g = st.mem.get(('gh', 'guard', src))
                if g is None:
                    I.oblige('unlock', fr, nid, 'guard', None)
                    return [('ret', st, d)]
                self.unlock(I, st, fr, nid, g[1])
                st.mem[('gh', 'rel', d)] = g
                return [('ret', st, d)]
        return None

    def on_dtor(self, I, st, fr, loc, el):
        nid = el.get('n')
        g = st.mem.pop(('gh', 'guard', loc), None)
        if g is not None:
            self.unlock(I, st, fr, nid, g[1])
        g = st.mem.pop(('gh', 'rel', loc), None)
        if g is not None:
            r = self.lock(I, st, fr, nid, g[1])
            if r != [st]:
                return [('ret', x, None) for x in r]
        return None


def fields_of(loc):
    """the members on the way to a location, innermost first, each with its object"""
    while loc[0] in ('fld', 'idx'):
        if loc[0] == 'fld':
            yield loc[2], loc[1]
        loc = loc[1]


class Guards(LockClient):
    """C23: every access to guarded state is made while its lock is held"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.own = None           # object under construction or destruction
        self.sites = set()
        self.edges = {}
        self.blocking = {}

    def on_acquire(self, I, st, fr, nid, M):
        for h in held(st):
            if h != M:
                self.edges.setdefault((kind(h), kind(M)), (fr.fn, fr.fn.nodes.get(nid, {}).get('l')))

    def access(self, I, st, fr, nid, loc):
        mine = self.own is not None and ('gh', 'published') not in st.mem
        root = loc
        while root[0] in ('fld', 'idx'):
            root = root[1]
        if root[0] == 'glob' and '#' in root[1]:
            M = self.static_mutex(I.p, root)
            if M and root != M:
                ok = st.mem.get(('gh', 'lk', M), C0)[1] > 0
                self.note(I, fr, nid, 'static ' + root[1].split('#')[-1], ok)
        for m, o in fields_of(loc):
            if m in GUARDED:
                if mine and o == self.own:
                    continue
                ok = st.mem.get(('gh', 'lk', ('fld', o, GUARDED[m])), C0)[1] > 0
                self.note(I, fr, nid, m, ok)
            elif m in FOREIGN:
                if mine and o == self.own:
                    continue
                ok = any(h[0] == 'fld' and h[2] == FOREIGN[m] for h in held(st))
                self.note(I, fr, nid, m, ok)

    def static_mutex(self, p, root):
        """the mutex among the function's static variables, for one of its variables that is not constant"""
        u, _, nm = root[1].rpartition('#')
        f = p.fns.get(u)
        if f is None:
            return None
        M = None
        for V in f.vars.values():
            if V['k'] == 'static':
                if V['t'] == 'epicsMutex':
                    M = ('glob', u + '#' + V['n'])
                elif V['n'] == nm and (V['t'].startswith('const ') or not V.get('c') and not written(f, nm)):
                    return None
        return M

    def note(self, I, fr, nid, m, ok):
        if not I.mute:
            self.sites.add((fr.fn.qt, nid, m))
        I.oblige('guarded', fr, nid, m.split('::')[-1], ok, '%s is accessed without holding its lock' % m.replace('(anonymous namespace)::', ''))

    def on_read(self, I, st, fr, nid, loc):
        self.access(I, st, fr, nid, loc)

    def on_write(self, I, st, fr, nid, loc, v):
        if fr is not None and not (loc[0] == 'glob' and fr.fn.nodes.get(nid, {}).get('k') == 'CXXConstructExpr'):
            self.access(I, st, fr, nid, loc)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        if not fq.startswith('epicsGuard') and not fq.startswith('epicsMutex'):
            target = I.p.fns.get(n.get('fn'))
            if target is None:           # the access happens here, not in an inlined body
                if obj is not None:
                    self.access(I, st, fr, nid, obj)
                for x in args:
                    if x[2]:
                        self.access(I, st, fr, nid, x[1])
            self.callback(I, st, fr, nid, n, fq, obj)
            if fq in (NS + 'Thread::start', 'epicsThread::start') or n['k'] == 'CXXConstructExpr' and fq == NS + 'Thread::Thread':
                st.mem[('gh', 'published')] = C1
            if fq.startswith('std::'):
                for x in args:
                    self.functor(I, st, fr, nid, x)
        return LockClient.pre_call(self, I, st, fr, nid, n, a)

    def functor(self, I, st, fr, nid, x):
        """a function object handed to the standard library is called by it, here"""
        cls = strip_t(fr.fn.nodes[x[0]]['t'].replace('const ', '').strip())
        for f in I.p.by_q.get(cls + '::operator()', []):
            f2 = I.frame(f, fr, ('call', nid), ('functor', cls))
            s2 = st.fork()
            for i, vid in enumerate(f.params):
                s2.mem[('var', f2.id, vid)] = ('addr', ('element', i))
            I.run_fn(f2, s2)

    def callback(self, I, st, fr, nid, n, fq, obj):
        why = None
        if n.get('virt') and not n.get('qual') and user_class(I.p, n):
            why = 'user supplied %s() is called' % n.get('fname')
        elif n['k'] == 'CXXOperatorCallExpr' and fq == 'std::function::operator()':
            why = 'a user supplied function is called'
        elif n['k'] == 'CallExpr' and 'fn' not in n:
            why = 'a user supplied function is called'
        elif fq in BLOCK:
            why = '%s() is waited for' % n.get('fname')
        if why:
            if not I.mute:
                self.blocking.setdefault((fr.fn.qt, nid), why)
            h = held(st)
            I.oblige('callback', fr, nid, why, not h, '%s while a lock is held (%s)' % (why, ', '.join(kind(x) for x in h)))


def written(f, nm):
    ids = {i for i, V in f.vars.items() if V['n'] == nm and V['k'] == 'static'}
    for n in f.nodes.values():
        if n['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (n.get('op') in ('=', '++', '--', '&') or n['k'][0] == 'C'):
            if n['o'] and f.nodes[n['o'][0]].get('v') in ids:
                return True
    return False


BLOCK = {NS + 'Event::wait', 'epicsEvent::wait', 'epicsThread::exitWait', NS + 'Thread::exitWait', 'epicsThread::sleep', 'epicsThreadSleep',
         'epicsEventWait', 'epicsEventWaitWithTimeout', 'epicsEventMustWait'}
_userc = {}


def user_class(p, n):
    """the virtual function called may be supplied by the user: classes other than the library's own closed families"""
    fq = strip_t(n.get('fq') or '')
    cls = fq.rpartition('::')[0]
    if cls in _userc:
        return _userc[cls]
    fam = {NS + 'Field', NS + 'PVField'}
    ok = True
    if cls.startswith('std::') or cls.startswith('__'):
        ok = False
    else:
        todo, seen = [cls], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in fam:
                ok = False
            for r in p.rec_q.get(x, []) if isinstance(p.rec_q.get(x, []), list) else [p.rec_q[x]]:
                for b in r['bases']:
                    todo.append(strip_t(b.get('q') or b.get('qt') or b.get('t') or ''))
    _userc[cls] = ok
    return ok


def kind(M):
    return M[2].replace('(anonymous namespace)::', '') if M[0] == 'fld' else str(M[-1])


def entries(p):
    """functions callable from outside which touch guarded state or a mutex, or reach one that does and is not callable itself"""
    mut = set(GUARDED.values())
    names = set(GUARDED) | set(FOREIGN) | mut
    direct = {u for u, f in p.fns.items() if any(n.get('m') in names or 'epicsGuard' in (n.get('fq') or '') or
                                                 strip_t(n.get('fq') or '') == NS + 'Lock::Lock' for n in f.nodes.values())}
    direct |= {u for u, f in p.fns.items() if any(e.get('m') in names for b in f.blocks.values() for e in b['el'] if isinstance(e, dict))}
    direct |= {u for u, f in p.fns.items() if any(V['k'] == 'static' and V['t'] == 'epicsMutex' for V in f.vars.values())}
    callers = {}
    for u, f in p.fns.items():
        for n in f.nodes.values():
            if n.get('fn'):
                callers.setdefault(n['fn'], set()).add(u)
    out, todo, seen = [], sorted(direct), set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        f = p.fns[u]
        if f.clsq == NS + 'Lock' or f.d.get('implicit') and False:
            continue
        cl = callers.get(u, set())
        if f.n == 'operator()':
            continue              # function objects: analysed where they are handed to the standard library
        # everything but constructors and destructors of local classes is an entry, unless private with callers in the library
        if closed(p, f) and cl:
            todo += sorted(cl)
        else:
            out.append(f)
    return out, direct


def closed(p, f):
    """only callable from inside the library"""
    if f.d.get('acc') in ('private', 'protected') and not f.d.get('virt') and not f.d.get('dtor'):
        over = any(m.get('over') for r in p.recs.values() for m in r['methods'] if m['usr'] == f.usr)
        return not over
    return '(anonymous namespace)' in f.q or f.d.get('static_fn', False)
