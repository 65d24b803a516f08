"""The cache of shared type descriptions, by abstract interpretation with an explicit model of the cache.

The function that looks a new description up is run on caches holding up to N entries under its key, each of the right class or not,
equal or not, alive or already being destroyed: it must end with the description being an entry found to be of that class, equal and
alive, or with the new one inserted under the key stored in it, and entries are only looked at while the lock is held. The clean-up is
run on caches with and without the object: it must remove exactly that. The destructor of every description that is ever created must
run the clean-up on all paths before any member with a destructor is gone; nothing else touches the cache or the stored key."""
import itertools
from pv import lin
from pv.lin import c
from pv.interp import Interp, State, Budget, strip_t
from rules import locks
from rules.locks import LockClient, NS, C0, C1

CACHE = NS + 'FieldCreate::cache'
HASH = NS + 'Field::m_hash'
MM = ('gh', 'mm')
Z = ('cb', 'z')


class Undecided(Exception):
    pass


def is_subclass(p, cls, base):
    if cls == base:
        return True
    for r in p.rec_q.get(cls, []):
        for b in r.get('bases', []):
            b = b if isinstance(b, str) else b.get('t') or b.get('q') or ''
            if is_subclass(p, strip_t(b) if b not in p.rec_q else b, base):
                return True
    return False


class M(LockClient):
    unroll = 4
    cap = 100000
    max_depth = 8

    def __init__(self, ctx, n, values):
        self.ctx, self.n, self.values = ctx, n, values
        self.counts = {}

    def inline(self, I, fn, fr):
        return fn.n not in ('operator<<', 'compare', 'getFieldCreate')

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    # entries: MM = ('mm', key, (id, ...)); values in ('ent', id)
    def locked(self, I, st, fr, nid, what):
        I.oblige('locked', fr, nid, what, bool(locks.held(st)), 'the cache or one of its entries is used without the lock')

    def fill(self, st, key):
        """the cache, as far as this key is concerned"""
        outs = []
        for seq in self.values(self.n):
            s = st.fork()
            ids = []
            for j, x in enumerate(seq + (Z,)):
                e = ('ent', j)
                s.mem[('fld', e, '#key')] = key if x != Z else lin.add(key, C1)
                s.mem[('fld', e, '#val')] = ('addr', x)
                ids.append(j)
            s.mem[MM] = ('mm', key, tuple(ids))
            s.mem[('gh', 'mm0')] = ('cbs',) + seq
            self.count('cache states')
            outs.append(s)
        return outs

    def ids(self, st):
        return st.mem[MM][2]

    def setids(self, st, ids):
        st.mem[MM] = ('mm', st.mem[MM][1], tuple(ids))

    def matching(self, st):
        return [i for i in self.ids(st) if st.mem[('fld', ('ent', i), '#val')] != ('addr', Z) or st.mem[('fld', ('ent', i), '#key')] == st.mem[MM][1]]

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        nm = n.get('fname') or ''
        cls = fq.rpartition('::')[0]
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if cls == 'std::multimap' and obj is not None:
            return self.mm(I, st, fr, nid, n, nm, obj, args, val)
        if cls in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator') or cls == 'std' and nm in ('operator==', 'operator!=') and args and \
                'Rb_tree' in fr.fn.nodes[args[0][0]]['t']:
            return self.iter(I, st, fr, nid, n, nm, obj, args, val)
        if nm == 'make_pair' and cls == 'std' or n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and cls == 'std::pair' and len(args) == 2:
            d = I.destloc(st, fr, nid)
            st.mem[d] = ('pair', val(0), val(1))
            return [('ret', st, d)]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and cls == 'std::pair' and len(args) == 1 and args[0][2]:
            d = I.destloc(st, fr, nid)
            I.copy_obj(st, args[0][1], d)
            return [('ret', st, d)]
        if nm == 'operator=' and cls == 'std::pair' and args and args[0][2]:
            I.copy_obj(st, args[0][1], obj)
            return [('ret', st, obj)]
        if nm == 'compare' and len(args) == 2:
            return self.compare(I, st, fr, nid, args)
        if nm in ('operator==', 'operator!=') and len(args) == 2 and any(self.entry(x[1]) for x in args):
            r = self.compare(I, st, fr, nid, args)
            return r if nm == 'operator==' else [('ret', s, C1 if v == C0 else C0) for _, s, v in r]
        if nm == 'shared_from_this' and obj is not None:
            if obj[0] == 'cb' and obj != ('cb', 'new'):
                self.locked(I, st, fr, nid, 'shared_from_this')
                s2 = st.fork()
                st.mem[('gh', 'live', obj)] = C1
                s2.mem[('gh', 'live', obj)] = C0
                d = I.destloc(st, fr, nid)
                I.wr(st, d, ('addr', obj))
                return [('ret', st, d), ('throw', s2, 'std::bad_weak_ptr')]
        if nm == 'weak_from_this' and obj is not None:
            d = I.destloc(st, fr, nid)
            I.wr(st, d, ('addr', obj))
            return [('ret', st, d)]
        if nm == 'lock' and cls in ('std::weak_ptr', 'std::__weak_ptr'):
            v = I.rd(st, obj)
            if v[0] == 'addr' and v[1][0] == 'cb':
                s2 = st.fork()
                st.mem[('gh', 'live', v[1])] = C1
                s2.mem[('gh', 'live', v[1])] = C0
                return I.models.ret(I, st, fr, nid, n, v) + I.models.ret(I, s2, fr, nid, n, C0)
        if nm == 'getFieldCreate':
            return [('ret', st, ('fcp',))]
        if nm == 'cacheCleanup':
            st.mem[('gh', 'cleaned')] = C1
            return [('ret', st, C0)]
        if nm == 'operator<<' and args:
            return [('ret', st, obj if obj is not None else args[0][1])]
        return LockClient.pre_call(self, I, st, fr, nid, n, a)

    def entry(self, L):
        return isinstance(L, tuple) and L[:1] == ('cb',)

    def compare(self, I, st, fr, nid, args):
        xs = [x[1] for x in args]
        xs = [x[1] if x[0] == 'addr' else x for x in xs]
        es = [x for x in xs if self.entry(x) and x != ('cb', 'new')]
        self.locked(I, st, fr, nid, 'compare')
        if len(es) == 1 and ('cb', 'new') in xs:
            k = ('gh', 'same', es[0])
            if k in st.mem:
                return [('ret', st, st.mem[k])]
            s2 = st.fork()
            st.mem[k] = C1
            s2.mem[k] = C0
            return [('ret', st, C1), ('ret', s2, C0)]
        s2 = st.fork()
        return [('ret', st, C1), ('ret', s2, C0)]

    def mm(self, I, st, fr, nid, n, nm, obj, args, val):
        if obj[0] != 'fld' or obj[2] != CACHE:
            return None
        self.locked(I, st, fr, nid, nm)
        if nm in ('equal_range', 'find', 'lower_bound', 'upper_bound', 'count'):
            key = val(0)
            sts = self.fill(st, key) if MM not in st.mem else [st]
            outs = []
            for s in sts:
                if s.mem[MM][1] != key:
                    raise Undecided('two keys are looked up')
                m = [i for i in self.ids(s) if s.mem[('fld', ('ent', i), '#key')] == key]
                lo = ('it', m[0] if m else self.after(s))
                hi = ('it', self.after(s))
                if nm == 'equal_range':
                    d = I.destloc(s, fr, nid)
                    t = n['t'].replace('const ', '', 1) if n['t'].startswith('const ') else n['t']
                    s.mem[('fld', d, t + '::first')] = lo
                    s.mem[('fld', d, t + '::second')] = hi
                    outs.append(('ret', s, d))
                elif nm == 'count':
                    outs.append(('ret', s, c(len(m))))
                else:
                    v = {'find': lo if m else ('it', 'end'), 'lower_bound': lo, 'upper_bound': hi}[nm]
                    outs += I.models.ret(I, s, fr, nid, n, v)
            return outs
        if nm in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
            if 'nd' in nm:
                return I.models.ret(I, st, fr, nid, n, ('it', 'end'))
            sts = self.fill(st, ('anykey',)) if MM not in st.mem else [st]
            if nm in ('size', 'empty'):
                return [('ret', s, c(len(self.ids(s))) if nm == 'size' else c(int(not self.ids(s)))) for s in sts]
            return [o for s in sts for o in I.models.ret(I, s, fr, nid, n, ('it', self.ids(s)[0] if self.ids(s) else 'end'))]
        if nm in ('insert', 'emplace', 'emplace_hint'):
            if nm == 'insert' and len(args) <= 2:
                v = val(len(args) - 1)
                if v[0] != 'pair':
                    x = args[-1][1]
                    v = next((('pair', st.mem.get(('fld', x, k[2][:-6] + 'first')), w) for k, w in st.mem.items() if k[0] == 'fld' and k[1] == x and k[2].endswith('second')), None)
                if v is None:
                    raise Undecided('insert')
                k, p = v[1], v[2]
            else:
                k, p = val(len(args) - 2), val(len(args) - 1)
            st.mem[('gh', 'ins')] = st.mem.get(('gh', 'ins'), ('ins',)) + ((k, p),)
            return I.models.ret(I, st, fr, nid, n, ('it', 'new')) if n.get('c') else [('ret', st, C0)]
        if nm == 'erase':
            if len(args) != 1:
                raise Undecided('erase')
            v = val(0)
            if v[0] != 'it':
                if MM not in st.mem:
                    sts = self.fill(st, v)
                else:
                    sts = [st]
                for s in sts:
                    self.setids(s, [i for i in self.ids(s) if s.mem[('fld', ('ent', i), '#key')] != v])
                return [('ret', s, ('hv', fr.id, nid, 'n')) for s in sts]
            ok = v[1] in self.ids(st)
            I.oblige('iterator', fr, nid, 'erase', ok, 'an entry is erased through an invalid iterator')
            if not ok:
                return []
            ids = list(self.ids(st))
            j = ids.index(v[1])
            ids.remove(v[1])
            self.setids(st, ids)
            return I.models.ret(I, st, fr, nid, n, ('it', ids[j] if j < len(ids) else 'end'))
        if nm in ('clear', 'swap', 'operator='):
            if MM not in st.mem:
                st = self.fill(st, ('anykey',))[-1]
            self.setids(st, ())
            return [('ret', st, obj)]
        raise Undecided('cache.' + nm)

    def after(self, st):
        z = [i for i in self.ids(st) if st.mem[('fld', ('ent', i), '#val')] == ('addr', Z)]
        return z[0] if z else 'end'

    def iter(self, I, st, fr, nid, n, nm, obj, args, val):
        if nm in ('operator==', 'operator!='):
            a, b = (I.rd(st, obj), val(0)) if obj is not None else (val(0), val(1))
            if a[0] != 'it' or b[0] != 'it':
                raise Undecided('iterator')
            return [('ret', st, c(int((a == b) == (nm == 'operator=='))))]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return I.models.ret(I, st, fr, nid, n, val(0) if args else C0)
        v = I.rd(st, obj)
        if nm == 'operator=':
            I.wr(st, obj, val(0), fr, nid)
            return [('ret', st, obj)]
        if v[0] != 'it':
            raise Undecided('iterator')
        ids = self.ids(st)
        if nm in ('operator*', 'operator->'):
            self.locked(I, st, fr, nid, 'entry')
            ok = v[1] in ids
            I.oblige('iterator', fr, nid, 'access', ok, 'an invalid iterator into the cache is used')
            if not ok:
                return []
            e = ('ent', v[1])
            t = strip_amp(n['t'])
            if t.endswith('*'):
                t = t[:-1].strip()
            st.mem[('fld', e, t + '::first')] = st.mem[('fld', e, '#key')]
            st.mem[('fld', e, t + '::second')] = st.mem[('fld', e, '#val')]
            return [('ret', st, e if nm == 'operator*' else ('addr', e))]
        if nm in ('operator++', 'operator--'):
            ok = v[1] in ids
            I.oblige('iterator', fr, nid, 'step', ok, 'an invalid iterator into the cache is advanced')
            if not ok:
                return []
            j = ids.index(v[1]) + (1 if nm == 'operator++' else -1)
            nv = ('it', ids[j] if 0 <= j < len(ids) else 'end')
            I.wr(st, obj, nv)
            return I.models.ret(I, st, fr, nid, n, v) if args else [('ret', st, obj)]
        raise Undecided(nm)

    def gone(self, st):
        m0 = st.mem.get(('gh', 'mm0'), ('cbs',))[1:]
        left = [st.mem[('fld', ('ent', i), '#val')][1] for i in self.ids(st)] if MM in st.mem else None
        return m0, left


def strip_amp(t):
    t = t.replace('const std::pair', 'std::pair')
    return t.rstrip('& ')


def run(ctx):
    p = ctx.p
    n = 3 if ctx.tier == 'thorough' else 2
    counts = {}

    def done(cl, I, f):
        ctx.seen(f)
        ctx.absorb(I)
        for k, v in cl.counts.items():
            counts[k] = counts.get(k, 0) + v
    allf = [f for f in p.fns.values() if f.blocks]
    mentions = {f.qt: f for f in allf if any((x or {}).get('m') == CACHE for x in (f.nodes.values() if isinstance(f.nodes, dict) else f.nodes))}
    writes = {}
    for f in allf:
        for x in (f.nodes.values() if isinstance(f.nodes, dict) else f.nodes):
            if not x:
                continue
            if x['k'] in ('BinaryOperator', 'CompoundAssignOperator') and '=' in (x.get('op') or '') and x.get('op') not in ('==', '!=', '<=', '>='):
                l = f.nodes[x['o'][0]]
                if l.get('m') == HASH:
                    writes[f.qt] = f
    # -- looking up
    fs = [f for f in mentions.values() if f.n == 'cache' or len(f.params) == 2 and 'shared_ptr' in f.vars[f.params[1]]['t'] and f.vars[f.params[1]].get('ref')]
    ctx.require(fs, 'the function that looks a description up in the cache was not found')
    looked = set()
    for f in fs:
        def values(k):
            return [tuple(('cb', 'e%d' % i) for i in range(j)) for j in range(k + 1)]
        cl = M(ctx, n, values)
        I = Interp(p, cl, 2000000)
        st = State()
        fr = I.frame(f, None, None, locks.THIS)
        ent = ('ptrvar', 'ent')
        for vid in f.params:
            V = f.vars[vid]
            st.mem[('var', fr.id, vid)] = ('addr', ent) if 'shared_ptr' in V['t'] else ('addr', ('create',))
        st.mem[ent] = ('addr', ('cb', 'new'))
        try:
            outs = I.run_fn(fr, st)
        except (Budget, Undecided) as e:
            ctx.ob('analysed', '%s: %s' % (f.qt, e), None)
            done(cl, I, f)
            continue
        looked.add(f.qt)
        for kd, s, v in outs:
            E = I.rd(s, ent)
            m0, left = cl.gone(s)
            ins = s.mem.get(('gh', 'ins'), ('ins',))[1:]
            h = I.rd(s, ('fld', ('cb', 'new'), HASH))
            I.oblige('found', fr, None, 'no error', kd == 'ret', 'a race with the destruction of an entry makes the creation fail')
            if kd != 'ret':
                continue
            if left is not None:
                I.oblige('found', fr, None, 'others kept', [x for x in left if x != Z] == list(m0), 'looking a description up removes entries from the cache')
            if E == ('addr', ('cb', 'new')):
                I.oblige('insert', fr, None, 'inserted once', len(ins) == 1 and ins[0][1] == E, 'a new description is not entered into the cache exactly once')
                I.oblige('insert', fr, None, 'key', bool(ins) and all(k == h for k, _ in ins), 'a description is entered under another key than the one stored in it, so its destructor will not find it')
                I.oblige('insert', fr, None, 'looked up', MM in s.mem and s.mem[MM][1] == h or None if MM in s.mem else False, 'a description is entered without being looked up first')
                for x in m0:
                    no = s.mem.get(('gh', 'same', x)) == C0 or s.mem.get(('gh', 'live', x)) == C0 or I.truth(s, I.compare(s, dynterm(s, x), C0, '==')) is True
                    I.oblige('shared', fr, None, 'equal entry used', no, 'an equal description that is alive in the cache is not used')
            elif E[0] in ('addr', 'dyn'):
                x = E[1] if E[0] == 'addr' else E[2][1]
                I.oblige('found', fr, None, 'from the cache', x in m0, 'the description becomes one that is not in the cache')
                I.oblige('found', fr, None, 'equal', s.mem.get(('gh', 'same', x)) == C1, 'a description is replaced by an entry that was not found to be equal')
                I.oblige('found', fr, None, 'alive', s.mem.get(('gh', 'live', x)) == C1, 'a description is replaced by an entry that may already be destroyed')
                I.oblige('found', fr, None, 'not inserted', not ins, 'a description is entered into the cache and then dropped')
            else:
                I.oblige('found', fr, None, 'result', False if E == C0 else None, 'the description is lost')
        done(cl, I, f)
    # -- clean-up
    cl_fns = [f for f in p.by_q.get(NS + 'Field::cacheCleanup', []) if f.blocks]
    ctx.require(cl_fns, 'Field::cacheCleanup not found')
    me = ('cb', 'self')
    for f in cl_fns:
        def values(k):
            r = []
            for j in range(k + 1):
                for pos in [None] + list(range(j)):
                    r.append(tuple(me if i == pos else ('cb', 'e%d' % i) for i in range(j)))
            return r
        cl = M(ctx, n, values)
        I = Interp(p, cl, 2000000)
        st = State()
        fr = I.frame(f, None, None, me)
        try:
            outs = I.run_fn(fr, st)
        except (Budget, Undecided) as e:
            ctx.ob('analysed', '%s: %s' % (f.qt, e), None)
            done(cl, I, f)
            continue
        looked.add(f.qt)
        for kd, s, v in outs:
            m0, left = cl.gone(s)
            I.oblige('cleanup', fr, None, 'no error', kd == 'ret', 'the clean-up of the cache fails')
            if left is None:
                I.oblige('cleanup', fr, None, 'done', False, 'the clean-up does not look into the cache')
                continue
            I.oblige('cleanup', fr, None, 'key', s.mem[MM][1] == ('anykey',) or I.truth(s, I.compare(s, s.mem[MM][1], I.rd(s, ('fld', me, HASH)), '==')) is True, 'the clean-up looks under another key than the one stored')
            I.oblige('cleanup', fr, None, 'removed', me not in left, 'the cache keeps a description that is being destroyed')
            I.oblige('cleanup', fr, None, 'others kept', [x for x in left if x != Z] == [x for x in m0 if x != me] and Z in left, 'the clean-up removes other descriptions')
        done(cl, I, f)
    # -- destructors
    made = set()
    for f in allf:
        for x in (f.nodes.values() if isinstance(f.nodes, dict) else f.nodes):
            if x and x['k'] == 'CXXNewExpr':
                t = x['t'].rstrip('* ').strip()
                if is_subclass(p, t, NS + 'Field'):
                    made.add(t)
    ctx.require(len(made) >= 8, 'descriptions that are created: only %d' % len(made))
    cleans = {}

    def cleaned(cls):
        """-> (runs the clean-up, function)"""
        if cls in cleans:
            return cleans[cls]
        cleans[cls] = (False, None)
        f = next((f for f in allf if f.cls == cls and f.n.startswith('~')), None)
        r = (False, f)
        if f is not None and not f.d.get('implicit'):
            cl = M(ctx, n, lambda k: [()])
            I = Interp(p, cl, 200000)
            outs = I.run_fn(I.frame(f, None, None, me), State())
            r = (bool(outs) and all(s.mem.get(('gh', 'cleaned')) == C1 for _, s, _ in outs), f)
            done(cl, I, f)
        cleans[cls] = r
        return r
    for t in sorted(made):
        cls, ok, why = t, None, ''
        while ok is None:
            r, f = cleaned(cls)
            if r:
                ok = True
                break
            rec = p.rec_q[cls][0]
            heavy = [x['n'] for x in rec.get('fields', []) if not x.get('static') and not trivial(x['t'])]
            if heavy:
                ok, why = False, ', after its member %s is gone' % heavy[0]
                break
            bs = [b if isinstance(b, str) else b.get('t') or b.get('q') for b in rec.get('bases', [])]
            bs = [b for b in bs if is_subclass(p, b, NS + 'Field')]
            if not bs or bs[0] == NS + 'Field' and not cleaned(NS + 'Field')[0]:
                ok = False
                break
            cls = bs[0]
        _, f = cleaned(t)
        ctx.ob('destructor', t, ok, 'the destructor of %s does not take it out of the cache%s' % (t.split('::')[-1], why or ' on every path'), f or t)
    # -- nobody else
    for q, f in mentions.items():
        ctx.ob('only', q, True if q in looked else None)
    callers = {}
    for q, f in writes.items():
        ok = q in looked or f.n == 'hash' or 'ctor' in f.d
        ctx.ob('only', 'stored key written by ' + q, True if ok else None)
    ctx.info['classes'] = sorted(made)
    ctx.info['counts'] = counts
    ctx.info['bound'] = 'up to %d entries under the key looked up' % n
    ctx.require(counts.get('cache states', 0) >= 6, 'the cache is not used: %s' % counts)
    ctx.assume.append('the hash of a description does not change (descriptions are immutable); std::multimap behaves as specified')


def dynterm(s, x):
    for k in s.facts:
        t = k
        if isinstance(t, tuple) and t and t[0] == 'dyn' and t[2] == ('addr', x):
            return t
    return ('addr', x)


def trivial(t):
    t = t.replace('const ', '').strip()
    return t.endswith('*') or t in ('int', 'unsigned int', 'size_t', 'std::size_t', 'unsigned long', 'bool', 'double', 'char') or t.startswith('epics::pvData::ScalarType') or \
        t.startswith('enum') or t in ('ScalarType', 'Type', 'epics::pvData::Type')
