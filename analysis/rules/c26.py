"""Process-wide state: an effect analysis of every variable with static storage, and of every member of the singletons.

Each such variable is constant, never written, atomic, written by one once-guarded initialiser, or guarded by a mutex of its own
function. Writes are found by following every use of the variable through the expression around it. Uses of once-guarded variables are
checked by abstract interpretation: on every path epicsThreadOnce of the variable's own identifier came before, and a pointer the
initialiser may leave null is tested before it is followed. Lazily created variables are only stored while the lock is held and they
are null, and are complete before they are stored."""
from pv.lin import c
from pv.interp import Interp, State, Budget, strip_t
from rules import locks
from rules.locks import LockClient, C0, C1, THIS, NS

ATOMIC = ('epicsAtomic', 'epics::atomic::', '::epicsAtomic')


def parents(f):
    up = {}
    for i, n in f.nodes.items():
        for x in list(n.get('o') or []) + list(n.get('place') or []):
            if x is not None:
                up.setdefault(x, []).append(i)
        if 'ind' in n:
            up.setdefault(n['ind'], []).append(i)
        for d in n.get('decls') or []:
            if 'init' in d:
                up.setdefault(d['init'], []).append((i, d['v']))
    for b in f.blocks.values():
        for e in b['el']:
            if isinstance(e, dict) and 'init' in e and isinstance(e['init'], int):
                up.setdefault(e['init'], []).append(('mem', e.get('m')))
    return up


def use(f, up, nid, depth=0):
    """what happens to the variable named by node nid: 'read', ('write', node, how), ('atomic', ..), ('once', call, argno)"""
    out = []
    ps = up.get(nid, [])
    if depth > 12:
        return [('write', nid, 'lost')]
    if not ps:
        return []
    for p in ps:
        if isinstance(p, tuple):
            if p[0] == 'mem':
                continue
            V = f.vars[p[1]]
            if V.get('ref') and not V['t'].startswith('const ') and not V.get('constref'):
                # an alias: what is done with it
                al = []
                for i, n in f.nodes.items():
                    if n['k'] == 'DeclRefExpr' and n.get('v') == p[1]:
                        al += use(f, up, i, depth + 1)
                out += al
            elif V['t'].rstrip().endswith('*') and not V['t'].startswith('const ') and depth and f.nodes[nid]['k'] in ('UnaryOperator', 'ImplicitCastExpr') \
                    and f.nodes[nid].get('ck') != 'LValueToRValue':
                out.append(('write', nid, 'its address is kept'))
            continue
        n = f.nodes[p]
        k = n['k']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            out += use(f, up, p, depth + 1)
        elif k == 'ImplicitCastExpr' or k.endswith('CastExpr'):
            ck = n.get('ck')
            if ck == 'LValueToRValue' or ck in ('PointerToBoolean', 'ToVoid', 'UserDefinedConversion'):
                continue
            if ck in ('NoOp', 'ArrayToPointerDecay', 'BitCast') and n['t'].startswith('const '):
                continue
            out += use(f, up, p, depth + 1)
        elif k == 'MemberExpr':
            if n.get('fn'):
                continue
            if not n.get('arrow'):
                out += use(f, up, p, depth + 1)
        elif k == 'ArraySubscriptExpr':
            out += use(f, up, p, depth + 1)
        elif k == 'UnaryOperator':
            if n['op'] in ('++', '--'):
                out.append(('write', p, n['op']))
            elif n['op'] == '&':
                out += use(f, up, p, depth + 1)
            elif n['op'] == '*' and f.nodes[nid].get('ck') == 'ArrayToPointerDecay':
                out += use(f, up, p, depth + 1)
        elif k == 'BinaryOperator':
            if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['o'][0] == nid:
                out.append(('write', p, 'assignment'))
            elif n['op'] == ',' and n['o'][1] == nid:
                out += use(f, up, p, depth + 1)
        elif k == 'CompoundAssignOperator':
            if n['o'][0] == nid:
                out.append(('write', p, 'assignment'))
        elif k == 'ConditionalOperator':
            out += use(f, up, p, depth + 1)
        elif k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            fq = strip_t(n.get('fq') or '')
            o = n['o']
            i = o.index(nid)
            if n.get('mem'):
                if i == 0:
                    if not n.get('cm'):
                        if fq.startswith('std::') and n.get('fname') in ('at', 'front', 'back') or n.get('fname') == 'operator[]' and 'vector' in fq:
                            out += use(f, up, p, depth + 1)
                        elif fq.startswith('std::') and n.get('fname') in ('begin', 'end', 'operator->', 'operator*', 'find', 'rbegin', 'rend',
                                                                           'lower_bound', 'data', 'get'):
                            pass
                        else:
                            out.append(('write', p, 'call of %s' % n.get('fname')))
                    continue
                i -= 1
            pk = n.get('pk') or []
            kd = pk[i] if i < len(pk) else 'v'
            if fq == 'epicsThreadOnce':
                out.append(('once', p, i))
            elif any(fq.startswith(a) for a in ATOMIC):
                out.append(('atomic', p, fq))
            elif fq.startswith('epicsGuard') or fq == NS + 'Lock::Lock':
                pass
            elif kd in ('r', 'm', 'p'):
                if kd == 'p' and f.nodes[nid].get('ck') == 'LValueToRValue':
                    continue
                out.append(('write', p, 'passed to %s' % n.get('fname')))
        elif k == 'CXXNewExpr':
            pass
        elif k == 'CXXDeleteExpr':
            pass
        elif k == 'ReturnStmt':
            rt = f.d.get('rt') or ''
            if rt.endswith('&') and not rt.startswith('const ') and f.nodes[nid].get('lv'):
                out.append(('write', p, 'a reference to it is returned'))
    return out


def reach(p, start, virtual=True):
    """functions reachable in the call graph from the given nodes"""
    seen, todo = set(), list(start)
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        f = p.fns.get(u)
        if f is None:
            continue
        for n in f.nodes.values():
            if n.get('fn'):
                todo.append(n['fn'])
                if virtual and n.get('virt') and not n.get('qual'):
                    todo += list(p.overriders(n['fn']))
    return seen


class Once(LockClient):
    """paths to the uses of once-guarded variables and of lazily created statics"""
    cap = 300

    def __init__(self, ctx, once, maybe_null, lazy):
        self.ctx, self.once, self.maybe_null, self.lazy = ctx, once, maybe_null, lazy
        self.sites = set()
        self.stores = set()

    def root(self, loc):
        while loc[0] in ('fld', 'idx'):
            loc = loc[1]
        return loc

    def check(self, I, st, fr, nid, loc):
        r = self.root(loc)
        if r[0] == 'glob' and r[1] in self.once:
            ok = ('gh', 'once', self.once[r[1]]) in st.mem
            if not I.mute:
                self.sites.add((fr.fn.qt, nid))
            I.oblige('initialised', fr, nid, r[1].split('@')[-1], ok, '%s is used on a path where its one-time initialisation was not requested'
                     % r[1].split('@')[-1])
        if r[0] == 'deref' and r[1] == C0:
            I.oblige('null', fr, nid, 'deref', False, 'a pointer that a failed initialisation leaves null is followed')
        if r[0] == 'glob' and r[1] in self.lazy and r[1] != self.lazy[r[1]] and not is_init(fr.fn, nid, r[1]):
            M = ('glob', self.lazy[r[1]])
            if not I.mute:
                self.sites.add((fr.fn.qt, nid))
            I.oblige('locked', fr, nid, r[1].split('#')[-1], st.mem.get(('gh', 'lk', M), C0)[1] > 0,
                     'static %s is accessed without its lock' % r[1].split('#')[-1])

    def on_read(self, I, st, fr, nid, loc):
        self.check(I, st, fr, nid, loc)

    def on_write(self, I, st, fr, nid, loc, v):
        if fr is not None:
            self.check(I, st, fr, nid, loc)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        if fq == 'epicsThreadOnce':
            v = args[0][1]
            g = v[1] if v[0] == 'addr' else None
            if g is None or g[0] != 'glob':
                I.oblige('initialised', fr, nid, 'once', None)
                return [('ret', st, C0)]
            outs = [st]
            for x, o in sorted(self.once.items()):
                if o == g[1]:
                    nxt = []
                    for s in outs:
                        if x in self.maybe_null:
                            s2 = s.fork()
                            I.wr(s2, ('glob', x), C0)
                            nxt.append(s2)
                        I.wr(s, ('glob', x), ('addr', ('obj', x)))
                        nxt.append(s)
                    outs = nxt
            for s in outs:
                s.mem[('gh', 'once', g[1])] = C1
            return [('ret', s, C0) for s in outs]
        if n['k'] == 'CXXConstructExpr' and any(is_init(fr.fn, nid, k) for k in self.lazy):
            return [('ret', st, I.destloc(st, fr, nid))]       # only the first call does
        if obj is not None:
            self.check(I, st, fr, nid, obj)
        for x in args:
            if x[2]:
                self.check(I, st, fr, nid, x[1])
        if obj is not None and obj[0] == 'glob' and obj[1] in self.lazy and n.get('fname') in ('operator=', 'reset', 'swap'):
            old = I.rd(st, obj)
            t = I.truth(st, old)
            if not I.mute:
                self.stores.add((fr.fn.qt, nid))
            I.oblige('once-created', fr, nid, 'store', t is False, 'static %s is replaced while it may already have been created' % obj[1].split('#')[-1])
            st.mem[('gh', 'stored', obj[1])] = C1
        elif any(k[:2] == ('gh', 'stored') for k in st.mem) and not n.get('nothrow') and fr.parent is None \
                and n['k'] in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXNewExpr') \
                and not (n.get('copy') or n.get('move')) and n.get('fname') not in ('operator->', 'get', 'operator*'):
            I.oblige('complete', fr, nid, n.get('fname') or '?', False,
                     'static is stored before it is complete: %s may fail afterwards and leave it unfinished for ever' % n.get('fname'))
        return LockClient.pre_call(self, I, st, fr, nid, n, a)


class InitClient(LockClient):
    """one run of an initialiser: any call may fail"""

    def may_throw(self, I, st, fr, nid, n):
        return not n.get('nothrow') and n.get('fname') != 'operator<<' and 'std::exception'

    def inline(self, I, fn, fr):
        return False


def run(ctx):
    p = ctx.p
    # --- variables with static storage
    G = {}
    for u, g in p.globs.items():
        G[u] = dict(t=g['t'], q=g['q'], const=g.get('const'), g=g)
    byq = {}
    uses = {}                       # variable -> [(fn, nid, use)]
    refs = {}
    for f in p.fns.values():
        ids = {}
        for i, V in f.vars.items():
            if V['k'] == 'static':
                key = f.usr + '#' + V['n']
                G.setdefault(key, dict(t=V['t'], q=f.q + '::' + V['n'], const=V['t'].startswith('const '), static=f))
                ids[i] = key
            elif V['k'] == 'global':
                key = V.get('usr') or V['qn']
                if key in G:
                    ids[i] = key
        if not ids:
            continue
        up = None
        for nid, n in f.nodes.items():
            if n['k'] in ('DeclRefExpr', 'MemberExpr') and n.get('v') in ids:
                key = ids[n['v']]
                if G[key]['const']:
                    continue
                up = up or parents(f)
                refs.setdefault(key, set()).add(f)
                for x in use(f, up, nid) or [('read',)]:
                    if isinstance(x, str):
                        x = (x,)
                    uses.setdefault(key, []).append((f, nid, x))
    # statics appear twice (by their own usr too)
    stat = {(g['q'].rsplit('::', 1)[-1], g['static'].l.rsplit(':', 1)[0]) for g in G.values() if 'static' in g}
    for u in [u for u, g in G.items() if g.get('g', {}).get('static')]:
        del G[u]
    ctx.require(len(G) >= 60, 'only %d variables with static storage' % len(G))

    # --- one-time initialisers
    once_of, init_of = {}, {}        # variable -> once id; once id -> init fn
    for f in p.fns.values():
        for nid, n in f.nodes.items():
            if strip_t(n.get('fq') or '') == 'epicsThreadOnce' and n['k'] == 'CallExpr':
                idv, ini = arg_glob(f, n['o'][0]), arg_fn(p, f, n['o'][1])
                ctx.ob('once-call', '%s@%s' % (f.qt, n['l']), None if idv is None or ini is None else True)
                if idv is None or ini is None:
                    continue
                prev = init_of.setdefault(idv, ini)
                ctx.ob('once-call', '%s one initialiser' % idv, prev is ini, 'the same once identifier is used with two initialisers', f, n['l'])
                ctx.seen(f)
    ctx.require(len(init_of) >= 2, 'only %d one-time initialisers found' % len(init_of))
    for idv, ini in sorted(init_of.items()):
        ctx.seen(ini)
        ok = True
        for f, nid, x in uses.get(idv, []):
            if x[0] in ('write', 'atomic'):
                ok = False
                ctx.ob('once-call', '%s unchanged' % idv, False, 'the once identifier is modified', f, f.nodes[nid]['l'])
        g = G[idv].get('g', {})
        ctx.ob('once-call', '%s starts at EPICS_THREAD_ONCE_INIT' % idv, g.get('val', 0) in (0, None) or null_init(g), 'the once identifier does not start at its initial value', None, g.get('l'))
        # no recursion into itself
        again = [p.fns[u] for u in reach(p, [ini.usr]) if u in p.fns and any(
            strip_t(n.get('fq') or '') == 'epicsThreadOnce' and n['k'] == 'CallExpr' and arg_glob(p.fns[u], n['o'][0]) == idv
            for n in p.fns[u].nodes.values())]
        ctx.ob('once-recursion', ini.qt, not again, 'the one-time initialiser reaches %s, which waits for that same initialisation'
               % (again[0].qt if again else ''), ini)
        for key, us in uses.items():
            if any(f is ini and x[0] == 'write' for f, _, x in us):
                once_of[key] = idv
    # --- what the initialiser leaves behind
    maybe_null = set()
    for idv, ini in sorted(init_of.items()):
        I = Interp(p, InitClient(), 50000)
        st = State()
        mine = [k for k, o in once_of.items() if o == idv]
        for k in mine:
            st.mem[('glob', k)] = C0
        outs = I.run_fn(I.frame(ini, None, None, None), st)
        ctx.require(bool(outs), 'initialiser %s has no way out' % ini.qt)
        ctx.ob('once-escape', ini.qt, all(k == 'ret' for k, s, v in outs),
               'an exception escapes from a one-time initialiser: it is never completed and every later use waits for ever', ini)
        for k in mine:
            if any(I.truth(s, I.rd(s, ('glob', k))) is not True for kd, s, v in outs if kd == 'ret'):
                maybe_null.add(k)
        ctx.require(mine, 'initialiser %s sets nothing' % ini.qt)

    # --- lazily created statics
    lazy = {}
    for key, g in G.items():
        f = g.get('static')
        if f is None or g['const'] or g['t'] == 'epicsMutex':
            continue
        ms = [f.usr + '#' + V['n'] for V in f.vars.values() if V['k'] == 'static' and V['t'] == 'epicsMutex']
        if any(x[0] in ('write',) for _, _, x in uses.get(key, [])) and ms:
            lazy[key] = ms[0]
    # --- classification of everything else
    n_counter = 0
    for key, g in sorted(G.items(), key=lambda x: x[1]['q']):
        us = uses.get(key, [])
        where = g['q']
        if g['const'] or g['t'] in ('epicsMutex', NS + 'Mutex') or key in init_of:
            ctx.ob('classified', where)
            continue
        wr = [(f, nid, x) for f, nid, x in us if x[0] == 'write']
        at = [(f, nid, x) for f, nid, x in us if x[0] == 'atomic']
        if key in once_of:
            for f, nid, x in wr:
                ctx.ob('written-once', '%s in %s' % (where, f.qt), f is init_of[once_of[key]],
                       '%s is changed outside its one-time initialiser (%s)' % (g['q'], x[2]), f, f.nodes[nid]['l'])
            ctx.ob('classified', where)
        elif key in lazy:
            ctx.ob('classified', where)
        elif at:
            n_counter += 1
            for f, nid, x in us:
                ctx.ob('atomic', '%s in %s' % (where, f.qt), x[0] == 'atomic' or x[0] == 'read' and not plain_read(f, nid),
                       '%s is used without an atomic operation' % g['q'], f, f.nodes[nid]['l'])
        else:
            ctx.ob('classified', where)
            for f, nid, x in wr:
                ctx.ob('unchanged', '%s in %s' % (where, f.qt), False,
                       '%s is changed (%s) without one-time initialisation, atomic operation or lock' % (g['q'], x[2]), f, f.nodes[nid]['l'])
            if 'static' in g and not g['const'] and not wr:
                pass
    ctx.require(n_counter >= 2, 'reference counters not found')
    ctx.info['once_guarded'] = {G[k]['q']: init_of[o].qt for k, o in once_of.items()}
    ctx.info['lazily_created'] = sorted(G[k]['q'] for k in lazy)
    ctx.info['variables'] = len(G)

    # --- paths
    names = set(once_of) | set(lazy)
    callers = {}
    for u, f in p.fns.items():
        for n in f.nodes.values():
            if n.get('fn'):
                callers.setdefault(n['fn'], set()).add(u)
    start = {f.usr for k in names for f in refs.get(k, ())} - {i.usr for i in init_of.values()}
    todo, seen, ents = sorted(start), set(), []
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        f = p.fns[u]
        if (locks.closed(p, f) or f.d.get('internal')) and callers.get(u):
            todo += sorted(callers[u])
        else:
            ents.append(f)
    ctx.require(len(ents) >= 8, 'only %d functions reach the singletons' % len(ents))
    cl = Once(ctx, once_of, maybe_null, lazy)
    ptrs = {k for k in lazy if '*' in G[k]['t'] or 'ptr<' in G[k]['t']}
    for f in ents:
        I = Interp(p, cl, 200000)
        try:
            I.run_fn(I.frame(f, None, None, THIS), State())
        except Budget:
            ctx.ob('paths', f.qt, None)
        ctx.seen(f)
        ctx.absorb(I)
    ctx.require(len(cl.sites) >= 15, 'only %d uses of singletons found' % len(cl.sites))
    for k in ptrs:
        ctx.ob('lazy-store', G[k]['q'], any(True for q, n in cl.stores if q == G[k]['static'].qt) or None)
    ctx.info['uses_checked'] = len(cl.sites)

    # --- singletons: created in one place, tables fixed after construction
    makers = {}
    roots = set(i.usr for i in init_of.values()) | {G[k]['static'].usr for k in ptrs}
    for u in list(roots):
        for n in p.fns[u].nodes.values():
            if n['k'] == 'CXXConstructExpr' and n.get('fn') in p.fns and 'detail' in (n.get('fq') or ''):
                roots.add(n['fn'])
    singles = set()
    for u in sorted(roots):
        f = p.fns[u]
        for n in f.nodes.values():
            if n['k'] == 'CXXNewExpr' and n['at'] in p.rec_qt:
                singles.add(n['at'])
    ctx.require(len([s for s in singles if s.startswith(NS)]) >= 5, 'singleton classes not found: %s' % sorted(singles))
    for f in p.fns.values():
        for n in f.nodes.values():
            if n['k'] == 'CXXNewExpr' and n['at'] in singles:
                makers.setdefault(n['at'], set()).add((f.qt, n['l']))
                ctx.ob('one-instance', '%s in %s' % (n['at'], f.qt), f.usr in roots, 'a second %s is created' % n['at'], f, n['l'])
    for s in sorted(singles):
        r = p.rec_qt[s]
        for fd in r.get('fields', []):
            q = fd['q']
            if q in locks.GUARDED or q in locks.GUARDED.values() or fd['t'] == 'epicsMutex':
                ctx.ob('table', q)
                continue
            ok = True
            for f in p.fns.values():
                up = None
                for nid, n in f.nodes.items():
                    if n['k'] == 'MemberExpr' and n.get('m') == q and 'fn' not in n:
                        if f.clsq == r['q'] and ('ctor' in f.d or f.d.get('dtor')):
                            continue
                        up = up or parents(f)
                        for x in use(f, up, nid):
                            if x[0] == 'write' and not f.d.get('implicit') and not f.d.get('defaulted'):
                                ok = False
                                ctx.ob('table', '%s in %s' % (q, f.qt), False, '%s of a singleton is changed after construction (%s)' % (q, x[2]), f, n['l'])
            ctx.ob('table', q, ok)
    ctx.info['singletons'] = sorted(singles)

    # --- dynamic initialisers do not read each other
    dyn = {u: g['g'] for u, g in G.items() if 'g' in g and any('fn' in n and n['k'] not in ('DeclRefExpr', 'MemberExpr') for n in g['g'].get('nodes', {}).values())}
    for u, g in sorted(dyn.items()):
        start = [n['fn'] for n in g['nodes'].values() if 'fn' in n and n['k'] not in ('DeclRefExpr', 'MemberExpr')]
        bad = None
        for w in reach(p, start, False):
            f = p.fns.get(w)
            if f is None:
                continue
            for V in f.vars.values():
                k = V.get('usr') if V['k'] == 'global' else None
                if k in dyn and k != u and dyn[k]['l'].rsplit(':', 1)[0] != g['l'].rsplit(':', 1)[0]:
                    bad = (f, k)
        ctx.ob('start-up', g['q'], bad is None, 'the initialiser of %s reaches %s, which uses %s of another file before it may be initialised' % (
            g['q'], bad[0].qt if bad else '', dyn[bad[1]]['q'] if bad else ''), None, g['l'])
    ctx.info['dynamic_initialisers'] = len(dyn)
    ctx.assume += ['EPICS epicsThreadOnce and epicsMutex do what they promise', 'function-local statics are initialised under the compiler\'s guard',
                   'variables of user code are not analysed']


def is_init(f, nid, key):
    """the node is the variable's own initialiser"""
    return key.startswith(f.usr + '#') and any('init' in d and d['init'] == nid and f.vars[d['v']]['k'] == 'static' and f.vars[d['v']]['n'] == key.rpartition('#')[2] for n in f.nodes.values() for d in n.get('decls') or [])


def null_init(g):
    ns = g.get('nodes') or {}
    return any(n['k'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or n.get('cv') == 0 or n.get('ck') == 'NullToPointer' for n in ns.values())


def arg_glob(f, nid):
    n = f.nodes[nid]
    while n['k'] != 'DeclRefExpr':
        if not n.get('o') or len(n['o']) != 1:
            return None
        n = f.nodes[n['o'][0]]
    V = f.vars.get(n.get('v'))
    if V is None:
        return None
    return V.get('usr') or V.get('qn') if V['k'] == 'global' else f.usr + '#' + V['n'] if V['k'] == 'static' else None


def arg_fn(p, f, nid):
    n = f.nodes[nid]
    while n['k'] != 'DeclRefExpr':
        if not n.get('o') or len(n['o']) != 1:
            return None
        n = f.nodes[n['o'][0]]
    return p.fns.get(n.get('fn'))


def plain_read(f, nid):
    """the value is loaded here"""
    return any(n['k'] == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue' and n['o'] == [nid] for n in f.nodes.values())
