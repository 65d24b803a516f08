"""Request parsing reports every error as a null result with a message.

Exceptions: every throw that creating a request can reach through the call graph (overriding functions included) throws a class derived
from std::exception; the public function is interpreted with its parser returning and with it throwing each of those classes: none leaves,
null is returned with the message of the exception and a structure with an empty message. Crashes: every access to a character or element by
position in the parser is inside the text for all texts (interval analysis), the parser never returns null itself, and recursion driven by the
text counts its depth against a constant."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State
from pv.models import strsize

NS = 'epics::pvData::'
THIS = ('cb', 'this')
C0, C1 = c(0), c(1)
MSG = ('fld', THIS, NS + 'CreateRequest::message')
TOK = ('gh', 'message')


def derives(p, t, base='std::exception'):
    t = t.replace('const ', '').replace('&', '').strip()
    if t == base:
        return True
    if t in p.rec_qt:
        return any(derives(p, b['t'], base) for b in p.rec_qt[t].get('bases', ()))
    chain = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception',
             'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
             'std::domain_error': 'std::logic_error', 'std::overflow_error': 'std::runtime_error', 'std::range_error': 'std::runtime_error',
             'std::underflow_error': 'std::runtime_error'}
    return t in chain and derives(p, chain[t], base)


def reach(p, roots):
    seen, todo, via = set(), list(roots), {}
    while todo:
        u = todo.pop()
        if u in seen or u not in p.fns:
            continue
        seen.add(u)
        for n in p.fns[u].nodes.values():
            if n.get('fn'):
                for x in [n['fn']] + ([getattr(x, 'usr', x) for x in p.overriders(n['fn'])] if n.get('virt') else []):
                    via.setdefault(x, u)
                    todo.append(x)
    return seen, via


class Wrap(Client):
    """the public function: its parser returns, or throws one of the classes"""
    max_depth = 3

    def __init__(self, p, cls, thrown, pubs):
        self.p, self.cls, self.thrown, self.pubs = p, cls, thrown, pubs
        self.calls = 0

    def inline(self, I, fn, fr):
        return fn.cls == self.cls

    def on_write(self, I, st, fr, nid, loc, val):
        if loc == MSG or loc[0] in ('fld', 'idx') and loc[1] == MSG:
            st.mem.setdefault(TOK, ('text', fr.id, nid))

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        if n.get('fn') in self.pubs and n.get('fn') != self.p_self:
            self.calls += 1
            out = []
            for t in sorted(self.thrown):
                s = st.fork()
                s.mem[('gh', 'thrown')] = ('t', t)
                out.append(('throw', s, t))
            d = I.destloc(st, fr, nid)
            I.wr(st, d, ('addr', ('cb', 'structure')))
            return [('ret', st, d)] + out
        if nm == 'what':
            return [('ret', st, ('whattext',))]
        if obj == MSG and nm in ('clear', 'operator=', 'assign', 'erase'):
            v = I.rd(st, args[0][1]) if args and args[0][2] else args[0][1] if args else None
            st.mem[TOK] = ('empty',) if not args else ('what',) if any(('whattext',) == y for y in parts(v)) or args[0][0] in self.what(fr, nid) else ('other',)
            return [('ret', st, obj)]
        if obj == MSG and nm in ('operator+=', 'append'):
            st.mem[TOK] = ('what',) if st.mem.get(TOK) == ('empty',) and args and args[0][0] in self.what(fr, nid) else ('other',)
            return [('ret', st, obj)]
        if obj == MSG and nm == 'swap' or any(x[1] == MSG for x in args if x[2] and not n.get('cm')) and nm == 'swap':
            st.mem[TOK] = ('other',)
        return None

    def what(self, fr, nid):
        """operands of the call that contain a call of what()"""
        out = set()

        def has(i):
            n = fr.fn.nodes.get(i) or {}
            return n.get('fname') == 'what' or any(has(o) for o in n.get('o', ()))
        for o in fr.fn.nodes[nid].get('o', ()):
            if has(o):
                out.add(o)
        return out


def parts(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from parts(x)


class Text(Client):
    max_depth = 4
    cap = 60

    def __init__(self, file):
        self.file = file
        self.n = 0

    def inline(self, I, fn, fr):
        return fn.file == self.file and fn.n in self.helpers

    def on_branch(self, I, st, fr, nid, v, truth):
        """a character equal to a constant other than 0 is not the end of the text"""
        if v[0] != 'cmp' or v[1] not in ('==', '!=') or truth != (v[1] == '=='):
            return
        t = v[2]
        if t[0] != 'lin' or len(t[2]) != 1 or t[2][0][1] not in (1, -1) or t[1] == 0:
            return
        a = t[2][0][0]
        w = ix = None
        if a[0] == 'prj' and len(a) == 4 and a[2] == 'idx':
            w, ix = a[1], a[3]
        elif a[0] == 'init' and a[1][0] == 'idx':
            w, ix = ('init', a[1][1]), a[1][2]
        if w is not None:
            I.assume(st, ('cmp', '>=', sub(sub(strsize(I, st, w), ix), C1)), True)

    def on_index(self, I, st, fr, nid, base, ix, size):
        if fr.fn.file != self.file:
            return
        n = size if size is not None else I.rd(st, ('fld', base, '#n'))
        t = fr.fn.nodes[nid].get('fq') or ''
        text = 'basic_string' in t.split('<')[0]
        self.n += 1
        d = sub(n, ix) if text else sub(sub(n, ix), C1)           # a text may be read at its end
        ok = lin.entails(st.facts, ix) and lin.entails(st.facts, d)
        I.oblige('position', fr, nid, 'access by position', ok, 'a text or list is accessed at a position that need not be inside it')


class Depth(Client):
    """what a function of a cycle of the call graph passes to the functions of the cycle"""
    max_depth = 4
    cap = 60

    def __init__(self, p, comp, file, slots):
        self.p, self.comp, self.file, self.slots = p, comp, file, slots
        self.calls = []

    def inline(self, I, fn, fr):
        return fn.file == self.file and fn.usr not in self.comp

    def pre_call(self, I, st, fr, nid, n, a):
        t = n.get('fn')
        if t not in self.comp:
            return None
        obj, args = a
        vals = {}
        for m in self.slots:
            vals[m] = (I.rd(st, ('fld', THIS, m)), dict(st.facts)) if obj == THIS else None
        for j, x in enumerate(args):
            if not x[2]:
                vals[j] = (x[1], dict(st.facts))
        if not I.mute:
            self.calls.append((nid, n.get('l'), t, vals))
        out = []
        s = st.fork()
        out.append(('throw', s, 'std::runtime_error'))
        for x in args:
            if x[2]:
                I.wr(st, x[1], ('after', fr.id, nid, x[1]))
        fn = self.p.fns[t]
        if n.get('c') and not n.get('lv'):
            d = I.destloc(st, fr, nid)
            I.wr(st, d, ('after', fr.id, nid, 'r'))
            return [('ret', st, d)] + out
        r = ('after', fr.id, nid, 'r')
        return [('ret', st, C0 if (n.get('t') or '') == 'void' else r)] + out


def closure(nodes, succ):
    """node -> what it reaches in one or more steps"""
    r = {}
    for u in nodes:
        got, todo = set(), [v for v in succ(u) if v in nodes]
        while todo:
            v = todo.pop()
            if v not in got:
                got.add(v)
                todo += [w for w in succ(v) if w in nodes]
        r[u] = got
    return r


def sccs(nodes, succ):
    r = closure(nodes, succ)
    out = []
    for u in sorted(nodes):
        if u in r[u] and not any(u in x for x in out):
            out.append({u} | {v for v in r[u] if u in r[v]})
    return out


BOUND = 1 << 16


def recursion(ctx, seen, file):
    """each cycle of calls that is driven by the text counts its depth against a constant"""
    import itertools
    p = ctx.p
    nodes = {u for u in seen if p.fns[u].file == file}
    comps = sccs(nodes, lambda u: [n['fn'] for n in p.fns[u].nodes.values() if n.get('fn')])
    for comp in comps:
        fns = sorted(comp)
        text = [u for u in fns if any('string' in ptype(p.fns[u], x) for x in p.fns[u].params)]
        names = ', '.join(p.fns[u].n for u in fns)
        if not text:
            ctx.info.setdefault('recursion over parsed nodes (bounded by the depth of the text)', []).append(names)
            continue
        cls = p.fns[fns[0]].clsq
        slots = ['%s::%s' % (r['q'], f_['n']) for r in p.recs.values() if r['q'] == cls for f_ in r['fields'] if int_type(f_['t'])] if cls else []
        edges, rets = {}, {}
        for u in fns:
            f = p.fns[u]
            cl = Depth(p, comp, file, slots)
            I = Interp(p, cl, 300000)
            fr = I.frame(f, None, None, THIS if f.cls else None)
            st = State()
            ini = {m: I.rd(st, ('fld', THIS, m)) for m in slots}
            for j, x in enumerate(f.params):
                if int_type(ptype(f, x)):
                    ini[j] = I.rd(st, ('var', fr.id, x))
            outs = I.run_fn(fr, st)
            ctx.absorb(I)
            ctx.seen(f)
            edges[u] = (ini, cl.calls)
            rets[u] = {m: all(k != 'ret' or I.rd(s, ('fld', THIS, m)) == ini[m] for k, s, _ in outs) for m in slots}
        choice = [[m for m in slots] + [j for j, x in enumerate(p.fns[u].params) if int_type(ptype(p.fns[u], x))] for u in fns]
        ok = False
        for pick in itertools.product(*choice):
            at = dict(zip(fns, pick))
            ms = [m for m in pick if isinstance(m, str)]
            if ms and not all(rets[u][m] for u in fns for m in ms):
                continue
            free, good = {u: set() for u in fns}, True
            for u in fns:
                ini, calls = edges[u]
                for nid, l, t, vals in calls:
                    v = vals.get(at[t])
                    if v is None:
                        good = False
                        break
                    v, facts = v
                    d = sub(v, ini[at[u]])
                    if d[0] != 'c' or d[1] < 0:
                        good = False
                        break
                    if d[1] >= 1 and lin.entails(facts, sub(c(BOUND), v)):
                        continue
                    free[u].add(t)
            if good and not any(u in x for u, x in closure(free, lambda u: free[u]).items()):
                ok = True
                ctx.info.setdefault('depth counters', []).append('%s: %s' % (names, ', '.join(str(x) for x in pick)))
                break
        ctx.ob('recursion', 'depth of %s' % names, ok, 'recursion driven by the request is not counted against a constant: a long request overflows the stack', p.fns[text[0]])


def ptype(f, x):
    return strip(str((f.vars.get(x) or {}).get('t')))


def int_type(t):
    return strip(t) in ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'size_t', 'std::size_t', 'short', 'unsigned short')


def strip(t):
    return t.replace('const ', '').replace('&', '').strip()


def run(ctx):
    p = ctx.p
    pub = [f for f in p.fns.values() if f.n == 'createRequest' and f.blocks and f.cls == NS + 'CreateRequest']
    free = [f for f in p.fns.values() if f.n == 'createRequest' and f.blocks and f.q == NS + 'createRequest']
    ctx.require(pub and free, 'createRequest not found')
    seen, via = reach(p, [free[0].usr])
    ctx.require(len(seen) >= 50, 'call graph of createRequest not found')
    thrown = {'std::bad_alloc', 'std::out_of_range', 'std::length_error'}
    for u in sorted(seen):
        f = p.fns[u]
        ctx.seen(f)
        for n in f.nodes.values():
            if n['k'] == 'CXXThrowExpr' and n.get('tt'):
                thrown.add(n['tt'])
                ctx.ob('exception', '%s throws %s (%s)' % (f.q, n['tt'], n.get('l')), derives(p, n['tt']), '%s is thrown while a request is created and is not an std::exception' % n['tt'], f, n.get('l'))
    for f in pub:
        cl = Wrap(p, f.cls, thrown, {x.usr for x in free} | {x.usr for x in p.fns.values() if x.n == 'createRequest' and x.file == f.file})
        cl.p_self = f.usr
        I = Interp(p, cl, 100000)
        outs = I.run_fn(I.frame(f, None, None, THIS), State())
        ctx.seen(f)
        ctx.require(cl.calls, 'the public function does not call the parser')
        for kind, st, v in outs:
            t = st.mem.get(('gh', 'thrown'))
            what = 'the parser throws %s' % t[1] if t else 'the parser returns'
            ctx.ob('report', what + ': no exception leaves', kind == 'ret', 'an exception (%s) leaves createRequest()' % (t[1] if t else '?'), f)
            if kind != 'ret':
                continue
            r = v
            if r is not None and r[0] in ('tmp', 'var', 'ret', 'fld', 'rv'):
                r = I.rd(st, r)
            m = st.mem.get(TOK)
            if t:
                ctx.ob('report', what + ': null', r == C0, 'createRequest() does not return null after an error', f)
                ctx.ob('report', what + ': message', m == ('what',), 'createRequest() returns null without the message of the error', f)
            else:
                ctx.ob('report', what + ': result', r != C0, 'createRequest() drops the structure', f)
                ctx.ob('report', what + ': no message', m == ('empty',), 'createRequest() leaves the message of an earlier request', f)
    cl = Text(pub[0].file)
    cl.helpers = ('findEndField', 'findMatchingBrace', 'findMatchingBracket')
    for u in sorted(seen):
        f = p.fns[u]
        if f.file == pub[0].file and f.n not in cl.helpers and f.blocks:
            I = Interp(p, cl, 300000)
            outs = I.run_fn(I.frame(f, None, None, THIS if f.cls else None), State())
            ctx.absorb(I)
    recursion(ctx, seen, pub[0].file)
