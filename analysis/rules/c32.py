"""The JSON parsers, driven by every sequence of tokens.

parseJSON() is interpreted; where it hands its callback table and context to the library, every sequence of callbacks that a JSON text can
give rise to is run on the interpreted context, objects and arrays nested up to a bound, each member name resolving to a field of every
kind or to none. Equal contexts are explored once. What the callbacks do is compared with what the token means: the field it is meant for,
the kind of that field, the structure a name is looked up in. No sequence may stop the program or convert an object to another class."""
from pv import lin, models
from pv.lin import c, sub
from pv.interp import Interp, State, strip_t
from rules.objs import NS, C0, C1, STR, ELEM, World, ObjClient, setvec, bare

KINDS = {   # kind of target -> (class of the data field, class of its description, Type)
    'scalar': ('PVScalar', 'Scalar', 'scalar'),
    'scalarArray': ('PVScalarArray', 'ScalarArray', 'scalarArray'),
    'structure': ('PVStructure', 'Structure', 'structure'),
    'structureArray': ('PVValueArray<std::shared_ptr<%sPVStructure>>' % NS, 'StructureArray', 'structureArray'),
    'variant': ('PVUnion', 'Union', 'union_'),
    'union': ('PVUnion', 'Union', 'union_'),
    'unionArray': ('PVValueArray<std::shared_ptr<%sPVUnion>>' % NS, 'UnionArray', 'unionArray'),
}
VALUES = ('boolean', 'integer', 'double', 'string')
CONV = {'boolean': 'boolean', 'integer': 'integer', 'double': 'double', 'string': 'string'}
M_TYPE = NS + 'Field::m_fieldType'


class Grammar(tuple):
    """what is open, innermost last: ('map', object) | ('array', field, kind) | ('value', field, kind): a value for this field is due.
    A map is expecting a name or its end."""


class Base(ObjClient):
    unroll = 4
    max_depth = 8

    def __init__(self, w, depth):
        ObjClient.__init__(self, w)
        self.maxnest = depth
        self.runs = self.configs = 0
        self.final = 0
        self.ran = {}
        self.names = {}

    def inline(self, I, fn, fr):
        return fn.file.startswith('json/') or fn.cls in (NS + 'PVField', NS + 'Field') or fn.n in ('getType', 'getField', 'isVariant', 'getFieldNames', 'getFields', 'getNumberFields', 'getUnion', 'getStructure')

    # ------------------------------------------------------------------------------------------ the library
    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if nm == 'yajl_alloc':
            self.table = self.ctx = None
            for i in range(len(args)):
                v = val(i)
                for u, g in self.w.p.globs.items():
                    if 'yajl_callbacks' in g['t'] and v == ('addr', ('glob', u)):
                        self.table = g
            v = val(len(args) - 1)
            self.ctx = v[1] if v[0] == 'addr' else None
            return [('ret', st, ('addr', ('cb', 'parser handle')))]
        if nm == 'yajl_parse_helper':
            if self.table is None or self.ctx is None:
                I.oblige('setup', fr, nid, 'callback table and context', None, 'not found')
                return [('ret', st, C0)]
            return self.explore(I, st, fr, nid)
        if n['k'] == 'CallExpr' and nm.startswith('yajl_'):
            return [('ret', st, C1)]
        r = self.library(I, st, fr, nid, n, obj, args, val, nm)
        if r is not None:
            return [x if x[0] == 'throw' or n.get('lv') or not n.get('c') else models.ret(I, x[1], fr, nid, n, x[2])[0] for x in r]
        return ObjClient.pre_call(self, I, st, fr, nid, n, a)

    def cbfn(self, slot):
        g = self.table
        rec = self.w.p.rec_qt['yajl_callbacks']
        i = [f['n'] for f in rec['fields']].index('yajl_' + slot)
        root = g['nodes'][str(g['init'])] if str(g['init']) in g['nodes'] else g['nodes'][g['init']]
        todo = [root['o'][i]]
        while todo:
            x = todo.pop()
            m = g['nodes'].get(str(x), g['nodes'].get(x))
            if m.get('fn'):
                return self.w.p.fns.get(m['fn'])
            todo += m.get('o') or []
        return None

    def call(self, I, st, slot, extra=()):
        """run a callback -> [(state, accepted?)]"""
        f = self.cbfn(slot)
        if f is None or not f.blocks:
            return [(st, None)]
        self.runs += 1
        self.ran[f.usr] = f
        fr = I.frame(f, None, None, None)
        s = st.fork()
        s.mem[('var', fr.id, f.params[0])] = ('addr', self.ctx)
        for i, v in enumerate(extra):
            if len(f.params) > 1 + i:
                s.mem[('var', fr.id, f.params[1 + i])] = v
        out, seen = [], set()
        for k, t, v in I.run_fn(fr, s):
            if k == 'throw':
                continue                     # C31
            tr = I.truth(t, v)
            ok = [True, False] if tr is None else [tr]
            if tr is None:
                I.oblige('outcome', fr, None, slot, None, 'cannot tell whether the token is accepted')
            for o in ok:
                r = self.prune(I, st, t)
                k = (self.norm(r), tuple(sorted(((x, y) for x, y in r.mem.items() if x[0] == 'gh' and x[1] != 'etype'), key=repr)), o)
                if k not in seen:
                    seen.add(k)
                    out.append((r, o))
        return out

    def prune(self, I, base, t):
        """what outlives a callback: the parsing context and the objects"""
        s = State()
        s.facts = base.facts
        s.mem = {k: v for k, v in base.mem.items() if not self.mine(k)}
        for k, v in t.mem.items():
            if self.mine(k):
                s.mem[k] = v
        # stale elements
        for k in list(s.mem):
            if k[0] in ('idx', 'fld'):
                L = k
                while L is not None and L[0] in ('idx', 'fld'):
                    if L[0] == 'idx' and L[2][0] == 'c':
                        z = s.mem.get(('fld', L[1], '#n'))
                        if z is not None and z[0] == 'c' and L[2][1] >= z[1]:
                            del s.mem[k]
                            break
                    L = L[1]
        return s

    def mine(self, k):
        L = k
        while L[0] in ('idx', 'fld'):
            L = L[1]
        return L == self.ctx or L[0] == 'gh'

    def norm(self, s):
        out = []
        for k, v in s.mem.items():
            if k[0] == 'gh' or not self.mine(k):
                continue
            if v[0] not in ('c', 'addr', 'str'):
                v = ('?',)
            out.append((k, v))
        return frozenset(out)

    def explore(self, I, st, fr, nid):
        self.I = I
        outs, seen, todo = [], set(), [(self.start(st), st)]
        done = {}
        rejected = False
        while todo:
            g, s = todo.pop()
            key = (g, self.norm(s))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 20000:
                I.oblige('bound', fr, nid, 'exploration', None, 'too many contexts')
                break
            self.configs += 1
            if all(x[0] == 'odd' for x in g):
                done.setdefault((g, self.norm(s)), s)
                continue
            for tok, s2, ok, g2 in self.step(I, s, g):
                if ok:
                    todo.append((g2, s2))
                else:
                    rejected = True
        for (g, _), s in done.items():
            t = st.fork()
            if g:
                t.mem[('gh', 'odd')] = g[0]
            for k, v in s.mem.items():
                t.mem[k] = v
            t.mem[('gh', 'complete')] = C1
            outs.append(('ret', t, C1))
        self.final += len(done)
        if rejected:
            t = st.fork()
            t.mem[('gh', 'rejected')] = C1
            outs.append(('ret', t, C0))
        return outs

    def tokens(self, g):
        """-> (token, kind of event) possible next"""
        top = g[-1]
        if top[0] == 'map':
            return ('map_key', 'end_map')
        t = ['null'] + list(VALUES)
        if self.nest(g) < self.maxnest:
            t += ['start_map', 'start_array']
        if top[0] == 'array':
            t.append('end_array')
        return tuple(t)

    def nest(self, g):
        return sum(x[0] in ('map', 'array') for x in g)

    def accepted(self, I, tok, outs, can, where):
        if can:
            fr = I.frame(self.cbfn(tok), None, None, None)
            I.oblige('accepts', fr, None, tok, any(ok is not False for _, ok in outs), 'is always refused although it has its place %s' % where)

    def arg(self, tok):
        if tok == 'string':
            return (('addr', ('cb', 'text')), ('hv', 'length'))
        if tok == 'map_key':
            return (('addr', ('cb', 'name')), ('hv', 'length'))
        return (('hv', tok),)


class Into(Base):
    """into an existing field"""

    def __init__(self, w, depth, rootkind):
        Base.__init__(self, w, depth)
        self.rootkind = rootkind

    def make(self, st, name, kind):
        L = self.names.get(name)
        if L is None:
            L = self.names[name] = self.w.add(name, NS + KINDS[kind][0])
            d = self.w.add(name + ' type', NS + KINDS[kind][1])
        d = ('cb', name + ' type')
        M = ('fld', L, self.mfield())
        if M not in st.mem:
            # every member that holds a description of this kind
            for f in self.w.fields(self.w.cls[L]):
                if 'shared_ptr<' in f['t'] and bare(f['t']) in self.w.p.rec_qt and self.w.isa(self.w.cls[d], bare(f['t'])):
                    st.mem[('fld', L, f['q'])] = ('addr', d)
            assert M in st.mem
            st.mem[('fld', d, M_TYPE)] = c(self.w.types[KINDS[kind][2]])
            if kind in ('variant', 'union'):
                k = 0 if kind == 'variant' else 2
                for f in self.w.fields(NS + 'Union'):
                    if f['t'].startswith('std::vector<'):
                        loc = ('fld', d, f['q'])
                        if 'shared_ptr' in f['t']:
                            ms = []
                            for i in range(k):
                                m = ('cb', '%s member %d' % (name, i))
                                self.w.add(m, NS + ('Scalar' if i else 'Structure'))
                                st.mem[('fld', m, M_TYPE)] = c(self.w.types['scalar' if i else 'structure'])
                                ms.append(('addr', m))
                            setvec(st, loc, ms)
                        else:
                            setvec(st, loc, [('init', ('idx', loc, c(i))) for i in range(k)])
        return L

    def mfield(self):
        return next(f['q'] for f in self.w.fields(NS + 'PVField') if 'shared_ptr<' in f['t'] and bare(f['t']) == NS + 'Field')

    def start(self, st):
        return Grammar([('value', self.root, self.rootkind)])

    def ghosts(self, s):
        for k in list(s.mem):
            if k[0] == 'gh' and k[1] in ('did', 'sub', 'elem', 'look', 'expect', 'mark', 'pushed'):
                del s.mem[k]

    def step(self, I, s, g):
        top = g[-1]
        for tok in self.tokens(g):
            if tok == 'map_key':
                for kind in list(KINDS) + [None]:
                    t = s.fork()
                    self.ghosts(t)
                    d = self.nest(g)
                    if kind:
                        t.mem[('gh', 'sub')] = ('addr', self.make(t, '%s%d' % (kind, d), kind))
                    outs = self.call(I, t, tok, self.arg(tok))
                    if kind:
                        self.accepted(I, tok, outs, True, 'of a member that is there')
                    for r, ok in outs:
                        look = r.mem.get(('gh', 'look'))
                        if ok:
                            self.ob(I, tok, 'name', look == ('addr', top[1]), 'a name is looked up in a structure that is not the one being read')
                            self.ob(I, tok, 'name', kind is not None, 'a name that is not there is accepted')
                            yield tok, r, True, Grammar(g + (('value',) + ((t.mem[('gh', 'sub')][1], kind) if kind else (None, None)),))
                        else:
                            yield tok, r, False, None
                continue
            t = s.fork()
            self.ghosts(t)
            el = None
            if tok == 'start_map':
                el = self.make(t, 'element%d' % self.nest(g), 'structure')
                t.mem[('gh', 'elem')] = ('addr', el)
            F, kind = (top[1], top[2]) if top[0] != 'map' else (top[1], None)
            inarr = top[0] == 'array'
            can = None
            if tok in VALUES:
                can = kind == 'scalarArray' if inarr else kind in ('scalar', 'variant', 'union')
            elif tok == 'start_map':
                can = kind == 'structureArray' if inarr else kind == 'structure'
            elif tok == 'start_array':
                can = not inarr and kind in ('scalarArray', 'structureArray')
            elif tok != 'null':
                can = True
            outs = self.call(I, t, tok, self.arg(tok))
            self.accepted(I, tok, outs, can, 'for %s%s' % (kind, ' elements' if inarr else ''))
            for r, ok in outs:
                if ok is None:
                    continue
                if not ok:
                    yield tok, r, False, None
                    continue
                did = r.mem.get(('gh', 'did'))
                mark = r.mem.get(('gh', 'mark'))
                if tok == 'null':
                    self.ob(I, tok, 'kind', False, 'null is accepted although no field can hold it')
                elif tok in VALUES:
                    self.ob(I, tok, 'kind', can, 'a value is accepted for a %s%s' % (kind, ' element' if inarr else ''))
                    self.ob(I, tok, 'target', did == ('addr', F), 'a value is accepted without being stored in the field it is meant for')
                    if not inarr:
                        self.marked(I, tok, r, F, g)
                    yield tok, r, True, g if inarr else self.pop(g)
                elif tok == 'start_map':
                    self.ob(I, tok, 'kind', can, 'an object is accepted for a %s%s' % (kind, ' element' if inarr else ''))
                    if inarr:
                        yield tok, r, True, Grammar(g + (('map', el, True),))
                    else:
                        yield tok, r, True, Grammar(g[:-1] + (('map', F, False),))
                elif tok == 'start_array':
                    self.ob(I, tok, 'kind', can, 'an array is accepted for a %s%s' % (kind, ' element' if inarr else ''))
                    yield tok, r, True, Grammar((g if inarr else g[:-1]) + (('array', F, kind),))
                elif tok == 'end_array':
                    self.marked(I, tok, r, F, g)
                    yield tok, r, True, Grammar(g[:-1])
                elif tok == 'end_map':
                    if top[2]:
                        arr = g[-2][1]
                        self.ob(I, tok, 'target', did == ('addr', arr) and r.mem.get(('gh', 'pushed')) == ('addr', top[1]),
                                'the end of an element does not append that element to its array')
                    else:
                        self.ob(I, tok, 'target', did is None, 'the end of a structure changes another field')
                    yield tok, r, True, Grammar(g[:-1])

    def marked(self, I, tok, r, F, g):
        """the destination's marks: a field below an element of an array has none of its own"""
        inel = any(x[0] == 'map' and x[2] for x in g)
        mark = r.mem.get(('gh', 'mark'))
        want = None if inel or not self.assigned else ('offset', F[1])
        self.ob(I, tok, 'mark', mark == want, 'another field than the one the value went to is marked as assigned' if mark is not None
                else 'the field the value went to is not marked as assigned')

    def pop(self, g):
        return Grammar(g[:-1])

    def ob(self, I, tok, rule, ok, msg):
        f = self.cbfn(tok)
        fr = I.frame(f, None, None, None)
        I.oblige(rule, fr, None, tok, ok, msg)

    def did(self, I, st, fr, nid, o):
        st.mem[('gh', 'did')] = ('addr', o)

    def library(self, I, st, fr, nid, n, obj, args, val, nm):
        fq = strip_t(n.get('fq') or '')
        o = obj if obj is not None else None
        bad = lambda: ('throw', st.fork(), 'std::runtime_error')
        if nm in ('getSubFieldT', 'getSubField', 'getSubFieldImpl') and o is not None:
            st.mem[('gh', 'look')] = ('addr', o)
            self.kind(I, st, fr, nid, o, NS + 'PVStructure') if o in self.w.cls else I.oblige('kind', fr, nid, nm, None, 'the structure searched is not known')
            v = st.mem.get(('gh', 'sub'))
            if v is None:
                return [bad()] if nm == 'getSubFieldT' else [('ret', st, C0)]
            return [('ret', st, v)]
        if nm == 'createPVStructure':
            v = st.mem.get(('gh', 'elem'))
            return [('ret', st, v)] if v is not None else None
        if nm == 'createPVScalar':
            return [('ret', st, ('addr', self.w.add('made scalar', NS + 'PVScalar')))]
        if nm == 'use_count':
            return [('ret', st, C1)]             # no callback keeps what it is handed: the stack is empty
        if nm == 'getFieldOffset' and o is not None:
            t = ('offset', o[1] if o[0] == 'cb' else o)
            lin.setrange(t, 0, (1 << 31) - 1)
            return [('ret', st, t)]
        if nm in ('putFrom', 'put') and o is not None:
            if o in self.w.cls:
                if o != ('cb', 'made scalar') and o != ('cb', 'member'):
                    self.did(I, st, fr, nid, o)
                elif o == ('cb', 'member'):
                    self.did(I, st, fr, nid, st.mem[('gh', 'union')][1])
            b = bad()
            b[1].mem.pop(('gh', 'did'), None)
            return [b, ('ret', st, C0)]
        if nm == 'select' and o is not None:
            st.mem[('gh', 'union')] = ('addr', o)
            return [bad(), ('ret', st, ('addr', self.w.add('member', NS + 'PVScalar')))]
        if nm == 'set' and fq.endswith('PVUnion::set'):
            self.did(I, st, fr, nid, o)
            return [('ret', st, C0)]
        if nm == 'replace' and o is not None:
            self.did(I, st, fr, nid, o)
            return [('ret', st, C0)]
        if nm == 'set' and 'BitSet' in fq:
            old = st.mem.get(('gh', 'mark'))
            st.mem[('gh', 'mark')] = val(0) if old is None else ('several',)
            return [('ret', st, ('addr', o))]
        if nm == 'getStructureArray' or nm == 'getFullName' or nm == 'getAs' or nm == 'swap' and 'PVStructureArray' in fq:
            return None
        if nm == 'original_type':
            outs = []
            for e, v in self.w.scalars.items():
                s = st.fork()
                s.mem[('gh', 'etype')] = c(v)
                outs.append(('ret', s, c(v)))
            return outs
        if nm == 'static_shared_vector_cast':
            to = n['targs'][0].replace('const ', '')
            e = st.mem.get(('gh', 'etype'))
            if to != 'void' and e is not None:
                want = next(ELEM[k] for k, v in self.w.scalars.items() if c(v) == e)
                I.oblige('element', fr, nid, 'element type', to == want, 'an array of %s is taken as one of %s' % (want, to))
            return [('ret', st, ('hv', 'vector', nid))]
        if nm in ('thaw', 'freeze'):
            return [('ret', st, ('hv', 'vector', nid))]
        if nm == 'push_back' and 'shared_vector' in fq:
            v = val(0)
            if v[0] == 'addr':
                st.mem[('gh', 'pushed')] = v
            return [('ret', st, C0)]
        if nm == 'castUnsafe':
            return [bad(), ('ret', st, ('hv', 'cast', nid))]
        if 'shared_vector' in fq:
            return [('ret', st, ('hv', 'vector', nid))]
        return None


def run(ctx):
    p = ctx.p
    ctx.require('yajl_callbacks' in p.rec_qt, 'callback table of the JSON library not found')
    fs = [f for f in p.fns.values() if f.q == NS + 'parseJSON' and f.blocks]
    into = [f for f in fs if len(f.params) == 3 and 'shared_ptr' not in f.vars[f.params[1]]['t']]
    ctx.require(len(into) == 1, 'parseJSON into a field not found')
    depth = 4 if ctx.tier == 'quick' else 5
    n = [0, 0]
    for kind in KINDS:
        for assigned in ((True,) if ctx.tier == 'quick' and kind != 'structure' else (True, False)):
            one(ctx, p, into[0], kind, assigned, depth, n)
    new = [f for f in fs if len(f.params) == 1]
    ctx.require(len(new) == 1, 'parseJSON into a new structure not found')
    any_(ctx, p, new[0], depth, n)
    ctx.info['contexts'], ctx.info['callbacks run'] = n


def one(ctx, p, f, kind, assigned, depth, n):
    ctx.seen(f)
    w = World(p)
    cl = Into(w, depth, kind)
    cl.assigned = assigned
    I = Interp(p, cl, 4000000)
    st = State()
    cl.root = cl.make(st, 'root', kind)
    fr = I.frame(f, None, None, None)
    st.mem[('var', fr.id, f.params[1])] = ('addr', cl.root)
    st.mem[('var', fr.id, f.params[2])] = ('addr', ('cb', 'marks')) if assigned else C0
    outs = I.run_fn(fr, st)
    what = 'parseJSON into a %s' % kind
    for k, s, v in outs:
        if s.mem.get(('gh', 'complete')) is not None:
            ctx.ob('balanced', what, k == 'ret', 'a complete document leaves the parser in the middle of something', f)
        elif s.mem.get(('gh', 'rejected')) is not None:
            ctx.ob('rejected', what, k == 'throw', 'a document refused by a callback is taken as parsed', f)
    for x in cl.ran.values():
        ctx.seen(x)
    n[0] += cl.configs
    n[1] += cl.runs
    if kind not in ('unionArray',):
        ctx.ob('accepts', what, cl.final > 0, 'no document is accepted', f)
    ctx.absorb(I)


# ------------------------------------------------------------------------------------------ into a new structure
ARRT = {'boolean': 'char', 'integer': 'long', 'double': 'double', 'string': STR}


class Any(Base):
    """building a structure from the text: the builder is a tree of numbered nodes"""

    def __init__(self, w, depth):
        Base.__init__(self, w, depth)
        self.built = 0

    def inline(self, I, fn, fr):
        return fn.file.startswith('json/')

    def start(self, st):
        return Grammar([('value', None)])

    def ob(self, I, tok, rule, ok, msg):
        fr = I.frame(self.cbfn(tok), None, None, None)
        I.oblige(rule, fr, None, tok, ok, msg)

    def norm(self, s):
        out = []
        for k, v in s.mem.items():
            if not self.mine(k) or k[0] == 'gh' and k[1] not in ('parent', 'poison'):
                continue
            if v[0] not in ('c', 'addr', 'str', 'sv'):
                v = ('?',)
            out.append((k, v))
        return frozenset(out)

    def builder(self, g):
        """of the innermost open map"""
        return next((x[1] for x in reversed(g) if x[0] == 'map'), None)

    def step(self, I, s, g):
        top = g[-1]
        odd = g[0][0] == 'odd'
        rest = g[:-1]
        B0 = self.builder(g)
        for tok in self.tokens(g):
            for ln in ((1, 0) if tok == 'map_key' else (1,)):
                t = s.fork()
                for k in list(t.mem):
                    if k[0] == 'gh' and k[1] in ('did', 'nested', 'length'):
                        del t.mem[k]
                t.mem[('gh', 'length')] = c(ln)
                t.mem[('gh', 'next')] = ('addr', ('cb', 'builder', self.nest(g)))
                inarr = top[0] == 'array'
                outs = self.call(I, t, tok, self.arg(tok))
                if not odd and t.mem.get(('gh', 'poison')) is None:
                    can = ln == 1
                    if tok == 'null' or inarr and tok.startswith('start_') or B0 is None and tok in VALUES + ('start_array',):
                        can = False
                    elif inarr and tok in VALUES:
                        can = top[1] in (None, tok)
                    elif inarr and top[1] is None:
                        can = False              # an empty array has no type
                    self.accepted(I, tok, outs, can, '')
                for r, ok in outs:
                    if ok is None:
                        continue
                    if not ok:
                        yield tok, r, False, None
                        continue
                    did, nested = r.mem.get(('gh', 'did')), r.mem.get(('gh', 'nested'))
                    B = self.builder(g)
                    bad = False
                    if tok == 'null':
                        bad, g2 = True, g if inarr else rest
                    elif tok in VALUES:
                        if inarr:
                            bad = did is not None or top[1] not in (None, tok) or top[2]
                            g2 = rest + (('array', tok, False),)
                        else:
                            bad = B is None or did != ('value', B)
                            g2 = rest
                    elif tok == 'start_map':
                        bad = inarr or (nested is not None if B is None else nested != ('nested', B))
                        nb = r.mem[('gh', 'next')][1] if nested else self.rootb(r)
                        g2 = (rest if not inarr else rest + (('array', top[1], True),)) + (('map', nb),)
                    elif tok == 'map_key':
                        g2 = g + (('value', None),)
                    elif tok == 'start_array':
                        bad = inarr or B is None
                        g2 = (rest if not inarr else g) + (('array', None, False),)
                    elif tok == 'end_array':
                        bad = did != ('array', B)
                        g2 = rest
                    else:
                        bad = did is not None
                        g2 = rest
                    self.checks += 1
                    if bad and not odd:
                        g2 = (('odd', tok),) + tuple(g2)
                    yield tok, r, True, Grammar(g2)

    checks = 0

    def rootb(self, s):
        return ('fld', self.ctx, self.rootq)

    def library(self, I, st, fr, nid, n, obj, args, val, nm):
        fq = strip_t(n.get('fq') or '')
        bad = lambda: ('throw', st.fork(), 'std::logic_error')
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'basic_string' in fq and len(args) >= 2:
            v = val(0)
            if v in (('addr', ('cb', 'name')), ('addr', ('cb', 'text'))):
                s = ('str', 'n' * st.mem[('gh', 'length')][1]) if v[1][1] == 'name' else ('hv', 'text', nid)
                d = I.destloc(st, fr, nid)
                st.mem[d] = s
                return [('ret', st, d)]
        if 'ValueBuilder' in fq and obj is not None:
            if n['k'] == 'CXXMemberCallExpr':
                if nm in ('add', '_add'):
                    name = val(0)
                    arr = len(args) > 1 and 'shared_vector' in fr.fn.nodes[args[1][0]]['t']
                    b = bad()
                    if st.mem.get(('gh', 'did')) is not None:
                        st.mem[('gh', 'did')] = ('twice',)
                    else:
                        st.mem[('gh', 'did')] = ('array' if arr else 'value', obj)
                    if arr:
                        v = self.sv(st, args[1][1])
                    if name[0] != 'str' or name[1] == '':
                        st.mem[('gh', 'poison')] = C1      # no structure can be built with a member that has no name
                    return [b, ('ret', st, obj)]
                if nm == 'addNested':
                    name = val(0)
                    b = bad()
                    v = st.mem[('gh', 'next')]
                    st.mem[('gh', 'nested')] = ('nested', obj)
                    st.mem[('gh', 'parent', v[1])] = ('addr', obj)
                    if name[0] != 'str' or name[1] == '':
                        st.mem[('gh', 'poison')] = C1
                    return [b, ('ret', st, v[1])]
                if nm == 'endNested':
                    v = st.mem.get(('gh', 'parent', obj))
                    return [('ret', st, v[1])] if v is not None else [bad()]
                if nm == 'buildPVStructure':
                    self.built += 1
                    top = st.mem.get(('gh', 'parent', obj)) is None
                    I.oblige('balanced', fr, nid, nm, top, 'a complete document leaves the parser inside a structure')
                    if st.mem.get(('gh', 'poison')) is not None:
                        return [('throw', st, 'std::runtime_error')]
                    return [('ret', st, ('addr', ('cb', 'result')))]
            return [('ret', st, C0)]
        if nm == 'static_shared_vector_cast':
            to = n['targs'][0].replace('const ', '')
            v = self.sv(st, args[0][1])
            if to != 'void' and v[2]:
                I.oblige('element', fr, nid, 'element type', to == v[1], 'an array of %s is taken as one of %s' % (v[1], to))
            return [('ret', st, ('sv', to if to != 'void' else v[1], v[2]))]
        if nm == 'freeze':
            L = args[0][1]
            v = self.sv(st, L)
            st.mem[L] = ('sv', v[1], 0)
            return [('ret', st, v)]
        if 'shared_vector' in fq:
            v = self.sv(st, obj) if obj is not None else None
            if nm in ('size', 'dataCount'):
                return [('ret', st, c(8 * v[2]))]
            if nm == 'empty':
                return [('ret', st, c(1 - v[2]))]
            if nm == 'original_type':
                e = next((k for k, t in ELEM.items() if t == v[1]), None)
                return [('ret', st, c(self.w.scalars[e]) if e else c(-1))]
            if nm == 'push_back':
                st.mem[obj] = ('sv', v[1], 1)
                return [('ret', st, C0)]
            if nm == 'operator=':
                st.mem[obj] = self.sv(st, args[0][1])
                return [('ret', st, obj)]
            if nm == 'clear':
                st.mem[obj] = ('sv', v[1], 0)
                return [('ret', st, C0)]
            if n['k'] == 'CXXConstructExpr' and args and args[0][2]:
                d = I.destloc(st, fr, nid)
                st.mem[d] = self.sv(st, args[0][1])
                return [('ret', st, d)]
        return None

    def sv(self, st, L):
        v = st.mem.get(L)
        return v if v is not None and v[0] == 'sv' else ('sv', None, 0)


def any_(ctx, p, f, depth, n):
    ctx.seen(f)
    w = World(p)
    cl = Any(w, depth)
    cl.assigned = False
    rec = next((r for r in p.recs.values() if any(x['t'] == NS + 'ValueBuilder' for x in r['fields']) and r['l'].startswith('json/')), None)
    ctx.require(rec is not None, "the JSON parser's builder not found")
    cl.rootq = next(x['q'] for x in rec['fields'] if x['t'] == NS + 'ValueBuilder')
    I = Interp(p, cl, 4000000)
    st = State()
    fr = I.frame(f, None, None, None)
    what = 'parseJSON into a new structure'
    for k, s, v in I.run_fn(fr, st):
        if s.mem.get(('gh', 'complete')) is not None:
            odd = s.mem.get(('gh', 'odd'))
            ctx.ob('kind', what, odd is None or k == 'throw', 'a document is accepted in which a token does not apply to what is being read: ' + (odd[1] if odd else ''), f)
        elif s.mem.get(('gh', 'rejected')) is not None:
            ctx.ob('rejected', what, k == 'throw', 'a document refused by a callback is taken as parsed', f)
    ctx.ob('accepts', what, cl.built > 0, 'no document is accepted', f)
    for x in cl.ran.values():
        ctx.seen(x)
    n[0] += cl.configs
    n[1] += cl.runs
    ctx.absorb(I)
