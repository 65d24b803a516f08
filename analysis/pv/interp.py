"""Disjunctive abstract interpreter over the extracted control-flow graphs.

A state maps abstract locations to value terms and carries linear facts over the
terms (pv.lin) and a finite client typestate.  Branches refine the facts,
loops are brought to a fixpoint (widening to symbolic loop values with inductive
linear facts), calls into the repository are inlined up to a depth, everything
else is summarised by pv.models.  Nothing is executed and no solver is involved.
"""
import itertools
import re
from . import lin
from .lin import c, add, sub, scale

C0, C1 = ('c', 0), ('c', 1)
UNK = ('unk',)
NORET = {'epicsAssert', '__assert_fail', 'cantProceed', 'abort', 'exit', 'std::abort', 'std::terminate', '_exit', 'exit',
         'testAbort', 'std::exit'}

_strip_cache = {}


def strip_t(q):
    """remove template arguments"""
    r = _strip_cache.get(q)
    if r is not None:
        return r
    out, depth = [], 0
    i = 0
    s = q
    while i < len(s):
        ch = s[i]
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'operator\s*(<<=|>>=|<=|>=|->\*|->|<<|>>|<|>|\(\)|\[\])', s[i:])
            if m and depth == 0:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    r = ''.join(out)
    _strip_cache[q] = r
    return r


_fid = itertools.count(1)


class Budget(Exception):
    pass


class State(object):
    __slots__ = ('mem', 'facts', 'ts', 'nv', 'br', 'live')

    def __init__(self):
        self.mem, self.facts, self.ts, self.nv, self.br, self.live = {}, {}, None, {}, {}, ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.ts = self.ts
        s.nv = dict(self.nv)
        s.br = dict(self.br)
        s.live = self.live
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.ts, frozenset(self.nv.items()),
                frozenset(self.br.items()), self.live)


class Frame(object):
    __slots__ = ('id', 'fn', 'this', 'parent', 'nid', 'depth', 'ret', 'site')

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.fn.qt)
            f = f.parent
        return out


def prefix(loc):
    """enclosing location or None"""
    if loc[0] in ('fld', 'idx'):
        return loc[1]
    return None


def under(loc, base):
    while loc is not None:
        if loc == base:
            return True
        loc = prefix(loc)
    return False


def project(v, loc):
    """value of the part `loc` (fld/idx) of an object whose whole value is v"""
    if v[0] == 'init':
        return ('init', (loc[0], v[1]) + loc[2:])
    if v[0] == 'str' and loc[0] == 'idx' and loc[2][0] == 'c' and 0 <= loc[2][1] <= len(v[1]):
        x = ord((v[1] + '\0')[loc[2][1]])
        return c(x - 256 if x > 127 else x)
    return ('prj', v, loc[0]) + loc[2:]


def prep(fn):
    """static per-function facts: order, loops, cross-block nodes, construction targets"""
    if fn._prep:
        return fn._prep
    P = {}
    blocks = fn.blocks
    nodeblock = {}
    catch_of = {}
    for b, B in blocks.items():
        lab = B.get('label')
        if lab and lab.get('k') == 'catch':
            catch_of[lab['id']] = b
        for e in B['el']:
            if isinstance(e, int):
                nodeblock[e] = b
    P['catch_block'] = catch_of
    succ = {b: [s for s in B['su'] if s is not None] for b, B in blocks.items()}
    eh = {b: set() for b in blocks}
    for b, B in blocks.items():
        for e in B['el']:
            if isinstance(e, int):
                t = fn.nodes[e].get('try')
                while t is not None:
                    for h in fn.nodes[t].get('handlers', []):
                        if h['id'] in catch_of:
                            eh[b].add(catch_of[h['id']])
                    t = fn.nodes[t].get('try')
    full = {b: list(dict.fromkeys(succ[b] + sorted(eh[b]))) for b in blocks}
    # reverse postorder
    order, seen, onst, back = [], set(), set(), []
    stack = [(fn.entry, iter(full[fn.entry]))]
    seen.add(fn.entry)
    onst.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s in onst:
                back.append((b, s))
            elif s not in seen:
                seen.add(s)
                onst.add(s)
                stack.append((s, iter(full[s])))
                break
        else:
            stack.pop()
            onst.discard(b)
            order.append(b)
    order.reverse()
    P['rpo'] = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in blocks}
    for b in seen:
        for s in full[b]:
            pred[s].append(b)
    loops = {}
    for s, h in back:
        body = loops.setdefault(h, {h})
        todo = [s]
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += pred[x]
    P['loops'] = loops
    P['succ'] = succ
    P['nodeblock'] = nodeblock
    # nodes used from another block
    cross = set()
    for nid, n in fn.nodes.items():
        b = nodeblock.get(nid)
        ops = list(n.get('o', [])) + [d.get('init') for d in n.get('decls', [])] + [n.get('asz')] + list(n.get('place', []))
        for o in ops:
            if o is not None and nodeblock.get(o) is not None and nodeblock.get(o) != b:
                cross.add(o)
    for b, B in blocks.items():
        t = B.get('term')
        if t and 'c' in t and nodeblock.get(t['c']) not in (None, b):
            cross.add(t['c'])
        for e in B['el']:
            if isinstance(e, dict) and 'init' in e and nodeblock.get(e['init']) != b:
                cross.add(e['init'])
    # transitive: an on-demand evaluated node (no element) needs its operands
    P['cross'] = cross
    # construction targets
    dest = {}

    def setdest(nid, d):
        n = fn.nodes[nid]
        k = n['k']
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr') or 'Call' in k:
            dest[nid] = d
            if k == 'CXXConstructExpr' and n.get('elide') and n.get('o'):
                setdest(n['o'][0], d)
        elif k.endswith('CastExpr') and n.get('ck') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            dest[nid] = d
            setdest(n['o'][0], d)
        elif k == 'ConditionalOperator':
            pass
    for nid, n in fn.nodes.items():
        for d in n.get('decls', []):
            if 'init' in d and fn.vars[d['v']].get('c') and not fn.vars[d['v']].get('ref'):
                setdest(d['init'], ('v', d['v']))
        if n['k'] == 'CXXNewExpr' and n.get('o') and not n.get('arr'):
            setdest(n['o'][0], ('n', nid))
    for B in blocks.values():
        for e in B['el']:
            if isinstance(e, dict) and e.get('e') == 'init' and 'init' in e:
                if 'm' in e:
                    if e.get('c') and not e.get('ref'):
                        setdest(e['init'], ('m', e['m']))
                else:
                    setdest(e['init'], ('t',))
    P['dest'] = dest
    P['declvars'] = {}
    for b, B in blocks.items():
        vs = set()
        for e in B['el']:
            if isinstance(e, int):
                for d in fn.nodes[e].get('decls', []):
                    vs.add(d['v'])
        P['declvars'][b] = vs
    fn._prep = P
    return P


class Client(object):
    """hooks; all optional"""
    max_depth = 5
    cap = 40
    unroll = 0              # >0: run loops up to that many times instead of finding an invariant

    def inline(self, I, fn, fr):
        return True

    def devirt(self, I, st, fr, nid, n, loc):
        return None

    def pre_call(self, I, st, fr, nid, n, args):
        """return None or a list of outcomes replacing the call"""
        return None

    def post_call(self, I, st, fr, nid, n, args, val):
        return val

    def may_throw(self, I, st, fr, nid, n):
        return False

    def on_write(self, I, st, fr, nid, loc, val):
        pass

    def on_read(self, I, st, fr, nid, loc):
        pass

    def on_index(self, I, st, fr, nid, base, ix, size):
        pass

    def on_deref(self, I, st, fr, nid, ptr):
        pass

    def on_new(self, I, st, fr, nid, n, place, l):
        """placement new: address, and where the new value was built"""

    def on_cast(self, I, st, fr, nid, n, v):
        pass

    def dyncast(self, I, st, fr, nid, n, v, t):
        """result of a checked cast of a pointer to class t, when known"""
        return None

    def on_dtor(self, I, st, fr, loc, el):
        pass

    def on_return(self, I, st, fr, val):
        pass

    def on_throw(self, I, st, fr, nid, ty):
        pass

    def on_abort(self, I, st, fr, nid, n):
        pass

    def on_loop(self, I, fr, h, st, backs, phis, outs):
        """a loop at its fixpoint: entry state, states on the back edges, the symbols of what varies, states at the head"""

    def on_branch(self, I, st, fr, nid, v, truth):
        pass

    def on_init(self, I, st, fr, loc, el):
        pass

    def ts_join_ok(self, a, b):
        return a == b


class Interp(object):
    def __init__(self, prog, client, budget=400000):
        self.p = prog
        self.cl = client
        client.I = self
        self.frames = {}
        self.mute = 0
        self.steps = 0
        self.budget = budget
        self.exceeded = False   # a loop needed more than client.unroll iterations
        self.reports = {}
        self.obl = {}
        self.counted = set()      # loop atoms that are plain counters (still exact enough)
        self.condterms = []
        from . import models
        self.models = models

    # ---------------------------------------------------------------- reporting
    def report(self, rule, fr, nid, msg, st=None):
        if self.mute:
            return
        key = (rule, fr.fn.qt, nid, msg)
        if key not in self.reports:
            n = fr.fn.nodes.get(nid, {}) if nid is not None else {}
            self.reports[key] = {'rule': rule, 'fn': fr.fn.qt, 'loc': n.get('l', fr.fn.l), 'msg': msg,
                                 'path': list(reversed(fr.chain()))}

    def oblige(self, rule, fr, nid, what, ok, msg=None):
        """record an obligation; ok True (discharged), False (violated), None (undecided)"""
        if self.mute:
            return
        k = (rule, fr.fn.qt, nid, what)
        old = self.obl.get(k, True)
        new = False if (ok is False or old is False) else None if (ok is None or old is None) else True
        self.obl[k] = new
        if ok is False:
            self.report(rule, fr, nid, msg or what)

    # ---------------------------------------------------------------- memory
    def rd(self, st, loc):
        m = st.mem
        v = m.get(loc)
        if v is not None:
            return v
        if loc[0] == 'glob' or loc[0] == 'idx' and loc[1][0] == 'glob' and loc[2][0] == 'c':
            g = (loc if loc[0] == 'glob' else loc[1])[1]     # constants of the library
            g = self.p.globs.get(g) or self.p.statics().get(g)
            if g is not None and g.get('const') and 'val' in g:
                x = g['val']
                if loc[0] == 'glob' and isinstance(x, int):
                    return c(x)
                if loc[0] == 'idx' and isinstance(x, list) and 0 <= loc[2][1] < len(x):
                    return c(x[loc[2][1]])
        if loc[0] in ('fld', 'idx'):
            chain = [loc]
            p = loc[1]
            while True:
                v = m.get(p)
                if v is not None:
                    for x in reversed(chain):
                        v = project(v, x)
                    return v
                q = prefix(p)
                if q is None:
                    break
                chain.append(p)
                p = q
        return ('init', loc)

    def wr(self, st, loc, v, fr=None, nid=None):
        m = st.mem
        dead = [k for k in m if k[0] in ('fld', 'idx') and k != loc and under(k, loc)]
        for k in dead:
            del m[k]
        if loc[0] == 'idx':
            # other elements of the same array that may coincide
            for k in [k for k in m if k[0] == 'idx' and k[1] == loc[1] and k != loc]:
                d = lin.decide(st.facts, sub(k[2], loc[2]), '==')
                if d is not False:
                    m[k] = ('alias', m[k], v)
        m[loc] = v
        if fr is not None:
            self.cl.on_write(self, st, fr, nid, loc, v)

    def copy_obj(self, st, src, dst):
        if src == dst:
            return
        items = [(k, v) for k, v in st.mem.items() if k != src and under(k, src)]
        base = self.rd(st, src)
        for k in [k for k in st.mem if under(k, dst)]:
            del st.mem[k]
        st.mem[dst] = base
        for k, v in items:
            st.mem[rebase(k, src, dst)] = v

    def objkey(self, st, loc):
        sub_ = tuple(sorted(((k, v) for k, v in st.mem.items() if k != loc and under(k, loc)), key=repr))
        b = self.rd(st, loc)
        return (b,) + sub_ if sub_ else b

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'dyn':
            return self.deref(v[2])
        return ('deref', v)

    def ptradd(self, p, n):
        if p[0] == 'addr' and p[1][0] == 'idx':
            return ('addr', ('idx', p[1][1], add(p[1][2], n)))
        if p[0] == 'strlit':
            return ('addr', ('idx', p, n))
        if p[0] == 'addr':
            if n == C0:
                return p
            return ('addr', ('idx', p[1], n))
        return add(p, n)

    def ptrsub(self, a, b):
        if a == b:
            return C0
        if a[0] == 'addr' and b[0] == 'addr':
            la, lb = a[1], b[1]
            ba, ia = (la[1], la[2]) if la[0] == 'idx' else (la, C0)
            bb, ib = (lb[1], lb[2]) if lb[0] == 'idx' else (lb, C0)
            if ba == bb:
                return sub(ia, ib)
        if a[0] == 'dyn' or b[0] == 'dyn':
            pass
        return sub(a, b)

    # ---------------------------------------------------------------- logic
    def truth(self, st, v):
        k = v[0]
        if k == 'c':
            return v[1] != 0
        if k in ('addr', 'newp', 'str'):
            return True
        if k == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if k == 'cmp':
            t = lin.decide(st.facts, v[2], v[1])
            if t is None and v[1] == '>=':
                if lin.entails(st.facts, v[2]):
                    return True
                if lin.entails(st.facts, sub(c(-1), v[2])):
                    return False
            if t is None and v[1] == '==':
                if lin.entails(st.facts, sub(v[2], C1)) or lin.entails(st.facts, sub(c(-1), v[2])):
                    return False
            return t
        if k == 'fl':
            return v[1] != 0
        t = lin.decide(st.facts, v, '==')
        return None if t is None else not t

    def assume(self, st, v, truth):
        """refine st in place; False when contradictory"""
        k = v[0]
        if k == 'not':
            return self.assume(st, v[1], not truth)
        t = self.truth(st, v)
        if t is not None:
            if t != truth:
                return False
        if k == 'cmp':
            f = lin.assume(st.facts, v[2], v[1], truth)
            self.condterms.append(v[2])
        elif k in ('c', 'addr', 'newp', 'str', 'fl'):
            return True
        else:
            f = lin.assume(st.facts, v, '==', not truth)
            if f is not None and truth and k == 'dyn':
                f = lin.assume(f, v[2], '==', False)
        if f is None:
            return False
        st.facts = f
        return True

    def ge0(self, st, t):
        """st |= t >= 0"""
        return bool(lin.entails(st.facts, t))

    def clean(self, t):
        """no over-approximated atom occurs in t (a failed proof is then a real one)"""
        cnt = self.counted
        return not lin.mentions(t, lambda x: x[0] in ('phi', 'hv', 'join', 'unk', 'alias', 'wsub', 'cast') and x not in cnt)

    # ---------------------------------------------------------------- values of nodes
    def num(self, v):
        if v[0] == 'cmp' or v[0] == 'not':
            lin.setrange(v, 0, 1)
        return v

    def val(self, st, fr, nid):
        """rvalue of node (reads through lvalues)"""
        v = self.ev(st, fr, nid)
        n = fr.fn.nodes[nid]
        if self.isloc(fr, nid):
            if n.get('c') and not scalarlike(n['t']):
                return ('addr', v)
            return self.load(st, v, n)
        return v

    def load(self, st, loc, n):
        v = self.rd(st, loc)
        return self.typed(v, n)

    def typed(self, v, n):
        if v[0] not in ('c', 'lin', 'addr') and v not in lin.RANGE and not n.get('c'):
            if 'w' in n:
                w, u = n['w'], n.get('u')
                if u:
                    lin.setrange(v, 0, None if w >= 64 else (1 << w) - 1)
                elif w < 64:
                    lin.setrange(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            elif n.get('p') or n.get('u'):
                lin.setrange(v, 0, None)
        return v

    def isloc(self, fr, nid):
        n = fr.fn.nodes[nid]
        return bool(n.get('lv') or n.get('c')) and 'fn' not in n or bool(
            (n.get('lv') or n.get('c')) and n['k'] not in ('DeclRefExpr', 'MemberExpr'))

    def loc(self, st, fr, nid):
        """location denoted by node; prvalue scalars are materialised"""
        v = self.ev(st, fr, nid)
        if self.isloc(fr, nid):
            return v
        t = ('tmp', fr.id, nid)
        st.mem[t] = v
        return t

    def ev(self, st, fr, nid):
        k = (fr.id, nid)
        v = st.nv.get(k)
        if v is None:
            r = self.compute(st, fr, nid)
            v = st.nv.get(k)
            if v is None:
                v = r if r is not None else UNK
                st.nv[k] = v
        return v

    def varloc(self, st, fr, vid):
        V = fr.fn.vars[vid]
        k = V['k']
        if k in ('param', 'local'):
            l = ('var', fr.id, vid)
        elif k == 'static':
            l = ('glob', fr.fn.usr + '#' + V['n'])
        elif k == 'global':
            l = ('glob', V.get('usr') or V['qn'])
        else:
            l = ('var', fr.id, vid)
        if V.get('ref'):
            a = self.rd(st, l)
            return self.deref(a)
        return l

    def destloc(self, st, fr, nid):
        d = prep(fr.fn)['dest'].get(nid)
        if d is None:
            return ('tmp', fr.id, nid)
        if d[0] == 'v':
            V = fr.fn.vars[d[1]]
            if V['k'] == 'static':
                return ('glob', fr.fn.usr + '#' + V['n'])
            return ('var', fr.id, d[1])
        if d[0] == 'n':
            return ('new', fr.id, d[1])
        if d[0] == 'm':
            return ('fld', fr.this, d[1])
        if d[0] == 't':
            return fr.this
        return ('tmp', fr.id, nid)

    def compute(self, st, fr, nid):
        """evaluate one node; returns value (or None when st.nv was set).  Calls that
        fork are handled by visit()."""
        fn = fr.fn
        n = fn.nodes[nid]
        k = n['k']
        if 'cv' in n and not n.get('lv') and k != 'CXXConstructExpr':
            return ('c', n['cv'])
        if 'cvs' in n and not n.get('lv') and k != 'CXXConstructExpr':
            return ('c', int(n['cvs']))
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(st, fr, nid, n)
        if k.endswith('CastExpr'):
            return self.cast(st, fr, nid, n)
        if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr',
                 'CXXInheritedCtorInitExpr'):
            outs = self.call(st, fr, nid, n)
            outs = [o for o in outs if o[0] == 'ret']
            if not outs:
                return UNK
            o = outs[0]
            if o[1] is not st:
                st.mem, st.facts, st.ts, st.nv, st.br, st.live = o[1].mem, o[1].facts, o[1].ts, o[1].nv, o[1].br, o[1].live
            return o[2]
        # default: opaque
        for o in n.get('o', []):
            if o is not None:
                self.ev(st, fr, o)
        if n.get('lv') or n.get('c'):
            return ('tmp', fr.id, nid)
        return self.typed(('op', k, fr.id, nid), n)

    # ---- leaf expressions
    def e_CXXThisExpr(self, st, fr, nid, n):
        return ('addr', fr.this) if fr.this is not None else UNK

    def e_CXXBoolLiteralExpr(self, st, fr, nid, n):
        return ('c', n.get('cv', 0))

    def e_CXXNullPtrLiteralExpr(self, st, fr, nid, n):
        return C0

    def e_GNUNullExpr(self, st, fr, nid, n):
        return C0

    def e_ImplicitValueInitExpr(self, st, fr, nid, n):
        return C0 if not n.get('c') else ('tmp', fr.id, nid)

    def e_CXXScalarValueInitExpr(self, st, fr, nid, n):
        return C0

    def e_FloatingLiteral(self, st, fr, nid, n):
        return ('fl', n['fv'])

    def e_StringLiteral(self, st, fr, nid, n):
        l = ('strlit', n['str'])
        return l

    def e_DeclRefExpr(self, st, fr, nid, n):
        if 'enum' in n:
            return ('c', n.get('cv', 0))
        if 'fn' in n:
            return ('fnp', n['fn'])
        return self.varloc(st, fr, n['v'])

    def e_MemberExpr(self, st, fr, nid, n):
        b = n['o'][0]
        bn = fr.fn.nodes[b]
        if n.get('arrow'):
            v = self.val(st, fr, b)
            if bn['k'] != 'CXXThisExpr':
                self.cl.on_deref(self, st, fr, nid, v)
            L = self.deref(v)
        else:
            L = self.loc(st, fr, b)
        if 'fn' in n:
            return L
        if 'v' in n:
            return self.varloc(st, fr, n['v'])
        l = ('fld', L, '#union' if n.get('un') else n['m'])
        if n.get('mref'):
            return self.deref(self.rd(st, l))
        return l

    def e_ArraySubscriptExpr(self, st, fr, nid, n):
        a, b = n['o']
        na = fr.fn.nodes[a]
        if not na.get('p') and fr.fn.nodes[b].get('p'):
            a, b = b, a
        p = self.val(st, fr, a)
        i = self.val(st, fr, b)
        q = self.ptradd(p, i)
        self.cl.on_index(self, st, fr, nid, p, i, None)
        return self.deref(q)

    def e_UnaryOperator(self, st, fr, nid, n):
        op = n['op']
        o = n['o'][0]
        if op == '*':
            v = self.val(st, fr, o)
            self.cl.on_deref(self, st, fr, nid, v)
            return self.deref(v)
        if op == '&':
            if 'fn' in fr.fn.nodes[o] and fr.fn.nodes[o]['k'] == 'DeclRefExpr':
                return ('fnp', fr.fn.nodes[o]['fn'])
            return ('addr', self.loc(st, fr, o))
        if op == '!':
            v = self.val(st, fr, o)
            t = self.truth(st, v)
            if t is not None:
                return C0 if t else C1
            return v[1] if v[0] == 'not' else ('not', v)
        if op in ('++', '--'):
            L = self.loc(st, fr, o)
            old = self.load(st, L, fr.fn.nodes[o])
            d = 1 if op == '++' else -1
            nvv = self.ptradd(old, c(d)) if n.get('p') else self.arith(st, n, old, C1, '+' if d > 0 else '-')
            self.wr(st, L, nvv, fr, nid)
            return old if n.get('post') else L
        v = self.val(st, fr, o)
        if op == '-':
            return scale(v, -1) if v[0] != 'fl' else ('fl', -v[1])
        if op == '+':
            return v
        if v[0] == 'c' and op == '~' and 'w' in n:
            r = ~v[1]
            return c(r & ((1 << n['w']) - 1) if n.get('u') else r)
        return self.typed(('op', op, v), n)

    def arith(self, st, n, a, b, op):
        if a[0] == 'fl' or b[0] == 'fl' or ('w' not in n and not n.get('p') and not n.get('u')):
            if a[0] == 'fl' and b[0] in ('fl', 'c') or b[0] == 'fl' and a[0] == 'c':
                try:
                    x, y = a[1], b[1]
                    return ('fl', {'+': x + y, '-': x - y, '*': x * y, '/': x / y if y else 0.0}[op])
                except KeyError:
                    pass
            return ('op', op, a, b)
        a, b = self.num(a), self.num(b)
        if op == '+':
            r = add(a, b)
            return r
        if op == '-':
            r = sub(a, b)
            if n.get('u') and not n.get('p') and r[0] != 'c':
                if not lin.entails(st.facts, r):
                    t = ('wsub', a, b)
                    lin.setrange(t, 0, None)
                    return t
            if r[0] == 'c' and n.get('u') and r[1] < 0 and 'w' in n:
                return c(r[1] & ((1 << n['w']) - 1))
            return r
        if op == '*':
            return lin.mul(a, b)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == '/':
                    q = abs(x) // abs(y)
                    return c(q if (x < 0) == (y < 0) else -q)
                if op == '%':
                    r = abs(x) % abs(y)
                    return c(-r if x < 0 else r)
                if op == '<<':
                    r = x << y
                    if 'w' in n:
                        r &= (1 << n['w']) - 1
                        if not n.get('u') and r >> (n['w'] - 1):
                            r -= 1 << n['w']
                    return c(r)
                if op == '>>':
                    return c(x >> y)
                if op == '&':
                    return c(x & y)
                if op == '|':
                    return c(x | y)
                if op == '^':
                    return c(x ^ y)
            except (ZeroDivisionError, ValueError):
                return UNK
        if op == '<<' and b[0] == 'c' and 0 <= b[1] < 32 and 'w' in n and n['w'] == 64:
            return scale(a, 1 << b[1])
        if op == '>>' and b[0] == 'c' and 0 <= b[1] < 63:
            op, b = '/s', c(1 << b[1])
        ann = lin.decide(st.facts, a, '>=')
        if op in ('/', '/s') and b[0] == 'c' and b[1] > 0:
            if b[1] == 1:
                return a
            t = ('sar' if op == '/s' and not (n.get('u') or ann) else 'div', a, b)
            if n.get('u') or ann:
                lin.setrange(t, 0, None)
                self.fact(st, sub(a, scale(t, b[1])))
                self.fact(st, sub(add(scale(t, b[1]), c(b[1] - 1)), a))
            else:
                self.fact(st, sub(add(scale(t, b[1]), c(b[1] - 1)), a))
                self.fact(st, sub(a, add(scale(t, b[1]), c(1 - b[1]))))
            return t
        if op == '%' and b[0] == 'c' and b[1] > 0:
            q = ('div', a, b)
            pos = n.get('u') or ann
            if pos:
                lin.setrange(q, 0, None)
            t = ('mod', a, b) if pos else ('smod', a, b)
            lin.setrange(t, 0 if pos else 1 - b[1], b[1] - 1)
            d = sub(a, add(scale(q, b[1]), t))
            self.fact(st, d)
            self.fact(st, scale(d, -1))
            return t
        if op == '&':
            if a[0] == 'c':
                a, b = b, a
            if b[0] == 'c' and b[1] >= 0:
                if b[1] and (b[1] & (b[1] + 1)) == 0 and (n.get('u') or ann):
                    return self.arith(st, n, a, c(b[1] + 1), '%')
                t = ('and', a, b)
                lin.setrange(t, 0, b[1])
                return t
        if op == '/' and n.get('u'):
            t = ('div', a, b)
            lin.setrange(t, 0, None)
            return t
        t = ('bop', op, a, b)
        return self.typed(t, n)

    def fact(self, st, t):
        f = lin.assume(st.facts, t, '>=', True)
        if f is not None:
            st.facts = f

    def compare(self, st, a, b, op, n=None):
        if a[0] == 'fl' or b[0] == 'fl':
            if a[0] in ('fl', 'c') and b[0] in ('fl', 'c'):
                x, y = a[1], b[1]
                return C1 if {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op] else C0
            if op == '!=':
                return ('not', ('fcmp', '==', a, b))
            if op == '>':
                return ('fcmp', '<', b, a)
            if op == '<=':
                return ('not', ('fcmp', '<', b, a))
            if op == '>=':
                return ('not', ('fcmp', '<', a, b))
            return ('fcmp', op, a, b)
        # boolean terms compared with constants
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] in ('cmp', 'not', 'fcmp') and y[0] == 'c' and y[1] in (0, 1):
                    pos = (y[1] == 1) == (op == '==')
                    return x if pos else (x[1] if x[0] == 'not' else ('not', x))
            if a[0] == b[0] == 'addr' and a[1][0] == b[1][0] == 'cb':      # objects a client keeps apart by name
                return C1 if (a == b) == (op == '==') else C0
            if a[0] in ('addr',) and b == C0 or b[0] == 'addr' and a == C0:
                return C0 if op == '==' else C1
            if a[0] == 'dyn' and b[0] != 'c' or b[0] == 'dyn' and a[0] != 'c':
                pass
        d = self.ptrsub(a, b)
        d = self.num(d)
        if op == '<':
            t = ('cmp', '>=', sub(c(-1), d))
        elif op == '>':
            t = ('cmp', '>=', sub(d, C1))
        elif op == '<=':
            t = ('cmp', '>=', scale(d, -1))
        elif op == '>=':
            t = ('cmp', '>=', d)
        elif op == '==':
            t = ('cmp', '==', d)
        else:
            t = ('not', ('cmp', '==', d))
        r = self.truth(st, t)
        if r is not None:
            return C1 if r else C0
        return t

    def e_BinaryOperator(self, st, fr, nid, n):
        op = n['op']
        a, b = n['o']
        if op == '=':
            v = self.val(st, fr, b)
            L = self.loc(st, fr, a)
            if n.get('c'):
                self.copy_obj(st, self.loc(st, fr, b), L)
            else:
                self.wr(st, L, v, fr, nid)
            return L
        if op == ',':
            self.ev(st, fr, a)
            if self.isloc(fr, b):
                return self.loc(st, fr, b)
            return self.val(st, fr, b)
        if op in ('&&', '||'):
            r = st.br.get((fr.id, nid))
            if r is not None:
                return c(1 if r else 0)
            # a chain: an operand that is one itself may have skipped all of the rest
            y = a
            while True:
                m = fr.fn.nodes[y]
                if m['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and m.get('o'):
                    y = m['o'][0]
                    continue
                if m['k'] != 'BinaryOperator' or m.get('op') not in ('&&', '||'):
                    break
                r = st.br.get((fr.id, y))
                if r is not None:
                    if r == (op == '||'):
                        return c(1 if r else 0)
                    break
                if m['op'] != op:
                    break
                y = m['o'][0]
            x = st.nv.get((fr.id, a))
            if (fr.id, b) in st.nv or prep(fr.fn)['nodeblock'].get(b) is None:
                y = self.val(st, fr, b)
                t = self.truth(st, y)
                if t is not None:
                    if op == '&&' and t is False or op == '||' and t is True:
                        return c(int(t))
                return y
            return ('op', op, fr.id, nid)
        va = self.val(st, fr, a)
        vb = self.val(st, fr, b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(st, va, vb, op, n)
        if n.get('p') or fr.fn.nodes[a].get('p'):
            if op == '+':
                return self.ptradd(va, vb) if fr.fn.nodes[a].get('p') else self.ptradd(vb, va)
            if op == '-':
                if fr.fn.nodes[b].get('p'):
                    return self.ptrsub(va, vb)
                return self.ptradd(va, scale(vb, -1))
        elif fr.fn.nodes[b].get('p') and op == '+':
            return self.ptradd(vb, va)
        return self.arith(st, n, va, vb, op)

    def e_CompoundAssignOperator(self, st, fr, nid, n):
        a, b = n['o']
        L = self.loc(st, fr, a)
        va = self.load(st, L, fr.fn.nodes[a])
        vb = self.val(st, fr, b)
        op = n['op'][:-1]
        if n.get('p'):
            r = self.ptradd(va, vb if op == '+' else scale(vb, -1))
        else:
            r = self.arith(st, n, va, vb, op)
        self.wr(st, L, r, fr, nid)
        return L

    def e_ConditionalOperator(self, st, fr, nid, n):
        r = st.br.get((fr.id, nid))
        o = n['o']
        if r is None:
            t = self.truth(st, self.val(st, fr, o[0]))
            r = t
        if r is None:
            return ('op', '?:', fr.id, nid)
        x = o[1] if r else o[2]
        if self.isloc(fr, nid):
            return self.loc(st, fr, x)
        return self.val(st, fr, x)

    def e_DeclStmt(self, st, fr, nid, n):
        for d in n['decls']:
            V = fr.fn.vars[d['v']]
            if V['k'] == 'static':
                continue
            l = ('var', fr.id, d['v'])
            if V.get('ref'):
                if 'init' in d:
                    st.mem[l] = ('addr', self.loc(st, fr, d['init']))
                continue
            if 'init' not in d:
                self.wr(st, l, ('uninit', fr.id, d['v']))
            elif V.get('c'):
                src = self.loc(st, fr, d['init'])
                if src != l:
                    if scalarlike(V['t']):
                        self.wr(st, l, self.rd(st, src))
                    else:
                        self.copy_obj(st, src, l)
                self.cl.on_init(self, st, fr, l, d)
            else:
                v = self.val(st, fr, d['init'])
                self.wr(st, l, v, fr, nid)
            if V.get('c'):
                st.live = st.live + ((fr.id, d['v'], n.get('try')),)
        return C0

    def e_InitListExpr(self, st, fr, nid, n):
        if not n.get('c') and not n['t'].endswith(']'):
            return self.val(st, fr, n['o'][0]) if n.get('o') else C0
        L = self.destloc(st, fr, nid)
        rec = self.p.rec_qt.get(n['t'].replace('const ', ''))
        if rec:
            for f, o in zip(rec['fields'], n['o']):
                if fr.fn.nodes[o].get('c'):
                    self.copy_obj(st, self.loc(st, fr, o), ('fld', L, f['q']))
                else:
                    self.wr(st, ('fld', L, f['q']), self.val(st, fr, o))
        else:
            for i, o in enumerate(n['o']):
                if not fr.fn.nodes[o].get('c'):
                    self.wr(st, ('idx', L, c(i)), self.val(st, fr, o))
        return L

    def e_CXXNewExpr(self, st, fr, nid, n):
        l = ('new', fr.id, nid)
        if n.get('arr'):
            if 'asz' in n:
                st.mem[('fld', l, '#n')] = self.val(st, fr, n['asz'])
        elif n.get('o') and not fr.fn.nodes[n['o'][0]].get('c'):
            self.wr(st, l, self.val(st, fr, n['o'][0]))
        elif n.get('o'):
            src = self.loc(st, fr, n['o'][0])
            if src != l:
                self.copy_obj(st, src, l)
        if n.get('place'):
            a = self.val(st, fr, n['place'][0])
            self.cl.on_new(self, st, fr, nid, n, a, l)
            return a
        if n.get('arr'):
            return ('addr', ('idx', l, C0))
        return ('addr', l)

    def e_CXXDeleteExpr(self, st, fr, nid, n):
        self.ev(st, fr, n['o'][0])
        return C0

    def e_UnaryExprOrTypeTraitExpr(self, st, fr, nid, n):
        return ('c', n['cv']) if 'cv' in n else UNK

    def e_CXXDefaultArgExpr(self, st, fr, nid, n):
        o = n['o'][0]
        if n.get('c') or n.get('lv'):
            return self.loc(st, fr, o)
        return self.val(st, fr, o)

    e_CXXDefaultInitExpr = e_CXXDefaultArgExpr

    def e_ReturnStmt(self, st, fr, nid, n):
        for o in n['o']:
            self.ev(st, fr, o)
        return C0

    def e_OpaqueValueExpr(self, st, fr, nid, n):
        o = n['o'][0]
        return self.loc(st, fr, o) if self.isloc(fr, nid) else self.val(st, fr, o)

    def e_LambdaExpr(self, st, fr, nid, n):
        return ('tmp', fr.id, nid)

    def cast(self, st, fr, nid, n):
        ck = n['ck']
        o = n['o'][0]
        if ck == 'LValueToRValue':
            L = self.loc(st, fr, o)
            self.cl.on_read(self, st, fr, nid, L)
            return self.load(st, L, n)
        if ck == 'ArrayToPointerDecay':
            L = self.loc(st, fr, o)
            if L[0] == 'strlit':
                return L
            return ('addr', ('idx', L, C0))
        if ck == 'FunctionToPointerDecay':
            return self.ev(st, fr, o)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return C0
        if ck == 'ToVoid':
            self.ev(st, fr, o)
            return C0
        if self.isloc(fr, nid):
            L = self.loc(st, fr, o)
            if ck == 'BaseToDerived' or ck == 'Dynamic':
                self.cl.on_cast(self, st, fr, nid, n, ('addr', L))
            if ck in ('ConstructorConversion', 'UserDefinedConversion'):
                return L
            return L
        v = self.val(st, fr, o)
        if ck == 'Dynamic':
            if v == C0:
                return C0
            d = self.cl.dyncast(self, st, fr, nid, n, v, n['t'])
            if d is not None:
                return d
            t = ('dyn', strip_cv(n['t']), v)
            lin.setrange(t, 0, None)
            return t
        if ck == 'BaseToDerived':
            self.cl.on_cast(self, st, fr, nid, n, v)
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean', 'FloatingToBoolean'):
            if v[0] in ('cmp', 'not', 'fcmp'):
                return v
            t = self.truth(st, v)
            if t is not None:
                return c(int(t))
            return ('not', ('cmp', '==', v)) if v[0] not in ('op', 'dyn') else v
        if ck == 'IntegralCast':
            on = fr.fn.nodes[o]
            if on.get('op') == '-' and on.get('o') and len(on['o']) == 2 and fr.fn.nodes[on['o'][1]].get('p'):
                return v          # difference of two pointers, end minus begin
            return self.intcast(st, n, v)
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            if v[0] == 'c' and ck == 'IntegralToFloating':
                return ('fl', float(v[1]))
            if v[0] == 'fl':
                if ck == 'FloatingToIntegral':
                    return c(int(v[1]))
                return v
            return self.typed(('fcast', n['t'], v), n)
        return v

    def intcast(self, st, n, v):
        if 'w' not in n:
            return v
        if v[0] in ('cmp', 'not', 'fcmp'):
            return v
        w, u = n['w'], n.get('u')
        lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if v[0] == 'c':
            x = v[1]
            if lo <= x <= hi:
                return v
            x &= (1 << w) - 1
            if not u and x >> (w - 1):
                x -= 1 << w
            return c(x)
        if w >= 64:
            if not u or lin.entails(st.facts, v):
                return v
        else:
            l2, h2 = lin.interval(st.facts, v)
            if l2 is not None and h2 is not None and l2 >= lo and h2 <= hi:
                return v
        t = ('cast', '%s%d' % ('u' if u else 'i', w), v)
        lin.setrange(t, lo if (u or w < 64) else None, hi if w < 64 else None)
        return t

    # ---------------------------------------------------------------- calls
    def args_of(self, st, fr, n, nid):
        """-> (object location or None, [(node, value-or-loc, isloc)])"""
        ops = n.get('o', [])
        obj = None
        rest = ops
        if n.get('mem') and ops:
            rest = ops[1:]
            o = ops[0]
            if o is None:
                obj = fr.this
            elif n['k'] == 'CXXMemberCallExpr':
                on = fr.fn.nodes[o]
                if n.get('arrow') and not (on.get('c')):
                    v = self.val(st, fr, o)
                    if on['k'] != 'CXXThisExpr':
                        self.cl.on_deref(self, st, fr, nid, v)
                    obj = self.deref(v)
                elif on.get('p'):
                    v = self.val(st, fr, o)
                    if strip_paren_kind(fr.fn, o) != 'CXXThisExpr':
                        self.cl.on_deref(self, st, fr, nid, v)
                    obj = self.deref(v)
                else:
                    obj = self.loc(st, fr, o)
            else:
                obj = self.loc(st, fr, o)
        args = []
        for i, a in enumerate(rest):
            args.append((a, self.ev(st, fr, a), self.isloc(fr, a)))
        return obj, args

    def aval(self, st, fr, a):
        """scalar value of argument tuple"""
        return self.val(st, fr, a[0])

    def aloc(self, st, fr, a):
        return self.loc(st, fr, a[0])

    def call(self, st, fr, nid, n):
        """-> list of ('ret', st, value) / ('throw', st, type)"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        obj, args = self.args_of(st, fr, n, nid)
        r = self.cl.pre_call(self, st, fr, nid, n, (obj, args))
        if r is None:
            r = self.models.call(self, st, fr, nid, n, obj, args)
        if r is None:
            tgt = self.target(st, fr, nid, n, obj)
            if tgt is not None:
                r = self.inline_call(st, fr, nid, n, tgt, obj, args)
        if r is None:
            r = self.unknown(st, fr, nid, n, obj, args)
        out = []
        for o in r:
            if o[0] == 'ret':
                v = self.cl.post_call(self, o[1], fr, nid, n, (obj, args), o[2])
                out.append(('ret', o[1], v))
            else:
                out.append(o)
        return out

    def target(self, st, fr, nid, n, obj):
        u = n.get('fn')
        if not u:
            return None
        if n.get('virt') and not n.get('qual'):
            f = self.cl.devirt(self, st, fr, nid, n, obj)
            if f is None:
                return None
            return f
        f = self.p.fns.get(u)
        if f is None or not f.blocks:
            return None
        if fr.depth >= self.cl.max_depth:
            return None
        x = fr
        while x:
            if x.fn is f:
                return None
            x = x.parent
        if not self.cl.inline(self, f, fr):
            return None
        return f

    def frame(self, fn, parent, nid, this):
        k = (fn.usr, parent.id if parent else None, nid)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = next(_fid)
            f.fn = fn
            f.parent = parent
            f.nid = nid
            f.depth = parent.depth + 1 if parent else 0
            self.frames[k] = f
        f.this = this
        return f

    def inline_call(self, st, fr, nid, n, fn, obj, args):
        ctor = n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr')
        this = obj
        if ctor:
            this = self.destloc(st, fr, nid)
            if this[0] in ('tmp', 'var', 'new'):
                for k in [k for k in st.mem if under(k, this)]:
                    del st.mem[k]
        f2 = self.frame(fn, fr, nid, this)
        for i, vid in enumerate(fn.params):
            V = fn.vars[vid]
            l = ('var', f2.id, vid)
            if i >= len(args):
                continue
            a = args[i]
            if V.get('ref'):
                st.mem[l] = ('addr', self.aloc(st, fr, a))
            elif V.get('c'):
                src = self.aloc(st, fr, a)
                if scalarlike(V['t']):
                    st.mem[l] = self.rd(st, src)
                else:
                    self.copy_obj(st, src, l)
            else:
                st.mem[l] = self.aval(st, fr, a)
        outs = self.run_fn(f2, st)
        res = []
        for o in outs:
            if o[0] == 'throw':
                res.append(o)
                continue
            s2, rv = o[1], o[2]
            if ctor:
                res.append(('ret', s2, this))
                continue
            if n.get('c') and not n.get('lv'):
                d = self.destloc(s2, fr, nid)
                if rv is None:
                    rv = ('tmp', fr.id, nid)
                if scalarlike(n['t']):
                    x = self.rd(s2, rv) if is_loc(rv) else rv
                    self.drop_frame(s2, f2.id)
                    self.wr(s2, d, x)
                else:
                    if is_loc(rv):
                        self.copy_obj(s2, rv, d)
                    self.drop_frame(s2, f2.id)
                res.append(('ret', s2, d))
            else:
                self.drop_frame(s2, f2.id)
                res.append(('ret', s2, rv if rv is not None else C0))
        if ctor:
            for o in res:
                if o[0] == 'ret':
                    self.drop_frame(o[1], f2.id)
        for o in res:
            if o[0] == 'throw':
                self.drop_frame(o[1], f2.id)
        return self.dedupe(res)

    def drop_frame(self, st, fid):
        m = st.mem
        dead = []
        for k in m:
            r = k
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if r[0] in ('var', 'tmp') and r[1] == fid:
                dead.append(k)
        for k in dead:
            del m[k]
        for k in [k for k in st.nv if k[0] == fid]:
            del st.nv[k]
        for k in [k for k in st.br if k[0] == fid]:
            del st.br[k]
        if st.live:
            st.live = tuple(x for x in st.live if x[0] != fid)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for o in outs:
            k = (o[0], o[1].key(), o[2])
            if k not in seen:
                seen.add(k)
                res.append(o)
        if len(res) > self.cl.cap:
            groups = {}
            for o in res:
                groups.setdefault((o[0], o[1].ts, o[1].live, o[2] if o[0] == 'throw' else None), []).append(o)
            res = []
            for g in groups.values():
                byv = {}
                for o in g:
                    byv.setdefault(o[2], []).append(o)
                if len(byv) > 8:
                    res.append((g[0][0], self.join([o[1] for o in g]), ('join', 'rv', id(g) % 100000)))
                else:
                    for v, gg in byv.items():
                        res.append((gg[0][0], self.join([o[1] for o in gg]), v))
        return res

    def join(self, states):
        """least upper bound of states with the same typestate"""
        s = states[0].fork()
        keys = set()
        for x in states:
            keys |= set(x.mem)
        for k in keys:
            vs = {self.rd(x, k) for x in states}
            if len(vs) == 1:
                s.mem[k] = vs.pop()
            else:
                nums = [self.rd(x, k) for x in states]
                a = ('join', k, hash(frozenset(vs)) % 1000003)
                s.mem[k] = a
                los, his = [], []
                for x, v in zip(states, nums):
                    lo, hi = lin.interval(x.facts, v) if v[0] not in ('cmp', 'not', 'addr') else (0, None)
                    los.append(lo)
                    his.append(hi)
                lin.setrange(a, None if None in los else min(los), None if None in his else max(his))
        f = dict(states[0].facts)
        for x in states[1:]:
            for k in list(f):
                lo, hi, ne = f[k]
                g = x.facts.get(k)
                if g is None:
                    del f[k]
                    continue
                lo = None if lo is None or g[0] is None else min(lo, g[0])
                hi = None if hi is None or g[1] is None else max(hi, g[1])
                ne = ne & g[2]
                if lo is None and hi is None and not ne:
                    del f[k]
                else:
                    f[k] = (lo, hi, ne)
        s.facts = f
        nvk = set(s.nv)
        for x in states[1:]:
            nvk &= set(x.nv)
        s.nv = {k: s.nv[k] for k in nvk if all(x.nv[k] == s.nv[k] for x in states)}
        s.br = {k: v for k, v in s.br.items() if all(x.br.get(k) == v for x in states)}
        return s

    def unknown(self, st, fr, nid, n, obj, args):
        """a callee whose body is not looked into"""
        pk = n.get('pk', [])
        fq = strip_t(n.get('fq', '?'))
        if fq in NORET or n.get('noret'):
            self.cl.on_abort(self, st, fr, nid, n)
            return []
        ctor = n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr')
        outs = []
        throws = self.cl.may_throw(self, st, fr, nid, n)
        pure = not ctor
        if obj is not None and not n.get('cm') and not n.get('static'):
            pure = False
        argv = []
        for i, a in enumerate(args):
            kind = pk[i] if i < len(pk) else 'v'
            if kind in ('r', 'm', 'p'):
                pure = False
            if a[2]:
                argv.append(self.objkey(st, a[1]))
            else:
                argv.append(a[1])
        if throws:
            s2 = st.fork()
            outs.append(('throw', s2, throws if isinstance(throws, str) else '?'))
        if ctor:
            d = self.destloc(st, fr, nid)
            if n.get('copy') or n.get('move'):
                self.copy_obj(st, self.aloc(st, fr, args[0]), d)
            else:
                self.wr(st, d, ('call', fq) + tuple(argv) if argv else ('call', fq))
            outs.append(('ret', st, d))
            return outs
        if n.get('asg') and obj is not None and args and (n.get('implicit')):
            self.copy_obj(st, self.aloc(st, fr, args[0]), obj)
            outs.append(('ret', st, obj))
            return outs
        t = ('call', fq) + ((self.objkey(st, obj),) if obj is not None else ()) + tuple(argv)
        if not pure:
            t = ('hv', fr.id, nid, 0)
            if obj is not None and not n.get('cm') and not n.get('static'):
                self.wr(st, obj, ('hv', fr.id, nid, 1))
            for i, a in enumerate(args):
                kind = pk[i] if i < len(pk) else 'v'
                if kind in ('r', 'm'):
                    self.wr(st, self.aloc(st, fr, a), ('hv', fr.id, nid, 2 + i))
                elif kind == 'p':
                    v = self.aval(st, fr, a)
                    if v[0] == 'addr':
                        L = v[1]
                        if L[0] == 'idx':
                            L = L[1]
                        self.wr(st, L, ('hv', fr.id, nid, 2 + i))
        if n.get('lv') or n.get('rref'):
            outs.append(('ret', st, ('deref', t)))
        elif n.get('c'):
            d = self.destloc(st, fr, nid)
            self.wr(st, d, t)
            outs.append(('ret', st, d))
        else:
            outs.append(('ret', st, self.typed(t, n)))
        return outs

    # ---------------------------------------------------------------- control flow
    def run_fn(self, fr, st):
        """-> outcomes ('ret', st, value) ('throw', st, type)"""
        fn = fr.fn
        if not fn.blocks:
            return [('ret', st, UNK)]
        res = self.run(fr, {fn.entry: [st]}, None, frozenset())
        return self.dedupe(res['out'])

    def run(self, fr, start, head, active):
        """process from `start`; head: the loop under analysis (None: whole function)."""
        fn = fr.fn
        P = prep(fn)
        rpo, loops = P['rpo'], P['loops']
        region = loops[head] if head is not None else None
        pend = {b: list(v) for b, v in start.items()}
        out, back = [], []
        first = True
        active = set(active)
        if head is not None:
            active.add(head)
        seen = {}
        while pend:
            b = min(pend, key=lambda x: rpo.get(x, 1 << 30))
            sts = pend.pop(b)
            uniq = []
            sn = seen.setdefault(b, set())
            for s in sts:
                k = s.key()
                if k not in sn:
                    sn.add(k)
                    uniq.append(s)
            sts = uniq
            if len(sts) > self.cl.cap:
                groups = {}
                for s in sts:
                    groups.setdefault((s.ts, s.live), []).append(s)
                sts = []
                for g in groups.values():
                    sts.append(self.join(g) if len(g) > 3 else g[0])
                    if len(g) <= 3:
                        sts += g[1:]
            if b in loops and b not in active and not self.cl.unroll:
                inv = []
                for s in sts:
                    inv += self.loop(fr, b, s, active)
                sts = inv
                uq = {}
                for s in sts:
                    uq[s.key()] = s
                sts = list(uq.values())
                active.add(b)
            for s in sts:
                for (kind, tgt, s2, v) in self.block(fr, b, s):
                    if kind == 'ret' or kind == 'throw':
                        out.append((kind, s2, v))
                    elif tgt == head and head is not None:
                        back.append(s2)
                    elif self.cl.unroll and tgt in loops:
                        ck = ('gh', '#it', fr.id, tgt)
                        if b in loops[tgt] and rpo.get(tgt, 0) <= rpo.get(b, 0):
                            k = s2.mem.get(ck, ('c', 0))
                            k = k[1] + 1 if k[0] == 'c' else self.cl.unroll + 1
                            if k > self.cl.unroll:
                                self.exceeded = True
                                continue
                            s2 = s2.fork()
                            self.scrub(fr, s2, loops[tgt], P)
                            s2.mem[ck] = ('c', k)
                        else:
                            s2 = s2.fork()
                            s2.mem[ck] = ('c', 0)
                        pend.setdefault(tgt, []).append(s2)
                    elif tgt in active and tgt in loops and rpo.get(tgt, 0) <= rpo.get(b, 0) and b in loops[tgt]:
                        pass          # back edge of a loop already at its fixpoint
                    elif region is not None and tgt not in region:
                        pass          # leaves the loop under analysis: not needed for the invariant
                    else:
                        pend.setdefault(tgt, []).append(s2)
        return {'out': out, 'back': back}

    def scrub(self, fr, st, body, P):
        """forget loop-local variables and temporaries at a loop head"""
        drop = set()
        for b in body:
            drop |= P['declvars'][b]
        fid = fr.id
        dead = []
        for k in st.mem:
            r = k
            while r[0] in ('fld', 'idx'):
                r = r[1]
            if r[0] == 'tmp' and r[1] == fid or r[0] == 'var' and r[1] == fid and r[2] in drop:
                dead.append(k)
        for k in dead:
            del st.mem[k]
        for k in [k for k in st.nv if k[0] == fid]:
            del st.nv[k]
        for k in [k for k in st.br if k[0] == fid]:
            del st.br[k]
        st.live = tuple(x for x in st.live if not (x[0] == fid and x[1] in drop))

    def loop(self, fr, h, st, active):
        fn = fr.fn
        P = prep(fn)
        body = P['loops'][h]
        st = st.fork()
        self.scrub(fr, st, body, P)
        M = set()
        arrs = set()
        tss = [st.ts]
        cand = []          # (term over phi atoms) >= 0
        rejected = set()

        def phi(l):
            return ('phi', fr.id, h, l)

        def build(ts):
            s = st.fork()
            s.ts = ts
            for l in sorted(M, key=lambda x: len(repr(x))):
                # elements vary; the number of elements varies only when it is itself written
                size = ('fld', l, '#n')
                keep = self.rd(s, size) if l in arrs and size not in M else None
                for k in [k for k in s.mem if k != l and under(k, l)]:
                    if k not in M:
                        del s.mem[k]
                s.mem[l] = phi(l)
                if keep is not None:
                    s.mem[size] = keep
            for l in M:
                v0 = self.rd(st, l)
                r = lin.RANGE.get(v0)
                if phi(l) not in lin.RANGE and v0[0] == 'c':
                    pass
            f = s.facts
            for t in cand:
                f2 = lin.assume(f, t, '>=', True)
                if f2 is not None:
                    f = f2
            s.facts = f
            return s
        self.mute += 1
        saved = self.condterms
        try:
            for it in range(14):
                self.condterms = []
                backs = []
                for ts in list(tss):
                    r = self.run(fr, {h: [build(ts)]}, h, active)
                    backs += r['back']
                changed = False
                for b in backs:
                    self.scrub(fr, b, body, P)
                    if b.ts not in tss:
                        tss.append(b.ts)
                        changed = True
                        if len(tss) > 24:
                            raise Budget()
                ref = build(st.ts)
                phis = {phi(l) for l in M}
                newM = set()
                for b in backs:
                    for l in set(b.mem) | set(ref.mem):
                        if l in M:
                            continue
                        if any(under(l, x) for x in M if x != l and not (l[0] == 'fld' and l[2] == '#n' and l[1] == x and x in arrs)):
                            continue
                        vb, vr = self.rd(b, l), self.rd(ref, l)
                        if vb != vr:
                            q = l
                            # an element whose index is a loop value: the whole array varies
                            p = l
                            while p is not None:
                                if p[0] == 'idx' and lin.mentions(p[2], lambda x: x in phis or x[0] == 'hv'):
                                    q = p[1]
                                    arrs.add(q)
                                p = prefix(p)
                            newM.add(q)
                if newM - M:
                    M |= newM
                    M = {l for l in M if not any(l != x and under(l, x) and not (l == ('fld', x, '#n') and x in arrs) for x in M)}
                    changed = True
                if changed:
                    cand = []
                    rejected = set()
                    continue
                # candidates
                pool = set(cand)
                init = {phi(l): self.rd(st, l) for l in M}
                step = {}
                for l in M:
                    ds = set()
                    for b in backs:
                        d = sub(self.rd(b, l), phi(l))
                        ds.add(d[1] if d[0] == 'c' else None)
                    step[phi(l)] = ds
                    v0 = init[phi(l)]
                    if v0[0] in ('addr', 'cmp', 'not', 'fl', 'uninit'):
                        continue
                    pool.add(sub(phi(l), v0))
                    pool.add(sub(v0, phi(l)))
                    lo_, hi_ = lin.interval(st.facts, v0)
                    if lo_ is not None:
                        pool.add(sub(phi(l), c(lo_)))
                    if hi_ is not None:
                        pool.add(sub(c(hi_), phi(l)))
                    if ds and None not in ds and (all(x >= 0 for x in ds) or all(x <= 0 for x in ds)):
                        self.counted.add(phi(l))
                    if v0[0] == 'c' and v0[1] >= 0:
                        pool.add(phi(l))
                conv = [p for p in phis if len(step[p]) == 1 and None not in step[p]]
                for i, p in enumerate(conv):
                    for q in conv[i + 1:]:
                        dp, dq = min(step[p]), min(step[q])
                        if dp and dq and abs(dp) < 1 << 32 and abs(dq) < 1 << 32 and init[p][0] not in ('addr', 'uninit') and init[q][0] not in ('addr', 'uninit'):
                            e = sub(scale(sub(p, init[p]), dq), scale(sub(q, init[q]), dp))
                            pool.add(e)
                            pool.add(scale(e, -1))
                for t in self.condterms:
                    ats = lin.parts(t)[1]
                    if any(a in phis for a in ats):
                        for x in (t, scale(t, -1)):
                            pool.add(x)
                            for d in (1, -1, 2):
                                pool.add(add(x, c(d)))
                            for b in backs:
                                tb = lin.subst(x, {phi(l): self.rd(b, l) for l in M})
                                d = sub(tb, x) if tb is not None else UNK
                                if d[0] == 'c' and abs(d[1]) > 1:
                                    for k in (-1, 0, 1):
                                        pool.add(add(x, c(k - d[1])))
                pool -= rejected
                keep = []
                for t in pool:
                    t0 = lin.subst(t, init)
                    if t0 is None or not lin.entails(st.facts, t0):
                        rejected.add(t)
                        continue
                    good = True
                    for b in backs:
                        tb = lin.subst(t, {phi(l): self.rd(b, l) for l in M})
                        if tb is None or not lin.entails(b.facts, tb):
                            good = False
                            break
                    # only reject when it fails under the current assumption set
                    keep.append((t, good))
                new = sorted({t for t, g in keep if (g or t not in cand)}, key=repr)
                bad = {t for t, g in keep if not g and t in cand}
                rejected |= bad
                if set(new) == set(cand):
                    break
                cand = new
            else:
                cand = []
        finally:
            self.mute -= 1
            self.condterms = saved
        outs = [build(ts) for ts in tss]
        self.cl.on_loop(self, fr, h, st, backs, {l: phi(l) for l in M}, outs)
        return outs

    def block(self, fr, b, st):
        """execute block b from st; -> [(kind, target, st, value)]"""
        fn = fr.fn
        P = prep(fn)
        B = fn.blocks[b]
        res = []
        work = [(0, st.fork())]
        els = B['el']
        lab = B.get('label')
        while work:
            i, s = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            dead = False
            retval = None
            while i < len(els):
                e = els[i]
                i += 1
                if isinstance(e, dict):
                    for o in self.element(fr, s, e):
                        if o[0] == 'throw':
                            res += self.unwind(fr, o[1], o[2], None)
                        elif o[1] is not s:
                            work.append((i, o[1]))
                            dead = True
                    if dead:
                        break
                    continue
                n = fn.nodes[e]
                k = n['k']
                if k == 'CXXThrowExpr':
                    ty = n.get('tt')
                    for o in n['o']:
                        self.ev(s, fr, o)
                    if ty is None:
                        ty = self.rd(s, ('gh', 'exc', fr.id))
                        ty = ty[1] if ty[0] == 'ty' else '?'
                    self.cl.on_throw(self, s, fr, e, ty)
                    res += self.unwind(fr, s, ty, e)
                    dead = True
                    break
                if k == 'ReturnStmt':
                    s.nv.pop((fr.id, e), None)
                    self.compute(s, fr, e)
                    if n['o']:
                        o = n['o'][0]
                        if fn.nodes[o].get('c') and not fn.d['rt'].endswith('&'):
                            L = self.loc(s, fr, o)
                            R = ('tmp', fr.id, 'ret')
                            if scalarlike(fn.nodes[o]['t']):
                                s.mem[R] = self.rd(s, L)
                            else:
                                self.copy_obj(s, L, R)
                            s.nv[(fr.id, 'ret')] = R
                        elif fn.d['rt'].endswith('&'):
                            s.nv[(fr.id, 'ret')] = self.loc(s, fr, o)
                        else:
                            s.nv[(fr.id, 'ret')] = self.val(s, fr, o)
                    self.cl.on_return(self, s, fr, s.nv.get((fr.id, 'ret')))
                    continue
                key = (fr.id, e)
                s.nv.pop(key, None)
                if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr',
                         'CXXInheritedCtorInitExpr') and not ('cv' in n and k != 'CXXConstructExpr'):
                    outs = self.call(s, fr, e, n)
                    live = []
                    for o in outs:
                        if o[0] == 'throw':
                            res += self.unwind(fr, o[1], o[2], e)
                        else:
                            o[1].nv[key] = o[2] if o[2] is not None else C0
                            live.append(o[1])
                    if not live:
                        dead = True
                        break
                    s = live[0]
                    for x in live[1:]:
                        work.append((i, x))
                    continue
                if k in ('CXXTryStmt', 'CXXCatchStmt'):
                    continue
                v = self.compute(s, fr, e)
                if v is not None:
                    s.nv[key] = v
            if dead:
                continue
            if B.get('noret') and not B['su']:
                continue
            res += self.terminate(fr, b, B, s, P)
        return res

    def element(self, fr, s, e):
        k = e['e']
        if k == 'init':
            if 'init' in e:
                o = e['init']
                if 'm' in e:
                    L = ('fld', fr.this, e['m'])
                    if e.get('ref'):
                        s.mem[L] = ('addr', self.loc(s, fr, o))
                    elif e.get('c'):
                        src = self.loc(s, fr, o)
                        if src != L:
                            if scalarlike(e['mt']):
                                self.wr(s, L, self.rd(s, src), fr, o)
                            else:
                                self.copy_obj(s, src, L)
                    else:
                        v = self.val(s, fr, o)
                        self.wr(s, L, v, fr, o)
                else:
                    self.ev(s, fr, o)
            return []
        if k in ('dtor', 'tdtor'):
            L = ('var', fr.id, e['v']) if k == 'dtor' else s.nv.get((fr.id, e['n']), ('tmp', fr.id, e['n']))
            if k == 'dtor':
                s.live = tuple(x for x in s.live if not (x[0] == fr.id and x[1] == e['v']))
            return self.destroy(fr, s, L, e)
        if k == 'mdtor':
            self.cl.on_dtor(self, s, fr, ('fld', fr.this, e['m']), e)
        return []

    def destroy(self, fr, s, L, e):
        """run a destructor; -> [] when done in place or outcomes"""
        r = self.cl.on_dtor(self, s, fr, L, e)
        if isinstance(r, list):
            return r
        f = self.p.fns.get(e.get('fn'))
        if f is None or not f.blocks or fr.depth >= self.cl.max_depth + 2 or not self.cl.inline(self, f, fr):
            return []
        x = fr
        while x:
            if x.fn is f:
                return []
            x = x.parent
        f2 = self.frame(f, fr, ('d', e.get('v', e.get('n'))), L)
        outs = self.run_fn(f2, s.fork())
        res = []
        for o in outs:
            self.drop_frame(o[1], f2.id)
            res.append((o[0], o[1], o[2]))
        return self.dedupe(res)

    def unwind(self, fr, s, ty, nid):
        """exception of type ty at node nid of this frame -> [(kind, target, st, value)]"""
        fn = fr.fn
        P = prep(fn)
        t = fn.nodes[nid].get('try') if nid is not None else None
        res = []
        states = [s]
        while t is not None:
            T = fn.nodes[t]
            chain = set()
            # destroy autos declared inside this try
            inner = set()
            states = self.destroy_live(fr, states, t)
            for h in T.get('handlers', []):
                m = self.catches(h['ct'], ty)
                if m:
                    for st in states:
                        s2 = st.fork()
                        for k in [k for k in s2.nv if k[0] == fr.id]:
                            del s2.nv[k]
                        s2.mem[('gh', 'exc', fr.id)] = ('ty', ty)
                        cb = P['catch_block'].get(h['id'])
                        if cb is not None:
                            res.append(('go', cb, s2, None))
                    if m is True:
                        return res
            t = T.get('try')
        for st in self.destroy_live(fr, states, None):
            res.append(('throw', None, st, ty))
        return res

    def destroy_live(self, fr, states, t):
        out = []
        for s in states:
            cur = [s]
            mine = [x for x in s.live if x[0] == fr.id]
            for x in reversed(mine):
                if t is not None and not self.in_try(fr.fn, x[2], t):
                    continue
                V = fr.fn.vars[x[1]]
                e = {'e': 'dtor', 'v': x[1], 'fn': self.dtor_of(fr.fn, x[1])}
                nxt = []
                for c_ in cur:
                    c_ = c_.fork()
                    c_.live = tuple(y for y in c_.live if y != x)
                    r = self.destroy(fr, c_, ('var', fr.id, x[1]), e)
                    nxt += [o[1] for o in r if o[0] == 'ret'] if r else [c_]
                cur = nxt
            out += cur
        return out

    def dtor_of(self, fn, vid):
        P = prep(fn)
        d = P.get('dtors')
        if d is None:
            d = P['dtors'] = {}
            for B in fn.blocks.values():
                for e in B['el']:
                    if isinstance(e, dict) and e.get('e') == 'dtor':
                        d[e['v']] = e.get('fn')
        return d.get(vid)

    def in_try(self, fn, t, target):
        while t is not None:
            if t == target:
                return True
            t = fn.nodes[t].get('try')
        return False

    def catches(self, ct, ty):
        """True, False, or 'maybe'"""
        if ct == '...':
            return True
        ct, ty = strip_cv(ct), strip_cv(ty or '?')
        if ty == '?':
            return 'maybe'
        return is_base(self.p, ct, ty)

    def terminate(self, fr, b, B, s, P):
        fn = fr.fn
        su = B['su']
        # forget node values not needed in other blocks
        cross = P['cross']
        fid = fr.id
        for k in [k for k in s.nv if k[0] == fid and k[1] not in cross and k[1] != 'ret']:
            if 'term' in B and B['term'].get('c') == k[1]:
                continue
            del s.nv[k]
        if b == fn.exit or not su:
            if b == fn.exit:
                return [('ret', None, s, s.nv.get((fid, 'ret')))]
            return []
        t = B.get('term')
        live = [x for x in su]
        if t is None or len(su) == 1:
            if t is not None and t['k'] == 'CXXTryStmt':
                return []
            return [('go', su[0], s, None)] if su[0] is not None else []
        k = t['k']
        if k == 'SwitchStmt':
            return self.switch(fr, B, s, t, su)
        if k == 'TempDtors' or 'c' not in t:
            if k == 'CXXForRangeStmt' and 'c' in t:
                pass
            elif k == 'TempDtors':
                # conditionally constructed temporaries: decided by the branch taken
                r = s.br.get((fid, t['id']))
                if r is not None and len(su) == 2:
                    x = su[0] if r else su[1]
                    return [('go', x, s, None)] if x is not None else []
                res = []
                for x in su:
                    if x is not None:
                        res.append(('go', x, s.fork(), None))
                return res
            else:
                return [('go', x, s.fork(), None) for x in su if x is not None]
        v = self.val(s, fr, t['c'])
        s.nv.pop((fid, t['c']), None) if t['c'] not in cross else None
        res = []
        tr = self.truth(s, v)
        for val, x in ((True, su[0]), (False, su[1])):
            if x is None or (tr is not None and tr != val):
                continue
            s2 = s.fork()
            if not self.assume(s2, v, val):
                continue
            if k == 'BinaryOperator':
                op = t.get('op')
                # short circuit: value of the operator known when the rest is skipped
                if op == '&&' and not val:
                    s2.br[(fid, t['id'])] = False
                elif op == '||' and val:
                    s2.br[(fid, t['id'])] = True
                else:
                    s2.br.pop((fid, t['id']), None)
            elif k in ('ConditionalOperator', 'BinaryConditionalOperator'):
                s2.br[(fid, t['id'])] = val
            self.cl.on_branch(self, s2, fr, t['c'], v, val)
            res.append(('go', x, s2, None))
        return res

    def switch(self, fr, B, s, t, su):
        fn = fr.fn
        v = self.val(s, fr, t['c'])
        res = []
        rest = s.fork()
        ok = True
        for x in su[:-1]:
            if x is None:
                continue
            lab = fn.blocks[x].get('label')
            if not lab or lab['k'] != 'case':
                continue
            lo, hi = lab['lo'], lab.get('hi', lab['lo'])
            s2 = s.fork()
            if lo == hi:
                good = self.assume(s2, ('cmp', '==', sub(v, c(lo))), True)
            else:
                good = self.assume(s2, ('cmp', '>=', sub(v, c(lo))), True) and self.assume(s2, ('cmp', '>=', sub(c(hi), v)), True)
            if good:
                self.cl.on_branch(self, s2, fr, t['c'], ('cmp', '==', sub(v, c(lo))), True)
                res.append(('go', x, s2, None))
            if ok and lo == hi:
                ok = self.assume(rest, ('cmp', '==', sub(v, c(lo))), False)
        x = su[-1]
        if x is not None and ok:
            res.append(('go', x, rest, None))
        return res


def strip_paren_kind(fn, nid):
    n = fn.nodes[nid]
    while n['k'] in ('ImplicitCastExpr', 'ParenExpr') and n.get('o'):
        n = fn.nodes[n['o'][0]]
    return n['k']


def strip_cv(t):
    t = t.strip()
    while True:
        u = t
        if u.startswith('const '):
            u = u[6:]
        u = u.rstrip('&* ').strip()
        if u.endswith(' const'):
            u = u[:-6]
        if u == t:
            return t
        t = u


_STD_BASE = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception',
    'std::bad_cast': 'std::exception', 'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
    'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::overflow_error': 'std::runtime_error',
    'std::range_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error'}


def is_base(p, base, ty):
    seen = set()
    todo = [ty]
    while todo:
        x = todo.pop()
        if x == base:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x in _STD_BASE:
            todo.append(_STD_BASE[x])
        r = p.rec_qt.get(x)
        if r:
            for b in r['bases']:
                todo.append(strip_cv(b['t']))
    return False


def is_loc(v):
    return v[0] in ('var', 'glob', 'fld', 'idx', 'deref', 'tmp', 'new', 'strlit', 'gh')


def rebase(loc, src, dst):
    if loc == src:
        return dst
    return (loc[0], rebase(loc[1], src, dst)) + loc[2:]


_sl = {}


def scalarlike(t):
    r = _sl.get(t)
    if r is None:
        s = strip_t(strip_cv(t.replace('&', '')))
        r = _sl[t] = s in ('std::shared_ptr', 'std::weak_ptr', 'std::auto_ptr', 'std::unique_ptr', '__gnu_cxx::__normal_iterator',
                           'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
                           'std::reverse_iterator', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::basic_string', 'std::nullptr_t',
                           'epics::pvData::detail::cow', 'std::_Deque_iterator')
    return r
