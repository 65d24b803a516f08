"""Failing lookups are reported, never dereferenced.

sources: a function that returns a pointer and has a path returning null (found by interpreting every candidate: those whose source returns a null
literal, a checked conversion or the result of another source), PVUnion::get, PVField::getParent, cachedDeserialize, checked casts, weak_ptr::lock.
use: every function of the library that uses a source is interpreted with each use both failing (a null pointer) and succeeding; on no path may a null
pointer be dereferenced, be the object of a member call, or be handed to a function of the library that dereferences it (that function is entered).
contract: each lookup of a structure, union and their types is interpreted: the forms that are to return null have no path to a throw and a path to
null; the throwing forms have no path that returns null and one that throws; a lookup by name returns a field only on paths where the name of that
very field compared equal to the whole name asked for."""
import re

from pv import lin, models
from pv.lin import c
from pv.interp import Interp, Client, State, Budget, is_loc

NS = 'epics::pvData::'
THIS = ('cb', 'this')
C0 = ('c', 0)
BASE = re.compile(r'^epics::pvData::(PVUnion::get|PVField::getParent|DeserializableControl::cachedDeserialize)$')
SK = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr',
      'CStyleCastExpr', 'CXXStaticCastExpr', 'ConstantExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr')


def strip(s):
    s = s or ''
    while '<' in s:
        t = re.sub(r'<[^<>]*>', '', s)
        if t == s:
            break
        s = t
    return s


def isptr(t):
    return '*' in (t or '') or 'shared_ptr<' in (t or '')


def peel(f, i):
    n = f.nodes.get(i)
    while n and n['k'] in SK and n.get('o') and n['o'][0] in f.nodes:
        i = n['o'][0]
        n = f.nodes[i]
    return n


def isnull(f, i):
    """the returned expression is a null literal or an empty pointer"""
    n = peel(f, i)
    if not n:
        return False
    if n['k'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
        return True
    if n['k'] == 'IntegerLiteral':
        return n.get('cv', n.get('val')) == 0
    if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        o = [x for x in n.get('o') or () if f.nodes.get(x, {}).get('k') != 'CXXDefaultArgExpr']
        return 'shared_ptr<' in str(n.get('t')) if not o else len(o) == 1 and isnull(f, o[0])
    return False


def source(p, n, S):
    if n['k'] == 'CXXDynamicCastExpr':
        return '*' in str(n.get('t'))
    if 'fq' not in n or not n['k'].endswith('CallExpr'):
        return False
    fq = strip(n.get('fq'))
    return fq.endswith(('::dynamic_pointer_cast', 'weak_ptr::lock')) or bool(BASE.match(fq)) or n.get('fn') in S


def library(p):
    return [f for f in p.fns.values() if f.blocks and not f.file.startswith('/')]


class Use(Client):
    max_depth = 5
    cap = 40

    def __init__(self, p, root, S, NR, enter=()):
        self.p, self.root, self.S, self.NR = p, root, S, NR
        self.bad, self.derefs, self.forked, self.thrown = [], 0, set(), []
        self.enter = set(enter)

    def inline(self, I, fn, fr):
        return fn.usr in self.enter and fn.usr != self.root.usr

    def dyncast(self, I, st, fr, nid, n, v, t):
        """a checked cast: null for null; decided by the kind of a field when that is known on this path; otherwise either"""
        if v == C0:
            return C0
        self.forked.add((fr.fn.usr, nid))
        k = KIND.get(strip(t.replace('const ', '').replace('*', '').strip()).split('::')[-1])
        if k:
            d = lin.decide(st.facts, lin.sub(kind(v), c(self.kinds()[k])), '==')
            if d is True:
                return v
            if d is False:
                return C0
        w = ('look', fr.id, nid)
        lin.setrange(w, 0, None)
        if w in st.facts:
            st.facts = {k: x for k, x in st.facts.items() if k != w}
        return w

    def kinds(self):
        if not hasattr(self, '_k'):
            self._k = dict(self.p.enum_vals(NS + 'Type'))
        return self._k

    def maynull(self, st, v):
        return v == C0 or v[0] == 'look' and lin.decide(st.facts, v, '==') is not False

    def out(self, I, st, fr, nid, n, v):
        if n.get('c') and n.get('lv'):
            d = ('gh', 'res', fr.id, nid)
            st.mem[d] = v
            return [('ret', st, d)]
        return models.ret(I, st, fr, nid, n, v)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip(n.get('fq'))
        if fq == NS + 'PVUnion::getSelectedIndex' and obj is not None:
            return [('ret', st, selidx(I.objkey(st, obj)))]
        if fq == NS + 'PVField::getField' and obj is not None:
            v = ('fieldof', ptrof(obj))
            lin.setrange(v, 1, None)
            return self.out(I, st, fr, nid, n, v)
        if fq == NS + 'Field::getType' and obj is not None:
            k = ptrof(obj)
            return [('ret', st, kind(k[1] if k[0] == 'fieldof' else ('typed', k)))]
        if n.get('fn') in self.NR:
            return [('throw', st, ('tmp', fr.id, nid))]
        vals = [I.rd(st, x[1]) if x[2] else x[1] for x in args]
        if source(self.p, n, self.S) and n.get('fn') not in self.enter:
            if fq.endswith('dynamic_pointer_cast'):
                return self.out(I, st, fr, nid, n, self.dyncast(I, st, fr, nid, n, vals[0], n.get('targs', ['?'])[0]))
            w = ('found', fr.id, nid)
            if vals and vals[-1] == ('c', 1) and self.p.fns.get(n.get('fn')) and lastbool(self.p.fns[n['fn']]):
                lin.setrange(w, 1, None)
                return self.out(I, st, fr, nid, n, w)
            self.forked.add((fr.fn.usr, nid))
            lin.setrange(w, 1, None)
            key = None
            if 'getSubField' in fq and obj is not None and vals and vals[0][0] in ('str', 'strlit'):
                key = ('gh', 'lookup', I.objkey(st, obj), vals[0])
                t = [x for x in n.get('targs') or () if isinstance(x, str) and x.startswith(NS)]
                known = st.mem.get(key)
                if known is not None:
                    if known != C0 and t:
                        known = self.dyncast(I, st, fr, nid, n, known, t[0])
                    return self.out(I, st, fr, nid, n, known)
                if t:
                    key = None
            if fq == NS + 'PVField::getParent' and obj is not None:
                key = ('gh', 'parent', ptrof(obj))
                known = st.mem.get(key)
                if known is not None and known[0] in ('c', 'found'):
                    return self.out(I, st, fr, nid, n, known)
                w = ('found', fr.id, nid, ptrof(obj))
                lin.setrange(w, 1, None)
            s2 = st.fork()
            if key:
                st.mem[key], s2.mem[key] = w, C0
            if fq == NS + 'PVUnion::select' and vals and n.get('targs'):
                k = KIND.get(strip(str(n['targs'][0])).split('::')[-1])
                if k and any(isinstance(x, tuple) and x[0] == 'kind' and lin.mentions(x, lambda y: y == uncast(vals[0])) and
                             lin.decide(st.facts, lin.sub(x, c(self.kinds()[k])), '==') for x in st.facts):
                    return self.out(I, st, fr, nid, n, w)
            if fq == NS + 'PVUnion::get' and obj is not None:
                nf = lin.assume(s2.facts, lin.add(selidx(I.objkey(st, obj)), c(1)), '==', True)
                if nf is None or lin.entails(st.facts, selidx(I.objkey(st, obj))):
                    return self.out(I, st, fr, nid, n, w)
                s2.facts = nf
            return self.out(I, st, fr, nid, n, w) + self.out(I, s2, fr, nid, n, C0)
        g = self.p.fns.get(n.get('fn'))
        if g and g.blocks and not g.file.startswith('/') and g.usr not in self.enter:
            for x, v in zip(g.params, vals):
                if isptr(str(g.vars[x].get('t'))) and self.maynull(st, v):
                    self.enter.add(g.usr)
        return None

    def on_deref(self, I, st, fr, nid, v):
        if not I.mute:
            self.derefs += 1
            if self.maynull(st, v):
                self.bad.append((fr, nid))

    def on_throw(self, I, st, fr, nid, ty):
        self.thrown.append((fr.fn, nid, ty))


KIND = {'PVScalar': 'scalar', 'PVScalarArray': 'scalarArray', 'PVStructure': 'structure', 'PVStructureArray': 'structureArray', 'PVUnion': 'union_',
        'PVUnionArray': 'unionArray'}


def kind(v):
    t = ('kind', v)
    lin.setrange(t, 0, 99)
    return t


def ptrof(obj):
    return obj[1] if obj[0] == 'deref' else ('addr', obj)


def uncast(v):
    while v[0] == 'cast':
        v = v[2]
    return v


def selidx(k):
    t = ('selidx', k)
    lin.setrange(t, -1, None)
    return t


def lastbool(f):
    return bool(f.params) and str(f.vars[f.params[-1]].get('t')) == 'bool'


def go(p, f, S, NR=(), fix=None, budget=150000, enter=(), unroll=0):
    cl = Use(p, f, S, NR, enter)
    cl.unroll = unroll
    I = Interp(p, cl, budget)
    st = State()
    fr = I.frame(f, None, None, THIS if f.cls and not f.d.get('static') else None)
    I.root = fr.id
    for x, v in (fix or {}).items():
        st.mem[('var', fr.id, x)] = v
    return cl, I, I.run_fn(fr, st)


def noreturn(p, fns):
    """functions every path of which ends in a throw"""
    out = set()
    for f in fns:
        if str(f.d.get('rt')) == 'void' and len(f.blocks) < 8 and any(n['k'] == 'CXXThrowExpr' for n in f.nodes.values()):
            try:
                o = go(p, f, (), ())[2]
            except Budget:
                continue
            if o and all(k == 'throw' for k, s, v in o):
                out.add(f.usr)
    return out


def uses(p, f, S):
    return [e for b in f.blocks.values() for e in b['el'] if isinstance(e, int) and source(p, f.nodes[e], S)]


def sources(p, fns, NR):
    """the functions that can return null, by their own source, as a least fixpoint"""
    S, cand = set(), {}
    for f in fns:
        rt = str(f.d.get('rt'))
        if isptr(rt) and not rt.endswith('&'):
            cand[f.usr] = f, any(n['k'] == 'ReturnStmt' and n.get('o') and isnull(f, n['o'][0]) for n in f.nodes.values())
    tried = {}
    grew = True
    while grew:
        grew = False
        for u, (f, lit) in cand.items():
            us = [f.nodes[e].get('fn') for e in uses(p, f, S)]
            if u in S or not lit and not us or tried.get(u) == us:
                continue
            tried[u] = us
            cl, I, outs = go(p, f, S, NR)
            for kd, st, v in outs:
                if kd == 'ret' and v is not None:
                    if 'shared_ptr<' in str(f.d.get('rt')) and is_loc(v):
                        v = I.rd(st, v)
                    if cl.maynull(st, v):
                        S.add(u)
                        grew = True
                        break
    return S


def run(ctx):
    p = ctx.p
    fns = library(p)
    NR = noreturn(p, fns)
    S = sources(p, fns, NR)
    names = {p.fns[u].q for u in S}
    for q in ('PVStructure::getSubField', 'PVStructure::getSubFieldImpl', 'Structure::getField', 'Union::getField', 'FieldCreate::deserialize'):
        ctx.require(NS + q in names, '%s is not among the lookups that can return null' % q)
    users = [f for f in sorted(fns, key=lambda f: (f.file, f.l, f.qt)) if uses(p, f, S)]
    total = derefs = 0
    for f in users:
        cl, I, outs = run1(ctx, p, f, S, NR)
        if cl is None:
            continue
        ctx.seen(f)
        total += len(cl.forked)
        derefs += cl.derefs
        bad = cl.bad
        if bad and f.d.get('internal'):
            # a helper of one file: judged where it is called
            callers = [g for g in fns if g.usr != f.usr and any(n.get('fn') == f.usr for n in g.nodes.values())]
            if callers:
                bad = []
                for g in callers:
                    c2, I2, o2 = run1(ctx, p, g, S, NR, (f.usr,))
                    if c2 is not None:
                        bad += c2.bad
        at = {}
        for fr, nid in bad:
            at.setdefault((fr.fn.qt, fr.fn.nodes[nid].get('l')), (fr, nid))
        for (qt, l), (fr, nid) in sorted(at.items(), key=str):
            ctx.ob('use', '%s: null dereferenced' % f.qt, False, 'the null result of a failed lookup or conversion is dereferenced%s' % (
                '' if fr.fn.usr == f.usr else ' (the pointer comes from %s)' % f.qt), fr.fn, l)
        for u, nid in sorted(cl.forked, key=str):
            ctx.ob('use', '%s: lookup at %s' % (f.qt, p.fns[u].nodes[nid].get('l')))
    contract(ctx, p, fns, S, NR)
    ctx.info['counts'] = {'functions that can return null': len(S), 'functions using them': len(users), 'lookups and conversions forked': total, 'dereferences judged': derefs}
    ctx.require(len(users) >= 40 and total >= 70, 'too few uses of lookups found: %s' % ctx.info['counts'])
    ctx.assume.append('a union holds a value unless its selected index is -1 (C07, C15); the names of two lookups in one function are compared as literals')


def run1(ctx, p, f, S, NR, enter=(), fix=None):
    """loops at their invariant; and, for what an iteration leaves to the next, the first two iterations as they are"""
    try:
        r = go(p, f, S, NR, fix, enter=enter)
    except Budget:
        ctx.ob('use', '%s: analysed' % f.qt, None)
        return None, None, None
    if fix is None and len(f.blocks) > 4:
        try:
            r[0].bad += go(p, f, S, NR, fix, budget=60000, enter=enter, unroll=2)[0].bad
        except Budget:
            pass
    return r


def contract(ctx, p, fns, S, NR):
    """throwing and null-returning forms; what is found is what was asked for"""
    n = m = 0
    for f in fns:
        if not re.match(r'^epics::pvData::(PVStructure|Structure|Union)::(getSubField|getField|getFieldIndex)(T|Impl)?$', f.q) or not f.params:
            continue
        ix = 'Index' in f.n
        if not ix and not isptr(str(f.d.get('rt'))):
            continue
        t0 = str(f.vars[f.params[0]].get('t'))
        byname = 'string' in t0 or 'char' in t0
        if not byname and not any(source(p, x, S) for x in f.nodes.values()) and not f.n.endswith('Impl'):
            continue            # by position: vector::at
        if lastbool(f):
            forms = [(0, {f.params[-1]: C0}), (1, {f.params[-1]: ('c', 1)})]
        else:
            forms = [(int(f.n.endswith('T')), None)]
        for thr, fix in forms:
            cl, I, outs = run1(ctx, p, f, S, NR, fix=fix)
            if cl is None:
                continue
            n += 1
            ctx.seen(f)
            what = '%s %s' % (f.qt, 'throwing' if thr else 'null-returning')
            ends = []
            for kd, st, v in outs:
                if kd == 'ret':
                    v = I.rd(st, v) if 'shared_ptr<' in str(f.d.get('rt')) and is_loc(v) else v
                    null = v[0] == 'c' and v[1] in (-1, 2 ** 32 - 1, 2 ** 64 - 1) if ix else cl.maynull(st, v)
                    ends.append(('null' if null else 'found', st, v))
                else:
                    ends.append((kd, st, v))
            have = {k for k, _, _ in ends} | {'found' for _, _, v in ends if v and v[0] == 'look'}
            if thr:
                ctx.ob('contract', what + ': no null', 'null' not in have, '%s returns %s instead of throwing' % (f.n, '-1' if ix else 'null'), f)
                if lastbool(f) and not any(lastcall(p, x) for x in f.nodes.values() if x['k'].endswith('CallExpr')):
                    ctx.ob('contract', what + ': throws', 'throw' in have, '%s does not throw for a missing field' % f.n, f)
            else:
                # the offset form ends in an unreachable logic_error when the numbering is not contiguous
                th = [x for x in cl.thrown if 'logic_error' not in str(x[2])]
                ctx.ob('contract', what + ': no throw', not th, '%s throws for a missing field instead of returning null' % f.n, f, th[0][0].nodes[th[0][1]].get('l') if th else None)
                ctx.ob('contract', what + ': null', 'null' in have, '%s never reports a missing field' % f.n, f)
            ctx.ob('contract', what + ': finds', 'found' in have, '%s never finds a field' % f.n, f)
            if cl.forked and not f.n.endswith('Impl') or any(source(p, x, S) or lastcall(p, x) for x in f.nodes.values() if x['k'].endswith('CallExpr')):
                if not (f.n.endswith('Impl') and '.cpp' in f.file):
                    continue    # forwards to a form judged itself
            for k, st, v in ends:
                if k == 'found':
                    m += 1
                    why = match(I, st, v, ('var', I.root, f.params[0]), byname)
                    ctx.ob('match', what, why is None, why, f)
    ctx.require(n >= 30 and m >= 8, 'the lookups have changed: %d forms, %d finds' % (n, m))


def lastcall(p, n):
    g = p.fns.get(n.get('fn'))
    return bool(g) and g.n.endswith('Impl') and lastbool(g)


def elem(v):
    while v[0] in ('addr', 'deref', 'init', 'cast', 'dyn') and len(v) > 1:
        v = v[2] if v[0] in ('cast', 'dyn') else v[1]
    return v[2] if v[0] == 'idx' else v


def match(I, st, v, arg, byname):
    """why the field found need not be the one asked for, or None"""
    e = elem(v)
    has = lambda t, x: lin.mentions(t, lambda y: y == x)
    zero = lambda t: lin.entails(st.facts, t) and lin.entails(st.facts, lin.scale(t, -1))
    if not byname:
        for k, f in st.facts.items():
            if f[0] == 0 and f[1] == 0 and has(k, e) and has(k, arg):
                return None
        return 'a field is returned although its offset was not found equal to the one asked for'
    raw = []
    for k, f in st.facts.items():
        if not (has(k, e) and has(k, arg)):
            continue
        if k[0] == 'streq' and f[0] == 1 or k[0] == 'strcmp' and f[0] == 0 and f[1] == 0:
            return None
        if k[0] == 'call' and f[0] == 0 and f[1] == 0:
            if k[1] in ('memcmp', 'strncmp', 'std::memcmp', 'std::strncmp'):
                raw.append(k)
            else:
                return None
    if not raw:
        return 'a field is returned although its name was not found equal to the name asked for'
    lens = set()
    for k in st.facts:
        for y in atoms(k):
            if y[0] == 'strlen' and has(y, e):
                lens.add(y)
    for k in raw:
        start, L = k[2], k[4]
        if has(k[3], arg) and not has(start, arg):
            start = k[3]
        if not any(zero(lin.sub(L, y)) for y in lens):
            return 'a field is returned although only a part of its name was compared'
        for q, f in st.facts.items():
            if f[0] == 0 and f[1] == 0 and q[0] == 'init' and q[1][0] == 'deref' and zero(lin.sub(q[1][1], lin.add(start, L))):
                return None
    return 'a field is returned although the name asked for goes on'


def atoms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            for y in atoms(x):
                yield y
