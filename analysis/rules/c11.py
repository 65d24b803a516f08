"""Ownership typestate of array storage, by abstract interpretation of shared_vector plus type-level witnesses.

Every write to element storage made by shared_vector itself, and every place that turns read-only element storage into
mutable storage, happens where the storage was just allocated or is known to have one owner on that path; freezing succeeds
only for a sole owner and takes the storage away from the mutable vector; thawing and making unique end with a sole owner;
the growing operations end with storage that no other vector shares; and the type system refuses every other way from a
read-only vector to a mutable one (witness programs that must not compile, next to twins that must)."""
from pv import lin, witness
from pv.lin import c, add, sub, scale
from pv.interp import Interp, State, strip_t, Budget
from .svec import *


class C(SvClient):
    def sole(self, I, st, v):
        """the storage behind pointer v has one owner (True), maybe not (False), unrecognised (None)"""
        if v == C0:
            return True
        if v[0] == 'addr':
            L = v[1][1] if v[1][0] == 'idx' else v[1]
            return True if L[0] == 'new' else None
        ps = [v] if v in self.ptrs else [a for a, k in lin.parts(v)[1].items() if a in self.ptrs]
        if len(ps) != 1:
            ps = [a for a in lin.parts(v)[1] if a[0] == 'init' and a[1][0] == 'fld']
            if len(ps) != 1:
                return None
        if I.truth(st, I.compare(st, ps[0], C0, '==')) is True:
            return True
        u = ('usecount', ps[0])
        lin.setrange(u, 0, None)
        return bool(I.ge0(st, sub(c(1), u)))

    def check(self, I, st, fr, nid, v, what):
        s = self.sole(I, st, v)
        if s is not None:
            I.oblige('write-needs-sole-owner', fr, nid, what, s, '%s although other vectors may share the storage' % what)

    def on_write(self, I, st, fr, nid, loc, val):
        if loc[0] == 'deref' and nid is not None:
            self.check(I, st, fr, nid, loc[1], 'an element is written')

    def pre_call(self, I, st, fr, nid, n, a):
        q = strip_t(n.get('fq') or '')
        if q in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'std::transform', 'memcpy', 'memmove') and a[1]:
            x = [I.aval(st, fr, y) for y in a[1]]
            dst = {'std::copy': 2, 'std::copy_n': 2, 'std::transform': 2}.get(q, 0)
            self.check(I, st, fr, nid, x[dst], 'elements are written by %s' % q)
            self.ncopy = getattr(self, 'ncopy', 0) + 1
        if q == 'std::const_pointer_cast' and not n.get('targs', ['const '])[0].startswith('const '):
            v = I.rd(st, a[1][0][1])
            s = self.sole(I, st, v)
            I.oblige('const-removed', fr, nid, 'const_pointer_cast', s if s is not None else None,
                     'read-only storage becomes mutable although other vectors may share it')
        return SvClient.pre_call(self, I, st, fr, nid, n, a)


PRE = '#include <pv/sharedVector.h>\n#include <pv/pvData.h>\nusing namespace epics::pvData;\n'
WIT = [
    # (name, must compile, body)
    ('mutable copy of a mutable vector', True, 'void f(shared_vector<int32>& a){ shared_vector<int32> b(a); b = a; }'),
    ('read-only vector converted to mutable', False, 'void f(shared_vector<const int32>& a){ shared_vector<int32> b(a); }'),
    ('read-only vector assigned to mutable', False, 'void f(shared_vector<const int32>& a){ shared_vector<int32> b; b = a; }'),
    ('mutable vector converted to read-only without freeze', False, 'void f(shared_vector<int32>& a){ shared_vector<const int32> b(a); }'),
    ('mutable vector assigned to read-only without freeze', False, 'void f(shared_vector<int32>& a){ shared_vector<const int32> b; b = a; }'),
    ('freeze and thaw', True, 'void f(shared_vector<int32>& a){ shared_vector<const int32> b(freeze(a)); a = thaw(b); }'),
    ('element of a mutable vector written', True, 'void f(shared_vector<int32>& a){ a[0] = 1; *a.begin() = 2; a.at(0) = 3; a.front() = 4; *a.data() = 5; }'),
    ('element of a read-only vector written by index', False, 'void f(shared_vector<const int32>& a){ a[0] = 1; }'),
    ('element of a read-only vector written by iterator', False, 'void f(shared_vector<const int32>& a){ *a.begin() = 1; }'),
    ('element of a read-only vector written by at', False, 'void f(shared_vector<const int32>& a){ a.at(0) = 1; }'),
    ('element of a read-only vector written by front', False, 'void f(shared_vector<const int32>& a){ a.front() = 1; }'),
    ('element of a read-only vector written by back', False, 'void f(shared_vector<const int32>& a){ a.back() = 1; }'),
    ('element of a read-only vector written by data', False, 'void f(shared_vector<const int32>& a){ *a.data() = 1; }'),
    ('element of a read-only vector appended', False, 'void f(shared_vector<const int32>& a){ a.push_back(1); }'),
    ('untyped cast keeps const', True, 'void f(shared_vector<const void>& a){ shared_vector<const int32> b(static_shared_vector_cast<const int32>(a)); }'),
    ('untyped cast drops const', False, 'void f(shared_vector<const void>& a){ shared_vector<int32> b(static_shared_vector_cast<int32>(a)); }'),
    ('untyped cast adds const', False, 'void f(shared_vector<void>& a){ shared_vector<const int32> b(static_shared_vector_cast<const int32>(a)); }'),
    ('cast to untyped drops const', False, 'void f(shared_vector<const int32>& a){ shared_vector<void> b(static_shared_vector_cast<void>(a)); }'),
    ('thaw of a const read-only vector', False, 'void f(const shared_vector<const int32>& a){ shared_vector<int32> b(thaw(a)); }'),
    ('storage pointer of a read-only vector is read-only', False, 'void f(shared_vector<const int32>& a){ std::shared_ptr<int32> b(a.dataPtr()); }'),
    ('array field value view is read-only', False, 'void f(PVIntArray& a){ a.view()[0] = 1; }'),
    ('array field value view', True, 'int f(PVIntArray& a){ return a.view()[0]; }'),
    ('array field value replaced by read-only', True, 'void f(PVIntArray& a, shared_vector<const int32>& b){ a.replace(b); }'),
    ('array field value replaced by mutable', False, 'void f(PVIntArray& a, shared_vector<int32>& b){ a.replace(b); }'),
]


def storage(p, f, nid, depth=0, seen=()):
    """the type of the read-only array storage the pointer expression nid is taken from, or None"""
    n = f.nodes[nid]
    if depth > 12 or nid in seen:
        return None
    if n.get('cls', '').startswith((SV + '<', BASE + '<')) and n.get('mn', n.get('fname', '')) in ('data', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'at',
                                                                                                  'operator[]', 'dataPtr'):
        return n['cls'] if 'vector<const ' in n['cls'] or '_base<const ' in n['cls'] else None
    if n['k'] == 'DeclRefExpr' and n.get('v') in f.vars and f.vars[n['v']]['k'] == 'local':
        for m in f.nodes.values():
            if m['k'] == 'DeclStmt':
                for d in m.get('decls', []):
                    if d['v'] == n['v'] and d.get('init') is not None:
                        return storage(p, f, d['init'], depth + 1, seen + (nid,))
        return None
    for x in n.get('o', []):
        r = storage(p, f, x, depth + 1, seen + (nid,))
        if r:
            return r
    return None


def run(ctx):
    p = ctx.p
    ms = [f for f in p.fns.values() if f.cls and f.blocks and f.cls.startswith((SV + '<', BASE + '<')) and not f.n.startswith('~')
          and not f.d.get('static')]
    tag = lambda f: ''.join(f.vars[v]['t'] for v in f.params)
    fz = [f for f in ms if 'freeze_tag' in tag(f)]
    th = [f for f in ms if 'thaw_tag' in tag(f)]
    ctx.require(len(fz) >= 10 and len(th) >= 10, 'freezing and thawing constructors not found')
    for f in sorted(ms, key=lambda f: (f.l, f.qt)):
        this = Obj(p, f.cls, THIS)
        if this.esz is None and this.elem != 'void' or f.n == '_null_input':
            continue
        cl = C()
        cl.esz = this.esz
        I = Interp(p, cl, budget=60000)
        fr = I.frame(f, None, None, THIS)
        st = State()
        objs = [] if 'ctor' in f.d else [('this', this)]
        for v in f.params:
            V = f.vars[v]
            t = V['t'].replace(' &&', '').replace(' &', '').strip()
            if t.startswith('const epics'):
                t = t[6:]
            if t.startswith((SV + '<', BASE + '<')):
                try:
                    objs.append((V['n'], Obj(p, t, I.deref(('init', ('var', fr.id, v))) if V.get('ref') else ('var', fr.id, v))))
                except KeyError:
                    pass
        cl.ptrs = {('init', o.ptr) for nm, o in objs}
        for nm, o in objs:
            o.start(I, st)
        ctx.seen(f)
        name = '%s(%s)' % (f.qt, ', '.join(f.vars[v]['t'] for v in f.params))
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            ctx.ob('ownership', name, None)
            continue
        ctx.absorb(I)
        for k, s, v in outs:
            src = objs[-1][1] if objs else None
            if f in fz or f in th:
                what = 'freeze' if f in fz else 'thaw'
                if k == 'throw':
                    if what == 'freeze':
                        ctx.ob('refused-unchanged', name, all(I.rd(s, x) == ('init', x) for x in src.all),
                               'a refused freeze() has changed the vector', f)
                    continue
                pv = I.rd(s, this.ptr)
                ctx.ob(what + '-sole-owner', name, cl.sole(I, s, pv) is True,
                       '%s() yields storage that other vectors may share' % what, f)
                ctx.ob(what + '-takes-away', name, I.rd(s, src.ptr) == C0 and I.rd(s, src.cnt) == C0,
                       '%s() leaves the storage reachable through its source' % what, f)
                ctx.ob(what + '-keeps-elements', name, I.truth(s, I.compare(s, I.rd(s, this.cnt), ('init', src.cnt), '==')) is not False,
                       '%s() changes the number of elements' % what, f)
                if what == 'freeze':
                    ctx.ob('freeze-keeps-storage', name, pv == ('init', src.ptr) or pv == C0, 'freeze() does not hand over the storage', f)
            elif f.n in ('make_unique', 'reserve', 'resize', 'push_back') and k == 'ret':
                ctx.ob('ends-unshared', name, cl.sole(I, s, I.rd(s, this.ptr)) is True,
                       '%s() can end with storage that other vectors share' % f.n, f)
            elif f.n == 'unique' and k == 'ret':
                t = I.truth(s, v)
                o = cl.sole(I, s, ('init', this.ptr))
                # unique() true only when at most one owner
                for val in (True, False):
                    s2 = s.fork()
                    if (t is None or t == val) and I.assume(s2, v, val):
                        u = ('usecount', ('init', this.ptr))
                        good = cl.sole(I, s2, ('init', this.ptr)) is True if val else bool(I.ge0(s2, sub(u, c(2))))
                        ctx.ob('unique-means-sole', '%s %s' % (name, val), good, 'unique() is %s for %s' % (
                            val, 'shared storage' if val else 'storage with one owner'), f)
    # casts that drop const from a pointer taken from array storage, anywhere in the library
    k = 0
    for f in p.fns.values():
        for nid, n in f.nodes.items():
            if n['k'] in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr') and n.get('o') and n['t'].endswith('*') \
                    and not f.file.endswith('sharedVector.h'):
                t = n['t']
                src = storage(p, f, n['o'][0])
                if src:
                    k += 1
                    ctx.ob('const-removed', '%s %s' % (f.qt, n['l']), t.startswith('const '),
                           'const is cast away from %s' % src, f, n['l'])
            if n.get('fname') == 'const_pointer_cast' and not f.file.endswith(('sharedVector.h', 'debugPtr.h')) and n['k'] == 'CallExpr':
                t = n.get('targs', ['?'])[0]
                k += 1
                if p.rec_qt.get(t) is None:
                    ctx.ob('const-removed', '%s %s' % (f.qt, n['l']), t.startswith('const '), 'const is cast away from shared %s' % t, f, n['l'])
    ctx.info['const_casts'] = k
    res = witness.compile_all([(w[0], PRE + w[2]) for w in WIT])
    for nm, want, src in WIT:
        ok, err = res[nm]
        if want and not ok:
            ctx.require(False, 'witness twin does not compile: %s: %s' % (nm, err))
        ctx.ob('type-level', nm, ok == want, 'a program compiles that must not: %s' % nm, loc='misc/pv/sharedVector.h')
    ctx.assume += ['elements of a mutable vector that was not frozen may be shared between mutable vectors (documented)',
                   'weak pointers to array storage are not used']
