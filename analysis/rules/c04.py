"""Type descriptions on the wire.

serialize() of every kind of description (every scalar type, array variant, structures and unions with and without an id and with 0 to 2
members) is interpreted, giving the sequence of items written; FieldCreate::deserialize() is then interpreted on that sequence and has to
read the items in the same order and form and to return an object of the same class with equal attributes. Every byte no description
starts with is given to it too, and the bytes that do with members of every wrong kind: it must end in an error."""
from pv import lin, models
from pv.lin import c
from pv.interp import Interp, State, strip_t
from rules import objs
from rules.objs import NS, C0, C1, World, ObjClient, setvec, bare
from rules.c09 import Builder, FIELD, NOT_ATTR

SCALARS = list(objs.ELEM)


class T(ObjClient):
    unroll = 14
    max_depth = 14
    skip_names = True

    def __init__(self, w):
        ObjClient.__init__(self, w)
        self.script = None
        self.first = None
        self.children = []

    # ---- objects made on the way
    def cls_of(self, I, o):
        if o in self.w.cls:
            return self.w.cls[o]
        if o[0] == 'new':
            f = next((x.fn for x in I.frames.values() if x.id == o[1]), None)
            if f is not None:
                t = bare(f.nodes[o[2]]['t'])
                return t if t in self.w.p.rec_qt else None
        return None

    def obj(self, v):
        return v[1] if v[0] == 'addr' and v[1] in self.w.cls else None

    def on_cast(self, I, st, fr, nid, n, v):
        if v[0] == 'addr' and v[1][0] == 'new' and v[1] not in self.w.cls:
            t = self.cls_of(I, v[1])
            if t:
                self.w.cls[v[1]] = t
        ObjClient.on_cast(self, I, st, fr, nid, n, v)

    def dyncast(self, I, st, fr, nid, n, v, t):
        if v[0] == 'addr' and v[1][0] == 'new' and v[1] not in self.w.cls:
            k = self.cls_of(I, v[1])
            if k:
                self.w.cls[v[1]] = k
        return ObjClient.dyncast(self, I, st, fr, nid, n, v, t)

    def wrote(self, st, item):
        st.mem[('gh', 'tr')] = st.mem.get(('gh', 'tr'), ()) + (item,)

    def take(self, I, st, fr, nid, kind):
        """the next item to read -> outcomes' values, or None if it does not match"""
        pos = st.mem.get(('gh', 'pos'), C0)[1]
        st.mem[('gh', 'pos')] = c(pos + 1)
        if self.script is None:
            return [('rd', kind, pos)]
        ok = pos < len(self.script) and self.script[pos][0] == kind
        I.oblige('layout', fr, nid, 'item %d: %s' % (pos, kind), ok, 'a %s is read where the writer puts %s' % (
            kind, 'a ' + self.script[pos][0] if pos < len(self.script) else 'nothing more'))
        return [self.script[pos][1]] if ok else []

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        fq = strip_t(n.get('fq') or '')
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        out = lambda v, s=st: models.ret(I, s, fr, nid, n, v)
        if nm in ('ensureBuffer', 'ensureData', 'alignBuffer', 'alignData', 'flushSerializeBuffer'):
            return [('ret', st, C0)]
        if nm.startswith('put') and 'ByteBuffer' in fq:
            self.wrote(st, (nm.replace('put', '').lower() or 'byte', val(0)))
            return [('ret', st, C0)]
        if nm == 'writeSize':
            self.wrote(st, ('size', val(0)))
            return [('ret', st, C0)]
        if nm == 'serializeString':
            self.wrote(st, ('string', val(0)))
            return [('ret', st, C0)]
        if nm == 'cachedSerialize':
            self.wrote(st, ('field', val(0)))
            return [('ret', st, C0)]
        if nm.startswith('get') and 'ByteBuffer' in fq and nm in ('getByte', 'getShort', 'getInt', 'getLong'):
            if nm == 'getByte' and self.script is None and st.mem.get(('gh', 'pos')) is None:
                st.mem[('gh', 'pos')] = C0
                return out(c(self.first))
            r = self.take(I, st, fr, nid, nm[3:].lower())
            return [o for v in r for o in out(v)]
        if nm == 'readSize':
            if self.script is None:
                outs = []
                for v in self.sizes:
                    s = st.fork()
                    self.take(I, s, fr, nid, 'size')
                    outs += out(c(v), s)
                return outs
            return [o for v in self.take(I, st, fr, nid, 'size') for o in out(v)]
        if nm == 'deserializeString':
            if self.script is None:
                pos = st.mem.get(('gh', 'pos'), C0)[1]
                st.mem[('gh', 'pos')] = c(pos + 1)
                return out(('str', 'n%d' % pos))
            return [o for v in self.take(I, st, fr, nid, 'string') for o in out(v)]
        if nm == 'cachedDeserialize':
            if self.script is None:
                outs = []
                for v in self.children:
                    s = st.fork()
                    self.take(I, s, fr, nid, 'field')
                    s.mem[('gh', 'children')] = s.mem.get(('gh', 'children'), ()) + (v,)
                    outs += out(v, s)
                return outs
            return [o for v in self.take(I, st, fr, nid, 'field') for o in out(v)]
        if nm == 'reserve':
            return [('ret', st, C0)]
        if nm == 'cache' and len(args) == 2:
            return [('ret', st, C0)]           # C07
        if self.skip_names and nm in ('validateFieldName', 'validateFieldNames'):
            return [('ret', st, C0)]           # C08
        if nm == 'registerRefCounter' or 'atomic' in nm:
            return [('ret', st, C0)]
        if nm == 'push_back' and args:
            v = val(0)
            if v[0] == 'addr' and v[1][0] == 'new':
                L = ('cb', 'made', len(self.w.cls))
                self.w.cls[L] = self.cls_of(I, v[1])
                I.copy_obj(st, v[1], L)
                v = ('addr', L)
            z = ('fld', obj, '#n')
            k = I.rd(st, z)
            if k[0] == 'c':
                if not scalar(fr.fn.nodes[args[0][0]]) and v[0] not in ('addr', 'str', 'c', 'rd', 'init'):
                    return None
                st.mem[('idx', obj, k)] = v
                st.mem[z] = c(k[1] + 1)
                return [('ret', st, C0)]
        return ObjClient.pre_call(self, I, st, fr, nid, n, a)


def scalar(n):
    return not n.get('c')


def describe(w, st, B, name, cls, k, s=None, bound=None, id_=None):
    """a description with concrete attributes"""
    L = B.field(w, st, name, cls, k, ())
    for f in w.fields(NS + cls):
        q, t = f['q'], f['t']
        loc = ('fld', L, q)
        if q in NOT_ATTR:
            continue
        if t.startswith('std::vector<') and 'basic_string' in t:
            setvec(st, loc, [('str', 'm%d' % i) for i in range(k)])
        elif 'basic_string' in t:
            st.mem[loc] = ('str', id_ or 'some id')
        elif 'ScalarType' in t and s is not None:
            st.mem[loc] = c(w.scalars[s])
        elif 'shared_ptr' not in t and not t.startswith('std::vector<') and bound is not None:
            st.mem[loc] = c(bound)
    return L


def content(w, I, st, cls, L):
    """attributes of a description as comparable values"""
    out = {}
    for f in w.fields(cls):
        q, t = f['q'], f['t']
        if q == NOT_ATTR[1]:
            continue
        loc = ('fld', L, q)
        if t.startswith('std::vector<'):
            z = st.mem.get(('fld', loc, '#n'))
            out[q] = tuple(I.rd(st, ('idx', loc, c(i))) for i in range(z[1])) if z is not None and z[0] == 'c' else ('?', z)
        else:
            out[q] = I.rd(st, loc)
    return out


def statics(ctx, p, I, st):
    """string constants of the library initialised by a function"""
    for u, g in p.globs.items():
        if not g.get('q', '').startswith(NS) or 'basic_string' not in g['t'] or '[' in g['t']:
            continue
        nodes = g.get('nodes') or {}
        nd = lambda i: nodes.get(str(i), nodes.get(i))
        v = None
        for n in nodes.values():
            if n['k'] == 'CallExpr' and p.fns.get(n.get('fn')) is not None and not p.fns[n['fn']].params:
                f = p.fns[n['fn']]
                for k, s, r in I.run_fn(I.frame(f, None, None, None), State()):
                    if k == 'ret':
                        v = I.rd(s, r) if r[0] in ('glob', 'var', 'tmp') else (I.rd(s, r[1]) if r[0] == 'addr' else None)
                        for kk, vv in s.mem.items():
                            if kk[0] == 'glob':
                                st.mem[kk] = vv
            elif n['k'] == 'StringLiteral' and v is None:
                v = ('str', n['str'])
        if v is not None and v[0] == 'str':
            st.mem[('glob', u)] = v


def cases(w):
    for s in SCALARS:
        yield 'Scalar', dict(k=0, s=s)
        yield 'ScalarArray', dict(k=0, s=s)
        for cls in ('BoundedScalarArray', 'FixedScalarArray'):
            yield cls, dict(k=0, s=s, bound=7)
    yield 'BoundedString', dict(k=0, s='pvString', bound=7)
    for k in (0, 1, 2):
        for i in ('structure', 'union', 'any', 'some id'):
            yield 'Structure', dict(k=k, id_=i)
    for k in (1, 2):
        for i in ('union', 'structure', 'any', 'some id'):
            yield 'Union', dict(k=k, id_=i)
    yield 'Union', dict(k=0, id_='any')
    yield 'StructureArray', dict(k=0)
    yield 'UnionArray', dict(k=0, variant=False)
    yield 'UnionArray', dict(k=0, variant=True)


def factory(ctx, w, T):
    """the factory of descriptions as its constructor leaves it"""
    p = ctx.p
    FC = w.add('factory', NS + 'FieldCreate')
    base = State()
    cl = T(w)
    I = Interp(p, cl, 2000000)
    statics(ctx, p, I, base)
    ctor = [f for f in p.fns.values() if f.cls == NS + 'FieldCreate' and f.d.get('ctor') and not f.params and f.blocks]
    ctx.require(len(ctor) == 1, 'constructor of FieldCreate not found')
    # members of the factory start empty
    for f in w.fields(NS + 'FieldCreate'):
        if f['t'].startswith('std::vector<'):
            setvec(base, ('fld', FC, f['q']), [])
    outs = [(s, v) for k, s, v in I.run_fn(I.frame(ctor[0], None, None, FC), base.fork()) if k == 'ret']
    ctx.require(len(outs) == 1, 'the factory could not be interpreted (%d outcomes)' % len(outs))
    ctx.seen(ctor[0])
    base = State()
    base.facts = outs[0][0].facts
    for k, v in outs[0][0].mem.items():
        L = k
        while L[0] in ('idx', 'fld'):
            L = L[1]
        if L[0] in ('glob', 'cb', 'new'):
            base.mem[k] = v
    return cl, I, FC, base


def run(ctx):
    p = ctx.p
    w = World(p)
    B = Builder(p)
    fdes = [f for f in p.by_q.get(NS + 'FieldCreate::deserialize', []) if f.blocks]
    ctx.require(len(fdes) == 1, 'FieldCreate::deserialize not found')
    fdes = fdes[0]
    ser = next((m['usr'] for r in w.anc(NS + 'Field') for m in r['methods'] if m['n'] == 'serialize'), None)
    ctx.require(ser is not None, 'serialize() of descriptions not found')
    cl, I, FC, base = factory(ctx, w, T)
    pool = {n: ('addr', w.add('child ' + n, NS + n, opaque=True)) for n in ('Scalar', 'ScalarArray', 'Structure', 'StructureArray', 'Union', 'UnionArray', 'BoundedString')}
    emitted = {}
    for cls, kw in cases(w):
        st = base.fork()
        variant = kw.get('variant')
        name = '%s %s' % (cls, ' '.join(str(v) for k, v in sorted(kw.items()) if k not in ('k',) or cls in ('Structure', 'Union')))
        L = describe(w, st, B, name, cls, kw['k'], kw.get('s'), kw.get('bound'), kw.get('id_'))
        el = None
        for f in w.fields(NS + cls):
            if 'shared_ptr<' in f['t'] and not f['t'].startswith('std::vector') and bare(f['t']) in (NS + 'Structure', NS + 'Union'):
                el = bare(f['t']).replace(NS, '')
                if variant:
                    V = describe(w, st, B, 'variant element', 'Union', 0, None, None, 'any')
                    el = ('addr', V)
                elif el == 'Union':
                    el = ('addr', describe(w, st, B, 'element', 'Union', 1, None, None, 'u'))
                else:
                    el = pool['Structure']
                st.mem[('fld', L, f['q'])] = el
        f = w.method(NS + cls, ser)
        ctx.require(f is not None and f.blocks, 'serialize of %s not found' % cls)
        ctx.seen(f)
        want = content(w, I, st, NS + cls, L)
        n = 0
        for k, s, v in I.run_fn(I.frame(f, None, None, L), st):
            tr = s.mem.get(('gh', 'tr'), ())
            ok = k == 'ret' and tr and tr[0][0] == 'byte' and tr[0][1][0] == 'c'
            ctx.ob('code', name, ok, 'the description of %s does not start with a code of its own' % name, f)
            if not ok:
                continue
            n += 1
            b = tr[0][1][1]
            b = b - 256 if b > 127 else b
            tr = (('byte', c(b)),) + tr[1:]
            emitted.setdefault(b & 255, set()).add(name)
            read(ctx, p, w, cl, I, fdes, FC, base, st, s, name, cls, tr, want, variant)
        ctx.ob('writer', name, True if n else None)
    ctx.info['codes'] = sorted('%02x' % b for b in emitted)
    ctx.info['descriptions'] = sum(len(x) for x in emitted.values())
    # what no description is written as
    cl.script = None
    for b in range(256):
        cl.first = b - 256 if b > 127 else b
        cl.sizes = (0, 1, 2)
        cl.children = [C0] + [pool[k] for k in sorted(pool)]
        st = base.fork()
        st.mem.pop(('gh', 'pos'), None)
        fr = I.frame(fdes, None, None, FC)
        outs = I.run_fn(fr, st)
        what = 'code %02x' % b
        for k, s, v in outs:
            if b == 0xff:
                ctx.ob('null', what, k == 'ret' and value(I, s, v) == C0, 'the code for no description is not read as none', fdes)
            elif b not in emitted:
                ctx.ob('reserved', what, k == 'throw', 'the code %02x, which nothing is written as, is read as a description' % b, fdes)
            elif k == 'ret':
                ch = s.mem.get(('gh', 'children'), ())
                ctx.ob('missing', what, C0 not in ch, 'a description (code %02x) with a missing part is accepted' % b, fdes)
                V = value(I, s, v)
                ctx.ob('missing', what, V != C0, 'code %02x is read as no description' % b, fdes)
                if b in (0x88, 0x89):
                    want = NS + ('Structure' if b == 0x88 else 'Union')
                    ctx.ob('element', what, all(x[0] == 'addr' and w.isa(w.cls[x[1]], want) for x in ch), 'an array of %s is made of another kind' % want.split('::')[-1], fdes)
        ctx.ob('outcome', what, True if outs else None)
    ctx.seen(fdes)
    ctx.absorb(I)


def value(I, s, v):
    return I.rd(s, v) if v[0] in ('tmp', 'var', 'fld', 'glob', 'idx') else v


def read(ctx, p, w, cl, I, fdes, FC, base, st0, st, name, cls, tr, want, variant):
    cl.script = tr
    st = st0.fork()
    st.mem.pop(('gh', 'tr'), None)
    st.mem[('gh', 'pos')] = C0
    outs = I.run_fn(I.frame(fdes, None, None, FC), st)
    n = 0
    for k, s, v in outs:
        if k == 'throw':
            ctx.ob('decodes', name, False, 'a description of %s is refused by the decoder: %s' % (name, v), fdes)
            continue
        n += 1
        pos = s.mem.get(('gh', 'pos'), C0)[1]
        ctx.ob('layout', name, pos == len(tr), 'the decoder reads %d of the %d items %s is written as' % (pos, len(tr), name), fdes)
        V = value(I, s, v)
        o = V[1] if V[0] == 'addr' else None
        k2 = cl.cls_of(I, o) if o else None
        ctx.ob('class', name, k2 == NS + cls, '%s is decoded as %s' % (name, (k2 or str(V)).replace(NS, '')), fdes)
        if k2 == NS + cls:
            got = content(w, I, s, NS + cls, o)
            for q in want:
                if variant and q.endswith('::punion'):
                    g = got[q]
                    kk = content(w, I, s, NS + 'Union', g[1]) if g[0] == 'addr' else {}
                    ctx.ob('same', name, kk.get(NS + 'Union::fields') == (), '%s is decoded with a union of other members' % name, fdes)
                    continue
                ctx.ob('same', name, same(I, s, want[q], got[q]), '%s is decoded with another %s' % (name, q.split('::')[-1]), fdes)
    ctx.ob('decodes', name, True if n else None)
    cl.script = None


def same(I, s, a, b):
    if a == b:
        return True
    if a[:1] == ('c',) and b[:1] == ('c',):
        return False
    if a and isinstance(a[0], tuple) or b and isinstance(b[0], tuple) or not a or not b:
        return len(a) == len(b) and all(same(I, s, x, y) is True for x, y in zip(a, b))
    return None if a[0] == 'hv' or b[0] == 'hv' else False
