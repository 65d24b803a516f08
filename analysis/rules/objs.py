"""Exact object worlds: a few field descriptions and data fields of known dynamic class, laid out member by member, on which library
functions are interpreted with virtual calls, checked conversions and casts decided by the class of the object."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t, scalarlike
from rules import svec

NS = 'epics::pvData::'
C0, C1 = c(0), c(1)
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
# element type of each scalar type
ELEM = {'pvBoolean': 'char', 'pvByte': 'signed char', 'pvShort': 'short', 'pvInt': 'int', 'pvLong': 'long', 'pvUByte': 'unsigned char',
        'pvUShort': 'unsigned short', 'pvUInt': 'unsigned int', 'pvULong': 'unsigned long', 'pvFloat': 'float', 'pvDouble': 'double',
        'pvString': STR}


def bare(t):
    """the class behind references, pointers, shared pointers and const"""
    t = t.strip()
    while True:
        u = t
        for p in ('const ', 'class ', 'struct '):
            if t.startswith(p):
                t = t[len(p):]
        while t.endswith(('*', '&', ' ')) or t.endswith('const'):
            t = t[:-5] if t.endswith('const') else t[:-1]
        t = t.strip()
        if t.startswith(('std::shared_ptr<', 'std::__shared_ptr<')) and t.endswith('>'):
            t = t[t.index('<') + 1:-1]
        if t == u:
            return t


class World(object):
    def __init__(self, p):
        self.p = p
        self.cls = {}          # object -> class (qt)
        self.opaque = set()
        self._anc = {}
        self.types = dict(p.enum_vals(NS + 'Type'))
        self.scalars = dict(p.enum_vals(NS + 'ScalarType'))

    def fork(self):
        w = World.__new__(World)
        w.__dict__.update(self.__dict__)
        w.cls, w.opaque = dict(self.cls), set(self.opaque)
        return w

    def anc(self, qt):
        """the class and all its bases, nearest first"""
        if qt not in self._anc:
            out, todo = [], [qt]
            while todo:
                x = todo.pop(0)
                r = self.p.rec_qt.get(x)
                if r is None or r in out:
                    continue
                out.append(r)
                todo += [bare(b['t']) for b in r['bases']]
            self._anc[qt] = out
        return self._anc[qt]

    def isa(self, qt, base):
        base = bare(base)
        return any(r['qt'] == base for r in self.anc(qt))

    def method(self, qt, usr):
        """the function a virtual call of usr on an object of class qt reaches"""
        cl = self.p.overriders(usr)
        # usr itself may override something further up; what is called may also be inherited
        for r in self.anc(qt):
            for m in r['methods']:
                if m['usr'] in cl:
                    return self.p.fns.get(m['usr'])
        return None

    def add(self, name, qt, opaque=False):
        o = name if isinstance(name, tuple) else ('cb', name)
        self.cls[o] = qt
        if opaque:
            self.opaque.add(o)
        return o

    def fields(self, qt):
        """data members, own bases of the library included"""
        for r in reversed(self.anc(qt)):
            for f in r['fields']:
                if not f.get('static'):
                    yield f


def tname(t):
    return t


class ObjClient(Client):
    """inlines library functions; objects of the world have a known class"""
    unroll = 6
    cap = 100000
    max_depth = 12

    def __init__(self, w):
        self.w = w
        self.casts = 0

    def obj(self, v):
        """the object a pointer value points at, or None"""
        if v[0] == 'addr' and v[1] in self.w.cls:
            return v[1]
        return None

    def inline(self, I, fn, fr):
        return fn.q.startswith('epics::') or (fn.cls or '').startswith('epics::') or '(anonymous' in fn.q

    def devirt(self, I, st, fr, nid, n, loc):
        if loc in self.w.cls:
            f = self.w.method(self.w.cls[loc], n['fn'])
            if f is not None and f.blocks and fr.depth < self.max_depth and self.inline(I, f, fr):
                return f
        return None

    def on_cast(self, I, st, fr, nid, n, v):
        o = self.obj(v)
        if n.get('ck') == 'Dynamic':
            return
        t = n.get('t') if n.get('ck') else (n.get('targs') or [n.get('t')])[0]
        if o is not None:
            self.casts += 1
            self.kind(I, st, fr, nid, o, bare(t))

    def kind(self, I, st, fr, nid, o, t):
        if t in self.w.p.rec_qt:
            I.oblige('kind', fr, nid, 'cast to ' + t.split('::')[-1], self.w.isa(self.w.cls[o], t),
                     'an object of class %s is treated as %s' % (self.w.cls[o].replace(NS, ''), t.replace(NS, '')))

    def dyncast(self, I, st, fr, nid, n, v, t):
        o = self.obj(v)
        if o is None or o in self.w.opaque and False:
            return None
        t = bare(t)
        if t not in self.w.p.rec_qt:
            return None
        return v if self.w.isa(self.w.cls[o], t) else C0

    def on_deref(self, I, st, fr, nid, v):
        if v == C0:
            I.oblige('null', fr, nid, 'dereference', False, 'a null pointer is dereferenced')

    def streq(self, I, st, a, b):
        """-> value of a == b for string values"""
        if a == b:
            return C1
        if a[0] == 'str' and b[0] == 'str':
            return C0
        x, y = sorted((a, b), key=lin.okey)
        r = ('streq', x, y)
        lin.setrange(r, 0, 1)
        return r

    def same(self, I, st, a, b, ta=None):
        """equality of two element values"""
        if a[0] in ('addr',) or b[0] == 'addr':
            return I.compare(st, a, b, '==')
        if ta and 'basic_string' in ta:
            return self.streq(I, st, a, b)
        return I.compare(st, a, b, '==')

    def rng(self, I, st, b, e):
        """locations of the elements between two iterators of one vector, or None"""
        if b[0] == 'addr' and e[0] == 'addr' and b[1][0] == 'idx' and e[1][0] == 'idx' and b[1][1] == e[1][1]:
            i, j = b[1][2], e[1][2]
            if i[0] == 'c' and j[0] == 'c':
                return [('idx', b[1][1], c(k)) for k in range(i[1], j[1])]
        if b == e:
            return []
        return None

    def veclen(self, I, st, L):
        return I.rd(st, ('fld', L, '#n'))

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        fq = strip_t(n.get('fq') or '')
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if fq == 'std::equal' and len(args) in (3, 4):
            return self.equal(I, st, fr, nid, n, args, val)
        if n.get('noret') or fq in ('abort', 'cantProceed', 'epicsAssert'):
            I.oblige('abort', fr, nid, fq, False, 'the program is stopped')
            return []
        return None

    def equal(self, I, st, fr, nid, n, args, val):
        r = self.rng(I, st, val(0), val(1))
        b2 = val(2)
        if r is None or b2[0] != 'addr' or b2[1][0] != 'idx' or b2[1][2][0] != 'c':
            if r == []:
                return [('ret', st, C1)]
            return None
        L2, k = b2[1][1], b2[1][2][1]
        if len(args) == 4:
            r2 = self.rng(I, st, b2, val(3))
            if r2 is None:
                return None
            if len(r2) != len(r):
                return [('ret', st, C0)]
        t = fr.fn.nodes[args[0][0]].get('t') or ''
        outs = []
        cur = [st]
        for j, x in enumerate(r):
            y = ('idx', L2, c(k + j))
            self.on_index(I, st, fr, nid, L2, c(k + j), None)
            nxt = []
            for s in cur:
                v = self.same(I, s, I.rd(s, x), I.rd(s, y), t)
                s2 = s.fork()
                if I.assume(s, v, True):
                    nxt.append(s)
                if I.assume(s2, v, False):
                    outs.append(('ret', s2, C0))
            cur = nxt
        return outs + [('ret', s, C1) for s in cur]

    def size_of(self, I, st, L):
        k = st.mem.get(('fld', L, '#n'))
        return k[1] if k is not None and k[0] == 'c' else None

    def on_index(self, I, st, fr, nid, base, ix, size):
        if ix is None:                                       # an iterator
            v = base
            if v[0] != 'addr' or v[1][0] != 'idx' or v[1][2][0] != 'c':
                return
            base, ix = v[1][1], v[1][2]
        k = self.size_of(I, st, base)
        if k is not None and ix[0] == 'c':
            I.oblige('index', fr, nid, 'element access', 0 <= ix[1] < k, 'element %d of a container of %d is used' % (ix[1], k))


def setvec(st, L, vals):
    st.mem[('fld', L, '#n')] = c(len(vals))
    for i, v in enumerate(vals):
        st.mem[('idx', L, c(i))] = v


def setsv(p, st, L, t, data, vals):
    """a shared_vector (class t) at L whose elements are vals; data names its storage"""
    o = svec.Obj(p, t.replace('const ', '', 1) if t.startswith('const ') else t, L)
    k = len(vals)
    st.mem[o.ptr] = ('addr', ('idx', data, C0)) if k else C0
    st.mem[o.off], st.mem[o.cnt], st.mem[o.tot] = C0, c(k), c(k)
    setvec(st, data, vals)
    return o
