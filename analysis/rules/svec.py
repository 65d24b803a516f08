"""shared pieces of the rules about shared_vector"""
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, strip_t

BASE = 'epics::pvData::detail::shared_vector_base'
SV = 'epics::pvData::shared_vector'
THIS = ('this0',)
C0 = c(0)
SIZES = {'void': 1, 'signed char': 1, 'char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
         'unsigned int': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8}


def elem_of(cls):
    """element type of shared_vector<E...>/shared_vector_base<E>"""
    i = cls.index('<')
    d, j = 0, i
    for j in range(i, len(cls)):
        ch = cls[j]
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
            if d == 0:
                break
        elif ch == ',' and d == 1:
            break
    e = cls[i + 1:j].strip()
    return e[6:] if e.startswith('const ') else e


def size_of(t):
    t = t.strip()
    if t.startswith('const '):
        t = t[6:]
    if t in SIZES:
        return SIZES[t]
    if t.endswith('*'):
        return 8
    s = strip_t(t)
    return {'std::shared_ptr': 16, 'std::basic_string': 32}.get(s)


class Obj(object):
    """the members of the shared_vector at location L"""

    def __init__(self, p, cls, L):
        b = cls
        if not b.startswith(BASE):
            e = cls[len(SV):]
            const = e[1:].startswith('const ')
            b = '%s<%s%s>' % (BASE, 'const ' if const else '', elem_of(cls))
        self.rec = p.rec_qt.get(b)
        if self.rec is None:
            raise KeyError(b)
        f = {x['q'].split('::')[-1]: x for x in self.rec['fields']}
        ptr = [x for x in self.rec['fields'] if 'shared_ptr<' in x['t']]
        ints = [x for x in self.rec['fields'] if x['t'] == 'unsigned long']
        if len(ptr) != 1 or not {'m_offset', 'm_count', 'm_total'} <= set(f):
            raise KeyError(b)
        self.ptr = ('fld', L, ptr[0]['q'])
        self.off, self.cnt, self.tot = (('fld', L, f[k]['q']) for k in ('m_offset', 'm_count', 'm_total'))
        self.all = [self.ptr, self.off, self.cnt, self.tot]
        self.esz = size_of(elem_of(b))
        self.elem = elem_of(b)
        self.L = L

    def cap(self, I, st, v=None):
        """bytes of storage behind the pointer value"""
        v = I.rd(st, self.ptr) if v is None else v
        return cap(I, st, v, self.esz)

    def start(self, I, st):
        """assume the class invariant"""
        p0 = ('init', self.ptr)
        lin.setrange(p0, 0, None)
        for k in (self.off, self.cnt, self.tot):
            lin.setrange(('init', k), 0, None)
        cp = cap(I, st, p0, self.esz)
        I.fact(st, sub(cp, scale(add(('init', self.off), ('init', self.tot)), self.esz)))
        I.fact(st, sub(('init', self.tot), ('init', self.cnt)))

    def null_facts(self, I, st):
        """a null pointer has an empty window: split"""
        outs = []
        a = st.fork()
        if I.assume(a, ('cmp', '==', ('init', self.ptr)), True):
            for k in (self.off, self.cnt, self.tot):
                a.mem[k] = C0
            a.mem[self.ptr] = C0
            outs.append(a)
        b = st.fork()
        if I.assume(b, ('cmp', '==', ('init', self.ptr)), False):
            outs.append(b)
        return outs

    def holds(self, I, st):
        v, o, n, t = (I.rd(st, x) for x in self.all)
        r = {}
        r['count <= total'] = I.ge0(st, sub(t, n))
        if I.truth(st, I.compare(st, v, C0, '==')) is True:
            r['window inside the storage'] = I.ge0(st, scale(add(o, t), -1))
        else:
            r['window inside the storage'] = I.ge0(st, sub(self.cap(I, st, v), scale(add(o, t), self.esz)))
        return r


def cap(I, st, v, esz):
    if v == C0:
        return C0
    if v[0] == 'addr':
        L = v[1]
        if L[0] == 'idx':
            L = L[1]
        if L[0] == 'new':
            k = I.rd(st, ('fld', L, '#n'))
            lin.setrange(k, 0, None)
            return scale(k, esz)
    a = ('capb', v)
    lin.setrange(a, 0, None)
    return a


class SvClient(Client):
    max_depth = 8

    def inline(self, I, fn, fr):
        return fn.file.endswith('sharedVector.h') or (fn.cls or '').startswith(('epics::pvData::shared_vector', BASE))

    def may_throw(self, I, st, fr, nid, n):
        if strip_t(n.get('fq') or '') in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n'):
            return '?'
        return False

    def base(self, I, st, v, esz):
        """(capacity in bytes, offset in elements) of a pointer into element storage"""
        if v[0] == 'addr':
            L, k = (v[1][1], v[1][2]) if v[1][0] == 'idx' else (v[1], C0)
            if L[0] == 'new':
                return cap(I, st, ('addr', L), esz), k, ('addr', ('idx', L, C0))
            return None
        k, d = lin.parts(v)
        ps = [a for a in d if d[a] == 1 and (a[0] == 'init' and a in self.ptrs or a in self.ptrs)]
        if len(ps) != 1:
            return None
        return cap(I, st, ps[0], esz), sub(v, ps[0]), ps[0]

    ptrs = ()
    esz = None
    copied = None

    def pre_call(self, I, st, fr, nid, n, a):
        q = strip_t(n.get('fq') or '')
        if q in ('std::copy', 'std::fill', 'std::fill_n', 'std::copy_n') and a[1]:
            obj, args = a
            x = [I.aval(st, fr, y) for y in args]
            if q == 'std::copy':
                src, cnt, dst = x[0], I.ptrsub(x[1], x[0]), x[2]
            elif q == 'std::copy_n':
                src, cnt, dst = x[0], x[1], x[2]
            elif q == 'std::fill':
                src, cnt, dst = None, I.ptrsub(x[1], x[0]), x[0]
            else:
                src, cnt, dst = None, x[1], x[0]
            for what, ptr in (('read', src), ('write', dst)):
                if ptr is None:
                    continue
                m = fr.fn.nodes[args[0 if what == 'read' or q in ('std::fill', 'std::fill_n') else 2][0]]
                e = m.get('psz') or self.esz
                b = self.base(I, st, ptr, e) if e else None
                if b is None:
                    continue
                end = scale(add(b[1], cnt), e)
                ok = I.ge0(st, sub(b[0], end)) and I.ge0(st, b[1])
                self.transfer(I, st, fr, nid, what, ok, b, cnt)
            s2 = st.fork()
            return [('ret', st, x[-1]), ('throw', s2, '?')]
        return None

    def transfer(self, I, st, fr, nid, what, ok, b, cnt):
        pass
