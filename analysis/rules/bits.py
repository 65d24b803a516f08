"""Shared by C21, C22 and C46: the bit set class under abstract interpretation with an exact domain for bitwise words.

A word is a Boolean function of opaque 64-bit atoms (the operand words, the one-hot and mask words made by shifts), the same function
for every bit position; two words are compared by their truth tables under the path condition (words known zero or nonzero)."""
import itertools
from pv import lin
from pv.lin import c, add, sub, scale
from pv.interp import Interp, Client, State, Budget, strip_t, under

C0, C1 = c(0), c(1)
Q = 'epics::pvData::BitSet'
M64 = (1 << 64) - 1
THIS = ('obj', 'this')


class BInterp(Interp):
    def compare(self, st, a, b, op, n=None):
        if a[0] == b[0] == 'addr' and a[1][0] == b[1][0] == 'obj' and op in ('==', '!='):
            return C1 if (a == b) == (op == '==') else C0
        return Interp.compare(self, st, a, b, op, n)

    def arith(self, st, n, a, b, op):
        if op in ('>>', '/', '%', '&') and b[0] == 'c' and a[0] != 'c':
            k = b[1] + 1 if op == '&' else b[1] if op != '>>' else 1 << b[1] if b[1] < 64 else 0
            lo, hi = lin.interval(st.facts, a)
            if k > 0 and (k & (k - 1)) == 0 and lo is not None and hi is not None and lo >= 0:
                if lo // k == hi // k:
                    q = lo // k
                    return c(q) if op in ('>>', '/') else sub(a, c(q * k))
        if op in ('<<', '>>') and n.get('w') and not self.mute and b[0] != 'fl':
            lo, hi = lin.interval(st.facts, b)
            if lo is not None and lo >= n['w'] or hi is not None and hi < 0 or \
                    hi is not None and hi >= n['w'] and b[0] == 'off' and self.cl.unroll:
                self.cl.badshift.append((self.cl.cur, 0, n.get('l')))
            if self.cl.width_ok is not None:
                self.cl.width_ok(st, n, b)
        r = Interp.arith(self, st, n, a, b, op)
        if op == '>>' and r[0] == 'div' and b[0] == 'c':
            lo, hi = lin.interval(st.facts, a)
            if hi is not None and lo is not None and lo >= 0:
                if hi >> b[1] == 0:
                    return C0
                if r in lin.RANGE and lin.RANGE[r][1] is None:
                    lin.RANGE[r] = (0, hi >> b[1])
        if op in ('<<',) and r[0] == 'bop' and n.get('w') != 64:
            return ('bop', '<<%d' % n.get('w', 0)) + r[2:]
        if n.get('u') and n.get('w') == 64 and r[0] in ('bop', 'op'):
            lin.setrange(r, 0, None)
        return r


def atoms_of(t, out):
    """collect the atoms of a bitwise word term"""
    k = t[0]
    if k == 'c':
        if t[1] & M64 not in (0, M64):
            out.add(t)
        return
    if k == 'bop' and t[1] in '&|^':
        atoms_of(t[2], out)
        atoms_of(t[3], out)
        return
    if k == 'op' and t[1] == '~':
        return atoms_of(t[2], out)
    if k == 'cast' and t[1] in ('u64', 'i64'):
        return atoms_of(t[2], out)
    if k == 'lin' and t[1] == -1 and len(t[2]) == 1 and t[2][0][1] == -1:
        return atoms_of(t[2][0][0], out)
    out.add(t)


def bit(t, env):
    k = t[0]
    if k == 'c' and t[1] & M64 in (0, M64):
        return t[1] & 1
    if k == 'bop' and t[1] in '&|^':
        a, b = bit(t[2], env), bit(t[3], env)
        return a & b if t[1] == '&' else a | b if t[1] == '|' else a ^ b
    if k == 'op' and t[1] == '~':
        return 1 - bit(t[2], env)
    if k == 'cast' and t[1] in ('u64', 'i64') and t not in env:
        return bit(t[2], env)
    if k == 'lin' and t[1] == -1 and len(t[2]) == 1 and t[2][0][1] == -1:
        return 1 - bit(t[2][0][0], env)
    return env[t]


FOREIGN = ('hv', 'unk', 'alias', 'prj', 'call', 'phi', 'jn', 'join')


def foreign(t):
    return lin.mentions(t, lambda x: x[0] in FOREIGN)


class Words(object):
    """path condition over words: zero terms, nonzero terms"""
    def __init__(self, st, nz=()):
        self.Z, self.NZ = [], list(nz)
        for key, (lo, hi, ne) in st.facts.items():
            t = key
            if key[0] == 'lin':
                if key[1] == 0 and len(key[2]) == 2 and sorted(v for a, v in key[2]) == [-1, 1]:
                    t = ('bop', '^', key[2][0][0], key[2][1][0])
                else:
                    continue
            if lo == 0 and hi == 0:
                self.Z.append(t)
            elif lo is not None and lo >= 1 or hi is not None and hi < 0 or 0 in ne:
                self.NZ.append(t)

    def envs(self, terms):
        at = set()
        for t in terms:
            atoms_of(t, at)
        # only the constraints sharing atoms
        use = []
        ch = True
        zs = list(self.Z)
        while ch:
            ch = False
            for z in list(zs):
                az = set()
                atoms_of(z, az)
                if az & at or not az:
                    at |= az
                    use.append(z)
                    zs.remove(z)
                    ch = True
        at = sorted(at, key=lin.okey)
        if len(at) > 12:
            raise Budget()
        for v in itertools.product((0, 1), repeat=len(at)):
            env = dict(zip(at, v))
            if all(bit(z, env) == 0 for z in use):
                yield env

    def feasible(self):
        for z in self.Z:
            if z[0] == 'c' and z[1]:
                return False
        for t in self.NZ:
            if not any(bit(t, e) for e in self.envs([t])):
                return False
        return True

    def same(self, a, b):
        return all(bit(a, e) == bit(b, e) for e in self.envs([a, b]))

    def zero(self, t):
        return self.same(t, C0)

    def nonzero(self, t):
        if t[0] == 'c':
            return t[1] & M64 != 0
        return any(all(bit(t, e) for e in self.envs([t, x]) if bit(x, e)) for x in self.NZ)


class C(Client):
    max_depth = 6
    unroll = 10
    cap = 100000

    def __init__(self, wq):
        self.wq = wq
        self.size = None            # value of the next readSize
        self.ntz, self.pop = set(), set()
        self.ilist = None
        self.cur = None
        self.bad, self.subs, self.badshift = [], {}, []
        self.width_ok = None
        self.aborts = []
        self.throws = False

    def inline(self, I, fn, fr):
        return fn.cls == Q or fn.file.endswith(('bitSet.cpp', 'bitSet.h')) and fn.n != 'operator<<'

    def start(self, st):
        pass

    def vecloc(self, L):
        return L[0] == 'fld' and L[2] == self.wq

    def on_index(self, I, st, fr, nid, L, i, n):
        if not self.vecloc(L) or i is None:
            return
        d = sub(sub(n, i), C1)
        lo, hi = lin.interval(st.facts, d)
        l2, h2 = lin.interval(st.facts, i)
        key = (fr.fn.qt, nid)
        if lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
            self.subs.setdefault(key, True)
            return
        if not Words(st, self.nz(st)).feasible():
            return
        self.subs[key] = False
        if hi is not None and hi < 0 or h2 is not None and h2 < 0:
            self.bad.append((fr, nid))

    def nz(self, st):
        return self.base_nz

    def on_abort(self, I, st, fr, nid, n):
        if not I.mute:
            self.aborts.append((st.fork(), fr, nid))

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        cls = strip_t(n.get('cls') or '')
        if n.get('fn') in self.ntz:
            t = ('ntz', I.num(val(0)))
            lin.setrange(t, 0, 64)
            return [('ret', st, t)]
        if n.get('fn') in self.pop:
            t = ('pop', I.num(val(0)))
            lin.setrange(t, 0, 64)
            return [('ret', st, t)]
        if nm in ('__builtin_ctzll', '__builtin_ctzl') and args:
            t = ('ntz', val(0))
            lin.setrange(t, 0, 64)
            return [('ret', st, t)]
        if nm in ('__builtin_popcountll', '__builtin_popcountl') and args:
            t = ('pop', val(0))
            lin.setrange(t, 0, 64)
            return [('ret', st, t)]
        if cls == 'std::initializer_list' and nm in ('begin', 'end', 'size') and self.ilist is not None:
            return [('ret', st, c(self.ilist) if nm == 'size' else ('addr', ('idx', ('ilist',), c(0 if nm == 'begin' else self.ilist))))]
        if nm == 'readSize' and self.size is not None:
            outs = [('ret', st, c(self.size))]
            return outs + [('throw', st.fork(), 'std::exception')]
        if nm == 'ensureData':
            return [('ret', st, C0), ('throw', st.fork(), 'std::exception')]
        if nm.startswith('get') and cls.endswith('ByteBuffer'):
            k = I.rd(st, ('gh', 'reads'))
            k = k[1] if k[0] == 'c' else 0
            st.mem[('gh', 'reads')] = c(k + 1)
            t = ('rd', nm, k)
            w = n.get('w', 64)
            if w < 64:
                lin.setrange(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return [('ret', st, t)]
        if obj is not None and self.vecloc(obj) and nm in ('resize', 'assign', 'insert', 'erase', 'operator='):
            if nm == 'resize':
                o, k = I.rd(st, ('fld', obj, '#n')), I.num(val(0))
                if o[0] != 'c':
                    return None
                if k[0] != 'c':
                    lo, hi = lin.interval(st.facts, k)
                    if lo is None or lo != hi:
                        raise Budget()
                    k = c(lo)
                if k[1] > 64:
                    raise Budget()
                x = C0
                if len(args) > 1 and fr.fn.nodes[args[1][0]]['k'] != 'CXXDefaultArgExpr':
                    x = val(1)
                for i in range(o[1], k[1]):
                    st.mem[('idx', obj, c(i))] = x
                for i in range(k[1], o[1]):
                    st.mem.pop(('idx', obj, c(i)), None)
                st.mem[('fld', obj, '#n')] = k
                self.on_write(I, st, fr, nid, obj, None)
                return [('ret', st, C0)]
        return None


class BitOps(object):
    """the class and one interpreter setting"""
    def __init__(self, ctx):
        p = self.p = ctx.p
        rec = p.rec_qt.get(Q)
        ctx.require(rec, 'class BitSet not found')
        w = [f for f in rec['fields'] if 'vector' in f['t'] or 'words_t' in f['t']]
        ctx.require(len(w) == 1 and len(rec['fields']) == 1, 'the words of BitSet not found')
        self.wq = w[0]['q']
        self.ms = [f for f in p.fns.values() if f.cls == Q and f.blocks and not f.d.get('implicit')]
        ctx.require(len(self.ms) >= 15, 'members of BitSet not found')

    def words(self, L):
        return ('fld', L, self.wq)

    def setup(self, st, L, n, nz):
        W = self.words(L)
        st.mem[('fld', W, '#n')] = c(n)
        ws = []
        for i in range(n):
            t = ('word', L, i)
            lin.setrange(t, 0, M64)
            st.mem[('idx', W, c(i))] = t
            ws.append(t)
        if ws:
            nz.append(ws[-1])
            st.facts = lin.assume(st.facts, ws[-1], '==', False)
        return ws

    def size(self, I, st, L):
        v = I.rd(st, ('fld', self.words(L), '#n'))
        if v[0] != 'c':
            lo, hi = lin.interval(st.facts, v)
            if lo is None or lo != hi:
                return None
            return lo
        return v[1]

    def get(self, I, st, L, i):
        n = self.size(I, st, L)
        return C0 if i >= n else I.num(I.rd(st, ('idx', self.words(L), c(i))))


# ---------------------------------------------------------------- bounded enumeration of shapes
class Case(object):
    """one member for one shape: the sizes of the sets, the word an index argument falls into, the size received"""
    def __init__(self, f, desc, I, fr, outs, cl, sets, args, nz):
        self.f, self.desc, self.I, self.fr, self.outs, self.cl = f, desc, I, fr, outs, cl
        self.sets, self.args, self.nz = sets, args, nz      # location -> words; parameter -> value or location

    def cond(self, st):
        return Words(st, self.nz)

    def feasible(self, st):
        return self.cond(st).feasible()


INTS = ('unsigned int', 'epics::pvData::uint32', 'uint32_t', 'int', 'unsigned long', 'size_t')


def public(B):
    acc = {}
    for m in B.p.rec_qt[Q]['methods']:
        acc[m['usr']] = m['acc']
    return [f for f in sorted(B.ms, key=lambda f: f.l) if acc.get(f.usr) == 'public' and not f.n.startswith('~')]


def ptype(V):
    return V['t'].replace('const ', '').strip()


def cases(B, f, ntz=(), pop=(), top=3, client=C):
    """yield a Case per shape, or (f, reason) when the member is outside the domain"""
    kinds = []
    if f.n == 'create':
        return
    for v in f.params:
        t = ptype(f.vars[v])
        if t in (Q + ' &', 'BitSet &'):
            kinds.append('set')
        elif t in INTS:
            kinds.append('int')
        elif t == 'bool':
            kinds.append('bool')
        elif t.endswith('*') and ('ByteBuffer' in t or 'Control' in t):
            kinds.append('ptr')
        elif t.startswith('std::initializer_list<unsigned int'):
            kinds.append('list')
        else:
            yield (f, 'parameter of type ' + t)
            return
    ctor = 'ctor' in f.d
    nset = kinds.count('set')
    lim = top if nset < 2 else top - 1
    dims = [range(1) if ctor else range(lim + 1)]
    for k in kinds:
        if k == 'set':
            dims.append(list(range(lim + 1)) + (['this'] if not ctor else []) + (['first'] if nset == 2 and 'set' in kinds and k == 'set' else []))
        elif k == 'int':
            dims.append(range(lim + 2))
        elif k == 'list':
            dims.append([()] + [(a,) for a in range(3)] + [(a, b) for a in range(3) for b in range(3)])
        else:
            dims.append(range(1))
    if f.n == 'deserialize':
        dims.append(range(18))
    first = None
    for shape in itertools.product(*dims):
        cl = client(B.wq)
        cl.ntz, cl.pop = set(ntz), set(pop)
        I = BInterp(B.p, cl, 200000)
        st = State()
        cl.start(st)
        nz = []
        sets = {THIS: []}
        if not ctor:
            sets[THIS] = B.setup(st, THIS, shape[0], nz)
        fr = I.frame(f, None, None, THIS)
        args = []
        skip = False
        fst = None
        for i, (v, k) in enumerate(zip(f.params, kinds)):
            L = ('var', fr.id, v)
            if k == 'set':
                d = shape[1 + i]
                if d == 'this':
                    o = THIS
                elif d == 'first':
                    if fst is None or fst == THIS:
                        skip = True
                        break
                    o = fst
                else:
                    o = ('obj', i)
                    sets[o] = B.setup(st, o, d, nz)
                if fst is None:
                    fst = o
                st.mem[L] = ('addr', o)
                args.append(o)
            elif k == 'int':
                off = ('off', i)
                lin.setrange(off, 0, 63)
                x = add(c(64 * shape[1 + i]), off)
                st.mem[L] = x
                nz += [('bop', '<<', C1, off), ('bop', '<<', c(M64), off)]
                args.append((shape[1 + i], off))
            elif k == 'list':
                cl.ilist = len(shape[1 + i])
                el = []
                for j, wd in enumerate(shape[1 + i]):
                    off = ('off', 'l', j)
                    lin.setrange(off, 0, 63)
                    st.mem[('idx', ('ilist',), c(j))] = add(c(64 * wd), off)
                    nz.append(('bop', '<<', C1, off))
                    el.append((wd, off))
                args.append(el)
            elif k == 'bool':
                b = ('flag', i)
                lin.setrange(b, 0, 1)
                st.mem[L] = b
                args.append(b)
            else:
                st.mem[L] = ('ptr', i)
                st.facts = lin.assume(st.facts, ('ptr', i), '==', False)
                args.append(None)
        if skip:
            continue
        cl.base_nz, cl.cur = nz, f
        if f.n == 'deserialize':
            cl.size = shape[-1]
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            yield (f, 'shape %s' % (shape,))
            continue
        if I.exceeded:
            yield Case(f, 'loop in shape %s' % (shape,), I, fr, [], cl, sets, args, nz)
            yield (f, 'loop in shape %s' % (shape,))
            continue
        yield Case(f, '%s(%s)' % (f.qt, ', '.join(ptype(f.vars[v]) for v in f.params)), I, fr, outs, cl, sets, args, nz)


# ---------------------------------------------------------------- trailing zeros, proved per position of the lowest set bit
class Bv(Interp):
    """known-bits domain: ('bv', ((width), bits)) bits from least significant: 0, 1 or None"""
    def num(self, v):
        return v

    def tobv(self, v, w):
        if v[0] == 'bv':
            b = v[1]
            return b[:w] + (0,) * (w - len(b))
        if v[0] == 'c':
            return tuple((v[1] >> i) & 1 for i in range(w))
        return None

    def norm(self, bits, n):
        if all(x is not None for x in bits):
            x = sum(y << i for i, y in enumerate(bits))
            if not n.get('u') and bits[-1]:
                x -= 1 << len(bits)
            return c(x)
        return ('bv', bits)

    def arith(self, st, n, a, b, op):
        w = n.get('w')
        if w and (a[0] == 'bv' or b[0] == 'bv'):
            if op in ('<<', '>>') and b[0] == 'c' and 0 <= b[1] < w:
                x = self.tobv(a, w)
                if x is not None:
                    k = b[1]
                    return self.norm((0,) * k + x[:w - k] if op == '<<' else x[k:] + (0,) * k, n)
            if op in '&|^':
                x, y = self.tobv(a, w), self.tobv(b, w)
                if x is not None and y is not None:
                    def f(p, q):
                        if op == '&':
                            return 0 if p == 0 or q == 0 else 1 if p == 1 and q == 1 else None
                        if op == '|':
                            return 1 if p == 1 or q == 1 else 0 if p == 0 and q == 0 else None
                        return None if p is None or q is None else p ^ q
                    return self.norm(tuple(f(p, q) for p, q in zip(x, y)), n)
            if op in '+-':
                x, y = self.tobv(a, w), self.tobv(b, w)
                if x is not None and y is not None:
                    out, cy = [], 0
                    for p, q in zip(x, y):
                        if op == '-':
                            q = None if q is None else 1 - q
                        if op == '-' and not out:
                            cy = 1
                        s = [z for z in (p, q, cy)]
                        unk = s.count(None)
                        one = s.count(1)
                        out.append(None if unk else one & 1)
                        cy = 1 if one >= 2 else 0 if one + unk < 2 else None
                    return self.norm(tuple(out), n)
            return ('unk', w, op, a, b)
        return Interp.arith(self, st, n, a, b, op)

    def e_UnaryOperator(self, st, fr, nid, n):
        if n['op'] in ('~', '-'):
            v = self.val(st, fr, n['o'][0])
            if v[0] == 'bv' and n.get('w'):
                if n['op'] == '~':
                    return self.norm(tuple(None if x is None else 1 - x for x in self.tobv(v, n['w'])), n)
                return self.arith(st, n, C0, v, '-')
        return Interp.e_UnaryOperator(self, st, fr, nid, n)

    def intcast(self, st, n, v):
        if v[0] == 'bv' and 'w' in n:
            return self.norm(self.tobv(v, n['w']), n)
        return Interp.intcast(self, st, n, v)

    def truth(self, st, v):
        if v[0] == 'bv':
            if any(x == 1 for x in v[1]):
                return True
            return None
        return Interp.truth(self, st, v)

    def compare(self, st, a, b, op, n=None):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'bv' and y == C0 and op in ('==', '!='):
                t = self.truth(st, x)
                if t is not None:
                    return c(int(t == (op == '!=')))
                return ('bvz', x) if op == '==' else ('not', ('bvz', x))
        if a[0] == 'bv' or b[0] == 'bv':
            return ('bvc', op, a, b)
        return Interp.compare(self, st, a, b, op, n)

    def cast(self, st, fr, nid, n):
        if n['ck'] == 'IntegralToBoolean':
            v = self.val(st, fr, n['o'][0])
            if v[0] == 'bv':
                t = self.truth(st, v)
                return c(int(t)) if t is not None else ('not', ('bvz', v))
        return Interp.cast(self, st, fr, nid, n)


class BvClient(Client):
    max_depth = 3
    unroll = 70
    cap = 1000


def prove_ntz(p, f):
    """True when f(x) is the number of trailing zeros for all 2^64 arguments; False when it differs for some class; None unknown"""
    V = f.vars[f.params[0]]
    res = True
    for k in range(65):
        I = Bv(p, BvClient(), 60000)
        st = State()
        fr = I.frame(f, None, None, THIS)
        bits = (0,) * k + ((1,) if k < 64 else ()) + (None,) * (63 - k)
        st.mem[('var', fr.id, f.params[0])] = I.norm(bits, {'u': True})
        try:
            outs = I.run_fn(fr, st)
        except Budget:
            return None
        if I.exceeded or not outs or any(o[0] != 'ret' for o in outs):
            return None
        for o in outs:
            v = o[2]
            if v is None or v[0] != 'c':
                if v is not None and v[0] == 'lin':
                    lo, hi = lin.interval(o[1].facts, v)
                    if lo is not None and lo == hi == k:
                        continue
                res = None if res is not False else res
            elif v[1] != k:
                res = False if len(outs) == 1 else (None if res is not False else res)
    return res


# ---------------------------------------------------------------- population count, as a sum over the bits of the argument
class Pop(Interp):
    """values are exact linear sums of the argument's bits; masks and shifts act on disjoint fields of that sum"""
    def fields(self, v, k=0):
        """[(position, width needed, part)] when the sum splits into disjoint bit fields, else None"""
        if v[0] == 'c':
            k, d = v[1], {}
        elif v[0] == 'lin':
            k, d = v[1], dict(v[2])
        else:
            k, d = 0, {v: 1}
        if k or any(a[0] != 'bit' or x <= 0 for a, x in d.items()):
            return None
        by = {}
        for a, x in d.items():
            for j in range(x.bit_length()):
                if x >> j & 1:
                    by.setdefault(j, []).append(a)
        out, end = [], 0
        for pos in sorted(by):
            if pos < end:
                return None
            w = len(by[pos]).bit_length()
            out.append((pos, w, by[pos]))
            end = pos + w
        return out

    def join_fields(self, fs):
        d = {}
        for pos, w, at in fs:
            for a in at:
                d[a] = d.get(a, 0) + (1 << pos)
        return lin.build(0, d)

    def arith(self, st, n, a, b, op):
        w = n.get('w')
        if w and op in ('>>', '&', '<<', '*') and (a[0] != 'c' or b[0] != 'c'):
            if op in '&*' and a[0] == 'c':
                a, b = b, a
            fs = self.fields(a)
            if fs is None or b[0] != 'c':
                return ('unk', op, a, b)
            if op == '>>':
                out = []
                for pos, wd, at in fs:
                    if pos >= b[1]:
                        out.append((pos - b[1], wd, at))
                    elif pos + wd > b[1]:
                        return ('unk', op, a, b)
                return self.join_fields(out)
            if op == '&':
                out = []
                for pos, wd, at in fs:
                    m = (b[1] >> pos) & ((1 << wd) - 1)
                    if m == (1 << wd) - 1:
                        out.append((pos, wd, at))
                    elif m:
                        return ('unk', op, a, b)
                return self.join_fields(out)
            r = scale(a, b[1] if op == '*' else 1 << b[1])
            # reduce modulo 2^w: drop terms at or above
            k, d = lin.parts(r)
            for x in list(d):
                d[x] &= (1 << w) - 1
            # non power-of-two coefficients are fine until a field is needed
            r = lin.build(k, d)
            return r if sum(d.values()) < (1 << w) else ('unk', op, a, b)
        if w and op in '+-' and (a[0] != 'c' or b[0] != 'c'):
            r = add(a, b, 1 if op == '+' else -1)
            k, d = lin.parts(r)
            if all(x[0] == 'bit' for x in d):
                lo = k + sum(x for x in d.values() if x < 0)
                hi = k + sum(x for x in d.values() if x > 0)
                if lo >= 0 and hi < (1 << w):
                    return r
            return ('unk', op, a, b)
        return Interp.arith(self, st, n, a, b, op)

    def intcast(self, st, n, v):
        if v[0] == 'lin' and 'w' in n:
            hi = v[1] + sum(x for a, x in v[2] if x > 0)
            if hi < (1 << (n['w'] - (0 if n.get('u') else 1))):
                return v
        return Interp.intcast(self, st, n, v)


def prove_pop(p, f):
    I = Pop(p, BvClient(), 60000)
    st = State()
    fr = I.frame(f, None, None, THIS)
    bits = []
    for j in range(64):
        lin.setrange(('bit', j), 0, 1)
        bits.append(('bit', j))
    st.mem[('var', fr.id, f.params[0])] = lin.build(0, {b: 1 << j for j, b in enumerate(bits)})
    want = lin.build(0, {b: 1 for b in bits})
    try:
        outs = I.run_fn(fr, st)
    except Budget:
        return None
    if I.exceeded or len(outs) != 1 or outs[0][0] != 'ret' or outs[0][2] is None:
        return None
    v = outs[0][2]
    if v == want:
        return True
    if v[0] in ('lin', 'c', 'bit') and all(a[0] == 'bit' for a in lin.parts(v)[1]):
        return False
    return None


def helpers(ctx, B):
    """classify the pure helpers on one word"""
    ntz, pop, und = {}, {}, []
    for f in B.ms + [f for f in ctx.p.fns.values() if f.file.endswith('bitSet.cpp') and not f.cls and f.blocks]:
        if len(f.params) != 1:
            continue
        if f.vars[f.params[0]]['t'].replace('const ', '') not in ('unsigned long', 'unsigned long long', 'uint64_t', 'epics::pvData::uint64'):
            continue
        a, b = prove_ntz(ctx.p, f), prove_pop(ctx.p, f)
        if a:
            ntz[f.usr] = f
        elif b:
            pop[f.usr] = f
        else:
            und.append((f, a, b))
    return ntz, pop, und
