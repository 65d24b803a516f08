"""Byte-order typestate of every buffer access, by abstract interpretation of all instantiations.

The two private flags of the buffer must be exactly 'requested order differs from the machine order' wherever they are
set.  Every element store/load of a multi-byte type must, on each path, have passed through one byte reversal of its own
width exactly when the flag is set on that path; block transfers and the zero-copy transfers offered to the transport
must only happen for multi-byte elements where the flag is known to be clear; no multi-byte data goes through the raw
byte interface."""
from pv import lin
from pv.lin import c, add, sub
from pv.interp import Interp, Client, State, Budget, strip_t

NS = 'epics::pvData::ByteBuffer'
THIS = ('this0',)
BSW = {'__builtin_bswap16': 2, '__builtin_bswap32': 4, '__builtin_bswap64': 8}


def swaps(v, out=None):
    """widths of byte reversals wrapped around the moved value"""
    out = [] if out is None else out
    if isinstance(v, tuple):
        if len(v) > 1 and v[0] == 'call' and v[1] in BSW:
            out.append(BSW[v[1]])
        for x in v[1:] if v and isinstance(v[0], str) else v:
            if isinstance(x, tuple):
                swaps(x, out)
    return out


class C(Client):
    max_depth = 7

    def __init__(self, flags):
        self.flags = flags
        self.sites = 0

    def inline(self, I, fn, fr):
        q = strip_t(fn.q)
        if q.startswith('epics::pvData::ByteBuffer') or q.startswith('epics::pvData::detail') or q == 'epics::pvData::swap':
            return True
        return fn.file.endswith('byteBuffer.h') or self.deep

    deep = False

    def reversed_(self, I, st, buf):
        """truth of 'this buffer reverses' on this path"""
        r = [I.truth(st, I.rd(st, ('fld', buf, f))) for f in self.flags]
        if True in r:
            return True
        if False in r:
            return False
        return None

    def elem(self, I, st, fr, nid, v, sz, what):
        if sz is None:
            return
        self.sites += 1
        sw = swaps(v)
        if sz == 1:
            ok = not sw
            msg = '%s of a single byte is byte-reversed' % what
        else:
            r = self.reversed_(I, st, THIS)
            if r is None:
                ok, msg = False, '%s of a %d-byte value does not depend on the byte order of the buffer' % (what, sz)
            elif r:
                ok, msg = sw == [sz], '%s of a %d-byte value to/from a buffer of the other byte order is reversed %s' % (
                    what, sz, 'not at all' if not sw else 'with widths %s' % sw)
            else:
                ok, msg = not sw, '%s of a %d-byte value is reversed although the buffer has the machine order' % (what, sz)
        I.oblige('byte-order', fr, nid, '%s size %d' % (what, sz), ok, msg)

    def on_write(self, I, st, fr, nid, loc, val):
        if loc[0] == 'deref' and self.root and nid is not None:
            n = fr.fn.nodes[nid]
            dst = any(('fld', THIS, f) for f in ()) or self.mine(loc[1])
            if dst and self.kind == 'put':
                self.elem(I, st, fr, nid, val, n.get('sz'), 'store')
            elif not dst and self.kind == 'get':
                self.elem(I, st, fr, nid, val, n.get('sz'), 'load')

    def mine(self, ptr):
        return any(a[0] == 'init' and a[1][0] == 'fld' and a[1][1] == THIS for a in lin.parts(ptr)[1])

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        q = strip_t(n.get('fq') or '')
        if self.root and q in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', 'std::copy'):
            w = 1
            for x in args[:2 if q != 'std::copy' else 3]:
                m = fr.fn.nodes[x[0]]
                while True:
                    w = max(w, m.get('psz', 1))
                    if m['k'].endswith('CastExpr') and m.get('o'):
                        m = fr.fn.nodes[m['o'][0]]
                    else:
                        break
            if w > 1:
                r = self.reversed_(I, st, THIS)
                I.oblige('byte-order', fr, nid, 'block transfer of %d-byte elements' % w, r is False,
                         'multi-byte elements are block-copied without regard to the byte order of the buffer')
                self.sites += 1
            return [('ret', st, I.aval(st, fr, args[0]))]
        if n.get('fname') in ('directSerialize', 'directDeserialize') and len(args) == 4 and not self.root:
            w = I.aval(st, fr, args[3])
            b = I.deref(I.aval(st, fr, args[0]))
            if w == c(1):
                ok = True
            else:
                ok = self.reversed_(I, st, b) is False
            I.oblige('zero-copy-order', fr, nid, 'zero-copy transfer of elements of size %s' % (w[1] if w[0] == 'c' else '?'), ok,
                     'multi-byte elements are offered for zero-copy transfer although the buffer may need byte reversal')
            self.sites += 1
        return None


def run(ctx):
    p = ctx.p
    ms = [f for f in p.fns.values() if f.cls and strip_t(f.cls) == NS and f.blocks]
    ctx.require(len(ms) >= 20, 'ByteBuffer members not found')
    # flags: the bool members, each must be (order != machine order) after construction / setEndianess
    rec = p.rec_qt[NS]
    setters = [f for f in ms if f.n == 'setEndianess' or 'ctor' in f.d and not f.d.get('implicit')]
    ctx.require(any(f.n == 'setEndianess' for f in setters) and len(setters) >= 2, 'no byte order setter')

    def is_flag(v, f):
        """(not (param - const == 0))"""
        if v[0] == 'not' and v[1][0] == 'cmp' and v[1][1] == '==':
            k, d = lin.parts(v[1][2])
            return len(d) == 1 and abs(k) in (1234, 4321) and k or 0
        return 0
    flags = None
    for f in setters:
        ctx.seen(f)
        cl = C([])
        cl.root = False
        cl.deep = True
        I = Interp(p, cl)
        for k, s, v in I.run_fn(I.frame(f, None, None, THIS), State()):
            if k != 'ret':
                continue
            fl = {}
            for r in rec['fields']:
                if r['t'] in ('bool',):
                    fl[r['q']] = is_flag(I.rd(s, ('fld', THIS, r['q'])), f)
            if f.n == 'setEndianess':
                flags = [q for q in fl if s.mem.get(('fld', THIS, q)) is not None]
            f_ok = fl
            for q in fl:
                if flags and q in flags:
                    ctx.ob('order-flag', '%s %s' % (f.qt, q.split('::')[-1]), abs(fl[q]) == 1234,
                           'the byte order flag %s is not set to (requested order != machine order)' % q.split('::')[-1], f)
    for f in setters:
        if 'ctor' in f.d and flags:
            cl = C([])
            cl.root = False
            cl.deep = True
            I = Interp(p, cl)
            for k, s, v in I.run_fn(I.frame(f, None, None, THIS), State()):
                if k == 'ret':
                    for q in flags:
                        ctx.ob('order-flag', '%s %s' % (f.l, q.split('::')[-1]),
                               abs(is_flag(I.rd(s, ('fld', THIS, q)), f)) == 1234,
                               'the constructor does not set %s to (requested order != machine order)' % q.split('::')[-1], f)
    ctx.require(flags and len(flags) >= 1, 'byte order flags not found')
    ctx.info['flags'] = [q.split('::')[-1] for q in flags]
    n = 0
    for f in ms:
        if f.n not in ('put', 'get', 'putArray', 'getArray') or f.d.get('implicit'):
            continue
        ctx.seen(f)
        cl = C(flags)
        cl.root = True
        cl.deep = True
        cl.kind = f.n[:3]
        I = Interp(p, cl)
        outs = I.run_fn(I.frame(f, None, None, THIS), State())
        # get<T>() returns the value
        if f.n == 'get' and f.d['rt'] not in ('void',):
            sz = {'signed char': 1, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
                  'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'bool': 1, 'long long': 8,
                  'unsigned long long': 8}.get(f.d['rt'])
            for k, s, v in outs:
                if k == 'ret' and v is not None and sz:
                    fr = I.frame(f, None, None, THIS)
                    cl.elem(I, s, fr, None, v, sz, 'load')
        ctx.absorb(I)
        n += cl.sites
    ctx.info['element_transfers'] = n
    ctx.require(n >= 30, 'too few buffer transfers recognised (%d)' % n)
    # users of the zero-copy interface and of the raw byte interface
    z = raw = 0
    for f in p.fns.values():
        if not f.blocks or f in ms:
            continue
        names = {x.get('fname') for x in f.nodes.values()}
        if names & {'directSerialize', 'directDeserialize'} and f.n not in ('directSerialize', 'directDeserialize'):
            ctx.seen(f)
            cl = C(flags)
            cl.root = False
            I = Interp(p, cl)
            st = State()
            try:
                I.run_fn(I.frame(f, None, None, THIS), st)
            except Budget:
                ctx.ob('zero-copy-order', f.qt, None)
            ctx.absorb(I)
            z += cl.sites
        for nid, x in f.nodes.items():
            if x.get('fq') in (NS + '::put', NS + '::get') and x['k'] == 'CXXMemberCallExpr' and len(x.get('o', [])) == 4 and 'targs' not in x:
                raw += 1
                m = f.nodes[x['o'][1]]
                w = 1
                while m['k'].endswith('CastExpr') and m.get('o'):
                    m = f.nodes[m['o'][0]]
                    w = max(w, m.get('psz', 1))
                ctx.ob('raw-bytes', '%s %s' % (f.qt, x['l']), w == 1,
                       'multi-byte data is moved through the raw byte interface, which never reverses', f, x['l'])
    ctx.info['zero_copy_sites'] = z
    ctx.info['raw_transfers'] = raw
    ctx.require(raw >= 1 or z >= 1, 'no raw or zero-copy transfer found')
    ctx.assume += ['the compiler builtins reverse bytes', 'machine order is the constant EPICS_BYTE_ORDER of this build']
