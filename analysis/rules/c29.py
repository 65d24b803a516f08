"""Conversions from text to numbers, by abstract interpretation of every function that calls an external parser and of everything that
converts on top of it.

The external parsers (epicsParse*, which store only when they return 0) are two outcomes: a failure code of any nonzero value with the
destination untouched, or 0 with a value of the parser's own range in it. From the library's entry points (the parseToPOD overloads): the
failing outcome must leave by an exception and must not have stored anything; the good one must return with exactly the parsed value
stored. The parser must be one for the whole range of the destination, accept the documented bases, and be asked to refuse trailing
characters. Parsers without a status (atoi and its kin) are refused. Above that, castUnsafe must return exactly what was parsed, and any
function that catches what a conversion throws must throw itself or report the failure by its result."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t
from rules.objs import NS, ELEM, C0, C1, STR, bare

NOSTATUS = ('atoi', 'atol', 'atoll', 'atof')
RNG = {'Int8': (-128, 127), 'UInt8': (0, 255), 'Int16': (-1 << 15, (1 << 15) - 1), 'UInt16': (0, (1 << 16) - 1), 'Int32': (-1 << 31, (1 << 31) - 1),
       'UInt32': (0, (1 << 32) - 1), 'Int64': (-1 << 63, (1 << 63) - 1), 'UInt64': (0, (1 << 64) - 1)}
RNG.update(Long=RNG['Int64'], ULong=RNG['UInt64'], LLong=RNG['Int64'], ULLong=RNG['UInt64'])
TR = {'signed char': RNG['Int8'], 'char': RNG['Int8'], 'unsigned char': RNG['UInt8'], 'short': RNG['Int16'], 'unsigned short': RNG['UInt16'], 'int': RNG['Int32'],
      'unsigned int': RNG['UInt32'], 'long': RNG['Int64'], 'unsigned long': RNG['UInt64'], 'long long': RNG['Int64'], 'unsigned long long': RNG['UInt64']}
FLT = {'Float': 'float', 'Double': 'double', 'Float32': 'float', 'Float64': 'double'}
IN, OUT = ('cb', 'text'), ('cb', 'out')


def parser(n):
    nm = n.get('fname') or ''
    if nm.startswith('epicsParse') or nm.startswith('epicsScan'):
        return nm[10 if nm.startswith('epicsParse') else 9:]
    return None


def is_parser(n):
    nm = n.get('fname') or ''
    q = strip_t(n.get('fq') or '')
    if n['k'] != 'CallExpr':
        return False
    return parser(n) is not None and q == nm or q in NOSTATUS or nm.startswith('strto') or q.startswith('std::sto') or q in ('sscanf', 'epicsStrtod')


class P(Client):
    cap = 20000
    max_depth = 8

    def __init__(self, text=None):
        self.text = text
        self.rooted = True
        self.calls = []
        self.nsites = set()

    def inline(self, I, fn, fr):
        return True

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        q = strip_t(n.get('fq') or '')
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if nm in ('epicsStrCaseCmp', 'strcasecmp', 'strcmp', 'epicsStrnCaseCmp', 'strncasecmp') and len(args) >= 2:
            v = [val(0), val(1)]
            lits = [x for x in v if x[0] == 'strlit']
            if self.text is not None:
                t = [x[1] if x[0] == 'strlit' else self.text for x in v]
                t = [x.decode('latin1') if isinstance(x, bytes) else x for x in t]
                if 'ase' in nm:
                    t = [x.lower() for x in t]
                return [('ret', st, c(0 if t[0] == t[1] else 1))]
            return None
        if q in NOSTATUS:
            self.nsites.add((fr.fn.usr, nid))
            I.oblige('status', fr, nid, q, False, 'a parser that cannot report a failure is used')
            return None
        k = parser(n) if q == nm else None
        if k is None:
            return None
        self.nsites.add((fr.fn.usr, nid))
        o = val(1)
        if self.rooted:
            I.oblige('text', fr, nid, nm, val(0) == ('addr', ('idx', IN, C0)) or val(0) == ('addr', IN) or val(0) == ('text',), 'it is not the given text that is parsed')
        if nm.startswith('epicsParse'):
            if len(args) == 4:
                I.oblige('base', fr, nid, nm, val(2) == C0, 'numbers are not parsed with the base their prefix tells')
            I.oblige('trailing', fr, nid, nm, val(len(args) - 1) == C0, 'characters after the number are accepted')
        if o[0] != 'addr':
            return None
        bad, ok = st.fork(), st
        e = ('perr', nid)
        I.assume(bad, ('cmp', '==', e), False)
        bad.mem[('gh', 'failed')] = ('c', 1)
        x = ('parsed', k)
        if k in RNG:
            lin.setrange(x, *RNG[k])
        ok.mem[('gh', 'parsed')] = x
        ok.mem[o[1]] = x
        r = [(bad, e), (ok, C0)]
        if nm.startswith('epicsScan'):
            bad.facts = dict(ok.facts)
            r = [(bad, C0), (ok, C1)]
        return [('ret', s, v) for s, v in r]


def pt(f):
    """pointed-to type of the destination parameter"""
    return bare(f.vars[f.params[1]]['t'].rstrip('* '))


def run(ctx):
    p = ctx.p
    roots = [f for f in p.by_q.get(NS + 'detail::parseToPOD', []) if len(f.params) == 2 and f.blocks]
    ctx.require(len(roots) >= 22, 'parseToPOD overloads not found')
    sites = {(f.usr, i) for f in p.fns.values() for i, n in f.nodes.items() if is_parser(n)}
    covered = set()
    for f in sorted(roots, key=lambda f: (f.l, f.qt)):
        t = pt(f)
        ctx.seen(f)
        is_str = 'basic_string' in f.vars[f.params[0]]['t']
        what = '%s from %s' % (t, 'string' if is_str else 'C string')
        if is_str:
            forward(ctx, p, f, t, what)
            continue
        if t == 'char':
            boolean(ctx, p, f)
            continue
        cl = P()
        I, outs = go(p, cl, f)
        covered |= cl.nsites
        ctx.ob('parsed', what, True if cl.nsites else None, 'no parser is called', f)
        for k, s, v in outs:
            bad = s.mem.get(('gh', 'failed')) is not None
            x = s.mem.get(OUT)
            if bad:
                ctx.ob('failure', what, k == 'throw', 'a text that is not a number is not reported', f)
                ctx.ob('untouched', what, x is None, 'the result is stored before the conversion succeeded', f)
                continue
            y = s.mem.get(('gh', 'parsed'))
            if y is None:
                ctx.ob('parsed', what, k == 'throw', 'a way out without having parsed', f)
                continue
            kind = y[1]
            if k == 'throw':
                # only for a value that does not fit
                ctx.ob('accepted', what, kind in RNG and t in TR and outside(s, y, TR[t]), 'a good number is refused', f)
                continue
            if kind in FLT:
                ok = FLT[kind] == t and x == y
            else:
                ok = kind in RNG and t in TR and x is not None and (x == y or sub(x, y) == C0) and RNG[kind][0] <= TR[t][0] and RNG[kind][1] >= TR[t][1]
            ctx.ob('value', what, ok, 'what is stored is not the parsed number, or the parser is not one for the whole range', f)
        ctx.absorb(I)
    rest = sites - covered
    for u, i in sorted(rest):
        g = p.fns[u]
        n = g.nodes[i]
        ctx.seen(g)
        if parser(n) is None:
            nm = n.get('fname') or ''
            names = {x.get('fname') for x in g.nodes.values()}
            # the end of the number and the range flag must be looked at
            ok = nm.startswith('strto') and '__errno_location' in names
            if nm.startswith('sto') and 'std' in (n.get('fq') or ''):
                ok = True                  # throws
            ctx.ob('status', '%s in %s' % (nm, g.qt), ok, 'a parser whose failure is not looked at', g, n.get('l'))
            continue
        other(ctx, p, g)
    ctx.info['calls of external parsers'] = len(sites)
    casts(ctx, p)
    vector(ctx, p)
    catchers(ctx, p)


def outside(s, y, r):
    lo, hi = lin.interval(s.facts, y)
    return lo is not None and lo > r[1] or hi is not None and hi < r[0]


def go(p, cl, f, this=None):
    I = Interp(p, cl, 60000)
    st = State()
    fr = I.frame(f, None, None, this)
    st.mem[('var', fr.id, f.params[0])] = ('addr', ('idx', IN, C0))
    st.mem[('var', fr.id, f.params[1])] = ('addr', OUT)
    return I, I.run_fn(fr, st)


def other(ctx, p, g):
    """a parser called outside the conversion functions: failing must be told apart by the result, or thrown"""
    cl = P()
    cl.rooted = False
    I = Interp(p, cl, 60000)
    outs = I.run_fn(I.frame(g, None, None, ('this0',)), State())
    good = {v for k, s, v in outs if k == 'ret' and s.mem.get(('gh', 'failed')) is None}
    for k, s, v in outs:
        if s.mem.get(('gh', 'failed')) is None or k == 'throw':
            continue
        told = v is not None and (v[0] == 'perr' or v[0] == 'c' and v not in good)
        ctx.ob('failure', g.qt, told, 'a text that is not a number is not reported', g)


def boolean(ctx, p, f):
    for text, want in (('true', 1), ('false', 0), ('TRUE', 1), ('False', 0), ('', None), ('1', None), ('yes', None), ('tru', None), ('falsee', None)):
        cl = P(text)
        I, outs = go(p, cl, f)
        for k, s, v in outs:
            x = s.mem.get(OUT)
            if want is None:
                ctx.ob('failure', 'boolean', k == 'throw' and x is None, 'the text "%s" is taken as a boolean' % text, f)
            else:
                ctx.ob('value', 'boolean', k == 'ret' and x == c(want), 'the text "%s" is not taken as %d' % (text, want), f)
        ctx.absorb(I)
    # whatever the text: stored only together with returning
    cl = P()
    I, outs = go(p, cl, f)
    for k, s, v in outs:
        ctx.ob('failure', 'boolean', (k == 'ret') == (s.mem.get(OUT) is not None), 'a boolean is stored without success, or success without a value', f)
    ctx.absorb(I)


class F(P):
    """one conversion below, failing or giving a value"""

    def __init__(self, root=True):
        P.__init__(self)
        self.root = root
        self.n = 0

    def conv(self, st, dst, x):
        self.n += 1
        bad = st.fork()
        bad.mem[('gh', 'failed')] = C1
        bad.mem.pop(('gh', 'parsed'), None)
        if dst is not None:
            st.mem[dst] = x
        st.mem[('gh', 'parsed')] = x
        return [('throw', bad, 'std::runtime_error'), ('ret', st, C0)]

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if nm == 'parseToPOD' and len(args) == 2:
            o = val(1)
            src = args[0]
            v = src[1]
            t = bare(fr.fn.nodes[args[1][0]]['t'].rstrip('* '))
            st.mem[('gh', 'src')] = v
            return self.conv(st, o[1] if o[0] == 'addr' else None, ('parsed', t))
        return None


def forward(ctx, p, f, t, what):
    cl = F()
    I = Interp(p, cl, 20000)
    st = State()
    fr = I.frame(f, None, None, None)
    st.mem[('var', fr.id, f.params[0])] = ('addr', IN)
    st.mem[('var', fr.id, f.params[1])] = ('addr', OUT)
    outs = I.run_fn(fr, st)
    ctx.ob('parsed', what, True if cl.n else None, 'nothing is parsed', f)
    for k, s, v in outs:
        if s.mem.get(('gh', 'failed')) is not None:
            ctx.ob('failure', what, k == 'throw', 'a text that is not a number is not reported', f)
            continue
        ctx.ob('value', what, k == 'ret' and s.mem.get(OUT) == ('parsed', t) and lin.mentions(s.mem.get(('gh', 'src')), lambda x: x == IN),
               'what is stored is not the number parsed from the text', f)
    ctx.absorb(I)


def casts(ctx, p):
    fs = [f for f in p.fns.values() if strip_t(f.q) == NS + 'castUnsafe' and f.blocks and len(f.params) == 1]
    n = 0
    for f in sorted(fs, key=lambda f: f.qt):
        src = bare(f.vars[f.params[0]]['t'].rstrip('& '))
        rt = bare(f.d.get('rt') or '')
        if src not in (STR, 'char *', 'const char *') or rt not in ELEM.values() or rt == STR:
            continue
        n += 1
        ctx.seen(f)
        cl = F()
        I = Interp(p, cl, 20000)
        st = State()
        fr = I.frame(f, None, None, None)
        st.mem[('var', fr.id, f.params[0])] = ('addr', IN)
        outs = I.run_fn(fr, st)
        what = 'castUnsafe<%s>' % rt
        ctx.ob('parsed', what, True if cl.n else None, 'nothing is parsed', f)
        for k, s, v in outs:
            if s.mem.get(('gh', 'failed')) is not None:
                ctx.ob('failure', what, k == 'throw', 'a text that is not a number yields a number', f)
            else:
                ctx.ob('value', what, k == 'ret' and v == ('parsed', rt), 'what is returned is not the number parsed', f)
                ctx.ob('value', what, lin.mentions(s.mem.get(('gh', 'src')), lambda x: x == IN), 'it is not the given text that is parsed', f)
        ctx.absorb(I)
    ctx.require(n >= 11, 'castUnsafe from text not found')


class V(F):
    unroll = 5

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        if n.get('fname') == 'castUnsafe' and len(args) == 1:
            r = self.conv(st, None, C0)
            x = ('parsed', bare(n['t']))
            return [(k, s, x if k == 'ret' else v) for k, s, v in r]
        return F.pre_call(self, I, st, fr, nid, n, a)


def vector(ctx, p):
    """castUnsafeV from text: one failing element fails the whole"""
    f = p.by_q.get(NS + 'castUnsafeV', [])
    ctx.require(len(f) == 1, 'castUnsafeV not found')
    f = f[0]
    codes = dict(p.enum_vals(NS + 'ScalarType'))
    ctx.seen(f)
    for tn, to in sorted(codes.items()):
        if tn == 'pvString':
            continue
        for cnt in (1, 2, 3):
            cl = V()
            I = Interp(p, cl, 60000)
            st = State()
            fr = I.frame(f, None, None, None)
            for vid, v in zip(f.params, (c(cnt), c(to), ('addr', ('idx', OUT, C0)), c(codes['pvString']), ('addr', ('idx', IN, C0)))):
                st.mem[('var', fr.id, vid)] = v
            nfail = 0
            for k, s, v in I.run_fn(fr, st):
                if s.mem.get(('gh', 'failed')) is not None:
                    nfail += 1
                    ctx.ob('failure', 'array of %s' % tn, k == 'throw', 'an element that is not a number is not reported', f)
                else:
                    ctx.ob('value', 'array of %s' % tn, k == 'ret', 'good elements are refused', f)
            ctx.ob('failure', 'array of %s' % tn, True if nfail else None, 'no element is converted', f)
            ctx.absorb(I)


CONV = ('castUnsafe', 'castUnsafeV', 'parseToPOD', 'putFrom', 'setAs', 'getAs', 'as')


class K(Client):
    """a function with handlers around conversions: each conversion fails or succeeds"""
    cap = 40000
    max_depth = 3

    def __init__(self, reach):
        self.reach = reach
        self.n = 0

    def inline(self, I, fn, fr):
        return fn.usr in self.reach and fn.n not in CONV

    def on_throw(self, I, st, fr, nid, ty):
        st.mem[('gh', 'thrown')] = C1

    def pre_call(self, I, st, fr, nid, n, a):
        nm = n.get('fname') or ''
        if nm in CONV or (n.get('fn') in self.reach and n.get('fn') is None):
            self.n += 1
            bad = st.fork()
            bad.mem[('gh', 'failed')] = bad.mem[('gh', 'thrown')] = C1
            st.mem.pop(('gh', 'failed'), None)
            return [('throw', bad, 'std::runtime_error')] + (I.models.ret(I, st, fr, nid, n, ('conv', nid)) or [])
        if nm == 'what' and fr.fn.d.get('rt') == 'void' and st.mem.pop(('gh', 'failed'), None) is not None:
            st.mem[('gh', 'told')] = C1      # no result to tell it by: the handler passes the explanation on
        return None


def catchers(ctx, p):
    """functions whose handlers may see what a conversion throws"""
    callers = {}
    for f in p.fns.values():
        for n in f.nodes.values():
            u = n.get('fn')
            if u and n['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
                callers.setdefault(u, set()).add(f.usr)
                if n.get('virt'):
                    for o in p.overriders(u):
                        callers.setdefault(o, set()).add(f.usr)
    reach = {f.usr for f in p.by_q.get(NS + 'detail::parseToPOD', [])}
    work = list(reach)
    while work:
        u = work.pop()
        for x in callers.get(u, ()):
            if x not in reach:
                reach.add(x)
                work.append(x)
    n = 0
    for f in sorted((p.fns[u] for u in reach if u in p.fns), key=lambda f: (f.l, f.qt)):
        tries = [i for i, x in f.nodes.items() if x['k'] == 'CXXTryStmt']
        if not tries:
            continue
        hit = [i for i, x in f.nodes.items() if x.get('try') is not None and (x.get('fn') in reach)]
        if not hit:
            continue
        n += 1
        ctx.seen(f)
        cl = K(reach)
        I = Interp(p, cl, 60000)
        outs = I.run_fn(I.frame(f, None, None, ('this0',)), State())
        good = {v for k, s, v in outs if k == 'ret' and s.mem.get(('gh', 'thrown')) is None}
        for k, s, v in outs:
            if s.mem.get(('gh', 'failed')) is None:
                continue
            told = k == 'throw' or v is not None and v[0] == 'c' and v not in good
            ctx.ob('swallowed', f.qt.replace(STR, 'string'), told, 'the failure of a conversion is caught and not reported', f)
        ctx.ob('swallowed', f.qt.replace(STR, 'string'), True if cl.n else None)
        ctx.absorb(I)
    ctx.info['functions catching failures of conversions'] = n
