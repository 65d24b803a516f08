"""The boundary to the C JSON library.

Callbacks (every library function of the JSON sources whose address is taken) are interpreted with every call that is not known not to
throw failing with std::exception: no path may leave by an exception, one on which something was thrown must return 0, and one that
returns 0 must have left a message in the context. Functions that drive the generator are interpreted with every status it returns good or
bad: after a bad one the function must throw. yg() and yajl_parse_helper() are interpreted for every status value. Handles and error
texts are ghost resources: allocated or null, released exactly once on every way out, never used when null or released."""
from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, strip_t
from rules.objs import NS, C0, C1, STR, bare

CTX = ('cb', 'context')
CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')


def json_fns(p):
    return [f for f in p.fns.values() if f.file.startswith('json/') and f.blocks]


def callbacks(p):
    """functions of the JSON sources that the library calls back: their address is taken, and they take a void * first"""
    out = set()

    def take(nodes):
        for n in nodes:
            g = p.fns.get(n.get('fn')) if n['k'] == 'DeclRefExpr' else None
            if g is not None and g.blocks and g.file.startswith('json/') and not g.cls and g.params and g.vars[g.params[0]]['t'] == 'void *':
                out.add(g.usr)
    for f in json_fns(p):
        take(f.nodes.values())
    for g in p.globs.values():
        if (g.get('l') or '').startswith('json/'):
            take((g.get('nodes') or {}).values())
    return sorted((p.fns[u] for u in out), key=lambda f: f.l)


class Base(Client):
    unroll = 2
    cap = 4000
    max_depth = 6

    def string_call(self, n):
        return 'std::basic_string<' in (n.get('fq') or '') or strip_t(n.get('fq') or '').startswith('std::basic_string::')

    def may_throw(self, I, st, fr, nid, n):
        if n.get('nothrow') or n['k'] == 'CXXConstructExpr' and (n.get('move') or (n.get('fq') or '').startswith('std::allocator')):
            return False
        if n.get('try') is None and self.string_call(n):
            return False             # memory exhaustion apart
        fq = strip_t(n.get('fq') or '')
        if fq.startswith(('std::basic_ostream', 'std::ios_base')) and n.get('try') is None:
            return False             # streams that have not been asked to throw
        if fq.startswith('yajl_') or fq in ('memset', 'memcpy', 'errlogPrintf'):
            return False             # C
        s = st
        s.mem[('gh', 'n')] = c(s.mem.get(('gh', 'n'), C0)[1] + 1)
        return 'std::exception'


class CB(Base):
    def inline(self, I, fn, fr):
        return False

    def inline_now(self, n):
        return False

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        if n.get('nothrow'):
            return None
        t = n.get('try')
        if nm == 'what':
            return [('ret', st, ('what',))]
        if self.string_call(n) and t is None:
            return None
        if t is not None and n['k'] != 'CXXConstructExpr' or nm == 'operator<<':
            bad = st.fork()
            bad.mem[('gh', 'thrown')] = C1
            outs = [('throw', bad, 'std::exception')]
            r = I.models.dispatch(I, st, fr, nid, n, a) if hasattr(I.models, 'dispatch') else None
            if self.string_call(n):
                return None
            m = I.unknown(st, fr, nid, n, obj, args)
            return outs + [x for x in m if x[0] == 'ret']
        return None

    def on_throw(self, I, st, fr, nid, ty):
        st.mem[('gh', 'thrown')] = C1


def run(ctx):
    p = ctx.p
    cbs = callbacks(p)
    ctx.require(len(cbs) >= 20, 'callbacks into the JSON library not found')
    fields = {}
    for f in cbs:
        callback(ctx, p, f)
    ctx.info['callbacks'] = len(cbs)
    statuses(ctx, p)
    helper(ctx, p)
    drivers(ctx, p)


def string_fields(f, st):
    return [k for k in st.mem if k[0] == 'fld' and k[1] == CTX]


def callback(ctx, p, f):
    ctx.seen(f)
    cl = CB()
    I = Interp(p, cl, 60000)
    st = State()
    fr = I.frame(f, None, None, None)
    st.mem[('var', fr.id, f.params[0])] = ('addr', CTX)
    outs = I.run_fn(fr, st)
    what = '%s (%s)' % (f.qt, f.file)
    isint = f.d.get('rt') == 'int'
    for k, s, v in outs:
        if k == 'throw':
            ctx.ob('escape', what, False, 'an exception escapes into the C library', f)
            continue
        ctx.ob('escape', what, True)
        if not isint:
            continue
        if s.mem.get(('gh', 'thrown')) is not None:
            ctx.ob('stops', what, v == C0, 'after a failure the parser is told to go on', f)
        t = I.truth(s, v) if v is not None else None
        if t is not True:
            ctx.ob('message', what, explained(I, s), 'the parser is stopped without a message', f)
    ctx.ob('outcomes', what, True if outs else None)
    ctx.absorb(I)


def explained(I, s):
    for k, v in s.mem.items():
        if k[0] == 'fld' and k[1] == CTX and v[0] in ('what', 'str', 'strlit', 'hv', 'call') and v not in (('str', ''), ('strlit', '')):
            return True
    # known to hold one already
    for key in s.facts:
        if key[0] == 'strlen' and lin.mentions(key, lambda x: isinstance(x, tuple) and x[:1] == ('fld',) and x[1] == CTX):
            lo = s.facts[key][0]
            if lo is not None and lo >= 1 or 0 in s.facts[key][2]:
                return True
    return False


# ------------------------------------------------------------------------------------------ generator statuses
NOSTAT = ('yajl_gen_alloc', 'yajl_gen_alloc2', 'yajl_gen_free', 'yajl_gen_config', 'yajl_gen_get_buf', 'yajl_gen_clear', 'yajl_gen_reset')


def is_gen(n):
    nm = n.get('fname') or ''
    return n['k'] == 'CallExpr' and nm.startswith('yajl_gen_') and nm not in NOSTAT


class G(Base):
    unroll = 1

    def __init__(self, bad, users):
        self.bad, self.users = bad, users
        self.n = 0

    def inline(self, I, fn, fr):
        # helpers that look at statuses; other functions that generate are taken by themselves
        return fn.file.startswith('json/') and fn.usr not in self.users

    def may_throw(self, I, st, fr, nid, n):
        return False

    def pre_call(self, I, st, fr, nid, n, a):
        if is_gen(n):
            self.n += 1
            outs = [('ret', st, C0)]
            for v in self.bad:
                s = st.fork()
                s.mem[('gh', 'bad')] = ('at', fr.fn.usr, nid)
                outs.append(('ret', s, c(v)))
            return outs
        if n.get('fn') in self.users:
            return [('ret', st, C0)]
        return None

    def on_return(self, I, st, fr, val):
        if fr.parent is None:
            b = st.mem.get(('gh', 'bad'))
            if b is not None:
                I.oblige('status', fr, b[2] if b[1] == fr.fn.usr else None, 'status', False, 'a failure of the JSON generator is ignored')


def statuses(ctx, p):
    vals = dict(p.enum_vals('yajl_gen_status'))
    ctx.require(vals.get('yajl_gen_status_ok') == 0, 'yajl_gen_status not found')
    good = {0, vals['yajl_gen_generation_complete']}
    js = json_fns(p)
    gens = {f.usr for f in js if any(is_gen(n) for n in f.nodes.values())}
    # functions that return normally for some status and take one: the checkers, run for every value
    chk = [f for f in js if len(f.params) == 1 and 'yajl_gen_status' in f.vars[f.params[0]]['t']]
    for f in chk:
        ctx.seen(f)
        for name, v in list(vals.items()) + [('another', 99), ('another', -1)]:
            I = Interp(p, Client(), 20000)
            st = State()
            fr = I.frame(f, None, None, None)
            st.mem[('var', fr.id, f.params[0])] = c(v)
            for k, s, r in I.run_fn(fr, st):
                if v not in good:
                    ctx.ob('status', '%s %s' % (f.qt, name), k == 'throw', 'the failure status %s of the JSON generator is not an error' % name, f)
                elif v == 0:
                    ctx.ob('status', '%s %s' % (f.qt, name), k == 'ret', 'success of the JSON generator is an error', f)
            ctx.absorb(I)
    n = 0
    for f in sorted((p.fns[u] for u in gens), key=lambda f: f.l):
        ctx.seen(f)
        cl = G([v for v in vals.values() if v not in good] + [99], gens)
        I = Interp(p, cl, 400000)
        outs = I.run_fn(I.frame(f, None, None, None), State())
        for k, s, v in outs:
            b = s.mem.get(('gh', 'bad'))
            if b is not None:
                ctx.ob('status', f.qt, k == 'throw', 'a failure of the JSON generator is ignored', f, f.nodes[b[2]].get('l') if b[1] == f.usr else None)
        ctx.ob('status', f.qt, True if cl.n else None)
        n += sum(is_gen(x) for x in f.nodes.values())
        ctx.absorb(I)
    ctx.info['generator calls'] = n
    ctx.require(n >= 10, 'calls of the JSON generator not found')


# ------------------------------------------------------------------------------------------ resources
class R(Base):
    """handles and error texts as ghost resources"""
    unroll = 2

    def __init__(self, prog, statuses=None):
        self.prog = prog
        self.st = statuses

    def inline(self, I, fn, fr):
        return fn.file.startswith('json/') and fn.n not in ('show_field', 'show_struct', 'expandBS') and fn.n != 'yajl_parse_helper'

    def acquire(self, I, st, fr, nid, kind, val=None):
        null = st.fork()
        h = ('cb', kind, nid)
        st.mem[('gh', 'live', kind, nid)] = C1
        return [('ret', null, C0), ('ret', st, ('addr', h))]

    def release(self, I, st, fr, nid, v, kind):
        if v == C0:
            I.oblige('null', fr, nid, 'release', kind == 'text', 'a null %s is released' % kind)
            return [('ret', st, C0)]
        key = ('gh', 'live') + v[1][1:] if v[0] == 'addr' and v[1][0] == 'cb' else None
        ok = key is not None and st.mem.get(key) == C1 and v[1][1] == kind
        I.oblige('release', fr, nid, 'release', ok, 'a %s is released twice, or something else is released as one' % kind)
        if key:
            st.mem[key] = C0
        return [('ret', st, C0)]

    def use(self, I, st, fr, nid, v, kind):
        ok = v[0] == 'addr' and v[1][:2] == ('cb', kind) and st.mem.get(('gh', 'live') + v[1][1:]) == C1
        I.oblige('use', fr, nid, 'use', ok, 'a %s is used that is null or already released' % kind)

    def pre_call(self, I, st, fr, nid, n, a):
        obj, args = a
        nm = n.get('fname') or ''
        val = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
        if n['k'] == 'CallExpr' and nm.startswith('yajl_') and not n.get('mem'):
            if nm == 'yajl_alloc':
                x = val(len(args) - 1)
                if x[0] == 'addr':
                    st.mem[('gh', 'ctx')] = x
                return self.acquire(I, st, fr, nid, 'parser handle')
            if nm in ('yajl_gen_alloc', 'yajl_gen_alloc2'):
                return self.acquire(I, st, fr, nid, 'generator handle')
            if nm == 'yajl_free':
                return self.release(I, st, fr, nid, val(0), 'parser handle')
            if nm == 'yajl_gen_free':
                return self.release(I, st, fr, nid, val(0), 'generator handle')
            if nm == 'yajl_get_error':
                return self.acquire(I, st, fr, nid, 'text')
            if nm == 'yajl_free_error':
                return self.release(I, st, fr, nid, val(1), 'text')
            if nm == 'yajl_parse_helper':
                self.use(I, st, fr, nid, val(1), 'parser handle')
                bad, thr = st.fork(), st.fork()
                bad.mem[('gh', 'canceled')] = C1
                x = st.mem.get(('gh', 'ctx'))
                for t in (st, bad, thr):             # what the callbacks have done to the context
                    for k, v in list(t.mem.items()):
                        if x is None or k[0] == 'gh' or not lin.mentions(k, lambda y: y == x[1]):
                            continue
                        if v[0] == 'str' and k[:2] == ('fld', x[1]):
                            t.mem[k] = ('cbmsg',) if t is bad else ('hv', 'text', nid)
                        else:
                            t.mem[k] = ('hv', 'callbacks', nid) + k
                            if k[-1] == '#n':
                                lin.setrange(t.mem[k], 0, None)
                thr.mem[('gh', 'threw')] = C1
                return [('ret', st, C1), ('ret', bad, C0), ('throw', thr, 'std::runtime_error')]
            if nm in ('yajl_parse', 'yajl_parse_complete', 'yajl_complete_parse') and self.st is not None:
                outs = []
                for name, v in self.st:
                    s = st.fork()
                    key = ('gh', 'last' if nm == 'yajl_parse' else 'final')
                    if key[1] == 'last' and s.mem.get(key) is not None:
                        I.oblige('goes-on', fr, nid, nm, s.mem[key] == C0, 'more text is parsed after the parser reported a failure')
                    s.mem[key] = c(v)
                    outs.append(('ret', s, c(v)))
                return outs
            if nm == 'yajl_get_bytes_consumed':
                t = ('consumed', nid)
                lin.setrange(t, 0, None)
                return [('ret', st, t)]
            if nm.startswith('yajl_gen_'):
                if args and fr.fn.nodes[args[0][0]]['t'].startswith(('yajl_gen', 'struct yajl_gen')):
                    self.use(I, st, fr, nid, val(0), 'generator handle')
                return [('ret', st, C0)]
            if nm == 'yajl_config':
                self.use(I, st, fr, nid, val(0), 'parser handle')
                return [('ret', st, C1)]
            return [('ret', st, C0)]
        if nm in ('show_field', 'show_struct'):
            return [('throw', st.fork(), 'std::runtime_error'), ('ret', st, C0)]
        if nm == 'getline' and self.st is not None:
            end = st.fork()
            end.mem[('gh', 'eof')] = C1
            e = ('line', nid)
            I.wr(st, args[1][1], ('hv', 'line', fr.id, nid))
            return [('ret', end, ('eof',)), ('ret', st, ('good',))]
        if nm == 'operator bool':
            v = I.rd(st, obj) if obj is not None else None
            if ('good',) in (v, obj):
                return [('ret', st, C1)]
            if ('eof',) in (v, obj):
                return [('ret', st, C0)]
        if nm == 'operator<<' and 'stream' in n['t']:
            r = obj if obj is not None and len(args) == 1 else args[0][1]
            x = args[-1]
            if 'char *' in fr.fn.nodes[x[0]]['t'] and not x[2]:
                I.oblige('null', fr, nid, 'text', val(len(args) - 1) != C0, 'an error text that is null is printed')
            return [('throw', st.fork(), 'std::exception'), ('ret', st, r)]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and args and not n.get('copy') and not n.get('move') and (n.get('fq') or '').endswith(('_error', '_argument', 'exception')):
            v = val(0)
            st.mem[('gh', 'message')] = v
        return None


def leaks(ctx, f, k, s, what):
    for key, v in s.mem.items():
        if key[:2] == ('gh', 'live'):
            ctx.ob('freed', what, v == C0, 'a %s is not freed on a way out' % key[2], f)


def helper(ctx, p):
    f = p.by_q.get(NS + 'yajl_parse_helper', [])
    ctx.require(len(f) == 1, 'yajl_parse_helper not found')
    f = f[0]
    ctx.seen(f)
    vals = sorted(p.enum_vals('yajl_status'), key=lambda x: x[1]) if not isinstance(p.enum_vals('yajl_status'), dict) else sorted(p.enum_vals('yajl_status').items(), key=lambda x: x[1])
    names = dict(vals)
    ctx.require(names.get('yajl_status_ok') == 0, 'yajl_status not found')
    canceled = names['yajl_status_client_canceled']
    cl = R(p, vals)
    I = Interp(p, cl, 400000)
    outs = I.run_fn(I.frame(f, None, None, None), State())
    n = 0
    for k, s, v in outs:
        leaks(ctx, f, k, s, 'yajl_parse_helper')
        sts = [s.mem.get(('gh', x)) for x in ('last', 'final')]
        if k == 'ret':
            t = I.truth(s, v)
            n += 1
            if c(canceled) in sts:
                ctx.ob('status', 'canceled', t is False, 'a parse stopped by a callback is reported as complete', f)
            else:
                ok = sts[1] == C0 and sts[0] in (None, C0)
                ctx.ob('status', 'complete', t is True and ok, 'a parse is reported as complete although the parser has failed or was not asked to finish', f)
        elif c(canceled) in sts:
            ctx.ob('status', 'canceled', s.mem.get(('gh', 'threw')) is not None, 'a parse stopped by a callback is reported as another error', f)
    ctx.ob('status', 'outcomes', True if n >= 2 else None)
    ctx.absorb(I)


def drivers(ctx, p):
    """the functions that own a handle"""
    owners = [f for f in json_fns(p) if any((n.get('fname') or '') in ('yajl_alloc', 'yajl_gen_alloc', 'yajl_gen_alloc2') for n in f.nodes.values())]
    ctx.require(len(owners) >= 2, 'allocations of JSON handles not found')
    roots = [f for f in json_fns(p) if strip_t(f.q) in (NS + 'parseJSON', NS + 'printJSON')]
    ctx.require(len(roots) >= 4, 'parseJSON/printJSON not found')
    covered = set()
    for f in sorted(roots, key=lambda f: f.l):
        ctx.seen(f)
        cl = R(p)
        I = Interp(p, cl, 200000)
        outs = I.run_fn(I.frame(f, None, None, None), State())
        what = '%s (%s)' % (f.qt, f.l)
        for k, s, v in outs:
            leaks(ctx, f, k, s, what)
            if s.mem.get(('gh', 'canceled')) is not None:
                ctx.ob('reported', what, k == 'throw', 'a document refused by a callback is taken as parsed', f)
                m = s.mem.get(('gh', 'message'))
                if k == 'throw':
                    ctx.ob('reported', what, m is not None and lin.mentions(m, lambda x: x == ('cbmsg',)), "the callback's message is not what is reported", f)
            if s.mem.get(('gh', 'threw')) is not None:
                ctx.ob('reported', what, k == 'throw', 'a document that is not JSON is taken as parsed', f)
        ctx.ob('outcomes', what, True if outs else None)
        ctx.absorb(I)
