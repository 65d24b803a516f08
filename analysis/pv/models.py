"""Summaries of the standard library and of a few C functions."""
from . import lin
from .lin import c, add, sub, scale
from . import interp as _i

C0, C1 = ('c', 0), ('c', 1)

PTR = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::auto_ptr', 'std::weak_ptr',
       'std::__weak_ptr', 'std::enable_shared_from_this')
VEC = ('std::vector', 'std::deque', 'std::list')
IT = ('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator')
TIT = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator')
MAP = ('std::map', 'std::multimap', 'std::set')


def size_of(I, st, L):
    v = I.rd(st, ('fld', L, '#n'))
    lin.setrange(v, 0, None)
    return v


def set_size(I, st, L, v):
    st.mem[('fld', L, '#n')] = v


def strsize(I, st, v):
    if v[0] == 'str':
        return c(len(v[1]))
    t = ('strlen', v)
    lin.setrange(t, 0, None)
    return t


def ret(I, st, fr, nid, n, v):
    """result v (scalar term) of a call whose type may be a (scalar-like) class"""
    if n.get('c') and not n.get('lv'):
        d = I.destloc(st, fr, nid)
        st.mem[d] = v
        return [('ret', st, d)]
    return [('ret', st, I.typed(v, n))]


def call(I, st, fr, nid, n, obj, args):
    fq = _i.strip_t(n.get('fq', ''))
    if not (fq.startswith('std::') or fq.startswith('__gnu_cxx') or fq.startswith('mem') or fq in CFUN):
        return None
    if '::' not in fq:
        f = CFUN.get(fq)
        return f(I, st, fr, nid, n, args) if f else None
    cls, _, name = fq.rpartition('::')
    val = lambda i: I.aval(st, fr, args[i])
    loc = lambda i: I.aloc(st, fr, args[i])
    sval = lambda i: I.rd(st, args[i][1]) if args[i][2] else args[i][1]
    if cls in PTR:
        return ptr(I, st, fr, nid, n, obj, args, cls, name, sval)
    if cls == 'std' and name in ('static_pointer_cast', 'const_pointer_cast', 'dynamic_pointer_cast', 'reinterpret_pointer_cast'):
        v = sval(0)
        if name == 'dynamic_pointer_cast':
            if v == C0:
                return ret(I, st, fr, nid, n, C0)
            d = I.cl.dyncast(I, st, fr, nid, n, v, n.get('targs', ['?'])[0])
            if d is not None:
                return ret(I, st, fr, nid, n, d)
            t = ('dyn', n.get('targs', ['?'])[0], v)
            lin.setrange(t, 0, None)
            return ret(I, st, fr, nid, n, t)
        if name == 'static_pointer_cast':
            I.cl.on_cast(I, st, fr, nid, n, v)
        return ret(I, st, fr, nid, n, v)
    if cls in VEC:
        return vec(I, st, fr, nid, n, obj, args, cls, name, sval)
    if cls in IT or cls in TIT or cls == '__gnu_cxx' or cls == 'std::_Rb_tree_iterator':
        r = iters(I, st, fr, nid, n, obj, args, cls, name, sval)
        if r is not None:
            return r
    if cls == 'std::basic_string':
        return string(I, st, fr, nid, n, obj, args, name, sval)
    if cls == 'std':
        return free(I, st, fr, nid, n, args, name, sval)
    if cls == 'std::initializer_list' and obj is not None and name in ('begin', 'end', 'size'):
        b, k = ('il', I.objkey(st, obj)), ('ilsize', I.objkey(st, obj))
        lin.setrange(b, 0, None)
        lin.setrange(k, 0, None)
        return [('ret', st, b if name == 'begin' else k if name == 'size' else add(b, k))]
    if cls in MAP:
        return mapm(I, st, fr, nid, n, obj, args, cls, name, sval)
    return None


def ptr(I, st, fr, nid, n, obj, args, cls, name, sval):
    short = cls.split('::')[-1]
    if name == 'shared_from_this':
        return ret(I, st, fr, nid, n, ('addr', obj))
    if name == short or name in ('shared_ptr', 'unique_ptr', 'auto_ptr', 'weak_ptr', '__shared_ptr'):
        d = I.destloc(st, fr, nid)
        if not args:
            v = C0
        else:
            v = sval(0)
            if n.get('move') or (n.get('pk') or ['v'])[0] == 'm' and args[0][2]:
                I.wr(st, args[0][1], C0)
            if short in ('auto_ptr',) and args[0][2] and v[0] != 'c':
                I.wr(st, args[0][1], C0)
        I.wr(st, d, v, fr, nid)
        return [('ret', st, d)]
    if name == '~' + short:
        return [('ret', st, C0)]
    if name == 'operator->':
        v = I.rd(st, obj)
        I.cl.on_deref(I, st, fr, nid, v)
        return [('ret', st, v)]
    if name == 'operator*':
        v = I.rd(st, obj)
        I.cl.on_deref(I, st, fr, nid, v)
        return [('ret', st, I.deref(v))]
    if name == 'operator[]':
        return None
    if name in ('get', 'lock'):
        return ret(I, st, fr, nid, n, I.rd(st, obj))
    if name == 'operator bool':
        v = I.rd(st, obj)
        lin.setrange(v, 0, None)
        return [('ret', st, I.compare(st, v, C0, '!='))]
    if name == 'reset':
        I.wr(st, obj, sval(0) if args else C0, fr, nid)
        return [('ret', st, C0)]
    if name == 'release':
        v = I.rd(st, obj)
        I.wr(st, obj, C0, fr, nid)
        return [('ret', st, v)]
    if name == 'swap':
        o = args[0][1]
        a, b = I.rd(st, obj), I.rd(st, o)
        I.wr(st, obj, b, fr, nid)
        I.wr(st, o, a, fr, nid)
        return [('ret', st, C0)]
    if name == 'operator=':
        v = sval(0)
        I.wr(st, obj, v, fr, nid)
        if (n.get('pk') or ['v'])[0] == 'm' and args[0][2]:
            I.wr(st, args[0][1], C0)
        return [('ret', st, obj)]
    if name == 'unique':
        v = I.rd(st, obj)
        t = ('usecount', v)
        lin.setrange(t, 0, None)
        return [('ret', st, I.compare(st, t, C1, '=='))]
    if name == 'use_count':
        t = ('usecount', I.rd(st, obj))
        lin.setrange(t, 0, None)
        return [('ret', st, t)]
    return None


def vec(I, st, fr, nid, n, obj, args, cls, name, sval):
    short = cls.split('::')[-1]
    if name == short:
        d = I.destloc(st, fr, nid)
        if n.get('copy') or n.get('move') or n.get('elide'):
            I.copy_obj(st, args[0][1], d)
            if n.get('move'):
                I.wr(st, args[0][1], ('empty',))
                set_size(I, st, args[0][1], C0)
            return [('ret', st, d)]
        real = [a for a in args if fr.fn.nodes[a[0]]['k'] != 'CXXDefaultArgExpr']
        I.wr(st, d, ('hv', fr.id, nid, 'vec'))
        if not real:
            set_size(I, st, d, C0)
        elif fr.fn.nodes[real[0][0]].get('w'):
            set_size(I, st, d, I.aval(st, fr, real[0]))
            if len(real) == 1:
                I.wr(st, d, ('zero', fr.id, nid))
                set_size(I, st, d, I.aval(st, fr, real[0]))
        else:
            t = size_of(I, st, d)
        return [('ret', st, d)]
    if obj is None:
        return None
    L = obj
    v = lambda i: I.aval(st, fr, args[i])
    if name in ('size',):
        return [('ret', st, size_of(I, st, L))]
    if name == 'empty':
        return [('ret', st, I.compare(st, size_of(I, st, L), C0, '=='))]
    if name in ('operator[]', 'at'):
        i = v(0)
        n_ = size_of(I, st, L)
        if name == 'at':
            ok = st.fork()
            outs = []
            t = ('cmp', '>=', sub(sub(n_, i), C1))
            if I.assume(ok, t, True) and I.assume(ok, ('cmp', '>=', i), True):
                outs.append(('ret', ok, ('idx', L, i)))
            bad = st.fork()
            if I.assume(bad, t, False):
                outs.append(('throw', bad, 'std::out_of_range'))
            return outs
        I.cl.on_index(I, st, fr, nid, L, i, n_)
        return [('ret', st, ('idx', L, i))]
    if name in ('front', 'back'):
        n_ = size_of(I, st, L)
        i = C0 if name == 'front' else sub(n_, C1)
        I.cl.on_index(I, st, fr, nid, L, i, n_)
        return [('ret', st, ('idx', L, i))]
    if name == 'push_back':
        n_ = size_of(I, st, L)
        e = ('idx', L, n_)
        if args[0][2] and not _i.scalarlike(fr.fn.nodes[args[0][0]]['t']) and fr.fn.nodes[args[0][0]].get('c'):
            I.copy_obj(st, args[0][1], e)
        else:
            I.wr(st, e, sval(0), fr, nid)
        set_size(I, st, L, add(n_, C1))
        I.cl.on_write(I, st, fr, nid, L, None)
        return [('ret', st, C0)]
    if name == 'pop_back':
        n_ = size_of(I, st, L)
        I.cl.on_index(I, st, fr, nid, L, sub(n_, C1), n_)
        set_size(I, st, L, sub(n_, C1))
        I.cl.on_write(I, st, fr, nid, L, None)
        return [('ret', st, C0)]
    if name in ('push_front', 'pop_front', 'erase', 'insert', 'remove'):
        n_ = size_of(I, st, L)
        I.wr(st, L, ('hv', fr.id, nid, 'c'), fr, nid)
        set_size(I, st, L, add(n_, C1) if name in ('push_front', 'insert') else sub(n_, C1))
        t = ('hv', fr.id, nid, 0)
        return ret(I, st, fr, nid, n, t)
    if name in ('resize', 'assign'):
        k = v(0) if fr.fn.nodes[args[0][0]].get('w') or args[0][1][0] in ('c', 'lin') else None
        n_ = size_of(I, st, L)
        # surviving elements keep their values; new ones are value-initialised
        set_size(I, st, L, k if k is not None else ('hv', fr.id, nid, 'n'))
        I.cl.on_write(I, st, fr, nid, L, None)
        return [('ret', st, C0)]
    if name == 'clear':
        I.wr(st, L, ('empty',), fr, nid)
        set_size(I, st, L, C0)
        return [('ret', st, C0)]
    if name in ('reserve', 'shrink_to_fit'):
        return [('ret', st, C0)]
    if name == 'swap':
        swap_obj(I, st, L, args[0][1], fr, nid)
        return [('ret', st, C0)]
    if name == 'operator=':
        I.copy_obj(st, args[0][1], L)
        if (n.get('pk') or ['v'])[0] == 'm':
            I.wr(st, args[0][1], ('empty',))
            set_size(I, st, args[0][1], C0)
        I.cl.on_write(I, st, fr, nid, L, None)
        return [('ret', st, L)]
    if name in ('begin', 'cbegin', 'data'):
        return ret(I, st, fr, nid, n, ('addr', ('idx', L, C0)))
    if name in ('end', 'cend'):
        return ret(I, st, fr, nid, n, ('addr', ('idx', L, size_of(I, st, L))))
    if name in ('capacity', 'max_size'):
        return [('ret', st, I.typed(('call', name, L), n))]
    return None


def iters(I, st, fr, nid, n, obj, args, cls, name, sval):
    if name in ('operator==', 'operator!='):
        if obj is not None:
            a, b = I.rd(st, obj), sval(0)
        else:
            a, b = sval(0), sval(1)
        return [('ret', st, I.compare(st, a, b, name[8:]))]
    if obj is None:
        if name in ('operator-', 'operator<', 'operator<=', 'operator>', 'operator>=') and len(args) == 2:
            a, b = sval(0), sval(1)
            if name == 'operator-':
                return [('ret', st, I.ptrsub(a, b))]
            return [('ret', st, I.compare(st, a, b, name[8:]))]
        if cls in IT + TIT and n['k'] == 'CXXConstructExpr':
            v = sval(0) if args else C0
            return ret(I, st, fr, nid, n, v)
        return None
    v = I.rd(st, obj)
    lin.setrange(v, 0, None)
    tree = cls in TIT
    if name == 'operator*':
        I.cl.on_index(I, st, fr, nid, v, None, None)
        return [('ret', st, I.deref(v))]
    if name == 'operator->':
        I.cl.on_index(I, st, fr, nid, v, None, None)
        return [('ret', st, v)]
    if name in ('operator++', 'operator--'):
        d = 1 if name == 'operator++' else -1
        nv = ('next', d, v) if tree else I.ptradd(v, c(d))
        if tree:
            lin.setrange(nv, 0, None)
        I.wr(st, obj, nv, fr, nid)
        if args:                       # postfix
            return ret(I, st, fr, nid, n, v)
        return [('ret', st, obj)]
    if name in ('operator+', 'operator-'):
        if name == 'operator-' and args and args[0][2]:
            return [('ret', st, I.ptrsub(v, sval(0)))]
        k = sval(0)
        return ret(I, st, fr, nid, n, I.ptradd(v, k if name == 'operator+' else scale(k, -1)))
    if name in ('operator+=', 'operator-='):
        k = sval(0)
        I.wr(st, obj, I.ptradd(v, k if name == 'operator+=' else scale(k, -1)), fr, nid)
        return [('ret', st, obj)]
    if name == 'base':
        return ret(I, st, fr, nid, n, v)
    if name == 'operator=':
        I.wr(st, obj, sval(0), fr, nid)
        return [('ret', st, obj)]
    if name == 'operator[]':
        return [('ret', st, I.deref(I.ptradd(v, sval(0))))]
    if n['k'] == 'CXXConstructExpr':
        return ret(I, st, fr, nid, n, sval(0) if args else C0)
    return None


def strval(v):
    return ('str', v[1]) if v[0] == 'strlit' else v


def string(I, st, fr, nid, n, obj, args, name, sval):
    if name == 'basic_string':
        d = I.destloc(st, fr, nid)
        real = [a for a in args if fr.fn.nodes[a[0]]['k'] != 'CXXDefaultArgExpr' and 'allocator' not in _i.strip_t(fr.fn.nodes[a[0]]['t'])]
        if not real:
            v = ('str', '')
        elif len(real) == 1:
            v = I.rd(st, real[0][1]) if real[0][2] and real[0][1][0] != 'strlit' else strval(real[0][1])
        else:
            vs = [I.objkey(st, a[1]) if a[2] else a[1] for a in real]
            v = ('substr',) + tuple(vs)
            if len(real) == 2 and fr.fn.nodes[real[1][0]].get('w'):
                lin.setrange(('strlen', v), 0, None)
        I.wr(st, d, v, fr, nid)
        if n.get('move'):
            I.wr(st, args[0][1], ('str', ''))
        return [('ret', st, d)]
    if obj is None:
        return None
    v = I.rd(st, obj)
    if name in ('size', 'length'):
        return [('ret', st, strsize(I, st, v))]
    if name == 'empty':
        return [('ret', st, I.compare(st, strsize(I, st, v), C0, '=='))]
    if name == 'clear':
        I.wr(st, obj, ('str', ''), fr, nid)
        return [('ret', st, C0)]
    if name in ('operator=', 'assign') and len(args) == 1:
        x = sval(0) if args[0][1][0] != 'strlit' else ('str', args[0][1][1])
        I.wr(st, obj, strval(x), fr, nid)
        if (n.get('pk') or ['v'])[0] == 'm' and args[0][2]:
            I.wr(st, args[0][1], ('str', ''))
        return [('ret', st, obj)]
    if name in ('c_str', 'data'):
        t = ('addr', ('idx', obj, C0))
        return [('ret', st, t)]
    if name in ('operator[]', 'at'):
        i = sval(0)
        I.cl.on_index(I, st, fr, nid, obj, i, strsize(I, st, v))
        return [('ret', st, ('idx', obj, i))]
    if name == 'begin':
        return ret(I, st, fr, nid, n, ('addr', ('idx', obj, C0)))
    if name == 'end':
        return ret(I, st, fr, nid, n, ('addr', ('idx', obj, strsize(I, st, v))))
    if name == 'substr':
        pos = sval(0) if args else C0
        size = strsize(I, st, v)
        t = ('substr', v) + tuple(sval(i) for i in range(len(args)))
        if v[0] == 'str' and all(x[0] == 'c' for x in t[2:]):
            a = t[2][1] if len(t) > 2 else 0
            t = ('str', v[1][a:a + t[3][1]] if len(t) > 3 else v[1][a:]) if a <= len(v[1]) else t
        elif len(t) > 3 and t[3] == C0:
            t = ('str', '')
        outs = []
        bad = st.fork()
        if I.assume(bad, ('cmp', '>=', sub(sub(pos, size), C1)), True):
            outs.append(('throw', bad, 'std::out_of_range'))
        ok = st.fork()
        if I.assume(ok, ('cmp', '>=', sub(size, pos)), True):
            d = I.destloc(ok, fr, nid)
            I.wr(ok, d, t)
            l = ('strlen', t)
            lin.setrange(l, 0, None)
            if pos[0] in ('c', 'lin') or True:
                I.fact(ok, sub(sub(size, pos), l))
            outs.append(('ret', ok, d))
        return outs
    if name in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of'):
        xs = []
        for a in args:
            x = I.rd(st, a[1]) if a[2] and a[1][0] != 'strlit' else strval(a[1])
            xs.append(x)
        if v[0] == 'str' and all(x[0] in ('str', 'c') for x in xs) and len(xs) <= 2:
            r = strfind(name, v[1], *xs)
            if r is not None:
                return [('ret', st, c(r if r >= 0 else (1 << 64) - 1))]
        t = ('find', name, v) + tuple(xs)
        lin.setrange(t, 0, (1 << 64) - 1)
        size = strsize(I, st, v)
        f, g = st.fork(), st
        outs = []
        # found: t <= size-1, t >= pos
        if I.assume(f, ('cmp', '>=', sub(sub(size, t), C1)), True):
            if len(xs) > 1 and name != 'rfind':
                I.assume(f, ('cmp', '>=', sub(t, xs[1])), True)
            outs.append(('ret', f, t))
        npos = ('c', (1 << 64) - 1)
        I.assume(g, ('cmp', '==', sub(t, npos)), True)
        outs.append(('ret', g, npos))
        return outs
    if name in ('compare',):
        x = sval(0) if args[0][1][0] != 'strlit' else strval(args[0][1])
        if len(args) > 1:
            return None
        if v == x:
            return [('ret', st, C0)]
        if v[0] == 'str' and x[0] == 'str':
            return [('ret', st, c(-1 if v[1] < x[1] else 1))]
        return [('ret', st, I.typed(('strcmp', v, x), n))]
    if name == 'swap':
        swap_obj(I, st, obj, args[0][1], fr, nid)
        return [('ret', st, C0)]
    if name in ('operator+=', 'append', 'push_back', 'reserve', 'erase', 'resize', 'insert'):
        if name == 'reserve':
            return [('ret', st, C0)]
        if name in ('operator+=', 'append', 'push_back') and len(args) == 1 and v[0] == 'str' and len(v[1]) < 64:
            x = sval(0) if args[0][1][0] != 'strlit' else strval(args[0][1])
            if x[0] == 'str' or x[0] == 'c':
                I.wr(st, obj, ('str', v[1] + (x[1] if x[0] == 'str' else chr(x[1] & 255))), fr, nid)
                return [('ret', st, obj)]
        I.wr(st, obj, ('strop', name, v, fr.id, nid), fr, nid)
        return [('ret', st, obj)]
    return None


def strfind(name, s, x, pos=None):
    if x[0] == 'str':
        x = x[1]
    else:
        x = chr(x[1] & 255)
    p = pos[1] if pos is not None else (len(s) if name in ('rfind', 'find_last_of') else 0)
    if name == 'find':
        return s.find(x, p)
    if name == 'rfind':
        return s.rfind(x, 0, p + len(x))
    r = [i for i, ch in enumerate(s) if (ch in x) != (name == 'find_first_not_of')]
    r = [i for i in r if (i <= p if name == 'find_last_of' else i >= p)]
    return -1 if not r else max(r) if name == 'find_last_of' else min(r)


def swap_obj(I, st, a, b, fr=None, nid=None):
    if a == b:
        return
    t = ('tmp', -1, 'swap')
    I.copy_obj(st, a, t)
    I.copy_obj(st, b, a)
    I.copy_obj(st, t, b)
    for k in [k for k in st.mem if _i.under(k, t)]:
        del st.mem[k]
    if fr is not None:
        I.cl.on_write(I, st, fr, nid, a, None)
        I.cl.on_write(I, st, fr, nid, b, None)


def free(I, st, fr, nid, n, args, name, sval):
    if name in ('move', 'forward', 'addressof', '__addressof'):
        if name in ('move', 'forward'):
            return [('ret', st, args[0][1])]
        return [('ret', st, ('addr', args[0][1]))]
    if name == 'swap':
        swap_obj(I, st, args[0][1], args[1][1], fr, nid)
        return [('ret', st, C0)]
    if name in ('min', 'max') and len(args) == 2:
        a, b = sval(0), sval(1)
        an = fr.fn.nodes[args[0][0]]
        I.typed(a, an)
        I.typed(b, fr.fn.nodes[args[1][0]])
        outs = []
        d = sub(a, b)
        t1 = ('cmp', '>=', d)
        s2 = st.fork()
        tmp = ('tmp', fr.id, nid)
        pick = (b, a) if name == 'min' else (a, b)
        if I.assume(s2, t1, True):
            s2.mem[tmp] = pick[0]
            outs.append(('ret', s2, tmp))
        s3 = st.fork()
        if I.assume(s3, t1, False):
            s3.mem[tmp] = pick[1]
            outs.append(('ret', s3, tmp))
        return outs
    if name in ('operator==', 'operator!=') and len(args) == 2:
        ta = _i.strip_t(_i.strip_cv(fr.fn.nodes[args[0][0]]['t']))
        tb = _i.strip_t(_i.strip_cv(fr.fn.nodes[args[1][0]]['t']))
        a = sval(0) if args[0][1][0] != 'strlit' else strval(args[0][1])
        b = sval(1) if args[1][1][0] != 'strlit' else strval(args[1][1])
        if 'std::basic_string' in (ta, tb):
            if a == b:
                r = C1
            elif a[0] == 'str' and b[0] == 'str':
                r = C0
            else:
                x, y = sorted((a, b), key=lin.okey)
                r = ('streq', x, y)
                lin.setrange(r, 0, 1)
            if name == 'operator!=':
                r = c(1 - r[1]) if r[0] == 'c' else ('not', r)
            return [('ret', st, r)]
        if ta in ('std::vector', 'std::map', 'std::set', 'std::pair'):
            x, y = sorted((I.objkey(st, args[0][1]), I.objkey(st, args[1][1])), key=lin.okey)
            r = ('eq', x, y)
            lin.setrange(r, 0, 1)
            return [('ret', st, r if name == 'operator==' else ('not', r))]
        return [('ret', st, I.compare(st, a, b, name[8:]))]
    if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(args) == 2:
        if args[0][2]:
            r = ('ord', name, sval(0), sval(1))
            lin.setrange(r, 0, 1)
            return [('ret', st, r)]
    if name in ('copy', 'copy_n', 'fill', 'fill_n', 'transform', 'move_backward', 'copy_backward') and len(args) >= 3:
        return None
    if name == 'make_pair' or name == 'operator+':
        vs = tuple(I.objkey(st, a[1]) if a[2] else a[1] for a in args)
        return ret(I, st, fr, nid, n, (name,) + vs)
    if name == 'operator<<':
        return [('ret', st, args[0][1])]
    return None


def mapm(I, st, fr, nid, n, obj, args, cls, name, sval):
    if obj is None:
        return None
    key = I.objkey(st, obj)
    if name in ('find', 'end', 'begin', 'lower_bound', 'upper_bound', 'cbegin', 'cend'):
        t = ('mapit', name, key if name != 'end' else obj) + tuple(sval(i) for i in range(len(args)))
        if name == 'end':
            t = ('mapend', obj)
        lin.setrange(t, 0, None)
        return ret(I, st, fr, nid, n, t)
    if name == 'operator[]':
        return [('ret', st, ('idx', obj, sval(0)))]
    if name in ('size', 'empty', 'count'):
        t = ('call', name, key) + tuple(sval(i) for i in range(len(args)))
        if name == 'empty':
            s_ = ('call', 'size', key)
            lin.setrange(s_, 0, None)
            return [('ret', st, I.compare(st, s_, C0, '=='))]
        lin.setrange(t, 0, None)
        return [('ret', st, t)]
    if name in ('insert', 'erase', 'clear'):
        I.wr(st, obj, ('empty',) if name == 'clear' else ('hv', fr.id, nid, 'map'), fr, nid)
        t = ('hv', fr.id, nid, 0)
        return ret(I, st, fr, nid, n, t)
    if name == 'swap':
        swap_obj(I, st, obj, args[0][1], fr, nid)
        return [('ret', st, C0)]
    return None


def c_mem(I, st, fr, nid, n, args):
    return None


CFUN = {}
