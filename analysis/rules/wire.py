"""Shared by C02 and C03: what a call does to a byte buffer or to the transport behind it."""
from pv.interp import strip_t

BUF = 'epics::pvData::ByteBuffer'
W = {'signed char': 1, 'char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
     'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
NAMED = {'Boolean': 'signed char', 'Byte': 'signed char', 'Short': 'short', 'Int': 'int', 'Long': 'long', 'Float': 'float', 'Double': 'double'}
CONTROL = ('epics::pvData::SerializableControl', 'epics::pvData::DeserializableControl')


def buffer_call(I, st, fr, nid, n, obj, args):
    """None, or ('put'|'get', type, count argument or None, absolute) / ('remaining'|'position'|'setposition'|'raw'|'other',...)"""
    cls = strip_t(n.get('cls') or (n.get('fq') or '').rpartition('::')[0])
    if cls != BUF:
        return None
    nm = n.get('fname') or ''
    ta = n.get('targs') or []
    np = [fr.fn.nodes[a[0]] for a in args]
    for d in ('put', 'get'):
        if not nm.startswith(d):
            continue
        t = nm[3:]
        if t in NAMED:
            return (d, NAMED[t], None, len(args) == (2 if d == 'put' else 1))
        if t == 'Array':
            return (d, ta[0] if ta else None, 1, False)
        if t == '':
            if not ta and len(args) == 3:
                return (d, 'char', 2, False)
            ty = ta[0] if ta else None
            if d == 'put':
                return (d, ty, None, len(args) == 2)
            absolute = len(args) == 1 and not np[0].get('p') and np[0]['k'] != 'CXXDefaultArgExpr' and not (n.get('pt') or [''])[0].endswith('*')
            return (d, ty, None, absolute)
    if nm in ('getRemaining', 'getPosition', 'setPosition', 'getBuffer', 'getArray'):
        return ({'getRemaining': 'remaining', 'getPosition': 'position', 'setPosition': 'setposition', 'getBuffer': 'raw'}.get(nm, 'other'),
                None, None, False)
    return ('other', nm, None, False)


def has_buffer(f):
    return any(f.vars[v]['t'].replace('const ', '').startswith(BUF) for v in f.params)


def has_control(f):
    return any(f.vars[v]['t'].replace('const ', '').startswith(CONTROL) for v in f.params)
