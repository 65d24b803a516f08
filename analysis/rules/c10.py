"""Every dispatch on a field kind or a scalar type does for each kind what belongs to it.

Each operation is interpreted once per kind (and once with a code that is none), with everything it can ask for a kind answering that one.
Typed operations: the types named by the calls, casts and objects on the paths of a kind, less those common to all kinds, are those of that
kind only, and there are some; a kind is refused only where the operation refuses it by design, and then by an exception. Grouped operations:
the kinds of a group run the same code and not that of an unknown kind. Everywhere: the code of one case label is never entered from the code
of another."""
import re

from pv import lin
from pv.lin import c, sub
from pv.interp import Interp, Client, State, Budget

NS = 'epics::pvData::'
THIS = ('cb', 'this')
DOM = {NS + 'Type': 'Type', NS + 'ScalarType': 'ScalarType'}


def unwrap(f, i):
    n = f.nodes[i]
    while n['k'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('o'):
        m = f.nodes.get(n['o'][0])
        if m is None:
            break
        n = m
    return n


def etype(f, i):
    t = (unwrap(f, i).get('t') or '').replace('const ', '').replace('&', '').strip()
    return DOM.get(t)


class Sel(Client):
    max_depth = 3
    cap = 60

    def __init__(self, root, fix):
        self.root, self.fix = root, fix
        self.used = set()

    def inline(self, I, fn, fr):
        return fn.usr in self.local

    def pre_call(self, I, st, fr, nid, n, a):
        t = DOM.get((n.get('t') or '').replace('const ', '').replace('&', '').strip())
        if t and not (n.get('fname') or '').startswith('operator'):
            self.used.add(t)
            if t in self.fix:
                return [('ret', st, c(self.fix[t]))]
        return None


class It(Interp):
    def block(self, fr, b, st):
        self.visited.add((fr.fn.usr, b))
        return super().block(fr, b, st)

    def rd(self, st, loc):
        v = super().rd(st, loc)
        if v[0] == 'init' and v[1][0] == 'fld' and v[1][2] in self.enumfields:
            t = self.enumfields[v[1][2]]
            self.cl.used.add(t)
            if t in self.cl.fix:
                return c(self.cl.fix[t])
        return v


def go(p, f, client, ef):
    I = It(p, client, 60000)
    I.visited = set()
    I.enumfields = ef
    st = State()
    fr = I.frame(f, None, None, THIS if f.cls and not f.d.get('static') else None)
    for x in f.params:
        t = DOM.get(str(f.vars[x].get('t')).replace('const ', '').replace('&', '').strip())
        if t:
            client.used.add(t)
            if t in client.fix:
                st.mem[('var', fr.id, x)] = c(client.fix[t])
    return I, I.run_fn(fr, st)


def dispatches(p):
    out = []
    for f in p.fns.values():
        if not f.blocks:
            continue
        for b in f.blocks.values():
            t = b.get('term')
            if not t or 'c' not in t:
                continue
            n = f.nodes.get(t['c'])
            if n is None:
                continue
            if t['k'] == 'SwitchStmt' and etype(f, t['c']):
                out.append(f)
                break
            u = unwrap(f, t['c'])
            if u['k'] == 'BinaryOperator' and u.get('op') in ('==', '!=') and any(etype(f, o) for o in u['o']):
                out.append(f)
                break
    return out


KIND = {'Scalar': 'scalar', 'ScalarArray': 'scalarArray', 'Structure': 'structure', 'StructureArray': 'structureArray', 'Union': 'union_', 'UnionArray': 'unionArray'}
ELEM = {'char': 'pvBoolean', 'signed char': 'pvByte', 'short': 'pvShort', 'int': 'pvInt', 'long': 'pvLong', 'unsigned char': 'pvUByte', 'unsigned short': 'pvUShort',
        'unsigned int': 'pvUInt', 'unsigned long': 'pvULong', 'float': 'pvFloat', 'double': 'pvDouble', 'STRING': 'pvString'}
STRING = re.compile(r'std::(?:__cxx11::)?basic_string<char(?:, std::char_traits<char>, std::allocator<char>\s*)?>|std::string\b')
RK = re.compile(r'\b(?:PV)?(ScalarArray|Scalar|StructureArray|Structure|UnionArray|Union)(?:ConstPtr|Ptr)?\b(?!::)')
RE_ = re.compile(r'epics::pvData::[\w:]*<(?:const )?(' + '|'.join(sorted(ELEM, key=len, reverse=True)) + r')(?: const)?\s*[,>]')
RA = re.compile(r'PVValueArray<(?:std::|boost::)?shared_ptr<(?:epics::pvData::)?PV(Structure|Union)>\s*>')


def tags(text, d):
    text = STRING.sub('STRING', text)
    if d == 'ScalarType':
        return ({'pvString'} if re.search(r'\bPV(Bounded)?String\b', text) else set()) | {ELEM[x] for x in RE_.findall(text)}
    out = {KIND[x + 'Array'] for x in RA.findall(text)}
    text = RA.sub('', text)
    if 'PVScalarValue<' in text:
        out.add('scalar')
    if 'PVValueArray<' in text:
        out.add('scalarArray')
    text = re.sub(r'PV(ScalarValue|ValueArray)<[^<>]*(<[^<>]*>)*[^<>]*>', '', text)
    return out | {KIND[x] for x in RK.findall(text)}


def btags(p, blocks, d):
    out = set()
    for u, b in blocks:
        f = p.fns[u]
        for e in f.blocks[b]['el']:
            if isinstance(e, int):
                n = f.nodes[e]
                own = str(n.get('fq') or '').startswith(('epics', '('))
                for x in [n.get('t'), n.get('fq')] + ['epics::pvData::x<%s>' % y for y in n.get('targs') or () if own and isinstance(y, str)]:
                    out |= tags(str(x or ''), d)
    return out


ALL = {'Type': ('scalar', 'scalarArray', 'structure', 'structureArray', 'union_', 'unionArray'),
       'ScalarType': ('pvBoolean', 'pvByte', 'pvShort', 'pvInt', 'pvLong', 'pvUByte', 'pvUShort', 'pvUInt', 'pvULong', 'pvFloat', 'pvDouble', 'pvString')}
INTS = ALL['ScalarType'][1:9]
ARR = {'structureArray': {'structure'}, 'unionArray': {'union_'}}
EL = {'scalar': {'scalarArray'}, 'structure': {'structureArray'}, 'union_': {'unionArray'}}

# operation, first parameter (part of its type), what it dispatches on, kinds it handles (None: all), other types that belong to a kind
TYPED = [
    ('compareField', 'PVScalar *', 'ScalarType', None, {}), ('compareField', 'PVScalarArray *', 'ScalarType', None, {}),
    ('compare', 'Field &', 'Type', None, {}), ('operator==', 'PVField &', 'Type', None, {}),
    ('PVDataCreate::createPVField', 'const Field>', 'Type', None, {}), ('PVDataCreate::createPVField', 'PVField>', 'Type', None, {}),
    ('PVDataCreate::createPVScalar', 'const Scalar>', 'ScalarType', None, {}), ('PVDataCreate::createPVScalarArray', 'const ScalarArray>', 'ScalarType', None, {}),
    ('PVField::copyUnchecked', 'PVField &', 'Type', None, {}), ('ScalarTypeFunc::allocArray', 'ScalarType', 'ScalarType', None, {}),
    ('copy', 'PVScalarArray &', 'ScalarType', None, {}), ('valueAssign', 'PVField', 'ScalarType', None, {}), ('valueAssign', 'PVScalar', 'ScalarType', None, {}),
    ('operator<<', 'AnyScalar', 'ScalarType', None, {}),
    ('ValueBuilder::child_struct::fillStruct', '', 'ScalarType', None, {}), ('ValueBuilder::_add', 'ScalarType', 'ScalarType', None, {}),
    ('FieldBuilder::addArray', 'const Field>', 'Type', ('scalar', 'structure', 'union_'), EL),
    ('FieldBuilder::createFieldInternal', 'Type', 'Type', ('structure', 'union_'), {}),
    ('ValueBuilder::child_struct::fillStruct', '', 'Type', ('scalar', 'structure'), {}),
    ('Union::guess', 'Type', 'Type', ('scalar', 'scalarArray'), {'scalar': {'union_'}, 'scalarArray': {'union_'}}),
    ('Convert::fromString', 'PVField', 'Type', ('scalar', 'scalarArray', 'structure'), {}),
    ('show_field', '', 'Type', None, ARR),
    ('show_field', '', 'ScalarType', None, dict([(x, {'pvLong', 'pvULong'}) for x in INTS] + [('pvFloat', {'pvDouble'})])),
]
# operation, parameter, dispatch, groups of kinds that are handled alike, kinds with typed handling
GROUPED = [
    ('Structure::dumpFields', '', 'Type', (('scalar', 'scalarArray'),), {'structure': set(), 'structureArray': {'structure'}, 'union_': set(), 'unionArray': {'union_'}}),
    ('Union::dumpFields', '', 'Type', (('scalar', 'scalarArray'),), {'structure': None, 'structureArray': None, 'union_': None, 'unionArray': None}),
    ('PVField::computeOffset', '', 'Type', (('scalar', 'scalarArray', 'structureArray', 'union_', 'unionArray'),), {'structure': None}),
    ('printRaw', '', 'Type', (('scalar', 'scalarArray'), ('structureArray', 'union_', 'unionArray')), {'structure': None}),
    ]
SIZES = {'pvBoolean': 1, 'pvByte': 1, 'pvShort': 2, 'pvInt': 4, 'pvLong': 8, 'pvUByte': 1, 'pvUShort': 2, 'pvUInt': 4, 'pvULong': 8, 'pvFloat': 4, 'pvDouble': 8}
NAMES = {'ScalarType': dict(pvBoolean='boolean', pvByte='byte', pvShort='short', pvInt='int', pvLong='long', pvUByte='ubyte', pvUShort='ushort', pvUInt='uint', pvULong='ulong',
                            pvFloat='float', pvDouble='double', pvString='string'),
         'Type': dict(scalar='scalar', scalarArray='scalarArray', structure='structure', structureArray='structureArray', union_='union', unionArray='unionArray')}


def short(q):
    return q.replace('epics::pvData::', '').replace('(anonymous namespace)::', '')


def first(f):
    if not f.params:
        return ''
    t = str(f.vars[f.params[0]].get('t')).replace('epics::pvData::', '')
    return t


def find(p, name, par):
    out = []
    for f in p.fns.values():
        if f.blocks and short(f.q) == name:
            t = first(f)
            ok = par in t
            if ok and par in ('PVField>', 'PVField', 'PVScalar', 'Field &') and ('const Field>' in t or par == 'PVField' and 'PVFieldP' in t):
                ok = par == 'Field &' and '>' not in t
            if ok and par == 'Field &' and re.search(r'\w\w*Field &', t) and not re.search(r'\bField &', t):
                ok = False
            if ok:
                out.append(f)
    return out


def full(p, blocks):
    """blocks that contain code"""
    return frozenset((u, b) for u, b in blocks if p.fns[u].blocks[b]['el'])


def run(ctx):
    p = ctx.p
    vals = {k: dict(p.enum_vals(NS + k)) for k in ('Type', 'ScalarType')}
    for d in vals:
        ctx.require(set(vals[d]) == set(ALL[d]), 'the kinds are not the known ones')
    ef = {r['q'] + '::' + x['n']: DOM[x['t'].replace('const ', '')] for r in p.recs.values() for x in r.get('fields', ()) if x['t'].replace('const ', '') in DOM}
    disp = dispatches(p)
    table = {t[0] for t in TYPED} | {t[0] for t in GROUPED} | {'ScalarTypeFunc::elementSize'}
    local = {f.usr for f in disp if short(f.q) not in table}

    def runs(f, d):
        out = {}
        for k, v in sorted(vals[d].items(), key=lambda x: x[1]) + [(None, len(vals[d]))]:
            cl = Sel(f, {d: v})
            cl.local = {u for u in local if p.fns[u].file == f.file and u != f.usr}
            I, outs = go(p, f, cl, ef)
            out[k] = (outs, frozenset(I.visited))
        ctx.seen(f)
        return out

    done = set()
    for name, par, d, handled, extra in TYPED:
        for f in find(p, name, par):
            if name == 'valueAssign' and (f, d) in done:
                continue
            done.add((f, d))
            r = runs(f, d)
            common = frozenset.intersection(*[x[1] for x in r.values()])
            if all(x[1] == common for x in r.values()):
                continue                                    # no dispatch of this kind here (an overload)
            for k in ALL[d]:
                outs, vis = r[k]
                kinds = {x[0] for x in outs}
                t = btags(p, vis - common, d)
                if handled is not None and k not in handled:
                    ctx.ob('refuse', '%s: %s' % (f.q, k), 'throw' in kinds or bool(t), 'a %s is neither handled nor refused by %s' % (k, short(f.q)), f)
                    ok = not (t - {k} - extra.get(k, set()))
                else:
                    ctx.ob('handled', '%s: %s' % (f.q, k), 'ret' in kinds and bool(t), '%s does nothing for %s' % (short(f.q), k), f)
                    ok = not (t - {k} - extra.get(k, set()))
                ctx.ob('typed', '%s: %s' % (f.q, k), ok, '%s handles %s as %s' % (short(f.q), k, ', '.join(sorted(t - {k}))), f)
            if None in r and handled is None and name not in ('operator<<', 'show_field', 'copy'):
                ctx.ob('unknown', f.q, any(x[0] == 'throw' for x in r[None][0]), 'an unknown kind is not an error', f)
    for name, par, d, groups, typed in GROUPED:
        for f in find(p, name, par):
            r = runs(f, d)
            common = frozenset.intersection(*[x[1] for x in r.values()])
            unk = full(p, r[None][1])
            if all(x[1] == common for x in r.values()):
                continue
            for g in groups:
                best = max((full(p, r[k][1]) for k in g), key=len)
                for k in g:
                    ctx.ob('group', '%s: %s' % (f.q, k), full(p, r[k][1]) == best, '%s does not do for %s what it does for %s' % (short(f.q), k, ', '.join(x for x in g if x != k)), f)
            for k, e in typed.items():
                ctx.ob('handled', '%s: %s' % (f.q, k), full(p, r[k][1]) != full(p, r['scalar'][1]), '%s does not handle %s' % (short(f.q), k), f)
                if e is not None:
                    t = btags(p, r[k][1] - common, d)
                    ctx.ob('typed', '%s: %s' % (f.q, k), t and not (t - {k} - e), '%s handles %s as %s' % (short(f.q), k, ', '.join(sorted(t - {k})) or 'nothing'), f)
    for f in find(p, 'ScalarTypeFunc::elementSize', ''):
        for k, (outs, vis) in runs(f, 'ScalarType').items():
            got = {x[2] for x in outs if x[0] == 'ret'}
            if k is None:
                ctx.ob('unknown', f.q, not got, 'an unknown kind is not an error', f)
            else:
                ctx.ob('value', '%s: %s' % (f.q, k), len(got) == 1 and list(got)[0][0] == 'c' and (k not in SIZES or list(got)[0] == c(SIZES[k])), 'wrong element size of %s' % k, f)
    # no case runs into another
    for f in find(p, 'StandardField::createProperties', ''):
        r = runs(f, 'ScalarType')
        common = frozenset.intersection(*[x[1] for x in r.values()])
        for k in ALL['ScalarType'][:-1]:
            got = {x for u, b in r[k][1] - common for e in p.fns[u].blocks[b]['el'] if isinstance(e, int)
                   for x in re.findall(r"StandardField::(\w+)AlarmField'", str(p.fns[u].nodes[e]))}
            ctx.ob('typed', '%s: %s' % (f.q, k), got == {NAMES['ScalarType'][k]}, 'the alarm structure for %s is that of %s' % (k, ', '.join(sorted(got - {k})) or 'nothing'), f)
        ctx.ob('refuse', '%s: pvString' % f.q, any(x[0] == 'throw' for x in r['pvString'][0]), 'an alarm structure for strings is not refused', f)
    for f in disp:
        live, todo = set(), [f.entry]
        while todo:
            b = todo.pop()
            if b is not None and b not in live:
                live.add(b)
                todo += f.blocks[b]['su']
        labels = {b: B['label'] for b, B in f.blocks.items() if (B.get('label') or {}).get('k') in ('case', 'default')}
        sw = [b for b, B in f.blocks.items() if (B.get('term') or {}).get('k') == 'SwitchStmt' and etype(f, B['term']['c'])]
        for s_ in sw:
            tgt = [x for x in f.blocks[s_]['su'] if x in labels]
            for x in tgt:
                into = [b for b, B in f.blocks.items() if b in live and x in B['su'] and b != s_ and (B['el'] or b not in labels) and (B.get('term') or {}).get('k') != 'SwitchStmt']
                ctx.ob('fall', '%s: case at %s' % (f.q, labels[x].get('l') or x), not into, 'the code of one kind runs on into the code of another', f)
        if sw:
            ctx.seen(f)
