"""concise CFG dump: python3 -m pv.show <qualified name substring> [exact]"""
import sys
from . import facts


def expr(fn, nid, d=0):
    if nid is None:
        return 'this?'
    n = fn.nodes[nid]
    k = n['k']
    if d > 8:
        return '..'
    o = [expr(fn, x, d + 1) for x in n.get('o', [])]
    if 'cv' in n and k not in ('DeclRefExpr',):
        return '%s' % n['cv']
    if k == 'DeclRefExpr':
        if 'enum' in n:
            return n['enum'].split('::')[-1]
        if 'fn' in n:
            return n['fname']
        v = fn.vars[n['v']]
        return v['n']
    if k == 'MemberExpr':
        return o[0] + ('->' if n.get('arrow') else '.') + n['mn']
    if k == 'CXXThisExpr':
        return 'this'
    if k == 'CXXConstructExpr' or k == 'CXXTemporaryObjectExpr':
        return 'C:%s(%s)' % (n['fname'], ','.join(o))
    if k == 'CXXMemberCallExpr':
        return '%s.%s(%s)' % (o[0], n.get('fname'), ','.join(o[1:]))
    if k == 'CXXOperatorCallExpr':
        return 'op%s(%s)' % (n.get('op'), ','.join(o))
    if k == 'CallExpr':
        return '%s(%s)' % (n.get('fq', '*ind'), ','.join(o[1:] if len(o) and n.get('k') == 'X' else o))
    if k.endswith('CastExpr'):
        if n.get('exp'):
            return '(%s)%s' % (n['t'], o[0])
        return o[0]
    if 'op' in n and len(o) == 2:
        return '(%s %s %s)' % (o[0], n['op'], o[1])
    if 'op' in n and len(o) == 1:
        return n['op'] + o[0]
    if 'str' in n:
        return repr(n['str'])
    if 'decls' in n:
        return 'decl ' + '; '.join('%s=%s' % (fn.vars[x['v']]['n'], expr(fn, x['init'], d + 1) if 'init' in x else '') for x in n['decls'])
    return '%s(%s)' % (k, ','.join(o))


def show(fn):
    print('==', fn.qt, fn.l, 'entry', fn.entry, 'exit', fn.exit)
    used = set()
    for n in fn.nodes.values():
        for x in n.get('o', []):
            used.add(x)
        for x in n.get('decls', []):
            used.add(x.get('init'))
    for b in sorted(fn.blocks, reverse=True):
        B = fn.blocks[b]
        print(' B%d%s' % (b, ' ' + str(B['label']) if 'label' in B else ''))
        for e in B['el']:
            if isinstance(e, dict):
                print('    <%s>' % ' '.join('%s=%s' % (k, expr(fn, v) if k == 'init' else fn.vars[v]['n'] if k == 'v' else v) for k, v in e.items()))
            elif e not in used:
                print('    %d: %s' % (e, expr(fn, e)))
        t = B.get('term')
        if t:
            print('    T:%s %s' % (t['k'], expr(fn, t['c']) if 'c' in t else ''), end='')
        print('    ->', B['su'])


if __name__ == '__main__':
    p = facts.load()
    for f in p.fns.values():
        if (f.q == sys.argv[1]) if len(sys.argv) > 2 else (sys.argv[1] in f.qt):
            show(f)
