"""Extract the resolved program from /repo's current working tree and load it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
BASE = '/opt/vp/epics-base'


class AnalysisBroken(Exception):
    """the analysis can give no verdict (exit code 2)"""


def tool_path():
    return os.path.join(HERE, 'build', 'pvfacts')


def build_tool():
    out = tool_path()
    src = os.path.join(HERE, 'pvfacts.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I%s/include' % LLVM, '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '%s/lib/libclang-cpp.so.18.1' % LLVM, '%s/lib/libLLVM-18.so' % LLVM]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build pvfacts: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def library_sources(repo):
    """the translation units the library is linked from: LIBSRCS of src/*/Makefile"""
    out = []
    srcdir = os.path.join(repo, 'src')
    for d in sorted(os.listdir(srcdir)):
        mk = os.path.join(srcdir, d, 'Makefile')
        if not os.path.isfile(mk):
            continue
        txt = open(mk).read().replace('\\\n', ' ')
        for m in re.finditer(r'^\s*(?:LIBSRCS|pvData_SRCS)\s*\+?=\s*(.*)$', txt, re.M):
            for f in m.group(1).split():
                p = os.path.join(srcdir, d, f)
                if os.path.isfile(p):
                    out.append(p)
                else:
                    # sources may live in a sibling directory (SRC_DIRS is a search path)
                    for d2 in sorted(os.listdir(srcdir)):
                        p = os.path.join(srcdir, d2, f)
                        if os.path.isfile(p):
                            out.append(p)
                            break
    return sorted(set(out))


def version_header(repo, dst):
    t = open(os.path.join(repo, 'src/pv/pvdVersionNum.h@')).read()
    cfg = open(os.path.join(repo, 'configure/CONFIG_PVDATA_VERSION')).read()
    for m in re.finditer(r'^\s*(EPICS_PVD_\w+)\s*=\s*(\S+)', cfg, re.M):
        t = t.replace('@%s@' % m.group(1), m.group(2))
    os.makedirs(os.path.join(dst, 'pv'), exist_ok=True)
    open(os.path.join(dst, 'pv', 'pvdVersionNum.h'), 'w').write(t)


def flags(repo, inc):
    s = os.path.join(repo, 'src')
    f = ['-x', 'c++', '-std=gnu++17', '-w', '-D_GNU_SOURCE', '-D_DEFAULT_SOURCE', '-D_X86_64_', '-DUNIX', '-Dlinux',
         '-DPVD_INTERNAL', '-I' + inc, '-I' + os.path.join(HERE, 'shim'), '-I' + s]
    for d in sorted(os.listdir(s)):
        if os.path.isdir(os.path.join(s, d)) and not d.startswith('O.'):
            f.append('-I' + os.path.join(s, d))
    f += ['-I%s/include/compiler/gcc' % BASE, '-I%s/include/os/Linux' % BASE, '-I%s/include' % BASE,
          '-resource-dir', LLVM + '/lib/clang/18']
    return f


class Fn(object):
    __slots__ = ('d', 'usr', 'q', 'qt', 'n', 'l', 'cls', 'clsq', 'blocks', 'nodes', 'vars', 'entry', 'exit', 'params',
                 '_prep')

    def __init__(self, d):
        self.d = d
        self.usr = d['usr']
        self.q = d['q']
        self.qt = d['qt']
        self.n = d['n']
        self.l = d['l']
        self.cls = d.get('cls')
        self.clsq = d.get('clsq')
        self.blocks = {b['id']: b for b in d.get('blocks', [])}
        for b in self.blocks.values():
            for e in b['el']:
                if isinstance(e, dict) and e.get('e') is True:     # key shared with the enum flag of the member type
                    e['e'] = 'init'
        self.nodes = {int(k): v for k, v in d.get('nodes', {}).items()}
        self.vars = {int(k): v for k, v in d.get('vars', {}).items()}
        self.entry = d.get('entry')
        self.exit = d.get('exit')
        self.params = d.get('params', [])
        self._prep = None

    def __repr__(self):
        return '<fn %s %s>' % (self.qt, self.l)

    @property
    def file(self):
        return self.l.rsplit(':', 1)[0]


class Program(object):
    def __init__(self):
        self.fns = {}
        self.by_q = {}
        self.recs = {}
        self.rec_qt = {}
        self.rec_q = {}
        self.enums = {}
        self.globs = {}
        self.defaulted = {}
        self.units = []
        self.subclasses = {}
        self.over = {}

    def load_line(self, line):
        d = json.loads(line)
        k = d['kind']
        u = d['usr']
        if k == 'fn':
            if u not in self.fns and 'blocks' in d:
                f = Fn(d)
                self.fns[u] = f
                self.by_q.setdefault(f.q, []).append(f)
        elif k == 'rec':
            if u not in self.recs:
                self.recs[u] = d
                self.rec_qt[d['qt']] = d
                self.rec_q.setdefault(d['q'], []).append(d)
        elif k == 'enum':
            self.enums[d['q']] = d
        elif k == 'glob':
            if u not in self.globs or 'init' in d and 'init' not in self.globs[u]:
                self.globs[u] = d
        elif k == 'defaulted':
            self.defaulted[u] = d

    def finish(self):
        for r in self.recs.values():
            for b in r['bases']:
                self.subclasses.setdefault(b.get('usr'), []).append(r['usr'])
            for m in r['methods']:
                for o in m['over']:
                    self.over.setdefault(o, set()).add(m['usr'])

    def fn(self, q, **kw):
        """all definitions with this qualified name (template args ignored)"""
        return [f for f in self.by_q.get(q, [])]

    def all_subclasses(self, usr):
        out, todo = [], list(self.subclasses.get(usr, []))
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += self.subclasses.get(x, [])
        return out

    def overriders(self, usr):
        out, todo = set(), [usr]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += list(self.over.get(x, []))
        return out

    def statics(self):
        """constants that are static variables of a function, by the name their location has in the interpreter"""
        if getattr(self, '_statics', None) is None:
            at, self._statics = {}, {}
            for g in self.globs.values():
                if g.get('static') and g.get('const'):
                    at.setdefault((g['l'], g['n']), []).append(g)
            for f in self.fns.values():
                for v in f.vars.values() if isinstance(f.vars, dict) else f.vars:
                    if v.get('k') == 'static':
                        g = at.get((v['l'], v['n']), ())
                        if len(g) == 1:
                            self._statics[f.usr + '#' + v['n']] = g[0]
        return self._statics

    def enum_vals(self, q):
        return [(v['n'].split('::')[-1], v['v']) for v in self.enums[q]['vals']]


_cache = {}


def load(repo=None, extra=True):
    repo = repo or REPO
    key = (repo, extra)
    if key in _cache:
        return _cache[key]
    tool = build_tool()
    tmp = tempfile.mkdtemp(prefix='pvfacts.')
    try:
        inc = os.path.join(tmp, 'inc')
        version_header(repo, inc)
        srcs = library_sources(repo)
        if len(srcs) < 30:
            raise AnalysisBroken('only %d library sources found' % len(srcs))
        fl = flags(repo, inc)
        units = list(srcs)
        ext = os.path.join(HERE, 'instantiate.cpp')
        if not extra or not os.path.exists(ext):
            ext = None
        n = min(8, os.cpu_count() or 2)
        units_sorted = sorted(units, key=lambda p: -os.path.getsize(p))
        shards = [units_sorted[i::n] for i in range(n)]
        if ext:
            shards.append([ext])
        root = os.path.realpath(os.path.join(repo, 'src')) + '/'

        def run(i):
            out = os.path.join(tmp, 'f%d.json' % i)
            r = subprocess.run([tool, '-root', root, '-o', out] + shards[i] + ['--'] + fl,
                               capture_output=True, text=True, timeout=600)
            return out, r
        prog = Program()
        prog.repo = repo
        prog.units = [os.path.relpath(u, repo) if u.startswith(repo) else u for u in units]
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(run, range(len(shards))))
        prog.extra_ok = bool(ext)
        if ext and res[-1][1].returncode:
            # an interface it instantiates has changed: go without it
            prog.extra_ok = False
            prog.extra_err = res.pop()[1].stderr
        for out, r in res:
            if r.returncode:
                raise AnalysisBroken('parse failed: ' + r.stderr[-3000:])
        for out, r in res:
            with open(out) as fh:
                for line in fh:
                    prog.load_line(line)
        prog.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _cache[key] = prog
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.fns), 'functions', len(p.recs), 'records', len(p.globs), 'globals', time.time() - t)
