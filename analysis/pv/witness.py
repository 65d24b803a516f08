"""Type-level witnesses: small programs that must (not) compile against the current headers."""
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import facts


def compile_all(items, repo=None):
    """items: [(name, source)] -> {name: (ok, first error)}"""
    repo = repo or facts.REPO
    tmp = tempfile.mkdtemp(prefix='pvwit.')
    try:
        inc = os.path.join(tmp, 'inc')
        facts.version_header(repo, inc)
        fl = facts.flags(repo, inc)

        def one(it):
            fn = os.path.join(tmp, '%s.cpp' % abs(hash(it[0])))
            open(fn, 'w').write(it[1])
            r = subprocess.run([facts.LLVM + '/bin/clang', '-fsyntax-only'] + fl + [fn], capture_output=True, text=True)
            err = [l for l in r.stderr.split('\n') if 'error:' in l]
            return it[0], (r.returncode == 0, err[0] if err else '')
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, items))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
