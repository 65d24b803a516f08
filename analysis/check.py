#!/usr/bin/env python3
"""python3 analysis/check.py <property id> [--tier quick|thorough]

exit 0: the property held on everything analysed; 1: VIOLATION line(s); 2: no verdict."""
import importlib
import json
import os
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pv import facts          # noqa: E402


class Ctx(object):
    def __init__(self, pid, prog, tier):
        self.pid, self.p, self.tier = pid, prog, tier
        self.violations = []
        self.obl = {}                # (rule, where) -> True/False/None
        self.info = {}
        self.undecided = []
        self.assume = []
        self.fns = set()

    def ob(self, rule, where, ok=True, msg=None, fn=None, loc=None, path=None):
        """one obligation; ok False is a violation, None undecided"""
        k = (rule, where)
        old = self.obl.get(k, True)
        self.obl[k] = False if ok is False or old is False else None if ok is None or old is None else True
        if ok is False:
            self.violation(rule, msg or where, fn, loc, path)
        elif ok is None:
            self.undecided.append('%s: %s' % (rule, where))

    def violation(self, rule, msg, fn=None, loc=None, path=None):
        v = {'rule': rule, 'msg': msg, 'fn': getattr(fn, 'qt', fn) or '', 'loc': loc or getattr(fn, 'l', '') or '',
             'path': path or []}
        for o in self.violations:
            if o['rule'] == rule and o['msg'] == msg and o['fn'] == v['fn'] and o['loc'] == v['loc']:
                return
        self.violations.append(v)

    def seen(self, fn):
        self.fns.add(fn.qt)

    def require(self, cond, msg):
        if not cond:
            raise facts.AnalysisBroken(msg)

    def absorb(self, I):
        """take over the obligations and reports of an interpreter run"""
        for k, v in I.obl.items():
            kk = (k[0], '%s@%s: %s' % (k[1], k[2], k[3]))
            old = self.obl.get(kk, True)
            self.obl[kk] = False if v is False or old is False else None if v is None or old is None else True
            if v is None:
                self.undecided.append('%s: %s' % kk)
        for r in I.reports.values():
            self.violation(r['rule'], r['msg'], r['fn'], r['loc'], r['path'])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    try:
        mod = importlib.import_module('rules.%s' % pid.lower())
        prog = facts.load()
        ctx = Ctx(pid, prog, tier)
        mod.run(ctx)
        if not ctx.obl:
            raise facts.AnalysisBroken('no instance of the property was found')
        if not ctx.violations and any(v is False for v in ctx.obl.values()):
            raise facts.AnalysisBroken('an obligation failed without a report')
    except facts.AnalysisBroken as e:
        print('ERROR property=%s no verdict: %s' % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % pid)
        sys.exit(2)
    known = []
    kf = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(kf):
        # known: property=<id> | rule | function | text of the finding
        for line in open(kf):
            if line.startswith('known: property=%s |' % pid):
                x = [y.strip() for y in line.split('|')]
                known.append({'rule': x[1], 'fn': x[2], 'msg': x[3]})
    new, old = [], []
    for v in ctx.violations:
        for k in known:
            if k['rule'] == v['rule'] and k['fn'] == v['fn'] and k['msg'] in v['msg']:
                old.append((k, v))
                break
        else:
            new.append(v)
    done = sum(1 for x in ctx.obl.values() if x is True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': mod.__doc__.strip(), 'rule': getattr(mod, 'RULE', mod.__doc__.strip().split('\n')[0]),
                       'obligations': len(ctx.obl), 'discharged': done,
                       'undecided': sorted(set(ctx.undecided))[:40],
                       'functions_analysed': len(ctx.fns), 'functions': sorted(ctx.fns)[:400],
                       'translation_units': len(prog.units),
                       'samples': ['%s | %s' % k for k in sorted(ctx.obl, key=str)[:25]]},
          'assumptions': ctx.assume, 'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    ev['coverage'].update(ctx.info)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if new:
        rp = os.path.join(VERIF, 'evidence', '%s.violations.json' % pid)
        json.dump(new, open(rp, 'w'), indent=1)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w'), indent=1)
    for k, v in old:
        print('KNOWN-FINDING: property=%s %s: %s: %s' % (pid, v['loc'], v['fn'], v['msg']))
    for v in new:
        print('  %s: [%s] %s: %s' % (v['loc'], v['rule'], v['fn'], v['msg']))
        if len(v['path']) > 1:
            print('      via ' + ' > '.join(v['path']))
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (
        pid, len(ctx.obl), done, len(set(ctx.undecided)), len(ctx.fns), time.time() - t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
