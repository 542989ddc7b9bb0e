"""Obligations, violations, known findings and evidence for one property."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')


class Broken(Exception):
    """the analysis cannot answer (not a verdict about the code)"""


class Check:
    def __init__(self, pid, rule, technique, level='other'):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.technique = technique
        self.t0 = time.time()
        self.obl = {}          # kind -> {key: (ok, where, note)}
        self.viol = {}         # key -> (message, where)
        self.undecided = []
        self.notes = {}
        self.assumptions = []

    def ob(self, kind, key, ok, where='', note=''):
        """one obligation; key names the construct without line numbers"""
        d = self.obl.setdefault(kind, {})
        old = d.get(key)
        if old is not None and not old[0]:
            return ok
        d[key] = (bool(ok), where, note)
        if not ok:
            self.viol.setdefault(kind + ':' + key, (note, where))
        return ok

    def skip(self, kind, key, why):
        self.undecided.append({'kind': kind, 'construct': key, 'why': why})

    def need(self, kind, n):
        """the analysis must have found at least n instances; fewer means it lost its footing"""
        have = len(self.obl.get(kind, {}))
        if have < n:
            raise Broken('%s: only %d instances of %s found, at least %d expected; the extraction no longer sees the code' % (self.pid, have, kind, n))

    def finish(self, program=None, tier='quick'):
        known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                # known: property=<id> construct=<kind:key> -- <what fails>      (fixed: lines suppress nothing)
                if line.startswith('known: property=%s construct=' % self.pid):
                    known.append(line.split(' construct=', 1)[1].split(' -- ')[0].strip())
        kn = set(known)
        rep, vio = [], []
        for key, (msg, where) in sorted(self.viol.items()):
            if key in kn:
                rep.append((key, msg, where))
            else:
                vio.append((key, msg, where))
        n = sum(len(d) for d in self.obl.values())
        okn = sum(1 for d in self.obl.values() for v in d.values() if v[0])
        cov = {
            'obligations_checked': n,
            'obligations_holding': okn,
            'obligations_by_kind': {k: len(v) for k, v in sorted(self.obl.items())},
            'undecided': self.undecided,
            'known_findings_reported': [k for k, _, _ in rep],
            'rule': self.rule,
            'technique': self.technique,
            'explanation': 'Static decision over /repo sources: %s. Every obligation below is a construct found in the current tree and the verdict of the rule on it.' % self.technique,
            'obligations': {k: {kk: ('ok' if v[0] else 'VIOLATED') + ((' @ ' + v[1]) if v[1] else '') + ((' -- ' + v[2]) if v[2] else '') for kk, v in sorted(d.items())} for k, d in sorted(self.obl.items())},
        }
        if program is not None:
            cov['translation_units'] = len(program.units)
            cov['functions_extracted'] = len(program.funcs)
        cov.update(self.notes)
        ev = {
            'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
            'coverage': cov, 'wall_s': round(time.time() - self.t0, 3),
            'assumptions': self.assumptions,
            'violations': len(vio),
        }
        evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
        os.makedirs(evdir, exist_ok=True)
        p = os.path.join(evdir, self.pid + '.json')
        with open(p, 'w') as f:
            json.dump(ev, f, indent=1)
        for key, msg, where in rep:
            print('KNOWN-FINDING: property=%s %s: %s [%s]' % (self.pid, key, msg, where))
        for key, msg, where in vio:
            print('VIOLATION property=%s replay=%s %s: %s [%s]' % (self.pid, p, key, msg, where))
        print('%s: %d obligations, %d hold, %d undecided, %d known findings, %d violations (%.1f s)' % (self.pid, n, okn, len(self.undecided), len(rep), len(vio), time.time() - self.t0))
        return 1 if vio else 0
