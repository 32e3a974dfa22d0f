"""Verdicts, known findings and evidence."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.findings = []      # {'key','where','what','detail'}
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.rules = []
        self.functions = set()
        self.files = set()
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.broken = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, ok, key, where, what, detail=None):
        """one obligation of a rule: ok True/False/None(undecided)"""
        self.obligations += 1
        if ok is True:
            self.discharged += 1
            if len(self.samples) < 12:
                self.samples.append({'obligation': what, 'at': where, 'verdict': 'discharged'})
        elif ok is False:
            self.findings.append({'key': key, 'where': where, 'what': what, 'detail': detail or []})
        else:
            self.undecided.append({'key': key, 'where': where, 'what': what, 'detail': detail or []})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def laws(self, results):
        for r in results:
            self.obligations += r['obligations']
            self.discharged += r['discharged']
            self.count('laws')
            self.count('paths', r['paths'])
            self.count('abstract_steps', r['steps'])
            self.count('loop_fixpoint_rounds', r['rounds'])
            self.functions.update(r['functions'])
            if r['obligations'] == 0 and not r['error']:
                self.broken.append('law %s generated no obligation' % r['law'])
            if len(self.samples) < 12 and r['discharged']:
                self.samples.append({'law': r['law'], 'at': r['where'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'paths': r['paths']})
            for v in r['violations']:
                self.findings.append({'key': '%s | %s' % (v['law'], v['what']), 'where': v['at'], 'what': v['what'], 'detail': ['law ' + v['law'], 'condition ' + v['condition'], 'path:'] + v['path']})
            for v in r['undecided']:
                self.undecided.append({'key': '%s | %s' % (v['law'], v['what']), 'where': v['at'], 'what': v['what'], 'detail': [v['condition'][:400]]})
            if r['error']:
                self.undecided.append({'key': r['law'], 'where': r['where'], 'what': 'analysis gave up: %s' % r['error'], 'detail': []})

    def finish(self, tier, level='other', explanation='', write=True):
        known = []
        kf = os.path.join(ROOT, 'known-findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))['findings'] if k['property'] == self.prop and k['status'] == 'known']
        keys = {k['key']: k for k in known}
        new, old = [], {}
        seen = set()
        for f in self.findings:
            if f['key'] in keys:
                old[f['key']] = f
            else:
                k = (f['key'], f['where'])
                if k not in seen:
                    seen.add(k)
                    new.append(f)
        replay = os.path.join(ROOT, 'evidence', self.prop + '.violations.txt')
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        if os.path.exists(replay):
            os.remove(replay)
        if not self.obligations:
            self.broken.append('no obligation generated')
        ev = {
            'property': self.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
            'coverage': {
                'explanation': explanation,
                'rules': self.rules,
                'obligations': self.obligations,
                'discharged': self.discharged,
                'undecided': [{'key': u['key'], 'where': u['where'], 'what': u['what']} for u in self.undecided][:60],
                'undecided_total': len(self.undecided),
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions)[:400],
                'files': sorted(self.files),
                'counts': self.counts,
                'samples': self.samples,
                'known_findings': sorted(old),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, k, old[k]['where']))
        if new:
            with open(replay, 'w') as fh:
                for f in new:
                    fh.write('%s: %s\n    key: %s\n' % (f['where'], f['what'], f['key']))
                    for d in f['detail']:
                        fh.write('        %s\n' % (d,))
            for f in new[:20]:
                print('  %s: %s [%s]' % (f['where'], f['what'], f['key']))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(replay, ROOT)))
            return 1
        if self.broken:
            for b in self.broken:
                print('BROKEN: ' + b)
            return 2
        print('property=%s held: %d obligations, %d discharged, %d undecided, %.1fs' % (self.prop, self.obligations, self.discharged, len(self.undecided), time.time() - self.t0))
        return 0
