"""Violations, known findings, evidence."""
import json, os, sys, time, re
from . import facts
VERIF = facts.VERIF

class Report:
    def __init__(self, pid, tier, technique=''):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.viol = []; self.cov = {}; self.assume = []; self.samples = []; self.rules = []
        self.dead = []
        self.known = load_known(pid)
    def count(self, name, n=1): self.cov[name] = self.cov.get(name, 0) + n
    def set(self, name, v): self.cov[name] = v
    def rule(self, text): self.rules.append(text)
    def assumption(self, text): self.assume.append(text)
    def sample(self, s):
        if len(self.samples) < 40: self.samples.append(s)
    def violation(self, key, msg, loc, trace=()):
        if any(v['key'] == key for v in self.viol): return
        self.viol.append({'key': key, 'what': msg, 'where': loc, 'trace': list(trace)})
    def need(self, ok, what):
        """an anchor the analysis cannot do without"""
        if not ok: self.dead.append(what)
    def finish(self, level, explanation):
        P = self.pid
        new, old = [], []
        for v in self.viol:
            (old if v['key'] in self.known else new).append(v)
        evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
        cov = dict(self.cov); cov['explanation'] = explanation; cov['rules'] = self.rules
        cov['samples'] = self.samples
        cov['known_findings'] = [v['key'] for v in old]
        ev = {'property': P, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        with open(f'{evd}/{P}.json', 'w') as f: json.dump(ev, f, indent=1, sort_keys=True); f.write('\n')
        for v in old: print(f'KNOWN-FINDING: property={P} {v["where"]}: {v["what"]} [{v["key"]}]')
        if self.dead:
            for d in self.dead: print(f'{P}: cannot decide: {d}')
        if new:
            rp = f'{evd}/{P}.violations.json'
            with open(rp, 'w') as f: json.dump(new, f, indent=1); f.write('\n')
            for v in new:
                print(f'{P}: {v["where"]}: {v["what"]} [{v["key"]}]')
                for t in v['trace']: print('    ' + t)
            print(f'VIOLATION property={P} replay={rp}')
            return 1
        if self.dead: return 2
        print(f'{P}: held on everything analysed: ' + ', '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, (int, float))))
        return 0

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt'); out = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=<(.*?)>\s*(.*)', line)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out
