"""Findings, evidence, exit status."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class CannotAnalyse(Exception):
    pass


def known(prop):
    """Keys of the recorded findings of a property: `known: property=<id> key=<key> :: <text>`."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) :: (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.viol = {}          # key -> record
        self.coverage = {}
        self.assume = []
        self.level = 'other'
        self.notes = []

    def violation(self, key, text, **rec):
        if key not in self.viol:
            self.viol[key] = dict(key=key, text=text, **rec)

    def write(self, nviol=0):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level,
                  coverage=self.coverage or {'explanation': 'nothing could be analysed'}, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=nviol)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)

    def finish(self):
        kn = known(self.prop)
        new = []
        for k, v in self.viol.items():
            if k in kn:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kn[k]))
            else:
                new.append(v)
        self.write(len(new))
        if not new:
            print('OK property=%s tier=%s wall=%.1fs %s' % (self.prop, self.tier, time.time() - self.t0, self.coverage.get('explanation', '')))
            return 0
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + '.json')
        with open(p, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:10]:
            print('  %s' % v['text'])
        if len(new) > 10:
            print('  ... and %d more' % (len(new) - 10))
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1
