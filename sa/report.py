"""Findings, evidence files and the known-findings list."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Report:
    """collects the instances of one property

    Every rule instance is ``ok`` (the obligation was derived from the source),
    ``bad`` (its negation was derived) or ``unknown`` (the analysis could not
    decide; never an alarm, always listed in the evidence).
    """

    def __init__(self, pid, tier='quick', seed=1, write=True):
        self.write = write
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.okc = {}
        self.okl = {}
        self.bads = []
        self.unk = []
        self.floors = {}
        self.rules = {}
        self.assumptions = []
        self.units = set()
        self.extra = {}

    def rule(self, name, text, floor=0):
        self.rules[name] = text
        self.floors[name] = floor
        self.okc.setdefault(name, 0)
        self.okl.setdefault(name, [])

    def unit(self, name):
        self.units.add(name)

    def ok(self, rule, construct, n=1):
        self.okc[rule] = self.okc.get(rule, 0) + n
        l = self.okl.setdefault(rule, [])
        if len(l) < 12:
            l.append(construct)

    def bad(self, rule, construct, msg, where=''):
        key = f'{rule}|{construct}'
        for b in self.bads:
            if b['key'] == key:
                return
        self.bads.append({'key': key, 'rule': rule, 'construct': construct, 'where': where, 'message': msg})

    def unknown(self, rule, construct, why):
        self.unk.append({'rule': rule, 'construct': construct, 'why': why})

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # -- output ------------------------------------------------------------
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN, encoding='utf-8') as f:
                for line in f:
                    line = line.rstrip('\n')
                    if not line.startswith('KNOWN-FINDING: '):
                        continue
                    body = line[len('KNOWN-FINDING: '):]
                    head, _, rest = body.partition(' ')
                    key, _, text = rest.partition(' :: ')
                    if head == f'property={self.pid}':
                        out[key.strip()] = text.strip()
        return out

    def finish(self):
        known = self.known()
        new = [b for b in self.bads if b['key'] not in known]
        old = [b for b in self.bads if b['key'] in known]
        counts = {r: self.okc.get(r, 0) + sum(b['rule'] == r for b in self.bads)
                  + sum(u['rule'] == r for u in self.unk) for r in self.rules}
        problems = [f'rule {r}: {counts[r]} instances, expected at least {f}'
                    for r, f in self.floors.items() if counts[r] < f]
        total = sum(counts.values())
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the current source tree; nothing is executed. '
                    'Each rule instance is discharged (derived from the source), violated, or undecided.',
                'rules': self.rules,
                'instances_per_rule': counts,
                'obligations': total,
                'discharged': sum(self.okc.values()),
                'undecided': len(self.unk),
                'undecided_list': self.unk[:200],
                'units_analysed': len(self.units),
                'units_sample': sorted(self.units)[:40],
                'samples': {r: l[:6] for r, l in self.okl.items()},
                'known_findings': [b['key'] for b in old],
                'findings': new,
                **self.extra,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        if self.write:
            with open(os.path.join(ROOT, 'evidence', f'{self.pid}.json'), 'w', encoding='utf-8') as f:
                json.dump(ev, f, indent=1, default=str)
                f.write('\n')
        for b in old:
            print(f"KNOWN-FINDING: property={self.pid} {b['key']} :: {known[b['key']]}")
        print(f'{self.pid}: {total} instances, {sum(self.okc.values())} discharged, {len(self.unk)} undecided, '
              f'{len(old)} known, {len(new)} new; {len(self.units)} units; {time.time() - self.t0:.1f}s')
        stale = os.path.join(ROOT, 'evidence', f'{self.pid}.violations.txt')
        if self.write and not new and os.path.exists(stale):
            os.remove(stale)
        if new:
            path = os.path.join(ROOT, 'evidence', f'{self.pid}.violations.txt')
            with open(path if self.write else os.devnull, 'w', encoding='utf-8') as f:
                for b in new:
                    f.write(f"{b['where']}: [{b['rule']}] {b['construct']}: {b['message']}\n    rule: {self.rules.get(b['rule'], '')}\n")
            for b in new:
                print(f"  {b['where']}: [{b['rule']}] {b['construct']}: {b['message']}")
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        if problems:
            for p in problems:
                print('ANALYSIS-BROKEN:', p)
            return 3
        return 0
