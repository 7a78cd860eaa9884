# Collects obligations, writes evidence, prints violations / known findings, decides the exit status.
import os, json, time, sys
from . import stage as st

ASSUME = ['clang 18 parses the sources as the user\'s compiler does (analysed with __clang__ undefined, i.e. the GCC view of the macros)',
          'the models of the target intrinsics in engine/*.cpp are those of the vendor manuals']

class Report:
    def __init__(self, prop, tier, explanation, rule, technique=''):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.expl = explanation; self.rule = rule
        self.obl = []       # dicts: id, status, where, why, witness, group
        self.notes = {}
        self.assume = list(ASSUME)
        self.known = [k for k in load_known() if k['property'] == prop]
    def add(self, id, status, where='', why='', group='', extra=None):
        assert status in ('ok', 'bad', 'undec', 'known')
        self.obl.append(dict(id=id, status=status, where=where, why=why, group=group or id.split('.')[0], extra=extra))
    def known_for(self, id):
        for k in self.known:
            if k['id'] == id: return k
        return None
    def finish(self, record=False):
        ok = [o for o in self.obl if o['status'] == 'ok']; bad = [o for o in self.obl if o['status'] == 'bad']
        und = [o for o in self.obl if o['status'] == 'undec']; kn = [o for o in self.obl if o['status'] == 'known']
        # a violation of exactly the listed kind is a known finding
        groups = {}
        for o in self.obl: groups.setdefault(o['group'], [0, 0]); groups[o['group']][0] += 1; groups[o['group']][1] += o['status'] != 'undec'
        ff = os.path.join(st.VERIF, 'spec', 'floors.json')
        floors = json.load(open(ff)) if os.path.exists(ff) else {}
        key = self.prop + '.' + self.tier
        if record:
            floors[key] = {g: v[1] for g, v in sorted(groups.items())}
            json.dump(floors, open(ff, 'w'), indent=0, sort_keys=True); open(ff, 'a').write('\n')
        problems = []
        for g, base in floors.get(key, {}).items():
            got = groups.get(g, [0, 0])[1]
            if base and got < max(1, base * 0.5): problems.append('%s: %d obligations decided, floor %d' % (g, got, max(1, int(base * 0.5))))
        if not self.obl: problems.append('no obligations')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
              'coverage': {'explanation': self.expl, 'rule': self.rule, 'obligations': len(self.obl), 'discharged': len(ok),
                           'undecided': len(und), 'known_findings': len(kn), 'violated': len(bad),
                           'groups': {g: {'obligations': v[0], 'decided': v[1]} for g, v in sorted(groups.items())},
                           'samples': [{k: o[k] for k in ('id', 'status', 'where')} for o in self.obl[:: max(1, len(self.obl) // 12)]][:14],
                           'undecided_list': [{'id': o['id'], 'why': o['why'][:200]} for o in und[:60]]},
              'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assume,
              'violations': [{'id': o['id'], 'where': o['where'], 'why': o['why']} for o in bad]}
        ev['coverage'].update(self.notes)
        os.makedirs(os.path.join(st.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(st.VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d obligations, %d discharged, %d undecided, %d known findings, %d violated (%.1f s)' % (self.prop, self.tier, len(self.obl), len(ok), len(und), len(kn), len(bad), time.time() - self.t0))
        for g, v in sorted(groups.items()): print('  %-18s %5d obligations %5d decided' % (g, v[0], v[1]))
        for o in und[:8]: print('  undecided: %s: %s' % (o['id'], o['why'][:150]))
        for o in kn: print('KNOWN-FINDING: property=%s %s' % (self.prop, o['why']))
        if bad:
            rd = os.path.join(st.VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + '.txt')
            with open(rp, 'w') as f:
                f.write('Violations of %s (rule: %s)\n\n' % (self.prop, self.rule))
                for o in bad:
                    f.write('%s\n  construct: %s\n  %s\n' % (o['id'], o['where'], o['why']))
                    if o['extra']: f.write(''.join('    | %s\n' % l for l in str(o['extra']).splitlines()))
                    f.write('\n')
            for o in bad[:25]: print('  %s at %s: %s' % (o['id'], o['where'], o['why'][:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if problems:
            for p in problems: print('COVERAGE LOST: ' + p)
            return 3
        return 0

def load_known():
    p = os.path.join(st.VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])
