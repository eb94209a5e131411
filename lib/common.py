"""Check harness: instances, violations, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
import prog as P

ROOT = P.ROOT
EVID = os.environ.get('VERIF_EVID', ROOT + '/evidence')


class Check:
    def __init__(self, pid, level, rule, tier='quick'):
        self.pid, self.level, self.rule, self.tier = pid, level, rule, tier
        self.t0 = time.time()
        self.viol = []          # (key, file, line, msg)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.trusted = []
        self.obl = 0
        self.known = load_known(pid)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, n=1, sample=None):
        """n obligations discharged"""
        self.obl += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, file, line, msg):
        """an obligation that fails. key: stable identity (rule, function, construct), no line numbers"""
        self.obl += 1
        k = (key, P.rel(file) if file else '')
        if any(v[0] == key and v[1] == (P.rel(file) if file else '') and v[2] == line for v in self.viol):
            return
        self.viol.append((key, P.rel(file) if file else '', line, msg))

    def floor(self, what, n, minimum):
        """instance-count floor: fewer instances than this means the anchors moved"""
        self.counts[what] = n
        if n < minimum:
            raise P.ToolError('%s: only %d instance(s) found, at least %d expected: the analysis lost its anchor' % (what, n, minimum))

    def finish(self):
        new, known = [], []
        for v in self.viol:
            (known if v[0] in self.known else new).append(v)
        cov = {'rule': self.rule, 'obligations_checked': self.obl, 'instances': self.counts, 'violations': len(new),
               'known_findings': len(known), 'samples': self.samples, 'notes': self.notes}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        cov.update(obligations=self.obl, discharged=self.obl - len(self.viol), checker_cmd='python3 /verif/check.py %s' % self.pid,
                   trusted_base='; '.join(self.trusted) or 'clang 18 front end; the exporter and analyses in /verif/tool and /verif/lib',
                   explanation='static analysis of the resolved program (clang AST, canonical types, instantiated templates): ' + self.rule)
        os.makedirs(EVID + '', exist_ok=True)
        rep = EVID + '/%s.report.txt' % self.pid
        with open(rep, 'w') as f:
            f.write('property %s: %s\n' % (self.pid, self.rule))
            for key, fl, ln, msg in new:
                f.write('VIOLATION %s:%s [%s] %s\n' % (fl, ln, key, msg))
            for key, fl, ln, msg in known:
                f.write('KNOWN %s:%s [%s] %s\n' % (fl, ln, key, msg))
        ev['coverage']['violating_constructs'] = ['%s:%s [%s] %s' % (fl, ln, key, msg) for key, fl, ln, msg in new][:50]
        json.dump(ev, open(EVID + '/%s.json' % self.pid, 'w'), indent=1)
        for key, fl, ln, msg in known:
            print('KNOWN-FINDING: property=%s %s:%s [%s] %s' % (self.pid, fl, ln, key, msg))
        for key, fl, ln, msg in new:
            print('%s:%s: [%s] %s' % (fl, ln, key, msg))
        print('%s: %d obligations, %s, %.1fs' % (self.pid, self.obl, ', '.join('%s=%s' % x for x in sorted(self.counts.items())), time.time() - self.t0))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        return 0


def load_known(pid):
    out = {}
    p = ROOT + '/known_findings.json'
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            if e['property'] == pid:
                out[e['key']] = e
    return out
