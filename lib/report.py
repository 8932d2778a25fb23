"""Verdicts, known findings, replay files and evidence, shared by all checks."""
import json, os, sys, time, re, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, level='other'):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.violations = []      # dict(key, what, where, detail)
        self.known = []
        self.undecided = []
        self.coverage = {}
        self.level = level
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.trusted = ['clang 18 front end and IR printer (tools/irdump.cpp)', 'the analysis engine in lib/', 'the specification tables and automata in lib/']
        self.assumptions = ['x86-64, C++20, NDEBUG, clang 18', 'the analysed instantiations stand for the templates they come from']

    def violation(self, key, what, where='', detail=None):
        """key identifies the failing construct (stable, no line numbers)"""
        for v in self.violations:
            if v['key'] == key:
                v.setdefault('more', 0)
                v['more'] += 1
                return
        self.violations.append(dict(key=key, what=what, where=where, detail=detail))

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def finish(self):
        known = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3)
        new = []
        for v in self.violations:
            if v['key'] in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[v['key']]))
                self.known.append(v)
            else:
                new.append(v)
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, '%s.replay.json' % self.prop)
        if new:
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, violations=new), f, indent=1, default=str)
        elif os.path.exists(rp):
            os.unlink(rp)
        cov = dict(self.coverage)
        cov.setdefault('explanation', '')
        cov['obligations'] = self.obligations
        cov['discharged'] = self.discharged
        cov['undecided'] = self.undecided[:50]
        if self.samples:
            cov['samples'] = self.samples[:20]
        cov['rule_violations'] = [dict(key=v['key'], what=v['what'], where=v['where']) for v in new]
        cov['known_findings'] = [v['key'] for v in self.known]
        cov['checker_cmd'] = 'VERIF_TIER=%s python3-vt check.py %s' % (self.tier, self.prop)
        cov['trusted_base'] = self.trusted
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                 wall_s=round(time.time() - self.t0, 2), violations=len(new), assumptions=self.assumptions)
        with open(os.path.join(ev, '%s.json' % self.prop), 'w') as f:
            json.dump(d, f, indent=1, default=str)
        for u in self.undecided[:20]:
            print('UNDECIDED: property=%s %s' % (self.prop, u))
        for v in new[:20]:
            print('  %s' % v['what'])
            if v['where']:
                print('    at %s' % v['where'])
            if v.get('detail'):
                print('    %s' % v['detail'])
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rp, VERIF)))
            return 1
        print('OK property=%s obligations=%d undecided=%d wall=%.1fs' % (self.prop, self.obligations, len(self.undecided), time.time() - self.t0))
        return 0
