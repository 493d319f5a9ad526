"""Which machinery decides which property."""
import os
TRUST = ['rustc nightly: parsing, type checking, trait selection, MIR construction', 'driver/driver.rs: serialisation of MIR and types',
         'lib/nsa: abstract domains, transfer functions, models of the standard library and of opaque caller types (DESIGN.md section 3)']
PROPS = {}
def P(id, level='proof', explain='', assume=()):
    PROPS[id] = {'level': level, 'explain': explain, 'assume': list(assume)}

EXTRA = {}       # property -> [function(ctx) -> None]
def rule(*props):
    def d(f):
        for p in props: EXTRA.setdefault(p, []).append(f)
        return f
    return d

class Ctx:
    """What a source rule sees and reports"""
    def __init__(self, out, repo, tier):
        self.out = out; self.repo = repo; self.tier = tier
        self._n = self._f = None
        self.bad = []; self.obligations = 0; self.checks = 0; self.cov = {}
    @property
    def narrow(self):
        if self._n is None:
            from .mir import Prog
            self._n = Prog(os.path.join(self.out, 'narrow.json'))
        return self._n
    @property
    def ffi(self):
        if self._f is None:
            from .mir import Prog
            self._f = Prog(os.path.join(self.out, 'narrow_ffi.json'))
        return self._f
    def ok(self, n=1): self.checks += n
    def fail(self, rule, at, msg, part=''):
        self.checks += 1
        self.bad.append({'kind': 'violated', 'rule': rule, 'at': str(at), 'msg': msg, 'part': str(part)})
    def unknown(self, rule, at, msg, part=''):
        self.bad.append({'kind': 'undecided', 'rule': rule, 'at': str(at), 'msg': msg, 'part': str(part)})
    def expect(self, cond, rule, at, msg):
        if cond: self.checks += 1
        else: self.fail(rule, at, msg)
        return cond
    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def obligation(self, n=1): self.obligations += n

def decide(prop, out, repo, tier):
    from . import obl
    c = Ctx(out, repo, tier)
    for f in EXTRA.get(prop, ()): f(c)
    from . import specs, specs2, specs3
    try:
        from . import ffispecs, ffispecs2
    except ImportError: pass
    ids = [o for o in obl.OBS if prop in obl.OBS[o].props and (tier == 'thorough' or not obl.OBS[o].opts.get('thorough'))]
    if ids:
        fns = set(); per = {}
        rs = obl.run(ids, c, int(os.environ.get('NSA_JOBS', '8')))
        for r in rs:
            c.obligations += 1; c.checks += r['checks']
            c.count('runs', r['runs']); c.count('paths', r['paths']); c.count('abstract_steps', r['steps']); c.count('loops_summarised', r['loops']); c.count('call_sites', r['calls'])
            fns.update(map(str, r['fns']))
            e = per.setdefault(r['ob'], {'parts': 0, 'checks': 0, 'paths': 0})
            e['parts'] += 1; e['checks'] += r['checks']; e['paths'] += r['paths']
            for k, at, msg in r['bad']:
                c.bad.append({'kind': k, 'rule': r['ob'], 'at': str(at), 'msg': msg, 'part': str(r['part'])})
            if r['err']:
                c.bad.append({'kind': 'undecided', 'rule': r['ob'], 'at': str(r.get('what', '')), 'msg': '%s: %s' % r['err'], 'part': str(r['part'])})
        c.cov['functions_analysed'] = len([f for f in fns if 'narrow' in f])
        c.cov['library_functions_analysed'] = len([f for f in fns if 'narrow' not in f])
        c.cov['functions'] = sorted(f for f in fns if 'narrow' in f)[:80]
        c.cov['per_obligation'] = per
    c.cov['verification_conditions'] = c.checks
    return {'bad': c.bad, 'obligations': c.obligations, 'checks': c.checks, 'coverage': c.cov}

from . import typerules, surface  # noqa: E402,F401
from . import registry  # noqa: E402,F401
