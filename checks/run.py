#!/usr/bin/env python3
"""run.py PROPERTY: decide one property from /repo's current source.

exit 0  nothing violated (undecided obligations are listed in the evidence)
exit 1  a violation that known_findings.txt does not list
"""
import sys, os, json, time, tempfile, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'      # the same run every time
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
REPO = os.environ.get('NARROW_REPO', '/repo')

def known(prop):
    """known_findings.txt: finding: property=<id> rule=<rule> at=<function> match=<text of the message> what=<text>"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('finding:'): continue
            d = {}
            rest = l[len('finding:'):]
            head, _, what = rest.partition(' what=')
            for w in head.split(' '):
                if '=' in w:
                    k, _, v = w.partition('='); d[k] = v
            d['what'] = what
            if d.get('property') == prop: out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='nsa.')
    try:
        return check(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, t0, tmp):
    from nsa import props
    P = props.PROPS[prop]
    r = subprocess.run([os.path.join(HERE, 'lib', 'extract.sh'), REPO, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:]); print('the source could not be type-checked')
        return 2
    t1 = time.time()
    res = props.decide(prop, tmp, REPO, tier)
    kn = known(prop)
    viol, listed, und = [], [], []
    for b in res['bad']:
        if b['kind'] != 'violated': und.append(b); continue
        hit = None
        for k in kn:
            if k['rule'] == b['rule'] and k['at'] == b['at'].replace(' ', '_') and k.get('match', '') in b['msg'].replace(' ', '_'): hit = k
        (listed if hit else viol).append((b, hit))
    for k in kn:
        if any(h is k for _, h in listed): print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k['what'], k['at']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    lvl = P['level']
    cov = dict(res['coverage'])
    if lvl == 'proof':
        cov['obligations'] = res['obligations']; cov['discharged'] = res['obligations'] - len(set((b['rule'], b.get('part', '')) for b in res['bad']))
        cov['discharged'] = max(0, cov['discharged'])
        cov['checker_cmd'] = 'python3 checks/run.py %s' % prop
        cov['trusted_base'] = props.TRUST
    else:
        cov['explanation'] = P['explain']
    cov['undecided'] = [('%s %s: %s' % (b['rule'], b['at'], b['msg']))[:300] for b in und][:40]
    cov['known_findings'] = [('%s %s' % (b['rule'], b['at']))[:200] for b, _ in listed]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': P.get('assume', []) , 'violations': [('%s in %s: %s' % (b['rule'], b['at'], b['msg']))[:600] for b, _ in viol][:60]}
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path, 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d checks, %d violated, %d known, %d undecided (%.1f s extraction, %.1f s analysis)' % (prop, res['obligations'], res['checks'], len(viol), len(listed), len(und), t1 - t0, time.time() - t1))
    for b in und[:12]: print('undecided: %s in %s: %s' % (b['rule'], b['at'], b['msg'][:240]))
    if viol:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        with open(rp, 'w') as f: json.dump([b for b, _ in viol], f, indent=1)
        seen = set()
        for b, _ in viol:
            k = (b['rule'], b['at'])
            if k in seen: continue
            seen.add(k)
            if len(seen) <= 12: print('  %s in %s: %s' % (b['rule'], b['at'], b['msg'][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
