#!/usr/bin/env python3
"""dev.py JSONDIR [-v] [-j N] PATTERN...: discharge obligations by id prefix or property"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'      # the same run every time
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
from nsa import obl
from nsa import specs, specs2, specs3, props
try: from nsa import ffispecs, ffispecs2
except ImportError: pass
d = sys.argv[1]; a = sys.argv[2:]
v = '-v' in a; j = 8
if '-j' in a: i = a.index('-j'); j = int(a[i+1]); del a[i:i+2]
mx = 6
if '-m' in a: i = a.index('-m'); mx = int(a[i+1]); del a[i:i+2]
a = [x for x in a if x[0] != '-']
prog = props.Ctx(d, '/repo', 'quick')
ids = [o for o in obl.OBS if any(o.startswith(p) or p in obl.OBS[o].props for p in a)] if a else list(obl.OBS)
t = time.time()
shown = {}
st = {}
def prog_(r):
    k = r['ob']
    s = st.setdefault(k, [0, 0, 0, 0, 0, 0.0, 0.0])
    s[0] += 1; s[1] += r['checks']; s[2] += r['paths']; s[5] += r['t']; s[6] = max(s[6], r['t'])
    s[3] += sum(1 for b in r['bad'] if b[0] == 'violated'); s[4] += sum(1 for b in r['bad'] if b[0] != 'violated') + (r['err'] is not None)
    bad = r['bad'] + ([(r['err'][0], r.get('what', ''), r['err'][1])] if r['err'] else [])
    for b in bad:
        shown[k] = shown.get(k, 0) + 1
        if shown[k] <= mx: print('  ', k, r['part'], str(b)[:(1200 if v else 330)])
for_ = obl.run(ids, prog, j, prog_)
for k, s in st.items():
    print('%-44s parts %3d checks %5d paths %5d violated %3d undecided %3d cpu %6.1f max %5.1f' % (k, *s))
print('wall %.1f' % (time.time() - t))
