#!/usr/bin/env python3
"""compares the native linear solver with the Python one on random systems"""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from nsa import dom
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = 0; kinds = {}
for _ in range(6000):
    nv = rnd.randint(1, 6); big = rnd.choice([5, 40, 2**32, 2**64])
    b = {}
    for v in range(nv):
        l = rnd.choice([None, 0, 0, -rnd.randint(0, big), 1]); h = rnd.choice([None, None, rnd.randint(0, big)])
        b[v] = (l, h)
    cons = []
    for _ in range(rnd.randint(1, 9)):
        r = {v: rnd.choice([-8, -2, -1, 1, 1, 2, 8, 64]) for v in rnd.sample(range(nv), rnd.randint(1, nv))}
        cons.append((r, rnd.randint(-big, big)))
    L = dom.LP
    x = dom.int_feasible(cons, b); dom.LP = None; y = dom.int_feasible(cons, b); dom.LP = L
    assert (x == y), (cons, b, x, y)
    k = 'model' if isinstance(x, dict) else str(x); kinds[k] = kinds.get(k, 0) + 1
print(kinds)
