"""Forward abstract interpretation of MIR.

State = abstract store (location -> value tree) x Facts (linear + boolean).
Blocks are processed in reverse postorder; states meeting at a join are merged
when they differ only under a data condition, otherwise kept as separate
partitions.  Loops are closed by generalising three successive iterates to a
parametric state S(k) and checking that S(k) is stable (one more abstract
iteration of S(k) is contained in S(k+1)).
"""
import sys, contextlib
from .dom import *
from . import dom
from .val import *
from .mir import Prog, succs

sys.setrecursionlimit(20000)

class Unwind(Exception):
    def __init__(self, why): self.why = why
class Undecided(Exception):
    pass
class DeadPath(Exception):
    pass

class St:
    __slots__ = ('store', 'f', 'ev', 'sig', 'snaps')
    def __init__(self):
        self.store = {}; self.f = Facts(); self.ev = (); self.sig = (); self.snaps = ()
    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store); s.f = self.f.copy(); s.ev = self.ev; s.sig = self.sig; s.snaps = self.snaps
        return s

class Out:
    __slots__ = ('k', 'v', 'st')
    def __init__(self, k, v, st): self.k = k; self.v = v; self.st = st
    def __repr__(self): return '<%s %s>' % (self.k, self.v)

def is_data(b):
    if b.k == 'at': return True
    if b.k in ('and', 'or'): return all(is_data(x) for x in b.a)
    return False

# ---------------------------------------------------------------- comparison
def b_eq(f, a, b):
    if a == b: return True
    x = f.normb(a); y = f.normb(b)
    if x == y: return True
    if x.k == 'c' and y.k == 'c': return False
    q = bxor(x, y)
    if q.k == 'c': return not q.a
    return f.prove(bnot(q), 6)

def p_eq(f, a, b):
    return a == b or f.eqp(a, b)

def v_eq(f, a, b):
    if a is b or a == b: return True
    if isinstance(a, P): return isinstance(b, P) and p_eq(f, a, b)
    if isinstance(a, B): return isinstance(b, B) and b_eq(f, a, b)
    if not isinstance(a, V) or not isinstance(b, V): return a == b
    if a.t == 'ite' or b.t == 'ite':
        if a.t == 'ite':
            c = f.eval(a.k[0])
            if c is not None: return v_eq(f, a.k[1] if c else a.k[2], b)
        if b.t == 'ite':
            c = f.eval(b.k[0])
            if c is not None: return v_eq(f, a, b.k[1] if c else b.k[2])
        x = a if a.t == 'ite' else b
        c = x.k[0]
        for l in (c, bnot(c)):
            g = f.copy()
            if g.add(l) and not g.dead and not v_eq(g, a, b): return False
        return True
    if a.t == 'int' and b.t == 'byte': a, b = b, a
    if a.t == 'byte' and b.t == 'int':
        return p_eq(f, byte2p(a), b.k[0])
    if a.t != b.t or a.m != b.m or len(a.k) != len(b.k): 
        if a.t == 'seq' and b.t == 'seq': return seq_eq(f, a, b)
        return False
    if a.t == 'seq': return seq_eq(f, a, b)
    return all(v_eq(f, x, y) for x, y in zip(a.k, b.k))

def differs(f, a, b):
    """cheap evidence that v_eq would fail"""
    if a is b: return False
    if isinstance(a, P):
        if not isinstance(b, P): return True
        if a == b: return False
        d = f.norm(a - b)
        if d.isconst(): return d.c() != 0
        lo, hi = f.interval(d)
        return (lo is not None and lo > 0) or (hi is not None and hi < 0)
    if isinstance(a, B):
        if a.k == 'at' and isinstance(b, B) and b.k == 'at' and a.a[0] != b.a[0]:
            a = f.normb(a); b = f.normb(b)
            return a.k == 'at' and b.k == 'at'
        if a.k == 'c' and isinstance(b, B) and b.k == 'at' or (isinstance(b, B) and b.k == 'c' and a.k == 'at'):
            a = f.normb(a); b = f.normb(b)
            return (a.k == 'c') != (b.k == 'c') or (a.k == 'c' and a.a != b.a)
        return False
    if not isinstance(a, V) or not isinstance(b, V): return False
    if a.t == 'ite' or b.t == 'ite' or a.t in ('arr',): return False
    if a.t != b.t: return {a.t, b.t} != {'int', 'byte'}
    if a.t == 'seq':
        if a == b: return False
        x, y = a.k, b.k
        i = 0
        while i < len(x) and i < len(y):
            u, v = x[i], y[i]
            if u.t != 'seg' or v.t != 'seg': break
            if u == v: i += 1; continue
            n, m = f.norm(u.k[0]), f.norm(v.k[0])
            if n == m:
                if n.isconst() and n.c() == 1: 
                    if differs(f, inst(u.k[1], 0), inst(v.k[1], 0)): return True
                i += 1; continue
            break
        return differs(f, seq_len(a), seq_len(b))
    if a.m != b.m or len(a.k) != len(b.k): return True
    ks = sorted(zip(a.k, b.k), key=lambda p: isinstance(p[0], V) and p[0].t in ('seq', 'buf'))
    return any(differs(f, x, y) for x, y in ks)

def _drop0(f, l):
    while l:
        s = l[0]
        n = s.k[0]
        if n.isconst() and n.c() == 0 or f.eqp(n, ZERO): l.pop(0); continue
        if s.t == 'flat' and f.eqp(n, ONE):
            l[0] = Seg(subst_p(s.k[1], {SUMBV.id: ZERO}), vsubst(s.k[2], {SUMBV.id: ZERO})); continue
        return

ELEMV = dom._mk('bv', '#i', (), 0, None)
ELEM = P.atom(ELEMV)
def elem(t):
    """a template over ELEM, as the template of a segment"""
    return vsubst(t, {**RAISE, ELEMV.id: E})

def seq_eq(f, a, b):
    la = list(a.k); lb = list(b.k)
    while True:
        _drop0(f, la); _drop0(f, lb)
        if not la or not lb: return not la and not lb
        x, y = la[0], lb[0]
        if x.t == 'seg' and y.t == 'seg':
            n, m = x.k[0], y.k[0]
            if f.eqp(n, m): r = 0
            elif f.entails(le(n, m)): r = -1
            elif f.entails(le(m, n)): r = 1
            else: return False
            c = n if r <= 0 else m
            g = f
            tx, ty = x.k[1], y.k[1]
            if c.isconst() and c.c() == 1:
                tx = inst(tx, 0); ty = inst(ty, 0)
            elif tx != ty:
                z = E
                if E1V.id in atomsof(tx) or E1V.id in atomsof(ty):
                    z = fresh('i', 0, None); tx = inst(tx, z); ty = inst(ty, z)
                g = f.copy(); g.add(le0(-z)); g.add(lt(z, c))
            if tx != ty and not v_eq(g, tx, ty): return False
            la.pop(0); lb.pop(0)
            if r < 0: lb.insert(0, Seg(m - n, shift(y.k[1], n)))
            elif r > 0: la.insert(0, Seg(n - m, shift(x.k[1], m)))
        elif x.t == 'flat' and y.t == 'flat':
            n, m = x.k[0], y.k[0]
            if f.eqp(n, m): r = 0
            elif f.entails(le(n, m)): r = -1
            elif f.entails(le(m, n)): r = 1
            else: return False
            c = n if r <= 0 else m
            g = f.copy(); g.add(le0(-S)); g.add(lt(S, c))
            if not p_eq(g, x.k[1], y.k[1]): return False
            z = E; tx, ty = x.k[2], y.k[2]
            if E1V.id in atomsof(tx) or E1V.id in atomsof(ty):
                z = fresh('i', 0, None); tx = inst(tx, z); ty = inst(ty, z)
            g.add(le0(-z)); g.add(lt(z, x.k[1]))
            if not v_eq(g, tx, ty): return False
            la.pop(0); lb.pop(0)
            sh = {SUMBV.id: S + c}
            if r < 0: lb.insert(0, Flat(m - n, subst_p(y.k[1], sh), vsubst(y.k[2], sh)))
            elif r > 0: la.insert(0, Flat(n - m, subst_p(x.k[1], sh), vsubst(x.k[2], sh)))
        else:
            # flat against a plain segment: peel the first group when there is one
            l = la if x.t == 'flat' else lb
            s = l[0]
            if not f.entails(le(ONE, s.k[0])): return False
            z = {SUMBV.id: ZERO}; sh = {SUMBV.id: S + 1}
            l[0:1] = [Seg(subst_p(s.k[1], z), vsubst(s.k[2], z)),
                      Flat(s.k[0] - 1, subst_p(s.k[1], sh), vsubst(s.k[2], sh))]
            if getattr(f, '_peel', 0): pass
            if len(la) > 40 or len(lb) > 40: return False

def byte2p(v):
    r = ZERO
    for i, b in enumerate(v.k): r = r + b2i(b) * (1 << i)
    return r

def byte_val(v):
    """constant value of a byte or None"""
    r = 0
    for i, b in enumerate(v.k):
        if b.k != 'c': return None
        if b.a: r |= 1 << i
    return r

# ---------------------------------------------------------------- generalise
class NoGen(Exception): pass

def au2(p0, p1, kap):
    """polynomial T(kap) with T(0)=p0, T(1)=p1"""
    if p0 == p1: return p0
    r0 = {}; r1 = {}; common = {}
    for m in set(p0.d) | set(p1.d):
        a = p0.d.get(m, 0); b = p1.d.get(m, 0)
        if a == b: common[m] = a
        else:
            r0[m] = a; r1[m] = b
    def special(m): return any(dom.ATOMS[i].args for i in m)
    sp0 = [(m, c) for m, c in r0.items() if special(m) and c]
    sp1 = [(m, c) for m, c in r1.items() if special(m) and c]
    if not sp0 and not sp1:
        return p0 + kap * (p1 - p0)
    sp0.sort(key=_mkey); sp1.sort(key=_mkey)
    if len(sp0) != len(sp1) and not r0.get((), 0) != r1.get((), 0):
        t = running(p0, p1, kap)
        if t is not None: return t
    if len(sp0) != len(sp1):
        t = first_step(p1 - p0)
        if t is not None: return p0 + psum(t, kap)
        # growth by a constant number of atoms: treat as linear growth
        return p0 + kap * (p1 - p0)
    res = P({m: c for m, c in common.items() if c})
    rest0 = P({m: c for m, c in r0.items() if c and not special(m)})
    rest1 = P({m: c for m, c in r1.items() if c and not special(m)})
    used = set()
    for m, c in sp0:
        ok = False
        for j, (m2, c2) in enumerate(sp1):
            if j in used or c2 != c or len(m) != len(m2): continue
            try:
                t = P.const(c)
                for i1, i2 in zip(m, m2): t = t * au_atom(i1, i2, kap)
            except NoGen: continue
            used.add(j); res = res + t; ok = True; break
        if not ok: raise NoGen('atoms')
    return res + rest0 + kap * (rest1 - rest0)

_AK = {}
def _akey(i):
    r = _AK.get(i)
    if r is None:
        a = dom.ATOMS[i]
        r = _AK[i] = (a.kind, str(a.name), repr(tuple(_pkey2(x) for x in a.args)))
    return r
def _pkey2(x):
    if isinstance(x, P):
        return (repr(sorted((repr([_akey(i) for i in m]), c) for m, c in x.d.items() if m != ())), '%030d' % (x.c() + 10**29))
    if isinstance(x, B): return repr(_bkey2(x))
    return repr(x)
def _bkey2(b):
    if b.k == 'at': return ('at', str(b.a[0]), tuple(_pkey2(x) for x in b.a[1]), b.a[2])
    if b.k in ('and', 'or'): return (b.k, tuple(_bkey2(x) for x in b.a))
    if b.k == 'c': return ('c', b.a)
    return (b.k, _pkey2(b.a))
def _mkey(mc):
    m, c = mc
    return (c, len(m), [_akey(i) for i in m])

def first_step(d):
    """the step from the first to the second value as a function of the index,
    when it is made of items at a constant position"""
    if not d.d or len(d.d) > 2: return None
    t = ZERO
    for m, c in d.d.items():
        if len(m) != 1: return None
        a = dom.ATOMS[m[0]]
        if a.kind != 'app' or len(a.args) != 1 or not isinstance(a.args[0], P) or not a.args[0].isconst(): return None
        t = t + c * P.atom(dom._mk(a.kind, a.name, (a.args[0] + P.atom(SUMBV),), a.lo, a.hi))
    return t

def running(p0, p1, kap):
    """p1 = p0 + t(1) where p0 ends with t(0): a running total"""
    d = p1 - p0
    if not d.d or len(d.d) > 3: return None
    used = set(); T = ZERO; t0 = ZERO
    for m, c in d.d.items():
        if not any(dom.ATOMS[i].args for i in m): return None
        for m2, c2 in p0.d.items():
            if m2 in used or c2 != c or len(m2) != len(m) or m2 == m: continue
            try:
                t = P.const(c)
                for i1, i2 in zip(m2, m): t = t * au_atom(i1, i2, S)
            except NoGen: continue
            used.add(m2); T = T + t; t0 = t0 + P({m2: c}); break
        else: return None
    if subst_p(T, {SUMBV.id: ONE}) != d: return None
    return p0 - t0 + psum(T, kap + 1)

def au_atom(i, j, kap):
    if i == j: return P.atom(dom.ATOMS[i])
    a, b = dom.ATOMS[i], dom.ATOMS[j]
    if a.kind != b.kind or a.name != b.name or len(a.args) != len(b.args) or not a.args: raise NoGen('atom')
    args = []
    for x, y in zip(a.args, b.args):
        if isinstance(x, P): args.append(au2(x, y, kap))
        elif isinstance(x, B): args.append(au_b(x, y, kap))
        elif x == y: args.append(x)
        else: raise NoGen('arg')
    if a.kind == 'sum': return psum(args[0], args[1])
    if a.kind == 'b2i': return b2i(args[0])
    return P.atom(dom._mk(a.kind, a.name, tuple(args), a.lo, a.hi))

def au_b(x, y, kap):
    if x == y: return x
    if x.k != y.k: raise NoGen('bool')
    if x.k == 'at':
        if x.a[0] != y.a[0] or x.a[2] != y.a[2] or len(x.a[1]) != len(y.a[1]): raise NoGen('bool')
        args = []
        for p, q in zip(x.a[1], y.a[1]):
            if isinstance(p, P): args.append(au2(p, q, kap))
            elif p == q: args.append(p)
            else: raise NoGen('bool')
        return B('at', (x.a[0], tuple(args), x.a[2]))
    if x.k in ('le',): return le0(au2(x.a, y.a, kap))
    if x.k in ('eq', 'ne'):
        r = None
        for yy in (y.a, -y.a):
            try:
                t = au2(x.a, yy, kap)
            except NoGen: continue
            if r is None or len(t.d) < len(r.d): r = t
        if r is None: raise NoGen('eq')
        return eq0(r) if x.k == 'eq' else bnot(eq0(r))
    if x.k in ('and', 'or'):
        if len(x.a) != len(y.a): raise NoGen('bool')
        used = set(); out = []
        for p in x.a:
            for j, q in enumerate(y.a):
                if j in used: continue
                try: t = au_b(p, q, kap)
                except NoGen: continue
                used.add(j); out.append(t); break
            else: raise NoGen('bool')
        return band(*out) if x.k == 'and' else bor(*out)
    raise NoGen('bool')

def au_v(a, b, kap):
    if a == b: return a
    if isinstance(a, P): return au2(a, b, kap)
    if isinstance(a, B): return au_b(a, b, kap)
    if not isinstance(a, V) or not isinstance(b, V) or a.t != b.t or a.m != b.m or len(a.k) != len(b.k): raise NoGen('shape')
    return V(a.t, a.m, tuple(au_v(x, y, kap) for x, y in zip(a.k, b.k)))

class Gen:
    def __init__(self, k, f): self.k = k; self.f = f
    def p(self, p0, p1, p2):
        if p0 == p1 == p2: return p0
        n = self.f.norm
        d1 = p1 - p0; d2 = p2 - p1
        if d1 != d2:
            e1, e2 = n(d1), n(d2)
            if e1 == e2: d1 = d2 = e1
        if d1 == d2: return p0 + self.k * d1
        for a, b in ((d1, d2), (n(d1), n(d2))):
            try:
                t = au2(a, b, S)
                return p0 + psum(t, self.k)
            except NoGen: pass
        raise NoGen('int')
    def b(self, b0, b1, b2):
        if b0 == b1 == b2: return b0
        if b0.k == 'c' or b1.k == 'c' or b2.k == 'c': raise NoGen('const')
        return au_b(b0, b1, self.k)
    def v(self, a, b, c):
        if a == b and b == c: return a
        if isinstance(a, P): return self.p(a, b, c)
        if isinstance(a, B): return self.b(a, b, c)
        if not (isinstance(a, V) and isinstance(b, V) and isinstance(c, V)): raise NoGen('shape')
        if a.t == 'seq' and b.t == 'seq' and c.t == 'seq': return self.seq(a, b, c)
        if not (a.t == b.t == c.t and a.m == b.m == c.m and len(a.k) == len(b.k) == len(c.k)):
            raise NoGen('shape %s/%s/%s' % (vstr(a)[:60], vstr(b)[:60], vstr(c)[:60]))
        return V(a.t, a.m, tuple(self.v(x, y, z) for x, y, z in zip(a.k, b.k, c.k)))
    def segs(self, A, B_, C):
        return [self.v(x, y, z) for x, y, z in zip(A, B_, C)]
    def seq(self, a, b, c):
        A, B_, C = list(a.k), list(b.k), list(c.k)
        n0, n1, n2 = len(A), len(B_), len(C)
        if n0 == n1 == n2:
            return V('seq', (), tuple(self.segs(A, B_, C)))
        m = n1 - n0
        if m <= 0 or n2 - n1 != m: raise NoGen('seq')
        err = None
        for i in range(n0, -1, -1):
            try:
                pre = self.segs(A[:i], B_[:i], C[:i])
                X0 = B_[i:i + m]; X0b = C[i:i + m]; X1 = C[i + m:i + 2 * m]
                if X0 != X0b and [vnorm(x, self.f) for x in X0] != [vnorm(x, self.f) for x in X0b]: raise NoGen('seq X0')
                mid = self.grow(X0, X1)
                post = self.segs(A[i:], B_[i + m:], C[i + 2 * m:])
                return V('seq', (), tuple(pre + [mid] + post))
            except NoGen as e: err = e
        raise NoGen('seq')
    def grow(self, X0, X1):
        k = self.k
        if any(s.t != 'seg' for s in X0 + X1): raise NoGen('flat in growth')
        ones = all(s.k[0] == ONE for s in X0 + X1)
        if len(X0) == 1:
            x, y = X0[0], X1[0]
            if ones:
                return Seg(k, elem(au_v(inst(x.k[1], 0), inst(y.k[1], 0), ELEM)))
            if x.k[0] == y.k[0]:
                if shift(x.k[1], x.k[0]) == y.k[1]: return Seg(k * x.k[0], x.k[1])
                if x.k[1] == y.k[1] and EBV.id not in vatoms(x.k[1]): return Seg(k * x.k[0], x.k[1])
            return Flat(k, au2(x.k[0], y.k[0], S), au_v(x.k[1], y.k[1], S))
        if ones:
            xs = [inst(s.k[1], 0) for s in X0]; ys = [inst(s.k[1], 0) for s in X1]
            t = elem(au_v(xs[0], xs[1], ELEM))
            for j, w in enumerate(xs + ys):
                if inst(t, j) != w: raise NoGen('period template')
            return Seg(k * len(xs), t)
        raise NoGen('growth')

# ---------------------------------------------------------------- interpreter
class Interp:
    MAXPATHS = 4000
    def __init__(self, prog, models, opts=None):
        self.prog = prog; self.models = models
        self.opts = opts or {}
        self.st = None; self.tr = []; self.tp = 0
        self.depth = 0; self.td = 0
        self.budget = self.opts.get('budget', 200000)
        self.steps = 0
        self.cov_fns = set(); self.cov_calls = 0; self.cov_loops = 0; self.cov_joins = 0
        self.hooks = []
        self.overrides = {}
        self.trace = self.opts.get('trace', False)
        self.span = ''
        self.stack = []
    # ---- exploration
    LOOPWORK = 40
    def explore(self, st, fn):
        saved = (self.st, self.tr, self.tp, self.depth, self.td, self.stack)
        outs = []; trail = []
        n = 0
        try:
            while True:
                self.st = st.copy(); self.tr = trail; self.tp = 0
                self.depth, self.td = saved[3], saved[4]
                self.stack = list(saved[5])
                try:
                    v = fn()
                    outs.append(Out('ret', v, self.st))
                except Unwind as e: outs.append(Out('unwind', e.why, self.st))
                except DeadPath: pass
                except Undecided as e: outs.append(Out('und', str(e), self.st))
                n += 1
                if n > self.MAXPATHS: raise Undecided('too many paths')
                del trail[self.tp:]
                while trail and trail[-1][0] + 1 >= trail[-1][1]: trail.pop()
                if not trail: break
                e = trail[-1]
                trail[-1] = (e[0] + 1, e[1], e[2])
        finally:
            self.st, self.tr, self.tp, self.depth, self.td, self.stack = saved
        return outs
    def tick(self):
        self.steps += 1
        if self.steps > self.budget: raise Undecided('analysis budget exhausted')
    def choose(self, n):
        if n == 1: return 0
        if self.tp < len(self.tr):
            e = self.tr[self.tp]
        else:
            e = (0, n, None); self.tr.append(e)
        self.tp += 1
        self.st.sig += (e[0],)
        return e[0]
    def branch(self, b):
        if b.k == 'c': return b.a
        st = self.st
        if self.tp < len(self.tr) and self.tr[self.tp][2] == b:
            v = None
        else:
            v = st.f.eval(b)
        if v is not None:
            st.sig += (v,)
            return v
        self.tick()
        if self.tp < len(self.tr):
            e = self.tr[self.tp]
        else:
            e = (0, 2, b); self.tr.append(e)
        self.tp += 1
        r = e[0] == 0
        st.snaps += ((len(st.f.log), st.f.copy()),)
        st.f.add(b if r else bnot(b))
        st.sig += (r,)
        if st.f.dead: raise DeadPath()
        return r
    def assume(self, b):
        self.st.f.add(b)
        if self.st.f.dead: raise DeadPath()
    def known(self, b): return self.st.f.eval(b)
    def sub(self, fn, merge=True):
        """run fn as a separately explored region; its joined outcomes become
        the partitions of the caller"""
        if self.tp < len(self.tr) and isinstance(self.tr[self.tp][2], list):
            e = self.tr[self.tp]
        else:
            outs = self.explore(self.st, fn)
            if merge: outs = self.merge_outs(outs)
            if not outs: raise DeadPath()
            e = (0, len(outs), outs)
            self.tr.append(e)
        return self._pick(e)
    def sub_outs(self, mk):
        if self.tp < len(self.tr) and isinstance(self.tr[self.tp][2], list):
            e = self.tr[self.tp]
        else:
            outs = mk()
            if not outs: raise DeadPath()
            e = (0, len(outs), outs)
            self.tr.append(e)
        return self._pick(e)
    def _pick(self, e):
        self.tp += 1
        o = e[2][e[0]]
        self.st = o.st.copy()
        if o.k == 'ret': return o.v
        if o.k == 'unwind': raise Unwind(o.v)
        raise Undecided(o.v)
    # ---- joins
    def merge_outs(self, outs):
        if len(outs) < 2: return outs
        keep = []
        for kind in ('ret', 'unwind', 'und'):
            g = [o for o in outs if o.k == kind]
            if kind == 'ret':
                changed = True
                failed = {}
                while changed and len(g) > 1:
                    changed = False
                    for i in range(len(g)):
                        for j in range(i + 1, len(g)):
                            key = (id(g[i]), id(g[j]))
                            if key in failed: continue
                            failed[key] = (g[i], g[j])
                            m = self.merge2(g[i].st, g[j].st, g[i].v, g[j].v)
                            if m is not None:
                                g[i] = Out('ret', m[1], m[0]); del g[j]; changed = True; break
                        if changed: break
            keep += g
        return keep
    def merge_states(self, sts):
        sts = list(sts)
        changed = True
        failed = {}
        while changed and len(sts) > 1:
            changed = False
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    key = (id(sts[i]), id(sts[j]))
                    if key in failed: continue
                    failed[key] = (sts[i], sts[j])
                    m = self.merge2(sts[i], sts[j], None, None)
                    if m is not None:
                        sts[i] = m[0]; del sts[j]; changed = True; break
                if changed: break
        return sts
    def merge2(self, a, b, va, vb):
        if 'nomerge' in self.opts: return None
        la, lb = a.f.log, b.f.log
        n = 0
        for x, y in zip(la, lb):
            if x is not y and x != y: break
            n += 1
        if n >= len(la) or n >= len(lb): return None
        c = la[n]
        if bnot(c) != lb[n]: return None
        ctl = None
        if not is_data(c):
            if a.ev != b.ev or c.k not in ('eq', 'ne', 'le'): return None
            if c.k == 'ne': ctl = (b, a)
            else: ctl = (a, b)
            e, o = ctl
            if va is not vb and isinstance(va, V) and isinstance(vb, V) and differs(e.f, va, vb): return None
            if va is not vb and not (isinstance(va, V) and isinstance(vb, V) and v_eq(e.f, va, vb) and (c.k != 'le' or v_eq(o.f, va, vb))): return None
            if e.store.keys() != o.store.keys(): return None
            for k in e.store:
                x, y = e.store[k], o.store[k]
                if x is not y and x != y and differs(e.f, x, y): return None
            for k in e.store:
                x, y = e.store[k], o.store[k]
                if x is y or x == y: continue
                try:
                    if not v_eq(e.f, x, y): return None
                    if c.k == 'le' and not v_eq(o.f, x, y): return None
                except NoGen: return None
            # nothing but the decided condition itself may be lost
            for x in e.f.log[n + 1:]:
                if o.f.eval(x) is not True: return None
            for x in o.f.log[n + 1:]:
                if e.f.eval(x) is not True: return None
        snap = None
        for (ln, f) in a.snaps:
            if ln == n: snap = f; break
        if snap is None: return None
        if a.ev != b.ev: return None
        keys = a.store.keys() & b.store.keys()
        store = {}
        try:
            if ctl:
                store = dict(ctl[1].store); keys = ()
                v = va if ctl[1] is a else vb
            for k in keys:
                x, y = a.store[k], b.store[k]
                store[k] = x if x is y else self.vmerge(c, x, y)
            if not ctl: v = va if va is vb else (self.vmerge(c, va, vb) if isinstance(va, V) and isinstance(vb, V) else (va if va == vb else None))
            if va is not vb and va is not None and v is None: return None
        except NoGen:
            return None
        st = St()
        st.store = store
        st.f = snap.copy()
        if ctl:
            for x in ctl[0].f.log[n + 1:] + ctl[1].f.log[n + 1:]:
                if st.f.eval(x) is not True: st.f.add(x)
        else:
            rb = set(lb[n + 1:])
            for x in la[n + 1:]:
                if x in rb: st.f.add(x)
        st.ev = a.ev
        i = 0
        for x, y in zip(a.sig, b.sig):
            if x != y: break
            i += 1
        st.sig = a.sig[:i] + ('m',)
        st.snaps = tuple(s for s in a.snaps if s[0] < n)
        self.cov_joins += 1
        return st, v
    def vmerge(self, c, x, y):
        if x is y or x == y: return x
        if isinstance(x, V) and isinstance(y, V):
            if x.t == 'int' and y.t == 'int' and x.m == y.m:
                d = x.k[0] - y.k[0]
                if d.isconst(): return V('int', x.m, (y.k[0] + b2i(c) * d.c(),))
                raise NoGen('int')
            if x.t in ('bool', 'byte') and x.t == y.t:
                return V(x.t, (), tuple(bite(c, p, q) for p, q in zip(x.k, y.k)))
            if x.t in ('ref', 'slref', 'clo', 'fn') and x.t == y.t:
                raise NoGen('ref')
            if x.t.startswith('it:'): 
                if x.t != y.t or x.m != y.m or len(x.k) != len(y.k): raise NoGen('it')
                return V(x.t, x.m, tuple(self.vmerge(c, p, q) for p, q in zip(x.k, y.k)))
            if x.t == y.t and x.m == y.m and len(x.k) == len(y.k) and x.t not in ('term', 'ite'):
                return V(x.t, x.m, tuple(self.vmerge(c, p, q) for p, q in zip(x.k, y.k)))
            if x.t in ('adt', 'term', 'ite', 'tup') and y.t in ('adt', 'term', 'ite', 'tup'):
                if any(w.t in ('ref', 'slref') or w.t.startswith('it:') for z in (x, y) for w in vwalk(z)): raise NoGen('ref in ite')
                return Ite(c, x, y)
            raise NoGen('merge')
        raise NoGen('leaf')
    # ---- memory
    def force(self, v):
        while v.t == 'ite':
            v = v.k[1] if self.branch(v.k[0]) else v.k[2]
        return v
    def read(self, loc):
        root, steps, idx = loc
        v = self.st.store.get(root)
        if v is None:
            self.models.dead(self, root)
            raise Undecided('read of dead location %r' % (root,))
        n = 0
        for s in steps:
            v = self.force(v)
            if s == 'q':
                if v.t not in ('arr', 'buf'): raise Undecided('sequence expected, got %s' % v.t)
                v = v.k[0]
            elif s == 'i':
                v = self.seq_get(v, idx[n]); n += 1
            elif s[0] == 'f':
                if v.t == 'uninit' or s[1] >= len(v.k): raise Undecided('field of %s' % v.t)
                v = v.k[s[1]]
                if not isinstance(v, V): raise Undecided('field of primitive')
            elif s[0] == 'v':
                if v.t == 'adt' and v.m[1] != s[1]: raise Undecided('variant mismatch')
        return v
    def write(self, loc, val):
        root, steps, idx = loc
        st = self.st
        if not steps: st.store[root] = val; return
        base = st.store.get(root)
        if base is None:
            self.models.dead(self, root)
            raise Undecided('write to dead location')
        st.store[root] = self._wr(base, steps, idx, val)
    def _wr(self, v, steps, idx, val):
        if not steps: return val
        s = steps[0]
        if v.t == 'ite': v = self.force(v)
        if s == 'q':
            return v.with_kid(0, self._wr(v.k[0], steps[1:], idx, val))
        if s == 'i':
            a, mid, b = self.seq_split1(v, idx[0])
            if len(steps) > 1: val = self._wr(mid, steps[1:], idx[1:], val)
            return mkseq(a + [One(val)] + b)
        if s[0] == 'f':
            if v.t == 'uninit': raise Undecided('partial initialisation')
            return v.with_kid(s[1], self._wr(v.k[s[1]], steps[1:], idx, val))
        if s[0] == 'v': return self._wr(v, steps[1:], idx, val)
    @contextlib.contextmanager
    def tmp(self, v):
        k = ('t', self.td); self.td += 1
        self.st.store[k] = v
        try:
            yield (k, (), ())
        finally:
            self.td -= 1
            if self.st is not None: self.st.store.pop(k, None)
    def mkref(self, loc): return V('ref', (loc[0], loc[1]), tuple(loc[2]))
    def deref(self, v):
        v = self.force(v)
        if v.t == 'ref': return (v.m[0], v.m[1], v.k)
        if v.t == 'slref': return ('slice', v)
        raise Undecided('dereference of %s' % v.t)
    def slref(self, seqloc, start, n):
        return V('slref', (seqloc[0], seqloc[1]), tuple(seqloc[2]) + (topoly(start), topoly(n)))
    def sl_parts(self, v):
        """(loc of seq, start, len)"""
        return (v.m[0], v.m[1], v.k[:-2]), v.k[-2], v.k[-1]
    # ---- sequences
    def seq_get(self, q, i):
        i = topoly(i)
        off = ZERO
        segs = q.k
        if len(segs) > 24 and 'unroll' in self.opts and not self.st.f.norm(i).isconst():
            # refutation only: some of the positions
            k = self.choose(10)
            k = k if k < 5 else len(segs) - 10 + k
            for s in segs[:k]: off = off + seg_len(s)
            if segs[k].t == 'flat': raise Undecided('position in a long sequence')
            self.assume(le(off, i)); self.assume(lt(i, off + seg_len(segs[k])))
            return inst(segs[k].k[1], i - off)
        for j, s in enumerate(segs):
            n = seg_len(s)
            last = j == len(segs) - 1
            if s.t == 'flat':
                if not last and not self.branch(lt(i, off + n)):
                    off = off + n; continue
                return self.flat_get(s, i - off)
            if last or self.branch(lt(i, off + n)):
                return inst(s.k[1], i - off)
            off = off + n
        if self.st.f.infeasible(): raise DeadPath
        raise Undecided('element of empty sequence')
    def flat_get(self, s, r):
        """element r of a flattened segment: r = psum(len, j) + e with 0 <= j < count, 0 <= e < len(j)"""
        f = self.st.f
        cnt, ln, t = s.k
        js = [ZERO]
        seen = set()
        for a in dom.deep_atoms(r) | set(f.subs):
            at = dom.ATOMS[a]
            if at.kind == 'sum' and at.args[0] == ln and at.args[1] not in seen:
                seen.add(at.args[1]); js.append(at.args[1])
        if SUMBV.id not in dom.deep_atoms(ln) and len(ln.d) == 1:
            # fixed width: the multiple of the width
            (lm, lc), = ln.d.items()
            forms = {r, f.norm(r)}
            les = set(f.les)
            for q in f.les:
                if -q not in les: continue
                for p in list(forms):
                    for m, c in q.d.items():
                        if len(m) == 1 and abs(c) == 1 and m in p.d: forms.add(p - q * (p.d[m] * c)); break
            for p in forms:
                acc = ZERO
                for m, c in p.d.items():
                    if lm == ():
                        if m != () and c % lc == 0: acc = acc + P({m: c // lc})
                        continue
                    rest = list(m)
                    try:
                        for a in lm: rest.remove(a)
                    except ValueError: continue
                    if c % lc == 0: acc = acc + P({tuple(rest): c // lc})
                if acc not in js: js.append(acc)
        for j in reversed(js):
            e = r - psum(ln, j)
            lj = subst_p(ln, {SUMBV.id: j})
            if all(self.known(c) is True for c in (le(ZERO, j), lt(j, cnt), le(ZERO, e), lt(e, lj))):
                return inst(vsubst(t, {SUMBV.id: j}), e)
        if f.infeasible(): raise DeadPath
        raise Undecided('element of a flattened segment')
    def seq_split(self, q, i):
        """(before, after) segment lists at position i (0 <= i <= len)"""
        i = topoly(i)
        off = ZERO
        before = []
        segs = list(q.k)
        for j, s in enumerate(segs):
            n = seg_len(s)
            d = i - off
            if d.isconst() and d.c() == 0 or self.known(eq0(d)) is True: return before, segs[j:]
            if self.branch(le(off + n, i)):
                before.append(s); off = off + n; continue
            if self.branch(le(i, off)): return before, segs[j:]
            if s.t == 'flat':
                g = self.flat_boundary(s, d)
                if g is None: raise Undecided('split inside a flattened segment')
                sh = {SUMBV.id: S + g}
                return before + [Flat(g, s.k[1], s.k[2])], [Flat(s.k[0] - g, subst_p(s.k[1], sh), vsubst(s.k[2], sh))] + segs[j + 1:]
            return before + [Seg(d, s.k[1])], [Seg(n - d, shift(s.k[1], d))] + segs[j + 1:]
        return before, []
    def flat_boundary(self, s, d):
        """group count g with sum of the first g lengths equal to d, if evident"""
        for m in d.d:
            for a in m:
                at = dom.ATOMS[a]
                if at.kind == 'sum' and at.args[0] == s.k[1]:
                    if self.st.f.eqp(psum(s.k[1], at.args[1]), d): return at.args[1]
        return None
    def seq_split1(self, q, i):
        a, b = self.seq_split(q, i)
        if not b: raise Undecided('element write out of range')
        s = b[0]
        if s.t == 'flat': raise Undecided('write inside flattened segment')
        rest = Seg(s.k[0] - 1, shift(s.k[1], 1))
        if rest.k[0].isconst() and rest.k[0].c() == 0: r = b[1:]
        elif self.known(eq0(rest.k[0])) is True: r = b[1:]
        else: r = [rest] + b[1:]
        return a, inst(s.k[1], 0), r
    # ---- integers
    def rng(self, m):
        bits, sg = m
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    def in_rng(self, p, m):
        lo, hi = self.rng(m)
        return band(le(P.const(lo), p), le(p, P.const(hi)))
    def p(self, v):
        v = self.force(v)
        if v.t == 'int': return v.k[0]
        if v.t == 'byte': return byte2p(v)
        if v.t == 'bool': return b2i(v.k[0])
        raise Undecided('integer expected, got %s' % vstr(v)[:80])
    def b(self, v):
        v = self.force(v)
        if v.t == 'bool': return v.k[0]
        raise Undecided('bool expected, got %s' % v.t)
    def concrete(self, p, lo, hi):
        """partition on the value of p"""
        p = topoly(p)
        q = self.st.f.norm(p)
        if q.isconst(): return q.c()
        for v in range(lo, hi):
            if self.branch(eq(p, P.const(v))): return v
        self.assume(eq(p, P.const(hi)))
        return hi
    def divmod(self, x, c):
        """floor division by the positive constant c"""
        x = self.st.f.norm(x)
        if isinstance(c, P):
            return self.idiv(x, c, (64, False))
        if x.isconst(): return P.const(x.c() // c), P.const(x.c() % c)
        hi = {}; lo = {}
        for m, k in x.d.items():
            if k % c == 0 and m != (): hi[m] = k // c
            else: lo[m] = k
        base = P(hi); rest = P(lo)
        if rest.isconst():
            return base + rest.c() // c, P.const(rest.c() % c)
        cst = rest.c()
        base = base + cst // c; rest = rest - (cst // c) * c
        l, h = self.st.f.interval(rest)
        if l is not None and h is not None and 0 <= l and h < c: return base, rest
        q = app('div%d' % c, (rest,), None, None)
        if l is not None and l >= 0: q = app('div%d' % c, (rest,), 0, None)
        self.assume(le0(q * c - rest)); self.assume(le0(rest - q * c - (c - 1)))
        return base + q, rest - q * c
    # ---- functions
    def call_body(self, bid, args):
        st = self.st
        def mk():
            return self.exec_body(st, bid, args)
        return self.sub_outs(mk)
    def exec_body(self, st, bid, args):
        body = self.prog.bodies[bid]
        self.cov_fns.add(body['q'])
        if len(self.stack) > 60: raise Undecided('recursion')
        saved = self.depth, self.stack
        self.depth += 1
        self.stack = self.stack + [body['q']]
        fid = self.depth
        st = st.copy()
        for i, a in enumerate(args): st.store[(fid, i + 1)] = a
        if len(args) != body['argc']:
            raise Undecided('argument count of %s' % body['q'])
        try:
            outs = self.exec_region(st, fid, bid, 0, None, None)
        finally:
            self.depth, self.stack = saved
        res = []
        for o in outs:
            s = o.st
            if body['kind'] == 'promoted':
                # static data: what the reference points to outlives the frame
                for k in [k for k in s.store if k[0] == fid]: s.store[('p', bid, k[1])] = s.store[k]
                if o.v is not None and o.v.t == 'ref' and o.v.m[0][0] == fid: o = Out(o.k, V('ref', (('p', bid, o.v.m[0][1]), o.v.m[1]), o.v.k), s)
            for k in [k for k in s.store if k[0] == fid]: del s.store[k]
            res.append(o)
        return self.merge_outs(res)
    def exec_region(self, st, fid, bid, entry, region, header):
        """outcomes: ret / unwind / und / exit(v=bb) / back"""
        cfg = self.prog.cfg(bid, bool(self.opts.get('cleanup')))
        pend = {entry: [st]}
        outs = []
        first = True
        while pend:
            bb = min(pend, key=lambda x: cfg.rpo[x])
            sts = pend.pop(bb)
            if len(sts) > 1: sts = self.merge_states(sts)
            isloop = bb in cfg.loops and not (first and bb == header)
            nxt = []
            for s in sts:
                if isloop:
                    body = cfg.loops[bb]
                    self.cov_loops += 1
                    it = lambda x, bb=bb, body=body: self.exec_region(x, fid, bid, bb, body, bb)
                    for o in self.accelerate(s, it, '%s bb%d' % (self.prog.bodies[bid]['q'], bb)):
                        if o.k == 'exit': nxt.append((o.v, o.st))
                        else: outs.append(o)
                else:
                    for o in self.explore(s, lambda bb=bb: self.run_chain(fid, bid, bb, cfg, region, header)):
                        if o.k == 'ret':
                            if o.v[0] == 'goto': nxt.append((o.v[1], o.st))
                            else: outs.append(Out('ret', o.v[1], o.st))
                        else: outs.append(o)
            first = False
            for b2, s in nxt:
                if b2 == header: outs.append(Out('back', None, s))
                elif region is not None and b2 not in region: outs.append(Out('exit', b2, s))
                else: pend.setdefault(b2, []).append(s)
        # join outcomes
        backs = self.merge_states([o.st for o in outs if o.k == 'back'])
        ex = {}
        for o in outs:
            if o.k == 'exit': ex.setdefault(o.v, []).append(o.st)
        res = [o for o in outs if o.k not in ('back', 'exit')]
        res += [Out('back', None, s) for s in backs]
        for b2, l in ex.items(): res += [Out('exit', b2, s) for s in self.merge_states(l)]
        return res
    def run_chain(self, fid, bid, bb, cfg, region, header):
        body = self.prog.bodies[bid]
        while True:
            self.tick()
            blk = body['blocks'][bb]
            for s in blk['s']: self.stmt(fid, body, s)
            r = self.term(fid, body, blk['t'])
            if r[0] == 'ret': return r
            bb = r[1]
            if bb == header or len(cfg.pred[bb]) != 1 or bb in cfg.loops or (region is not None and bb not in region):
                return ('goto', bb)
    # ---- places and operands
    def place(self, fid, body, pl):
        loc = ((fid, pl[0]), (), ())
        tid = body['locals'][pl[0]]
        T = self.prog.types
        variant = None
        for pr in pl[1]:
            k = pr[0]
            if k == '*':
                v = self.force(self.read(loc))
                if v.t == 'ref': loc = (v.m[0], v.m[1], v.k)
                elif v.t == 'slref': loc = ('slice', v, ())
                elif v.t in ('box',): loc = (loc[0], loc[1] + (('f', 0),), loc[2])
                elif v.t == 'buf': pass          # Box<[T]> deref
                elif v.t == 'term': loc = ('val', v, ())
                else:
                    h = self.models.deref_other(self, v, loc)
                    if h is None: raise Undecided('deref of %s' % vstr(v)[:60])
                    loc = h
            elif loc[0] == 'slice':
                sl = loc[1]
                base, st, n = self.sl_parts(sl)
                if k == 'i': i = self.p(self.read(((fid, pr[1]), (), ())))
                elif k == 'c': i = n - pr[1] if pr[3] else P.const(pr[1])
                else: raise Undecided('slice projection %s' % k)
                loc = (base[0], base[1] + ('i',), tuple(base[2]) + (st + i,))
            elif k == 'f': loc = (loc[0], loc[1] + (('f', pr[1]),), loc[2])
            elif k == 'd': loc = (loc[0], loc[1] + (('v', pr[1]),), loc[2])
            elif k == 'i':
                i = self.p(self.read(((fid, pr[1]), (), ())))
                loc = (loc[0], loc[1] + ('q', 'i'), tuple(loc[2]) + (i,))
            elif k == 'c':
                if pr[3]: raise Undecided('from-end projection')
                loc = (loc[0], loc[1] + ('q', 'i'), tuple(loc[2]) + (P.const(pr[1]),))
            else: raise Undecided('projection %s' % k)
        return loc
    def rd(self, loc):
        if loc[0] == 'slice': raise Undecided('unsized read')
        if loc[0] == 'val': return loc[1]
        return self.read(loc)
    def operand(self, fid, body, op):
        if op[0] in ('c', 'm'):
            return self.rd(self.place(fid, body, op[1]))
        return self.const(fid, body, op[1])
    def const(self, fid, body, c):
        ty = self.prog.types[c['t']]
        h = self.models.const(self, c, ty, body)
        if h is not None: return h
        if 'int' in c: return self.mkint(int(c['int']), ty)
        if 'fn' in c: return V('fn', (c['t'], body['id']))
        if 'param' in c:
            return Int(var('const N', 0, USIZE))
        if 'promoted' in c:
            b = c['promoted']
            if ('p', b) not in self.st.store:
                v = self.call_body(b, [])
                self.st.store[('p', b)] = v
            return self.st.store[('p', b)]
        if 'cbody' in c: return self.call_body(c['cbody'], [])
        if 'zst' in c: return self.zst(c['t'])
        if 'bytes' in c: return Term('bytes', tuple(c['bytes'])) if False else V('str', tuple(c['bytes']))
        if 'pbytes' in c: return V('str', tuple(c['pbytes']))
        raise Undecided('constant %s' % (c,))
    def zst(self, tid):
        ty = self.prog.types[tid]
        k = ty['k']
        if k == 'fndef': return V('fn', (tid,))
        if k == 'closure': return V('clo', (tid,), ())
        if k == 'tuple': return Tup(*[self.zst(x) for x in ty['f']])
        if k == 'adt':
            vs = ty['variants']
            return Adt(ty['path'], 0, *[self.zst(f[1]) for f in vs[0]['f']]) if vs else Adt(ty['path'], 0)
        if k == 'array': return V('arr', (), (EMPTY,))
        return Term('zst:' + ty['s'])
    def mkint(self, n, ty):
        k = ty['k']
        if k == 'bool': return Bool(bconst(n))
        if k == 'int':
            if ty['signed'] and n >= 1 << (ty['bits'] - 1): n -= 1 << ty['bits']
            if ty['bits'] == 8 and not ty['signed']: return byte_const(n)
            return Int(P.const(n), ty['bits'], ty['signed'])
        if k == 'char': return Int(P.const(n), 32, False)
        if k in ('ptr', 'fnptr') : return V('ptrconst', (n,))
        if k == 'adt': return Adt(ty['path'], n)
        raise Undecided('scalar of type %s' % ty['s'])
    # ---- statements
    def stmt(self, fid, body, s):
        k = s[0]
        if k == '=':
            self.span = s[3] if len(s) > 3 else ''
            v = self.rvalue(fid, body, s[2], s[1])
            self.write(self.wplace(fid, body, s[1]), v)
        elif k == 'sl': self.st.store.pop((fid, s[1]), None)
        elif k == 'dead': self.st.store.pop((fid, s[1]), None)
        elif k == 'setd': raise Undecided('set discriminant')
    def wplace(self, fid, body, pl):
        if not pl[1]: return ((fid, pl[0]), (), ())
        root = (fid, pl[0])
        if root not in self.st.store and pl[1] and pl[1][0][0] == 'f':
            # piecewise initialisation of a tuple/struct
            tid = body['locals'][pl[0]]
            ty = self.prog.types[tid]
            if ty['k'] == 'tuple': self.st.store[root] = V('tup', (), (UNINIT,) * len(ty['f']))
            elif ty['k'] == 'adt' and len(ty['variants']) == 1:
                self.st.store[root] = V('adt', (ty['path'], 0), (UNINIT,) * len(ty['variants'][0]['f']))
        loc = self.place(fid, body, pl)
        if loc[0] in ('slice', 'val'): raise Undecided('write through %s' % loc[0])
        return loc
    def rvalue(self, fid, body, r, dst):
        k = r[0]
        if k == 'use' or k == 'cfd': return self.operand(fid, body, r[1])
        if k in ('ref', 'reb'):
            pl = r[2] if k == 'ref' else r[1] if isinstance(r[1], list) else r[2]
            return self.refof(fid, body, pl)
        if k == 'raw': 
            return self.models.rawof(self, self.refof(fid, body, r[2]))
        if k == 'bin': return self.binop(r[1], self.operand(fid, body, r[2]), self.operand(fid, body, r[3]))
        if k == 'un':
            v = self.operand(fid, body, r[2])
            if r[1] == 'Not':
                v = self.force(v)
                if v.t == 'bool': return Bool(bnot(v.k[0]))
                if v.t == 'byte': return Byte([bnot(b) for b in v.k])
                if v.t == 'int':
                    lo, hi = self.rng(v.m)
                    return V('int', v.m, (P.const(-1 if v.m[1] else hi) - v.k[0],))
            if r[1] == 'Neg':
                return V('int', v.m, (-v.k[0],))
            if r[1] == 'PtrMetadata':
                v = self.force(v)
                if v.t == 'slref': return Int(v.k[-1])
                return self.models.ptr_meta(self, v)
            raise Undecided('unary %s' % r[1])
        if k == 'discr':
            loc = self.place(fid, body, r[1])
            v = self.rd(loc)
            if v.t == 'ite' and v.k[1].t == 'adt' and v.k[2].t == 'adt':
                a, b = v.k[1], v.k[2]
                da, db = self.discr(a), self.discr(b)
                if (da, db) == (1, 0): return Int(b2i(v.k[0]))
                if (da, db) == (0, 1): return Int(b2i(bnot(v.k[0])))
            v = self.force(v)
            if v.t == 'adt': return Int(P.const(self.discr(v)))
            d = self.models.discr_other(self, v)
            if d is not None: return d
            raise Undecided('discriminant of %s' % vstr(v)[:80])
        if k == 'agg':
            xs = [self.operand(fid, body, o) for o in (r[3] if len(r) > 3 else r[2])]
            kind = r[1]
            if kind == 'tuple': return Tup(*xs)
            if kind == 'array': return V('arr', (), (mkseq([One(x) for x in xs]),))
            if kind == 'closure': return V('clo', (r[2],), tuple(xs))
            if kind == 'adt':
                path, variant = r[2][0], r[2][1]
                return self.models.mkadt(self, path, variant, xs, r[2])
            raise Undecided('aggregate %s' % kind)
        if k == 'rep':
            v = self.operand(fid, body, r[1])
            n = r[2]
            if isinstance(n, dict):
                if 'int' in n: n = P.const(int(n['int']))
                elif 'param' in n: n = var('const N', 0, USIZE)
                else: raise Undecided('array length')
            return V('arr', (), (mkseq([Seg(n, raised(v))]),))
        if k == 'cast': return self.cast(r[1], self.operand(fid, body, r[2]), r[3])
        if k == 'len':
            raise Undecided('len rvalue')
        raise Undecided('rvalue %s' % k)
    def discr(self, v):
        d = self.models.DISCR.get(v.m[0])
        return v.m[1] if d is None else d(v.m[1])
    def refof(self, fid, body, pl):
        loc = self.place(fid, body, pl)
        if loc[0] == 'slice': return loc[1]
        if loc[0] == 'val': return loc[1]
        return self.mkref(loc)
    def binop(self, op, a, b):
        a = self.force(a); b = self.force(b)
        if a.t in ('ptrconst', 'fp', 'ref', 'slref') or b.t in ('ptrconst', 'fp'):
            r = self.models.ptr_cmp(self, op, a, b)
            if r is not None: return r
        if a.t == 'bool' and b.t == 'bool':
            x, y = a.k[0], b.k[0]
            if op == 'BitAnd': return Bool(band(x, y))
            if op == 'BitOr': return Bool(bor(x, y))
            if op in ('BitXor', 'Ne'): return Bool(bxor(x, y))
            if op == 'Eq': return Bool(bnot(bxor(x, y)))
            raise Undecided('bool %s' % op)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            n = self.p(b)
            w = 8 if a.t == 'byte' else a.m[0]
            if a.t == 'byte':
                c = self.concrete(n, 0, 7)
                if op.startswith('Shl'): return Byte([FALSE] * c + list(a.k[:8 - c]))
                return Byte(list(a.k[c:]) + [FALSE] * c)
            nn = self.st.f.norm(n)
            if not nn.isconst():
                c = self.concrete(n, 0, w - 1)
            else: c = nn.c() % w
            if op.startswith('Shl'):
                x = a.k[0] * (1 << c)
                if self.known(self.in_rng(x, a.m)) is not True: raise Undecided('shift overflow')
                return V('int', a.m, (x,))
            q, r = self.divmod(a.k[0], 1 << c)
            return V('int', a.m, (q,))
        if a.t == 'byte' and b.t == 'byte':
            if op == 'BitAnd': return Byte([band(x, y) for x, y in zip(a.k, b.k)])
            if op == 'BitOr': return Byte([bor(x, y) for x, y in zip(a.k, b.k)])
            if op == 'BitXor': return Byte([bxor(x, y) for x, y in zip(a.k, b.k)])
            if op in ('Eq', 'Ne'):
                e = band(*[bnot(bxor(x, y)) for x, y in zip(a.k, b.k)])
                return Bool(e if op == 'Eq' else bnot(e))
            ca, cb = byte_val(a), byte_val(b)
            if op in ('Lt', 'Le', 'Gt', 'Ge') and (ca is not None or cb is not None):
                x, y = (a.k, b.k) if op in ('Lt', 'Ge') else (b.k, a.k)
                r, same = FALSE, TRUE          # x < y, from the highest bit down
                for i in range(7, -1, -1):
                    r = bor(r, band(same, bnot(x[i]), y[i]))
                    same = band(same, bnot(bxor(x[i], y[i])))
                return Bool(r if op in ('Lt', 'Gt') else bnot(r))
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and ca is not None and cb is not None:
                r = {'Add': ca + cb, 'Sub': ca - cb, 'Mul': ca * cb, 'Div': ca // cb if cb else 0, 'Rem': ca % cb if cb else 0}[op]
                return byte_const(r & 255)
        if a.t == 'byte' and (b.t != 'int' or True) and a.t != b.t or a.t == 'byte':
            m = (8, False)
        else:
            m = a.m if a.t == 'int' else (64, False)
        if a.t not in ('int', 'byte', 'bool') or b.t not in ('int', 'byte', 'bool'):
            raise Undecided('operands of %s: %s, %s' % (op, a.t, b.t))
        x, y = self.p(a), self.p(b)
        if op == 'Eq': return Bool(eq(x, y))
        if op == 'Ne': return Bool(bnot(eq(x, y)))
        if op == 'Lt': return Bool(lt(x, y))
        if op == 'Le': return Bool(le(x, y))
        if op == 'Gt': return Bool(lt(y, x))
        if op == 'Ge': return Bool(le(y, x))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            z = x + y if op[0] == 'A' else x - y if op[0] == 'S' else x * y
            return self.wrap(z, m)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            z = x + y if op[0] == 'A' else x - y if op[0] == 'S' else x * y
            ok = self.in_rng(z, m)
            return Tup(self.mk(z, m), Bool(bnot(ok)))
        if op in ('Div', 'Rem'):
            r = self.idiv(x, y, m)
            return self.mk(r[0] if op == 'Div' else r[1], m)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitint(op, x, y, m)
        raise Undecided('binop %s' % op)
    def bitint(self, op, x, y, m):
        x = self.st.f.norm(x); y = self.st.f.norm(y)
        if x.isconst() and y.isconst():
            r = {'BitAnd': x.c() & y.c(), 'BitOr': x.c() | y.c(), 'BitXor': x.c() ^ y.c()}[op]
            return self.mk(P.const(r), m)
        if op == 'BitAnd':
            for p, c in ((x, y), (y, x)):
                if c.isconst():
                    n = c.c()
                    if n > 0 and (n & (n + 1)) == 0:
                        return self.mk(self.divmod(p, n + 1)[1], m)
                    if n > 0 and (n & (n - 1)) == 0:
                        # single bit
                        q, r = self.divmod(p, n)
                        return self.mk(self.divmod(q, 2)[1] * n, m)
                    # ~(2^j-1)
                    hi = (1 << m[0]) - 1
                    inv = (hi ^ n) if n >= 0 else ~n
                    if (inv & (inv + 1)) == 0:
                        return self.mk(p - self.divmod(p, inv + 1)[1], m)
        # an uninterpreted result with the facts that hold for any two words
        if self.known(le0(-x)) is not True or self.known(le0(-y)) is not True: raise Undecided('%s on signed integers' % op)
        if tuple(sorted(y.d.items())) < tuple(sorted(x.d.items())): x, y = y, x
        if x == y: return self.mk(ZERO if op == 'BitXor' else x, m)
        z = app('#' + op, (x, y), 0, (1 << m[0]) - 1)
        if op == 'BitAnd': fs = [le(z, x), le(z, y)]
        elif op == 'BitOr': fs = [le(x, z), le(y, z), le(z, x + y)]
        else: fs = [le(z, x + y), le(x, z + y), le(y, z + x), bnot(bxor(eq(z, ZERO), eq(x, y)))]
        for b in fs: self.assume(b)
        return self.mk(z, m)
    def mk(self, p, m):
        if m == (8, False):
            q = self.st.f.norm(p)
            if q.isconst(): return byte_const(q.c() & 255)
        return V('int', m, (p,))
    def wrap(self, z, m):
        ok = self.in_rng(z, m)
        if self.branch(ok): return self.mk(z, m)
        lo, hi = self.rng(m)
        if self.branch(lt(P.const(hi), z)):
            w = z - (1 << m[0])
        else: w = z + (1 << m[0])
        if self.known(self.in_rng(w, m)) is not True:
            if m[1] or self.known(lt(P.const(hi), z)) is not True: raise Undecided('wrap-around')
            # a product that wraps around an unknown number of times
            w = z - app('wraps', (self.st.f.norm(z),), 1, None) * (1 << m[0])
            self.assume(self.in_rng(w, m))
        return self.mk(w, m)
    def idiv(self, x, y, m):
        y = self.st.f.norm(y)
        if m[1]:
            if self.known(le0(-x)) is not True: raise Undecided('signed division')
        if y.isconst():
            if y.c() == 0: raise Unwind('division by zero')
            return self.divmod(x, y.c())
        # symbolic divisor
        f = self.st.f
        xn = f.norm(x)
        ex = self.poly_div(xn, y)
        if ex is not None: return ex, ZERO
        q = app('divp', (xn, y), 0, None); r = app('modp', (xn, y), 0, None)
        self.assume(eq(q * y + r, x)); self.assume(lt(r, y))
        self.assume(le(q, x))
        return q, r
    def poly_div(self, x, y):
        """exact quotient when every monomial of x contains the atom y"""
        if len(y.d) == 1:
            (m, c), = y.d.items()
            if c == 1 and len(m) == 1:
                out = {}
                for mm, k in x.d.items():
                    if m[0] not in mm: return None
                    l = list(mm); l.remove(m[0]); out[tuple(l)] = k
                return P(out)
        return None
    def cast(self, kind, v, tid):
        ty = self.prog.types[tid]
        v = self.force(v)
        if kind == 'IntToInt':
            if ty['k'] == 'int':
                m = (ty['bits'], ty['signed'])
                if v.t == 'bool':
                    if m == (8, False): return Byte([v.k[0]] + [FALSE] * 7)
                    return V('int', m, (b2i(v.k[0]),))
                if v.t == 'byte':
                    if m == (8, False): return v
                    return V('int', m, (byte2p(v),))
                x = v.k[0]
                if v.m == m: return v
                k = self.known(self.in_rng(x, m))
                if k is True: return self.mk(x, m)
                if self.branch(self.in_rng(x, m)): return self.mk(x, m)
                if not m[1]:
                    q, r = self.divmod(x, 1 << m[0])
                    return self.mk(r, m)
                raise Undecided('truncating cast')
        if kind.startswith('PointerCoercion(Unsize'):
            return self.unsize(v, ty)
        if kind.startswith('PointerCoercion'): return v
        if kind.startswith('PointerExpose') and hasattr(self.models, 'addr_of'): return self.models.addr_of(self, v)
        if kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute'):
            return self.models.ptr_cast(self, kind, v, ty)
        raise Undecided('cast %s' % kind)
    def unsize(self, v, ty):
        if v.t == 'ref':
            loc = (v.m[0], v.m[1], v.k)
            x = self.force(self.read(loc))
            if x.t == 'arr':
                return self.slref((loc[0], loc[1] + ('q',), loc[2]), ZERO, seq_len(x.k[0]))
            if x.t == 'buf':
                return self.slref((loc[0], loc[1] + ('q',), loc[2]), ZERO, seq_len(x.k[0]))
            return v
        return v
    # ---- terminators
    def term(self, fid, body, t):
        if not self.opts.get('cleanup'): return self.term_(fid, body, t)
        k = t[0]
        if k == 'resume':
            w = self.st.store.get(('unw', fid))
            raise Unwind(w.m if w is not None else 'resumed')
        if k == 'abort' : raise DeadPath()
        try: return self.term_(fid, body, t)
        except Unwind as e:
            u = t[5] if k in ('call', 'assert') else t[4] if k == 'drop' else None
            if isinstance(u, int) and not isinstance(u, bool):
                self.st.store[('unw', fid)] = V('why', str(e.why))
                return ('goto', u)
            if u == 'abort': raise DeadPath()      # the process ends
            raise
    def term_(self, fid, body, t):
        k = t[0]
        if k == 'goto': return ('goto', t[1])
        if k == 'ret':
            return ('ret', self.st.store.get((fid, 0), UNIT))
        if k == 'switch':
            v = self.force(self.operand(fid, body, t[1]))
            tgt = self.switch(v, t[2], t[3])
            return ('goto', tgt)
        if k == 'assert':
            c = self.b(self.operand(fid, body, t[1]))
            if not self.branch(c if t[2] else bnot(c)):
                raise Unwind('%s at %s' % (t[3], t[6] if len(t) > 6 else ''))
            return ('goto', t[4])
        if k == 'drop':
            self.models.drop(self, fid, body, t)
            return ('goto', t[3])
        if k == 'call':
            callee = t[1]
            args = [self.operand(fid, body, a) for a in t[2]]
            span = t[6]
            self.span = span
            r = self.do_call(callee, args, t[7], t[8], span, fid, body)
            if t[4] is None: raise Unwind('diverging call')
            self.write(self.wplace(fid, body, t[3]), r)
            return ('goto', t[4])
        if k == 'unreach': raise DeadPath()
        if k == 'abort': raise Unwind('abort')
        raise Undecided('terminator %s' % k)
    def switch(self, v, cases, other):
        if v.t == 'bool': return self._sw_bool(v.k[0], cases, other)
        p = self.p(v)
        m = v.m if v.t == 'int' else (8, False)
        # recover the boolean behind a 0/1 discriminant
        for val, bb in cases:
            n = int(val)
            if m[1] and n >= 1 << (m[0] - 1): n -= 1 << m[0]
            if self.branch(self.eqn(p, n)): return bb
        if other is None: raise DeadPath()
        return other
    def eqn(self, p, n):
        if len(p.d) <= 2:
            at = [(m, c) for m, c in p.d.items() if m != ()]
            if len(at) == 1 and len(at[0][0]) == 1 and abs(at[0][1]) == 1:
                a = dom.ATOMS[at[0][0][0]]
                if a.kind == 'b2i':
                    for val in (0, 1):
                        pv = p.c() + at[0][1] * val
                        if pv == n: return a.args[0] if val else bnot(a.args[0])
                    return FALSE
        return eq(p, P.const(n))
    def _sw_bool(self, x, cases, other):
        d = {int(v): b for v, b in cases}
        if self.branch(x):
            r = d.get(1, other)
        else: r = d.get(0, other)
        if r is None: raise DeadPath()
        return r
    # ---- calls
    def do_call(self, callee, args, argtys, destty, span, fid=None, body=None):
        self.cov_calls += 1
        self.tick()
        self.curbody = body
        if not isinstance(callee, dict) or 'q' not in callee:
            # indirect call through a value
            if isinstance(callee, dict) and 'op' in callee: callee = callee['op']
            if isinstance(callee, list):
                fv = self.operand(fid, body, callee)
                return self.call_value(fv, args)
            raise Undecided('call of %s' % str(callee)[:120])
        return self.models.call(self, callee, args, argtys, destty, span)
    def call_value(self, fv, args):
        fv = self.force(fv)
        if fv.t == 'fn':
            ty = self.prog.types[fv.m[0]]
            return self.do_call(ty['callee'], args, None, None, self.span, None, self.prog.bodies[fv.m[1]] if len(fv.m) > 1 else None)
        if fv.t == 'clo':
            with self.tmp(fv) as loc:
                return self.call_loc(loc, args)
        if fv.t == 'ref':
            return self.call_loc((fv.m[0], fv.m[1], fv.k), args)
        if fv.t == 'pyfn': return fv.m[0](self, *args)
        raise Undecided('call of %s' % fv.t)
    def call_loc(self, loc, args):
        """call the function value stored at loc"""
        fv = self.force(self.read(loc))
        if fv.t == 'clo':
            ty = self.prog.types[fv.m[0]]
            bid = ty.get('body')
            if bid is None: raise Undecided('closure without body')
            b = self.prog.bodies[bid]
            l1 = self.prog.types[b['locals'][1]]
            if l1['k'] == 'ref': env = self.mkref(loc)
            else: env = fv
            return self.call_body(bid, [env] + list(args))
        if fv.t == 'ref': return self.call_loc((fv.m[0], fv.m[1], fv.k), args)
        return self.call_value(fv, args)
    # ---- loops
    def nloop(self, body, what='native loop'):
        """native loop: body() returns True to continue"""
        st = self.st
        def it(s):
            r = []
            for o in self.explore(s, body):
                if o.k == 'ret': r.append(Out('back', None, o.st) if o.v else Out('exit', None, o.st))
                else: r.append(o)
            b = self.merge_states([o.st for o in r if o.k == 'back'])
            e = self.merge_states([o.st for o in r if o.k == 'exit'])
            return [o for o in r if o.k not in ('back', 'exit')] + [Out('back', None, s) for s in b] + [Out('exit', None, s) for s in e]
        def mk():
            self.cov_loops += 1
            outs = self.accelerate(st.copy(), it, what)
            return [Out('ret', None, o.st) if o.k == 'exit' else o for o in outs]
        self.sub_outs(mk)
    def bounded_hint(self, st):
        for k, v in st.store.items():
            if not isinstance(k[0], int) and k[0] != 't': continue
            for w in vwalk(v):
                if w.t == 'adt' and w.m[0].endswith('ops::range::Range') and len(w.k) == 2 and w.k[0].t == 'int' and w.k[1].t == 'int':
                    d = st.f.norm(w.k[1].k[0] - w.k[0].k[0])
                    if d.isconst() and d.c() <= 64: 
                        if k[0] == self.depth + 1 or k[0] == 't' or True: return True
        return False
    def accelerate(self, s0, iterate, what, depth=0, cache=None, period=1):
        if self.opts.get('loopdbg'): print('  ' * len(self.stack), 'loop', what, 'depth', depth, 'period', period)
        if depth == 0:
            saved = self.loopwork; self.loopwork = 1
            try: return self.accelerate_(s0, iterate, what, depth, cache, period)
            finally: self.loopwork = saved
        return self.accelerate_(s0, iterate, what, depth, cache, period)
    loopwork = 0
    def unroll(self, s0, iterate, what):
        """with the input pinned a loop is a finite chain of states"""
        front = [s0]; res = []
        small = self.opts.get('unroll')
        for i in range(400 if self.opts.get('small') else 5000):
            nf = []
            for s in front:
                for o in iterate(s):
                    if o.k == 'back': nf.append(o.st)
                    else: res.append(o)
            if len(res) > 160: res = res[:16] + res[-48:]
            if len(nf) > 48:
                if not small: break
                nf = nf[:16] + nf[-16:]       # refutation only: some of the paths
            front = nf
            if not front: break
        if small: return res if len(res) <= 64 else res[:16] + res[-48:]
        return res + [Out('und', 'loop not summarised: ' + what, s0)]
    def accelerate_(self, s0, iterate, what, depth, cache, period):
        if self.opts.get('unroll'): return self.unroll(s0, iterate, what)
        self.loopwork += 1
        if depth > 12 or (depth > 3 and self.loopwork > self.LOOPWORK):
            return [Out('und', 'loop not summarised: ' + what, s0)]
        outs0 = iterate(s0) if cache is None else cache
        res = [o for o in outs0 if o.k != 'back']
        backs = [o.st for o in outs0 if o.k == 'back']
        if not backs: return res
        for t in backs: self.canon(s0, t)
        why = []
        memo = {}
        def itb(s):
            r = memo.get(id(s))
            if r is None: r = memo[id(s)] = (s, iterate(s))
            return r[1]
        if depth <= 4:
            tries = 0
            for t1 in backs:
                cands = [o.st for o in itb(t1) if o.k == 'back']
                for t in cands: self.canon(t1, t)
                n0 = len(s0.sig)
                d1 = t1.sig[len(s0.sig):]
                cands.sort(key=lambda s: s.sig[len(t1.sig):] != d1)
                for t2 in cands[:4]:
                    tries += 1
                    if tries > 12: break
                    g = self.try_gen(s0, t1, t2, iterate, why)
                    if g is None: continue
                    self.cov_loops += 0
                    outsK, cov, first = g
                    res2 = list(res)
                    for o in outsK:
                        if o.k != 'back': res2.append(o)
                        elif id(o.st) not in cov:
                            res2 += self.accelerate(o.st, iterate, what, depth + 1, None, period)
                    for t in backs:
                        if t is not t1 and not first(t):
                            res2 += self.accelerate(t, iterate, what, depth + 1, memo.get(id(t), (0, None))[1], period)
                    return res2
        if self.opts.get('loopdbg'): print('  ' * len(self.stack), ' no generalisation', why[:6])
        if period == 1 and depth <= 1 and any(w == 'const' for w in why):
            it8 = self.compose(iterate, 8)
            probe = self.accelerate(s0, it8, what, 0, None, 8)
            if not any(o.k == 'und' and o.v.startswith('loop not') for o in probe): return probe
        if period == 8 and depth >= 2:
            return [Out('und', 'loop not summarised: ' + what, s0)]
        for t in backs:
            res += self.accelerate(t, iterate, what, depth + 1, memo.get(id(t), (0, None))[1], period)
        return res
    def canon(self, s0, t):
        """replace counters introduced during the iteration by what the facts
        say they are equal to"""
        new = [i for i in t.f.subs if '~' in dom.ATOMS[i].name and dom.ATOMS[i].kind in ('var', 'app')]
        if not new: return
        old = set()
        for v in s0.store.values(): old |= atomsof(v)
        mp = {i: t.f.norm(P.atom(dom.ATOMS[i])) for i in new if i not in old}
        if mp:
            t.store = {k: vsubst(v, mp) for k, v in t.store.items()}
            n = len(s0.f.log)
            t.f.log = t.f.log[:n] + tuple(subst_b(x, mp) for x in t.f.log[n:])
    def compose(self, iterate, n):
        def it(s):
            front = [s]; res = []
            for i in range(n):
                nf = []
                for x in front:
                    for o in iterate(x):
                        if o.k == 'back': nf.append(o.st)
                        else: res.append(o)
                front = nf
                if len(front) > 64: raise Undecided('composition')
            return res + [Out('back', None, x) for x in front]
        return it
    def try_gen(self, s0, s1, s2, iterate, why):
        k = fresh('k', 1, None)
        f2 = s2.f
        g = Gen(k, f2)
        store = {}
        keys = s0.store.keys() & s1.store.keys() & s2.store.keys()
        if s0.ev != s1.ev or s1.ev != s2.ev:
            why.append('events'); return None
        for key in keys:
            try: store[key] = g.v(s0.store[key], s1.store[key], s2.store[key])
            except NoGen as e:
                why.append('const' if str(e) == 'const' or self._constdiff(s0.store[key], s1.store[key], s2.store[key]) else '%s: %s' % (key, e))
                return None
        # facts
        L1 = s1.f.log[len(s0.f.log):]; L2 = s2.f.log[len(s1.f.log):]
        cs = []
        used = set()
        for x in L1:
            for j, y in enumerate(L2):
                if j in used: continue
                try: c = au_b(x, y, P.atom(FACTBV))
                except NoGen: continue
                used.add(j); cs.append(c); break
        # what the first iteration established about the input as a whole stays true
        keep = [x for x in L1 if x.k in ('le', 'eq') and all(dom.ATOMS[j].kind == 'var' and '~' not in dom.ATOMS[j].name for j in b_atoms(x)) and s0.f.eval(x) is not True]
        grown = False
        last = []              # facts the previous iteration established (about PREV, its index)
        for rnd in range(6):
            st = St()
            st.store = dict(store); st.ev = s0.ev
            st.f = s0.f.copy()
            alls = []
            for c in keep: st.f.add(c)
            for c in last: st.f.add(subst_b(c, {PREVBV.id: k - 1}))
            for c in cs:
                if FACTBV.id in b_atoms(c):
                    st.f.add(subst_b(c, {FACTBV.id: ZERO})); st.f.add(subst_b(c, {FACTBV.id: k - 1}))
                    if c.k == 'ne' and abs(c.a.d.get((FACTBV.id,), 0)) == 1 and FACTBV.id not in deep_atoms(c.a - P({(FACTBV.id,): c.a.d[(FACTBV.id,)]})):
                        # never zero while moving by one: the sign cannot change
                        z = subst_p(c.a, {FACTBV.id: ZERO}); zk = subst_p(c.a, {FACTBV.id: k - 1})
                        if s0.f.entails_le(z): st.f.add(le0(zk + 1), False)
                        elif s0.f.entails_le(-z): st.f.add(le0(1 - zk), False)
                    alls.append(c)
                else: st.f.add(c)
            if alls:
                fa = Forall(EBV, k, [subst_b(c, {FACTBV.id: E}) for c in alls])
                st.f.alls = st.f.alls + (fa,)
                st.f._dirty()
            if st.f.dead: why.append('dead'); return None
            base = st.copy()
            outs = iterate(st)
            main = None
            mp = {next(iter(k.d))[0]: k + 1}
            bad = None
            for o in outs:
                if o.k != 'back': continue
                miss = [key for key in keys if key not in o.st.store or not v_eq(o.st.f, o.st.store[key], vsubst(store[key], mp))]
                if not miss: main = o.st; break
                if bad is None or len(miss) < len(bad): bad = miss; badst = o.st
            if main is None:
                why.append('unstable %s' % ([(key, vstr(badst.store.get(key, UNINIT))[:300], vstr(vsubst(store[key], mp))[:300]) for key in (bad or [])][:2],))
                return None
            ok = [c for c in cs if main.f.eval(subst_b(c, {FACTBV.id: k})) is True]
            lok = [c for c in last if main.f.eval(subst_b(c, {PREVBV.id: k})) is True]
            if len(lok) < len(last):
                last = lok; cs = ok; continue
            if len(ok) == len(cs):
                # facts the generic iteration establishes beyond those guessed
                if not grown and rnd < 3:
                    grown = True
                    kid = next(iter(k.d))[0]
                    more = []; newlast = []
                    for l in main.f.log[len(base.f.log):]:
                        if kid not in b_atoms(l): continue
                        if any(dom.ATOMS[j].kind == 'sum' and kid in deep_atoms(dom.ATOMS[j].args[1]) for j in b_atoms(l)):
                            c = subst_b(l, {kid: P.atom(PREVBV)})
                            if c not in last and c not in newlast and s1.f.eval(subst_b(c, {PREVBV.id: ZERO})) is True: newlast.append(c)
                            continue
                        c = subst_b(l, {kid: P.atom(FACTBV)})
                        if c in cs or c in more: continue
                        if s1.f.eval(subst_b(c, {FACTBV.id: ZERO})) is True: more.append(c)
                    if more or newlast:
                        cs = cs + more; last = last + newlast; continue
                # states the generic head state covers, by induction
                kid = next(iter(k.d))[0]
                def covers(t, at, nxt):
                    return all(key in t.store and v_eq(t.f, t.store[key], vsubst(store[key], {kid: nxt})) for key in keys) \
                        and all(t.f.eval(subst_b(c, {FACTBV.id: at})) is True for c in cs) \
                        and all(t.f.eval(subst_b(c, {PREVBV.id: at})) is True for c in last)
                cov = {id(main)}
                for o in outs:
                    if o.k == 'back' and o.st is not main and o.st.ev == s0.ev and covers(o.st, k, k + 1): cov.add(id(o.st))
                return outs, cov, lambda t: t.ev == s0.ev and covers(t, ZERO, ONE) and all(t.f.eval(c) is True for c in keep)
            cs = ok
        why.append('facts'); return None
    def _constdiff(self, a, b, c):
        """values differ in a small constant (mask-like) cell"""
        for x, y in zip(_leaves(a), _leaves(b)):
            if x != y and isinstance(x, B) and isinstance(y, B) and (x.k == 'c' or y.k == 'c'): return True
        return False

def _leaves(v):
    if isinstance(v, V):
        for x in v.k: yield from _leaves(x)
    else: yield v
