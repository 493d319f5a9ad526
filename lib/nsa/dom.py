"""Abstract domain: integer polynomials, boolean formulas, linear facts.

Numerical part: conjunctions of linear constraints over integer atoms with
equalities kept in solved form; entailment is decided by exact rational
linear programming (own simplex, no solver) plus integer tightening.
"""
from fractions import Fraction
from math import gcd, floor, ceil
import itertools

USIZE = (1 << 64) - 1

# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'nonneg')
    def __repr__(self): return atom_str(self)

ATOMS = []
_AKEY = {}
_fresh = itertools.count()

def _mk(kind, name, args, lo, hi):
    key = (kind, name, args)
    a = _AKEY.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.name = name; a.args = args
        a.lo = lo; a.hi = hi
        ATOMS.append(a); _AKEY[key] = a
    return a

def var(name, lo=0, hi=None):
    """a named input quantity"""
    return P.atom(_mk('var', name, (), lo, hi))

def fresh(name, lo=0, hi=None):
    return P.atom(_mk('var', '%s~%d' % (name, next(_fresh)), (), lo, hi))

def havoc(name, lo=0, hi=None):
    return P.atom(_mk('var', '?%s~%d' % (name, next(_fresh)), (), lo, hi))

def bv(name='#'):
    return _mk('bv', '%s%d' % (name, next(_fresh)), (), 0, None)

def app(fn, args, lo=None, hi=None):
    return P.atom(_mk('app', fn, tuple(args), lo, hi))

SUMBV = _mk('bv', '#s', (), 0, None)
PREVBV = _mk('bv', '#p', (), 0, None)
FACTBV = _mk('bv', '#f', (), 0, None)

# ----------------------------------------------------------------- polynomials
class P:
    __slots__ = ('d', 'h', 'n', 'a')
    def __init__(self, d):
        self.d = d
        self.h = None
        self.n = None
        self.a = None
    def nc(self):
        """the part without the constant"""
        if self.n is None: self.n = frozenset(x for x in self.d.items() if x[0] != ())
        return self.n
    @staticmethod
    def const(c):
        return P({(): c}) if c else ZERO
    @staticmethod
    def atom(a):
        return P({(a.id,): 1})
    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h
    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d
    def __add__(self, o):
        if isinstance(o, int): o = P.const(o)
        if not o.d: return self
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x: d[m] = x
            else: d.pop(m, None)
        return P(d)
    __radd__ = __add__
    def __neg__(self): return P({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        if isinstance(o, int): o = P.const(o)
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) - c
            if x: d[m] = x
            else: d.pop(m, None)
        return P(d)
    def __rsub__(self, o): return P.const(o) - self
    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0: return ZERO
            return P({m: c * o for m, c in self.d.items()})
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                x = d.get(m, 0) + c1 * c2
                if x: d[m] = x
                else: d.pop(m, None)
        return P(d)
    __rmul__ = __mul__
    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)
    def c(self):
        return self.d.get((), 0)
    def atoms(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def __repr__(self): return pstr(self)

ZERO = P({})
ONE = P({(): 1})

def topoly(x):
    return x if isinstance(x, P) else P.const(x)

def atom_str(a):
    if a.kind in ('var', 'bv'): return a.name
    if a.kind == 'sum': return 'sum(%s for #<%s)' % (pstr(a.args[0]), pstr(a.args[1]))
    if a.kind == 'b2i': return '[%s]' % bstr(a.args[0])
    return '%s(%s)' % (a.name, ', '.join(pstr(x) if isinstance(x, P) else str(x) for x in a.args))

def pstr(p):
    if not p.d: return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (t[0] == (), t[0])):
        if m == (): s = str(abs(c))
        else:
            s = '*'.join(atom_str(ATOMS[i]) for i in m)
            if abs(c) != 1: s = '%d*%s' % (abs(c), s)
        out.append(('-' if c < 0 else '+') + ' ' + s)
    s = ' '.join(out)
    return s[2:] if s.startswith('+ ') else '-' + s[2:]

# ----------------------------------------------------------------- sums, b2i
def psum(t, n):
    """sum of t(#) for # in 0..n, t a polynomial over SUMBV"""
    n = topoly(n)
    if SUMBV.id not in deep_atoms(t):
        return t * n
    if len(t.d) > 1:
        tel = telescope(t, n)
        if tel is not None: return tel
    c = n.c()
    base = n - c
    r = ZERO
    if base.d:
        # zero-constant base
        r = P.atom(_mk('sum', 'sum', (t, base), None, None))
    if c > 0:
        if c > 64: 
            return P.atom(_mk('sum', 'sum', (t, n), None, None))
        for i in range(c):
            r = r + subst_p(t, {SUMBV.id: base + i})
    elif c < 0:
        if not base.d: return ZERO
        if c < -64: return P.atom(_mk('sum', 'sum', (t, n), None, None))
        for i in range(c, 0):
            r = r - subst_p(t, {SUMBV.id: base + i})
    return r

_SHIFT = {}
def sum_shift(i):
    """canonical index shift of a summand atom: its argument is c*# + d with
    0 <= d < c after shifting by d div c"""
    r = _SHIFT.get(i)
    if r is None:
        a = ATOMS[i]; r = 0
        args = a.args
        if a.kind == 'b2i': 
            b = args[0]
            args = b.a[1] if b.k == 'at' else ()
        if a.kind in ('b2i', 'app'):
            for x in args:
                if not isinstance(x, P): continue
                c = x.d.get((SUMBV.id,), 0)
                if c > 0 and SUMBV.id not in deep_atoms(x - P({(SUMBV.id,): c})):
                    r = x.c() // c
                    break
        _SHIFT[i] = r
    return r
def canon_sum(t, n):
    todo = None
    for m in t.d:
        if len(m) == 1:
            r = sum_shift(m[0])
            if r and -9 < r < 9:
                todo = todo or []
                todo.append((m, r))
    if not todo: return None
    sv = P.atom(SUMBV); extra = ZERO
    for m, r in todo:
        c = t.d[m]
        x = P({m: 1})
        base = subst_p(x, {SUMBV.id: sv - r})
        t = t + (base - x) * c
        # sum x(s) = sum base(s + r)
        if r > 0:
            for j in range(r):
                extra = extra + (subst_p(base, {SUMBV.id: n + j}) - subst_p(base, {SUMBV.id: P.const(j)})) * c
        else:
            for j in range(-r):
                extra = extra + (subst_p(base, {SUMBV.id: P.const(-1 - j)}) - subst_p(base, {SUMBV.id: n - 1 - j})) * c
    return psum(t, n) + extra

def canonp(p):
    """p with the index shift of its sums normalised"""
    r = None
    for m, c in p.d.items():
        if len(m) == 1 and ATOMS[m[0]].kind == 'sum':
            t, n = ATOMS[m[0]].args
            s = canon_sum(t, n)
            if s is not None:
                r = (p if r is None else r) + (s - P({m: 1})) * c
    return p if r is None else r
def telescope(t, n):
    """pull out differences x(i+1) - x(i)"""
    r = None
    for m, c in list(t.d.items()):
        if len(m) != 1 or t.d.get(m) != c: continue
        a = ATOMS[m[0]]
        if a.kind == 'sum' or SUMBV.id not in deep_atoms_atom(m[0]): continue
        x = P({m: 1})
        sh = subst_p(x, {SUMBV.id: P.atom(SUMBV) + 1})
        if len(sh.d) != 1: continue
        (m2, c2), = sh.d.items()
        if c2 != 1 or t.d.get(m2) != -c: continue
        t = t - x * c + sh * c
        r = (r or ZERO) + (subst_p(x, {SUMBV.id: ZERO}) - subst_p(x, {SUMBV.id: n})) * c
    return None if r is None else r + psum(t, n)

_DEEP = {}
def deep_atoms_atom(aid):
    r = _DEEP.get(aid)
    if r is None:
        a = ATOMS[aid]
        s = {aid}
        for x in a.args:
            if isinstance(x, P): s |= deep_atoms(x)
            elif isinstance(x, B): s |= b_atoms(x)
        if a.kind == 'sum': s = ({aid} | (deep_atoms(a.args[0]) - {SUMBV.id})) | deep_atoms(a.args[1])
        r = frozenset(s); _DEEP[aid] = r
    return r

def deep_atoms(p):
    s = p.a
    if s is None:
        s = set()
        for m in p.d:
            for i in m: s |= deep_atoms_atom(i)
        s = p.a = frozenset(s)
    return s

def subst_p(p, mp):
    if not mp: return p
    if mp.keys().isdisjoint(deep_atoms(p)):
        return p
    r = ZERO
    for m, c in p.d.items():
        t = P.const(c)
        for i in m:
            t = t * subst_atom(i, mp)
        r = r + t
    return r

def subst_atom(i, mp):
    if i in mp: return mp[i]
    a = ATOMS[i]
    if not a.args or mp.keys().isdisjoint(deep_atoms_atom(i)): return P.atom(a)
    if a.kind == 'sum' and SUMBV.id in mp:
        return psum(subst_p(a.args[0], {j: x for j, x in mp.items() if j != SUMBV.id}), subst_p(a.args[1], mp))
    return rebuild_atom(a, lambda p: subst_p(p, mp), lambda b: subst_b(b, mp))

def rebuild_atom(a, fp, fb):
    if a.kind == 'sum':
        return psum(fp(a.args[0]), fp(a.args[1]))
    if a.kind == 'b2i':
        return b2i(fb(a.args[0]))
    args = tuple(fp(x) if isinstance(x, P) else fb(x) if isinstance(x, B) else x for x in a.args)
    return P.atom(_mk(a.kind, a.name, args, a.lo, a.hi))

# ----------------------------------------------------------------- booleans
class B:
    __slots__ = ('k', 'a', 'h', 'at')
    def __init__(self, k, a):
        self.k = k; self.a = a; self.h = hash((k, a)); self.at = None
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, B) and self.h == o.h and self.k == o.k and self.a == o.a
    def __repr__(self): return bstr(self)
    def __bool__(self): raise TypeError('symbolic bool')

TRUE = B('c', True)
FALSE = B('c', False)

def bstr(b):
    if b.k == 'c': return str(b.a)
    if b.k == 'le': return '%s <= 0' % pstr(b.a)
    if b.k == 'eq': return '%s == 0' % pstr(b.a)
    if b.k == 'ne': return '%s != 0' % pstr(b.a)
    if b.k == 'at': return ('' if b.a[2] else '!') + '%s(%s)' % (b.a[0], ', '.join(pstr(x) if isinstance(x, P) else str(x) for x in b.a[1]))
    return '%s(%s)' % (b.k, ', '.join(bstr(x) for x in b.a))

def bconst(v): return TRUE if v else FALSE
def le0(p):
    if p.isconst(): return bconst(p.c() <= 0)
    return B('le', p)
def eq0(p):
    if p.isconst(): return bconst(p.c() == 0)
    # canonical sign
    m = min(p.d, key=lambda m: (m == (), m))
    if len(p.d) <= 2 and len(m) == 1 and ATOMS[m[0]].kind == 'b2i' and (len(p.d) == 1 or () in p.d):
        # a 0/1 value compared with a constant
        c = p.d[m]; k = -p.d.get((), 0); b = ATOMS[m[0]].args[0]
        return b if k == c else bnot(b) if k == 0 else FALSE
    if p.d[m] < 0: p = -p
    return B('eq', p)
def le(a, b): return le0(topoly(a) - topoly(b))
def lt(a, b): return le0(topoly(a) - topoly(b) + 1)
def eq(a, b): return eq0(topoly(a) - topoly(b))
def batom(name, args=()): return B('at', (name, tuple(args), True))
def bnot(b):
    if b.k == 'c': return bconst(not b.a)
    if b.k == 'le': return le0(1 - b.a)
    if b.k == 'eq': return B('ne', b.a)
    if b.k == 'ne': return B('eq', b.a)
    if b.k == 'at': return B('at', (b.a[0], b.a[1], not b.a[2]))
    if b.k == 'and': return bor(*[bnot(x) for x in b.a])
    if b.k == 'or': return band(*[bnot(x) for x in b.a])
    raise ValueError(b.k)
def band(*xs):
    out = []
    for x in xs:
        if x.k == 'c':
            if not x.a: return FALSE
        elif x.k == 'and':
            out += [y for y in x.a if y not in out]
        elif x not in out: out.append(x)
    for x in out:
        if bnot(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return B('and', tuple(sorted(out, key=lambda y: y.h)))
def bor(*xs):
    out = []
    for x in xs:
        if x.k == 'c':
            if x.a: return TRUE
        elif x.k == 'or':
            out += [y for y in x.a if y not in out]
        elif x not in out: out.append(x)
    for x in out:
        if bnot(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return B('or', tuple(sorted(out, key=lambda y: y.h)))
def bxor(a, b):
    if a.k == 'c': return bnot(b) if a.a else b
    if b.k == 'c': return bnot(a) if b.a else a
    if a == b: return FALSE
    if a == bnot(b): return TRUE
    return bor(band(a, bnot(b)), band(bnot(a), b))
def bite(c, a, b):
    if a == b: return a
    return bor(band(c, a), band(bnot(c), b))
_NOAT = frozenset()
def b_atoms(b):
    s = b.at
    if s is None: s = b.at = frozenset(b_atoms_(b))
    return s
def b_atoms_(b):
    if b.k == 'c': return _NOAT
    if b.k in ('le', 'eq', 'ne'): return deep_atoms(b.a)
    if b.k == 'at':
        s = set()
        for x in b.a[1]:
            if isinstance(x, P): s |= deep_atoms(x)
        return s
    s = set()
    for x in b.a: s |= b_atoms(x)
    return s
def map_b(b, fp):
    if b.k == 'c': return b
    if b.k == 'le': return le0(fp(b.a))
    if b.k == 'eq': return eq0(fp(b.a))
    if b.k == 'ne': return bnot(eq0(fp(b.a)))
    if b.k == 'at': return B('at', (b.a[0], tuple(fp(x) if isinstance(x, P) else x for x in b.a[1]), b.a[2]))
    xs = [map_b(x, fp) for x in b.a]
    return band(*xs) if b.k == 'and' else bor(*xs)
def subst_b(b, mp):
    if not mp or mp.keys().isdisjoint(b_atoms(b)): return b
    return map_b(b, lambda p: subst_p(p, mp))
def b2i(b):
    if b.k == 'c': return ONE if b.a else ZERO
    if b.k == 'at' and not b.a[2]:
        return 1 - b2i(bnot(b))
    return P.atom(_mk('b2i', 'b2i', (b,), 0, 1))

# ----------------------------------------------------------------- simplex
class _Limit(Exception): pass

def simplex(rows, bounds, limit=400):
    """rows: list of (dict var->int, ub) meaning sum <= ub; bounds: var->(lo,hi).
    Returns None if infeasible, otherwise a rational assignment."""
    lo = {}; hi = {}
    for v, (l, h) in bounds.items():
        if l is not None and h is not None and l > h: return None
        lo[v] = l; hi[v] = h
    nonb = list(bounds)
    val = {}
    for v in nonb:
        l, h = lo[v], hi[v]
        val[v] = Fraction(l if l is not None else (h if h is not None else 0)) if not (l is not None and l <= 0 and (h is None or h >= 0)) else Fraction(0)
        if l is None and h is not None and h < 0: val[v] = Fraction(h)
    tab = {}
    for n, (r, ub) in enumerate(rows):
        s = ('s', n)
        lo[s] = None; hi[s] = ub
        tab[s] = {v: Fraction(c) for v, c in r.items()}
        val[s] = sum((Fraction(c) * val[v] for v, c in r.items()), Fraction(0))
    order = {}
    for i, v in enumerate(list(bounds) + list(tab)): order[v] = i
    it = 0
    while True:
        it += 1
        if it > limit: raise _Limit()
        bad = None
        for b in tab:
            if hi[b] is not None and val[b] > hi[b]: k = 1
            elif lo[b] is not None and val[b] < lo[b]: k = -1
            else: continue
            if bad is None or order[b] < order[bad[0]]: bad = (b, k)
        if bad is None: return val
        b, k = bad
        row = tab[b]
        cand = None
        for v, c in row.items():
            # need to move val[b] down if k==1, up if k==-1
            d = -k if c > 0 else k   # direction for v
            if d > 0: ok = hi[v] is None or val[v] < hi[v]
            else: ok = lo[v] is None or val[v] > lo[v]
            if ok and (cand is None or order[v] < order[cand]): cand = v
        if cand is None: return None
        v = cand
        target = hi[b] if k == 1 else lo[b]
        c = row[v]
        theta = (target - val[b]) / c
        val[b] = Fraction(target)
        val[v] += theta
        for b2, r2 in tab.items():
            if b2 is not b and v in r2: val[b2] += r2[v] * theta
        # pivot: b leaves, v enters
        del tab[b]
        newrow = {b: 1 / c}
        for w, cw in row.items():
            if w != v: newrow[w] = -cw / c
        for b2, r2 in tab.items():
            cv = r2.pop(v, None)
            if cv:
                for w, cw in newrow.items():
                    x = r2.get(w, 0) + cv * cw
                    if x: r2[w] = x
                    else: r2.pop(w, None)
        tab[v] = newrow

def _tighten(r, ub):
    g = 0
    for c in r.values(): g = gcd(g, abs(c))
    if g > 1:
        return {v: c // g for v, c in r.items()}, ub // g
    return r, ub

STATS = {'lp': 0, 'entail': 0}

def _load_native():
    import ctypes, os, subprocess, tempfile
    if os.environ.get('NSA_PURE'): return None
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src = os.path.join(root, 'native', 'lp.c'); so = os.path.join(root, 'build', 'lp.so')
    try:
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(so), exist_ok=True)
            fd, tmp = tempfile.mkstemp(dir=os.path.dirname(so)); os.close(fd)
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-w', src, '-o', tmp], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, so)
        lib = ctypes.CDLL(so)
    except Exception: return None
    f = lib.lp_int
    f.restype = ctypes.c_int
    B = ctypes.c_char_p
    f.argtypes = [ctypes.c_int, ctypes.c_int, B, B, B, B, B, B, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
    return f, ctypes
LP = _load_native()
_I0 = (0).to_bytes(16, 'little', signed=True)
def _b16(x): return x.to_bytes(16, 'little', signed=True)
def lp_native(rows, b0, nodes):
    f, ct = LP
    vs = list(b0); nv = len(vs); ix = {v: i for i, v in enumerate(vs)}
    try:
        mat = bytearray(16 * nv * len(rows)); o = 0
        for r, ub in rows:
            for v, c in r.items():
                i = o + 16 * ix[v]; mat[i:i + 16] = _b16(c)
            o += 16 * nv
        ubs = b''.join([_b16(ub) for r, ub in rows])
        hl = bytes([b0[v][0] is not None for v in vs]); hh = bytes([b0[v][1] is not None for v in vs])
        lo = b''.join([_b16(b0[v][0] or 0) for v in vs]); hi = b''.join([_b16(b0[v][1] or 0) for v in vs])
    except OverflowError: return False
    out = ct.create_string_buffer(16 * nv + 16)
    r = f(nv, len(rows), bytes(mat), ubs, hl, hh, lo, hi, nodes, 400, out)
    if r == 0: return None
    if r == 1:
        raw = out.raw
        return {v: int.from_bytes(raw[16 * i:16 * i + 16], 'little', signed=True) for i, v in enumerate(vs)}
    if r == 2: return 'unknown'
    return False

def int_feasible(cons, bounds, nodes=40):
    """cons: list of (dict,ub). None = infeasible; dict = integer model;
    'unknown' when the node budget is exhausted."""
    STATS['lp'] += 1
    rows = []
    b0 = dict(bounds)
    for r, ub in cons:
        if not r:
            if ub < 0: return None
            continue
        r, ub = _tighten(r, ub)
        if len(r) == 1:
            (v, c), = r.items()
            l, h = b0[v]
            if c > 0:
                x = ub // c
                h = x if h is None else min(h, x)
            else:
                x = -(ub // (-c)) if True else 0
                x = -((ub) // (-c))
                l = x if l is None else max(l, x)
            if l is not None and h is not None and l > h: return None
            b0[v] = (l, h)
        else:
            rows.append((r, ub))
    if LP is not None:
        r = lp_native(rows, b0, nodes)
        if r is not False: return r
    stack = [b0]
    unknown = False
    while stack:
        nodes -= 1
        if nodes < 0: return 'unknown'
        bd = stack.pop()
        try:
            m = simplex(rows, bd)
        except _Limit:
            return 'unknown'
        if m is None: continue
        frac = None
        for v in bd:
            if m[v].denominator != 1:
                frac = v; break
        if frac is None:
            return {v: int(m[v]) for v in bd}
        f = floor(m[frac])
        l, h = bd[frac]
        b1 = dict(bd); b1[frac] = (l, f)
        b2 = dict(bd); b2[frac] = (f + 1, h)
        stack.append(b2); stack.append(b1)
    return None

# ----------------------------------------------------------------- facts
class Forall:
    __slots__ = ('v', 'n', 'bs')
    def __init__(self, v, n, bs):
        self.v = v; self.n = n
        def flat(b): return [y for x in b.a for y in flat(x)] if b.k == 'and' else [b]
        self.bs = tuple(y for b in bs for y in flat(b))

class Facts:
    __slots__ = ('les', 'subs', 'nes', 'bools', 'alls', 'dead', '_cache', '_norm', 'log')
    def __init__(self):
        self.les = (); self.subs = {}; self.nes = (); self.bools = (); self.alls = ()
        self.dead = False
        self._cache = {}; self._norm = {}
        self.log = ()
    def copy(self):
        f = Facts.__new__(Facts)
        f.les = self.les; f.subs = self.subs; f.nes = self.nes; f.bools = self.bools
        f.alls = self.alls; f.dead = self.dead; f._cache = self._cache; f._norm = self._norm
        f.log = self.log
        return f
    def _dirty(self, norm=False):
        self._cache = {}
        if norm: self._norm = {}
    # -- normalisation
    def norm(self, p):
        if not p.d: return p
        r = self._norm.get(p)
        if r is None:
            r = self._norm_p(p)
            self._norm[p] = r
        return r
    def _norm_p(self, p):
        subs = self.subs
        for _ in range(20):
            touched = False
            for m in p.d:
                for i in m:
                    if i in subs or ATOMS[i].args: touched = True
            if not touched: return p
            r = ZERO
            for m, c in p.d.items():
                t = P.const(c)
                for i in m:
                    s = subs.get(i)
                    if s is not None: t = t * s
                    else:
                        a = ATOMS[i]
                        if a.args:
                            t = t * rebuild_atom(a, self.norm, self.normb)
                        else: t = t * P.atom(a)
                r = r + t
            if r == p: return p
            p = r
        return p
    def normb(self, b):
        b = map_b(b, self.norm)
        if b.k == 'at' and self.bools:
            ix = self._cache.get('BI')
            if ix is None or ix[0] is not self.bools:
                d = {}
                for (n, args, v) in self.bools:
                    if n != 'or': d.setdefault((n, args), v)
                ix = self._cache['BI'] = (self.bools, d)
            v = ix[1].get((b.a[0], b.a[1]))
            if v is not None: return bconst(v == b.a[2])
        return b
    # -- adding
    def add(self, b, log=True):
        """assume b; returns False if trivially contradictory"""
        if log: self.log = self.log + (b,)
        b = map_b(b, self.norm) if b.k in ('le', 'eq', 'ne') else b
        k = b.k
        if k == 'c':
            if not b.a: self.dead = True
            return b.a
        if k == 'and':
            for x in b.a:
                if not self.add(x, False): return False
            return True
        if k == 'or':
            # keep the strongest usable part: resolve decided disjuncts
            rest = []
            for x in b.a:
                v = self.eval(x)
                if v is True: return True
                if v is None: rest.append(x)
            if not rest: self.dead = True; return False
            if len(rest) == 1: return self.add(rest[0], False)
            self.bools = self.bools + (('or', tuple(rest), True),)
            self._dirty()
            return True
        if k == 'at':
            n, args, v = b.a
            args = tuple(self.norm(x) if isinstance(x, P) else x for x in args)
            for (n2, a2, v2) in self.bools:
                if n2 == n and a2 == args:
                    if v2 != v: self.dead = True
                    return v2 == v
            self.bools = self.bools + ((n, args, v),)
            self._dirty(True)
            self._recheck_ors()
            return not self.dead
        if k == 'ne':
            self.nes = self.nes + (b.a,)
            self._dirty()
            # sharpen by bounds
            p = b.a
            if self.entails(le0(p)): self.add(le0(p + 1), False)
            elif self.entails(le0(-p)): self.add(le0(1 - p), False)
            return not self.dead
        if k == 'eq':
            p = b.a
            g = 0
            for m, c in p.d.items():
                if m != (): g = gcd(g, abs(c))
            if g > 1:
                if p.c() % g: self.dead = True; return False
                p = P({m: c // g for m, c in p.d.items()})
            cand = None
            for m, c in p.d.items():
                if len(m) == 1 and abs(c) == 1:
                    a = ATOMS[m[0]]
                    if a.kind in ('b2i',): pr = 0
                    elif a.kind == 'bv': continue
                    elif a.kind in ('app', 'sum'): pr = 1
                    else: pr = 2
                    # atom must not occur elsewhere in p
                    rest = p - P({m: c})
                    if m[0] in deep_atoms(rest): continue
                    key = (pr, m[0])
                    if cand is None or key > cand[0]: cand = (key, m[0], rest * (-c))
            if cand is None:
                self.les = self.les + (p, -p)
                self._dirty()
                return True
            _, i, rhs = cand
            a = ATOMS[i]
            subs = {j: subst_p(q, {i: rhs}) for j, q in self.subs.items()}
            subs[i] = rhs
            self.subs = subs
            self._dirty(True)
            les = []
            for q in self.les:
                q = self.norm(q)
                if q.isconst():
                    if q.c() > 0: self.dead = True
                else: les.append(q)
            if a.lo is not None: les.append(a.lo - rhs)
            if a.hi is not None: les.append(rhs - a.hi)
            if a.kind == 'sum':
                t, n = a.args
                lo, hi = self.interval(t)
                if lo is not None and lo >= 0 and a.lo is None: les.append(-rhs)
                if hi is not None and hi >= 0: les.append(rhs - n * hi)
            self.les = tuple(self.norm(q) for q in les)
            for q in self.les:
                if q.isconst() and q.c() > 0: self.dead = True
            self.les = tuple(dict.fromkeys(q for q in self.les if not q.isconst()))
            nes = []
            for q in self.nes:
                q = self.norm(q)
                if q.isconst():
                    if q.c() == 0: self.dead = True
                else: nes.append(q)
            self.nes = tuple(nes)
            if a.kind == 'b2i':
                if rhs.isconst() and rhs.c() in (0, 1):
                    self.add(a.args[0] if rhs.c() == 1 else bnot(a.args[0]), False)
            bs = []
            for (n, args, v) in self.bools:
                if n == 'or': bs.append((n, args, v)); continue
                args = tuple(self.norm(x) if isinstance(x, P) else x for x in args)
                for (n2, a2, v2) in bs:
                    if n2 == n and a2 == args and v2 != v: self.dead = True
                bs.append((n, args, v))
            self.bools = tuple(bs)
            self._dirty(True)
            self._recheck_ors()
            return not self.dead
        if k == 'le':
            p = b.a
            if p in self.les: return True
            self.les = self.les + (p,)
            self._dirty()
            # equality detection
            if self.entails_lp(-p):
                return self.add(eq0(p), False)
            self._recheck_nes()
            self._recheck_ors()
            return not self.dead
        raise ValueError(k)
    def _recheck_nes(self):
        for p in self.nes:
            if p.isconst(): continue
            if self.bound_le(p) is True:
                q = le0(p + 1)
                if q.k == 'le' and q.a not in self.les:
                    self.nes = tuple(x for x in self.nes if x != p)
                    self.add(q, False)
            elif self.bound_le(-p) is True:
                q = le0(1 - p)
                if q.k == 'le' and q.a not in self.les:
                    self.nes = tuple(x for x in self.nes if x != p)
                    self.add(q, False)
    def _recheck_ors(self):
        ors = [x for x in self.bools if x[0] == 'or']
        if not ors: return
        for o in ors:
            rest = []
            sat = False
            for x in o[1]:
                v = self.eval(x)
                if v is True: sat = True; break
                if v is None: rest.append(x)
            if sat or len(rest) < len(o[1]):
                self.bools = tuple(x for x in self.bools if x is not o)
                if sat: continue
                if not rest: self.dead = True; return
                if len(rest) == 1: self.add(rest[0], False)
                else: self.bools = self.bools + (('or', tuple(rest), True),)
    # -- deciding
    def interval(self, p):
        lo = hi = p.c()
        for m, c in p.d.items():
            if m == (): continue
            l, h = self.mono_bounds(m)
            if c > 0:
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            else:
                lo = None if lo is None or h is None else lo + c * h
                hi = None if hi is None or l is None else hi + c * l
        return lo, hi
    def mono_bounds(self, m):
        if len(m) == 1:
            a = ATOMS[m[0]]
            if a.kind == 'sum':
                l, h = self.interval(a.args[0])
                if l is not None and l >= 0: return (0, None)
                return (None, None)
            return (a.lo, a.hi)
        l = 1; h = 1
        for i in m:
            al, ah = self.mono_bounds((i,))
            if al is None or al < 0: return (None, None)
            l = l * al
            h = None if h is None or ah is None else h * ah
        return (l, h)
    def bound_le(self, p):
        p = self.norm(p)
        if p.isconst(): return p.c() <= 0
        lo, hi = self.interval(p)
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
        ix = self._cache.get('NC')
        if ix is None:
            ix = {}
            for q in self.les:
                k = q.nc(); c = q.c()
                if k not in ix or ix[k] < c: ix[k] = c
            self._cache['NC'] = ix
        c = ix.get(p.nc())
        if c is not None and p.c() <= c: return True
        return None
    def relevant(self, p, extra=(), sums=False):
        monos = set(m for m in p.d if m != ())
        cons = []
        todo = list(dict.fromkeys(self.les + tuple(extra)))
        # axioms for div/mod style definitional atoms are stored as facts
        changed = True
        rest = todo
        while changed:
            changed = False
            nxt = []
            for q in rest:
                if any(m in monos for m in q.d if m != ()):
                    cons.append(q)
                    for m in q.d:
                        if m != () and m not in monos:
                            monos.add(m); changed = True
                else: nxt.append(q)
            rest = nxt
            if sums and not changed:
                # running totals of the same terms are related to each other
                ts = set(ATOMS[i].args[0] for m in monos for i in m if ATOMS[i].kind == 'sum')
                if ts:
                    for q in rest:
                        for m in q.d:
                            if m not in monos and len(m) == 1 and ATOMS[m[0]].kind == 'sum' and ATOMS[m[0]].args[0] in ts:
                                monos.add(m); changed = True
                    # and to the terms themselves
                    ns = set(ATOMS[m[0]].name for t in ts if len(t.d) == 1 for m in t.d if len(m) == 1 and ATOMS[m[0]].kind == 'app')
                    if ns:
                        for q in rest:
                            for m in q.d:
                                if m not in monos and len(m) == 1 and ATOMS[m[0]].kind == 'app' and ATOMS[m[0]].name in ns:
                                    monos.add(m); changed = True
        return monos, cons
    def axioms(self, monos, cons, depth):
        """extra constraints: sums, products, quantified facts"""
        out = []
        if depth == 0: return out
        atoms = set()
        for m in monos: atoms.update(m)
        # totals that are known to equal something else still bound their terms
        for j in self.subs:
            if ATOMS[j].kind == 'sum': atoms.add(j)
        for i in list(atoms):
            a = ATOMS[i]
            if a.kind == 'sum':
                # sum(t, k) with k >= 1 and t >= 0 dominates its last term
                t, n = a.args
                lo, hi = self.interval(t)
                if lo is not None and lo >= 0:
                    last = subst_p(t, {SUMBV.id: n - 1})
                    if any(m in monos for m in last.d) and self.entails_lp(1 - n):
                        for j in (2, 3):
                            prev = subst_p(t, {SUMBV.id: n - j})
                            if not any(m in monos for m in prev.d) or not self.entails_lp(j - n): break
                            last = last + prev
                        out.append(last - P.atom(a))
                    for j in list(atoms):
                        a2 = ATOMS[j]
                        if a2.kind == 'sum' and j != i and a2.args[0] == t:
                            d = self.norm(a2.args[1] - n)
                            if self.bound_le(-d) is True or (depth > 1 and self.entails_lp(-d)):
                                out.append(P.atom(a) - P.atom(a2))
                                if depth > 1 and self.entails_lp(1 - d):
                                    out.append(P.atom(a) + subst_p(t, {SUMBV.id: n}) - P.atom(a2))
                    if depth > 1 and len(t.d) == 1:
                        # every single term at an index below n
                        (tm, tc), = t.d.items()
                        if len(tm) == 1 and ATOMS[tm[0]].kind == 'app':
                            pat = ATOMS[tm[0]]
                            for j in list(atoms):
                                x = ATOMS[j]
                                if x.kind != 'app' or x.name != pat.name or len(x.args) != len(pat.args): continue
                                k = _match_index(pat.args, x.args, SUMBV.id)
                                if k is not None and self.entails_lp(-k) and self.entails_lp(k - n + 1):
                                    out.append(tc * P.atom(x) - P.atom(a))
                if hi is not None: out.append(P.atom(a) - n * hi)
        # quantified facts
        if self.alls:
            want = set()
            for i in atoms:
                for j in deep_atoms_atom(i):
                    if ATOMS[j].kind == 'app': want.add(j)
            for fa in self.alls:
                insts = []
                for b in fa.bs:
                    for j in b_atoms(b):
                        pat = ATOMS[j]
                        if pat.kind != 'app' or fa.v.id not in deep_atoms_atom(j): continue
                        for w in want:
                            x = ATOMS[w]
                            if x.name != pat.name or len(x.args) != len(pat.args): continue
                            inst = _match_index(pat.args, x.args, fa.v.id)
                            if inst is not None and inst not in insts: insts.append(inst)
                for inst in insts:
                    if self.entails_lp(-inst) and self.entails_lp(inst - fa.n + 1):
                        for b in fa.bs:
                            c = subst_b(b, {fa.v.id: inst})
                            c = map_b(c, self.norm)
                            if c.k == 'le': out.append(c.a)
                            elif c.k == 'eq': out += [c.a, -c.a]
        # products
        prods = [m for m in monos if len(m) == 2]
        if prods:
            factors = set()
            for m in prods: factors.update(m)
            lin = [q for q in cons if all(len(m) <= 1 for m in q.d)]
            for f in factors:
                fp = P.atom(ATOMS[f])
                fl = ATOMS[f].lo
                if fl is None or fl < 0: continue
                for q in lin:
                    # only when the product lands on existing monomials
                    pr = q * fp
                    if all(m == () or m in monos or len(m) == 1 for m in pr.d) and any(len(m) == 2 for m in pr.d):
                        out.append(pr)
                if depth > 0:
                    for m in prods:
                        if f in m:
                            o = m[0] if m[1] == f else m[1]
                            op = P.atom(ATOMS[o])
                            if self.bound_le(1 - fp) is True or depth > 1 and self.entails_lp(1 - fp):
                                if ATOMS[o].lo is not None and ATOMS[o].lo >= 0:
                                    out.append(op - P({m: 1}))
        return out
    def _system(self, cons):
        rows = []; bounds = {}
        for q in cons:
            r = {}
            ub = 0
            for m, c in q.d.items():
                if m == (): ub = -c
                else:
                    r[m] = c
                    if m not in bounds: bounds[m] = self.mono_bounds(m)
            rows.append((r, ub))
        return rows, bounds
    def entails_lp(self, p):
        """facts |= p <= 0"""
        b = self.bound_le(p)
        if b is not None: return b
        p = self.norm(p)
        c = self._cache.get(('le', p))
        if c is not None: return c
        monos, cons = self.relevant(p)
        rows, bounds = self._system(cons + [1 - p])
        r = int_feasible(rows, bounds)
        res = r is None
        self._cache[('le', p)] = res
        return res
    def entails_le(self, p):
        STATS['entail'] += 1
        if self.entails_lp(p): return True
        p = self.norm(p)
        if p.isconst(): return p.c() <= 0
        c = self._cache.get(('LE', p))
        if c is not None: return c
        self._cache[('LE', p)] = False
        res = False
        extra = []
        for depth in (1, 2):
            monos, cons = self.relevant(p, extra, depth > 1)
            # the negated goal may be multiplied with the facts
            ax = [self.norm(q) for q in self.axioms(monos, cons + [1 - p], depth)]
            ax = [q for q in ax if not q.isconst() and q not in extra]
            if not ax and depth == 1 and not any(len(m) > 1 or any(ATOMS[j].kind == 'sum' for j in m) for m in monos) and not self.alls: break
            extra += ax
            monos, cons = self.relevant(p, extra, depth > 1)
            rows, bounds = self._system(cons + [1 - p])
            if int_feasible(rows, bounds) is None: res = True; break
        self._cache[('LE', p)] = res
        return res
    def entails(self, b):
        return self.eval(b) is True
    def eval(self, b):
        k = b.k
        if k == 'c': return b.a
        if k == 'le':
            if self.entails_le(b.a): return True
            if self.entails_le(1 - b.a): return False
            return None
        if k in ('eq', 'ne'):
            p = self.norm(b.a)
            if p.isconst(): return (p.c() == 0) == (k == 'eq')
            p2 = canonp(p)
            if p2 is not p:
                p = self.norm(p2)
                if p.isconst(): return (p.c() == 0) == (k == 'eq')
            g = 0
            for m, c in p.d.items():
                if m != (): g = gcd(g, abs(c))
            if g > 1 and p.c() % g: return k == 'ne'
            if any(p == q or p == -q for q in self.nes): return k == 'ne'
            up = self.entails_le(p); dn = self.entails_le(-p)
            if up and dn: return k == 'eq'
            if up:
                if self.entails_le(p + 1): return k == 'ne'
            elif dn:
                if self.entails_le(1 - p): return k == 'ne'
            else:
                if self.entails_le(p + 1) or self.entails_le(1 - p): return k == 'ne'
            return None
        if k == 'at':
            n, args, v = b.a
            args = tuple(self.norm(x) if isinstance(x, P) else x for x in args)
            for (n2, a2, v2) in self.bools:
                if n2 == n and a2 == args: return v2 == v
            for (n2, a2, v2) in self.bools:
                if n2 == n and len(a2) == len(args) and self._args_eq(args, a2): return v2 == v
            for fa in self.alls:
                for t in fa.bs:
                    if t.k == 'at' and t.a[0] == n and len(t.a[1]) == len(args):
                        inst = _match_index(t.a[1], args, fa.v.id)
                        if inst is not None and self.entails_le(-inst) and self.entails_le(inst - fa.n + 1):
                            return t.a[2] == v
            return None
        if k == 'and':
            res = True
            for x in b.a:
                v = self.eval(x)
                if v is False: return False
                if v is None: res = None
            return res
        if k == 'or':
            res = False
            for x in b.a:
                v = self.eval(x)
                if v is True: return True
                if v is None: res = None
            return res
    def _args_eq(self, a, b):
        for x, y in zip(a, b):
            if isinstance(x, P) and isinstance(y, P):
                d = self.norm(x - y)
                if d.isconst():
                    if d.c() != 0: return False
                elif not (self.entails_lp(d) and self.entails_lp(-d)): return False
            elif x != y: return False
        return True
    def eqp(self, a, b):
        d = self.norm(a - b)
        if d.isconst(): return d.c() == 0
        d2 = self.norm(canonp(d))
        if d2.isconst(): return d2.c() == 0
        return self.entails_le(d) and self.entails_le(-d)
    def prove(self, b, depth=12):
        """case-splitting proof of a formula"""
        v = self.eval(b)
        if v is not None: return v
        if depth == 0: return False
        if b.k == 'and':
            # equalities already established help with the rest
            done = [x for x in b.a if x.k == 'eq' and self.eval(x) is True]
            if done:
                f = self.copy()
                if not all(f.add(x) for x in done) or f.dead: return True
                return f.prove(band(*[x for x in b.a if x not in done]), depth - 1)
        lit = _pick(b, self)
        if lit is None: return False
        f = self.copy(); 
        if f.add(lit, False) and not f.dead and not f.prove(b, depth - 1): return False
        f = self.copy()
        if f.add(bnot(lit), False) and not f.dead and not f.prove(b, depth - 1): return False
        return True
    def implied(self):
        """instances of the axioms about sums and quantified facts"""
        if self.dead: return []
        cons = list(self.les); out = []
        for depth in (1, 2):
            monos = set(m for q in cons for m in q.d if m != ())
            ax = [self.norm(q) for q in self.axioms(monos, cons, depth)]
            ax = [q for q in ax if not q.isconst() and q not in cons]
            cons += ax; out += ax
        return out
    def clash(self):
        """a known boolean contradicts a quantified fact"""
        for n, args, v in self.bools:
            for fa in self.alls:
                for t in fa.bs:
                    if t.k == 'at' and t.a[0] == n and t.a[2] != v and len(t.a[1]) == len(args):
                        inst = _match_index(t.a[1], args, fa.v.id)
                        if inst is not None and self.entails_le(-inst) and self.entails_le(inst - fa.n + 1): return True
        return False
    def infeasible(self):
        if self.dead: return True
        if self.alls and self.bools:
            c = self._cache.get('CLASH')
            if c is None: c = self._cache['CLASH'] = self.clash()
            if c: return True
        rows, bounds = self._system(list(self.les))
        if int_feasible(rows, bounds) is None: return True
        cons = list(self.les)
        monos = set(m for q in cons for m in q.d if m != ())
        if not self.alls and not any(len(m) > 1 or any(ATOMS[j].kind == 'sum' for j in m) for m in monos) and not any(ATOMS[j].kind == 'sum' for j in self.subs): return False
        c = self._cache.get('INF')
        if c is not None: return c
        res = False
        for depth in (1, 2):
            ax = [self.norm(q) for q in self.axioms(monos, cons, depth)]
            ax = [q for q in ax if not q.isconst() and q not in cons]
            cons += ax
            monos = set(m for q in cons for m in q.d if m != ())
            rows, bounds = self._system(cons)
            if int_feasible(rows, bounds) is None: res = True; break
        self._cache['INF'] = res
        return res
    def infeasible_products(self):
        """infeasible in both cases zero / positive of some factor of a product"""
        fs = set(i for q in self.les for m in q.d if len(m) > 1 for i in m if ATOMS[i].lo is not None and ATOMS[i].lo >= 0)
        for i in sorted(fs)[:6]:
            x = P.atom(ATOMS[i])
            lin = [q for q in self.les if all(len(m) <= 1 for m in q.d) and len(q.d) <= 4 and any(m for m in q.d)]
            if len(lin) <= 40:
                g = self.copy()
                for q in lin:
                    if not g.add(le0(q * x), False) or g.dead: return True
                if g.infeasible(): return True
            if self.entails_lp(1 - x): continue
            for c in (eq0(x), le0(1 - x)):
                g = self.copy()
                if g.add(c, False) and not g.dead and not g.infeasible(): break
            else: return True
        return False
    def model(self, extra=()):
        """an integer assignment satisfying the linear facts, or None; monomials
        and sums are checked, so None means 'no witness found'."""
        f = self.copy()
        for b in extra: f.add(b, False)
        if f.dead: return None
        # concretise factors of products first
        for _ in range(12):
            ms = [m for q in f.les for m in q.d if len(m) > 1]
            if not ms: break
            cand = sorted(set(i for m in ms for i in m), key=lambda i: i)
            done = False
            for i in cand:
                for val in (2, 1, 3, 0, 4, 5):
                    g = f.copy()
                    if g.add(eq0(P.atom(ATOMS[i]) - val), False) and not g.dead and not g.infeasible():
                        f = g; done = True; break
                if done: break
            if not done: return None
        cons = list(f.les)
        # prefer small models
        for cap in (40, 5000, None):
            rows, bounds = f._system(cons)
            if cap is not None:
                bounds = {m: (l, cap if h is None else min(h, cap)) for m, (l, h) in bounds.items()}
            try:
                r = int_feasible(rows, bounds, nodes=200)
            except Exception:
                r = None
            if isinstance(r, dict): break
        if not isinstance(r, dict): return None
        out = {}
        for m, v in r.items():
            if len(m) == 1: out[m[0]] = v
        return f, out

def _pick(b, facts):
    if b.k in ('le', 'eq', 'ne', 'at'):
        return b if facts.eval(b) is None else None
    if b.k in ('and', 'or'):
        for x in b.a:
            r = _pick(x, facts)
            if r is not None: return r
    return None

def _match_index(pat, args, vid):
    inst = None
    for p, x in zip(pat, args):
        if not isinstance(p, P) or not isinstance(x, P):
            if p != x: return None
            continue
        c = p.d.get((vid,), 0)
        if c == 0:
            if vid in deep_atoms(p): return None
            if p != x and not (p - x).isconst(): 
                return None
            if p != x: return None
            continue
        rest = p - P({(vid,): c})
        if vid in deep_atoms(rest): return None
        d = x - rest
        if c == 1: i = d
        elif c == -1: i = -d
        else:
            if any(v % c for v in d.d.values()): return None
            i = P({m: v // c for m, v in d.d.items()})
        if inst is None: inst = i
        elif inst != i: return None
    return inst
