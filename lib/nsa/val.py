"""Abstract values: uniform trees whose leaves are integer polynomials (P) and
boolean formulas (B).

  V(tag, meta, kids)

tags: int(bits,signed)[P] bool[B] byte[8*B] adt(path,variant,names)[...] tup[...]
      clo(ty)[...] fn(key) ref(root,steps)[P...] slref(root,steps)[P...,start,len]
      seq[seg...] seg[len,template] flat[count,len(#s),template(#s,#e)]
      buf(kind,elem)[seq] term(name)[P|V...] ite[B,V,V] it:<kind>... uninit top
"""
from .dom import *
from . import dom

EBV = dom._mk('bv', '#e', (), 0, None)
E = P.atom(EBV)
# a sequence inside an element of another sequence binds the next variable
E1V, E2V, E3V = (dom._mk('bv', '#e%d' % i, (), 0, None) for i in (1, 2, 3))
RAISE = {EBV.id: P.atom(E1V), E1V.id: P.atom(E2V), E2V.id: P.atom(E3V)}
LOWER = {E1V.id: P.atom(EBV), E2V.id: P.atom(E1V), E3V.id: P.atom(E2V)}
S = P.atom(SUMBV)


class V:
    __slots__ = ('t', 'm', 'k', 'h', 'at', 'ln')
    def __init__(self, t, m=(), k=()):
        self.t = t; self.m = m; self.k = k
        self.at = None; self.ln = None
        self.h = hash((t, m, k))
    def __hash__(self): return self.h
    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.h == o.h and self.t == o.t and self.m == o.m and self.k == o.k)
    def __ne__(self, o): return not self == o
    def __repr__(self): return vstr(self)
    def field(self, i): return self.k[i]
    def with_kid(self, i, x):
        return V(self.t, self.m, self.k[:i] + (x,) + self.k[i + 1:])


def vstr(v):
    if isinstance(v, P): return pstr(v)
    if isinstance(v, B): return bstr(v)
    if not isinstance(v, V): return repr(v)
    t = v.t
    if t == 'int': return '%s%s' % (pstr(v.k[0]), 'ui'[v.m[1]] + str(v.m[0]))
    if t == 'bool': return bstr(v.k[0])
    if t == 'byte':
        if all(b.k == 'c' for b in v.k): return 'byte:%02x' % sum(1 << i for i, b in enumerate(v.k) if b.a)
        return 'byte[%s]' % ','.join(bstr(b) for b in v.k)
    if t == 'adt': return '%s::%s(%s)' % (v.m[0].split('::')[-1], v.m[1], ', '.join(map(vstr, v.k)))
    if t == 'seg': return '%s x %s' % (vstr(v.k[0]), vstr(v.k[1]))
    return '%s%s(%s)' % (t, list(v.m) if v.m else '', ', '.join(map(vstr, v.k)))


USZ = (64, False)
def Int(p, bits=64, signed=False):
    return V('int', (bits, signed), (topoly(p),))
def Bool(b): return V('bool', (), (b,))
def Byte(bits): return V('byte', (), tuple(bits))
def byte_const(n): return V('byte', (), tuple(bconst((n >> i) & 1) for i in range(8)))
UNIT = V('tup', (), ())
UNINIT = V('uninit')
TOP = V('top')
def Tup(*xs): return V('tup', (), tuple(xs))
def Term(name, *xs): return V('term', name, tuple(xs))
OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
def Adt(path, variant, *xs): return V('adt', (path, variant), tuple(xs))
NONE = Adt(OPT, 0)
def Some(x): return Adt(OPT, 1, x)
def Ok(x): return Adt(RES, 0, x)
def Err(x): return Adt(RES, 1, x)
def Ite(c, a, b):
    if c.k == 'c': return a if c.a else b
    if a == b: return a
    return V('ite', (), (c, a, b))
def Seq(*segs): return V('seq', (), tuple(segs))
EMPTY = Seq()
def Seg(n, t): return V('seg', (), (topoly(n), t))
def Flat(cnt, ln, t): return V('flat', (), (topoly(cnt), ln, t))


def vmap(v, fp, fb):
    if isinstance(v, P): return fp(v)
    if isinstance(v, B): return fb(v)
    if not isinstance(v, V): return v
    if not v.k: return v
    ks = tuple(vmap(x, fp, fb) for x in v.k)
    for a, b in zip(ks, v.k):
        if a is not b:
            if v.t == 'ite': return Ite(*ks)
            return V(v.t, v.m, ks)
    return v

def atomsof(v):
    """all atoms of a value (cached)"""
    if isinstance(v, V):
        s = v.at
        if s is None:
            s = set()
            for x in v.k: s |= atomsof(x)
            s = v.at = frozenset(s)
        return s
    if isinstance(v, P): return deep_atoms(v)
    if isinstance(v, B): return b_atoms(v)
    return dom._NOAT

def vsubst(v, mp):
    if not mp or mp.keys().isdisjoint(atomsof(v)): return v
    if isinstance(v, P): return subst_p(v, mp)
    if isinstance(v, B): return subst_b(v, mp)
    ks = tuple(vsubst(x, mp) for x in v.k)
    if v.t == 'ite': return Ite(*ks)
    return V(v.t, v.m, ks)

def vnorm(v, facts):
    return vmap(v, facts.norm, facts.normb)

def vatoms(v, out=None):
    if out is None: return atomsof(v)
    out |= atomsof(v)
    return out

def vwalk(v):
    yield v
    if isinstance(v, V):
        for x in v.k:
            if isinstance(x, V): yield from vwalk(x)

# ------------------------------------------------------------- sequences
def seg_len(s):
    if s.t == 'seg': return s.k[0]
    return psum(s.k[1], s.k[0])

def seq_len(q):
    r = q.ln
    if r is None:
        r = ZERO
        for s in q.k: r = r + seg_len(s)
        q.ln = r
    return r

def inst(t, i):
    """element i of a segment template"""
    i = topoly(i)
    if E1V.id in atomsof(t):
        assert EBV.id not in deep_atoms(i)
        return vsubst(t, {**LOWER, EBV.id: i})
    return vsubst(t, {EBV.id: i})

def raised(v):
    """an element, as a template of a segment"""
    return vsubst(v, RAISE)

def One(x): return Seg(1, raised(x))

def shift(t, n):
    return vsubst(t, {EBV.id: E + n})

def mkseq(segs, facts=None):
    out = []
    for s in segs:
        if s.t == 'seg':
            n = s.k[0]
            if n.isconst() and n.c() == 0: continue
            if out and out[-1].t == 'seg':
                p = out[-1]
                if shift(p.k[1], p.k[0]) == s.k[1] if not (n.isconst() and n.c() == 1) else inst(p.k[1], p.k[0]) == inst(s.k[1], 0):
                    if not (p.k[0].isconst() and p.k[0].c() == 1 and EBV.id not in vatoms(p.k[1]) and EBV.id in vatoms(s.k[1])):
                        out[-1] = Seg(p.k[0] + n, p.k[1])
                        continue
        else:
            n = s.k[0]
            if n.isconst() and n.c() == 0: continue
        out.append(s)
    return V('seq', (), tuple(out))

def joinseq(a, b):
    """the segments of a, already in normal form, followed by those of b"""
    if not b: return a if isinstance(a, V) else V('seq', (), tuple(a.k if isinstance(a, V) else a))
    r = mkseq(list(a.k[-1:]) + list(b))
    n = V('seq', (), a.k[:-1] + r.k)
    return n
