"""Obligation harness: builds symbolic inputs that satisfy the representation
invariants, runs the abstract interpreter on a function of the analysed crate
and judges the resulting abstract states."""
import itertools
import sys, time, traceback
from .dom import *
from . import dom
from .val import *
from .mir import Prog
from .interp import *
from .interp import Interp, Unwind, Undecided, DeadPath, St, Out, v_eq, seq_eq, p_eq, b_eq
from .models import *
from .models import Models, MEMMAX, buf, it, sub

BITMAP = 'narrow::bitmap::Bitmap'
VALIDITY = 'narrow::validity::Validity'
OFFSETS = 'narrow::offset::Offsets'
OVIEW = 'narrow::offset::OffsetView'
OINTO = 'narrow::offset::OffsetIntoIter'
FLATTEN = 'narrow::collection::flatten::Flatten'
CHUNKS = 'narrow::collection::flatten::ArrayChunks'
FVIEW = 'narrow::collection::flatten::FlattenView'
PACKED = 'narrow::bitmap::packed::BitPacked'
UNPACKED = 'narrow::bitmap::unpacked::BitUnpacked'
VITER = 'narrow::validity::ValidityIter'
TCOL = 'narrow::collection::Collection'
TAI = 'narrow::collection::CollectionAllocIn'
TRE = 'narrow::collection::CollectionRealloc'
TLEN = 'narrow::length::Length'
TVB = 'narrow::bitmap::validity::ValidityBitmap'
DEFAULT = 'core::default::Default'

class Missing(Exception): pass

class Finding(Exception):
    pass

class Found(Exception):
    """a violation: nothing more to look for"""
class H:
    def __init__(self, prog, **opts):
        self.prog = prog
        self.opts = opts
        self.M = (opts.get('models') or Models)(prog, opts)
        self.M.h = self
        self.I = Interp(prog, self.M, opts)
        self.bad = []      # (kind, key, message)
        self.checks = 0; self.paths = 0; self.runs = 0
        self.anchors = []
        self.what = ''
        self.wits = []; self.lastw = None; self.smalls = []
        self.M.hooks.append(self.on_alloc)
    def on_alloc(self, I, *ev):
        """allocations made ahead of the items: never sized by an upper bound, and
        by no more than the lower bound"""
        if ev[0] == 'abort' and 'noabort' in self.opts:
            # a fallible operation obtains memory only in ways that report an error
            what, loc, n, have = ev[1:]
            self.check(I.st, bor(le(n, ZERO), le(n, have)), '%s aborts when memory is short: no fallible request covers it' % what)
            return
        if ev[0] != 'alloc' or not isinstance(ev[3], P): return
        amount = I.st.f.norm(ev[3])
        los = set()
        for i in deep_atoms(amount):
            a = dom.ATOMS[i]
            if a.kind == 'var' and a.name.endswith('.hi'):
                self.checks += 1
                self.fail(I.st, 'an allocation (%s) is sized by the upper size bound' % ev[1])
                return
            if a.kind == 'var' and a.name.endswith('.lo'): los.add(i)
        if los:
            w = P.const(64)
            for i in los: w = w + P.atom(dom.ATOMS[i]) * self.hint_width
            self.check(I.st, le(amount, w), 'an allocation (%s) ahead of the items is bounded by the lower size bound' % ev[1])
    hint_width = ONE
    # ---------------------------------------------------------- anchors
    def method(self, trait, name, adt, byref=False):
        fe, im = self.prog.find_impl_fn(trait, name, adt, byref)
        if fe is None or fe['body'] is None:
            if im is None: raise Missing('%s for %s' % (trait, adt))
            # provided by the trait
            b = self.M.provided(trait, name)
            if b is None: raise Missing('%s::%s for %s' % (trait, name, adt))
            self.what = '<%s as %s>::%s' % (adt, trait.split('::')[-1], name)
            return b
        self.what = fe['q']
        return fe['body']
    def inherent(self, adt, name):
        fe = self.prog.inherent(adt, name)
        if fe is None or fe['body'] is None: raise Missing('%s::%s' % (adt, name))
        self.what = fe['q']
        return fe['body']
    # ---------------------------------------------------------- field layout
    def fields(self, adt):
        a = self.prog.adts.get(adt)
        if a is not None: return self.prog.types[a['ty']]['variants'][0]['f']
        # a type of another crate
        d = self.prog.__dict__.setdefault('_foreign', {})
        if adt not in d:
            d[adt] = next((t['variants'][0]['f'] for t in self.prog.types if t['k'] == 'adt' and t.get('path') == adt and t.get('variants')), None)
        if d[adt] is None: raise Missing('type %s' % adt)
        return d[adt]
    def fidx(self, adt, name, pos=None):
        fs = self.fields(adt)
        for i, f in enumerate(fs):
            if f[0] == name: return i
        if pos is not None and pos < len(fs): return pos
        raise Missing('field %s of %s' % (name, adt))
    def struct(self, adt, vals, default=None):
        """vals: {name: V} or list in order"""
        fs = self.fields(adt)
        out = [None] * len(fs)
        left = dict(vals)
        for i, f in enumerate(fs):
            if f[0] in left: out[i] = left.pop(f[0])
        # renamed fields: by position among the unnamed rest
        rest = [i for i, x in enumerate(out) if x is None and not self.is_phantom(fs[i])]
        for i, (n, v) in zip(rest, list(left.items())): out[i] = v; left.pop(n)
        if left: raise Missing('fields of %s: %s' % (adt, sorted(left)))
        for i, x in enumerate(out):
            if x is None:
                if self.is_phantom(fs[i]): out[i] = Adt('core::marker::PhantomData', 0)
                elif default is not None: out[i] = default(fs[i])
                else: raise Missing('unknown field %s of %s' % (fs[i][0], adt))
        return Adt(adt, 0, *out)
    def is_phantom(self, f):
        ty = self.prog.types[f[1]]
        return ty['k'] == 'adt' and (ty.get('phantom') or ty['path'].endswith('PhantomData'))
    def get(self, v, name, pos=None):
        adt = v.m[0]
        fs = self.fields(adt)
        for i, f in enumerate(fs):
            if f[0] == name: return v.k[i]
        ph = [i for i, f in enumerate(fs) if not self.is_phantom(f)]
        if pos is not None and pos < len(ph): return v.k[ph[pos]]
        raise Missing('field %s of %s' % (name, adt))
    # ---------------------------------------------------------- values
    def usize(self, n, hi=USIZE):
        v = var(n, 0, hi)
        if self.opts.get('small'): self.smalls.append(v)
        return v
    def shrink(self, st):
        """restrict the inputs to small sizes (an attempt at refutation only)"""
        k = self.opts.get('small')
        if not k: return
        for v in self.smalls + [var('const N', 0, USIZE)]:
            if st.f.bound_le(v - k) is not True:
                f = st.f.copy()
                if f.add(le(v, P.const(k))) and not f.infeasible(): st.f.add(le(v, P.const(k)))
    def bytes_(self, pfx, n, alloc='A', kind='opq'):
        return buf((kind, alloc), Seq(Seg(n, Byte([batom(pfx, (E * 8 + j,)) for j in range(8)]))))
    def items(self, pfx, n, alloc='A', kind='opq'):
        return buf((kind, alloc), Seq(Seg(n, Term(pfx, E))))
    def bitmap(self, st, pfx='bm', inv=True, off=None, alloc='A', exact=None):
        nb = self.usize(pfx + '.bytes', MEMMAX); bits = self.usize(pfx + '.bits'); o = self.usize(pfx + '.off') if off is None else topoly(off)
        if inv:
            st.f.add(le(o + bits, nb * 8))
        v = self.struct(BITMAP, {'buffer': self.bytes_(pfx, nb, alloc), 'bits': Int(bits), 'offset': Int(o)})
        return v
    def bm(self, v): 
        return self.get(v, 'buffer', 0), self.get(v, 'bits', 1).k[0], self.get(v, 'offset', 2).k[0]
    def validity(self, st, some, pfx='v', extra=True, alloc='A'):
        n = self.usize(pfx + '.len')
        col = self.items(pfx, n, alloc)
        if some:
            b = self.bitmap(st, pfx + 'b', alloc=alloc)
            bits = self.bm(b)[1]
            st.f.add(le(bits, n) if extra else eq(bits, n))
            return self.struct(VALIDITY, {'collection': col, 'bitmap': Adt(OPT, 1, b)})
        return self.struct(VALIDITY, {'collection': col, 'bitmap': NONE})
    def cvalidity(self, st, some, pfx='v', alloc='A', exact=False):
        """nullable collection whose bitmap is the sequence of its bits"""
        n = self.usize(pfx + '.len')
        col = self.items(pfx, n, alloc)
        if not some: return self.struct(VALIDITY, {'collection': col, 'bitmap': NONE})
        k = self.usize(pfx + '.k', MEMMAX * 8)
        st.f.add(eq(k, n) if exact else le(k, n))
        b = buf(('opq', alloc), Seq(Seg(k, Bool(batom(pfx + 'b', (E,))))))
        return self.struct(VALIDITY, {'collection': col, 'bitmap': Adt(OPT, 1, b)})
    def offint(self, p):
        return V('int', self.M.opaque_int(), (p,))
    def offsets(self, st, pfx='o', alloc='A', data=None):
        """n lists of lengths l(i); offsets are the running totals"""
        n = self.usize(pfx + '.n', MEMMAX); extra = self.usize(pfx + '.x')
        ln = app(pfx + '.l', (S,), 0, None)
        tot = psum(ln, n)
        hi = (1 << (self.M.opaque_int()[0] - 1)) - 1
        st.f.add(le(tot, P.const(hi)))
        st.f.add(le(tot + extra, P.const(USIZE)))
        d = data or self.items(pfx + '.d', tot + extra, alloc)
        o = buf(('opq', alloc), Seq(Seg(1, self.offint(ZERO)), Seg(n, self.offint(psum(ln, E + 1)))))
        return self.struct(OFFSETS, {'data': d, 'offsets': o})
    def flatten(self, st, pfx='f', alloc='A'):
        n = self.usize(pfx + '.len')
        return self.struct(FLATTEN, {'0': self.items(pfx, n, alloc)})
    def opq_iter(self, st, name, tmpl, n=None, fused=False, panics=False, hint='any'):
        """a caller-supplied iterator: item i is tmpl(i), n items before the first None"""
        n = self.usize(name + '.n', None) if n is None else n
        if self.opts.get('unroll') and not self.opts.get('small'):
            # a count that the pinned input leaves open may be anything: keep it finite
            x = st.f.norm(n)
            if not x.isconst() and st.f.bound_le(x - 4096) is not True:
                for c in (0, 1, 2, 9):
                    f = st.f.copy()
                    if f.add(eq(x, P.const(c))) and not f.infeasible(): st.f.add(eq(x, P.const(c))); break
        return V('it:opq', (name, fused, panics, hint), (tmpl, ZERO, n, FALSE)), n
    # ---------------------------------------------------------- running
    def st(self):
        s = St()
        for b in self.opts.get('pin', ()): s.f.add(b)
        return s
    def put(self, st, key, v):
        st.store[key] = v
        return V('ref', (key, ()), ())
    def run(self, st, bid, args):
        """outcomes of the function from this state"""
        self.runs += 1
        self.shrink(st)
        outs = self.I.explore(st, lambda: self.I.call_body(bid, args))
        outs = self.I.merge_outs(outs)
        self.paths += len(outs)
        return outs
    def runfn(self, st, fn):
        self.runs += 1
        self.shrink(st)
        outs = self.I.merge_outs(self.I.explore(st, fn))
        self.paths += len(outs)
        return outs
    # ---------------------------------------------------------- judging
    def note(self, kind, msg):
        if kind == 'violated' and self.lastw is not None: self.wits.append((msg, self.lastw))
        self.lastw = None
        self.bad.append((kind, self.what, msg))
        if kind == 'violated' and self.opts.get('first'): raise Found()
        if kind == 'violated' and self.hurry: self.hurry(); self.hurry = None
    hurry = None        # called at the first violation
    def fail(self, st, msg):
        """reaching st at all is a violation"""
        self.checks += 1
        if st.f.infeasible(): return
        w = self.witness(st.f, ())
        if w is not None and not any('?' in k for k in w):
            self.note('violated', '%s [for %s]' % (msg, ', '.join('%s=%s' % x for x in sorted(w.items()) if '#' not in x[0])[:400] or 'any input'))
        else: self.note('undecided', msg)
    def witness(self, f, extra):
        """an integer assignment of f consistent with the congruence of the
        uninterpreted atoms and with the quantified facts; None if not found"""
        g = f.copy()
        self.lastw = None
        for b in extra:
            g.add(b, False)
        # running totals and quantified facts, as far as they are instantiated
        for q in g.implied():
            if g.dead: return None
            if g.bound_le(q) is not True: g.add(le0(q), False)
        budget = [40]
        def search(g, depth):
            if depth > 14 or budget[0] <= 0 or g.dead: return None
            budget[0] -= 1
            m = g.model()
            if m is None: return None
            g2, vals = m
            fix = self.conflict(g2, vals)
            if fix is None:
                self.lastw = pins(self.withsubs(g2, vals), self.last_apps, self.last_bl)
                return {dom.atom_str(dom.ATOMS[i]): v for i, v in vals.items()}
            if fix is False: return None
            alts = fix if fix and isinstance(fix[0], list) else [fix]
            for lits in alts:
                h = g.copy()
                for b in lits: h.add(b, False)
                w = search(h, depth + 1)
                if w is not None: return w
            return None
        try: return search(g, 0)
        except (Undecided, RecursionError): return None
    def withsubs(self, g, vals):
        vals = dict(vals)
        for i in g.subs:
            if i in vals: continue
            v = 0
            try:
                for m, c in g.norm(P.atom(dom.ATOMS[i])).d.items():
                    for j in m: c *= vals[j]
                    v += c
                vals[i] = v
            except KeyError: pass
        return vals
    def conflict(self, g, vals):
        """None when the assignment is a model; otherwise literals that repair
        it, or False"""
        ATOMS = dom.ATOMS
        def pv(p):
            p = g.norm(p); r = 0
            for mm, c in p.d.items():
                t = c
                for i in mm:
                    if i not in vals:
                        a = ATOMS[i]
                        if a.kind == 'app' and a.args:
                            if i in unval: raise KeyError(i)
                        vals[i] = a.lo if a.lo is not None else 0
                    t *= vals[i]
                r += t
            return r
        unval = set()
        def av(args):
            return tuple(pv(x) if isinstance(x, P) else x for x in args)
        # atoms in play
        seen = set()
        for q in g.les:
            for mm in q.d: seen.update(mm)
        for q in g.subs.values():
            for mm in q.d: seen.update(mm)
        apps = {}
        allat = set(seen) | set(vals) | set(g.subs)
        for i in sorted(allat):
            a = ATOMS[i]
            if a.kind != 'app' or not a.args or a.name.startswith(('div', 'mod')): continue
            try: k = (a.name, av(a.args))
            except KeyError: return False
            v = pv(P.atom(a))
            if k in apps and apps[k][1] != v:
                j = apps[k][0]
                fix = [eq(x, y) for x, y in zip(ATOMS[i].args, ATOMS[j].args) if isinstance(x, P)]
                alts = [fix + [eq(P.atom(a), P.atom(ATOMS[j]))]]
                for x, y in zip(ATOMS[i].args, ATOMS[j].args):
                    if isinstance(x, P):
                        for lit in (lt(x, y), lt(y, x)):
                            h = g.copy()
                            if h.add(lit, False) and not h.infeasible(): alts.append([lit])
                return alts
            apps.setdefault(k, (i, v))
        bl = {}
        for (n, args, v) in g.bools:
            if n == 'or':
                if not any(self.bval(x, pv, g, bl) is not False for x in args): 
                    return False
                continue
            k = (n, av(args))
            if k in bl and bl[k][0] != v:
                d = [(x, y) for x, y in zip(args, bl[k][1]) if isinstance(x, P)]
                for x, y in d:
                    for lit in (lt(x, y), lt(y, x)):
                        h = g.copy()
                        if h.add(lit, False) and not h.infeasible(): return [lit]
                return False
            bl.setdefault(k, (v, args))
        for i in sorted(allat):
            a = ATOMS[i]
            if a.kind != 'b2i' or i not in vals and i not in g.subs: continue
            x = a.args[0]
            if x.k != 'at': continue
            try: v = vals[i] if i in vals else pv(P.atom(a))
            except KeyError: return False
            try: k = (x.a[0], av(x.a[1]))
            except KeyError: return False
            v = bool(v) == bool(x.a[2])
            if k in bl and bl[k][0] != v:
                same = [eq(y, z) for y, z in zip(x.a[1], bl[k][1]) if isinstance(y, P)]
                alts = [same + [x if (bl[k][0] == bool(x.a[2])) else bnot(x)]]
                for y, z in zip(x.a[1], bl[k][1]):
                    if isinstance(y, P):
                        for lit in (lt(y, z), lt(z, y)):
                            h = g.copy()
                            if h.add(lit, False) and not h.infeasible(): alts.append([lit])
                return alts
            bl.setdefault(k, (v, x.a[1]))
        for q in g.nes:
            if pv(q) == 0:
                for lit in (lt(q, ZERO), lt(ZERO, q)):
                    h = g.copy()
                    if h.add(lit, False) and not h.infeasible(): return [lit]
                return False
        for fa in g.alls:
            pats = [ATOMS[j] for b in fa.bs for j in b_atoms(b) if ATOMS[j].kind == 'app' and fa.v.id in dom.deep_atoms_atom(j)]
            insts = []
            for pat in pats:
                for i in allat:
                    x = ATOMS[i]
                    if x.kind == 'app' and x.name == pat.name and len(x.args) == len(pat.args):
                        t = dom._match_index(pat.args, x.args, fa.v.id)
                        if t is None:
                            # by value
                            if len(x.args) == 1 and isinstance(x.args[0], P):
                                r = pat.args[0] - P.atom(fa.v)
                                if fa.v.id not in dom.deep_atoms(r): t = x.args[0] - r
                        if t is not None: insts.append(t)
            for (n, args, v) in g.bools:
                if n == 'or': continue
                for b in fa.bs:
                    if b.k == 'at' and b.a[0] == n:
                        t = dom._match_index(b.a[1], args, fa.v.id)
                        if t is not None: insts.append(t)
            nv = pv(fa.n)
            for t in insts:
                tv = pv(t)
                if not (0 <= tv < nv): continue
                for b in fa.bs:
                    c = subst_b(b, {fa.v.id: t})
                    if self.bval(c, pv, g, bl) is not True:
                        return [le(ZERO, t), lt(t, fa.n), c]
        for i in sorted(allat):
            a = ATOMS[i]
            if a.kind == 'sum' and (i in vals or i in g.subs):
                t, n = a.args
                try: nv = pv(n); have = vals[i] if i in vals else pv(P.atom(a))
                except KeyError: return False
                if nv > 24: 
                    if nv <= 60: return [[le(n, topoly(6))]]
                    continue
                tot = ZERO
                for k in range(max(nv, 0)): tot = tot + subst_p(t, {dom.SUMBV.id: P.const(k)})
                bad = False
                try:
                    v = 0
                    for mm, c in tot.d.items():
                        x = c
                        for j in mm:
                            aj = ATOMS[j]
                            if aj.kind == 'app' and aj.args:
                                kk = (aj.name, av(aj.args))
                                if kk not in apps: raise KeyError(j)
                                x *= apps[kk][1]
                            elif aj.kind == 'b2i':
                                y = self.bval(aj.args[0], pv, g, bl)
                                if y is None: raise KeyError(j)
                                x *= 1 if y else 0
                            else: x *= pv(P.atom(aj))
                        v += x
                    bad = v != have
                except KeyError: bad = 'open'
                if bad is True or (bad == 'open' and any(ATOMS[j].kind in ('app', 'b2i') for mm in tot.d for j in mm)):
                    lits = [eq(n, P.const(nv)), eq(P.atom(a), tot)]
                    if all(g.eval(l) is True for l in lits): 
                        if bad is True: return False
                        continue
                    return [lits, [lt(topoly(nv), n)]]
        self.last_apps = apps; self.last_bl = bl
        return None
    def bval(self, b, pv, g, bl):
        k = b.k
        if k == 'c': return b.a
        if k == 'le': return pv(b.a) <= 0
        if k == 'eq': return pv(b.a) == 0
        if k == 'ne': return pv(b.a) != 0
        if k == 'at':
            key = (b.a[0], tuple(pv(x) if isinstance(x, P) else x for x in b.a[1]))
            return None if key not in bl else bl[key][0] == b.a[2]
        if k in ('and', 'or'):
            r = [self.bval(x, pv, g, bl) for x in b.a]
            if k == 'and': return False if False in r else (None if None in r else True)
            return True if True in r else (None if None in r else False)
        return None
    def check(self, st, b, msg):
        """b must hold in st"""
        self.checks += 1
        if isinstance(b, bool): b = bconst(b)
        try: r = st.f.prove(b)
        except Undecided: r = None
        if r is True: return True
        w = self.refute(st.f, b)
        if w is True: return True
        if w is not None: self.note('violated', '%s [fails for %s]' % (msg, w))
        else: self.note('undecided', '%s: cannot establish %s' % (msg, bstr(b)[:300]))
        return False
    def check_multiple(self, n, d, msg):
        """n is a multiple of d (d > 0), in the interpreter's current state"""
        I = self.I
        def body():
            r = I.divmod(n, d)[1]
            self.check(I.st, eq(r, ZERO), msg)
        self.in_state(I.st, body)
    def check_not_multiple(self, n, d, msg):
        I = self.I
        def body():
            r = I.divmod(n, d)[1]
            self.check(I.st, bnot(eq(r, ZERO)), msg)
        self.in_state(I.st, body)
    def refute(self, f, b):
        """a model of f and not b that uses no summarised atoms; True when f and not b is contradictory"""
        every = True
        if b.k == 'and':
            est = [x for x in b.a if x.k == 'eq' and f.eval(x) is True]
            if est:
                f = f.copy()
                if not all(f.add(x) for x in est) or f.dead: return True
        for lits in dnf(bnot(b)):
            if lits is None: every = False; continue       # enumeration cut short
            g = f.copy()
            if not all(g.add(l, False) for l in lits) or g.dead: continue
            if g.infeasible() or g.infeasible_products(): continue
            ne = [l for l in lits if l.k == 'ne']
            if ne and len(ne) <= 3:
                alive = False
                for side in itertools.product((0, 1), repeat=len(ne)):
                    g2 = g.copy()
                    if all(g2.add(le0(l.a + 1 if d else 1 - l.a), False) for l, d in zip(ne, side)) and not g2.dead and not g2.infeasible() and not g2.infeasible_products():
                        alive = True; break
                if not alive: continue
            cut = self.positions(g, lits)
            if cut == []: continue
            every = False
            w = None
            for g2 in cut or [g]:
                w = self.witness(g2, ())
                if w is not None and not any('?' in k for k in w): break
            if w is None: continue
            if any('?' in k for k in w): continue
            return ', '.join('%s=%s' % (k, v) for k, v in sorted(w.items()) if not k.startswith('div') and '#' not in k)[:400] or 'any input'
        return True if every else None
    def positions(self, g, lits):
        """with sizes bounded, the states of every value of a position that the
        obligation quantifies over; None when there is no such position"""
        if not self.opts.get('unroll'): return None
        qs = sorted({i for l in lits for i in dom.b_atoms(l) if dom.ATOMS[i].kind == 'var' and '~' in dom.ATOMS[i].name})
        for i in qs:
            q = P.atom(dom.ATOMS[i]); x = g.norm(q)
            if x.isconst(): continue
            lo, hi = g.interval(q)
            if lo is None: lo = 0 if g.bound_le(-q) is True else None
            if lo is None: continue
            n = None
            for k in range(lo, lo + 81):
                if g.bound_le(q - k) is True or g.entails_lp(q - k): n = k; break
            if n is None: continue
            out = []
            for k in range(lo, n + 1):
                h = g.copy()
                if h.add(eq(q, P.const(k)), False) and not h.dead and not h.infeasible(): out.append(h)
            return out
        return None
    def never(self, o, msg):
        """outcome o must be unreachable"""
        self.checks += 1
        if o.st.f.infeasible() or o.st.f.infeasible_products(): return True
        if o.k == 'und':
            self.note('undecided', '%s: %s' % (msg, o.v)); return False
        w = self.witness(o.st.f, ())
        if w is not None and not any('?' in k for k in w):
            self.note('violated', '%s: %s [for %s]' % (msg, o.v, ', '.join('%s=%s' % x for x in sorted(w.items()) if '#' not in x[0])[:400] or 'any input'))
        else:
            self.note('undecided', '%s: %s (no concrete witness)' % (msg, o.v))
        return False
    def rets(self, outs, msg, unwind=None):
        """successful outcomes; anything else is a violation of totality"""
        res = []
        for o in outs:
            if o.k == 'ret': res.append(o)
            elif o.k == 'unwind' and unwind is not None and unwind(o): pass
            else: self.never(o, msg)
        return res
    def eqv(self, f_or_st, a, b, msg):
        """a and b denote the same value in st"""
        st = f_or_st
        self.checks += 1
        if v_eq(st.f, a, b): return True
        b2 = veqf(st.f, a, b)
        if b2 is not None:
            self.checks -= 1
            return self.check(st, b2, msg)
        self.note('undecided', '%s: %s vs %s' % (msg, vstr(vnorm(a, st.f))[:200], vstr(vnorm(b, st.f))[:200]))
        return False
    def in_state(self, st, fn):
        """run python code that may branch; fn() is called per partition"""
        for o in self.I.explore(st, fn):
            if o.k == 'und': self.note('undecided', str(o.v))
            elif o.k == 'unwind': self.note('undecided', 'unexpected unwind ' + str(o.v))
    def same_seq(self, st, a, b, msg):
        """two sequences are equal: same length and same element at a fresh position"""
        self.checks += 1
        if seq_eq(st.f, a, b): return True
        la, lb = seq_len(a), seq_len(b)
        n = len(self.bad)
        ok = self.check(st, eq(la, lb), msg + ': length')
        if not ok: return False
        def body():
            I = self.I
            p = fresh('pos', 0, None)
            I.assume(lt(p, la))
            x = I.seq_get(a, p); y = I.seq_get(b, p)
            self.eqv(I.st, x, y, msg + ': element')
        self.in_state(st, body)
        return len(self.bad) == n

def pins(vals, apps, bl):
    """an input assignment as literals over the named inputs"""
    out = []
    ok = lambda n: not any(c in n for c in '~?#') and not n.startswith(('div', 'mod')) and not n.endswith(('.hi', '.lo'))
    for i, v in vals.items():
        a = dom.ATOMS[i]
        if a.kind == 'var' and ok(a.name): out.append(eq(P.atom(a), P.const(v)))
    for (n, args), (i, v) in apps.items():
        a = dom.ATOMS[i]
        if ok(n): out.append(eq(app(n, tuple(P.const(x) if isinstance(x, int) else x for x in args), a.lo, a.hi), P.const(v)))
    for (n, args), (v, _) in bl.items():
        if ok(n):
            b = batom(n, tuple(P.const(x) if isinstance(x, int) else x for x in args))
            out.append(b if v else bnot(b))
    return tuple(out)

def dnf(b, lim=64):
    """conjunctions of literals"""
    if b.k == 'or':
        for x in b.a: yield from dnf(x, lim)
    elif b.k == 'and':
        def go(xs):
            if not xs: yield []; return
            for l in dnf(xs[0], lim):
                if l is None: yield None; continue
                for r in go(xs[1:]): yield None if r is None else l + r
        n = 0
        for l in go(list(b.a)):
            yield l
            n += 1
            if n > lim: yield None; return
    elif b.k == 'c':
        if b.a: yield []
    else: yield [b]

def veqf(f, a, b):
    """formula stating a == b, or None when not expressible"""
    if isinstance(a, P) and isinstance(b, P): return eq(a, b)
    if isinstance(a, B) and isinstance(b, B): return bnot(bxor(f.normb(a), f.normb(b)))
    if not isinstance(a, V) or not isinstance(b, V): return TRUE if a == b else FALSE
    if a.t == 'ite':
        x, y = veqf(f, a.k[1], b), veqf(f, a.k[2], b)
        return None if x is None or y is None else bor(band(a.k[0], x), band(bnot(a.k[0]), y))
    if b.t == 'ite': return veqf(f, b, a)
    if {a.t, b.t} == {'int', 'byte'}:
        g = lambda v: byte2p(v) if v.t == 'byte' else v.k[0]
        return eq(g(a), g(b))
    if a.t == 'seq' or b.t == 'seq': return TRUE if v_eq(f, a, b) else None
    if a.t != b.t or a.m != b.m or len(a.k) != len(b.k): return FALSE
    r = TRUE
    for x, y in zip(a.k, b.k):
        e = veqf(f, x, y)
        if e is None: return None
        r = band(r, e)
    return r
