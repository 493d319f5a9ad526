"""Abstract semantics of everything the analysed crate calls but does not
define: core/alloc primitives, std iterator adapters and the contracts of the
opaque collections the generic code is written against."""
import re
from .dom import *
from . import dom
from .val import *
from .interp import Interp, Unwind, Undecided, DeadPath, St, Out, byte_val, byte2p, v_eq

MEMMAX = 1 << 60          # no real machine holds more bytes than this
INTO = 'core::iter::traits::collect::IntoIterator'
ITER = 'core::iter::traits::iterator::Iterator'
EXACT = 'core::iter::traits::exact_size::ExactSizeIterator'
FROMITER = 'core::iter::traits::collect::FromIterator'
EXTEND = 'core::iter::traits::collect::Extend'
RANGE = 'core::ops::range::Range'
RANGEFROM = 'core::ops::range::RangeFrom'
RANGETO = 'core::ops::range::RangeTo'
RANGEFULL = 'core::ops::range::RangeFull'
RANGEI = 'core::ops::range::RangeInclusive'
ALLOCERR = 'narrow::collection::AllocError'
INTT = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'usize': (64, False), 'u128': (128, False),
        'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'isize': (64, True), 'i128': (128, True)}

def buf(kind, q): return V('buf', kind, (q,))
def it(kind, *k, m=()): return V('it:' + kind, m, tuple(k))
def isit(v): return v.t.startswith('it:')
def ival(v): return v.k[0]
def sub(loc, *fs): return (loc[0], loc[1] + tuple(('f', f) for f in fs), loc[2])

def foreign(v):
    """the same kind of item, but one produced after the end was reported"""
    if isinstance(v, P):
        r = ZERO
        for m, c in v.d.items():
            t = P.const(c)
            for i in m:
                a = dom.ATOMS[i]
                t = t * (P.atom(dom._mk(a.kind, a.name + '+', a.args, a.lo, a.hi)) if a.kind == 'app' else P.atom(a))
            r = r + t
        return r
    if isinstance(v, B):
        if v.k == 'at': return B('at', (v.a[0] + '+', v.a[1], v.a[2]))
        return v
    if v.t == 'term': return V('term', str(v.m) + '+', v.k)
    return V(v.t, v.m, tuple(foreign(x) if isinstance(x, (P, B, V)) else x for x in v.k))

class Models:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.DISCR = {'core::cmp::Ordering': lambda v: v - 1}
        for i, b in enumerate(prog.bodies):
            if b: b['id'] = i
        self.nat = dict(NAT)
        self.meth = dict(METH)
        self.hooks = []
    # ------------------------------------------------------------ interp API
    def deref_other(self, I, v, loc):
        if v.t in ('buf', 'arr', 'seq') or isit(v): return loc
        if v.t == 'str': return ('val', v, ())
        return None
    def const(self, I, c, ty, body):
        if 'fn' in c or (('zst' in c) and ty['k'] == 'fndef'):
            return V('fn', (c['t'], body['id']))
        if 'uq' in c and 'int' not in c:
            return self.assoc_const(I, c, ty, body)
        return None
    def assoc_const(self, I, c, ty, body): return None
    def rawof(self, I, v): return v
    def ptr_meta(self, I, v): raise Undecided('metadata of %s' % v.t)
    def discr_other(self, I, v): return None
    def mkadt(self, I, path, variant, xs, info=None): return Adt(path, variant, *xs)
    def ptr_cmp(self, I, op, a, b): return None
    def ptr_cast(self, I, kind, v, ty): return v
    def drop(self, I, fid, body, t): pass
    def dead(self, I, root): pass
    def event(self, I, *ev):
        for h in self.hooks: h(I, *ev)
        kinds = self.opts.get('ev')
        if kinds and ev[0] in kinds: I.st.ev += (ev,)
    def short(self, I):
        """a fallible request may fail"""
        if I.choose(2) == 0: return False
        self.event(I, 'fail', None)
        return True
    # --------------------------------------------- memory obtained infallibly
    def roomkey(self, loc): return ('room', loc[0], loc[1], tuple(loc[2]))
    def has_room(self, I, loc, n):
        """after a successful request there is room for n more elements"""
        if 'noabort' in self.opts: I.st.store[self.roomkey(loc)] = Int(n)
    def aborting(self, I, what, loc, n):
        """n elements are stored, or requested, in a way that cannot report an error"""
        if 'noabort' not in self.opts: return
        have = I.st.store.get(self.roomkey(loc)) if loc is not None else None
        have = ZERO if have is None else I.p(have)
        self.event(I, 'abort', what, loc, n, have)
        if loc is not None and self.roomkey(loc) in I.st.store:
            left = have - n
            if left.isconst() or any(dom.ATOMS[i].name.startswith('cap~') for i in deep_atoms(left)): left = ZERO
            I.st.store[self.roomkey(loc)] = Int(left)
    # ------------------------------------------------------------ types
    def marks(self, I, tid, body):
        if body is None: return ()
        return body.get('opq', {}).get(str(tid), ())
    def opaque_int(self): return (self.opts.get('offset_bits', 32), True)
    def intmeta(self, I, tid, body):
        ty = self.prog.types[tid]
        if ty['k'] == 'int': return (ty['bits'], ty['signed'])
        if 'O' in self.marks(I, tid, body): return self.opaque_int()
        return None
    def default_of(self, I, tid, body):
        ty = self.prog.types[tid]
        k = ty['k']
        if k == 'int': return I.mkint(0, ty)
        if k == 'bool': return Bool(FALSE)
        if k == 'tuple': return Tup(*[self.default_of(I, x, body) for x in ty['f']])
        if k in ('param', 'alias'):
            m = self.marks(I, tid, body)
            if 'O' in m: return I.mk(ZERO, self.opaque_int())
            if 'C' in m:
                if 'A' in m or 'R' in m: return buf(('opq', 'default'), EMPTY)
                n = fresh('dflt.len', 0, MEMMAX)
                return buf(('opq', 'default'), Seq(Seg(n, Term('dflt', E))))
            return Term('default')
        if k == 'adt':
            p = ty['path']
            if p == OPT: return NONE
            if p in ('alloc::vec::Vec', 'alloc::boxed::Box'): return buf(('vec', 'default'), EMPTY)
            if ty.get('phantom'): return Adt(p, 0)
            fe, im = self.prog.find_impl_fn('core::default::Default', 'default', p)
            if fe and fe['body'] is not None: return I.call_body(fe['body'], [])
        if k == 'array':
            raise Undecided('array default')
        if k == 'slice' or k == 'ref': return Term('default')
        raise Undecided('default of %s' % ty['s'])
    # ------------------------------------------------------------ locations
    def loc(self, I, v):
        """location a reference value points to (through nested references)"""
        v = I.force(v)
        if v.t == 'ref': return (v.m[0], v.m[1], v.k)
        raise Undecided('reference expected, got %s' % v.t)
    def peel(self, I, v):
        """follow references down to a non-reference value; returns value"""
        while True:
            v = I.force(v)
            if v.t != 'ref': return v
            v = I.read((v.m[0], v.m[1], v.k))
    def peel_loc(self, I, v):
        """(loc, value) after following references; loc None for rvalues"""
        loc = None
        while True:
            v = I.force(v)
            if v.t != 'ref': return loc, v
            loc = (v.m[0], v.m[1], v.k)
            v = I.read(loc)
    # slices -----------------------------------------------------------------
    def as_slice(self, I, v):
        """(seqloc, start, len) of a slice-like value (reference to it)"""
        loc, x = self.peel_loc(I, v)
        if x.t == 'slref': return I.sl_parts(x)
        if x.t == 'seq' and loc is not None: return loc, ZERO, seq_len(x)
        if x.t in ('buf', 'arr'):
            if loc is None: raise Undecided('slice of an rvalue')
            return (loc[0], loc[1] + ('q',), loc[2]), ZERO, seq_len(x.k[0])
        raise Undecided('slice expected, got %s' % vstr(x)[:60])
    def mkslice(self, I, parts): return I.slref(*parts)
    def sl_len(self, I, v):
        x = self.peel(I, v)
        if x.t == 'slref': return x.k[-1]
        if x.t in ('buf', 'arr'): return seq_len(x.k[0])
        if x.t == 'seq': return seq_len(x)
        if x.t == 'str': return P.const(len(x.m))
        raise Undecided('length of %s' % x.t)
    def sl_ref(self, parts, i):
        loc, st, n = parts
        return V('ref', (loc[0], loc[1] + ('i',)), tuple(loc[2]) + (st + topoly(i),))
    def sl_range(self, I, r, n):
        """(ok formula, start, end) for an index range value"""
        p = r.m[0] if r.t == 'adt' else None
        if p == RANGE:
            a, b = I.p(r.k[0]), I.p(r.k[1])
            return band(le(a, b), le(b, n)), a, b
        if p == RANGEFROM:
            a = I.p(r.k[0]); return le(a, n), a, n
        if p == RANGETO:
            b = I.p(r.k[0]); return le(b, n), ZERO, b
        if p == RANGEFULL: return TRUE, ZERO, n
        if p == RANGEI:
            a, b = I.p(r.k[0]), I.p(r.k[1]) + 1
            return band(le(a, b), le(b, n)), a, b
        return None
    def sl_content(self, I, v):
        (loc, st, n) = self.as_slice(I, v)
        q = I.read(loc)
        a, b = I.seq_split(q, st)
        c, d = I.seq_split(V('seq', (), tuple(b)), n)
        return mkseq(c)
    def content(self, I, v):
        x = self.peel(I, v)
        if x.t in ('buf', 'arr'): return x.k[0]
        if x.t == 'slref': return self.sl_content(I, x)
        raise Undecided('contents of %s' % x.t)
    # ------------------------------------------------------------ dispatch
    def crate_impl(self, I, tr, name, v):
        """identity-generic impl body for a crate ADT / iterator state value"""
        if v.t == 'adt':
            fe, im = self.prog.find_impl_fn(tr, name, v.m[0])
            if fe is not None and fe['body'] is not None: return fe['body']
        if v.t == 'int':
            for im in self.prog.impls_of(tr):
                st = self.prog.types[im['self']]
                if st['k'] == 'int' and (st['bits'], st['signed']) == v.m:
                    for kind, n, path in (e[:3] for e in im['assoc']):
                        if kind == 'fn' and n == name:
                            return self.prog.fn_by_path[path]['body']
        return None
    def provided(self, tr, name):
        fe = self.prog.fn_by_path.get('%s::%s' % (tr, name))
        return fe['body'] if fe else None
    def call(self, I, c, args, argtys, destty, span):
        if 'ctor' in c: return self.mkadt(I, c['ctor'][0], c['ctor'][1], args)
        q = c.get('q') or ''; rq = c.get('rq') or ''
        ctx = Ctx(c, argtys, destty, I.curbody)
        for key in (rq, q):
            h = self.nat.get(key)
            if h:
                r = h(self, I, args, ctx)
                if r is not NotImplemented: return r
        m = INTRE.match(rq or q)
        if m: return self.int_method(I, m.group(1), m.group(2), args)
        if (rq or q).startswith('core::fmt::') : return Term('fmt')
        if PANICRE.match(rq or q): raise Unwind('%s at %s' % ((rq or q).split('::')[-1], span))
        tr = c.get('trait')
        if tr and tr.startswith('core::ops::function::Fn'): return self.call_fn(I, args)
        if self.opts.get('contracts'):
            r = self.contract(I, c, args, ctx, rq or q)
            if r is not NotImplemented: return r
        if c.get('body') is not None and self.prog.bodies[c['body']] is not None:
            return I.call_body(c['body'], args)
        if tr:
            nm = c['name']
            if args:
                v = self.peel1(I, args[0])
                b = self.crate_impl(I, tr, nm, v)
                if b is not None: return I.call_body(b, args)
            h = self.meth.get((tr, nm)) or self.meth.get((tr.split('::')[-1], nm))
            if h:
                r = h(self, I, args, ctx)
                if r is not NotImplemented: return r
            b = self.provided(tr, nm)
            if b is not None: return I.call_body(b, args)
        if c.get('intrinsic'):
            h = self.nat.get('intrinsic:' + c['intrinsic'])
            if h: return h(self, I, args, ctx)
        rk = c.get('rk') or ''
        if c.get('name') in ('call', 'call_mut', 'call_once') :
            return self.call_fn(I, args)
        raise Undecided('call of %s%s' % (rq or q, ' (%s)' % rk if rk else ''))
    def contract(self, I, c, args, ctx, q):
        """calls of a summarised type behave like the sequence of its items"""
        for p in self.opts['contracts']:
            tr = c.get('trait')
            if q.startswith('<%s as ' % p) or q.startswith('<&%s as ' % p):
                if tr == INTO or c['name'] in ('iter_views',):
                    v = self.peel(I, args[0]); 
                    if v.t == 'buf': return it('seq', v.k[0], ZERO, seq_len(v.k[0]))
                h = self.meth.get((tr, c['name']))
                if h is None: raise Undecided('no summary of %s' % q)
                if c['name'] in ('extend', 'try_extend'):
                    # items may be given by reference
                    args = [args[0], it('cloned', self.into_iter(I, args[1]))]
                elif 'from_iter' in c['name']:
                    args = [it('cloned', self.into_iter(I, args[0]))] + list(args[1:])
                return h(self, I, args, ctx)
            if q.startswith(p + '::'):
                nm = q[len(p) + 2:]
                h = CONTRACT.get((p, nm))
                if h is None: raise Undecided('no summary of %s' % q)
                return h(self, I, args, ctx)
        return NotImplemented
    def peel1(self, I, v):
        v = I.force(v)
        n = 0
        while v.t == 'ref' and n < 6:
            v = I.force(I.read((v.m[0], v.m[1], v.k))); n += 1
        return v
    def call_fn(self, I, args):
        f = I.force(args[0]); a = args[1]
        xs = list(a.k) if a.t == 'tup' else [a]
        if f.t == 'ref': return I.call_loc((f.m[0], f.m[1], f.k), xs)
        return I.call_value(f, xs)
    # ------------------------------------------------------------ integers
    def int_method(self, I, ty, name, a):
        m = INTT[ty]; lo, hi = I.rng(m)
        x = I.force(a[0])
        def P_(i): return I.p(a[i])
        if name in ('strict_add', 'strict_sub', 'strict_mul'):
            z = {'a': lambda: P_(0) + P_(1), 's': lambda: P_(0) - P_(1), 'm': lambda: P_(0) * P_(1)}[name[7]]()
            if not I.branch(I.in_rng(z, m)): raise Unwind('%s overflow' % name)
            return I.mk(z, m)
        if name in ('checked_add', 'checked_sub', 'checked_mul'):
            z = {'a': lambda: P_(0) + P_(1), 's': lambda: P_(0) - P_(1), 'm': lambda: P_(0) * P_(1)}[name[8]]()
            if not I.branch(I.in_rng(z, m)): return NONE
            return Some(I.mk(z, m))
        if name in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
            z = {'a': lambda: P_(0) + P_(1), 's': lambda: P_(0) - P_(1), 'm': lambda: P_(0) * P_(1)}[name[12]]()
            if I.branch(I.in_rng(z, m)): return Tup(I.mk(z, m), Bool(FALSE))
            return Tup(I.wrap(z, m), Bool(TRUE))
        if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
            z = {'a': lambda: P_(0) + P_(1), 's': lambda: P_(0) - P_(1), 'm': lambda: P_(0) * P_(1)}[name[9]]()
            return I.wrap(z, m)
        if name in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
            z = {'a': lambda: P_(0) + P_(1), 's': lambda: P_(0) - P_(1), 'm': lambda: P_(0) * P_(1)}[name[10]]()
            if I.known(I.in_rng(z, m)) is not True: raise Undecided('unchecked arithmetic')
            return I.mk(z, m)
        if name in ('saturating_add', 'saturating_sub', 'saturating_mul'):
            z = {'a': lambda: P_(0) + P_(1), 's': lambda: P_(0) - P_(1), 'm': lambda: P_(0) * P_(1)}[name[11]]()
            if I.branch(I.in_rng(z, m)): return I.mk(z, m)
            if I.branch(lt(P.const(hi), z)): return I.mk(P.const(hi), m)
            return I.mk(P.const(lo), m)
        if name in ('checked_div', 'checked_rem', 'strict_div', 'strict_rem', 'rem_euclid', 'div_euclid', 'checked_rem_euclid', 'checked_div_euclid', 'div_floor', 'strict_rem_euclid', 'strict_div_euclid'):
            y = P_(1)
            z = I.branch(eq(y, ZERO))
            chk = name.startswith('checked')
            if z:
                if chk: return NONE
                raise Unwind('division by zero')
            if m[1] and 'rem' in name and I.known(le0(-P_(0))) is not True: raise Undecided('signed remainder')
            qq, r = I.idiv(P_(0), y, m)
            v = I.mk(r if 'rem' in name else qq, m)
            return Some(v) if chk else v
        if name == 'div_ceil':
            y = P_(1)
            if I.branch(eq(y, ZERO)): raise Unwind('division by zero')
            yn = I.st.f.norm(y)
            if yn.isconst():
                c = yn.c()
                qq, r = I.divmod(P_(0) + (c - 1), c)
                return I.mk(qq, m)
            qq, r = I.idiv(P_(0), y, m)
            if I.branch(eq(r, ZERO)): return I.mk(qq, m)
            return I.mk(qq + 1, m)
        if name in ('next_multiple_of', 'checked_next_multiple_of'):
            y = P_(1)
            chk = name.startswith('checked')
            if I.branch(eq(y, ZERO)):
                if chk: return NONE
                raise Unwind('division by zero')
            qq, r = I.idiv(P_(0), y, m)
            if I.branch(eq(r, ZERO)): z = P_(0)
            else: z = (qq + 1) * y
            if not I.branch(I.in_rng(z, m)):
                if chk: return NONE
                raise Unwind('overflow')
            v = I.mk(z, m)
            return Some(v) if chk else v
        if name == 'is_multiple_of':
            y = P_(1)
            if I.branch(eq(y, ZERO)): return Bool(eq(P_(0), ZERO))
            qq, r = I.idiv(P_(0), y, m)
            return Bool(eq(r, ZERO))
        if name == 'abs_diff':
            if I.branch(le(P_(0), P_(1))): return I.mk(P_(1) - P_(0), m)
            return I.mk(P_(0) - P_(1), m)
        if name in ('checked_abs', 'wrapping_abs', 'saturating_abs', 'strict_abs', 'overflowing_abs'):
            if I.branch(le(ZERO, P_(0))): r = P_(0)
            elif I.branch(lt(P.const(lo), P_(0))): r = -P_(0)
            else:
                kd = name.split('_')[0]
                if kd == 'checked': return NONE
                if kd == 'strict': raise Unwind('overflow')
                if kd == 'overflowing': return Tup(I.mk(P.const(lo), m), Bool(TRUE))
                return I.mk(P.const(hi if kd == 'saturating' else lo), m)
            if name[0] == 'c': return Some(I.mk(r, m))
            return Tup(I.mk(r, m), Bool(FALSE)) if name[0] == 'o' else I.mk(r, m)
        if name == 'signum':
            if I.branch(eq(P_(0), ZERO)): return I.mk(ZERO, m)
            return I.mk(P.const(1 if I.branch(lt(ZERO, P_(0))) else -1), m)
        if name in ('unsigned_abs', 'abs'):
            if I.branch(le(ZERO, P_(0))): return I.mk(P_(0), (m[0], name == 'abs'))
            return I.mk(-P_(0), (m[0], name == 'abs'))
        if name == 'is_negative': return Bool(lt(P_(0), ZERO))
        if name == 'is_positive': return Bool(lt(ZERO, P_(0)))
        if name == 'cast_signed' or name == 'cast_unsigned':
            t = (m[0], name == 'cast_signed')
            return I.wrap(P_(0), t)
        if x.t == 'byte':
            if name == 'count_ones':
                r = ZERO
                for b in x.k: r = r + b2i(b)
                return Int(r, 32)
            if name == 'count_zeros':
                r = P.const(8)
                for b in x.k: r = r - b2i(b)
                return Int(r, 32)
            c = byte_val(x)
            if name in ('rotate_left', 'rotate_right'):
                n = I.concrete(P_(1), 0, 7) % 8
                if name == 'rotate_left': return Byte(x.k[8 - n:] + x.k[:8 - n])
                return Byte(x.k[n:] + x.k[:n])
            if name == 'trailing_zeros':
                for i, b in enumerate(x.k):
                    if I.branch(b): return Int(P.const(i), 32)
                return Int(P.const(8), 32)
            if name == 'leading_zeros':
                for i, b in enumerate(reversed(x.k)):
                    if I.branch(b): return Int(P.const(i), 32)
                return Int(P.const(8), 32)
            if name == 'trailing_ones':
                for i, b in enumerate(x.k):
                    if not I.branch(b): return Int(P.const(i), 32)
                return Int(P.const(8), 32)
            if name in ('wrapping_shl', 'wrapping_shr', 'checked_shl', 'checked_shr', 'strict_shl', 'strict_shr', 'unbounded_shl', 'unbounded_shr'):
                n = P_(1)
                kind = name.split('_')[0]
                if not I.branch(lt(n, P.const(8))):
                    if kind == 'checked': return NONE
                    if kind == 'strict': raise Unwind('shift overflow')
                    if kind == 'unbounded': return byte_const(0)
                    n = I.divmod(n, 8)[1]
                r = I.binop('Shl' if name.endswith('l') else 'Shr', x, Int(n, 32))
                return Some(r) if kind == 'checked' else r
            if name == 'reverse_bits': return Byte(tuple(reversed(x.k)))
        if name in ('is_ascii_digit', 'is_ascii'):
            p = byte2p(x) if x.t == 'byte' else I.p(self.peel(I, a[0]))
            return Bool(band(le(P.const(48), p), le(p, P.const(57))) if name == 'is_ascii_digit' else le(p, P.const(127)))
        if name == 'is_power_of_two' and x.t == 'byte':
            tot = ZERO
            for b in x.k: tot = tot + b2i(b)
            return Bool(eq(tot, ONE))
        if name in ('min_value', 'max_value'): return I.mk(P.const(lo if name[1] == 'i' else hi), m)
        if x.t == 'int' and name in ('is_power_of_two', 'next_power_of_two', 'ilog2', 'trailing_zeros', 'leading_zeros', 'count_ones', 'count_zeros', 'pow', 'checked_pow', 'isqrt', 'checked_ilog2', 'checked_next_power_of_two'):
            xs = [I.st.f.norm(I.p(v)) for v in a]
            if all(p.isconst() for p in xs) and xs[0].c() >= 0:
                c = xs[0].c(); w = m[0]
                if name == 'is_power_of_two': return Bool(bconst(c > 0 and c & (c - 1) == 0))
                if name.endswith('next_power_of_two'): r = 1 if c <= 1 else 1 << (c - 1).bit_length()
                elif name == 'isqrt': import math; r = math.isqrt(c)
                elif name.endswith('pow'): r = c ** xs[1].c() if xs[1].c() < 200 else hi + 1
                else:
                    if name == 'checked_ilog2':
                        return Some(Int(P.const(c.bit_length() - 1), 32)) if c else NONE
                    if name == 'ilog2' and c == 0: raise Unwind('logarithm of zero')
                    return Int({'ilog2': c.bit_length() - 1, 'trailing_zeros': ((c & -c).bit_length() - 1) if c else w, 'leading_zeros': w - c.bit_length(),
                                'count_ones': bin(c).count('1'), 'count_zeros': w - bin(c).count('1')}[name], 32)
                if r > hi:
                    if name[0] == 'c': return NONE
                    raise Unwind('overflow')
                return Some(I.mk(P.const(r), m)) if name[0] == 'c' else I.mk(P.const(r), m)
            if name in ('leading_zeros', 'ilog2', 'checked_ilog2', 'is_power_of_two', 'next_power_of_two', 'checked_next_power_of_two'):
                p = xs[0]; w = m[0]
                def bits(q):
                    # the number of significant bits, by cases
                    a_, b_ = 0, w
                    while a_ < b_:
                        mid = (a_ + b_) // 2
                        if I.branch(lt(q, P.const(1 << mid))): b_ = mid
                        else: a_ = mid + 1
                    return a_
                if m[1] and not I.branch(le(ZERO, p)):
                    if name == 'leading_zeros': return Int(ZERO, 32)
                    if name == 'checked_ilog2': return NONE
                    if name == 'ilog2': raise Unwind('logarithm of a negative number')
                elif name == 'leading_zeros': return Int(P.const(w - bits(p)), 32)
                elif name.endswith('ilog2'):
                    n = bits(p)
                    if n == 0:
                        if name == 'ilog2': raise Unwind('logarithm of zero')
                        return NONE
                    n = Int(P.const(n - 1), 32)
                    return n if name == 'ilog2' else Some(n)
                elif name == 'is_power_of_two':
                    n = bits(p)
                    return Bool(eq(p, P.const(1 << (n - 1)))) if n else Bool(FALSE)
                else:
                    n = bits(p - 1) if I.branch(lt(ZERO, p)) else 0
                    if n >= w:
                        if name[0] == 'c': return NONE
                        raise Unwind('overflow')
                    r = I.mk(P.const(1 << n), m)
                    return Some(r) if name[0] == 'c' else r
            if name == 'trailing_zeros':
                p = xs[0]
                if I.branch(eq(p, ZERO)): return Int(P.const(m[0]), 32)
                n = 0
                while n < 20 and I.branch(eq(I.divmod(p, 1 << (n + 1))[1], ZERO)): n += 1
                if n < 20: return Int(P.const(n), 32)
                raise Undecided('trailing zeros of a large multiple')
        if name in ('checked_shl', 'checked_shr', 'wrapping_shl', 'wrapping_shr'):
            r = I.binop('Shl' if name.endswith('l') else 'Shr', x, a[1])
            return Some(r) if name[0] == 'c' else r
        if name == 'midpoint':
            return I.mk(I.divmod(P_(0) + P_(1), 2)[0], m)
        if name == 'checked_neg':
            if I.branch(I.in_rng(-P_(0), m)): return Some(I.mk(-P_(0), m))
            return NONE
        raise Undecided('%s::%s' % (ty, name))
    # ------------------------------------------------------------ iterators
    def next_at(self, I, loc):
        """Iterator::next on the iterator stored at loc -> V item or None"""
        v = I.force(I.read(loc))
        t = v.t
        if t == 'ref': return self.next_at(I, (v.m[0], v.m[1], v.k))
        if t == 'box': return self.next_at(I, sub(loc, 0))
        if t == 'adt':
            if v.m[0] == RANGE:
                a, b = I.p(v.k[0]), I.p(v.k[1])
                if not I.branch(lt(a, b)): return None
                I.write(loc, v.with_kid(0, V('int', v.k[0].m, (a + 1,)) if v.k[0].t == 'int' else Int(a + 1)))
                return v.k[0]
            if v.m[0] == RANGEFROM:
                a = I.p(v.k[0])
                I.write(loc, v.with_kid(0, V('int', v.k[0].m, (a + 1,))))
                return v.k[0]
            if v.m[0] == RANGEI:
                a, b = I.p(v.k[0]), I.p(v.k[1])
                ex = I.b(v.k[2]) if len(v.k) > 2 else FALSE
                if I.branch(ex) or not I.branch(le(a, b)): return None
                if I.branch(lt(a, b)): I.write(loc, v.with_kid(0, V('int', v.k[0].m, (a + 1,))))
                else: I.write(loc, v.with_kid(2, Bool(TRUE)))
                return v.k[0]
            b = self.crate_impl(I, ITER, 'next', v)
            if b is None: raise Undecided('next on %s' % v.m[0])
            r = I.force(I.call_body(b, [I.mkref(loc)]))
            return self.unopt(I, r)
        if not isit(v): raise Undecided('next on %s' % vstr(v)[:60])
        t = t[3:]
        h = getattr(self, 'nx_' + t, None)
        if h is None: raise Undecided('next on ' + t)
        return h(I, loc, v)
    def unopt(self, I, r):
        r = I.force(r)
        if r.t != 'adt' or r.m[0] != OPT: raise Undecided('option expected')
        return r.k[0] if r.m[1] == 1 else None
    def nx_opq(self, I, loc, v):
        name, fused, panics, hint = v.m
        tmpl, pos, n, ended = v.k
        if panics and I.choose(2) == 1:
            self.event(I, 'itpanic', name)
            raise Unwind('iterator panicked')
        if I.branch(ended):
            if fused or I.choose(2) == 0: return None
            if I.opts.get('unroll'):
                # refutation only: few items after the end will do
                if not I.branch(le(pos, n + 1)): return None
                I.write(loc, V(v.t, v.m, (tmpl, pos + 1, n, ended)))
            x = foreign(vsubst(tmpl, {SUMBV.id: pos}))
            self.event(I, 'polled-after-end', name)
            return x
        if I.branch(lt(pos, n)):
            I.write(loc, V(v.t, v.m, (tmpl, pos + 1, n, ended)))
            return vsubst(tmpl, {SUMBV.id: pos})
        I.write(loc, V(v.t, v.m, (tmpl, pos, n, TRUE)))
        return None
    def nx_seq(self, I, loc, v):
        q, pos, end = v.k
        if not I.branch(lt(pos, end)): return None
        x = I.seq_get(q, pos)
        I.write(loc, V(v.t, v.m, (q, pos + 1, end)))
        return x
    def nx_sref(self, I, loc, v):
        pos, end = v.k[-2], v.k[-1]
        if not I.branch(lt(pos, end)): return None
        I.write(loc, V(v.t, v.m, v.k[:-2] + (pos + 1, end)))
        return V('ref', (v.m[0], v.m[1] + ('i',)), v.k[:-2] + (pos,))
    def nx_map(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        return I.call_loc(sub(loc, 1), [x])
    def nx_inspect(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        with I.tmp(x) as t:
            I.call_loc(sub(loc, 1), [I.mkref(t)])
            return I.read(t)
    def nx_cloned(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        return self.clone1(I, x)
    def nx_take(self, I, loc, v):
        n = v.k[1]
        if not I.branch(lt(ZERO, n)): return None
        I.write(loc, v.with_kid(1, n - 1))
        return self.next_at(I, sub(loc, 0))
    def nx_skip(self, I, loc, v):
        n = v.k[1]
        if I.branch(eq(n, ZERO)): return self.next_at(I, sub(loc, 0))
        I.write(loc, v.with_kid(1, ZERO))
        return self.nth_at(I, sub(loc, 0), n)
    def nth_at(self, I, loc, n):
        """Iterator::nth"""
        v = I.force(I.read(loc))
        if v.t == 'ref': return self.nth_at(I, (v.m[0], v.m[1], v.k), n)
        if v.t == 'adt':
            fe, im = self.prog.find_impl_fn(ITER, 'nth', v.m[0])
            if fe is not None and fe['body'] is not None:
                return self.unopt(I, I.call_body(fe['body'], [I.mkref(loc), Int(n)]))
        if v.t == 'it:seq' or v.t == 'it:sref':
            pos, end = v.k[-2], v.k[-1]
            if not I.branch(lt(n, end - pos)):
                I.write(loc, V(v.t, v.m, v.k[:-2] + (end, end))); return None
            I.write(loc, V(v.t, v.m, v.k[:-2] + (pos + n, end)))
            return self.next_at(I, loc)
        if v.t == 'it:take':
            r = v.k[1]
            if I.branch(lt(n, r)):
                I.write(loc, v.with_kid(1, r - n - 1))
                return self.nth_at(I, sub(loc, 0), n)
            I.write(loc, v.with_kid(1, ZERO))
            if I.branch(lt(ZERO, r)): self.nth_at(I, sub(loc, 0), r - 1)
            return None
        if v.t == 'it:skip':
            k = v.k[1]
            I.write(loc, v.with_kid(1, ZERO))
            return self.nth_at(I, sub(loc, 0), n + k)
        # advance n times, then next
        with I.tmp(Int(ZERO)) as c, I.tmp(Bool(FALSE)) as done:
            def step():
                i = I.read(c).k[0]
                if not I.branch(lt(i, n)): return False
                x = self.next_at(I, loc)
                if x is None:
                    I.write(done, Bool(TRUE)); return False
                I.write(c, Int(i + 1))
                return True
            I.nloop(step, 'nth')
            if I.branch(I.read(done).k[0]): return None
        return self.next_at(I, loc)
    def nx_chain(self, I, loc, v):
        a = v.k[0]
        if a.m[1] == 1:
            x = self.next_at(I, sub(loc, 0, 0))
            if x is not None: return x
            I.write(sub(loc, 0), NONE)
        b = I.read(sub(loc, 1))
        if b.m[1] == 0: return None
        return self.next_at(I, sub(loc, 1, 0))
    def nx_fuse(self, I, loc, v):
        if v.k[0].m[1] == 0: return None
        x = self.next_at(I, sub(loc, 0, 0))
        if x is None: I.write(sub(loc, 0), NONE)
        return x
    def nx_zip(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        y = self.next_at(I, sub(loc, 1))
        if y is None: return None
        return Tup(x, y)
    def nx_enum(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        v = I.read(loc)
        I.write(loc, v.with_kid(1, v.k[1] + 1))
        return Tup(Int(v.k[1]), x)
    def nx_opt(self, I, loc, v):
        o = I.force(v.k[0])
        if o.m[1] == 0: return None
        I.write(loc, v.with_kid(0, NONE))
        return o.k[0]
    def nx_repn(self, I, loc, v):
        if not I.branch(lt(ZERO, v.k[1])): return None
        I.write(loc, v.with_kid(1, v.k[1] - 1))
        return v.k[0]
    def nx_repeat(self, I, loc, v): return v.k[0]
    def nx_filter(self, I, loc, v):
        with I.tmp(NONE) as r:
            def step():
                x = self.next_at(I, sub(loc, 0))
                if x is None: return False
                with I.tmp(x) as t:
                    c = I.b(I.call_loc(sub(loc, 1), [I.mkref(t)]))
                if I.branch(c):
                    I.write(r, Some(x)); return False
                return True
            I.nloop(step, 'filter')
            o = I.read(r)
        return o.k[0] if o.m[1] else None
    def nx_filter_map(self, I, loc, v):
        with I.tmp(NONE) as r:
            def step():
                x = self.next_at(I, sub(loc, 0))
                if x is None: return False
                y = I.force(I.call_loc(sub(loc, 1), [x]))
                if y.m[1] == 1:
                    I.write(r, y); return False
                return True
            I.nloop(step, 'filter_map')
            o = I.read(r)
        return o.k[0] if o.m[1] else None
    def nx_map_while(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        return self.unopt(I, I.call_loc(sub(loc, 1), [x]))
    def nx_take_while(self, I, loc, v):
        if I.branch(v.k[2]): return None
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        with I.tmp(x) as t: c = I.b(I.call_loc(sub(loc, 1), [I.mkref(t)]))
        if I.branch(c): return x
        v = I.read(loc); I.write(loc, v.with_kid(2, TRUE))
        return None
    def nx_scan(self, I, loc, v):
        x = self.next_at(I, sub(loc, 0))
        if x is None: return None
        return self.unopt(I, I.call_loc(sub(loc, 2), [I.mkref(sub(loc, 1)), x]))
    def nx_from_fn(self, I, loc, v):
        return self.unopt(I, I.call_loc(sub(loc, 0), []))
    def nx_successors(self, I, loc, v):
        o = I.force(v.k[0])
        if o.m[1] == 0: return None
        x = o.k[0]
        with I.tmp(x) as t:
            nx = I.call_loc(sub(loc, 1), [I.mkref(t)])
        v = I.read(loc); I.write(loc, v.with_kid(0, nx))
        return x
    def nx_rev(self, I, loc, v): return self.next_back_at(I, sub(loc, 0))
    def nx_peek(self, I, loc, v):
        p = v.k[1]
        if p.m[1] == 1:
            I.write(loc, v.with_kid(1, NONE))
            o = p.k[0]
            return o.k[0] if o.m[1] else None
        return self.next_at(I, sub(loc, 0))
    def nx_chunks(self, I, loc, v):
        # m=(root,steps,exact); k = idx.., start, end, size
        pos, end, size = v.k[-3:]
        if v.m[2]:
            if not I.branch(le(pos + size, end)): return None
            n = size
        else:
            if not I.branch(lt(pos, end)): return None
            n = size if I.branch(le(pos + size, end)) else end - pos
        I.write(loc, V(v.t, v.m, v.k[:-3] + (pos + n, end, size)))
        return V('slref', (v.m[0], v.m[1]), v.k[:-3] + (pos, n))
    def nx_windows(self, I, loc, v):
        pos, end, size = v.k[-3:]
        if not I.branch(le(pos + size, end)): return None
        I.write(loc, V(v.t, v.m, v.k[:-3] + (pos + 1, end, size)))
        return V('slref', (v.m[0], v.m[1]), v.k[:-3] + (pos, size))
    def nx_flatten(self, I, loc, v):
        # k = (inner, front option)
        with I.tmp(NONE) as r:
            def step():
                v = I.read(loc)
                if v.k[1].m[1] == 1:
                    x = self.next_at(I, sub(loc, 1, 0))
                    if x is not None:
                        I.write(r, Some(x)); return False
                    I.write(sub(loc, 1), NONE)
                y = self.next_at(I, sub(loc, 0))
                if y is None: return False
                I.write(sub(loc, 1), Some(self.into_iter(I, y)))
                return True
            I.nloop(step, 'flatten')
            o = I.read(r)
        return o.k[0] if o.m[1] else None
    def next_back_at(self, I, loc):
        v = I.force(I.read(loc))
        if v.t == 'ref': return self.next_back_at(I, (v.m[0], v.m[1], v.k))
        if v.t == 'adt' and v.m[0] == RANGE:
            a, b = I.p(v.k[0]), I.p(v.k[1])
            if not I.branch(lt(a, b)): return None
            I.write(loc, v.with_kid(1, V('int', v.k[1].m, (b - 1,))))
            return V('int', v.k[1].m, (b - 1,))
        if v.t == 'it:seq':
            q, pos, end = v.k
            if not I.branch(lt(pos, end)): return None
            x = I.seq_get(q, end - 1)
            I.write(loc, V(v.t, v.m, (q, pos, end - 1)))
            return x
        if v.t == 'it:sref':
            pos, end = v.k[-2], v.k[-1]
            if not I.branch(lt(pos, end)): return None
            I.write(loc, V(v.t, v.m, v.k[:-2] + (pos, end - 1)))
            return V('ref', (v.m[0], v.m[1] + ('i',)), v.k[:-2] + (end - 1,))
        if v.t == 'it:map':
            x = self.next_back_at(I, sub(loc, 0))
            return None if x is None else I.call_loc(sub(loc, 1), [x])
        if v.t == 'it:cloned':
            x = self.next_back_at(I, sub(loc, 0))
            return None if x is None else self.clone1(I, x)
        if v.t == 'it:rev': return self.next_at(I, sub(loc, 0))
        if v.t == 'it:inspect':
            x = self.next_back_at(I, sub(loc, 0))
            if x is None: return None
            with I.tmp(x) as t:
                I.call_loc(sub(loc, 1), [I.mkref(t)])
                return I.read(t)
        if v.t == 'it:skip':
            if not I.branch(lt(v.k[1], self.hint_at(I, sub(loc, 0))[0])): return None
            return self.next_back_at(I, sub(loc, 0))
        if v.t == 'it:take':
            n = v.k[1]
            if not I.branch(lt(ZERO, n)): return None
            ln = self.hint_at(I, sub(loc, 0))[0]
            I.write(loc, v.with_kid(1, n - 1))
            return self.nth_back_at(I, sub(loc, 0), ln - n if I.branch(lt(n, ln)) else ZERO)
        if v.t == 'it:enum':
            x = self.next_back_at(I, sub(loc, 0))
            if x is None: return None
            return Tup(Int(v.k[1] + self.hint_at(I, sub(loc, 0))[0]), x)
        if v.t == 'it:zip':
            a, b = self.hint_at(I, sub(loc, 0))[0], self.hint_at(I, sub(loc, 1))[0]
            if I.branch(lt(a, b)): self.nth_back_at(I, sub(loc, 1), b - a - 1)
            elif I.branch(lt(b, a)): self.nth_back_at(I, sub(loc, 0), a - b - 1)
            x = self.next_back_at(I, sub(loc, 0))
            if x is None: return None
            y = self.next_back_at(I, sub(loc, 1))
            return None if y is None else Tup(x, y)
        if v.t == 'it:chain':
            if v.k[1].m[1] == 1:
                x = self.next_back_at(I, sub(loc, 1, 0))
                if x is not None: return x
                I.write(sub(loc, 1), NONE)
            a = I.read(sub(loc, 0))
            return None if a.m[1] == 0 else self.next_back_at(I, sub(loc, 0, 0))
        if v.t in ('it:opt', 'it:repn'): return self.next_at(I, loc)
        if v.t == 'it:fuse':
            if v.k[0].m[1] == 0: return None
            x = self.next_back_at(I, sub(loc, 0, 0))
            if x is None: I.write(sub(loc, 0), NONE)
            return x
        raise Undecided('next_back on %s' % v.t)
    def nth_back_at(self, I, loc, n):
        v = I.force(I.read(loc))
        if v.t == 'ref': return self.nth_back_at(I, (v.m[0], v.m[1], v.k), n)
        if v.t == 'it:rev': return self.nth_at(I, sub(loc, 0), n)
        if v.t in ('it:seq', 'it:sref'):
            pos, end = v.k[-2], v.k[-1]
            if not I.branch(lt(n, end - pos)):
                I.write(loc, V(v.t, v.m, v.k[:-2] + (pos, pos))); return None
            I.write(loc, V(v.t, v.m, v.k[:-2] + (pos, end - n)))
            return self.next_back_at(I, loc)
        with I.tmp(Int(ZERO)) as c, I.tmp(Bool(FALSE)) as done:
            def step():
                i = I.read(c).k[0]
                if not I.branch(lt(i, n)): return False
                if self.next_back_at(I, loc) is None:
                    I.write(done, Bool(TRUE)); return False
                I.write(c, Int(i + 1))
                return True
            I.nloop(step, 'nth_back')
            if I.branch(I.read(done).k[0]): return None
        return self.next_back_at(I, loc)
    # -- sizes
    def hint_at(self, I, loc):
        """(lower P, upper P or None)"""
        v = I.force(I.read(loc))
        t = v.t
        if t == 'ref': return self.hint_at(I, (v.m[0], v.m[1], v.k))
        if t == 'adt':
            if v.m[0] == RANGE:
                a, b = I.p(v.k[0]), I.p(v.k[1])
                n = b - a if I.branch(lt(a, b)) else ZERO
                return n, n
            b = self.crate_impl(I, ITER, 'size_hint', v)
            if b is None: return ZERO, None
            r = I.call_body(b, [I.mkref(loc)])
            u = self.unopt(I, r.k[1])
            return I.p(r.k[0]), (None if u is None else I.p(u))
        if not isit(v): raise Undecided('size_hint of %s' % t)
        t = t[3:]
        if t == 'opq':
            name, fused, panics, hint = v.m
            tmpl, pos, n, ended = v.k
            rem = n - pos
            if hint == 'exact': return rem, rem
            lo = var('%s.lo' % name, 0, USIZE) if hint != 'valid' else fresh('%s.lo' % name, 0, USIZE)
            hi = var('%s.hi' % name, 0, USIZE) if hint != 'valid' else fresh('%s.hi' % name, 0, USIZE)
            if hint == 'valid':
                I.assume(le(lo, rem))
                if I.choose(2) == 0: return lo, None
                I.assume(le(rem, hi)); return lo, hi
            if I.choose(2) == 0: return lo, None
            return lo, hi
        if t in ('seq', 'sref'):
            n = v.k[-1] - v.k[-2]; return n, n
        if t in ('map', 'inspect', 'cloned', 'enum', 'rev'): return self.hint_at(I, sub(loc, 0))
        if t == 'fuse':
            if v.k[0].m[1] == 0: return ZERO, ZERO
            return self.hint_at(I, sub(loc, 0, 0))
        if t == 'take':
            n = v.k[1]
            if I.branch(eq(n, ZERO)): return ZERO, ZERO
            lo, hi = self.hint_at(I, sub(loc, 0))
            lo = self.pmin(I, lo, n)
            hi = n if hi is None else self.pmin(I, hi, n)
            return lo, hi
        if t == 'skip':
            lo, hi = self.hint_at(I, sub(loc, 0)); n = v.k[1]
            f = lambda x: (x - n if I.branch(le(n, x)) else ZERO)
            return f(lo), (None if hi is None else f(hi))
        if t == 'chain':
            a, b = v.k
            r = []
            for i, o in enumerate((a, b)):
                r.append(self.hint_at(I, sub(loc, i, 0)) if o.m[1] else (ZERO, ZERO))
            lo = self.psat(I, r[0][0] + r[1][0])
            if r[0][1] is None or r[1][1] is None: return lo, None
            hi = r[0][1] + r[1][1]
            return lo, (hi if I.branch(le(hi, P.const(USIZE))) else None)
        if t == 'zip':
            a = self.hint_at(I, sub(loc, 0)); b = self.hint_at(I, sub(loc, 1))
            lo = self.pmin(I, a[0], b[0])
            hi = a[1] if b[1] is None else b[1] if a[1] is None else self.pmin(I, a[1], b[1])
            return lo, hi
        if t == 'opt':
            o = I.force(v.k[0])
            n = P.const(o.m[1]); return n, n
        if t == 'repn': return v.k[1], v.k[1]
        if t == 'repeat': return P.const(USIZE), None
        if t in ('filter', 'filter_map', 'map_while', 'take_while', 'scan'):
            return ZERO, self.hint_at(I, sub(loc, 0))[1]
        if t in ('from_fn', 'successors'): return ZERO, None
        if t == 'flatten':
            # core: a lower bound is only computed from the fixed-size inner arrays
            lo, hi = self.hint_at(I, sub(loc, 0))
            N = v.m[0] if v.m else None
            if N is None: 
                l = fresh('flat.lo', 0, USIZE)
                return ZERO, None
            l = lo * N
            l = l if I.branch(le(l, P.const(USIZE))) else P.const(USIZE)
            if hi is None: return l, None
            h = hi * N
            return l, (h if I.branch(le(h, P.const(USIZE))) else None)
        if t == 'peek':
            p = v.k[1]
            if p.m[1] == 1:
                if p.k[0].m[1] == 0: return ZERO, ZERO
                lo, hi = self.hint_at(I, sub(loc, 0))
                return self.psat(I, lo + 1), (None if hi is None else hi + 1)
            return self.hint_at(I, sub(loc, 0))
        if t == 'chunks':
            pos, end, size = v.k[-3:]
            q, r = I.idiv(end - pos, size, USZ)
            if not v.m[2] and not I.branch(eq(r, ZERO)): q = q + 1
            return q, q
        raise Undecided('size_hint of ' + t)
    def pmin(self, I, a, b):
        if a == b: return a
        return a if I.branch(le(a, b)) else b
    def psat(self, I, a):
        return a if I.branch(le(a, P.const(USIZE))) else P.const(USIZE)
    def len_at(self, I, loc):
        v = I.force(I.read(loc))
        if v.t == 'ref': return self.len_at(I, (v.m[0], v.m[1], v.k))
        if v.t == 'adt':
            b = self.crate_impl(I, EXACT, 'len', v)
            if b is not None: return I.p(I.call_body(b, [I.mkref(loc)]))
        lo, hi = self.hint_at(I, loc)
        if hi is None: raise Unwind('exact length without an upper bound')
        if not I.branch(eq(lo, hi)): raise Unwind('inexact exact-size hint')
        return lo
    # -- construction
    def into_iter(self, I, v, ctx=None):
        v = I.force(v)
        t = v.t
        if isit(v): return v
        if t == 'buf' or t == 'arr':
            return it('seq', v.k[0], ZERO, seq_len(v.k[0]))
        if t == 'slref':
            loc, st, n = I.sl_parts(v)
            return V('it:sref', (loc[0], loc[1]), tuple(loc[2]) + (st, st + n))
        if t == 'ref':
            loc = (v.m[0], v.m[1], v.k)
            x = I.force(I.read(loc))
            if x.t in ('buf', 'arr'):
                return V('it:sref', (loc[0], loc[1] + ('q',)), tuple(loc[2]) + (ZERO, seq_len(x.k[0])))
            if x.t == 'slref':
                return self.into_iter(I, x)
            if x.t == 'ref': return self.into_iter(I, x)
            if isit(x): return v
            if x.t == 'adt':
                if x.m[0] in (RANGE, RANGEFROM, RANGEI): return v
                b = self.crate_into_iter(x, True)
                if b is not None: return I.call_body(b, [v])
                if self.crate_impl(I, ITER, 'next', x) is not None: return v
                if x.m[0] == OPT:
                    return it('opt', NONE if x.m[1] == 0 else Some(V('ref', (loc[0], loc[1] + (('v', 1), ('f', 0))), loc[2])))
            raise Undecided('into_iter of reference to %s' % x.t)
        if t == 'adt':
            if v.m[0] in (RANGE, RANGEFROM, RANGEI): return v
            if v.m[0] == OPT: return it('opt', v)
            if v.m[0] == RES: return it('opt', Some(v.k[0]) if v.m[1] == 0 else NONE)
            b = self.crate_into_iter(v, False)
            if b is not None: return I.call_body(b, [v])
            if self.crate_impl(I, ITER, 'next', v) is not None: return v
        raise Undecided('into_iter of %s' % vstr(v)[:60])
    def crate_into_iter(self, v, byref):
        fe, im = self.prog.find_impl_fn(INTO, 'into_iter', v.m[0], byref)
        return fe['body'] if fe else None
    def iter_loc(self, I, v):
        """location of the iterator passed by &mut"""
        v = I.force(v)
        if v.t == 'ref': return (v.m[0], v.m[1], v.k)
        raise Undecided('iterator reference expected')
    def drive(self, I, loc, fn, what='iteration'):
        def step():
            x = self.next_at(I, loc)
            if x is None: return False
            return fn(x) is not False
        I.nloop(step, what)
    def pure(self, I, v):
        """the whole remaining sequence when producing it has no side effects"""
        t = v.t
        if t == 'it:seq':
            q, pos, end = v.k
            if I.known(eq(end, seq_len(q))) is True:
                if pos == ZERO: return q
                a, b = I.seq_split(q, pos)
                return mkseq(b)
            return None
        if t == 'it:opq':
            name, fused, panics, hint = v.m
            tmpl, pos, n, ended = v.k
            if panics or ended != FALSE: return None
            return mkseq([Seg(n - pos, vsubst(raised(tmpl), {SUMBV.id: pos + E}))])
        if t == 'it:repn':
            return mkseq([Seg(v.k[1], raised(v.k[0]))])
        if t == 'it:flatten' and v.k[1].m[1] == 0 and v.k[0].t == 'it:opq':
            name, fused, panics, hint = v.k[0].m
            tmpl, pos, n, ended = v.k[0].k
            if panics or ended != FALSE or tmpl.t not in ('arr', 'buf'): return None
            q = tmpl.k[0]
            if len(q.k) != 1 or q.k[0].t != 'seg': return None
            sh = {SUMBV.id: S + pos}
            return mkseq([Flat(n - pos, subst_p(q.k[0].k[0], sh), vsubst(q.k[0].k[1], sh))])
        if t == 'it:cloned': return self.pure_by(I, v.k[0], self.refs_of)
        if t in ('it:take', 'it:skip', 'it:rev', 'it:chain'): return self.pure_by(I, v, self.pure)
        return None
    def refs_of(self, I, v):
        """the plain values behind the references an iterator still yields"""
        if v.t != 'it:sref': return None
        q = I.read((v.m[0], v.m[1], tuple(v.k[:-2])))
        if q.t != 'seq' or any(s.t != 'seg' or s.k[1].t not in ('term', 'byte', 'int', 'bool') for s in q.k): return None
        a, b = I.seq_split(q, v.k[-2])
        c, d = I.seq_split(V('seq', (), tuple(b)), v.k[-1] - v.k[-2])
        return mkseq(c)
    def pure_by(self, I, v, base):
        v = I.force(v)
        if v.t in ('it:take', 'it:skip'):
            q = self.pure_by(I, v.k[0], base)
            if q is None or any(s.t != 'seg' for s in q.k): return None
            n = v.k[1]
            if I.branch(le(seq_len(q), n)): return q if v.t == 'it:take' else EMPTY
            a, b = I.seq_split(q, n)
            return mkseq(a if v.t == 'it:take' else b)
        if v.t == 'it:rev':
            q = self.pure_by(I, v.k[0], base)
            return None if q is None else self.reversed(q)
        if v.t == 'it:chain':
            out = []
            for x in v.k:
                x = I.force(x)
                if x.m[1] == 0: continue
                q = self.pure_by(I, x.k[0], base)
                if q is None: return None
                out += list(q.k)
            return mkseq(out)
        return base(I, v)
    @staticmethod
    def reversed(q):
        if any(s.t != 'seg' or E1V.id in atomsof(s.k[1]) for s in q.k): return None
        return mkseq([Seg(s.k[0], vsubst(s.k[1], {EBV.id: s.k[0] - 1 - E})) for s in reversed(q.k)])
    def bulk(self, I, loc):
        """an iterator over whole inner sequences: its outer part, when nothing is pending"""
        v = I.force(I.read(loc))
        return v.t == 'it:flatten' and v.k[1].m[1] == 0
    def bulk_next(self, I, loc):
        y = self.next_at(I, sub(loc, 0))
        if y is None: return None
        y = I.force(y)
        if y.t not in ('arr', 'buf'): raise Undecided('flattening %s' % y.t)
        return y.k[0]
    def drain(self, I, itv):
        q = self.pure(I, itv)
        if q is not None: return q
        with I.tmp(itv) as l, I.tmp(V('arr', (), (EMPTY,))) as acc:
            if I.opts.get('unroll') and I.opts.get('endless'):
                # refutation of "iteration ends": stop when far more came than there is
                def step():
                    x = self.next_at(I, l)
                    if x is None: return False
                    self.push_at(I, acc, x)
                    n = seq_len(I.read(acc).k[0])
                    return not (n.isconst() and n.c() > 300)
                I.nloop(step, 'collect')
            else: self.drive(I, l, lambda x: self.push_at(I, acc, x), 'collect')
            return I.read(acc).k[0]
    def push_at(self, I, loc, x):
        v = I.read(loc)
        I.write(loc, v.with_kid(0, joinseq(v.k[0], [One(x)])))
    def clone1(self, I, x):
        """value behind a reference, cloned"""
        x = I.force(x)
        if x.t == 'ref':
            y = I.force(I.read((x.m[0], x.m[1], x.k)))
            if y.t == 'adt' and y.m[0].startswith('narrow'):
                b = self.crate_impl(I, 'core::clone::Clone', 'clone', y)
                if b is not None: return I.call_body(b, [x])
            return y
        return x
    # ------------------------------------------------------------ buffers
    def cap(self, I, q, more=None):
        """growth beyond addressable memory does not return"""
        n = seq_len(q) if more is None else seq_len(q) + seq_len(more)
        b = USIZE
        for s in (q.k if more is None or not more.k else more.k[-1:]):
            if s.k[1].t in ('byte', 'int') if s.t == 'seg' else s.k[2].t in ('byte', 'int'): b = MEMMAX
        I.assume(le(n, P.const(b)))
    def buf_extend(self, I, loc, itv, fallible):
        """loc: location of a buf; returns None or Err for the fallible form"""
        v = I.read(loc)
        kind = v.m
        orig = v.k[0]
        q = self.pure(I, itv)
        if q is not None and not fallible:
            nq = joinseq(orig, list(q.k))
            self.cap(I, nq)
            self.aborting(I, 'extend', loc, seq_len(q))
            self.event(I, 'grow', loc, kind, seq_len(q))
            I.write(loc, v.with_kid(0, nq))
            return None
        with I.tmp(itv) as l, I.tmp(V('arr', (), (EMPTY,))) as acc, I.tmp(Bool(FALSE)) as failed:
            whole = q is None and self.bulk(I, l)
            def step():
                if fallible and I.choose(2) == 1:
                    I.write(failed, Bool(TRUE)); return False
                try:
                    x = self.bulk_next(I, l) if whole else self.next_at(I, l)
                except Unwind:
                    self.prefix(I, loc, acc)
                    raise
                if x is None: return False
                if whole:
                    a = I.read(acc); I.write(acc, a.with_kid(0, joinseq(a.k[0], list(x.k))))
                else: self.push_at(I, acc, x)
                self.cap(I, orig, I.read(acc).k[0])
                return True
            if q is not None:
                if I.choose(2) == 1: I.write(failed, Bool(TRUE))
                else: I.write(acc, V('arr', (), (q,)))
            else: I.nloop(step, 'extend')
            if I.branch(I.read(failed).k[0]):
                self.event(I, 'fail', loc)
                return Adt(ALLOCERR, 0)
            got = I.read(acc).k[0]
        nq = joinseq(orig, list(got.k))
        self.cap(I, nq)
        if not fallible: self.aborting(I, 'extend', loc, seq_len(got))
        self.event(I, 'grow', loc, kind, seq_len(got))
        I.write(loc, v.with_kid(0, nq))
        return None
    def prefix(self, I, loc, acc):
        """an interrupted extension keeps an unspecified prefix of its items"""
        v = I.read(loc)
        q = I.read(acc).k[0]
        n = seq_len(q)
        if n.isconst() and n.c() <= 1 and len(q.k) <= 1:
            c = n.c()
            j = I.choose(c + 1) if c else 0
            I.write(loc, v.with_kid(0, mkseq(list(v.k[0].k) + list(q.k) if j else list(v.k[0].k))))
            return
        if len(q.k) == 1 and q.k[0].t == 'seg':
            j = fresh('kept', 0, None)
            I.assume(le(j, n))
            I.write(loc, v.with_kid(0, mkseq(list(v.k[0].k) + [Seg(j, q.k[0].k[1])])))
            return
        if len(q.k) == 1 and q.k[0].t == 'flat':
            g, ln, t = q.k[0].k
            j = fresh('kept', 0, None); e = fresh('kept', 0, None)
            old = list(v.k[0].k)
            if I.choose(2) == 0:
                I.assume(le(j, g))
                I.write(loc, v.with_kid(0, mkseq(old + [Flat(j, ln, t)]))); return
            I.assume(lt(j, g)); I.assume(lt(e, subst_p(ln, {SUMBV.id: j})))
            I.write(loc, v.with_kid(0, mkseq(old + [Flat(j, ln, t), Seg(e, vsubst(t, {SUMBV.id: j}))]))); return
        js = range(len(q.k), -1, -1)
        if len(q.k) > 6 and 'unroll' in I.opts: js = (len(q.k), len(q.k) // 2, 0)     # refutation only
        for j in js:
            if j == 0 or I.choose(2) == 0:
                I.write(loc, v.with_kid(0, joinseq(v.k[0], list(q.k[:j]))))
                return
    def allocname(self, v):
        v2 = v
        if v2.t == 'term': return v2.m
        if v2.t == 'tup': return 'global'
        return 'unknown'
    def new_buf(self, I, kind, alloc, q): return buf((kind, alloc), q)

class Ctx:
    __slots__ = ('c', 'argtys', 'destty', 'body')
    def __init__(self, c, argtys, destty, body): self.c = c; self.argtys = argtys; self.destty = destty; self.body = body

INTRE = re.compile(r'^(?:core::num::)?(u8|u16|u32|u64|usize|u128|i8|i16|i32|i64|isize|i128)::(\w+)$')
PANICRE = re.compile(r'.*(core::panicking::|expect_failed|unwrap_failed|panic_fmt|panic_display|handle_alloc_error|capacity_overflow|_fail$|panic_explicit|begin_panic|panic_bounds|unreachable_display|process::abort|panic_cannot)')
NAT = {}
METH = {}
def nat(*names):
    def d(f):
        for n in names: NAT[n] = f
        return f
    return d
def meth(tr, *names):
    def d(f):
        for n in names: METH[(tr, n)] = f
        return f
    return d

# ---------------------------------------------------------------- misc natives
@nat(RANGEI + '::new')
def _(M, I, a, x): return Adt(RANGEI, 0, I.force(a[0]), I.force(a[1]), Bool(FALSE))
@nat(RANGEI + '::start', RANGEI + '::end')
def _(M, I, a, x):
    l = I.deref(a[0])
    return I.mkref(sub(l, 0 if cname(x) == 'start' else 1))
@nat(RANGE + '::contains', RANGEI + '::contains', RANGEFROM + '::contains', RANGETO + '::contains', 'core::ops::range::RangeToInclusive::contains')
def _(M, I, a, x):
    r = M.peel(I, a[0]); v = I.p(M.peel(I, a[1])); p = r.m[0]
    if p == RANGE: return Bool(band(le(I.p(r.k[0]), v), lt(v, I.p(r.k[1]))))
    if p == RANGEFROM: return Bool(le(I.p(r.k[0]), v))
    if p == RANGETO: return Bool(lt(v, I.p(r.k[0])))
    if p == RANGEI: return Bool(band(le(I.p(r.k[0]), v), le(v, I.p(r.k[1])), bnot(I.b(r.k[2])) if len(r.k) > 2 else TRUE))
    return Bool(le(v, I.p(r.k[0])))
@nat(RANGE + '::is_empty', RANGEI + '::is_empty')
def _(M, I, a, x):
    r = M.peel(I, a[0])
    if r.m[0] == RANGE: return Bool(bnot(lt(I.p(r.k[0]), I.p(r.k[1]))))
    return Bool(bor(bnot(le(I.p(r.k[0]), I.p(r.k[1]))), I.b(r.k[2]) if len(r.k) > 2 else FALSE))
@nat('core::mem::replace')
def _(M, I, a, x):
    l = M.loc(I, a[0]); o = I.read(l); I.write(l, a[1]); return o
@nat('core::mem::swap')
def _(M, I, a, x):
    l, r = M.loc(I, a[0]), M.loc(I, a[1])
    u, v = I.read(l), I.read(r); I.write(l, v); I.write(r, u); return UNIT
@nat('core::mem::take')
def _(M, I, a, x):
    l = M.loc(I, a[0]); o = I.read(l)
    ts = [t for t in x.c['args'] if isinstance(t, int)]
    I.write(l, M.default_of(I, ts[-1], x.body)); return o
@nat('core::mem::drop', 'core::mem::forget')
def _(M, I, a, x): return UNIT
@nat('core::mem::size_of')
def _(M, I, a, x):
    t = [t for t in x.c['args'] if isinstance(t, int)]
    ty = M.prog.types[t[0]] if t else None
    if ty and ty['k'] == 'int': return Int(P.const(ty['bits'] // 8))
    m = M.intmeta(I, t[0], x.body) if t else None
    if m: return Int(P.const(m[0] // 8))
    return Int(var('size_of ' + (ty['s'] if ty else '?'), 0, 1 << 40))
@nat('core::mem::align_of')
def _(M, I, a, x):
    t = [t for t in x.c['args'] if isinstance(t, int)]
    return Int(var('align_of ' + M.prog.types[t[0]]['s'], 1, 1 << 29))
@nat('core::hint::black_box', 'core::hint::must_use', 'core::convert::identity')
def _(M, I, a, x): return a[0]
@nat('core::hint::assert_unchecked', 'core::hint::cold_path', 'intrinsic:cold_path', 'intrinsic:assume')
def _(M, I, a, x): return UNIT
@nat('intrinsic:likely', 'intrinsic:unlikely', 'core::intrinsics::likely', 'core::intrinsics::unlikely', 'core::hint::likely', 'core::hint::unlikely')
def _(M, I, a, x): return a[0]
@nat('core::intrinsics::integer_min', 'intrinsic:integer_min')
def _(M, I, a, x): return a[0] if I.branch(le(I.p(a[0]), I.p(a[1]))) else a[1]
@nat('core::intrinsics::integer_max', 'intrinsic:integer_max')
def _(M, I, a, x): return a[1] if I.branch(le(I.p(a[0]), I.p(a[1]))) else a[0]
@meth('core::cmp::Ord', 'min', 'max')
def _(M, I, a, x):
    le_ = I.branch(le(I.p(a[0]), I.p(a[1])))
    if x.c['name'] == 'min': return a[0] if le_ else a[1]
    return a[1] if le_ else a[0]
for n in ('<usize as core::cmp::Ord>::min', '<usize as core::cmp::Ord>::max', 'core::cmp::min', 'core::cmp::max'):
    def _f(M, I, a, x, n=n):
        if a[0].t != 'int': return NotImplemented
        le_ = I.branch(le(I.p(a[0]), I.p(a[1])))
        if n.endswith('min'): return a[0] if le_ else a[1]
        return a[1] if le_ else a[0]
    NAT[n] = _f

@meth('core::default::Default', 'default')
def _(M, I, a, x):
    tid = x.c['self']
    if x.destty is not None: tid = x.destty
    return M.default_of(I, tid, x.body)
@nat('core::option::Option::unwrap_or_default')
def _(M, I, a, x):
    o = I.force(a[0])
    if o.m[1] == 1: return o.k[0]
    ts = [t for t in x.c['args'] if isinstance(t, int)]
    tid = x.destty if x.destty is not None else ts[-1]
    return M.default_of(I, tid, x.body)

@meth('core::clone::Clone', 'clone')
def _(M, I, a, x):
    return M.clone1(I, a[0])
@meth('alloc::borrow::ToOwned', 'to_owned')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t == 'slref': return buf(('vec', 'global'), M.sl_content(I, v))
    return M.clone1(I, a[0])
@meth('core::borrow::Borrow', 'borrow')
@meth('core::borrow::BorrowMut', 'borrow_mut')
@meth('core::convert::AsRef', 'as_ref')
@meth('core::convert::AsMut', 'as_mut')
@meth('core::ops::deref::Deref', 'deref')
@meth('core::ops::deref::DerefMut', 'deref_mut')
def _(M, I, a, x):
    loc = M.loc(I, a[0])
    v = I.force(I.read(loc))
    want_slice = True
    if x.destty is not None:
        ty = M.prog.types[x.destty]
        if ty['k'] == 'ref' and M.prog.types[ty['e']]['k'] not in ('slice', 'array'): want_slice = False
        if ty['k'] == 'ref' and M.prog.types[ty['e']]['k'] == 'array': want_slice = False
    if v.t in ('slref', 'ref'): return v
    if v.t in ('buf', 'arr') and want_slice:
        return I.slref((loc[0], loc[1] + ('q',), loc[2]), ZERO, seq_len(v.k[0]))
    if v.t == 'box' or v.t == 'adt' and v.m[0].endswith('::ManuallyDrop'): return I.mkref(sub(loc, 0))
    return a[0]

# comparisons
def veq(M, I, u, v):
    u = M.peel(I, u); v = M.peel(I, v)
    if u.t == 'int' or v.t == 'int' or (u.t == 'byte' and v.t == 'byte'):
        if u.t == 'byte' and v.t == 'byte': return I.binop('Eq', u, v).k[0]
        return eq(I.p(u), I.p(v))
    if u.t == 'bool' and v.t == 'bool': return bnot(bxor(u.k[0], v.k[0]))
    if u.t == 'str' and v.t == 'str': return bconst(u.m == v.m)
    if u.t == 'tup': return band(*[veq(M, I, p, q) for p, q in zip(u.k, v.k)])
    if u.t == 'adt' and v.t == 'adt' and u.m[0] == v.m[0]:
        if u.m[1] != v.m[1]: return FALSE
        b = M.crate_impl(I, 'core::cmp::PartialEq', 'eq', u)
        if b is None: return band(*[veq(M, I, p, q) for p, q in zip(u.k, v.k)])
    if u.t == 'term' and v.t == 'term':
        if u == v and False: return TRUE
        return batom('eq:%s:%s' % (u.m, v.m), tuple(k for k in u.k if isinstance(k, P)) + tuple(k for k in v.k if isinstance(k, P)))
    raise Undecided('comparison of %s and %s' % (u.t, v.t))
@meth('core::cmp::PartialEq', 'eq', 'ne')
def _(M, I, a, x):
    u, v = M.peel(I, a[0]), M.peel(I, a[1])
    if u.t in ('slref', 'buf', 'arr') and v.t in ('slref', 'buf', 'arr'):
        p, q = M.content(I, u), M.content(I, v)
        r = TRUE
        if not I.branch(eq(seq_len(p), seq_len(q))): r = FALSE
        else:
            with I.tmp(it('seq', p, ZERO, seq_len(p))) as l1, I.tmp(it('seq', q, ZERO, seq_len(q))) as l2, I.tmp(Bool(TRUE)) as res:
                def step():
                    s = M.next_at(I, l1)
                    if s is None: return False
                    t = M.next_at(I, l2)
                    if not I.branch(veq(M, I, s, t)):
                        I.write(res, Bool(FALSE)); return False
                    return True
                I.nloop(step, 'slice equality')
                r = I.read(res).k[0]
    else: r = veq(M, I, a[0], a[1])
    return Bool(r if x.c['name'] == 'eq' else bnot(r))
@meth('core::cmp::PartialOrd', 'lt', 'le', 'gt', 'ge')
def _(M, I, a, x):
    u, v = M.peel(I, a[0]), M.peel(I, a[1])
    return I.binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[x.c['name']], u, v)
@meth('core::cmp::Ord', 'cmp')
def _(M, I, a, x):
    u, v = I.p(M.peel(I, a[0])), I.p(M.peel(I, a[1]))
    if I.branch(lt(u, v)): return Adt('core::cmp::Ordering', 0)
    if I.branch(eq(u, v)): return Adt('core::cmp::Ordering', 1)
    return Adt('core::cmp::Ordering', 2)
@meth('core::cmp::PartialOrd', 'partial_cmp')
def _(M, I, a, x): return Some(METH[('core::cmp::Ord', 'cmp')](M, I, a, x))

OPS = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}
def _op(M, I, a, x):
    u, v = M.peel(I, a[0]), M.peel(I, a[1])
    op = OPS[x.c['name']]
    if op in ('Add', 'Sub', 'Mul'):
        m = u.m if u.t == 'int' else (8, False)
        z = {'Add': lambda: I.p(u) + I.p(v), 'Sub': lambda: I.p(u) - I.p(v), 'Mul': lambda: I.p(u) * I.p(v)}[op]()
        if not I.branch(I.in_rng(z, m)): raise Unwind('arithmetic overflow')
        return I.mk(z, m)
    if op in ('Div', 'Rem') and I.branch(eq(I.p(v), ZERO)): raise Unwind('division by zero')
    return I.binop(op, u, v)
for n, tr in (('bitand', 'BitAnd'), ('bitor', 'BitOr'), ('bitxor', 'BitXor'), ('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem'), ('shl', 'Shl'), ('shr', 'Shr')):
    METH[(tr, n)] = _op
def _opassign(M, I, a, x):
    l = M.loc(I, a[0])
    class X: pass
    y = Ctx(dict(x.c, name=x.c['name'].replace('_assign', '')), None, None, x.body)
    I.write(l, _op(M, I, [I.read(l), a[1]], y)); return UNIT
for n, tr in (('bitand', 'BitAnd'), ('bitor', 'BitOr'), ('bitxor', 'BitXor'), ('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem'), ('shl', 'Shl'), ('shr', 'Shr')):
    METH[(tr + 'Assign', n + '_assign')] = _opassign
@meth('Not', 'not')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t == 'bool': return Bool(bnot(v.k[0]))
    if v.t == 'byte': return Byte([bnot(b) for b in v.k])
    raise Undecided('not')

# conversions
def conv(M, I, v, m):
    v = M.peel(I, v)
    x = I.p(v)
    if I.branch(I.in_rng(x, m)): return Ok(I.mk(x, m))
    return Err(Term('TryFromIntError'))
@meth('core::convert::TryFrom', 'try_from')
def _(M, I, a, x):
    m = M.intmeta(I, x.c['self'], x.body)
    if m is None: return NotImplemented
    return conv(M, I, a[0], m)
@meth('core::convert::TryInto', 'try_into')
def _(M, I, a, x):
    ts = [t for t in x.c['args'] if isinstance(t, int)]
    m = M.intmeta(I, ts[-1], x.body)
    if m is None: return NotImplemented
    return conv(M, I, a[0], m)
@meth('core::convert::From', 'from')
def _(M, I, a, x):
    if x.destty is not None:
        t = M.prog.types[x.destty]
        v = I.force(a[0])
        if t['k'] == 'int':
            m = (t['bits'], t['signed'])
            if v.t == 'bool' and m == (8, False): return Byte([v.k[0]] + [FALSE] * 7)
            return I.mk(I.p(v), m)
        if t['k'] == 'adt' and t['path'] in ('alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc') and v.t in ('buf', 'arr'):
            return buf(('vec', 'global'), v.k[0])
    return NotImplemented
@meth('narrow::collection::owned::IntoOwned', 'into_owned')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'slref': return buf(('vec', 'global'), M.sl_content(I, v))
    if v.t == 'ref': return M.clone1(I, v)
    if v.t == 'adt' and v.m[0] == OPT: return v
    return v
@meth('narrow::collection::view::AsView', 'as_view')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t in ('arr',): return a[0]
    if v.t == 'buf': 
        loc = M.loc(I, a[0]); return I.slref((loc[0], loc[1] + ('q',), loc[2]), ZERO, seq_len(v.k[0]))
    return v
@meth('FnOnce', 'call_once')
@meth('FnMut', 'call_mut')
@meth('Fn', 'call')
def _(M, I, a, x): return M.call_fn(I, a)

# ---------------------------------------------------------------- slices / Vec
@nat('[T]::len', 'alloc::vec::Vec::len', 'alloc::collections::vec_deque::VecDeque::len')
def _(M, I, a, x): return Int(M.sl_len(I, a[0]))
@nat('[T]::is_empty', 'alloc::vec::Vec::is_empty')
def _(M, I, a, x): return Bool(eq(M.sl_len(I, a[0]), ZERO))
@nat('[T]::get', '[T]::get_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    i = I.force(a[1])
    r = M.sl_range(I, i, p[2])
    if r is not None:
        if not I.branch(r[0]): return NONE
        return Some(I.slref(p[0], p[1] + r[1], r[2] - r[1]))
    i = I.p(i)
    if not I.branch(lt(i, p[2])): return NONE
    return Some(M.sl_ref(p, i))
@nat('[T]::get_unchecked', '[T]::get_unchecked_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    i = I.p(a[1])
    if not I.branch(lt(i, p[2])): raise Undecided('unchecked access outside the slice')
    return M.sl_ref(p, i)
@nat('[T]::iter', '[T]::iter_mut')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0])
    return V('it:sref', (loc[0], loc[1]), tuple(loc[2]) + (st, st + n))
@nat('[T]::last', '[T]::last_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    if not I.branch(lt(ZERO, p[2])): return NONE
    return Some(M.sl_ref(p, p[2] - 1))
@nat('[T]::first', '[T]::first_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    if not I.branch(lt(ZERO, p[2])): return NONE
    return Some(M.sl_ref(p, ZERO))
@nat('[T]::split_first', '[T]::split_first_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    if not I.branch(lt(ZERO, p[2])): return NONE
    return Some(Tup(M.sl_ref(p, ZERO), I.slref(p[0], p[1] + 1, p[2] - 1)))
@nat('[T]::split_last', '[T]::split_last_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    if not I.branch(lt(ZERO, p[2])): return NONE
    return Some(Tup(M.sl_ref(p, p[2] - 1), I.slref(p[0], p[1], p[2] - 1)))
@nat('[T]::split_at', '[T]::split_at_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0]); i = I.p(a[1])
    if not I.branch(le(i, p[2])): raise Unwind('split_at out of bounds')
    return Tup(I.slref(p[0], p[1], i), I.slref(p[0], p[1] + i, p[2] - i))
@nat('[T]::to_vec', '[T]::into_vec')
def _(M, I, a, x):
    q = M.content(I, a[0])
    if x.c['q'].endswith('to_vec'): M.aborting(I, 'to_vec', None, seq_len(q))
    return buf(('vec', 'global'), q)
@nat('[T]::chunks', '[T]::chunks_exact')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0]); s = I.p(a[1])
    if I.branch(eq(s, ZERO)): raise Unwind('chunk size must be non-zero')
    return V('it:chunks', (loc[0], loc[1], x.c['q'].endswith('exact')), tuple(loc[2]) + (st, st + n, s))
@nat('[T]::windows')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0]); s = I.p(a[1])
    if I.branch(eq(s, ZERO)): raise Unwind('window size must be non-zero')
    return V('it:windows', (loc[0], loc[1]), tuple(loc[2]) + (st, st + n, s))
@nat('[T]::swap')
def _(M, I, a, x):
    p = M.as_slice(I, a[0]); i, j = I.p(a[1]), I.p(a[2])
    if not I.branch(lt(i, p[2])) or not I.branch(lt(j, p[2])): raise Unwind('index out of bounds')
    r1, r2 = M.loc(I, M.sl_ref(p, i)), M.loc(I, M.sl_ref(p, j))
    u, v = I.read(r1), I.read(r2); I.write(r1, v); I.write(r2, u); return UNIT
@nat('[T]::reverse')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0])
    b, r = I.seq_split(I.read(loc), st); m, e = I.seq_split(V('seq', (), tuple(r)), n)
    q = M.reversed(mkseq(m))
    if q is None: return NotImplemented
    I.write(loc, mkseq(b + list(q.k) + e)); return UNIT
@nat('[T]::rotate_left', '[T]::rotate_right')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0]); k = I.p(a[1])
    if not I.branch(le(k, n)): raise Unwind('rotation beyond the length')
    if (x.c.get('rq') or x.c.get('q')).endswith('right'): k = n - k
    b, r = I.seq_split(I.read(loc), st); m, e = I.seq_split(V('seq', (), tuple(r)), n)
    u, w = I.seq_split(V('seq', (), tuple(m)), k)
    I.write(loc, mkseq(b + w + u + e)); return UNIT
@nat('[T]::fill')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0])
    q = I.read(loc)
    b, r = I.seq_split(q, st); m, e = I.seq_split(V('seq', (), tuple(r)), n)
    I.write(loc, mkseq(b + [Seg(n, raised(a[1]))] + e)); return UNIT
@nat('[T]::copy_from_slice', '[T]::clone_from_slice')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0])
    src = M.content(I, a[1])
    if not I.branch(eq(n, seq_len(src))): raise Unwind('copy_from_slice length mismatch')
    q = I.read(loc)
    b, r = I.seq_split(q, st); m, e = I.seq_split(V('seq', (), tuple(r)), n)
    I.write(loc, mkseq(b + list(src.k) + e)); return UNIT
@nat('[T;N]::map')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'arr': raise Undecided('map of %s' % v.t)
    return V('arr', (), (map_seq(M, I, v.k[0], a[1]),))
def map_seq(M, I, q, f):
    with I.tmp(it('seq', q, ZERO, seq_len(q))) as l, I.tmp(f) as fl, I.tmp(V('arr', (), (EMPTY,))) as acc:
        M.drive(I, l, lambda e: M.push_at(I, acc, I.call_loc(fl, [e])), 'array map')
        return I.read(acc).k[0]
@nat('[T;N]::each_ref')
def _(M, I, a, x):
    loc, st, n = M.as_slice(I, a[0])
    return V('arr', (), (mkseq([Seg(n, V('ref', (loc[0], loc[1] + ('i',)), tuple(loc[2]) + (E,)))]),))
@nat('[T;N]::as_slice', '[T;N]::as_mut_slice', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice')
def _(M, I, a, x): return I.slref(*M.as_slice(I, a[0]))
@nat('core::array::from_fn', 'core::array::try_from_fn')
def _(M, I, a, x):
    n = None
    if x.destty is not None: n = arrlen(M, I, x.destty)
    if n is None:
        for t in x.c['args']:
            if isinstance(t, dict):
                if 'int' in t: n = P.const(int(t['int']))
                elif 'param' in t: n = var('const N', 0, USIZE)
    if n is None: raise Undecided('array length')
    with I.tmp(a[0]) as fl, I.tmp(Int(ZERO)) as c, I.tmp(V('arr', (), (EMPTY,))) as acc:
        def step():
            i = I.read(c).k[0]
            if not I.branch(lt(i, n)): return False
            M.push_at(I, acc, I.call_loc(fl, [Int(i)]))
            I.write(c, Int(i + 1)); return True
        I.nloop(step, 'array::from_fn')
        return I.read(acc)
def arrlen(M, I, tid):
    ty = M.prog.types[tid]
    if ty['k'] != 'array': return None
    n = ty['n']
    if isinstance(n, dict):
        if 'int' in n: return P.const(int(n['int']))
        if 'param' in n: return var('const N', 0, USIZE)
    if isinstance(n, int): return P.const(n)
    return None
@meth('Index', 'index')
@meth('IndexMut', 'index_mut')
def _(M, I, a, x):
    p = M.as_slice(I, a[0])
    i = I.force(a[1])
    r = M.sl_range(I, i, p[2])
    if r is not None:
        if not I.branch(r[0]): raise Unwind('slice index out of bounds')
        return I.slref(p[0], p[1] + r[1], r[2] - r[1])
    i = I.p(i)
    if not I.branch(lt(i, p[2])): raise Unwind('index out of bounds')
    return M.sl_ref(p, i)

@nat('alloc::vec::Vec::new')
def _(M, I, a, x): return buf(('vec', 'global'), EMPTY)
@nat('alloc::vec::Vec::with_capacity')
def _(M, I, a, x):
    M.event(I, 'alloc', 'with_capacity', None, I.p(a[0])); M.aborting(I, 'with_capacity', None, I.p(a[0]))
    return buf(('vec', 'global'), EMPTY)
@nat('alloc::vec::Vec::push')
def _(M, I, a, x):
    l = M.loc(I, a[0]); v = I.read(l)
    q = joinseq(v.k[0], [One(a[1])])
    M.cap(I, q); M.event(I, 'push', l, v.m); M.aborting(I, 'push', l, ONE)
    I.write(l, v.with_kid(0, q)); return UNIT
@nat('alloc::vec::Vec::pop')
def _(M, I, a, x):
    l = M.loc(I, a[0]); v = I.read(l)
    n = seq_len(v.k[0])
    if not I.branch(lt(ZERO, n)): return NONE
    e = I.seq_get(v.k[0], n - 1)
    b, r = I.seq_split(v.k[0], n - 1)
    I.write(l, v.with_kid(0, mkseq(b))); return Some(e)
@nat('alloc::vec::Vec::capacity')
def _(M, I, a, x):
    c = fresh('cap', 0, USIZE)
    I.assume(le(M.sl_len(I, a[0]), c))
    p = M.peel_loc(I, a[0])[0] if 'noabort' in M.opts else None
    if p is not None: M.has_room(I, p, c - M.sl_len(I, a[0]))
    return Int(c)
@nat('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact')
def _(M, I, a, x):
    M.event(I, 'alloc', 'reserve', M.loc(I, a[0]), I.p(a[1])); M.aborting(I, 'reserve', M.loc(I, a[0]), I.p(a[1])); return UNIT
@nat('alloc::vec::Vec::try_reserve', 'alloc::vec::Vec::try_reserve_exact')
def _(M, I, a, x):
    M.event(I, 'alloc', 'try_reserve', M.loc(I, a[0]), I.p(a[1]))
    if M.short(I): return Err(Term('TryReserveError'))
    M.has_room(I, M.loc(I, a[0]), I.p(a[1]))
    return Ok(UNIT)
def seq_truncate(M, I, l, n):
    v = I.read(l)
    q = v.k[0]
    if I.branch(lt(n, seq_len(q))):
        b, r = I.seq_split(q, n)
        I.write(l, v.with_kid(0, mkseq(b)))
@nat('alloc::vec::Vec::truncate')
def _(M, I, a, x):
    seq_truncate(M, I, M.loc(I, a[0]), I.p(a[1])); return UNIT
@nat('alloc::vec::Vec::clear')
def _(M, I, a, x):
    l = M.loc(I, a[0]); v = I.read(l); I.write(l, v.with_kid(0, EMPTY)); return UNIT
@nat('alloc::vec::Vec::resize')
def _(M, I, a, x):
    l = M.loc(I, a[0]); n = I.p(a[1]); v = I.read(l); ln = seq_len(v.k[0])
    if I.branch(lt(n, ln)): seq_truncate(M, I, l, n)
    else: M.aborting(I, 'resize', l, n - ln); I.write(l, v.with_kid(0, mkseq(list(v.k[0].k) + [Seg(n - ln, raised(a[2]))])))
    return UNIT
@nat('alloc::vec::Vec::extend_from_slice')
def _(M, I, a, x):
    l = M.loc(I, a[0]); v = I.read(l); q = M.content(I, a[1]); M.aborting(I, 'extend_from_slice', l, seq_len(q))
    I.write(l, v.with_kid(0, joinseq(v.k[0], list(q.k)))); return UNIT
@nat('alloc::vec::Vec::append')
def _(M, I, a, x):
    l = M.loc(I, a[0]); v = I.read(l); r = M.loc(I, a[1]); w = I.read(r); M.aborting(I, 'append', l, seq_len(w.k[0]))
    I.write(l, v.with_kid(0, joinseq(v.k[0], list(w.k[0].k)))); I.write(r, w.with_kid(0, EMPTY)); return UNIT
@nat('alloc::vec::Vec::into_boxed_slice')
def _(M, I, a, x):
    q = I.force(a[0]).k[0]; M.aborting(I, 'into_boxed_slice', None, seq_len(q))
    return buf(('box', 'global'), q)
@nat('alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::shrink_to')
def _(M, I, a, x): return UNIT

# ---------------------------------------------------------------- collections
NC = 'narrow::collection::'
@meth('narrow::length::Length', 'len')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t in ('buf', 'arr', 'slref'): return Int(M.sl_len(I, v))
    return NotImplemented
@meth('narrow::length::Length', 'is_empty')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t in ('buf', 'arr', 'slref'): return Bool(eq(M.sl_len(I, v), ZERO))
    return NotImplemented
@meth(NC + 'Collection', 'view', 'owned')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t not in ('buf', 'arr', 'slref'): return NotImplemented
    q = M.content(I, v); i = I.p(a[1])
    if not I.branch(lt(i, seq_len(q))): return NONE
    return Some(I.seq_get(q, i))
@meth(NC + 'Collection', 'iter_views')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t not in ('buf', 'arr', 'slref'): return NotImplemented
    q = M.content(I, v)
    return it('seq', q, ZERO, seq_len(q))
@meth(NC + 'Collection', 'into_iter_owned')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'slref': q = M.content(I, v)
    elif v.t in ('buf', 'arr'): q = v.k[0]
    else: return NotImplemented
    if M.opts.get('items_panic') and v.t == 'buf' and v.m[0] == 'opq' and len(q.k) == 1 and q.k[0].t == 'seg' and v.m[1] == M.opts['items_panic']:
        # iterating an item is the caller's code too
        return V('it:opq', ('item', False, True, 'any'), (vsubst(q.k[0].k[1], {EBV.id: S}), ZERO, q.k[0].k[0], FALSE))
    return it('seq', q, ZERO, seq_len(q))
def ctor_adt(M, I, x, name, args, tr):
    """static trait call on a crate type known only through the self type"""
    ty = M.prog.types[x.c['self']]
    if ty['k'] == 'adt' and ty['path'].startswith('narrow') and ty['path'] not in M.opts.get('contracts', ()):
        fe, im = M.prog.find_impl_fn(tr, name, ty['path'])
        if fe and fe['body'] is not None: return I.call_body(fe['body'], args)
    return NotImplemented
@meth(NC + 'CollectionAllocIn', 'with_capacity_in', 'try_with_capacity_in')
def _(M, I, a, x):
    r = ctor_adt(M, I, x, x.c['name'], a, NC + 'CollectionAllocIn')
    if r is not NotImplemented: return r
    tr = x.c['name'].startswith('try')
    M.event(I, 'alloc', x.c['name'], None, I.p(a[0]))
    v = buf(('opq', M.allocname(I.force(a[1]))), EMPTY)
    if not tr: M.aborting(I, 'with_capacity_in', None, I.p(a[0])); return v
    if M.short(I): return Err(Adt(ALLOCERR, 0))
    return Ok(v)
@meth(NC + 'CollectionAllocIn', 'from_iter_in', 'try_from_iter_in')
def _(M, I, a, x):
    r = ctor_adt(M, I, x, x.c['name'], a, NC + 'CollectionAllocIn')
    if r is not NotImplemented: return r
    itv = M.into_iter(I, a[0])
    kind = ('opq', M.allocname(I.force(a[1])))
    with I.tmp(buf(kind, EMPTY)) as l:
        e = M.buf_extend(I, l, itv, x.c['name'].startswith('try'))
        v = I.read(l)
    if x.c['name'].startswith('try'): return Ok(v) if e is None else Err(e)
    return v
@meth(FROMITER, 'from_iter')
def _(M, I, a, x):
    r = ctor_adt(M, I, x, 'from_iter', a, FROMITER)
    if r is not NotImplemented: return r
    return collect_to(M, I, M.into_iter(I, a[0]), x.c['self'], x.body)
@meth(NC + 'CollectionAlloc', 'with_capacity')
def _(M, I, a, x):
    r = ctor_adt(M, I, x, 'with_capacity_in', [a[0], Term('default')], NC + 'CollectionAllocIn')
    if r is not NotImplemented: return r
    M.event(I, 'alloc', 'with_capacity', None, I.p(a[0])); M.aborting(I, 'with_capacity', None, I.p(a[0]))
    return buf(('opq', 'default'), EMPTY)
@meth(EXTEND, 'extend')
def _(M, I, a, x):
    loc, v = M.peel_loc(I, a[0])
    if v.t != 'buf': return NotImplemented
    M.buf_extend(I, loc, M.into_iter(I, a[1]), False)
    return UNIT
@meth(NC + 'CollectionRealloc', 'try_extend')
def _(M, I, a, x):
    loc, v = M.peel_loc(I, a[0])
    if v.t != 'buf': return NotImplemented
    e = M.buf_extend(I, loc, M.into_iter(I, a[1]), True)
    return Ok(UNIT) if e is None else Err(e)
@meth(NC + 'CollectionRealloc', 'reserve')
def _(M, I, a, x):
    loc, v = M.peel_loc(I, a[0])
    if v.t != 'buf': return NotImplemented
    M.event(I, 'alloc', 'reserve', loc, I.p(a[1])); M.aborting(I, 'reserve', loc, I.p(a[1])); return UNIT
@meth(NC + 'CollectionRealloc', 'try_reserve')
def _(M, I, a, x):
    loc, v = M.peel_loc(I, a[0])
    if v.t != 'buf': return NotImplemented
    M.event(I, 'alloc', 'try_reserve', loc, I.p(a[1]))
    if M.short(I): return Err(Adt(ALLOCERR, 0))
    M.has_room(I, loc, I.p(a[1]))
    return Ok(UNIT)
@meth(NC + 'CollectionRealloc', 'truncate')
def _(M, I, a, x):
    loc, v = M.peel_loc(I, a[0])
    if v.t != 'buf': return NotImplemented
    seq_truncate(M, I, loc, I.p(a[1])); return UNIT
@meth(NC + 'CollectionRealloc', 'allocator')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t != 'buf': return NotImplemented
    return Term(v.m[1])

CONTRACT = {}
def _all_set(M, I, a, x):
    n = I.p(a[0])
    tr = (x.c.get('rq') or x.c['q']).split('::')[-1].startswith('try')
    if tr and M.short(I): return Err(Adt(ALLOCERR, 0))
    I.assume(le(n, P.const(8 * MEMMAX)))
    if not tr: M.aborting(I, 'all_set_in', None, n)
    v = buf(('opq', M.allocname(I.force(a[1]))), Seq(Seg(n, Bool(TRUE))))
    return Ok(v) if tr else v
CONTRACT[('narrow::bitmap::Bitmap', 'all_set_in')] = CONTRACT[('narrow::bitmap::Bitmap', 'try_all_set_in')] = _all_set

def _count_ones(M, I, a, x):
    v = M.peel(I, a[0]); r = ZERO
    for s in v.k[0].k:
        b = vsubst(s.k[1], {EBV.id: S})
        if s.t != 'seg' or b.t != 'bool': raise Undecided('set bits of %s' % s.t)
        r = r + psum(dom.b2i(b.k[0]), s.k[0])
    return Int(r)
CONTRACT[('narrow::bitmap::Bitmap', 'count_ones')] = _count_ones

# ---------------------------------------------------------------- iterators
@meth(INTO, 'into_iter')
def _(M, I, a, x): return M.into_iter(I, a[0])
@meth(ITER, 'next')
def _(M, I, a, x):
    r = M.next_at(I, M.iter_loc(I, a[0]))
    return NONE if r is None else Some(r)
@meth(ITER, 'nth')
def _(M, I, a, x):
    r = M.nth_at(I, M.iter_loc(I, a[0]), I.p(a[1]))
    return NONE if r is None else Some(r)
@meth('core::iter::traits::double_ended::DoubleEndedIterator', 'nth_back')
def _(M, I, a, x):
    r = M.nth_back_at(I, M.iter_loc(I, a[0]), I.p(a[1]))
    return NONE if r is None else Some(r)
@meth('core::iter::traits::double_ended::DoubleEndedIterator', 'next_back')
def _(M, I, a, x):
    r = M.next_back_at(I, M.iter_loc(I, a[0]))
    return NONE if r is None else Some(r)
@meth(ITER, 'size_hint')
def _(M, I, a, x):
    lo, hi = M.hint_at(I, M.iter_loc(I, a[0]))
    return Tup(Int(lo), NONE if hi is None else Some(Int(hi)))
@meth(EXACT, 'len')
def _(M, I, a, x): return Int(M.len_at(I, M.iter_loc(I, a[0])))
@meth(EXACT, 'is_empty')
def _(M, I, a, x): return Bool(eq(M.len_at(I, M.iter_loc(I, a[0])), ZERO))
@meth(ITER, 'by_ref')
def _(M, I, a, x): return a[0]
for n, k in (('map', 'map'), ('inspect', 'inspect'), ('filter', 'filter'), ('filter_map', 'filter_map'), ('map_while', 'map_while')):
    METH[(ITER, n)] = (lambda k: lambda M, I, a, x: it(k, I.force(a[0]), a[1]))(k)
METH[(ITER, 'take_while')] = lambda M, I, a, x: it('take_while', I.force(a[0]), a[1], FALSE)
METH[(ITER, 'scan')] = lambda M, I, a, x: it('scan', I.force(a[0]), a[1], a[2])
METH[(ITER, 'take')] = lambda M, I, a, x: it('take', I.force(a[0]), I.p(a[1]))
METH[(ITER, 'skip')] = lambda M, I, a, x: it('skip', I.force(a[0]), I.p(a[1]))
METH[(ITER, 'chain')] = lambda M, I, a, x: it('chain', Some(I.force(a[0])), Some(M.into_iter(I, a[1])))
METH[(ITER, 'zip')] = lambda M, I, a, x: it('zip', I.force(a[0]), M.into_iter(I, a[1]))
METH[(ITER, 'enumerate')] = lambda M, I, a, x: it('enum', I.force(a[0]), ZERO)
METH[(ITER, 'fuse')] = lambda M, I, a, x: it('fuse', Some(I.force(a[0])))
METH[(ITER, 'cloned')] = METH[(ITER, 'copied')] = lambda M, I, a, x: it('cloned', I.force(a[0]))
METH[(ITER, 'rev')] = lambda M, I, a, x: it('rev', I.force(a[0]))
METH[(ITER, 'peekable')] = lambda M, I, a, x: it('peek', I.force(a[0]), NONE)
@meth(ITER, 'flatten')
def _(M, I, a, x):
    n = ()
    v = I.force(a[0])
    o = find_opq(I, v)
    if o is not None and o.k[0].t == 'arr':
        n = (seq_len(o.k[0].k[0]),)
    return it('flatten', v, NONE, m=n)
def find_opq(I, v):
    for w in vwalk(v):
        if w.t == 'it:opq': return w
        if w.t == 'ref':
            try: y = I.read((w.m[0], w.m[1], w.k))
            except Undecided: continue
            r = find_opq(I, y)
            if r is not None: return r
    return None
@meth(ITER, 'flat_map')
def _(M, I, a, x): return it('flatten', it('map', I.force(a[0]), a[1]), NONE)
NAT['core::iter::sources::once::once'] = lambda M, I, a, x: it('opt', Some(a[0]))
NAT['core::iter::sources::empty::empty'] = lambda M, I, a, x: it('opt', NONE)
NAT['core::iter::sources::repeat_n::repeat_n'] = lambda M, I, a, x: it('repn', a[0], I.p(a[1]))
NAT['core::iter::sources::repeat::repeat'] = lambda M, I, a, x: it('repeat', a[0])
NAT['core::iter::sources::from_fn::from_fn'] = lambda M, I, a, x: it('from_fn', a[0])
NAT['core::iter::sources::successors::successors'] = lambda M, I, a, x: it('successors', a[0], a[1])
NAT['core::iter::adapters::zip::zip'] = lambda M, I, a, x: it('zip', M.into_iter(I, a[0]), M.into_iter(I, a[1]))
NAT['core::iter::sources::repeat_with::repeat_with'] = lambda M, I, a, x: it('map', it('repeat', UNIT), V('pyfn', (lambda I, _, f=a[0]: I.call_value(f, []),)))
@nat('core::iter::adapters::peekable::Peekable::peek')
def _(M, I, a, x):
    loc = M.loc(I, a[0])
    v = I.read(loc)
    if v.k[1].m[1] == 0:
        r = M.next_at(I, sub(loc, 0))
        v = I.read(loc)
        I.write(loc, v.with_kid(1, Some(NONE if r is None else Some(r))))
        v = I.read(loc)
    o = v.k[1].k[0]
    if o.m[1] == 0: return NONE
    return Some(I.mkref(sub(loc, 1, 0, 0)))
@nat('core::option::Option::iter', 'core::option::Option::iter_mut')
def _(M, I, a, x): return M.into_iter(I, a[0])

@meth(ITER, 'fold')
def _(M, I, a, x):
    with I.tmp(I.force(a[0])) as l, I.tmp(a[1]) as acc, I.tmp(a[2]) as f:
        def step(e):
            I.write(acc, I.call_loc(f, [I.read(acc), e]))
        M.drive(I, l, step, 'fold')
        return I.read(acc)
@meth(ITER, 'for_each')
def _(M, I, a, x):
    with I.tmp(I.force(a[0])) as l, I.tmp(a[1]) as f:
        def step(e): I.call_loc(f, [e])
        M.drive(I, l, step, 'for_each')
        return UNIT
@meth(ITER, 'try_for_each')
def _(M, I, a, x):
    loc = M.iter_loc(I, a[0])
    with I.tmp(a[1]) as f, I.tmp(NONE) as res:
        def step(e):
            r = I.force(I.call_loc(f, [e]))
            if r.m[0] == RES and r.m[1] == 1 or r.m[0] == OPT and r.m[1] == 0 or r.m[0] == CF and r.m[1] == 1:
                I.write(res, Some(r)); return False
            I.write(res, NONE)
        M.drive(I, loc, step, 'try_for_each')
        r = I.read(res)
        if r.m[1]: return r.k[0]
    t = M.prog.types[x.destty]['path'] if x.destty is not None else RES
    return {RES: Ok(UNIT), OPT: Some(UNIT), CF: Adt(CF, 0, UNIT)}[t]
@meth(ITER, 'try_fold')
def _(M, I, a, x):
    loc = M.iter_loc(I, a[0])
    t = M.prog.types[x.destty]['path'] if x.destty is not None else RES
    with I.tmp(a[1]) as acc, I.tmp(a[2]) as f, I.tmp(NONE) as res:
        def step(e):
            r = I.force(I.call_loc(f, [I.read(acc), e]))
            bad = r.m[0] == RES and r.m[1] == 1 or r.m[0] == OPT and r.m[1] == 0 or r.m[0] == CF and r.m[1] == 1
            if bad:
                I.write(res, Some(r)); return False
            I.write(acc, r.k[0])
        M.drive(I, loc, step, 'try_fold')
        r = I.read(res)
        if r.m[1]: return r.k[0]
        v = I.read(acc)
    return {RES: Ok(v), OPT: Some(v), CF: Adt(CF, 0, v)}[t]
def _anyall(M, I, a, x, neg):
    loc = M.iter_loc(I, a[0])
    with I.tmp(a[1]) as f, I.tmp(Bool(FALSE)) as res:
        def step(e):
            c = I.b(I.call_loc(f, [e]))
            if I.branch(bnot(c) if neg else c):
                I.write(res, Bool(TRUE)); return False
        M.drive(I, loc, step, 'all' if neg else 'any')
        r = I.read(res).k[0]
    return Bool(bnot(r) if neg else r)
METH[(ITER, 'any')] = lambda M, I, a, x: _anyall(M, I, a, x, False)
METH[(ITER, 'all')] = lambda M, I, a, x: _anyall(M, I, a, x, True)
@meth(ITER, 'position', 'find', 'find_map')
def _(M, I, a, x):
    loc = M.iter_loc(I, a[0]); nm = x.c['name']
    with I.tmp(a[1]) as f, I.tmp(NONE) as res, I.tmp(Int(ZERO)) as c:
        def step(e):
            if nm == 'find':
                with I.tmp(e) as t: ok = I.b(I.call_loc(f, [I.mkref(t)]))
                r = e
            elif nm == 'find_map':
                o = I.force(I.call_loc(f, [e]))
                ok = bconst(o.m[1]); r = o.k[0] if o.m[1] else None
            else:
                ok = I.b(I.call_loc(f, [e])); r = I.read(c)
            if I.branch(ok):
                I.write(res, Some(r)); return False
            I.write(c, Int(I.read(c).k[0] + 1))
        M.drive(I, loc, step, nm)
        return I.read(res)
@meth(ITER, 'count')
def _(M, I, a, x):
    with I.tmp(I.force(a[0])) as l, I.tmp(Int(ZERO)) as c:
        M.drive(I, l, lambda e: I.write(c, Int(I.read(c).k[0] + 1)), 'count')
        return I.read(c)
@meth(ITER, 'last')
def _(M, I, a, x):
    with I.tmp(I.force(a[0])) as l, I.tmp(NONE) as c:
        M.drive(I, l, lambda e: I.write(c, Some(e)), 'last')
        return I.read(c)
@meth(ITER, 'sum')
def _(M, I, a, x):
    ts = [t for t in x.c['args'] if isinstance(t, int)]
    m = M.intmeta(I, ts[-1], x.body)
    if m is None: return NotImplemented
    with I.tmp(I.force(a[0])) as l, I.tmp(I.mk(ZERO, m)) as acc:
        def step(e):
            z = I.p(I.read(acc)) + I.p(M.peel(I, e))
            if not I.branch(I.in_rng(z, m)): raise Unwind('sum overflow')
            I.write(acc, I.mk(z, m))
        M.drive(I, l, step, 'sum')
        return I.read(acc)
def collect_to(M, I, itv, tid, body):
    ty = M.prog.types[tid]
    if ty['k'] == 'adt':
        p = ty['path']
        if p in ('alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc', 'alloc::collections::vec_deque::VecDeque'):
            q = M.drain(I, itv); M.cap(I, q); M.aborting(I, 'collect', None, seq_len(q))
            return buf(('vec' if p.endswith('Vec') else 'box', 'global'), q)
        if p in (OPT, RES):
            inner = [t for t in ty['args'] if isinstance(t, int)][0]
            with I.tmp(itv) as l, I.tmp(V('arr', (), (EMPTY,))) as acc, I.tmp(NONE) as res:
                def step(e):
                    e = I.force(e)
                    if (p == OPT and e.m[1] == 0) or (p == RES and e.m[1] == 1):
                        I.write(res, Some(e)); return False
                    M.push_at(I, acc, e.k[0])
                M.drive(I, l, step, 'collect')
                r = I.read(res)
                if r.m[1]: return r.k[0]
                q = I.read(acc).k[0]
            c = collect_to(M, I, it('seq', q, ZERO, seq_len(q)), inner, body)
            return Some(c) if p == OPT else Ok(c)
        fe, im = M.prog.find_impl_fn(FROMITER, 'from_iter', p)
        if fe and fe['body'] is not None and p not in M.opts.get('contracts', ()): return I.call_body(fe['body'], [itv])
        if p not in M.opts.get('contracts', ()): raise Undecided('collect into %s' % p)
    if ty['k'] in ('param', 'alias') or ty['k'] == 'adt':
        with I.tmp(buf(('opq', 'default'), EMPTY)) as l:
            M.buf_extend(I, l, itv, False)
            return I.read(l)
    if ty['k'] == 'tuple' and not ty['f']:
        with I.tmp(itv) as l: M.drive(I, l, lambda e: None, 'collect')
        return UNIT
    raise Undecided('collect into %s' % ty['s'])
@meth(ITER, 'collect')
def _(M, I, a, x):
    ts = [t for t in x.c['args'] if isinstance(t, int)]
    tid = x.destty if x.destty is not None else ts[-1]
    return collect_to(M, I, I.force(a[0]), tid, x.body)
@nat('core::option::Option::copied', 'core::option::Option::cloned')
def _(M, I, a, x):
    o = I.force(a[0])
    if o.m[1] == 0: return NONE
    return Some(M.clone1(I, o.k[0]))
