"""Abstract semantics of foreign memory for the C data interface crate.

A foreign pointer is a value fp(name)[index...]: the pointer stored in a field or
table of an imported structure.  What it points to is symbolic; every read
through it is an event that the obligation judges in the state of the read."""
from .harness import *
from .models import Models, NAT, METH, INTT, conv, it
from .dom import *
from . import dom
from .val import *
from .interp import Unwind, Undecided, DeadPath

ARR = 'narrow_ffi::ArrowArray'
SCH = 'narrow_ffi::ArrowSchema'
TIMPL = 'narrow_ffi::import::ImportLayout'
TNULLS = 'narrow_ffi::import::ImportNullability'
IERR = 'narrow_ffi::import::ImportError'
NONNULL = 'narrow::nullability::NonNullable'
NULLABLE = 'narrow::nullability::Nullable'
HUGE = P.const(1 << 80)
I64 = (-(1 << 63), (1 << 63) - 1)

def fp(name, *idx): return V('fp', (name,), tuple(topoly(i) for i in idx))
def isnull(v): return batom('null:' + v.m[0], v.k)
def i64(n): return V('int', (64, True), (n if isinstance(n, P) else var(n, *I64),))

FNAT = {}
def fnat(*names):
    def d(f):
        for n in names: FNAT[n] = f
        return f
    return d

class FM(Models):
    """reading side"""
    def __init__(self, prog, opts=None):
        Models.__init__(self, prog, opts)
        self.nat.update(FNAT); self.meth.update(FMETH)
        self.h = None                 # harness, for judging reads
        self.nulls = None             # implementation chosen for the Nulls parameter
        self.reads = None             # callback(I, kind, ...)
    # ---- typed views of foreign memory
    def tykind(self, I, tid, body):
        ty = self.prog.types[tid]
        if ty['k'] == 'ptr': return 'ptr'
        m = self.intmeta(I, tid, body)
        if m: return m
        if ty['k'] in ('param', 'alias'): return 'T'
        if ty['k'] == 'adt': return ty['path']
        return ty['s']
    def memroot(self, I, p, kind):
        """root holding what p points to, seen as elements of the given kind"""
        name, idx = p.m[0], p.k
        key = ('mem', name, idx, kind)
        if key in I.st.store: return key
        if kind == 'ptr':
            el = {'A.buffers': 'A.buf', 'A.children': 'A.child', 'S.children': 'S.child'}.get(name)
            if el is None: raise Undecided('pointer table behind %s' % name)
            t = fp(el, *(idx + (E,)))
        elif kind == (8, False): t = Byte([batom(name + '.bytes', idx + (E * 8 + j,)) for j in range(8)])
        elif kind == 'T': t = Term(name + '.items', *(idx + (E,)))
        elif isinstance(kind, tuple):
            lo, hi = I.rng(kind)
            t = V('int', kind, (app('%s.ints%d' % (name, kind[0]), idx + (E,), lo, hi),))
        else: raise Undecided('foreign memory of type %s' % (kind,))
        I.st.store[key] = Seq(Seg(HUGE, t))
        return key
    def structroot(self, I, p):
        key = ('str', p.m[0], p.k)
        if key not in I.st.store:
            if p.m[0] == 'A.child': I.st.store[key] = arrow_array(self.h, 'A.child', p.k)
            elif p.m[0] == 'S.child': I.st.store[key] = arrow_schema(self.h, 'S.child', p.k)
            else: raise Undecided('structure behind %s' % p.m[0])
        return key
    def deref_other(self, I, v, loc):
        if v.t == 'fp':
            if v.m[0] in ('A.child', 'S.child'):
                self.touch(I, v, 'struct', ONE)
                return (self.structroot(I, v), (), ())
            if v.m[0] in ('A.buffers', 'A.children', 'S.children'):
                # a single entry of a table
                self.touch(I, v, 'ptr', ONE)
                base, off = self.base(v)
                return (self.memroot(I, base, 'ptr'), ('i',), (off,))
            raise Undecided('dereference of foreign pointer %s' % v.m[0])
        if v.t == 'cstr': return ('val', v, ())
        return Models.deref_other(self, I, v, loc)
    def base(self, v):
        """(table pointer, element offset)"""
        if v.m[0] in ('A.buffers', 'A.children', 'S.children') and v.k:
            return fp(v.m[0]), v.k[0]
        return v, ZERO
    def touch(self, I, p, kind, n):
        if self.reads is None: raise Undecided('read of foreign memory %s' % p.m[0])
        self.reads(I, p, kind, n)
    # ---- pointer values
    def ptr_cmp(self, I, op, a, b):
        if op not in ('Eq', 'Ne'): return None
        for x, y in ((a, b), (b, a)):
            if y.t == 'ptrconst' and y.m[0] == 0:
                if x.t == 'fp': r = isnull(self.base(x)[0])
                elif x.t == 'ptrconst': r = bconst(x.m[0] == 0)
                else: r = FALSE
                return Bool(r if op == 'Eq' else bnot(r))
        return None
    # ---- constants of the nullability parameter
    def nullsimpl(self):
        for im in self.prog.impls_of(TNULLS):
            if self.prog.adt_of(im['self']) == self.nulls: return im
        raise Missing('%s for %s' % (TNULLS, self.nulls))
    def assoc_const(self, I, c, ty, body):
        u = c.get('uq', '')
        if c.get('utrait') == TNULLS and 'cbody' not in c:
            for e in self.nullsimpl()['assoc']:
                if e[0] == 'const' and e[1] == c.get('uname') and isinstance(e[2], dict): return I.const(None, body, e[2])
            raise Undecided('constant %s' % u)
        return None
    # ---- calls
    def call(self, I, c, args, argtys, destty, span):
        tr, nm = c.get('trait'), c.get('name')
        if tr == TNULLS and c.get('body') is None:
            for e in self.nullsimpl()['assoc']:
                if e[0] == 'fn' and e[1] == nm: return I.call_body(self.prog.fn_by_path[e[2]]['body'], args)
        if tr == TIMPL:
            if nm == 'matches_format':
                v = I.force(args[0])
                if v.t == 'cstr': return Bool(batom('fmt.match:' + v.m[0], v.k))
            elif c.get('body') is None:
                r = self.childcall(I, nm, args)
                if r is not None: return r
        h = getattr(self, 'summary', None)
        if h is not None:
            r = h(I, c, args, destty)
            if r is not None: return r
        return Models.call(self, I, c, args, argtys, destty, span)
    childcall = None

def arrow_array(h, p, idx=()):
    ix = tuple(idx)
    n = lambda f: app(p + '.' + f, ix, *I64) if ix else var(p + '.' + f, *I64)
    q = p if not ix else p
    vals = {f: V('int', (64, True), (n(f),)) for f in ('length', 'null_count', 'offset', 'n_buffers', 'n_children')}
    for f in ('buffers', 'children', 'dictionary', 'private_data'): vals[f] = fp('%s.%s' % (q, f), *ix)
    vals['release'] = Ite(batom(p + '.released', ix), NONE, Some(Term(p + '.release')))
    return h.struct(ARR, vals)

def arrow_schema(h, p, idx=()):
    ix = tuple(idx)
    n = lambda f, lo, hi: app(p + '.' + f, ix, lo, hi) if ix else var(p + '.' + f, lo, hi)
    vals = {'n_children': V('int', (64, True), (n('n_children', *I64),))}
    fl = n('flags.hi', -(1 << 61), (1 << 61) - 1) * 4 + b2i(batom(p + '.nullable', ix)) * 2 + b2i(batom(p + '.ordered', ix))
    vals['flags'] = V('int', (64, True), (fl,))
    for f in ('format', 'name', 'metadata', 'children', 'dictionary', 'private_data'): vals[f] = fp('%s.%s' % (p, f), *ix)
    vals['release'] = Ite(batom(p + '.released', ix), NONE, Some(Term(p + '.release')))
    return h.struct(SCH, vals)

# ------------------------------------------------------------------ pointers
@fnat('*const T::is_null', '*mut T::is_null')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'fp': return Bool(isnull(M.base(v)[0]))
    if v.t == 'ptrconst': return Bool(bconst(v.m[0] == 0))
    if v.t in ('ref', 'slref', 'buf', 'str', 'heap'): return Bool(FALSE)
    raise Undecided('is_null of %s' % v.t)
@fnat('*const T::cast', '*mut T::cast', '*const T::cast_mut', '*mut T::cast_const', '*const T::cast_const')
def _(M, I, a, x): return a[0]
@fnat('*const T::is_aligned', '*mut T::is_aligned')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'fp': raise Undecided('alignment of %s' % v.t)
    return Bool(M.aligned(I, v, M.ptrelem(x)))
@fnat('*const T::addr', '*mut T::addr', '*const T::expose_provenance', '*mut T::expose_provenance')
def _(M, I, a, x):
    return M.addr_of(I, I.force(a[0]))
@fnat('*const T::align_offset', '*mut T::align_offset')
def _(M, I, a, x):
    # a multiple of the size is asked for: zero exactly when aligned
    n = M.addr_of(I, I.force(a[0])); al = M.align(M.ptrelem(x))
    if I.st.f.norm(al - I.p(a[1])) != ZERO: raise Undecided('align_offset')
    r = I.idiv(I.p(n), I.p(a[1]), (64, False))[1]
    if I.branch(eq(r, ZERO)): return Int(ZERO)
    return Int(fresh('alignoff', 1, USIZE))
@fnat('*const T::add', '*mut T::add', '*const T::wrapping_add', '*mut T::wrapping_add')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'fp' and v.m[0] in ('A.buffers', 'A.children', 'S.children'):
        b, o = M.base(v)
        return fp(v.m[0], o + I.p(a[1]))
    n = I.st.f.norm(I.p(a[1]))
    if n.isconst() and n.c() == 0: return v
    raise Undecided('pointer arithmetic')
@fnat('*const T::read', '*mut T::read', 'core::ptr::read')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'fp': return NotImplemented
    return I.read(M.deref_other(I, v, None))
@fnat('*const T::as_ref', '*mut T::as_ref', '*mut T::as_mut')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'ptrconst' and v.m[0] == 0: return NONE
    if v.t in ('ref', 'slref'): return Some(v)
    if v.t != 'fp': raise Undecided('as_ref of %s' % v.t)
    if I.branch(isnull(M.base(v)[0])): return NONE
    return Some(I.mkref(M.deref_other(I, v, None)))
@fnat('core::ptr::non_null::NonNull::new')
def _(M, I, a, x):
    v = I.force(a[0])
    n = isnull(M.base(v)[0]) if v.t == 'fp' else bconst(v.t == 'ptrconst' and v.m[0] == 0)
    if I.branch(n): return NONE
    return Some(v)
@fnat('core::ptr::non_null::NonNull::as_ptr', 'core::ptr::non_null::NonNull::cast', 'core::ptr::non_null::NonNull::new_unchecked')
def _(M, I, a, x): return a[0]
@fnat('core::ptr::non_null::NonNull::as_ref')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t != 'fp': raise Undecided('NonNull::as_ref')
    return I.mkref(M.deref_other(I, v, None))
@fnat('core::slice::raw::from_raw_parts')
def _(M, I, a, x):
    v = I.force(a[0]); n = I.p(a[1])
    if v.t != 'fp': raise Undecided('from_raw_parts of %s' % v.t)
    ts = [t for t in (x.c.get('args') or ()) if isinstance(t, int)]
    kind = M.tykind(I, ts[0], x.body)
    base, off = M.base(v)
    M.touch(I, v, kind, n)
    return I.slref((M.memroot(I, base, kind), (), ()), off, n)
@fnat('core::ffi::c_str::CStr::from_ptr')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'fp': raise Undecided('C string of %s' % v.t)
    M.touch(I, v, 'cstr', ONE)
    return V('cstr', v.m, v.k)
@fnat('core::mem::align_of')
def _(M, I, a, x):
    ts = [t for t in x.c['args'] if isinstance(t, int)]
    return Int(M.align(M.tykind(I, ts[0], x.body)))
@fnat('core::ptr::null', 'core::ptr::null_mut')
def _(M, I, a, x): return V('ptrconst', (0,))
@fnat('core::ptr::dangling', 'core::ptr::dangling_mut', 'core::ptr::without_provenance', 'core::ptr::without_provenance_mut')
def _(M, I, a, x):
    if not a: return V('ptrconst', (8,))
    p = I.st.f.norm(I.p(a[0]))
    if not p.isconst(): raise Undecided('pointer of a computed address')
    return V('ptrconst', (p.c(),))

def _ptrelem(self, x):
    ts = [t for t in (x.c.get('args') or ()) if isinstance(t, int)]
    if ts: return self.tykind(None, ts[0], x.body)
    ty = self.prog.types[x.argtys[0]]
    return self.tykind(None, ty['e'], x.body)
FM.ptrelem = _ptrelem
def _align(self, kind):
    if kind == (8, False) or kind == (8, True): return ONE
    if isinstance(kind, tuple): return P.const(kind[0] // 8)
    return var('align_of %s' % (kind,), 1, 1 << 29)
FM.align = _align
def _aligned(self, I, v, kind):
    if kind in ((8, False), (8, True)): return TRUE
    k = 'align%d' % (kind[0] // 8) if isinstance(kind, tuple) else 'align:%s' % (kind,)
    return batom('%s:%s' % (k, v.m[0]), v.k)
FM.aligned = _aligned
def _addr_of(self, I, v):
    """the address as a number, tied to the alignment facts about the pointer"""
    if v.t != 'fp': raise Undecided('address of %s' % v.t)
    a = app('addr:%s' % v.m[0], v.k, 0, USIZE) if v.k else var('addr:%s' % v.m[0], 0, USIZE)
    I.assume(bnot(bxor(eq(a, ZERO), isnull(v))))
    if v.m[0] == 'A.buf':
        for kind in ('T', self.opaque_int()):
            al = I.st.f.norm(self.align(kind))
            if not al.isconst():
                # the element types of the interface have one of these alignments
                for c in (1, 2, 4, 8):
                    if c == 8: I.assume(eq(al, P.const(8)))
                    elif not I.branch(eq(al, P.const(c))): continue
                    al = P.const(c); break
            b = self.aligned(I, v, kind)
            if al.c() == 1: I.assume(b)
            else: I.assume(bnot(bxor(b, eq(I.divmod(a, al.c())[1], ZERO))))
    return Int(a)
FM.addr_of = _addr_of

def cname(x): return x.c.get('name') or (x.c.get('rq') or x.c['q']).split('::')[-1]
# ------------------------------------------------------------------ C strings
# V('cstr', ('S.format',)) foreign, V('cstr', ('lit', bytes)) literal, V('cstr', ('const', trait, type)) the constant of a type parameter
FMT = ('fmt',)
FMTLEN = var('format.len', 0, 1 << 40)
def fmtbyte(i): return app('format.byte', (topoly(i),), 1, 255)
def fmt_prefix(bs): return band(le(P.const(len(bs)), FMTLEN), *[eq(fmtbyte(P.const(i)), P.const(b)) for i, b in enumerate(bs)])
def fmt_is(bs): return band(eq(FMTLEN, P.const(len(bs))), fmt_prefix(bs))
def fmt_root(I):
    if FMT not in I.st.store: I.st.store[FMT] = Seq(Seg(FMTLEN, V('int', (8, False), (fmtbyte(E),))))
    return FMT
def dec_ok(a): return batom('format.decimal', (topoly(a),))
def dec_val(a): return app('format.value', (topoly(a),), 0, USIZE)
def nz(bs): return tuple(bs[:-1]) if bs and bs[-1] == 0 else tuple(bs)
def fmt_eq(u, v):
    for p, q in ((u, v), (v, u)):
        if p.m[0] == 'S.format':
            if q.m[0] == 'lit': return fmt_is(q.m[1])
            if q.m[0] == 'const': return batom('format.is:%s:%s' % q.m[1:], ())
    if u == v: return TRUE
    if u.m[0] == v.m[0] == 'lit': return bconst(u.m[1] == v.m[1])
    raise Undecided('comparison of formats')
def is_cstr(M, ty):
    return ty['k'] == 'ref' and M.prog.types[ty['e']].get('path') == 'core::ffi::c_str::CStr'
def _fmconst(self, I, c, ty, body):
    if is_cstr(self, ty):
        if 'bytes' in c: return V('cstr', ('lit', nz(c['bytes'])))
        if 'utrait' in c and 'cbody' not in c: return V('cstr', ('const', c['utrait'].split('::')[-1], self.prog.tstr(c['uself'])))
    return Models.const(self, I, c, ty, body)
FM.const = _fmconst
def litbytes(M, I, v):
    """bytes of a literal, or None"""
    v = I.force(v)
    for _ in range(4):
        if v.t != 'ref': break
        v = I.force(I.read((v.m[0], v.m[1], v.k)))
    if v.t == 'str': return tuple(v.m)
    if v.t in ('slref', 'arr', 'buf'):
        q = M.content(I, v)
        out = []
        for s in q.k:
            if s.t == 'one': e = s.k[0]
            else: return None
            n = I.st.f.norm(I.p(e))
            if not n.isconst(): return None
            out.append(n.c())
        return tuple(out)
    return None
@fnat('<core::ffi::c_str::CStr as core::cmp::PartialEq>::eq', '<core::ffi::c_str::CStr as core::cmp::PartialEq>::ne')
def _(M, I, a, x):
    r = fmt_eq(M.peel(I, a[0]), M.peel(I, a[1]))
    return Bool(r if cname(x) == 'eq' else bnot(r))
@fnat('core::ffi::c_str::CStr::to_bytes', 'core::ffi::c_str::CStr::to_str')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.m[0] == 'S.format': r = I.slref((fmt_root(I), (), ()), ZERO, FMTLEN)
    elif v.m[0] == 'lit': r = V('str', v.m[1])
    else: r = v
    if cname(x) == 'to_bytes': return r
    if v.m[0] == 'S.format' and I.branch(bnot(batom('format.utf8', ()))): return Err(Term('utf8 error'))
    return Ok(r)
@fnat('core::ffi::c_str::CStr::count_bytes')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.m[0] == 'S.format': return Int(FMTLEN)
    if v.m[0] == 'lit': return Int(P.const(len(v.m[1])))
    raise Undecided('length of %s' % (v.m,))
@fnat('core::str::as_bytes')
def _(M, I, a, x): return a[0]
def _fmt_view(M, I, v):
    v = M.peel(I, v)
    if v.t == 'slref' and v.m[0] == FMT: return v
    return None
@fnat('[T]::strip_prefix', 'core::str::strip_prefix', '[T]::starts_with', 'core::str::starts_with')
def _(M, I, a, x):
    v = _fmt_view(M, I, a[0]); p = litbytes(M, I, a[1])
    if v is None or p is None: raise Undecided('prefix of %s' % a[0].t)
    st, n = v.k[-2], v.k[-1]
    c = band(le(P.const(len(p)), n), *[eq(fmtbyte(st + i), P.const(b)) for i, b in enumerate(p)])
    if cname(x) == 'starts_with': return Bool(c)
    if not I.branch(c): return NONE
    return Some(I.slref((FMT, (), ()), st + len(p), n - len(p)))
@fnat('core::str::is_empty', 'core::str::len')
def _(M, I, a, x):
    n = M.sl_len(I, a[0])
    return Bool(eq(n, ZERO)) if cname(x) == 'is_empty' else Int(n)
@fnat('core::str::parse')
def _(M, I, a, x):
    v = _fmt_view(M, I, a[0])
    if v is None: raise Undecided('parse')
    ts = [t for t in (x.c.get('args') or ()) if isinstance(t, int)]
    if not ts or M.intmeta(I, ts[0], x.body) != (64, False): raise Undecided('parse of %s' % x.c)
    st, n = v.k[-2], v.k[-1]
    M.h.parsed = True
    if I.branch(band(lt(ZERO, n), dec_ok(st))): return Ok(Int(dec_val(st)))
    if I.branch(band(lt(ONE, n), eq(fmtbyte(st), P.const(43)), dec_ok(st + 1))): return Ok(Int(dec_val(st + 1)))
    return Err(Term('parse error'))
def _fold(M, I, a, x):
    """digits of the format folded by a step that is checked on every digit and every prefix"""
    loc = M.iter_loc(I, a[0]); v = I.force(I.read(loc))
    while v.t in ('it:copied', 'it:cloned'): v = I.force(v.k[0])
    if v.t != 'it:sref' or v.m[0] != FMT: return METH[('core::iter::traits::iterator::Iterator', 'try_fold')](M, I, a, x)
    st, end = v.k[-2], v.k[-1]
    if I.known(eq(end, FMTLEN)) is not True: raise Undecided('part of the digits')
    byref = I.force(I.read(loc)).t == 'it:sref'
    if I.known(eq(I.p(a[1]), ZERO)) is not True: raise Undecided('initial value of the digits')
    M.h.parsed = True
    if I.choose(2) == 1:
        acc = var('digits.acc', 0, USIZE); b = var('digits.byte', 1, 255)
        with I.tmp(V('int', (8, False), (b,))) as l, I.tmp(a[2]) as f:
            r = I.force(I.call_loc(f, [Int(acc), I.mkref(l) if byref else I.read(l)]))
            dig = band(le(P.const(48), b), le(b, P.const(57)))
            nxt = acc * 10 + b - 48
            good = band(dig, le(nxt, P.const(USIZE)))
            if is_none_like(r): M.h.check(I.st, bnot(good), 'every decimal digit that keeps the width representable is accepted')
            else:
                M.h.check(I.st, good, 'only decimal digits are accepted in the width')
                M.h.check(I.st, eq(I.p(r.k[0]), nxt), 'the width is read in decimal')
        raise DeadPath()
    if I.branch(dec_ok(st)): return {OPT: Some, RES: Ok}[M.prog.types[x.destty]['path']](Int(dec_val(st)))
    if M.prog.types[x.destty]['path'] == OPT: return NONE
    return Err(Term('digit error'))
def is_none_like(r): return r.t == 'adt' and (r.m[0] == OPT and r.m[1] == 0 or r.m[0] == RES and r.m[1] == 1)
FMETH = {('core::iter::traits::iterator::Iterator', 'try_fold'): _fold}
