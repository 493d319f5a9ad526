"""Abstract semantics of owned memory for the export side of the C data interface:
boxes, raw ownership, drop glue, unwinding, and the strings of a schema.

A heap object is a root ('heap', n) of the abstract store; the ghost ('own', n)
says who may free it: 'box' (an owning Box value), 'raw' (given up to a raw
pointer), 'freed'.  Caller storage carries an allocation tag own:<role>; dropping
it counts in ('dropped', tag)."""
from .ffimodels import *
from .ffimodels import FM, FNAT, FMETH, cname, nz, is_cstr, litbytes
from .models import NAT, METH

TEXP = 'narrow_ffi::export::ArrowArrayLayout'
EERR = 'narrow_ffi::export::ExportError'
DROP = 'core::ops::drop::Drop'
ENAT = {}
def enat(*names):
    def d(f):
        for n in names: ENAT[n] = f
        return f
    return d

def bx(n): return V('bx', (n,), (V('bxr', (), (hp(n),)),))
def hp(n): return V('ref', (('heap', n), ()), ())
def isheap(v): return v.t == 'ref' and isinstance(v.m[0], tuple) and v.m[0][0] == 'heap' and not v.m[1]

class EM(FM):
    """producing side"""
    def __init__(self, prog, opts=None):
        FM.__init__(self, prog, opts)
        self.nat.update(ENAT)
        self.expchild = None      # callback(I, name, args) for an opaque child layout
        self.ontake = None        # callback(I, n): ownership of a raw root is taken back
        self.violation = None     # callback(I, prop-kind, message)
    # ---- heap
    def newheap(self, I, val, tid, own='box'):
        st = I.st.store
        n = sum(1 for k in st if isinstance(k, tuple) and k[0] == 'own')
        st[('heap', n)] = val; st[('own', n)] = V('own', (own, tid))
        return n
    def free(self, I, n):
        own = I.st.store.get(('own', n))
        if own is None or own.m[0] == 'freed': self.violation(I, 'free', 'memory is freed twice'); raise DeadPath()
        I.st.store[('own', n)] = V('own', ('freed', own.m[1]))
        I.st.store.pop(('heap', n), None)
    def dead(self, I, root):
        if isinstance(root, tuple) and root[0] == 'heap' and ('own', root[1]) in I.st.store:
            self.violation(I, 'use', 'memory is used after it was freed'); raise DeadPath()
    def deref_other(self, I, v, loc):
        if v.t == 'bx': return (('heap', v.m[0]), (), ())
        if v.t == 'bxr': return (v.k[0].m[0], v.k[0].m[1], v.k[0].k)
        if v.t == 'ptrconst' and v.m[0] == 0: self.violation(I, 'use', 'a null pointer is dereferenced'); raise DeadPath()
        if v.t == 'cstring': return loc
        return FM.deref_other(self, I, v, loc)
    def ptr_cast(self, I, kind, v, ty):
        if v.t == 'bxr' and ty['k'] in ('ptr', 'ref'): return v.k[0]
        return v
    def mkadt(self, I, path, variant, xs, info=None): return FM.mkadt(self, I, path, variant, xs, info)
    # ---- drop glue
    def drop(self, I, fid, body, t):
        self.drop_at(I, I.place(fid, body, t[1]), t[2])
    def dropval(self, I, v, tid=None):
        with I.tmp(v) as l: self.drop_at(I, l, tid)
    def drop_at(self, I, loc, tid=None):
        if loc[0] in ('slice', 'val'): return
        v = I.force(I.read(loc)); t = v.t
        if t == 'bx':
            n = v.m[0]
            own = I.st.store.get(('own', n))
            if own is None or own.m[0] == 'freed': self.free(I, n)
            self.drop_at(I, (('heap', n), (), ()))
            self.free(I, n)
        elif t == 'cstring': self.free(I, v.m[0])
        elif t == 'adt':
            p = v.m[0]
            if p == 'core::mem::manually_drop::ManuallyDrop': return
            fe, im = self.prog.find_impl_fn(DROP, 'drop', p)
            if fe is not None and fe['body'] is not None:
                I.call_body(fe['body'], [I.mkref(loc)])
                v = I.force(I.read(loc))
            pre = loc[1]
            if v.m[1] or p in (OPT, RES): pre = pre + (('v', v.m[1]),)
            for i, k in enumerate(v.k):
                if self.holds(k): self.drop_at(I, (loc[0], pre + (('f', i),), loc[2]))
        elif t in ('tup', 'clo'):
            for i, k in enumerate(v.k):
                if self.holds(k): self.drop_at(I, (loc[0], loc[1] + (('f', i),), loc[2]))
        elif t in ('arr', 'buf'):
            if t == 'buf' and isinstance(v.m, tuple) and len(v.m) > 1 and str(v.m[1]).startswith('own:'):
                k = ('dropped', v.m[1])
                if k in I.st.store: self.violation(I, 'free', 'storage of the array is dropped twice'); raise DeadPath()
                I.st.store[k] = UNIT
                return
            q = v.k[0]
            if not any(self.holds(x) for s in q.k for x in s.k): return
            n = I.st.f.norm(seq_len(q))
            if not n.isconst(): raise Undecided('drop of an unknown number of owners')
            for i in range(n.c()): self.drop_at(I, (loc[0], loc[1] + ('q', 'i'), tuple(loc[2]) + (P.const(i),)))
    def holds(self, v):
        """v may own something"""
        if not isinstance(v, V): return False
        if v.t in ('ref', 'slref', 'fp', 'cstr', 'int', 'bool', 'byte', 'ptrconst', 'fn', 'pyfn', 'str', 'uninit'): return False
        if v.t in ('bx', 'cstring', 'ite'): return True
        if v.t == 'buf' and isinstance(v.m, tuple) and len(v.m) > 1 and str(v.m[1]).startswith('own:'): return True
        if v.t == 'adt' and v.m[0] in (ARR, SCH): return True
        if v.t == 'adt' and self.prog.find_impl_fn(DROP, 'drop', v.m[0])[0] is not None: return True
        return any(self.holds(k) for k in v.k)
    def default_of(self, I, tid, body):
        ty = self.prog.types[tid]
        if ty['k'] == 'array':
            n = ty['n']
            if isinstance(n, dict): n = n.get('int')
            if n is None: raise Undecided('default of %s' % ty['s'])
            return V('arr', (), (mkseq([One(self.default_of(I, ty['e'], body)) for _ in range(int(n))]),))
        if ty['k'] == 'ptr': return V('ptrconst', (0,))
        return FM.default_of(self, I, tid, body)
    def ptr_cmp(self, I, op, a, b):
        if op in ('Eq', 'Ne') and {a.t, b.t} <= {'ref', 'slref', 'cstr', 'ptrconst', 'pyref'} and 'ptrconst' in (a.t, b.t):
            r = a.t == b.t == 'ptrconst' and a.m == b.m
            return Bool(bconst(r if op == 'Eq' else not r))
        return FM.ptr_cmp(self, I, op, a, b)
    def assoc_const(self, I, c, ty, body):
        if c.get('utrait', '').endswith('::ArrowType') and c.get('uname') == 'FLAGS' and 'cbody' not in c:
            return Int(ZERO, 64, True)      # of a plain type: rule format-table
        return FM.assoc_const(self, I, c, ty, body)
    def call(self, I, c, args, argtys, destty, span):
        if c.get('trait') == TEXP and c.get('body') is None:
            r = self.expchild(I, c.get('name'), args)
            if r is not None: return r
            raise Undecided('%s of an unknown child' % c.get('name'))
        return FM.call(self, I, c, args, argtys, destty, span)

def isvec(I, p):
    try: x = I.read((p.m[0], p.m[1][:-1], p.k[:-2]))
    except Exception: return False
    return x.t == 'buf' and isinstance(x.m, tuple) and x.m[0] == 'vec'
# ------------------------------------------------------------------ boxes
def owned(M, x, i=0): return M.prog.types[x.argtys[i]]
@enat('alloc::boxed::Box::new')
def _(M, I, a, x): return bx(M.newheap(I, a[0], x.argtys[0]))
@enat('alloc::boxed::Box::into_raw', 'alloc::boxed::Box::leak')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'bx': return NotImplemented
    n = v.m[0]; o = I.st.store[('own', n)]
    if o.m[0] != 'box': M.violation(I, 'free', 'ownership is given up of memory that is not owned'); raise DeadPath()
    I.st.store[('own', n)] = V('own', ('raw', o.m[1]))
    return hp(n)
@enat('alloc::boxed::Box::from_raw')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'ptrconst': M.violation(I, 'free', 'a null pointer is turned into a box'); raise DeadPath()
    if not isheap(v): raise Undecided('box of %s' % v.t)
    n = v.m[0][1]
    o = I.st.store.get(('own', n))
    tid = M.prog.types[x.argtys[0]].get('e')
    if o is None: raise Undecided('box of unknown memory')
    if o.m[0] == 'freed': M.violation(I, 'free', 'private data is freed twice'); raise DeadPath()
    if o.m[0] == 'box': M.violation(I, 'free', 'a box is made of memory that is still owned'); raise DeadPath()
    if o.m[1] != tid and M.prog.tstr(o.m[1]) != M.prog.tstr(tid): M.violation(I, 'type', 'private data is freed as a type it was not created with'); raise DeadPath()
    if M.ontake: M.ontake(I, n)
    I.st.store[('own', n)] = V('own', ('box', o.m[1]))
    return bx(n)
@enat('<alloc::boxed::Box as core::ops::drop::Drop>::drop')
def _(M, I, a, x):
    v = M.peel1(I, a[0])
    if v.t != 'bx': return UNIT
    M.free(I, v.m[0]); return UNIT
@enat('core::mem::drop')
def _(M, I, a, x):
    M.dropval(I, a[0], x.argtys[0] if x.argtys else None); return UNIT
@enat('core::mem::forget')
def _(M, I, a, x): return UNIT
def sub_loc(v): return (v.m[0], v.m[1] + (('f', 0),), v.k)
@enat('core::mem::manually_drop::ManuallyDrop::new')
def _(M, I, a, x): return Adt('core::mem::manually_drop::ManuallyDrop', 0, a[0])
@enat('core::mem::manually_drop::ManuallyDrop::into_inner')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'adt': raise Undecided('ManuallyDrop::into_inner of %s' % v.t)
    return v.k[0]
@enat('core::mem::manually_drop::ManuallyDrop::take')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'ref': raise Undecided('ManuallyDrop::take of %s' % v.t)
    return I.read(sub_loc(v))
@enat('core::mem::manually_drop::ManuallyDrop::drop')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'ref': raise Undecided('ManuallyDrop::drop of %s' % v.t)
    M.drop_at(I, sub_loc(v)); return UNIT
@enat('core::ptr::drop_in_place')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'ref': raise Undecided('drop in place of %s' % v.t)
    M.drop_at(I, (v.m[0], v.m[1], v.k)); return UNIT
@enat('core::ptr::from_mut', 'core::ptr::from_ref')
def _(M, I, a, x): return a[0]
@enat('[T]::as_ptr', '[T]::as_mut_ptr', 'alloc::vec::Vec::as_ptr', 'alloc::vec::Vec::as_mut_ptr', '[T;N]::as_ptr', '[T;N]::as_mut_ptr')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'slref': v = I.slref(*M.as_slice(I, v))
    if isvec(I, v): I.st.store[('vecptr', v.m[0])] = UNIT      # heap contents stay put when the vector moves
    return v
@enat('*const T::add', '*mut T::add', '*const T::wrapping_add', '*mut T::wrapping_add')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'slref':
        n = I.p(a[1])
        return V('slref', v.m, v.k[:-2] + (v.k[-2] + n, v.k[-1] - n))
    return FNAT['*const T::add'](M, I, a, x)
@enat('<[T;N] as core::default::Default>::default', 'core::default::Default::default')
def _(M, I, a, x):
    if x.destty is None or M.prog.types[x.destty]['k'] != 'array': return NotImplemented
    return M.default_of(I, x.destty, x.body)
@enat('<[T;N] as core::convert::AsRef>::as_ref', '<[T;N] as core::convert::AsMut>::as_mut', '[T;N]::as_slice', '[T;N]::as_mut_slice', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice')
def _(M, I, a, x): return I.slref(*M.as_slice(I, a[0]))
@enat('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut')
def _(M, I, a, x):
    v = M.peel1(I, a[0])
    if v.t == 'bx': return hp(v.m[0])
    if v.t in ('arr', 'buf', 'slref'): return I.slref(*M.as_slice(I, a[0]))
    return NotImplemented
@enat('core::ptr::write', '*mut T::write')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'ref': raise Undecided('write through %s' % v.t)
    I.write((v.m[0], v.m[1], v.k), a[1]); return UNIT
@enat('*const T::read', '*mut T::read', 'core::ptr::read')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t == 'ref': return I.read((v.m[0], v.m[1], v.k))
    return FNAT['*const T::read'](M, I, a, x)
@enat('core::ptr::replace', '*mut T::replace')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t != 'ref': raise Undecided('write through %s' % v.t)
    l = (v.m[0], v.m[1], v.k); o = I.read(l); I.write(l, a[1]); return o

# ------------------------------------------------------------------ schema strings
@enat('core::fmt::rt::Argument::new_display')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t not in ('int',): raise Undecided('formatting of %s' % v.t)
    return V('fmtarg', (), (I.p(v),))
@enat('core::fmt::Arguments::new', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::from_str')
def _(M, I, a, x):
    t = litbytes(M, I, a[0])
    args = []
    if len(a) > 1:
        q = M.content(I, a[1]); n = I.st.f.norm(seq_len(q))
        if not n.isconst(): raise Undecided('format arguments')
        args = [I.force(I.seq_get(q, P.const(i))) for i in range(n.c())]
    if t is None: raise Undecided('format template')
    if cname(x) == 'from_str': return V('fmts', tuple(('l', bytes(t)) for _ in (0,)), ())
    out = []; ks = []; i = 0
    while i < len(t):
        b = t[i]
        if b == 0: break
        if b < 128: out.append(('l', bytes(t[i + 1:i + 1 + b]))); i += 1 + b
        elif b == 192:
            if len(ks) >= len(args): raise Undecided('format template')
            out.append(('d', len(ks))); ks.append(args[len(ks)].k[0]); i += 1
        else: raise Undecided('format template with options')
    return V('fmts', tuple(out), tuple(ks))
@enat('alloc::fmt::format', 'core::hint::must_use', 'alloc::fmt::format::format_inner')
def _(M, I, a, x): return a[0]
@enat('alloc::ffi::c_str::CString::new', 'alloc::ffi::CString::new')
def _(M, I, a, x):
    v = M.peel(I, a[0])
    if v.t == 'str': v = V('fmts', (('l', bytes(v.m)),), ())
    if v.t != 'fmts': raise Undecided('C string of %s' % v.t)
    if any(k == 'l' and 0 in b for k, b in v.m): return Err(Term('nul error'))
    n = M.newheap(I, v, None, 'box')
    return Ok(V('cstring', (n,)))
def cs_ref(M, I, v):
    v = M.peel1(I, v)
    if v.t == 'cstring': return hp(v.m[0])
    if v.t == 'fmts': return None
    if v.t == 'cstr': return v
    raise Undecided('C string of %s' % v.t)
@enat('<alloc::ffi::c_str::CString as core::ops::deref::Deref>::deref', 'alloc::ffi::c_str::CString::as_c_str', '<alloc::ffi::c_str::CString as core::convert::AsRef>::as_ref', '<alloc::ffi::c_str::CString as core::borrow::Borrow>::borrow')
def _(M, I, a, x): return cs_ref(M, I, a[0])
@enat('core::ffi::c_str::CStr::as_ptr')
def _(M, I, a, x):
    v = I.force(a[0])
    if isheap(v) : return v
    v = M.peel(I, v)
    if v.t == 'cstr': return v
    raise Undecided('address of %s' % v.t)
@enat('alloc::ffi::c_str::CString::into_raw')
def _(M, I, a, x):
    v = I.force(a[0]); n = v.m[0]
    I.st.store[('own', n)] = V('own', ('raw', None)); return hp(n)
@enat('alloc::ffi::c_str::CString::from_raw')
def _(M, I, a, x):
    v = I.force(a[0])
    if not isheap(v): raise Undecided('C string of %s' % v.t)
    n = v.m[0][1]; o = I.st.store[('own', n)]
    if o.m[0] != 'raw': M.violation(I, 'free', 'a C string is freed twice'); raise DeadPath()
    I.st.store[('own', n)] = V('own', ('box', None)); return V('cstring', (n,))
@enat('*const T::is_null', '*mut T::is_null')
def _(M, I, a, x):
    v = I.force(a[0])
    if v.t in ('cstr', 'bx', 'cstring'): return Bool(FALSE)
    if v.t == 'term' and str(v.m).startswith('any.'): return Bool(batom('null:' + v.m, v.k))
    return FNAT['*const T::is_null'](M, I, a, x)
