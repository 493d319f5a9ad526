"""Obligations: for each property, what the abstract interpreter must establish
about which functions."""
from .obl import ob
from .harness import *
from .harness import V, E, S, DeadPath

OKP = 'core::result::Result'
def is_ok(v): return v.t == 'adt' and v.m == (OKP, 0)
def is_err(v): return v.t == 'adt' and v.m == (OKP, 1)
def some(v): return v.t == 'adt' and v.m[0] == OPT and v.m[1] == 1
def none(v): return v.t == 'adt' and v.m[0] == OPT and v.m[1] == 0
def up(h, v): return h.I.force(v) if isinstance(v, V) else v

def cases(h, outs, msg, fn, unwind=None):
    """fn(o, v) for each normal outcome with the result forced into cases"""
    for o in h.rets(outs, msg, unwind):
        def body(o=o):
            v = h.I.force(o.v)
            o2 = type('O', (), {})(); o2.v = v; o2.st = h.I.st; o2.k = 'ret'
            if is_ok(v) and any(e[0] == 'fail' for e in o.st.ev):
                h.checks += 1
                h.fail(h.I.st, 'an allocation error is swallowed')
                return
            fn(o2, v)
        h.in_state(o.st, body)

def variant(h, adt, name):
    """variant number of an error enum"""
    a = h.prog.adts.get(adt)
    if a is None: raise Missing(adt)
    for i, v in enumerate(h.prog.types[a['ty']]['variants']):
        if v['n'] == name: return i, [f[0] for f in v['f']]
    raise Missing('%s::%s' % (adt, name))

def err_is(h, o, v, adt, name, fields, msg):
    i, fs = variant(h, adt, name)
    e = v.k[0] if is_err(v) else v
    h.checks += 1
    if e.t != 'adt' or e.m != (adt, i):
        h.fail(o.st, '%s: returns %s instead of %s' % (msg, vstr(e)[:120], name))
        return
    for f, x in zip(fs, e.k):
        if f in fields: h.eqv(o.st, x, fields[f], '%s: field %s of %s' % (msg, f, name))

# ------------------------------------------------------------------ C01
BERR = 'narrow::bitmap::BitmapError'; OERR = 'narrow::offset::OffsetsError'
VERR = 'narrow::validity::ValidityError'; FERR = 'narrow::collection::flatten::FlattenError'

@ob('C01.bitmap.try_from_parts', 'C01', 'F04')
def _(h):
    st = h.st()
    b = h.bitmap(st, 'bm', inv=False)
    bu, bits, off = h.bm(b)
    nb = seq_len(bu.k[0])
    outs = h.run(st, h.inherent(BITMAP, 'try_from_parts'), [bu, Int(bits), Int(off)])
    fits = le(off + bits, nb * 8)
    def c(o, v):
        if is_ok(v):
            h.check(o.st, fits, 'accepted range lies inside the buffer')
            x = up(h, v.k[0]); b2, bi2, o2 = h.bm(x)
            h.eqv(o.st, b2, bu, 'stored buffer'); h.eqv(o.st, Int(bi2), Int(bits), 'stored bits'); h.eqv(o.st, Int(o2), Int(off), 'stored offset')
        else:
            h.check(o.st, bnot(fits), 'rejected range does not fit')
            err_is(h, o, v, BERR, 'OutOfBounds', {'offset': Int(off), 'bits': Int(bits), 'bytes': Int(nb)}, 'error')
    cases(h, outs, 'Bitmap::try_from_parts is total', c)

@ob('C01.bitmap.into_parts', 'C01')
def _(h):
    st = h.st(); b = h.bitmap(st, 'bm')
    bu, bits, off = h.bm(b)
    def c(o, v):
        h.eqv(o.st, v, Tup(bu, Int(bits), Int(off)), 'into_parts returns the parts')
    cases(h, h.run(st, h.inherent(BITMAP, 'into_parts'), [b]), 'into_parts is total', c)
    st = h.st(); b = h.bitmap(st, 'bm'); r = h.put(st, 'self', b)
    def c(o, v): h.eqv(o.st, v, Int(h.bm(b)[2]), 'bit_offset returns the offset')
    cases(h, h.run(st, h.inherent(BITMAP, 'bit_offset'), [r]), 'bit_offset is total', c)

@ob('C01.validity.parts', 'C01', 'F04')
def _(h):
    st = h.st()
    n = h.usize('c.len'); col = h.items('c', n)
    b = h.bitmap(st, 'b'); bits = h.bm(b)[1]
    outs = h.run(st, h.inherent(VALIDITY, 'try_from_parts'), [col, b])
    def c(o, v):
        if is_ok(v):
            h.check(o.st, eq(n, bits), 'accepted lengths are equal')
            x = up(h, v.k[0])
            h.eqv(o.st, h.get(x, 'collection', 0), col, 'stored collection')
            h.eqv(o.st, h.get(x, 'bitmap', 1), Some(b), 'stored bitmap')
        else:
            h.check(o.st, bnot(eq(n, bits)), 'rejected lengths differ')
            err_is(h, o, v, VERR, 'LengthMismatch', {'collection': Int(n), 'bitmap': Int(bits)}, 'error')
    cases(h, outs, 'Validity::try_from_parts is total', c)
    for sm in (True, False):
        st = h.st(); v0 = h.validity(st, sm)
        def c(o, v): h.eqv(o.st, v, Tup(h.get(v0, 'collection', 0), h.get(v0, 'bitmap', 1)), 'into_parts returns the parts')
        cases(h, h.run(st, h.inherent(VALIDITY, 'into_parts'), [v0]), 'into_parts is total', c)
    st = h.st(); col = h.items('c', h.usize('c.len'))
    def c(o, v):
        h.eqv(o.st, h.get(v, 'collection', 0), col, 'stored collection'); h.eqv(o.st, h.get(v, 'bitmap', 1), NONE, 'no bitmap')
    cases(h, h.run(st, h.inherent(VALIDITY, 'from_collection'), [col]), 'from_collection is total', c)

N_ = var('const N', 0, USIZE)

@ob('C01.flatten.parts', 'C01', 'F04')
def _(h):
    st = h.st()
    n = h.usize('c.len'); col = h.items('c', n)
    q = fresh('q', 0, None)
    outs = h.run(st, h.inherent(FLATTEN, 'try_from_parts'), [col])
    def c(o, v):
        if is_ok(v):
            h.check(o.st, lt(ZERO, N_), 'accepted width is not zero')
            h.check_multiple(n, N_, 'accepted child length is a multiple of the width')
            h.eqv(h.I.st, h.get(up(h, v.k[0]), '0', 0), col, 'stored child')
        else:
            i, _ = variant(h, FERR, 'ZeroChunkSize')
            if v.k[0].m == (FERR, i): h.check(o.st, eq(N_, ZERO), 'zero-width error only for width zero')
            else:
                err_is(h, o, v, FERR, 'NotMultiple', {'len': Int(n), 'n': Int(N_)}, 'error')
                h.check(o.st, lt(ZERO, N_), 'a zero width is reported as such')
                h.check_not_multiple(n, N_, 'rejected child length is not a multiple')
    cases(h, outs, 'Flatten::try_from_parts is total', c)
    st = h.st(); f = h.flatten(st)
    def c(o, v): h.eqv(o.st, v, h.get(f, '0', 0), 'into_parts returns the child')
    cases(h, h.run(st, h.inherent(FLATTEN, 'into_parts'), [f]), 'into_parts is total', c)

@ob('C01.offsets.parts', 'C01', 'F04', parts=[{'bits': 32}, {'bits': 64}])
def _(h, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st()
    n = h.usize('d.len'); d = h.items('d', n)
    m = h.usize('o.len', MEMMAX)
    at = lambda i: app('o', (topoly(i),), -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    os_ = buf(('opq', 'A'), Seq(Seg(m, h.offint(at(E)))))
    outs = h.run(st, h.inherent(OFFSETS, 'try_from_parts'), [d, os_])
    names = {}
    def c(o, v):
        if is_ok(v):
            s = h.I.st
            h.check(s, lt(ZERO, m), 'accepted offsets are not empty')
            h.check(s, eq(at(0), ZERO), 'accepted offsets start at zero')
            x = up(h, v.k[0])
            h.eqv(s, h.get(x, 'data', 0), d, 'stored data'); h.eqv(s, h.get(x, 'offsets', 1), os_, 'stored offsets')
            h.check(s, le(at(m - 1), n), 'accepted offsets end inside the data')
            q = fresh('q', 0, None)
            h.I.assume(lt(q, m))
            h.I.branch(eq(q, ZERO)); h.I.branch(eq(q, ONE))
            h.check(h.I.st, le(ZERO, at(q)), 'accepted offsets are not negative')
            h.I.assume(lt(q + 1, m))
            h.check(h.I.st, le(at(q), at(q + 1)), 'accepted offsets never decrease')
            return
        e = v.k[0]
        nm = h.prog.types[h.prog.adts[OERR]['ty']]['variants'][e.m[1]]['n']
        fs = dict(zip(variant(h, OERR, nm)[1], e.k))
        s = h.I.st
        g = lambda k: fs[k].k[0]
        if nm == 'Empty': h.check(s, eq(m, ZERO), 'Empty only for empty offsets')
        elif nm == 'NonZeroFirst':
            h.check(s, band(lt(ZERO, m), bnot(eq(at(0), ZERO))), 'NonZeroFirst only when the first offset is not zero')
            h.eqv(s, fs['first'], Int(at(0)), 'NonZeroFirst carries the first offset')
        elif nm == 'Negative':
            h.check(s, band(lt(g('index'), m), lt(at(g('index')), ZERO)), 'Negative names a negative offset')
        elif nm == 'NonMonotonic':
            i = g('index')
            h.check(s, band(lt(ZERO, i), lt(i, m), lt(at(i), at(i - 1))), 'NonMonotonic names a decreasing offset')
        elif nm == 'OutOfBounds':
            h.check(s, lt(ZERO, m), 'OutOfBounds needs an offset')
            h.eqv(s, fs['last'], Int(at(m - 1)), 'OutOfBounds carries the last offset'); h.eqv(s, fs['data'], Int(n), 'OutOfBounds carries the data length')
            h.check(s, lt(n, at(m - 1)), 'OutOfBounds only when the last offset exceeds the data')
        else: h.note('undecided', 'unknown error %s' % nm)
    cases(h, outs, 'Offsets::try_from_parts is total', c)
    st = h.st(); o_ = h.offsets(st)
    def c(o, v): h.eqv(o.st, v, Tup(h.get(o_, 'data', 0), h.get(o_, 'offsets', 1)), 'into_parts returns the parts')
    cases(h, h.run(st, h.inherent(OFFSETS, 'into_parts'), [o_]), 'into_parts is total', c)

# ------------------------------------------------------------ C03 / C04 / C05
def bit(pfx, p): return batom(pfx, (topoly(p),))
P8 = [{'a': a} for a in range(8)]
E8 = [{'e': e} for e in range(8)]
P64 = [{'a': a, 'e': e} for a in range(8) for e in range(8)]

def cut_bitmap(h, st, a=None, e=None, pfx='bm'):
    """a bitmap with offset 8Q+a and, when given, logical end 8q+e"""
    if a is None: b = h.bitmap(st, pfx)
    else: b = h.bitmap(st, pfx, off=h.usize(pfx + '.Q', MEMMAX) * 8 + a)
    bu, bits, off = h.bm(b)
    if e is not None:
        st.f.add(eq(off + bits, h.usize(pfx + '.e', MEMMAX) * 8 + e))
    return b

def run_len(h, st, adt, ref, exp, msg):
    """Length::len equals exp"""
    for o in h.rets(h.run(st.copy(), h.method(TLEN, 'len', adt), [ref]), 'len is total'):
        h.eqv(o.st, o.v, Int(exp), msg)

def positional(h, st, adt, ref, n, value, owned=None, which=('view', 'owned')):
    """view/owned: Some(value(i)) exactly below n, never a panic"""
    i = h.usize('i')
    for nm in which:
        b = h.method(TCOL, nm, adt)
        def c(o, v):
            if some(v):
                h.check(o.st, lt(i, n), '%s is Some only below the length' % nm)
                if value: value(o, v.k[0], i, nm)
            elif none(v): h.check(o.st, le(n, i), '%s is None only at or above the length' % nm)
            else: h.note('undecided', 'result %s' % vstr(v)[:100])
        cases(h, h.run(st.copy(), b, [ref, Int(i)]), '%s is total' % nm, c)

@ob('view.bitmap', 'C03', 'C04', 'C18', parts=P8)
def _(h, a):
    st = h.st(); b = cut_bitmap(h, st, a); r = h.put(st, 'self', b)
    bu, bits, off = h.bm(b)
    run_len(h, st, BITMAP, r, bits, 'the length of a bitmap is its bit count')
    positional(h, st, BITMAP, r, bits, lambda o, v, i, nm: h.eqv(o.st, v, Bool(bit('bm', off + i)), '%s reads bit offset + index' % nm))

def popcount(h, a, e, pfx='bm', neg=False):
    """number of set bits of cut_bitmap(a, e), byte by byte, in the current state"""
    I = h.I
    Q = h.usize(pfx + '.Q', MEMMAX); q = h.usize(pfx + '.e', MEMMAX)
    B1 = lambda p: dom.b2i(bit(pfx, p))
    if I.branch(eq(q, Q)):
        return sum((B1(Q * 8 + j) for j in range(a, e)), ZERO)
    s_ = P.atom(dom.SUMBV)
    body = sum((B1((s_ + Q + 1) * 8 + j) for j in range(8)), ZERO)
    return sum((B1(Q * 8 + j) for j in range(a, 8)), ZERO) + psum(body, q - Q - 1) + sum((B1(q * 8 + j) for j in range(e)), ZERO)

@ob('count.bitmap', 'C04', 'C18', 'F09', 'F12', parts=P64)
def _(h, a, e):
    st = h.st(); b = cut_bitmap(h, st, a, e); r = h.put(st, 'self', b)
    def c(o, v):
        h.eqv(h.I.st, v, Int(popcount(h, a, e)), 'count_ones is the number of set bits in range')
    cases(h, h.run(st, h.inherent(BITMAP, 'count_ones'), [r]), 'count_ones is total', c)

def val(h, v): return h.get(v, 'collection', 0), h.get(v, 'bitmap', 1)

def vitem(h, v, i):
    """item i of a nullable collection built by H.validity"""
    col, bmo = val(h, v)
    x = col.k[0].k[0].k[1]
    x = vsubst(x, {EBV.id: topoly(i)})
    if none(bmo): return Some(x)
    bu, bits, off = h.bm(bmo.k[0])
    return Ite(bit(bu.k[0].k[0].k[1].k[0].a[0] if False else 'vb', off + i), Some(x), NONE)

SM = [{'sm': True}, {'sm': False}]
@ob('view.validity', 'C03', 'C18', parts=SM)
def _(h, sm):
    st = h.st(); v0 = h.validity(st, sm); r = h.put(st, 'self', v0)
    col, bmo = val(h, v0)
    n = h.bm(bmo.k[0])[1] if sm else seq_len(col.k[0])
    run_len(h, st, VALIDITY, r, n, 'length of a nullable collection')
    def value(o, v, i, nm):
        w = h.I.force(v)
        if sm:
            off = h.bm(bmo.k[0])[2]
            if some(w): h.check(h.I.st, bit('vb', off + i), 'present item has its validity bit set')
            else: h.check(h.I.st, bnot(bit('vb', off + i)), 'absent item has its validity bit cleared')
        else: 
            if not some(w): h.fail(h.I.st, 'an item without stored validity reads as absent')
        if some(w):
            x = Term('v', i) if nm == 'view' else None
            if x is not None: h.eqv(h.I.st, w.k[0], x, 'the value at the index')
    positional(h, st, VALIDITY, r, n, value)
    for nm in ('is_valid', 'is_null'):
        i = h.usize('i')
        def c(o, v):
            if some(v):
                h.check(o.st, lt(i, n), '%s is Some only below the length' % nm)
                w = bit('vb', h.bm(bmo.k[0])[2] + i) if sm else TRUE
                h.eqv(o.st, v.k[0], Bool(w if nm == 'is_valid' else bnot(w)), '%s answers the validity bit' % nm)
            else: h.check(o.st, le(n, i), '%s is None only at or above the length' % nm)
        cases(h, h.run(st.copy(), h.method(TVB, nm, VALIDITY), [r, Int(i)]), '%s is total' % nm, c)

@ob('view.offsets', 'C03', 'C24', parts=[{'bits': 32}, {'bits': 64}])
def _(h, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'self', v0)
    n = h.usize('o.n', MEMMAX)
    run_len(h, st, OFFSETS, r, n, 'length of a list collection')
    ln = app('o.l', (S,), 0, None)
    def value(o, v, i, nm):
        if nm == 'view':
            h.eqv(o.st, h.get(v, 'start', 1), Int(psum(ln, i)), 'a list view starts at its offset')
            h.eqv(o.st, h.get(v, 'end', 2), Int(psum(ln, i + 1)), 'a list view ends at the next offset')
            h.eqv(o.st, h.I.read(h.M.loc(h.I, h.get(v, 'collection', 0))), v0, 'a list view refers to its collection')
        else:
            q = owned_seq(h, v)
            h.same_seq(h.I.st, q, Seq(Seg(app('o.l', (i,), 0, None), Term('o.d', psum(ln, i) + E))), 'the owned list')
    positional(h, st, OFFSETS, r, n, value)

def owned_seq(h, v):
    return h.M.content(h.I, v)

@ob('view.offsetview', 'C03', 'C24')
def _(h):
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'coll', v0)
    i = h.usize('list'); n = h.usize('o.n', MEMMAX)
    st.f.add(lt(i, n))
    ln = app('o.l', (S,), 0, None)
    a, b = psum(ln, i), psum(ln, i + 1)
    w = h.struct(OVIEW, {'collection': r, 'start': Int(a), 'end': Int(b)})
    s = h.put(st, 'self', w)
    L = app('o.l', (i,), 0, None)
    run_len(h, st, OVIEW, s, L, 'length of a list view is the offset difference')
    positional(h, st, OVIEW, s, L, lambda o, v, k, nm: h.eqv(o.st, v, Term('o.d', a + k), 'element of the list'), which=('view',))
    positional(h, st, OVIEW, s, L, None, which=('owned',))

def groups(h, st, n):
    """number of complete groups in n child items"""
    box = []
    def body(): box.append(h.I.idiv(n, N_, (64, False))[0])
    outs = h.I.explore(st, body)
    assert len(outs) == 1 and outs[0].k == 'ret'
    return outs[0].st, box[0]

@ob('view.flatten', 'C03', 'C23')
def _(h):
    st = h.st(); v0 = h.flatten(st); r = h.put(st, 'self', v0)
    n = h.usize('f.len')
    st.f.add(lt(ZERO, N_))
    st, g = groups(h, st, n)
    run_len(h, st, FLATTEN, r, g, 'length of a fixed-width grouping')
    def value(o, v, i, nm):
        if nm == 'view':
            h.same_seq(o.st, h.M.content(h.I, h.get(v, '0', 0)), Seq(Seg(N_, Term('f', i * N_ + E))), 'the group')
    positional(h, st, FLATTEN, r, g, value)

PLAIN = ['alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc', 'array', '&slice']
def plain(h, st, key, pfx='p'):
    """(self value, reference, length)"""
    n = h.usize(pfx + '.len', MEMMAX if False else USIZE)
    if key == 'array': n = N_
    q = Seq(Seg(n, Term(pfx, E)))
    if key == 'array': v = V('arr', (), (q,))
    else: v = buf({'alloc::vec::Vec': ('vec', 'global'), 'alloc::boxed::Box': ('box', 'global'), 'alloc::rcs::rc::Rc': ('rc', 'global'), 'alloc::rcs::arc::Arc': ('arc', 'global'), '&slice': ('vec', 'global')}[key], q)
    if key == '&slice':
        st.store['base'] = v
        v = h.I.slref(('base', (('f', 0),), ()), ZERO, n)
    return v, h.put(st, 'self', v), n

@ob('view.buffers', 'C03', parts=[{'key': k} for k in PLAIN])
def _(h, key):
    st = h.st(); v0, r, n = plain(h, st, key)
    run_len(h, st, key, r, n, 'length of a buffer')
    positional(h, st, key, r, n, lambda o, v, i, nm: h.eqv(o.st, v, Term('p', i), 'the element') if nm == 'view' else None)

# ------------------------------------------------------------------- C07 ...
def same_bits(h, st, v, old_bits, expect, msg, total=None, off=None, at='old'):
    """v is a valid bitmap; bit p reads expect(p) for every p below its length"""
    def body():
        I = h.I
        bu, bits, o = h.bm(I.force(v))
        q = I.force(bu).k[0]
        if total is not None and not h.eqv(I.st, Int(bits), Int(total), msg + ': length'): return
        h.check(I.st, le(o + bits, seq_len(q) * 8), msg + ': the bit range lies inside the buffer')
        if off is not None: h.eqv(I.st, Int(o), Int(off), msg + ': bit offset')
        r = fresh('r', 0, None)
        for j in range(8):
            def one(j=j):
                x = r * 8 + j
                I.assume(le(o, x)); I.assume(lt(x, o + bits))
                b = I.force(I.seq_get(q, r))
                if b.t != 'byte': h.note('undecided', 'byte %s' % vstr(b)[:100]); return
                want = expect(x - o)
                h.eqv(I.st, Bool(b.k[j]), Bool(want) if isinstance(want, B) else want, msg)
            h.in_state(I.st, one)
    h.in_state(st, body)

def self_of(h, o, key='self'):
    return o.st.store[key]

def bits_iter(h, st, name='it', **kw):
    return h.opq_iter(st, name, Bool(batom(name, (S,))), **kw)

def two(h, first, n1, second):
    """item p of the concatenation, deciding the case by branching"""
    def f(p):
        return first(p) if h.I.branch(lt(p, n1)) else second(p - n1)
    return f

def ext_bitmap(h, a, e, fallible, off0=False):
    st = h.st(); b = cut_bitmap(h, st, a, e); r = h.put(st, 'self', b)
    bu, bits, off = h.bm(b)
    it_, n = bits_iter(h, st)
    if fallible: body = h.method(TRE, 'try_extend', BITMAP)
    else: body = h.method('core::iter::traits::collect::Extend', 'extend', BITMAP)
    outs = h.run(st, body, [r, it_])
    return st, b, n, outs

@ob('C07.extend', 'C07', 'C16', 'C17', parts=E8)
def _(h, e):
    st, b, n, outs = ext_bitmap(h, None, e, False)
    bu, bits, off = h.bm(b)
    for o in h.rets(outs, 'extend does not panic'):
        same_bits(h, o.st, self_of(h, o), bits, two(h, lambda p: bit('bm', off + p), bits, lambda p: bit('it', p)), 'extend appends exactly the given bits', total=bits + n)

@ob('C07.try_extend', 'C07', 'C10', 'C16', 'C17', parts=E8, ev=('fail',))
def _(h, e):
    st, b, n, outs = ext_bitmap(h, None, e, True)
    bu, bits, off = h.bm(b)
    def c(o, v):
        w = self_of(h, o)
        if is_ok(v):
            same_bits(h, h.I.st, w, bits, two(h, lambda p: bit('bm', off + p), bits, lambda p: bit('it', p)), 'try_extend appends exactly the given bits', total=bits + n)
        else:
            same_bits(h, h.I.st, w, bits, lambda p: bit('bm', off + p), 'a failed try_extend changes nothing', total=bits)
    cases(h, outs, 'try_extend does not panic', c)

@ob('C12.bitmap', 'C12', parts=[dict(e=e, f=f) for e in range(8) for f in (False, True)])
def _(h, e, f):
    st = h.st(); b = cut_bitmap(h, st, None, e); r = h.put(st, 'self', b)
    bu, bits, off = h.bm(b)
    it_, n = bits_iter(h, st, panics=True)
    body = h.method(TRE, 'try_extend', BITMAP) if f else h.method('core::iter::traits::collect::Extend', 'extend', BITMAP)
    outs = h.run(st, body, [r, it_])
    for o in outs:
        if o.k == 'ret': continue
        if o.k == 'unwind' and 'iterator panicked' in str(o.v):
            w = self_of(h, o)
            h.check(o.st, le(bits, h.bm(w)[1]), 'an interrupted extension does not lose bits')
            same_bits(h, o.st, w, bits, two(h, lambda p: bit('bm', off + p), bits, lambda p: bit('it', p)), 'bits after an interrupted extension')
        else: h.never(o, 'extension does not panic by itself')

FI = 'core::iter::traits::collect::FromIterator'
EX = 'core::iter::traits::collect::Extend'
A_ = Term('A'); TWO = P.const(2)
def ctor(h, adt, form, it_, ty=None):
    """run from_iter / from_iter_in / try_from_iter_in"""
    if form == 'from_iter': return h.method(FI, 'from_iter', adt), [it_]
    return h.method(TAI, form, adt), [it_, A_]
FORMS = [{'form': f} for f in ('from_iter', 'from_iter_in', 'try_from_iter_in')]

@ob('C20.bitmap', 'C20', 'C10', 'C16', 'C17', parts=FORMS, ev=('fail',))
def _(h, form):
    st = h.st(); it_, n = bits_iter(h, st)
    body, args = ctor(h, BITMAP, form, it_)
    def c(o, v):
        if form.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        same_bits(h, h.I.st, v, ZERO, lambda p: bit('it', p), 'collected bits', total=n, off=ZERO)
    cases(h, h.run(st, body, args), 'collecting does not panic', c)

# ---------------------------------------------------- nullable collections
BC = ('narrow::bitmap::Bitmap',)
def opt_iter(h, st, name='it', **kw):
    return h.opq_iter(st, name, Ite(batom(name + '.p', (S,)), Some(Term(name, S)), NONE), **kw)

def vlen(h, v):
    """reported length"""
    col, bmo = val(h, v)
    return seq_len(col.k[0]) if none(bmo) else seq_len(bmo.k[0].k[0])

def voptions(h, st, w, expect, msg, total=None):
    """w reads expect(p) = (presence, value) at every position p; its values and
    validity have the same length"""
    def body():
        I = h.I
        col, bmo = val(h, I.force(w))
        bmo = I.force(bmo)
        if none(bmo): h.note('undecided', msg + ': no bitmap'); return
        b = I.force(bmo.k[0])
        n = seq_len(b.k[0])
        if total is not None: h.eqv(I.st, Int(n), Int(total), msg + ': length')
        h.check(I.st, eq(n, seq_len(I.force(col).k[0])), msg + ': one validity bit per value')
        p = fresh('pos', 0, None)
        I.assume(lt(p, n))
        pr, x = expect(p)
        got = I.seq_get(b.k[0], p)
        h.eqv(I.st, got, Bool(pr), msg + ': validity')
        if I.branch(pr):
            h.eqv(I.st, I.seq_get(I.force(col).k[0], p), x, msg + ': value')
    h.in_state(st, body)

@ob('C08.extend', 'C08', 'C16', 'C17', parts=SM, contracts=BC)
def _(h, sm):
    st = h.st(); v0 = h.cvalidity(st, sm); r = h.put(st, 'self', v0)
    k = vlen(h, v0)
    it_, n = opt_iter(h, st)
    outs = h.run(st, h.method(EX, 'extend', VALIDITY), [r, it_])
    old = lambda p: (batom('vb', (topoly(p),)) if sm else TRUE, Term('v', p))
    new = lambda p: (batom('it.p', (topoly(p),)), Term('it', p))
    for o in h.rets(outs, 'extend does not panic'):
        voptions(h, o.st, self_of(h, o), two(h, old, k, new), 'extend appends exactly the given items', total=k + n)

def v_old(sm): return lambda p: (batom('vb', (topoly(p),)) if sm else TRUE, Term('v', p))
v_new = lambda p: (batom('it.p', (topoly(p),)), Term('it', p))

@ob('C08.try_extend', 'C08', 'C10', 'C16', 'C17', parts=SM, contracts=BC, ev=('fail',))
def _(h, sm):
    st = h.st(); v0 = h.cvalidity(st, sm); r = h.put(st, 'self', v0)
    k = vlen(h, v0)
    it_, n = opt_iter(h, st)
    def c(o, v):
        w = self_of(h, o)
        if is_ok(v): voptions(h, h.I.st, w, two(h, v_old(sm), k, v_new), 'try_extend appends exactly the given items', total=k + n)
        else: vprefix(h, h.I.st, w, v_old(sm), k, 'a failed try_extend changes nothing')
    cases(h, h.run(st, h.method(TRE, 'try_extend', VALIDITY), [r, it_]), 'try_extend does not panic', c)

def vprefix(h, st, w, expect, total, msg, at_least=False):
    """like voptions, for any state between operations: spare values allowed"""
    def body():
        I = h.I
        col, bmo = val(h, I.force(w))
        bmo = I.force(bmo); q = I.force(col).k[0]
        n = seq_len(q) if none(bmo) else seq_len(I.force(bmo.k[0]).k[0])
        h.check(I.st, le(n, seq_len(q)), msg + ': every validity bit has a value')
        if at_least: h.check(I.st, le(total, n), msg + ': no item is lost')
        else: h.eqv(I.st, Int(n), Int(total), msg + ': length')
        p = fresh('pos', 0, None)
        I.assume(lt(p, n))
        pr, x = expect(p)
        if not none(bmo): h.eqv(I.st, I.seq_get(I.force(bmo.k[0]).k[0], p), Bool(pr), msg + ': validity')
        else: h.check(I.st, pr, msg + ': validity')
        if I.branch(pr): h.eqv(I.st, I.seq_get(q, p), x, msg + ': value')
    h.in_state(st, body)

@ob('C08.collect', 'C08', 'C20', 'C12', 'C10', 'C16', 'C17', parts=FORMS, contracts=BC, ev=('fail',))
def _(h, form):
    st = h.st(); it_, n = opt_iter(h, st)
    body, args = ctor(h, VALIDITY, form, it_)
    def c(o, v):
        if form.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        voptions(h, h.I.st, v, v_new, 'collected items', total=n)
    cases(h, h.run(st, body, args), 'collecting does not panic', c)

@ob('C12.validity', 'C12', parts=[dict(sm=s, f=f) for s in (True, False) for f in (False, True)], contracts=BC)
def _(h, sm, f):
    st = h.st(); v0 = h.cvalidity(st, sm); r = h.put(st, 'self', v0)
    k = vlen(h, v0)
    it_, n = opt_iter(h, st, panics=True)
    body = h.method(TRE, 'try_extend', VALIDITY) if f else h.method(EX, 'extend', VALIDITY)
    for o in h.run(st, body, [r, it_]):
        if o.k == 'ret': continue
        if o.k == 'unwind' and 'iterator panicked' in str(o.v):
            vprefix(h, o.st, self_of(h, o), two(h, v_old(sm), k, v_new), k, 'items after an interrupted extension', at_least=True)
        else: h.never(o, 'extension does not panic by itself')

# ------------------------------------------------------- list collections
O32 = [{'bits': 32}, {'bits': 64}]
def list_iter(h, st, name='it', **kw):
    ln = app(name + '.l', (S,), 0, USIZE)
    return h.opq_iter(st, name, buf(('opq', 'list'), Seq(Seg(ln, Term(name, S, E)))), **kw)
def olen(i): return app('o.l', (topoly(i),), 0, None)
def ilen(i): return app('it.l', (topoly(i),), 0, USIZE)

def lists_are(h, st, w, n_old, msg, n_new=None, at_least=False, exact=True):
    """w holds the old lists followed by the first n_new lists of the iterator"""
    def body():
        I = h.I
        d = I.force(h.get(I.force(w), 'data', 0)).k[0]; os_ = I.force(h.get(I.force(w), 'offsets', 1)).k[0]
        total = seq_len(os_) - 1
        if n_new is not None: h.eqv(I.st, Int(total), Int(n_old + n_new), msg + ': number of lists')
        elif at_least: h.check(I.st, le(n_old, total), msg + ': no list is lost')
        else: h.eqv(I.st, Int(total), Int(n_old), msg + ': number of lists')
        base = psum(app('o.l', (S,), 0, None), n_old)
        def off(p):
            x = I.force(I.seq_get(os_, p))
            return x.k[0]
        def first(): h.eqv(I.st, Int(off(ZERO)), Int(ZERO), msg + ': first offset')
        h.in_state(I.st, first)
        def old():
            i = fresh('list', 0, None); I.assume(lt(i, n_old))
            h.eqv(I.st, Int(off(i + 1)), Int(psum(app('o.l', (S,), 0, None), i + 1)), msg + ': offset of an earlier list')
            e = fresh('elem', 0, None); I.assume(lt(e, olen(i)))
            h.eqv(I.st, I.seq_get(d, psum(app('o.l', (S,), 0, None), i) + e), Term('o.d', psum(app('o.l', (S,), 0, None), i) + e), msg + ': element of an earlier list')
        h.in_state(I.st, old)
        def new():
            j = fresh('list', 0, None); I.assume(lt(n_old + j, total))
            start = base + psum(app('it.l', (S,), 0, USIZE), j)
            h.eqv(I.st, Int(off(n_old + j + 1)), Int(start + ilen(j)), msg + ': offset of an appended list')
            e = fresh('elem', 0, None); I.assume(lt(e, ilen(j)))
            h.eqv(I.st, I.seq_get(d, start + e), Term('it', j, e), msg + ': element of an appended list')
        h.in_state(I.st, new)
        # the last offset stays inside the data
        last = off(total)
        h.check(I.st, le(last, seq_len(d)), msg + ': offsets end inside the data')
        if exact: h.check(I.st, le(seq_len(d), last), msg + ': no unreferenced data')
    h.in_state(st, body)

def overflow(o): return 'overflow' in str(o.v) or 'expect' in str(o.v) or 'unwrap' in str(o.v)

@ob('C09.extend', 'C09', 'C16', 'C17', parts=O32)
def _(h, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'self', v0)
    n0 = h.usize('o.n', MEMMAX)
    it_, n = list_iter(h, st)
    hi = (1 << (bits - 1)) - 1
    for o in h.run(st, h.method(EX, 'extend', OFFSETS), [r, it_]):
        if o.k == 'ret': lists_are(h, o.st, self_of(h, o), n0, 'extend appends exactly the given lists', n_new=n)
        elif o.k == 'unwind' and overflow(o):
            # refusing is allowed only when the total does not fit the offset type
            tot = psum(app('o.l', (S,), 0, None), n0) + psum(app('it.l', (S,), 0, USIZE), n)
            h.check(o.st, lt(P.const(hi), tot), 'extend refuses only totals that do not fit')
            lists_are(h, o.st, self_of(h, o), n0, 'a refused extension', at_least=True, exact=False)
        else: h.never(o, 'extend does not panic')

@ob('C09.try_extend', 'C09', 'C10', 'C16', 'C17', parts=O32, ev=('fail',))
def _(h, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'self', v0)
    n0 = h.usize('o.n', MEMMAX)
    it_, n = list_iter(h, st)
    def c(o, v):
        w = self_of(h, o)
        if is_ok(v): lists_are(h, h.I.st, w, n0, 'try_extend appends exactly the given lists', n_new=n)
        else: lists_are(h, h.I.st, w, n0, 'a failed try_extend changes nothing')
    cases(h, h.run(st, h.method(TRE, 'try_extend', OFFSETS), [r, it_]), 'try_extend does not panic', c)

@ob('C09.collect', 'C09', 'C20', 'C12', 'C10', 'C16', 'C17', parts=[dict(f, **b) for f in FORMS for b in O32], ev=('fail',))
def _(h, form, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); it_, n = list_iter(h, st)
    # an overstated minimum may be refused, and more lists than memory has offsets for
    st.f.add(le(var('it.lo', 0, USIZE), n)); st.f.add(le(n, P.const(MEMMAX)))
    body, args = ctor(h, OFFSETS, form, it_)
    hi = (1 << (bits - 1)) - 1
    for o in h.run(st, body, args):
        if o.k == 'unwind' and overflow(o) and not form.startswith('try'):
            h.check(o.st, lt(P.const(hi), psum(app('it.l', (S,), 0, USIZE), n)), 'collecting refuses only totals that do not fit')
            continue
        if o.k != 'ret': h.never(o, 'collecting does not panic'); continue
        def go():
            v = h.I.force(o.v)
            if form.startswith('try'):
                if not is_ok(v): return
                v = up(h, v.k[0])
            lists_are(h, h.I.st, v, ZERO, 'collected lists', n_new=n)
        h.in_state(o.st, go)

@ob('C12.offsets', 'C12', parts=[dict(f=f, inner=i, **b) for f in (False, True) for b in O32 for i in (False, True)])
def _(h, f, bits, inner):
    h.M.opts['offset_bits'] = bits
    if inner: h.M.opts['items_panic'] = 'list'
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'self', v0)
    n0 = h.usize('o.n', MEMMAX)
    it_, n = list_iter(h, st, panics=not inner)
    body = h.method(TRE, 'try_extend', OFFSETS) if f else h.method(EX, 'extend', OFFSETS)
    for o in h.run(st, body, [r, it_]):
        if o.k == 'ret': continue
        if o.k == 'unwind' and ('iterator panicked' in str(o.v) or overflow(o) and not f):
            lists_are(h, o.st, self_of(h, o), n0, 'lists after an interrupted extension', at_least=True, exact=False)
        else: h.never(o, 'extension does not panic by itself')

# ----------------------------------------------------------- truncation
@ob('C13.bitmap', 'C13', parts=E8)
def _(h, e):
    st = h.st(); b = cut_bitmap(h, st, None, e); r = h.put(st, 'self', b)
    bu, bits, off = h.bm(b); k = h.usize('len')
    for o in h.rets(h.run(st, h.method(TRE, 'truncate', BITMAP), [r, Int(k)]), 'truncate never panics'):
        def go():
            n = h.bm(h.I.force(self_of(h, o)))[1]
            if h.I.branch(le(k, bits)): h.eqv(h.I.st, Int(n), Int(k), 'truncate shortens to the given length')
            else: h.eqv(h.I.st, Int(n), Int(bits), 'truncate beyond the length does nothing')
            same_bits(h, h.I.st, self_of(h, o), n, lambda p: bit('bm', off + p), 'bits after truncate', total=n)
        h.in_state(o.st, go)

@ob('C13.validity', 'C13', parts=SM, contracts=BC)
def _(h, sm):
    st = h.st(); v0 = h.cvalidity(st, sm); r = h.put(st, 'self', v0)
    n0 = vlen(h, v0); k = h.usize('len')
    for o in h.rets(h.run(st, h.method(TRE, 'truncate', VALIDITY), [r, Int(k)]), 'truncate never panics'):
        def go():
            short = h.I.branch(le(k, n0))
            vprefix(h, h.I.st, self_of(h, o), v_old(sm), k if short else n0, 'items after truncate')
            col, bmo = val(h, h.I.force(self_of(h, o)))
            if short: h.check(h.I.st, eq(seq_len(h.I.force(col).k[0]), k), 'truncate shortens values and validity together')
        h.in_state(o.st, go)

@ob('C13.offsets', 'C13', parts=O32)
def _(h, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'self', v0)
    n0 = h.usize('o.n', MEMMAX); k = h.usize('len')
    for o in h.rets(h.run(st, h.method(TRE, 'truncate', OFFSETS), [r, Int(k)]), 'truncate never panics'):
        def go():
            short = h.I.branch(lt(k, n0))
            prefix_lists(h, h.I.st, self_of(h, o), k if short else n0, 'lists after truncate', exact=short)
        h.in_state(o.st, go)

def prefix_lists(h, st, w, n, msg, exact=True):
    """w holds exactly the first n of the original lists"""
    def body():
        I = h.I
        d = I.force(h.get(I.force(w), 'data', 0)).k[0]; os_ = I.force(h.get(I.force(w), 'offsets', 1)).k[0]
        h.eqv(I.st, Int(seq_len(os_)), Int(n + 1), msg + ': number of lists')
        def off(p): return I.force(I.seq_get(os_, p)).k[0]
        h.in_state(I.st, lambda: h.eqv(I.st, Int(off(ZERO)), Int(ZERO), msg + ': first offset'))
        def old():
            i = fresh('list', 0, None); I.assume(lt(i, n))
            s = psum(app('o.l', (S,), 0, None), i)
            h.eqv(I.st, Int(off(i + 1)), Int(s + olen(i)), msg + ': offset')
            e = fresh('elem', 0, None); I.assume(lt(e, olen(i)))
            h.eqv(I.st, I.seq_get(d, s + e), Term('o.d', s + e), msg + ': element')
        h.in_state(I.st, old)
        last = psum(app('o.l', (S,), 0, None), n)
        h.check(I.st, le(last, seq_len(d)), msg + ': offsets end inside the data')
        if exact: h.check(I.st, le(seq_len(d), last), msg + ': elements of dropped lists are dropped')
    h.in_state(st, body)

def groups_are(h, st, w, n, expect, width, msg, extra=False):
    """w's child holds exactly n groups, element e of group i is expect(i, e)"""
    def body():
        I = h.I
        c = I.force(h.get(I.force(w), '0', 0)).k[0]
        total = n * width
        if extra: h.check(I.st, le(total, seq_len(c)), msg + ': child length')
        else: h.eqv(I.st, Int(seq_len(c)), Int(total), msg + ': child length')
        i = fresh('group', 0, None); e = fresh('item', 0, None)
        I.assume(lt(i, n)); I.assume(lt(e, width))
        want = expect(i, e)
        h.eqv(I.st, I.seq_get(c, i * width + e), want, msg + ': item of a group')
    h.in_state(st, body)

def two_groups(old, g, new):
    """groups: old below g, then new"""
    return lambda h, i, e: old(i, e) if h.I.branch(lt(i, g)) else new(i - g, e)

def grouping(h, st):
    """a grouping with g complete groups and a partial rest"""
    v0 = h.flatten(st); n = h.usize('f.len')
    st.f.add(lt(ZERO, N_))
    st, g = groups(h, st, n)
    return st, v0, g

@ob('C13.flatten', 'C13', 'C23')
def _(h):
    st = h.st(); st, v0, g = grouping(h, st); r = h.put(st, 'self', v0)
    k = h.usize('len')
    for o in h.rets(h.run(st, h.method(TRE, 'truncate', FLATTEN), [r, Int(k)]), 'truncate never panics'):
        def go():
            short = h.I.branch(lt(k, g))
            groups_are(h, h.I.st, self_of(h, o), k if short else g, lambda i, e: Term('f', i * N_ + e), N_, 'groups after truncate', extra=not short)
        h.in_state(o.st, go)

@ob('C13.vec', 'C13')
def _(h):
    st = h.st(); v0, r, n = plain(h, st, 'alloc::vec::Vec'); k = h.usize('len')
    for o in h.rets(h.run(st, h.method(TRE, 'truncate', 'alloc::vec::Vec'), [r, Int(k)]), 'truncate never panics'):
        def go():
            m = k if h.I.branch(lt(k, n)) else n
            h.same_seq(h.I.st, h.M.content(h.I, self_of(h, o)), Seq(Seg(m, Term('p', E))), 'items after truncate')
        h.in_state(o.st, go)

def arr_iter(h, st, name='it', **kw):
    """items are arrays of N elements"""
    h.hint_width = N_
    return h.opq_iter(st, name, V('arr', (), (Seq(Seg(N_, Term(name, S, E))),)), **kw)

@ob('C23.extend', 'C23', 'C10', 'C17', 'C16', parts=[{'f': False}, {'f': True}], ev=('fail',))
def _(h, f):
    st = h.st(); st, v0, g = grouping(h, st); r = h.put(st, 'self', v0)
    it_, n = arr_iter(h, st)
    old = lambda i, e: Term('f', i * N_ + e)
    def c(o, v):
        w = self_of(h, o)
        if f and is_err(v):
            groups_are(h, h.I.st, w, g, old, N_, 'a failed try_extend changes nothing', extra=True)
            return
        groups_are(h, h.I.st, w, g + n, lambda i, e: old(i, e) if h.I.branch(lt(i, g)) else Term('it', i - g, e), N_, 'extend appends exactly the given groups')
    body = h.method(TRE, 'try_extend', FLATTEN) if f else h.method(EX, 'extend', FLATTEN)
    cases(h, h.run(st, body, [r, it_]), 'extend does not panic', c)

@ob('C23.collect', 'C23', 'C20', 'C17', 'C16', 'C10', parts=FORMS, ev=('fail',))
def _(h, form):
    st = h.st(); st.f.add(lt(ZERO, N_))
    it_, n = arr_iter(h, st)
    body, args = ctor(h, FLATTEN, form, it_)
    def c(o, v):
        if form.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        groups_are(h, h.I.st, v, n, lambda i, e: Term('it', i, e), N_, 'collected groups')
    cases(h, h.run(st, body, args), 'collecting does not panic', c)

@ob('C12.flatten', 'C12', 'C23', parts=[{'f': False}, {'f': True}])
def _(h, f):
    st = h.st(); st, v0, g = grouping(h, st); r = h.put(st, 'self', v0)
    it_, n = arr_iter(h, st, panics=True)
    old = lambda i, e: Term('f', i * N_ + e)
    body = h.method(TRE, 'try_extend', FLATTEN) if f else h.method(EX, 'extend', FLATTEN)
    for o in h.run(st, body, [r, it_]):
        if o.k == 'ret': continue
        if o.k == 'unwind' and 'iterator panicked' in str(o.v):
            def go():
                I = h.I
                c = I.force(h.get(I.force(self_of(h, o)), '0', 0)).k[0]
                h.check(I.st, le(g * N_, seq_len(c)), 'an interrupted extension does not lose groups')
                i = fresh('group', 0, None); e = fresh('item', 0, None)
                I.assume(lt(i, g)) if I.choose(2) == 0 else I.assume(le(g, i))
                I.assume(lt(e, N_)); I.assume(le(i * N_ + N_, seq_len(c)))
                want = old(i, e) if I.known(lt(i, g)) is True else Term('it', i - g, e)
                for x in c.k:
                    if x.t == 'flat' and not I.branch(lt(i, g + x.k[0])) and I.st.f.infeasible(): raise DeadPath
                h.eqv(I.st, I.seq_get(c, i * N_ + e), want, 'groups after an interrupted extension')
            h.in_state(o.st, go)
        else: h.never(o, 'extension does not panic by itself')

@ob('C20.vec', 'C20', 'C10', 'C17', 'C16', parts=[dict(key=k, form=f) for k in ('alloc::vec::Vec', 'alloc::boxed::Box') for f in ('from_iter_in', 'try_from_iter_in')], ev=('fail',))
def _(h, key, form):
    st = h.st()
    it_, n = h.opq_iter(st, 'it', Term('it', S))
    def c(o, v):
        if form.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        h.same_seq(h.I.st, h.M.content(h.I, v), Seq(Seg(n, Term('it', E))), 'collected items')
    cases(h, h.run(st, h.method(TAI, form, key), [it_, UNIT]), 'collecting does not panic', c)

@ob('C10.vec', 'C10', 'C17', 'C16', ev=('fail',))
def _(h):
    st = h.st(); v0, r, k = plain(h, st, 'alloc::vec::Vec')
    it_, n = h.opq_iter(st, 'it', Term('it', S))
    def c(o, v):
        got = h.M.content(h.I, self_of(h, o))
        if is_ok(v): h.same_seq(h.I.st, got, Seq(Seg(k, Term('p', E)), Seg(n, Term('it', E))), 'try_extend appends exactly the given items')
        else: h.same_seq(h.I.st, got, Seq(Seg(k, Term('p', E))), 'a failed try_extend changes nothing')
    cases(h, h.run(st, h.method(TRE, 'try_extend', 'alloc::vec::Vec'), [r, it_]), 'try_extend does not panic', c)

# ------------------------------------------------------------- capacity
def room(o, field=None):
    """amounts requested on this path from the buffers under a field of self"""
    out = []
    for e in o.st.ev:
        if e[0] != 'alloc': continue
        if field is not None and (e[2] is None or not e[2][1] or e[2][1][0] != ('f', field)): continue
        out.append(e[3])
    return out

def enough(h, o, st, have, need, amounts, msg):
    """the buffer ends up with room for need (in items), given have"""
    h.check(st, bor(le(need, have), *[le(need, have + a) for a in amounts]), msg)

def modest(h, o, need, msg):
    """no request is out of proportion: an oversized one fails although there is room"""
    h.check(o.st, band(*[le(a, need + need + 64) for a in room(o)]), msg)

RES = [{'name': n} for n in ('reserve', 'try_reserve')]
@ob('C15.bitmap', 'C15', 'C10', parts=[dict(r, **e) for r in RES for e in E8], ev=('alloc', 'fail'))
def _(h, name, e):
    st = h.st(); b = cut_bitmap(h, st, None, e); r = h.put(st, 'self', b)
    bu, bits, off = h.bm(b); nb = seq_len(bu.k[0]); k = h.usize('more')
    def c(o, v):
        same_bits(h, h.I.st, self_of(h, o), bits, lambda p: bit('bm', off + p), '%s changes no bits' % name, total=bits)
        modest(h, o, nb + k, '%s asks for no more than a multiple of what is needed' % name)
        if is_err(v): return
        h.check(h.I.st, bor(le(off + bits + k, nb * 8), *[le(off + bits + k, (nb + a) * 8) for a in room(o)]), '%s asks for enough bytes' % name)
    cases(h, h.run(st, h.method(TRE, name, BITMAP), [r, Int(k)]), '%s does not panic' % name, c)

@ob('C15.validity', 'C15', 'C10', parts=[dict(r, **e) for r in RES for e in SM], contracts=BC, ev=('alloc', 'fail'))
def _(h, name, sm):
    st = h.st(); v0 = h.cvalidity(st, sm); r = h.put(st, 'self', v0)
    n0 = vlen(h, v0); k = h.usize('more')
    ci, bi = h.fidx(VALIDITY, 'collection', 0), h.fidx(VALIDITY, 'bitmap', 1)
    def c(o, v):
        vprefix(h, h.I.st, self_of(h, o), v_old(sm), n0, '%s changes no items' % name)
        modest(h, o, n0 + k, '%s asks for no more than a multiple of what is needed' % name)
        if is_err(v): return
        nv = h.usize('v.len')
        enough(h, o, h.I.st, nv, n0 + k, room(o, ci), '%s asks for enough values' % name)
        enough(h, o, h.I.st, n0, n0 + k, room(o, bi), '%s asks for enough validity bits' % name)
    cases(h, h.run(st, h.method(TRE, name, VALIDITY), [r, Int(k)]), '%s does not panic' % name, c)

@ob('C15.offsets', 'C15', 'C10', parts=[dict(r, **e) for r in RES for e in O32], ev=('alloc', 'fail'))
def _(h, name, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); r = h.put(st, 'self', v0)
    n0 = h.usize('o.n', MEMMAX); k = h.usize('more')
    di, oi = h.fidx(OFFSETS, 'data', 0), h.fidx(OFFSETS, 'offsets', 1)
    def c(o, v):
        prefix_lists(h, h.I.st, self_of(h, o), n0, '%s changes no lists' % name, exact=False)
        modest(h, o, psum(app('o.l', (S,), 0, None), n0) + n0 + k, '%s asks for no more than a multiple of what is needed' % name)
        if is_err(v): return
        enough(h, o, h.I.st, n0 + 1, n0 + 1 + k, room(o, oi), '%s asks for enough offsets' % name)
        used = psum(app('o.l', (S,), 0, None), n0)
        enough(h, o, h.I.st, used, used + k, room(o, di), '%s asks for one element per list' % name)
    cases(h, h.run(st, h.method(TRE, name, OFFSETS), [r, Int(k)]), '%s does not panic' % name, c)

def too_big(o): return o.k == 'unwind' and 'overflow' in str(o.v)

@ob('C15.flatten', 'C15', 'C10', 'C23', parts=RES, ev=('alloc', 'fail'))
def _(h, name):
    st = h.st(); st, v0, g = grouping(h, st); r = h.put(st, 'self', v0)
    k = h.usize('more')
    def c(o, v):
        groups_are(h, h.I.st, self_of(h, o), g, lambda i, e: Term('f', i * N_ + e), N_, '%s changes no groups' % name, extra=True)
        modest(h, o, N_ * k + N_ * g + N_, '%s asks for no more than a multiple of what is needed' % name)
        if is_err(v): return
        h.check(h.I.st, bor(*[le(N_ * k, a) for a in room(o, 0)]), '%s asks for every item of the groups' % name)
    outs = []
    for o in h.run(st, h.method(TRE, name, FLATTEN), [r, Int(k)]):
        if too_big(o) and name == 'reserve': h.check(o.st, lt(P.const(USIZE), N_ * k), 'reserve refuses only capacities that do not fit')
        else: outs.append(o)
    cases(h, outs, '%s does not panic' % name, c)

@ob('C15.vec', 'C15', 'C10', parts=RES, ev=('alloc', 'fail'))
def _(h, name):
    st = h.st(); v0, r, n = plain(h, st, 'alloc::vec::Vec'); k = h.usize('more')
    def c(o, v):
        h.same_seq(h.I.st, h.M.content(h.I, self_of(h, o)), Seq(Seg(n, Term('p', E))), '%s changes no items' % name)
        if is_err(v): return
        h.check(h.I.st, bor(*[le(k, a) for a in room(o)]), '%s asks for enough room' % name)
    cases(h, h.run(st, h.method(TRE, name, 'alloc::vec::Vec'), [r, Int(k)]), '%s does not panic' % name, c)

CAP = [{'name': n} for n in ('with_capacity_in', 'try_with_capacity_in')]
def sized(h, adt, name, st, empty, fits=None, args=None):
    """creating with a capacity: empty(o, v) judges the new collection"""
    k = h.usize('cap')
    def c(o, v):
        if name.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        empty(o, v, k)
    outs = []
    for o in h.run(st, h.method(TAI, name, adt), [Int(k), args or A_]):
        if too_big(o) and not name.startswith('try') and fits is not None: h.check(o.st, bnot(fits(k)), 'refuses only capacities that do not fit')
        else: outs.append(o)
    cases(h, outs, '%s does not panic' % name, c)

def twice(k, rs):
    """at least two of the requests are for k or more"""
    return bor(*[band(le(k, rs[i]), le(k, rs[j])) for i in range(len(rs)) for j in range(i)])
@ob('C15.new', 'C15', 'C10', 'C20', parts=[dict(c, what=w) for c in CAP for w in ('bitmap', 'validity', 'offsets', 'flatten', 'vec', 'box')], ev=('alloc', 'fail'))
def _(h, name, what):
    st = h.st()
    if what == 'bitmap':
        def empty(o, v, k):
            same_bits(h, h.I.st, v, ZERO, lambda p: FALSE, 'a new bitmap', total=ZERO, off=ZERO)
            h.check(h.I.st, bor(*[le(k, a * 8) for a in room(o)]), 'asks for enough bytes')
        sized(h, BITMAP, name, st, empty)
    if what == 'validity':
        h.M.opts['contracts'] = BC
        def empty(o, v, k):
            voptions(h, h.I.st, v, lambda p: (FALSE, UNIT), 'a new nullable collection', total=ZERO)
            h.check(h.I.st, twice(k, room(o)), 'asks for enough values and bits')
        sized(h, VALIDITY, name, st, empty)
    if what == 'offsets':
        def empty(o, v, k):
            lists_are(h, h.I.st, v, ZERO, 'a new list collection', n_new=ZERO)
            h.check(h.I.st, bor(*[le(k + 1, a) for a in room(o)]), 'asks for enough offsets')
            h.check(h.I.st, twice(k, room(o)), 'asks for enough elements')
        sized(h, OFFSETS, name, st, empty, fits=lambda k: le(k + 1, P.const(USIZE)))
    if what == 'flatten':
        st.f.add(lt(ZERO, N_))
        def empty(o, v, k):
            groups_are(h, h.I.st, v, ZERO, lambda i, e: UNIT, N_, 'a new grouping')
            h.check(h.I.st, bor(*[le(k * N_, a) for a in room(o)]), 'asks for every item of the groups')
        sized(h, FLATTEN, name, st, empty, fits=lambda k: le(k * N_, P.const(USIZE)))
    if what in ('vec', 'box'):
        def empty(o, v, k):
            h.same_seq(h.I.st, h.M.content(h.I, v), EMPTY, 'a new buffer')
            if what == 'vec': h.check(h.I.st, bor(*[le(k, a) for a in room(o)]), 'asks for enough room')
        sized(h, 'alloc::vec::Vec' if what == 'vec' else 'alloc::boxed::Box', name, st, empty, args=UNIT)

# ------------------------------------------------------------ iteration
def drained(h, st, body, arg, fn, msg):
    """run body to get an iterator, exhaust it; fn(items) judges what it yielded"""
    def go():
        I = h.I
        itv = I.force(I.call_body(body, [arg]))
        I.opts['endless'] = True
        try: return V('arr', (), (h.M.drain(I, itv),))
        finally: I.opts.pop('endless', None)
    for o in h.rets(h.runfn(st, go), msg):
        h.in_state(o.st, lambda o=o: fn(h.I.force(o.v).k[0]))

ITERS = [{'name': n} for n in ('iter_views', 'into_iter_owned')]
@ob('C05.bitmap', 'C05', parts=[dict(i, **p) for i in ITERS for p in P8])
def _(h, name, a):
    st = h.st(); b = cut_bitmap(h, st, a)
    bu, bits, off = h.bm(b)
    arg = b if name == 'into_iter_owned' else h.put(st, 'self', b)
    def fn(q):
        h.eqv(h.I.st, Int(seq_len(q)), Int(bits), 'iteration yields every bit')
        def at():
            p = fresh('pos', 0, None); h.I.assume(lt(p, bits))
            h.eqv(h.I.st, h.I.seq_get(q, p), Bool(bit('bm', off + p)), 'iteration yields bit offset + position')
        h.in_state(h.I.st, at)
    drained(h, st, h.method(TCOL, name, BITMAP), arg, fn, 'iteration does not panic')

@ob('C05.plain', 'C05', parts=[dict(i, key=k) for i in ITERS for k in PLAIN])
def _(h, name, key):
    st = h.st(); v0, r, n = plain(h, st, key)
    def fn(q):
        h.eqv(h.I.st, Int(seq_len(q)), Int(n), 'iteration yields every element')
        def at():
            p = fresh('pos', 0, None); h.I.assume(lt(p, n))
            x = h.I.force(h.I.seq_get(q, p))
            h.eqv(h.I.st, h.M.peel(h.I, x), Term('p', p), 'iteration yields the elements in order')
        h.in_state(h.I.st, at)
    drained(h, st, h.method(TCOL, name, key), v0 if name == 'into_iter_owned' else r, fn, 'iteration does not panic')

@ob('C05.validity', 'C05', parts=[dict(i, **s) for i in ITERS for s in SM], contracts=BC)
def _(h, name, sm):
    st = h.st(); v0 = h.cvalidity(st, sm); n = vlen(h, v0)
    arg = v0 if name == 'into_iter_owned' else h.put(st, 'self', v0)
    def fn(q):
        h.eqv(h.I.st, Int(seq_len(q)), Int(n), 'iteration yields every item')
        def at():
            I = h.I
            p = fresh('pos', 0, None); I.assume(lt(p, n))
            pr, x = v_old(sm)(p)
            got = I.force(I.seq_get(q, p))
            if some(got):
                h.check(I.st, pr, 'absent items are absent')
                h.eqv(I.st, h.M.peel(I, I.force(got.k[0])), x, 'present items carry their value')
            else: h.check(I.st, bnot(pr), 'present items are present')
        h.in_state(h.I.st, at)
    drained(h, st, h.method(TCOL, name, VALIDITY), arg, fn, 'iteration does not panic')

@ob('C05.offsets', 'C05', parts=[dict(i, **s) for i in ITERS for s in O32])
def _(h, name, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); n = h.usize('o.n', MEMMAX)
    arg = v0 if name == 'into_iter_owned' else h.put(st, 'self', v0)
    def fn(q):
        h.eqv(h.I.st, Int(seq_len(q)), Int(n), 'iteration yields every list')
        def at():
            I = h.I
            i = fresh('list', 0, None); I.assume(lt(i, n))
            s = psum(app('o.l', (S,), 0, None), i)
            x = I.force(I.seq_get(q, i))
            if name == 'into_iter_owned':
                h.same_seq(I.st, h.M.content(I, x), Seq(Seg(olen(i), Term('o.d', s + E))), 'the owned list')
            else:
                h.eqv(I.st, h.get(x, 'start', 1), Int(s), 'the view starts at its offset')
                h.eqv(I.st, h.get(x, 'end', 2), Int(s + olen(i)), 'the view ends at the next offset')
        h.in_state(h.I.st, at)
    drained(h, st, h.method(TCOL, name, OFFSETS), arg, fn, 'iteration does not panic')

@ob('C05.flatten', 'C05', 'C23', parts=ITERS)
def _(h, name):
    st = h.st(); st, v0, g = grouping(h, st)
    arg = v0 if name == 'into_iter_owned' else h.put(st, 'self', v0)
    def fn(q):
        h.eqv(h.I.st, Int(seq_len(q)), Int(g), 'iteration yields every group')
        def at():
            I = h.I
            i = fresh('group', 0, None); I.assume(lt(i, g))
            x = I.force(I.seq_get(q, i))
            if name == 'iter_views': x = h.get(x, '0', 0)
            e = fresh('item', 0, None); I.assume(lt(e, N_))
            c = h.M.content(I, x)
            h.eqv(I.st, Int(seq_len(c)), Int(N_), 'a group has the fixed width')
            h.eqv(I.st, h.M.peel(I, I.force(I.seq_get(c, e))), Term('f', i * N_ + e), 'item of a group')
        h.in_state(h.I.st, at)
    drained(h, st, h.method(TCOL, name, FLATTEN), arg, fn, 'iteration does not panic')
