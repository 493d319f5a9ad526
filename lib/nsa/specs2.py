"""Obligations, continued: size reports of iterators, null accounting,
comparison and conversion of list views, defaults."""
from .specs import *
from .specs import ITERS
from .models import veq, CONTRACT

def hints(h, st, body, arg, total, msg, check=None):
    """after any number of items has been taken the iterator reports the rest"""
    j = h.usize('taken')
    def go():
        I = h.I
        itv = I.force(I.call_body(body, [arg]))
        with I.tmp(itv) as l, I.tmp(Int(ZERO)) as c, I.tmp(V('arr', (), (EMPTY,))) as acc:
            def step():
                i = I.read(c).k[0]
                if not I.branch(lt(i, j)): return False
                x = h.M.next_at(I, l)
                if x is None: raise Unwind('the iterator ended early')
                h.M.push_at(I, acc, x); I.write(c, Int(i + 1)); return True
            I.nloop(step, 'take')
            lo, hi = h.M.hint_at(I, l)
            n = h.M.len_at(I, l)
        return Tup(Int(lo), NONE if hi is None else Some(Int(hi)), Int(n))
    st = st.copy(); st.f.add(le(j, total))
    for o in h.rets(h.runfn(st, go), msg):
        def at(o=o):
            v = h.I.force(o.v); I = h.I
            h.eqv(I.st, v.k[0], Int(total - j), 'lower size bound of an exact iterator')
            u = I.force(v.k[1])
            if none(u): h.fail(I.st, 'an exact iterator reports no upper size bound')
            else: h.eqv(I.st, u.k[0], Int(total - j), 'upper size bound of an exact iterator')
            h.eqv(I.st, v.k[2], Int(total - j), 'exact length of an iterator')
        h.in_state(o.st, at)

@ob('C06.bitmap', 'C06', parts=[dict(i, **p) for i in ITERS for p in P8])
def _(h, name, a):
    st = h.st(); b = cut_bitmap(h, st, a)
    bu, bits, off = h.bm(b)
    arg = b if name == 'into_iter_owned' else h.put(st, 'self', b)
    hints(h, st, h.method(TCOL, name, BITMAP), arg, bits, 'iteration does not panic')

@ob('C06.plain', 'C06', parts=[dict(i, key=k) for i in ITERS for k in PLAIN])
def _(h, name, key):
    st = h.st(); v0, r, n = plain(h, st, key)
    hints(h, st, h.method(TCOL, name, key), v0 if name == 'into_iter_owned' else r, n, 'iteration does not panic')

@ob('C06.validity', 'C06', parts=[dict(i, **s) for i in ITERS for s in SM], contracts=BC)
def _(h, name, sm):
    st = h.st(); v0 = h.cvalidity(st, sm); n = vlen(h, v0)
    arg = v0 if name == 'into_iter_owned' else h.put(st, 'self', v0)
    hints(h, st, h.method(TCOL, name, VALIDITY), arg, n, 'iteration does not panic')

@ob('C06.offsets', 'C06', parts=[dict(i, **s) for i in ITERS for s in O32])
def _(h, name, bits):
    h.M.opts['offset_bits'] = bits
    st = h.st(); v0 = h.offsets(st); n = h.usize('o.n', MEMMAX)
    arg = v0 if name == 'into_iter_owned' else h.put(st, 'self', v0)
    hints(h, st, h.method(TCOL, name, OFFSETS), arg, n, 'iteration does not panic')

@ob('C06.flatten', 'C06', parts=ITERS)
def _(h, name):
    st = h.st(); st, v0, g = grouping(h, st)
    arg = v0 if name == 'into_iter_owned' else h.put(st, 'self', v0)
    hints(h, st, h.method(TCOL, name, FLATTEN), arg, g, 'iteration does not panic')

def a_view(h, st):
    v0 = h.offsets(st); r = h.put(st, 'coll', v0)
    i = h.usize('list'); n = h.usize('o.n', MEMMAX)
    st.f.add(lt(i, n))
    ln = app('o.l', (S,), 0, None)
    a, b = psum(ln, i), psum(ln, i + 1)
    return h.struct(OVIEW, {'collection': r, 'start': Int(a), 'end': Int(b)}), a, app('o.l', (i,), 0, None)

@ob('C06.offsetview', 'C06', parts=ITERS)
def _(h, name):
    st = h.st(); w, a, L = a_view(h, st)
    arg = w if name == 'into_iter_owned' else h.put(st, 'self', w)
    hints(h, st, h.method(TCOL, name, OVIEW), arg, L, 'iteration does not panic')

@ob('C05.offsetview', 'C05', 'C24', parts=ITERS)
def _(h, name):
    st = h.st(); w, a, L = a_view(h, st)
    arg = w if name == 'into_iter_owned' else h.put(st, 'self', w)
    def fn(q):
        h.eqv(h.I.st, Int(seq_len(q)), Int(L), 'iteration yields every element of the list')
        def at():
            p = fresh('pos', 0, None); h.I.assume(lt(p, L))
            h.eqv(h.I.st, h.M.peel(h.I, h.I.force(h.I.seq_get(q, p))), Term('o.d', a + p), 'iteration yields the elements of the list in order')
        h.in_state(h.I.st, at)
    drained(h, st, h.method(TCOL, name, OVIEW), arg, fn, 'iteration does not panic')

TOWN = 'narrow::collection::owned::IntoOwned'
@ob('C24.into_owned', 'C24')
def _(h):
    st = h.st(); w, a, L = a_view(h, st)
    def c(o, v):
        h.same_seq(h.I.st, h.M.content(h.I, v), Seq(Seg(L, Term('o.d', a + E))), 'the owned list')
    cases(h, h.run(st, h.method(TOWN, 'into_owned', OVIEW), [w]), 'turning a view into an owned list is total', c)

PEQ = 'core::cmp::PartialEq'
@ob('C24.eq', 'C24', parts=[{'case': c} for c in ('same', 'differ', 'length')])
def _(h, case):
    st = h.st(); w, a, L = a_view(h, st)
    r = h.put(st, 'self', w)
    m = h.usize('other.len')
    o2 = h.put(st, 'other', buf(('opq', 'A'), Seq(Seg(m, Term('q', E)))))
    same = lambda p: veq(h.M, h.I, Term('o.d', a + p), Term('q', p))
    if case == 'length': st.f.add(bnot(eq(L, m)))
    else: st.f.add(eq(L, m))
    if case == 'same':
        st.f.alls = st.f.alls + (Forall(EBV, m, [same(E)]),); st.f._dirty()
    if case == 'differ':
        j = h.usize('j'); st.f.add(lt(j, m)); st.f.add(bnot(same(j)))
    def c(o, v):
        h.check(o.st, v.k[0] if case == 'same' else bnot(v.k[0]), 'comparison is true exactly when lengths and all elements are equal')
    cases(h, h.run(st, h.method(PEQ, 'eq', OVIEW), [r, o2]), 'comparison of a list view is total', c)

# ------------------------------------------------------------------ C18
def null_count(h, sm):
    if not sm: return ZERO
    k = h.usize('v.k', MEMMAX * 8)
    return k - psum(dom.b2i(batom('vb', (S,))), k)

@ob('C18.counts', 'C18', 'F09', parts=[dict(s, name=n) for s in SM for n in ('null_count', 'valid_count', 'all_null', 'all_valid', 'any_valid')], contracts=BC)
def _(h, sm, name):
    st = h.st(); v0 = h.cvalidity(st, sm); n = vlen(h, v0); r = h.put(st, 'self', v0)
    c0 = null_count(h, sm)
    def c(o, v):
        if name == 'null_count': h.eqv(o.st, v, Int(c0), 'null_count is the number of absent positions')
        elif name == 'valid_count': h.eqv(o.st, v, Int(n - c0), 'valid_count is the number of present positions')
        else:
            want = {'all_null': eq(c0, n), 'all_valid': eq(c0, ZERO), 'any_valid': bnot(eq(c0, n))}[name]
            h.eqv(o.st, v, Bool(want), '%s agrees with the counts' % name)
    cases(h, h.run(st, h.method(TVB, name, VALIDITY), [r]), '%s is total' % name, c)

@ob('C18.any_null', 'C18', parts=[{'sm': False, 'case': 'some'}, {'sm': True, 'case': 'all'}, {'sm': True, 'case': 'some'}], contracts=BC)
def _(h, sm, case):
    st = h.st(); v0 = h.cvalidity(st, sm); n = vlen(h, v0); r = h.put(st, 'self', v0)
    if sm and case == 'all':
        st.f.alls = st.f.alls + (Forall(EBV, n, [batom('vb', (E,))]),); st.f._dirty()
    if sm and case == 'some':
        j = h.usize('j'); st.f.add(lt(j, n)); st.f.add(bnot(batom('vb', (j,))))
    def c(o, v):
        h.check(o.st, v.k[0] if sm and case == 'some' else bnot(v.k[0]), 'any_null is true exactly when some position is absent')
    cases(h, h.run(st, h.method(TVB, 'any_null', VALIDITY), [r]), 'any_null is total', c)

# ------------------------------------------------------------------ C06: packing
HINTS = [{'hint': x} for x in ('any', 'valid', 'exact')]
def bounds(h, st, adt, selfv, remaining, exact, judge):
    """size_hint of a bit adapter; remaining(): items it will still yield"""
    s = h.put(st, 'self', selfv)
    def c(o, v):
        if not judge: return
        I = h.I; r = remaining()
        u = I.force(v.k[1])
        lo = v.k[0].k[0]
        h.check(I.st, le(lo, r), 'the lower size bound is at most the number of items still to come')
        if some(u): h.check(I.st, le(r, u.k[0].k[0]), 'the upper size bound is at least the number of items still to come')
        if exact:
            if not I.known(le(r, P.const(USIZE))) is True: I.assume(le(r, P.const(USIZE)))
            h.check(I.st, eq(lo, r), 'the lower size bound is exact over an exact iterator')
            if none(u): h.fail(I.st, 'no upper size bound over an exact iterator')
            else: h.check(I.st, eq(u.k[0].k[0], r), 'the upper size bound is exact over an exact iterator')
    cases(h, h.run(st, h.method('core::iter::traits::iterator::Iterator', 'size_hint', adt), [s]), 'size_hint never panics', c)

@ob('C06.packed', 'C06', 'C16', parts=HINTS)
def _(h, hint):
    st = h.st()
    w, n = h.opq_iter(st, 'in', Bool(batom('x', (S,))), hint=hint)
    def rem(): return h.I.idiv(n + 7, P.const(8), (64, False))[0]
    if hint == 'exact': st.f.add(le(n, P.const(USIZE)))
    bounds(h, st, PACKED, h.struct(PACKED, {'iter': w}), rem, hint == 'exact', hint != 'any')

@ob('C06.unpacked', 'C06', 'C05', 'C16', parts=[dict(x, m=m) for x in HINTS for m in range(8)])
def _(h, hint, m):
    st = h.st()
    w, n = h.opq_iter(st, 'in', Byte([batom('x', (S * 8 + j,)) for j in range(8)]), hint=hint)
    if hint == 'exact': st.f.add(le(n, P.const(USIZE)))
    byte = Some(Byte([batom('y', (P.const(j),)) for j in range(8)]))
    for b in ((byte, NONE) if m == 0 else (byte,)):
        s2 = st.copy()
        bounds(h, s2, UNPACKED, unpacked(h, w, b, m), lambda: n * 8 + (8 - m if m else 0), hint == 'exact', hint != 'any')

def unpacked(h, w, b, m):
    return h.struct(UNPACKED, {'iter': w, 'byte': b, 'mask': byte_const(1 << m)})

@ob('C06.unpacked.next', 'C06', 'C05', 'C04', parts=[{'m': m} for m in range(8)])
def _(h, m):
    """each step yields the next bit, least significant first, and takes a byte only when the last is used up"""
    st = h.st()
    w, n = h.opq_iter(st, 'in', Byte([batom('x', (S * 8 + j,)) for j in range(8)]), hint='exact', fused=True)
    byte = Some(Byte([batom('y', (P.const(j),)) for j in range(8)]))
    for b in ((byte, NONE) if m == 0 else (byte,)):
        s2 = st.copy(); s = h.put(s2, 'self', unpacked(h, w, b, m))
        def c(o, v):
            me = o.st.store['self']
            left = h.get(me, 'iter', 0); pos = left.k[1]
            if none(v):
                if m: h.fail(o.st, 'a partly yielded byte ends early')
                else: h.check(o.st, eq(n, ZERO), 'ends only when no byte is left')
                return
            want = batom('y', (P.const(m),)) if m else batom('x', (P.const(0),))
            h.eqv(o.st, v.k[0], Bool(want), 'bit yielded')
            h.eqv(o.st, pos, ZERO if m else ONE, 'bytes taken') if not isinstance(pos, V) else None
            h.eqv(o.st, h.get(me, 'mask', 2), byte_const(1 << ((m + 1) % 8)), 'next bit to yield')
            if m == 0:
                nb = h.I.force(h.get(me, 'byte', 1))
                if none(nb): h.fail(o.st, 'the byte is not kept')
                else: h.eqv(o.st, nb.k[0], Byte([batom('x', (P.const(j),)) for j in range(8)]), 'the byte kept')
        cases(h, h.run(s2, h.method('core::iter::traits::iterator::Iterator', 'next', UNPACKED), [s]), 'next never panics', c)

@ob('C06.packed.next', 'C06', 'C04')
def _(h):
    """each step packs the next eight items, least significant first"""
    st = h.st()
    w, n = h.opq_iter(st, 'in', Bool(batom('x', (S,))), hint='exact', fused=True)
    s = h.put(st, 'self', h.struct(PACKED, {'iter': w}))
    def c(o, v):
        pos = h.get(o.st.store['self'], 'iter', 0).k[1]
        if none(v): h.check(o.st, eq(n, ZERO), 'ends only when no item is left'); return
        h.check(o.st, lt(ZERO, n), 'yields only when an item is left')
        h.check(o.st, bor(eq(pos, P.const(8)), band(le(n, P.const(8)), eq(pos, n))), 'takes eight items, or all that are left')
        for j in range(8):
            b = h.I.force(v.k[0])
            bits = b.k if b.t == 'byte' else byte_val(b).k
            h.check(o.st, bnot(bxor(bits[j], band(lt(P.const(j), n), batom('x', (P.const(j),))))), 'bit of the packed byte')
    cases(h, h.run(st, h.method('core::iter::traits::iterator::Iterator', 'next', PACKED), [s]), 'next never panics', c)

# ------------------------------------------------------------------ C20: defaults
@ob('C20.default', 'C20', parts=[{'what': w} for w in ('bitmap', 'offsets', 'validity', 'flatten')])
def _(h, what):
    st = h.st()
    adt = {'bitmap': BITMAP, 'offsets': OFFSETS, 'validity': VALIDITY, 'flatten': FLATTEN}[what]
    def c(o, v):
        if what == 'bitmap': same_bits(h, h.I.st, v, ZERO, lambda p: FALSE, 'the default bitmap', total=ZERO, off=ZERO)
        elif what == 'offsets': lists_are(h, h.I.st, v, ZERO, 'the default list collection', n_new=ZERO, exact=False)
        elif what == 'validity':
            if not none(h.I.force(h.get(v, 'bitmap', 1))): h.fail(h.I.st, 'a default nullable collection has validity storage')
            col = h.I.force(h.get(v, 'collection', 0))
            if col.t != 'buf' or col.m != ('opq', 'default'): h.fail(h.I.st, 'a default nullable collection does not hold the default values')
        else:
            col = h.I.force(h.get(v, '0', 0))
            if col.t != 'buf' or col.m != ('opq', 'default'): h.fail(h.I.st, 'a default grouping does not hold the default child')
        h.checks += 1
    cases(h, h.run(st, h.method(DEFAULT, 'default', adt), []), 'the default value exists', c)

# ------------------------------------------------------------------ C14
def bufs(v):
    """every buffer a value is made of"""
    if isinstance(v, V):
        if v.t == 'buf': yield v
        ks = v.k if isinstance(v.k, (tuple, list)) else (v.k,)
        for x in ks: yield from bufs(x)

def made_with_A(h, o, v, msg, least):
    h.checks += 1
    bs = list(bufs(h.I.resolve(v) if hasattr(h.I, 'resolve') else v))
    if len(bs) < least: h.note('undecided', '%s: buffers not found' % msg); return
    for b in bs:
        if b.m != ('opq', 'A'): h.fail(h.I.st, '%s: a buffer comes from %s instead of the given allocator' % (msg, b.m[1] if isinstance(b.m, tuple) else b.m))

NEW = [{'name': n} for n in ('with_capacity_in', 'try_with_capacity_in', 'from_iter_in', 'try_from_iter_in')]
KIND = {'bitmap': BITMAP, 'offsets': OFFSETS, 'validity': VALIDITY, 'flatten': FLATTEN}
@ob('C14.new', 'C14', parts=[dict(n, what=w) for n in NEW for w in KIND])
def _(h, name, what):
    st = h.st()
    if what == 'validity': h.M.opts['contracts'] = BC
    if what == 'flatten': st.f.add(lt(ZERO, N_))
    if 'capacity' in name: arg = Int(h.usize('cap'))
    elif what == 'bitmap': arg = bits_iter(h, st)[0]
    elif what == 'validity': arg = opt_iter(h, st)[0]
    elif what == 'offsets': arg = list_iter(h, st)[0]
    else: arg = arr_iter(h, st)[0]
    def c(o, v):
        if name.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        made_with_A(h, o, v, '%s of a %s' % (name, what), 2 if what == 'offsets' else 1)
    outs = [o for o in h.run(st, h.method(TAI, name, KIND[what]), [arg, A_]) if not overflow(o) and not too_big(o)]
    cases(h, outs, '%s does not panic' % name, c)

@ob('C14.all_set', 'C14', 'C08', parts=[{'name': n} for n in ('all_set_in', 'try_all_set_in')], ev=('fail',))
def _(h, name):
    st = h.st(); k = h.usize('n', 8 * MEMMAX)
    def c(o, v):
        if name.startswith('try'):
            if not is_ok(v): return
            v = up(h, v.k[0])
        same_bits(h, h.I.st, v, k, lambda p: TRUE, 'a bitmap of set bits', total=k, off=ZERO)
        made_with_A(h, o, v, name, 1)
    cases(h, h.run(st, h.inherent(BITMAP, name), [Int(k), A_]), '%s does not panic' % name, c)

@ob('C14.later', 'C14', parts=[{'name': n} for n in ('extend', 'try_extend')], contracts=BC)
def _(h, name):
    """validity storage added later comes from the allocator of the values"""
    st = h.st(); v0 = h.cvalidity(st, False); r = h.put(st, 'self', v0)
    it_, n = opt_iter(h, st)
    body = h.method(EX if name == 'extend' else TRE, name, VALIDITY)
    def c(o, v): made_with_A(h, o, self_of(h, o), name, 1)
    cases(h, h.run(st, body, [r, it_]), '%s does not panic' % name, c)

@ob('C14.allocator', 'C14', parts=[{'what': w} for w in KIND])
def _(h, what):
    """allocator() is that of the values"""
    st = h.st()
    if what == 'bitmap': v0 = h.bitmap(st)
    elif what == 'validity':
        v0 = h.cvalidity(st, True, alloc='B'); v0 = h.struct(VALIDITY, {'collection': h.items('v', h.usize('v.len'), 'A'), 'bitmap': h.get(v0, 'bitmap', 1)})
    elif what == 'offsets': v0 = h.offsets(st, alloc='B', data=h.items('o.d', h.usize('o.n') , 'A'))
    else: v0 = h.flatten(st)
    if what == 'validity': h.M.opts['contracts'] = BC
    def c(o, v):
        h.checks += 1
        if not (isinstance(v, V) and v.t == 'term' and v.m == 'A'): h.fail(h.I.st, 'allocator() is not the allocator of the values')
    cases(h, h.run(st, h.method(TRE, 'allocator', KIND[what]), [h.put(st, 'self', v0)]), 'allocator does not panic', c)

# ------------------------------------------------------------------ C19
WRAP = {'array': 'narrow::array::Array', 'boolean': 'narrow::layout::boolean::Boolean', 'primitive': 'narrow::layout::fixed_size_primitive::FixedSizePrimitive',
        'fixed_list': 'narrow::layout::fixed_size_list::FixedSizeList', 'var_list': 'narrow::layout::variable_size_list::VariableSizeList'}
OPS = ['len', 'is_empty', 'view', 'owned', 'iter_views', 'into_iter_owned', 'with_capacity_in', 'from_iter_in', 'try_with_capacity_in', 'try_from_iter_in', 'allocator',
       'try_reserve', 'try_extend', 'reserve', 'truncate', 'extend', 'from_iter', 'default', 'from_buffer', 'into_buffer', 'buffer_ref', 'clone']
CLONE = 'core::clone::Clone'
def inside(h, v): return h.I.force(h.get(v, '0', 0))

@ob('C19.forward', 'C19', 'C14', 'C15', 'C10', parts=[dict(w=w, op=o) for w in WRAP for o in OPS if o != 'clone' or w in ('array', 'fixed_list')], ev=('alloc', 'fail'))
def _(h, w, op):
    """every operation of a wrapper is that of the memory it wraps"""
    adt = WRAP[w]
    st = h.st(); n = h.usize('w.len')
    mem = h.items('w', n, 'A')
    v0 = h.struct(adt, {'0': mem}); r = h.put(st, 'self', v0)
    whole = Seq(Seg(n, Term('w', E)))
    k = h.usize('arg')
    def unchanged(o, msg):
        m = inside(h, self_of(h, o))
        h.same_seq(h.I.st, m.k[0], whole, msg)
        h.checks += 1
        if m.m != ('opq', 'A'): h.fail(h.I.st, 'the memory is replaced')
    def asked(o, what, amount):
        al = [e for e in o.st.ev if e[0] == 'alloc']
        h.checks += 1
        if len(al) != 1 or al[0][1] != what: h.fail(h.I.st, '%s is not passed on as one %s' % (op, what))
        else: h.eqv(h.I.st, Int(al[0][3]), Int(amount), 'the capacity passed on')
    itv, m = h.opq_iter(st, 'it', Term('it', S))
    if op in ('len', 'is_empty'):
        def c(o, v): h.eqv(o.st, v, Int(n) if op == 'len' else Bool(eq(n, ZERO)), 'length of a wrapper')
        body, args = h.method(TLEN, op, adt), [r]
    elif op in ('view', 'owned'):
        def c(o, v):
            if some(v):
                h.check(o.st, lt(k, n), 'an item exists only inside the memory')
                h.eqv(o.st, h.M.peel(h.I, h.I.force(v.k[0])), Term('w', k), 'item of a wrapper')
            else: h.check(o.st, le(n, k), 'every item of the memory is visible')
        body, args = h.method(TCOL, op, adt), [r, Int(k)]
    elif op in ('iter_views', 'into_iter_owned'):
        def fn(q): 
            h.eqv(h.I.st, Int(seq_len(q)), Int(n), 'iteration over a wrapper yields every item')
            def at():
                p = fresh('pos', 0, None); h.I.assume(lt(p, n))
                h.eqv(h.I.st, h.M.peel(h.I, h.I.force(h.I.seq_get(q, p))), Term('w', p), 'item yielded by a wrapper')
            h.in_state(h.I.st, at)
        drained(h, st, h.method(TCOL, op, adt), v0 if op == 'into_iter_owned' else r, fn, 'iteration does not panic')
        return
    elif op in ('with_capacity_in', 'try_with_capacity_in', 'from_iter_in', 'try_from_iter_in', 'from_iter', 'default'):
        def c(o, v):
            if op.startswith('try'):
                if not is_ok(v):
                    if not any(e[0] == 'fail' for e in o.st.ev): h.fail(h.I.st, '%s fails on its own' % op)
                    return
                v = up(h, v.k[0])
            g = inside(h, v)
            h.checks += 1
            if g.t != 'buf' or g.m != ('opq', 'A' if op.endswith('_in') else 'default'): h.fail(h.I.st, '%s does not pass the allocator on' % op)
            if op == 'default': return
            h.same_seq(h.I.st, g.k[0], Seq(Seg(m, Term('it', E))) if 'iter' in op else EMPTY, 'contents of a new wrapper')
            if 'capacity' in op: asked(o, op, k)
        if op == 'default': body, args = h.method(DEFAULT, op, adt), []
        elif op == 'from_iter': body, args = h.method(FI, op, adt), [itv]
        else: body, args = h.method(TAI, op, adt), [Int(k) if 'capacity' in op else itv, A_]
    elif op == 'allocator':
        def c(o, v):
            h.checks += 1
            if v.t != 'term' or v.m != 'A': h.fail(h.I.st, 'allocator of a wrapper')
        body, args = h.method(TRE, op, adt), [r]
    elif op in ('reserve', 'try_reserve'):
        def c(o, v):
            unchanged(o, '%s changes no items' % op)
            if is_err(v):
                if not any(e[0] == 'fail' for e in o.st.ev): h.fail(h.I.st, '%s fails on its own' % op)
                return
            asked(o, op, k)
        body, args = h.method(TRE, op, adt), [r, Int(k)]
    elif op in ('extend', 'try_extend'):
        def c(o, v):
            if is_err(v):
                unchanged(o, 'a failed try_extend changes nothing')
                if not any(e[0] == 'fail' for e in o.st.ev): h.fail(h.I.st, '%s fails on its own' % op)
                return
            h.same_seq(h.I.st, inside(h, self_of(h, o)).k[0], Seq(Seg(n, Term('w', E)), Seg(m, Term('it', E))), 'items after %s' % op)
        body, args = h.method(EX if op == 'extend' else TRE, op, adt), [r, itv]
    elif op == 'truncate':
        def c(o, v):
            I = h.I
            if not I.branch(lt(k, n)): unchanged(o, 'truncate beyond the end changes nothing')
            else: h.same_seq(I.st, inside(h, self_of(h, o)).k[0], Seq(Seg(k, Term('w', E))), 'truncate keeps the leading items')
        body, args = h.method(TRE, op, adt), [r, Int(k)]
    elif op in ('from_buffer', 'into_buffer'):
        def c(o, v):
            h.checks += 1
            g = inside(h, v) if op == 'from_buffer' else v
            if g.t != 'buf' or g.m != ('opq', 'A'): h.fail(h.I.st, 'wrapping does not keep the memory')
            else: h.same_seq(h.I.st, g.k[0], whole, 'wrapping keeps the memory')
        body, args = h.inherent(adt, op), [mem if op == 'from_buffer' else v0]
    else:
        def c(o, v):
            g = h.M.peel(h.I, v)
            if op == 'clone': g = inside(h, v)
            h.checks += 1
            if g.t != 'buf': h.fail(h.I.st, '%s is not the memory' % op)
            else: h.same_seq(h.I.st, g.k[0], whole, '%s is the memory' % op)
        body, args = h.method('narrow::buffer::BufferRef' if op == 'buffer_ref' else CLONE, op, adt), [r]
    errs = []
    def c2(o, v):
        if is_err(v): errs.append(v)
        c(o, v)
    cases(h, h.run(st, body, args), '%s does not panic' % op, c2)
    h.checks += 1
    if op.startswith('try') and not errs and not h.bad: h.fail(st, '%s never reports the allocation errors of the memory' % op)

# ------------------------------------------------------------------ C11
def fallible(h, st, what, name):
    """the operation name of collection what, on arbitrary contents"""
    adt = {'vec': 'alloc::vec::Vec', 'box': 'alloc::boxed::Box', **KIND}[what]
    if what == 'validity': h.M.opts['contracts'] = BC
    A = UNIT if what in ('vec', 'box') else A_
    k = h.usize('arg')
    its = {'bitmap': bits_iter, 'validity': opt_iter, 'offsets': list_iter, 'flatten': arr_iter}
    def items(): return its[what](h, st)[0] if what in its else h.opq_iter(st, 'it', Term('it', S))[0]
    if what == 'flatten': st.f.add(lt(ZERO, N_))
    if name == 'try_with_capacity_in': return h.method(TAI, name, adt), [Int(k), A]
    if name == 'try_from_iter_in': return h.method(TAI, name, adt), [items(), A]
    if what == 'bitmap': v = cut_bitmap(h, st, None, 3)
    elif what == 'validity': v = h.cvalidity(st, h.sm)
    elif what == 'offsets': v = h.offsets(st)
    elif what == 'flatten': v = h.flatten(st)
    else: v = buf(('vec', 'global'), Seq(Seg(h.usize('p.len', USIZE), Term('p', E))))
    r = h.put(st, 'self', v)
    return h.method(TRE, name, adt), [r, Int(k) if name == 'try_reserve' else items()]

FALL = [{'what': w, 'name': n} for w in ('bitmap', 'offsets', 'flatten', 'vec') for n in ('try_with_capacity_in', 'try_from_iter_in', 'try_reserve', 'try_extend')] + \
       [{'what': 'box', 'name': n} for n in ('try_with_capacity_in', 'try_from_iter_in')] + \
       [{'what': 'validity', 'name': n, 'sm': s} for n in ('try_with_capacity_in', 'try_from_iter_in', 'try_reserve', 'try_extend') for s in ((True, False) if 'in' not in n else (True,))]
@ob('C11.fallible', 'C11', parts=FALL, noabort=True, every=True)
def _(h, what, name, sm=True):
    st = h.st(); h.sm = sm
    body, args = fallible(h, st, what, name)
    outs = h.run(st, body, args)
    h.checks += 1
    for o in outs:
        if o.k == 'und': h.note('undecided', '%s of %s: %s' % (name, what, o.v))
        elif o.k == 'unwind' and not (what == 'offsets' and ('iter' in name or 'extend' in name)):
            h.never(o, '%s reports an error instead of panicking' % name)

@ob('C11.overflow', 'C11', parts=[{'what': 'flatten', 'name': 'try_with_capacity_in'}, {'what': 'flatten', 'name': 'try_reserve'}, {'what': 'offsets', 'name': 'try_with_capacity_in'}], noabort=True)
def _(h, what, name):
    st = h.st(); h.sm = True
    body, args = fallible(h, st, what, name)
    k = h.usize('arg')
    need = k * N_ if what == 'flatten' else k + 1
    def c(o, v):
        if not is_err(v): h.check(h.I.st, le(need, P.const(USIZE)), 'a capacity that does not fit is reported as an allocation error')
    cases(h, h.run(st, body, args), '%s of %s' % (name, what), c)

@ob('C11.all_set', 'C11', noabort=True)
def _(h):
    st = h.st(); k = h.usize('n', 8 * MEMMAX)
    for o in h.run(st, h.inherent(BITMAP, 'try_all_set_in'), [Int(k), A_]): 
        h.checks += 1
        if o.k == 'und': h.note('undecided', 'try_all_set_in: %s' % o.v)

@ob('C11.wrapper', 'C11', parts=[dict(w=w, op=o) for w in WRAP for o in ('try_with_capacity_in', 'try_from_iter_in', 'try_reserve', 'try_extend')], noabort=True)
def _(h, w, op):
    st = h.st(); n = h.usize('w.len')
    r = h.put(st, 'self', h.struct(WRAP[w], {'0': h.items('w', n, 'A')}))
    x = Int(h.usize('arg')) if op in ('try_with_capacity_in', 'try_reserve') else h.opq_iter(st, 'it', Term('it', S))[0]
    for o in h.run(st, h.method(TAI if op.endswith('_in') else TRE, op, WRAP[w]), [x, A_] if op.endswith('_in') else [r, x]):
        h.checks += 1
        if o.k != 'ret': h.never(o, '%s does not panic' % op)

# ------------------------------------------------------------------ C02: exported constructors and mutators outside the interface known to the other obligations
def invariant(h, v, what):
    """the representation invariant of every protected collection inside v"""
    I = h.I
    v = I.force(v) if isinstance(v, V) else v
    if not isinstance(v, V) or v.t != 'adt':
        if isinstance(v, V) and v.t in ('tup', 'tuple'):
            for x in v.k: invariant(h, x, what)
        return
    adt = v.m[0]
    if adt == BITMAP:
        bu, bits, off = h.bm(v)
        h.check(I.st, le(off + bits, seq_len(I.force(bu).k[0]) * 8), what + ': the bit range lies inside the buffer')
    elif adt == VALIDITY:
        b = I.force(h.get(v, 'bitmap', 1))
        if some(b):
            b = I.force(b.k[0]); n = vlen_of(h, h.get(v, 'collection', 0))
            h.check(I.st, le(h.bm(b)[1], n), what + ': no more validity bits than items')
            invariant(h, b, what)
        invariant(h, h.get(v, 'collection', 0), what)
    elif adt == OFFSETS:
        os_ = I.force(h.get(v, 'offsets', 1)).k[0]; m = seq_len(os_)
        n = vlen_of(h, h.get(v, 'data', 0))
        at = lambda p: I.force(I.seq_get(os_, p)).k[0]
        if h.check(I.st, lt(ZERO, m), what + ': offsets are not empty'):
            def body():
                h.check(I.st, eq(at(ZERO), ZERO), what + ': offsets start at zero')
                h.check(I.st, le(at(m - 1), n), what + ': offsets end inside the data')
            h.in_state(I.st, body)
            def body():
                q = fresh('q', 0, None); I.assume(lt(q + 1, m))
                h.check(I.st, le(at(q), at(q + 1)), what + ': offsets never decrease')
            h.in_state(I.st, body)
    elif adt == OVIEW:
        a, b = h.get(v, 'start', 1).k[0], h.get(v, 'end', 2).k[0]
        c = I.deref(h.get(v, 'collection', 0)) if hasattr(I, 'deref') else None
        h.check(I.st, le(a, b), what + ': a list view does not end before it starts')
    elif adt == OPT or adt == OKP:
        for x in v.k: invariant(h, x, what)
    elif adt.startswith('narrow::layout::') or adt == 'narrow::array::Array':
        for x in v.k: invariant(h, x, what)

def vlen_of(h, c):
    c = h.I.force(c)
    if c.t == 'buf': return seq_len(c.k[0])
    if c.t == 'adt' and c.m[0] == BITMAP: return h.bm(c)[1]
    raise Missing('length of %s' % c.t)

def any_arg(h, st, i, pfx):
    """arbitrary argument of a type; protected collections satisfy their invariant"""
    ty = h.prog.types; t = ty[i]; k = t['k']
    if k == 'int': return Int(var(pfx, -(1 << (t['bits'] - 1)) if t['signed'] else 0, (1 << (t['bits'] - (1 if t['signed'] else 0))) - 1))
    if k == 'bool': return Bool(batom(pfx, ()))
    if k == 'ref': return h.put(st, pfx, any_arg(h, st, t['e'], pfx))
    if k == 'adt':
        p = t['path']
        if p == BITMAP: return h.bitmap(st, pfx)
        if p == VALIDITY: return h.validity(st, True, pfx)
        if p == OFFSETS: return h.offsets(st, pfx)
        if p == FLATTEN: return h.flatten(st, pfx)
        if p == OPT: return Adt(OPT, 1, any_arg(h, st, t['args'][0], pfx))
        if p.endswith('vec::Vec'): k = 'alias'
    if k == 'tuple': return Tup(*[any_arg(h, st, x, '%s%d' % (pfx, n)) for n, x in enumerate(t['f'])])
    if k == 'alias' or k == 'slice' or k == 'param':
        n = h.usize(pfx + '.len', MEMMAX)
        e = [x for x in t.get('args', []) if isinstance(x, int)] or ([t['e']] if isinstance(t.get('e'), int) else [])
        e = ty[e[-1]] if e else None
        if e and e['k'] == 'int' and e['bits'] == 8: return h.bytes_(pfx, n)
        if e and (e['k'] == 'int' or e['s'] in ('OffsetItem', 'O')): return buf(('opq', 'A'), Seq(Seg(n, h.offint(app(pfx, (E,), -(1 << 31), (1 << 31) - 1)))))
        if k == 'param' or e: return h.items(pfx, n)
    raise Missing('argument of type %s' % t['s'])

@ob('C02.other', 'C02', timeout=100)
def _(h):
    from .surface import Surface
    for f, adts in Surface(h.prog).extra():
        h.what = f['q']
        st = h.st()
        try: args = [any_arg(h, st, i, 'arg%d' % n) for n, i in enumerate(f['ins'])]
        except (Missing, KeyError, IndexError) as e:
            h.note('undecided', 'cannot build arguments: %s' % e); continue
        try: outs = h.run(st, f['body'], args)
        except Undecided as e:
            h.note('undecided', str(e)); continue
        def c(o, v):
            invariant(h, v, 'result of %s' % f['name'])
            for n, i in enumerate(f['ins']):
                t = h.prog.types[i]
                if t['k'] == 'ref' and t['m']: invariant(h, o.st.store['arg%d' % n], 'collection after %s' % f['name'])
        for o in outs:
            if o.k == 'ret':
                def body(o=o): o.st = h.I.st; c(o, h.I.force(o.v))
                h.in_state(o.st, body)
