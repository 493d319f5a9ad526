"""Obligations, continued: conversions between items, views and owned values,
copies of collections and views, item combination by nullability."""
from .specs2 import *
from .specs import *
from .specs import PLAIN, cases, variant
from .models import veq

TOWN = 'narrow::collection::owned::IntoOwned'
TVIEW = 'narrow::collection::view::AsView'
TCLONE = 'core::clone::Clone'
TNUL = 'narrow::nullability::Nullability'
NULLS = {False: 'narrow::nullability::NonNullable', True: 'narrow::nullability::Nullable'}
FSA = 'narrow::fixed_size::FixedSizeArray'

def item(h, st, key):
    """(value, check(result)) of a value of each kind of item"""
    if key == 'bool':
        b = batom('the.bit'); return Bool(b), lambda I, v, m: h.eqv(I.st, h.M.peel(I, v), Bool(b), m)
    t = Term('the.item'); return t, lambda I, v, m: h.eqv(I.st, h.M.peel(I, v), t, m)

@ob('C25.owned_item', 'C25', parts=[{'key': k} for k in ('bool', 'param')])
def _(h, key):
    st = h.st(); x, ck = item(h, st, key)
    b = h.method(TOWN, 'into_owned', key)
    cases(h, h.run(st, b, [x]), 'taking ownership of an item is total', lambda o, v: ck(h.I, v, 'the owned item is the item'))

@ob('C25.owned_slice', 'C25', 'C05', 'C24', parts=[{'key': k} for k in ('&slice', '&array')])
def _(h, key):
    st = h.st()
    n = N_ if key == '&array' else h.usize('s.len')
    a = h.usize('s.start'); rest = h.usize('s.rest')
    q = Seq(Seg(n, Term('p', E)))
    if key == '&array':
        r = h.put(st, 'self', V('arr', (), (q,))); off = ZERO
    else:
        st.f.add(le(a + n + rest, P.const(USIZE)))
        st.store['base'] = buf(('vec', 'global'), Seq(Seg(a + n + rest, Term('p', E))))
        r = h.I.slref(('base', (('f', 0),), ()), a, n); off = a
    def c(o, v):
        h.same_seq(o.st, h.M.content(h.I, v), Seq(Seg(n, Term('p', off + E))), 'the owned list has exactly the items of the view, in order')
    cases(h, h.run(st, h.method(TOWN, 'into_owned', key), [r]), 'taking ownership of a list is total', c)

@ob('C25.owned_option', 'C25', parts=[{'some': s} for s in (True, False)])
def _(h, some):
    st = h.st(); t = Term('the.item')
    def c(o, v):
        v = h.M.peel(h.I, v)
        h.check(o.st, bconst((v.m == (OPT, 1)) == some), 'an absent item stays absent and a present one present')
        if some and v.m == (OPT, 1): h.eqv(o.st, h.M.peel(h.I, h.I.force(v.k[0])), t, 'a present item keeps its value')
    cases(h, h.run(st, h.method(TOWN, 'into_owned', OPT), [Some(t) if some else NONE]), 'taking ownership of a nullable item is total', c)

@ob('C25.owned_group', 'C25', 'C23')
def _(h):
    st = h.st()
    q = Seq(Seg(N_, Term('p', E)))
    w = h.struct(FVIEW, {'0': V('arr', (), (q,))})
    def c(o, v): h.same_seq(o.st, h.M.content(h.I, v), q, 'the owned group has exactly the items of the view, in order')
    cases(h, h.run(st, h.method(TOWN, 'into_owned', FVIEW), [w]), 'taking ownership of a group is total', c)

@ob('C25.group_deref', 'C25', 'C23')
def _(h):
    st = h.st()
    q = Seq(Seg(N_, Term('p', E)))
    r = h.put(st, 'self', h.struct(FVIEW, {'0': V('arr', (), (q,))}))
    def c(o, v): h.same_seq(o.st, h.M.sl_content(h.I, v), q, 'a group view shows exactly its items, in order')
    cases(h, h.run(st, h.method('core::ops::deref::Deref', 'deref', FVIEW), [r]), 'looking into a group is total', c)

@ob('C25.view_item', 'C25', 'C03', parts=[{'key': k} for k in ('bool', 'param')])
def _(h, key):
    st = h.st(); x, ck = item(h, st, key)
    cases(h, h.run(st, h.method(TVIEW, 'as_view', key), [h.put(st, 'self', x)]), 'viewing an item is total', lambda o, v: ck(h.I, v, 'the view of an item is the item'))

@ob('C25.view_list', 'C25', 'C03', parts=[{'key': k} for k in ('array', 'alloc::vec::Vec')])
def _(h, key):
    st = h.st()
    n = N_ if key == 'array' else h.usize('s.len')
    q = Seq(Seg(n, Term('p', E)))
    r = h.put(st, 'self', V('arr', (), (q,)) if key == 'array' else buf(('vec', 'global'), q))
    def c(o, v): h.same_seq(o.st, h.M.sl_content(h.I, v), q, 'the view of a list shows exactly its items, in order')
    cases(h, h.run(st, h.method(TVIEW, 'as_view', key), [r]), 'viewing a list is total', c)

@ob('C25.view_option', 'C25', 'C03', parts=[{'some': s} for s in (True, False)])
def _(h, some):
    st = h.st(); t = Term('the.item')
    r = h.put(st, 'self', Some(t) if some else NONE)
    def c(o, v):
        v = h.M.peel(h.I, v)
        h.check(o.st, bconst((v.m == (OPT, 1)) == some), 'an absent item is shown absent and a present one present')
        if some and v.m == (OPT, 1): h.eqv(o.st, h.M.peel(h.I, h.I.force(v.k[0])), t, 'a present item is shown with its value')
    cases(h, h.run(st, h.method(TVIEW, 'as_view', OPT), [r]), 'viewing a nullable item is total', c)

# ------------------------------------------------------------ collections
@ob('C25.owned_at', 'C25', 'C03', parts=[{'key': k} for k in PLAIN])
def _(h, key):
    """owned(index) is the view at the index, owned"""
    st = h.st(); v0, r, n = plain(h, st, key)
    i = h.usize('index')
    def c(o, v):
        if some(v):
            h.check(o.st, lt(i, n), 'an owned item exists only inside the length')
            h.eqv(o.st, h.M.peel(h.I, h.I.force(v.k[0])), Term('p', i), 'the owned item is the item at that position')
        else: h.check(o.st, le(n, i), 'every position inside the length has an owned item')
    cases(h, h.run(st, h.method(TCOL, 'owned', key), [r, Int(i)]), 'taking an owned item is total', c)

# ------------------------------------------------------------ copies
def shapes(h, adt):
    """one value per variant with opaque fields, integers symbolic"""
    a = h.prog.adts.get(adt)
    if a is None: raise Missing('type %s' % adt)
    out = []
    for k, vt in enumerate(h.prog.types[a['ty']]['variants']):
        def val(f, k=k, pre='a'):
            t = h.prog.types[f[1]]
            nm = '%s.%d.%s' % (pre, k, f[0])
            if t['k'] == 'int': return V('int', (t['bits'], t['signed']), (var(nm, *h.I.rng((t['bits'], t['signed']))),))
            if t['k'] == 'bool': return Bool(batom(nm))
            if t['k'] == 'adt' and t['path'].endswith('PhantomData'): return Adt(t['path'], 0)
            if t['k'] == 'array': return V('arr', (), (Seq(Seg(N_, Term(nm, E))),))
            return Term(nm)
        out.append((vt, [Adt(adt, k, *[val(f, pre=p) for f in vt['f']]) for p in ('a', 'b')]))
    return out

def copied(prog):
    return sorted({prog.tykey(im['self']) for im in prog.impls_of(TCLONE) if prog.tykey(im['self']) in prog.adts})

COPIES = [BITMAP, OVIEW, FVIEW, FLATTEN, CHUNKS, FSA, 'narrow::array::Array', 'narrow::layout::fixed_size_list::FixedSizeList']
@ob('C25.clone', 'C25', parts=[{'adt': a} for a in COPIES])
def _(h, adt):
    b = h.method(TCLONE, 'clone', adt)
    for vt, (x, y) in shapes(h, adt):
        st = h.st()
        if adt == BITMAP: x = h.bitmap(st)
        r = h.put(st, 'self', x)
        def c(o, v):
            v = h.I.force(v)
            if not (v.t == 'adt' and v.m == x.m): h.fail(o.st, 'a copy is of the same kind'); return
            for f, p, q in zip(vt['f'], x.k, v.k):
                q = h.M.peel(h.I, q)
                if p.t == 'arr': h.same_seq(o.st, h.M.content(h.I, q), p.k[0], 'a copy has the same %s' % f[0])
                else: h.eqv(o.st, q, p, 'a copy has the same %s' % f[0])
        cases(h, h.run(st, b, [r]), 'copying is total', c)

@ob('C25.fixed_array', 'C25', 'C23', parts=[{'op': o} for o in ('from', 'deref', 'eq')])
def _(h, op):
    q = Seq(Seg(N_, Term('p', E))); arr = V('arr', (), (q,))
    st = h.st()
    if op == 'from':
        def c(o, v): h.same_seq(o.st, h.M.content(h.I, h.I.force(h.I.force(v).k[0])), q, 'the fixed-size array holds exactly the given items, in order')
        cases(h, h.run(st, h.method('core::convert::From', 'from', FSA), [arr]), 'conversion is total', c)
    elif op == 'deref':
        r = h.put(st, 'self', h.struct(FSA, {'0': arr}))
        def c(o, v): h.same_seq(o.st, h.M.sl_content(h.I, v), q, 'the fixed-size array shows exactly its items, in order')
        cases(h, h.run(st, h.method('core::ops::deref::Deref', 'deref', FSA), [r]), 'looking into a fixed-size array is total', c)
    else:
        b = h.method('core::cmp::PartialEq', 'eq', FSA)
        st.f.add(lt(ZERO, N_))
        same = lambda p: veq(h.M, h.I, Term('p', p), Term('q', p))
        r = h.put(st, 'self', h.struct(FSA, {'0': arr}))
        s = h.put(st, 'other', h.struct(FSA, {'0': V('arr', (), (Seq(Seg(N_, Term('q', E))),))}))
        for case in ('same', 'differ'):
            g = st.copy()
            if case == 'same': g.f.alls = g.f.alls + (Forall(EBV, N_, [same(E)]),); g.f._dirty()
            else:
                j = h.usize('j'); g.f.add(lt(j, N_)); g.f.add(bnot(same(j)))
            def c(o, v): h.check(o.st, v.k[0] if case == 'same' else bnot(v.k[0]), 'fixed-size arrays are equal exactly when all their items are')
            cases(h, h.run(g, b, [r, s]), 'comparing fixed-size arrays is total', c)

# ------------------------------------------------------------ nullability
@ob('C25.combine', 'C25', parts=[{'op': o, 'nullable': n} for o in ('map', 'zip', 'zip_with') for n in (False, True)])
def _(h, op, nullable):
    b = h.method(TNUL, op, NULLS[nullable])
    x, y = Term('left'), Term('right')
    what = h.what
    for m in ('map', 'zip', 'zip_with'):   # the trait's own type is the constructor at hand
        h.M.meth[(TNUL, m)] = lambda M, I, a, c, m=m: I.call_body(h.method(TNUL, m, NULLS[nullable]), a)
    def f(I, *a):
        I.st.store[('called', len(I.st.store))] = UNIT
        return Term('f', *[t for z in a for t in ((I.force(z),) if I.force(z).t != 'tup' else I.force(z).k)])
    fn = V('pyfn', (f,))
    opts = [(True, True)] if not nullable else [(p, q) for p in (True, False) for q in ((True, False) if op != 'map' else (True,))]
    for p, q in opts:
        h.what = what; st = h.st()
        w = lambda t, s: t if not nullable else Some(t) if s else NONE
        args = {'map': [w(x, p), fn], 'zip': [w(x, p), w(y, q)], 'zip_with': [w(x, p), w(y, q), fn]}[op]
        want = {'map': Term('f', x), 'zip': Tup(x, y), 'zip_with': Term('f', x, y)}[op]
        present = p and q
        def c(o, v):
            v = h.I.force(v)
            n = sum(1 for k in o.st.store if isinstance(k, tuple) and k[0] == 'called')
            if op != 'zip': h.check(o.st, bconst(n == (1 if present else 0)), 'the function is applied exactly once to present items and never to absent ones')
            if nullable:
                ok = v.t == 'adt' and v.m == (OPT, 1 if present else 0)
                h.check(o.st, bconst(ok), 'the combination is present exactly when every item is')
                if not ok or not present: return
                v = h.I.force(v.k[0])
            same(h, o.st, v, want, 'the combination holds the items, in order')
        cases(h, h.run(st, b, args), 'combining items is total', c)

def same(h, st, v, want, msg):
    v = h.M.peel(h.I, v)
    if v.t == 'tup' and want.t == 'tup' and len(v.k) == len(want.k):
        for a, b in zip(v.k, want.k): same(h, st, h.I.force(a), b, msg)
    elif v.t == 'term' and want.t == 'term' and v.m == want.m and len(v.k) == len(want.k) and v.m == 'f':
        for a, b in zip(v.k, want.k): same(h, st, h.I.force(a), b, msg)
    else: h.eqv(st, v, want, msg)
