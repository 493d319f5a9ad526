"""Properties about which programs type-check: C21, C22, F05, F08."""
import os, re, shutil, subprocess, tempfile
from .props import rule
from . import witness as W
from .witness import accept, refuse

PRIMS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64']
T = {'E0277', 'E0271'}

def c21():
    ws = []
    a = lambda what, body: ws.append(accept(body, what))
    nn, nu = 'NonNullable', 'Nullable'
    # base layouts, for every nullability and storage at once
    a('bool as Layout', 'pub fn f<U: Nullability, S: Buffer>() { same::<<bool as Layout>::Memory<U, S>, Boolean<U, S>>() }')
    a('every fixed-size type as Layout', 'pub fn f<T: FixedSize, U: Nullability, S: Buffer>() { same::<<T as Layout>::Memory<U, S>, FixedSizePrimitive<T, U, S>>() }')
    a('arrays as Layout', 'pub fn f<T: ArrayItem, const N: usize, U: Nullability, S: Buffer>() { same::<<[T; N] as Layout>::Memory<U, S>, FixedSizeList<T, N, U, S>>() }')
    a('vectors as Layout', 'pub fn f<T: ArrayItem, U: Nullability, S: Buffer>() { same::<<Vec<T> as Layout>::Memory<U, S>, VariableSizeList<T, U, i32, S>>() }')
    # items: plain and optional
    a('required items', 'pub fn f<T: Layout, S: Buffer>() { same::<<T as ArrayItem>::Memory<S>, <T as Layout>::Memory<NonNullable, S>>() }')
    a('optional items', 'pub fn f<T: NullableLayout, S: Buffer>() { same::<<Option<T> as ArrayItem>::Memory<S>, <T as Layout>::Memory<Nullable, S>>() }')
    for p in PRIMS:
        a('%s items' % p, 'pub fn f<S: Buffer>() { same::<<%s as ArrayItem>::Memory<S>, FixedSizePrimitive<%s, NonNullable, S>>(); same::<<Option<%s> as ArrayItem>::Memory<S>, FixedSizePrimitive<%s, Nullable, S>>() }' % (p, p, p, p))
    a('bool items', 'pub fn f<S: Buffer>() { same::<<bool as ArrayItem>::Memory<S>, Boolean<NonNullable, S>>(); same::<<Option<bool> as ArrayItem>::Memory<S>, Boolean<Nullable, S>>() }')
    a('array items', 'pub fn f<T: ArrayItem, const N: usize, S: Buffer>() { same::<<[T; N] as ArrayItem>::Memory<S>, FixedSizeList<T, N, NonNullable, S>>(); same::<<Option<[T; N]> as ArrayItem>::Memory<S>, FixedSizeList<T, N, Nullable, S>>() }')
    a('vector items', 'pub fn f<T: ArrayItem, S: Buffer>() { same::<<Vec<T> as ArrayItem>::Memory<S>, VariableSizeList<T, NonNullable, i32, S>>(); same::<<Option<Vec<T>> as ArrayItem>::Memory<S>, VariableSizeList<T, Nullable, i32, S>>() }')
    a('fixed-size array items', 'pub fn f<T: FixedSize, const N: usize, S: Buffer>() { same::<<FixedSizeArray<T, N> as ArrayItem>::Memory<S>, FixedSizePrimitive<FixedSizeArray<T, N>, NonNullable, S>>(); same::<<Option<FixedSizeArray<T, N>> as ArrayItem>::Memory<S>, FixedSizePrimitive<FixedSizeArray<T, N>, Nullable, S>>() }')
    a('nested items', 'pub fn f<S: Buffer>() { same::<<Vec<Option<[bool; 3]>> as ArrayItem>::Memory<S>, VariableSizeList<Option<[bool; 3]>, NonNullable, i32, S>>(); same::<<Option<[bool; 3]> as ArrayItem>::Memory<S>, FixedSizeList<bool, 3, Nullable, S>>() }')
    # what each layout stores
    def part(what, gen, self_, inner):
        a('part of ' + what, 'pub fn f<%s, U: Nullability, S: Buffer>(x: %s) { let y: <U as Nullability>::Collection<%s, S> = x.into_buffer(); same::<<%s as BufferRef>::Buffer, <U as Nullability>::Collection<%s, S>>() }' % (gen, self_, inner, self_, inner))
    part('Boolean', 'A', 'Boolean<U, S>', 'Bitmap<S>')
    part('FixedSizePrimitive', 'T: FixedSize', 'FixedSizePrimitive<T, U, S>', '<S as Buffer>::For<T>')
    part('FixedSizeList', 'T: ArrayItem, const N: usize', 'FixedSizeList<T, N, U, S>', 'Flatten<<T as ArrayItem>::Memory<S>, N>')
    part('VariableSizeList', 'T: ArrayItem, O: Offset', 'VariableSizeList<T, U, O, S>', 'Offsets<<T as ArrayItem>::Memory<S>, O, S>')
    a('part of Array', 'pub fn f<T: ArrayItem, S: Buffer>(x: Array<T, S>) { let y: <T as ArrayItem>::Memory<S> = x.into_buffer(); same::<<Array<T, S> as BufferRef>::Buffer, <T as ArrayItem>::Memory<S>>(); same::<<Array<T, S> as Collection>::Owned, T>() }')
    a('parts of Validity', 'pub fn f<T: Collection, S: Buffer>(x: Validity<T, S>) { let (c, b): (T, Option<Bitmap<S>>) = x.into_parts(); }')
    a('parts of Offsets', 'pub fn f<T: Collection, O: Offset, S: Buffer>(x: Offsets<T, O, S>) { let (c, b): (T, <S as Buffer>::For<O>) = x.into_parts(); }')
    a('parts of Bitmap', 'pub fn f<S: Buffer>(x: Bitmap<S>) { let (b, n, o): (<S as Buffer>::For<u8>, usize, usize) = x.into_parts(); }')
    a('parts of Flatten', 'pub fn f<C: Collection, const N: usize>(x: Flatten<C, N>) { let c: C = x.into_parts(); }')
    # nullability
    a('required', 'pub fn f<T, C: Collection, S: Buffer>() { same::<<NonNullable as Nullability>::Item<T>, T>(); same::<<NonNullable as Nullability>::Collection<C, S>, C>(); } pub const A: () = assert!(!<NonNullable as Nullability>::NULLABLE);')
    a('optional', 'pub fn f<T, C: Collection, S: Buffer>() { same::<<Nullable as Nullability>::Item<T>, Option<T>>(); same::<<Nullable as Nullability>::Collection<C, S>, Validity<C, S>>(); } pub const A: () = assert!(<Nullable as Nullability>::NULLABLE);')
    # owned item of every layout
    a('items of layouts', 'pub fn f<T: ArrayItem, V: FixedSize, const N: usize, U: Nullability, O: Offset, S: Buffer>() { same::<<Boolean<U, S> as Collection>::Owned, <U as Nullability>::Item<bool>>(); same::<<FixedSizePrimitive<V, U, S> as Collection>::Owned, <U as Nullability>::Item<V>>(); same::<<FixedSizeList<T, N, U, S> as Collection>::Owned, <U as Nullability>::Item<[T; N]>>(); same::<<VariableSizeList<T, U, O, S> as Collection>::Owned, <U as Nullability>::Item<Vec<T>>>(); same::<<Validity<<T as ArrayItem>::Memory<S>, S> as Collection>::Owned, Option<T>>() }')
    # storage
    for s, t in (('VecBuffer', 'Vec<T>'), ('BoxBuffer', 'Box<[T]>'), ('RcBuffer', 'Rc<[T]>'), ('ArcBuffer', 'Arc<[T]>'), ("ArrayBuffer<N>", '[T; N]'), ("SliceBuffer<'a>", "&'a [T]")):
        a('storage ' + s, "pub fn f<'a, T: FixedSize, const N: usize>() { same::<<%s as Buffer>::For<T>, %s>() }" % (s, t))
    a('default storage', 'pub fn f() { same::<Array<i32>, Array<i32, VecBuffer>>(); same::<Bitmap, Bitmap<VecBuffer>>(); same::<Boolean, Boolean<NonNullable, VecBuffer>>() }')
    a('layout markers', 'pub fn m<M: MemoryLayout>() {} pub fn f<T: ArrayItem, V: FixedSize, const N: usize, U: Nullability, O: Offset, S: Buffer>() { m::<Boolean<U, S>>(); m::<FixedSizePrimitive<V, U, S>>(); m::<FixedSizeList<T, N, U, S>>(); m::<VariableSizeList<T, U, O, S>>() }')
    # refused: every item has a twin differing only in the unsupported part
    def n(what, bad, good, tmpl='pub fn i<T: ArrayItem>() {} pub fn f() { i::<%s>() }'):
        ws.append(refuse(tmpl % bad, what, T, twin=tmpl % good))
    n('doubly optional items', 'Option<Option<i32>>', 'Option<i32>')
    n('doubly optional booleans', 'Option<Option<bool>>', 'Option<bool>')
    n('doubly optional vectors', 'Option<Option<Vec<i32>>>', 'Option<Vec<i32>>')
    n('doubly optional arrays', 'Option<Option<[i32; 2]>>', 'Option<[i32; 2]>')
    n('vectors of doubly optional items', 'Vec<Option<Option<u8>>>', 'Vec<Option<u8>>')
    n('arrays of doubly optional items', '[Option<Option<u8>>; 2]', '[Option<u8>; 2]')
    for t in ('char', '&str', 'String', '(i32, i32)', '()', 'Box<i32>', 'Box<[i32]>', "&'static [i32]", "&'static i32", '*const i32', 'Option<char>', 'Vec<char>', '[char; 2]', 'core::num::NonZeroU8', 'Option<()>', 'Rc<i32>', 'Array<i32>', 'Result<i32, i32>', 'fn()', 'core::cell::Cell<i32>', 'Option<Array<i32>>'):
        n('items of type ' + t, t, 'i32')
    n('optional as a base layout', 'Option<i32>', 'i32', 'pub fn l<T: Layout>() {} pub fn f() { l::<%s>() }')
    n('optional as a nullable base layout', 'Option<i32>', 'i32', 'pub fn l<T: NullableLayout>() {} pub fn f() { l::<%s>() }')
    fs = 'pub fn i<T: FixedSize>() {} pub fn f() { i::<%s>() }'
    for t in ('bool', 'char', '()', '[u8; 4]', 'Option<u8>', '&\'static u8', '(u8, u8)', 'core::num::NonZeroU32', 'Vec<u8>', '*const u8', 'FixedSizeArray<bool, 2>', 'core::mem::MaybeUninit<u8>', 'core::sync::atomic::AtomicU8', 'core::num::Wrapping<u8>', 'NonNullable'):
        n('%s as a fixed-size type' % t, t, 'u8', fs)
    for t in PRIMS:
        if t in ('i32', 'i64'): ws.append(accept('pub fn o<T: Offset>() {} pub fn f() { o::<%s>() }' % t, 'offset type ' + t))
        else: n('offset type ' + t, t, 'i32', 'pub fn o<T: Offset>() {} pub fn f() { o::<%s>() }')
    for t in ('bool', '()', 'Option<()>', 'bool', 'VecBuffer'):
        n('nullability marker ' + t, t, 'Nullable', 'pub fn u<T: Nullability>() {} pub fn f() { u::<%s>() }')
    n('array with an unsupported item', 'char', 'u8', 'pub fn f(x: Array<%s>) {}')
    n('array with a doubly optional item', 'Option<Option<u8>>', 'Option<u8>', 'pub fn f(x: Array<%s>) {}')
    n('primitive layout of booleans', 'bool', 'u8', 'pub fn f(x: FixedSizePrimitive<%s>) {}')
    n('list layout with unsigned offsets', 'u32', 'i64', 'pub fn f(x: VariableSizeList<u8, NonNullable, %s>) {}')
    n('layout with a unit nullability', '()', 'Nullable', 'pub fn f(x: Boolean<%s>) {}')
    return ws

@rule('C21')
def layouts(ctx):
    W.run(ctx, 'layout-selection', c21())

# --------------------------------------------------------------------------- C26
def c26():
    ws = []
    FN = 'pub fn ss<T: Send + Sync>() {} pub fn s<T: Send>() {} pub fn y<T: Sync>() {} '
    SB = 'S: Buffer, S::For<u8>: Send + Sync'
    def a(what, body): ws.append(accept(FN + body, what))
    def gen(what, params, where, ty):
        for m, fn in (('Send', 's'), ('Sync', 'y')):
            a('%s of %s' % (m, what), 'pub fn f<%s>() where %s { %s::<%s>() }' % (params, where.replace('!', m), fn, ty))
    gen('Bitmap', 'S: Buffer', 'S::For<u8>: !', 'Bitmap<S>')
    gen('Validity', 'T: Collection + !, S: Buffer'.replace('!', 'Send + Sync'), 'S::For<u8>: !', 'Validity<T, S>')
    gen('Offsets', 'T: Collection<Owned: Send + Sync> + Send + Sync, O: Offset + Send + Sync, S: Buffer', 'S::For<O>: !', 'Offsets<T, O, S>')
    gen('Flatten', 'C: Collection, const N: usize', 'C: !', 'Flatten<C, N>')
    gen('Boolean', 'U: Nullability, S: Buffer', '<U as Nullability>::Collection<Bitmap<S>, S>: !', 'Boolean<U, S>')
    gen('FixedSizePrimitive', 'T: FixedSize, U: Nullability, S: Buffer', '<U as Nullability>::Collection<S::For<T>, S>: !', 'FixedSizePrimitive<T, U, S>')
    gen('FixedSizeList', 'T: ArrayItem, const N: usize, U: Nullability, S: Buffer', '<U as Nullability>::Collection<Flatten<T::Memory<S>, N>, S>: !', 'FixedSizeList<T, N, U, S>')
    gen('VariableSizeList', 'T: ArrayItem, U: Nullability, O: Offset, S: Buffer', '<U as Nullability>::Collection<Offsets<T::Memory<S>, O, S>, S>: !', 'VariableSizeList<T, U, O, S>')
    gen('Array', 'T: ArrayItem, S: Buffer', 'T::Memory<S>: !', 'Array<T, S>')
    items = ['u8', 'Option<u8>', 'i64', 'f32', 'bool', 'Option<bool>', '[u16; 3]', 'Option<[bool; 3]>', 'Vec<u8>', 'Option<Vec<Option<bool>>>', 'Vec<[Option<f64>; 2]>', 'FixedSizeArray<u8, 4>']
    for b in ('VecBuffer', 'BoxBuffer', 'ArcBuffer', "SliceBuffer<'static>", 'ArrayBuffer<8>'):
        for i in items: a('arrays of %s over %s' % (i, b), 'pub fn f() { ss::<Array<%s, %s>>() }' % (i, b))
    for i in items:
        for fn in ('s', 'y'):
            t = FN + 'pub fn f() { %s::<Array<%s, %%s>>() }' % (fn, i)
            ws.append(refuse(t % 'RcBuffer', 'arrays of %s over RcBuffer %s' % (i, {'s': 'sent to another thread', 'y': 'shared with another thread'}[fn]), {'E0277'}, twin=t % 'ArcBuffer'))
    for i in ("<Bitmap<VecBuffer> as Collection>::IntoIter", "<Bitmap<VecBuffer> as Collection>::Iter<'static>", "<Validity<Vec<u8>, VecBuffer> as Collection>::IntoIter", "<Validity<Vec<u8>, VecBuffer> as Collection>::Iter<'static>",
              "<Flatten<Vec<u8>, 2> as Collection>::Iter<'static>", "<Flatten<Vec<u8>, 2> as Collection>::View<'static>", "<Offsets<Vec<u8>, i32, VecBuffer> as Collection>::View<'static>", "<Offsets<Vec<u8>, i32, VecBuffer> as Collection>::Iter<'static>", "<Offsets<Vec<u8>, i32, VecBuffer> as Collection>::IntoIter"):
        a('views and iterators: ' + i, 'pub fn f() { ss::<%s>() }' % i)
    return ws

@rule('C26')
def threads(ctx):
    W.run(ctx, 'thread-safety', c26())

# --------------------------------------------------------------------------- C22
LOCAL = '''
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(transparent)] pub struct X(pub i32);
impl TryFrom<usize> for X { type Error = core::num::TryFromIntError; fn try_from(v: usize) -> Result<X, Self::Error> { i32::try_from(v).map(X) } }
impl TryFrom<X> for usize { type Error = core::num::TryFromIntError; fn try_from(v: X) -> Result<usize, Self::Error> { usize::try_from(v.0) } }
impl core::ops::Add for X { type Output = X; fn add(self, o: X) -> X { X(self.0 + o.0) } }
impl core::ops::Deref for X { type Target = i32; fn deref(&self) -> &i32 { &self.0 } }
impl From<i32> for X { fn from(v: i32) -> X { X(v) } }
impl From<X> for i32 { fn from(v: X) -> i32 { v.0 } }
impl core::fmt::Display for X { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl AsRef<i32> for X { fn as_ref(&self) -> &i32 { &self.0 } }
impl Iterator for X { type Item = i32; fn next(&mut self) -> Option<i32> { None } }
'''
NULLS = '''impl Nullability for X { const NULLABLE: bool = false; type Item<T> = T; type Collection<T: Collection, Storage: Buffer> = T;
 fn map<T, U, F: FnOnce(T) -> U>(item: T, f: F) -> U { f(item) } fn zip<T, U>(item: T, other: U) -> (T, U) { (item, other) } }'''
OFFS = 'impl Offset for X { fn strict_add(self, o: Self) -> Self { X(self.0 + o.0) } fn as_usize(self) -> usize { 0 } }'

@rule('C22')
def sealed(ctx):
    ws = []
    S = {'E0277', 'E0603', 'E0433', 'E0432'}
    def r(what, body, codes=S): ws.append(refuse(LOCAL + body, what, codes, twin=LOCAL))
    r('FixedSize implemented by another crate', 'impl FixedSize for X {}')
    r('FixedSize implemented by another crate with its own size', 'impl FixedSize for X { const SIZE: usize = 1; }')
    r('FixedSize for a generic foreign type', 'pub struct G<T>(pub T); impl<T: Copy> Clone for G<T> { fn clone(&self) -> Self { *self } } impl<T: Copy> Copy for G<T> {} impl<T: FixedSize> FixedSize for G<T> {}')
    r('FixedSize for an array of a foreign type', 'pub fn i<T: FixedSize>() {} pub fn f() { i::<FixedSizeArray<X, 2>>() }')
    r('Nullability implemented by another crate', NULLS)
    r('Offset implemented by another crate', OFFS)
    r('Offset and FixedSize implemented by another crate', OFFS + 'impl FixedSize for X {}')
    for m in ('fixed_size', 'offset', 'nullability'):
        r('the sealing trait of %s named by another crate' % m, 'impl narrow::%s::sealed::Sealed for X {}' % m, {'E0603', 'E0433', 'E0432'})
        r('the sealing module of %s imported by another crate' % m, 'use narrow::%s::sealed::*;' % m, {'E0603', 'E0433', 'E0432'})
    for p in PRIMS: ws.append(accept('pub fn i<T: FixedSize>() {} pub fn f() { i::<%s>() } pub const A: () = assert!(<%s as FixedSize>::SIZE == core::mem::size_of::<%s>());' % (p, p, p), 'size of ' + p, W.TYPES | {'E0080'}))
    W.run(ctx, 'closed-family', ws)

FAMILIES = {'narrow::fixed_size::FixedSize': set(PRIMS) | {'fixed_size::FixedSizeArray'}, 'narrow::offset::Offset': {'i32', 'i64'}, 'narrow::nullability::Nullability': {'nullability::NonNullable', 'nullability::Nullable'}}

@rule('C22')
def members(ctx):
    """The implementors of each family in the current source are exactly the documented ones"""
    import json
    d = json.load(open(os.path.join(ctx.out, 'narrow.json')))
    ty = d['types']
    def name(i):
        t = ty[i]
        if t['k'] == 'adt': return re.sub(r'^narrow::', '', t['path'])
        return t['s']
    traits = {t['path']: t for t in d['traits']}
    for fam, want in FAMILIES.items():
        t = traits.get(fam)
        if t is None: ctx.unknown('closed-family', fam, 'trait not found'); continue
        seen = []
        for im in d['impls']:
            if (im.get('trait') or '') in (fam, fam.replace('narrow::', '')):
                ctx.obligation(); ctx.count('family_members')
                k = ty[im['self']]['k']
                if k in ('param', 'alias'): ctx.fail('closed-family', im['text'][:120], 'blanket implementation: another crate can join the family')
                else:
                    n = name(im['self'])
                    ctx.expect(n in want, 'closed-family', im['text'][:120], 'type outside the documented family %s' % fam)
                    seen.append(n)
        for m in sorted(want - set(seen)): ctx.fail('closed-family', fam, 'documented member %s is missing' % m)

@rule('C22')
def seals(ctx):
    """Each family has a supertrait that another crate can neither name nor obtain through a blanket implementation"""
    import json
    d = json.load(open(os.path.join(ctx.out, 'narrow.json')))
    ty = d['types']; traits = {t['path']: t for t in d['traits']}
    def closed(p, seen=()):
        t = traits.get(p)
        if t is None or p in seen: return False
        if not t['exported'] and not any((im.get('trait') or '') == p and ty[im['self']]['k'] in ('param', 'alias', 'ref') for im in d['impls']): return True
        return any(closed(q, seen + (p,)) for q in supers(t))
    def supers(t):
        return ['narrow::' + re.sub(r'^narrow::', '', s[len('Self: '):].split('<')[0]) for s in t['supers'] if s.startswith('Self: ')]
    for fam in FAMILIES:
        t = traits.get(fam)
        if t is None: ctx.unknown('closed-family', fam, 'trait not found'); continue
        ctx.obligation(); ctx.count('families')
        ctx.expect(any(closed(q) for q in supers(t)), 'closed-family', '%s (%s)' % (fam, t['span']), 'no supertrait is out of reach of other crates: each can be named, or is implemented for every type')

@rule('C22')
def no_unsafe(ctx):
    import json
    d = json.load(open(os.path.join(ctx.out, 'narrow.json')))
    # probe: the crate plus one unsafe block under an explicit allow must not build, in every build configuration
    tmp = tempfile.mkdtemp(prefix='nsa-unsafe.')
    try:
        cp = os.path.join(tmp, 'r')
        shutil.copytree(ctx.repo, cp, ignore=shutil.ignore_patterns('target', '.git'))
        lib = os.path.join(cp, 'src', 'lib.rs')
        if not os.path.exists(lib): ctx.unknown('forbid-unsafe', 'src/lib.rs', 'crate root not found'); return
        with open(lib) as f: src = f.read()
        lint = lambda c: c and not re.match(r'E\d+$', c)       # denied lints of the crate itself
        def build(extra, args, text):
            with open(lib, 'w') as f: f.write(text + extra)
            import json as J
            r = subprocess.run(['cargo', 'check', '-p', 'narrow', '--lib', '--offline', '--locked', '--message-format=json', '--target-dir', os.path.join(tmp, 't')] + args, cwd=cp, env=W.ENV, capture_output=True, text=True)
            codes = []
            for l in r.stdout.splitlines():
                try: m = J.loads(l)
                except ValueError: continue
                if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error': codes.append(((m['message'].get('code') or {}).get('code', ''), m['message']['message'][:200]))
            return r.returncode, codes
        probe = '\n#[allow(unsafe_code, missing_docs, warnings, clippy::all)]\npub mod nsa_probe {\n#[allow(unsafe_code)] pub fn nsa_probe(p: *const u8) -> u8 { unsafe { *p } }\n}\n'
        twin = '\n#[allow(missing_docs, warnings, clippy::all)]\npub mod nsa_probe {\npub fn nsa_probe(p: *const u8) -> *const u8 { p }\n}\n'
        for args in ([], ['--release'], ['--all-features'], ['--no-default-features']):
            ctx.obligation(); ctx.count('build_configurations')
            what = 'crate narrow, cargo check ' + ' '.join(args)
            rc, codes = build(twin, args, src)
            base = set(codes)
            if rc and any(not lint(c) for c, m in codes): ctx.unknown('forbid-unsafe', what, 'the crate does not build with an added module: %s' % codes[:1]); continue
            rc, codes = build(probe, args, src)
            codes = [c for c in codes if c not in base]
            if rc == 0 or not codes: ctx.fail('forbid-unsafe', what, 'an unsafe block under #[allow(unsafe_code)] builds: unsafe code can be added to the core')
            elif any(c == 'E0453' or 'unsafe_code' in c or 'unsafe' in m for c, m in codes): ctx.ok()
            else: ctx.unknown('forbid-unsafe', what, 'refused for another reason: %s' % codes[:1])
    finally: shutil.rmtree(tmp, ignore_errors=True)

# --------------------------------------------------------------------------- F05
FPRE = W.PRE + 'use narrow_ffi::*;\n'
@rule('F05')
def borrows(ctx):
    ws = []
    def r(what, bad, codes, good): ws.append(refuse(bad, what, codes, FPRE, good))
    def a(what, b, codes=W.TYPES): ws.append(accept(b, what, codes, FPRE))
    LT = {'E0505', 'E0597', 'E0515', 'E0521', 'E0716', 'E0499', 'E0502', 'E0506', 'E0621', '', 'E0310', 'E0309', 'E0477', 'E0478', 'E0491'}
    for t, tag in (('i32', 'flat'), ('Option<bool>', 'nullable'), ('Vec<i32>', 'list'), ('[Option<u8>; 2]', 'fixed-size list')):
        r('%s import outliving a dropped array structure' % tag, "pub fn f(a: ArrowArray, s: ArrowSchema) { let x = unsafe { <Array<%s, SliceBuffer<'_>> as Import<'_>>::import(&a, &s) }; drop(a); drop(x); }" % t, LT,
          "pub fn f(a: ArrowArray, s: ArrowSchema) { let x = unsafe { <Array<%s, SliceBuffer<'_>> as Import<'_>>::import(&a, &s) }; drop(x); drop(a); }" % t)
        r('%s import returned past its array structure' % tag, "pub fn f(a: ArrowArray, s: ArrowSchema) -> Array<%s, SliceBuffer<'static>> { unsafe { <Array<%s, SliceBuffer<'_>> as Import<'_>>::import(&a, &s) }.unwrap() }" % (t, t), LT,
          "pub fn f(a: &'static ArrowArray, s: ArrowSchema) -> Array<%s, SliceBuffer<'static>> { unsafe { <Array<%s, SliceBuffer<'_>> as Import<'_>>::import(a, &s) }.unwrap() }" % (t, t))
        r('%s import with a longer lifetime than its array structure' % tag, "pub fn f<'a>(a: &'a ArrowArray, s: &ArrowSchema) -> Array<%s, SliceBuffer<'static>> { unsafe { <Array<%s, SliceBuffer<'static>> as Import<'_>>::import(a, s) }.unwrap() }" % (t, t), LT | {'E0277', 'E0271', 'E0308'},
          "pub fn f<'a>(a: &'a ArrowArray, s: &ArrowSchema) -> Array<%s, SliceBuffer<'a>> { unsafe { <Array<%s, SliceBuffer<'a>> as Import<'a>>::import(a, s) }.unwrap() }" % (t, t))
        r('array structure written while a %s import of it is alive' % tag, "pub fn f(mut a: ArrowArray, s: ArrowSchema) { let x = unsafe { <Array<%s, SliceBuffer<'_>> as Import<'_>>::import(&a, &s) }; a = ArrowArray::default(); drop(x); }" % t, LT,
          "pub fn f(mut a: ArrowArray, s: ArrowSchema) { let x = unsafe { <Array<%s, SliceBuffer<'_>> as Import<'_>>::import(&a, &s) }; drop(x); a = ArrowArray::default(); }" % t)
        r('%s import without unsafe' % tag, "pub fn f<'a>(a: &'a ArrowArray, s: &ArrowSchema) -> Array<%s, SliceBuffer<'a>> { <Array<%s, SliceBuffer<'a>> as Import<'a>>::import(a, s).unwrap() }" % (t, t), {'E0133'},
          "pub fn f<'a>(a: &'a ArrowArray, s: &ArrowSchema) -> Array<%s, SliceBuffer<'a>> { unsafe { <Array<%s, SliceBuffer<'a>> as Import<'a>>::import(a, s) }.unwrap() }" % (t, t))
        a('%s import borrows the schema only for the call' % tag, "pub fn f<'a>(a: &'a ArrowArray) -> Array<%s, SliceBuffer<'a>> { let s = ArrowSchema::default(); unsafe { <Array<%s, SliceBuffer<'a>> as Import<'a>>::import(a, &s) }.unwrap() }" % (t, t), LT | W.TYPES)
        for st in ('VecBuffer', 'BoxBuffer', 'RcBuffer', 'ArcBuffer', "SliceBuffer<'static>", 'ArrayBuffer<4>'):
            a('export of %s in %s' % (t, st), 'pub fn e<T: Export>() {} pub fn f() { e::<Array<%s, %s>>() }' % (t, st))
        r('export of a %s array that borrows its memory' % tag, "pub fn f<'a>(x: Array<%s, SliceBuffer<'a>>) { let _ = x.export(); }" % t, LT | {'E0277', 'E0599', 'E0597', 'E0759'},
          "pub fn f(x: Array<%s, SliceBuffer<'static>>) { let _ = x.export(); }" % t)
        r('re-export of an imported %s array' % tag, "pub fn f<'a>(a: &'a ArrowArray, s: &ArrowSchema) { let _ = unsafe { <Array<%s, SliceBuffer<'a>> as Import<'a>>::import(a, s) }.unwrap().export(); }" % t, LT | {'E0277'},
          "pub fn f(a: &'static ArrowArray, s: &ArrowSchema) { let _ = unsafe { <Array<%s, SliceBuffer<'static>> as Import<'static>>::import(a, s) }.unwrap().export(); }" % t)
        r('export of a %s array over borrowed local memory' % tag, "pub fn e<T: Export>() {} pub fn f<'a>(x: &'a [u8]) { e::<Array<%s, SliceBuffer<'a>>>() }" % t, LT | {'E0277'},
          "pub fn e<T: Export>() {} pub fn f<'a>(x: &'a [u8]) { e::<Array<%s, SliceBuffer<'static>>>() }" % t)
    for b in ('Vec<i32>', 'Validity<Vec<i32>>', 'Boolean', 'FixedSizePrimitive<i32>', '&Array<i32>', "&'static Array<i32>", 'Array<u128>', 'Array<FixedSizeArray<u8, 2>>', 'Array<Vec<usize>>'):
        r('export of %s' % b, 'pub fn e<T: Export>() {} pub fn f() { e::<%s>() }' % b.replace('&Array', "&'static Array"), {'E0277'}, 'pub fn e<T: Export>() {} pub fn f() { e::<Array<i32>>() }')
    for b in ('Array<i32, VecBuffer>', "Array<i32, BoxBuffer>", "Array<Vec<i32>, ArcBuffer>", "Array<bool, RcBuffer>"):
        r('import into owned storage %s' % b, "pub fn i<'a, T: Import<'a>>() {} pub fn f<'a>() { i::<'a, %s>() }" % b, {'E0277', 'E0271'}, "pub fn i<'a, T: Import<'a>>() {} pub fn f<'a>() { i::<'a, Array<i32, SliceBuffer<'a>>>() }")
    r('exchange structures copied', 'pub fn c<T: Clone>() {} pub fn f() { c::<ArrowArray>() }', {'E0277'}, 'pub fn c<T>() {} pub fn f() { c::<ArrowArray>() }')
    r('schema structures copied', 'pub fn c<T: Clone>() {} pub fn f() { c::<ArrowSchema>() }', {'E0277'}, 'pub fn c<T>() {} pub fn f() { c::<ArrowSchema>() }')
    for fld in ('release', 'private_data', 'buffers', 'children', 'length', 'n_buffers', 'n_children', 'null_count', 'offset', 'dictionary'):
        r('field %s of an array structure written by safe code' % fld, 'pub fn f(mut a: ArrowArray) { let _ = &mut a.%s; }' % fld, {'E0616'}, 'pub fn f(mut a: ArrowArray) { let _ = &mut a; }')
    for fld in ('release', 'private_data', 'children', 'format', 'n_children', 'flags', 'dictionary'):
        r('field %s of a schema structure written by safe code' % fld, 'pub fn f(mut a: ArrowSchema) { let _ = &mut a.%s; }' % fld, {'E0616'}, 'pub fn f(mut a: ArrowSchema) { let _ = &mut a; }')
    W.run(ctx, 'borrow-and-ownership', ws)

# --------------------------------------------------------------------------- F08
ARRAY = [('length', 'i64'), ('null_count', 'i64'), ('offset', 'i64'), ('n_buffers', 'i64'), ('n_children', 'i64'), ('buffers', '*mut *const core::ffi::c_void'), ('children', '*mut *mut Self'),
         ('dictionary', '*mut Self'), ('release', 'Option<unsafe extern "C" fn(*mut Self)>'), ('private_data', '*mut core::ffi::c_void')]
SCHEMA = [('format', '*const core::ffi::c_char'), ('name', '*const core::ffi::c_char'), ('metadata', '*const core::ffi::c_char'), ('flags', 'i64'), ('n_children', 'i64'), ('children', '*mut *mut Self'),
          ('dictionary', '*mut Self'), ('release', 'Option<unsafe extern "C" fn(*mut Self)>'), ('private_data', '*mut core::ffi::c_void')]
@rule('F08')
def abi(ctx):
    import json
    d = json.load(open(os.path.join(ctx.out, 'narrow_ffi.json')))
    ty = d['types']
    adts = {a['path'].split('::')[-1]: a for a in d['adts']}
    for name, want in (('ArrowArray', ARRAY), ('ArrowSchema', SCHEMA)):
        a = adts.get(name)
        if a is None: ctx.unknown('abi-layout', name, 'structure not found'); continue
        at = a.get('span') or name
        ctx.obligation(); ctx.count('structures')
        ctx.expect('IS_C' in a['repr'] and 'pack: None' in a['repr'] and 'align: None' in a['repr'], 'abi-layout', name, 'not plain repr(C): %s' % a['repr'])
        got = ty[a['ty']]['variants'][0]['f']
        if len(got) != len(want): ctx.fail('abi-layout', name, '%d fields instead of the %d of the Arrow C data interface' % (len(got), len(want))); continue
        for i, ((wn, wt), g) in enumerate(zip(want, got)):
            ctx.obligation(); ctx.count('fields')
            exp = wt.replace('Self', name)
            ctx.expect(matches(ty, g[1], exp), 'abi-layout', '%s field %d (%s)' % (name, i, g[0]), 'has type %s; the interface puts %s (%s) here' % (ty[g[1]]['s'], wn, exp))
            names = [w for w, _ in want]
            if g[0] != wn and g[0] in names: ctx.fail('abi-layout', '%s field %d' % (name, i), 'field %s stands where the interface puts %s' % (g[0], wn))
        lay = a.get('layout')
        if lay is None: ctx.unknown('abi-layout', name, 'layout not computed')
        else:
            ctx.expect(lay['size'] == 8 * len(want) and lay['align'] == 8, 'abi-layout', name, 'size %s, alignment %s' % (lay['size'], lay['align']))
            ctx.expect(lay['offsets'] == [8 * i for i in range(len(want))], 'abi-layout', name, 'field offsets %s' % lay['offsets'])
    # sizes and offsets as the stable compiler lays the structures out: the names are private, so sizes through a witness and offsets from the layout table
    ws = [accept('pub const A: () = assert!(core::mem::size_of::<ArrowArray>() == 80 && core::mem::align_of::<ArrowArray>() == 8);', 'size of ArrowArray', W.TYPES, FPRE),
          accept('pub const A: () = assert!(core::mem::size_of::<ArrowSchema>() == 72 && core::mem::align_of::<ArrowSchema>() == 8);', 'size of ArrowSchema', W.TYPES, FPRE)]
    W.run(ctx, 'abi-layout', ws)

def matches(ty, i, want):
    t = ty[i]; k = t['k']
    m = re.match(r'\*(mut|const) (.*)$', want)
    if m: return k == 'ptr' and bool(t['m']) == (m[1] == 'mut') and matches(ty, t['e'], m[2])
    m = re.match(r'Option<(.*)>$', want)
    if m: return k == 'adt' and t['path'].endswith('option::Option') and matches(ty, t['args'][0] if isinstance(t['args'][0], int) else t['args'][0][-1], m[1])
    if want.startswith('unsafe extern'):
        return k == 'fnptr' and 'extern "C"' in t['s']
    s = t['s']
    if want == 'core::ffi::c_void': return s.endswith('c_void')
    if want == 'core::ffi::c_char': return s in ('i8', 'u8') or s.endswith('c_char')
    return s == want or s.split('::')[-1] == want

# --------------------------------------------------------------------------- F07
FORMATS = {'bool': 'b', 'i8': 'c', 'u8': 'C', 'i16': 's', 'u16': 'S', 'i32': 'i', 'u32': 'I', 'i64': 'l', 'u64': 'L', 'f32': 'f', 'f64': 'g'}
OFFSETS_ = {'i32': '+l', 'i64': '+L'}
FLAGS_ = {'narrow_ffi::ARROW_FLAG_DICTIONARY_ORDERED': 1, 'narrow_ffi::ARROW_FLAG_NULLABLE': 2, 'narrow_ffi::ARROW_FLAG_MAP_KEYS_SORTED': 4}
NULLF = {'narrow::nullability::NonNullable': 0, 'narrow::nullability::Nullable': 2}

@rule('F07')
def formats(ctx):
    """Every format string and flag constant of the current source against the table of the Arrow specification"""
    import json
    d = json.load(open(os.path.join(ctx.out, 'narrow_ffi.json')))
    ty = d['types']
    R = 'format-table'
    for c in d['consts']:
        if c['path'] in FLAGS_:
            ctx.obligation()
            v = c['val'].get('int')
            if v is None: ctx.unknown(R, c['path'], 'value not known')
            else: ctx.expect(int(v) == FLAGS_[c['path']], R, c['path'], 'flag is %s, the specification says %d' % (v, FLAGS_[c['path']]))
    def consts(im):
        r = {e[1]: e[2] for e in im['assoc'] if e[0] == 'const' and isinstance(e[2], dict)}
        for n, v in im.get('provconst') or (): r.setdefault(n, v)
        return r
    def text(c):
        b = c.get('bytes') if c else None
        if b is None or not b or b[-1] != 0: return None
        return bytes(b[:-1]).decode('latin-1')
    for trait, table in (('narrow_ffi::export::ArrowType', FORMATS), ('narrow_ffi::ArrowListOffset', OFFSETS_)):
        seen = {}
        for im in d['impls']:
            if im.get('trait') != trait: continue
            t = ty[im['self']]
            if t['k'] == 'adt' and t['path'] == 'core::option::Option': continue      # F07.option
            n = t['s']; at = im['text'][:120]
            ctx.obligation(); ctx.count('format_constants')
            cs = consts(im)
            f = text(cs.get('FORMAT'))
            if f is None: ctx.unknown(R, at, 'format string not evaluated'); continue
            if n in table: ctx.expect(f == table[n], R, at, 'format of %s is "%s", the specification says "%s"' % (n, f, table[n]))
            else: ctx.expect(f not in table.values(), R, at, 'format "%s" of %s belongs to another type' % (f, n))
            if f in seen: ctx.fail(R, at, 'format "%s" is shared with %s: the type cannot be told from its format' % (f, seen[f]))
            seen[f] = n
            if trait.endswith('ArrowType'):
                v = (cs.get('FLAGS') or {}).get('int')
                if v is None: ctx.unknown(R, at, 'flags not evaluated')
                else: ctx.expect(int(v) == 0, R, at, 'a plain type is described with flags %s' % v)
        if not seen: ctx.unknown(R, trait, 'no implementation found')
    for im in d['impls']:
        if im.get('trait') != 'narrow_ffi::import::ImportNullability': continue
        p = ty[im['self']].get('path')
        if p in NULLF:
            ctx.obligation()
            v = (consts(im).get('FLAGS') or {}).get('int')
            if v is None: ctx.unknown(R, im['text'][:120], 'flags not evaluated')
            else: ctx.expect(int(v) == NULLF[p], R, im['text'][:120], 'flag of %s is %s, the specification says %d' % (p, v, NULLF[p]))
