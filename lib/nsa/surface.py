"""C02: who can write, borrow mutably or assemble the collections.  Queries over
the compiler's item table, signatures and MIR places of the current source."""
import re
from .props import rule

B, V, O, F = 'narrow::bitmap::Bitmap', 'narrow::validity::Validity', 'narrow::offset::Offsets', 'narrow::collection::flatten::Flatten'
OV, FV = 'narrow::offset::OffsetView', 'narrow::collection::flatten::FlattenView'
L = 'narrow::layout::'
WRAPS = ['narrow::array::Array', L + 'boolean::Boolean', L + 'fixed_size_list::FixedSizeList', L + 'fixed_size_primitive::FixedSizePrimitive', L + 'variable_size_list::VariableSizeList']
CORE = [B, V, O, F, OV, FV]
ITERS = ['narrow::validity::ValidityIter', 'narrow::offset::OffsetIntoIter', 'narrow::collection::flatten::ArrayChunks', 'narrow::collection::slice::SliceIntoIter']
PROT = CORE + WRAPS
# constructors and operations whose effect on the representation is decided by obligations of their own
INHERENT = {B: {'try_from_parts', 'into_parts', 'bit_offset', 'all_set_in', 'try_all_set_in'}, V: {'try_from_parts', 'into_parts', 'from_collection'}, O: {'try_from_parts', 'into_parts'}, F: {'try_from_parts', 'into_parts'}}
for w in WRAPS: INHERENT[w] = {'from_buffer', 'into_buffer'}
TRAITS = {'core::clone::Clone', 'core::default::Default', 'core::fmt::Debug', 'core::cmp::PartialEq', 'core::cmp::Eq', 'core::iter::traits::collect::Extend', 'core::iter::traits::collect::FromIterator',
          'core::iter::traits::collect::IntoIterator', 'narrow::bitmap::validity::ValidityBitmap', 'narrow::buffer::BufferRef', 'narrow::collection::ChildRef', 'narrow::collection::Collection',
          'narrow::collection::CollectionAllocIn', 'narrow::collection::CollectionRealloc', 'narrow::collection::CollectionAlloc', 'narrow::collection::owned::IntoOwned', 'narrow::collection::view::AsView', 'narrow::length::Length',
          'core::marker::Copy', 'narrow::layout::MemoryLayout'}

class Surface:
    def __init__(self, prog):
        self.p = prog; self.ty = prog.types
        self.imp = {}
        for im in prog.impls:
            for a in im['assoc']:
                if a[0] == 'fn': self.imp[a[2]] = im
    def parts(self, i, seen=frozenset(), byval=False):
        """protected types mentioned by a type"""
        t = self.ty[i]; out = set()
        if i in seen or (byval and t['k'] in ('ref', 'ptr')): return out
        seen = seen | {i}
        if t['k'] == 'adt' and t['path'] in PROT: out.add(t['path'])
        for k in ('args', 'e', 'f'):
            v = t.get(k)
            for x in ([v] if isinstance(v, int) else v if isinstance(v, list) else ()):
                if isinstance(x, int): out |= self.parts(x, seen, byval)
        return out
    def mut_inside(self, i, own, seen=frozenset()):
        """a mutable reference inside a type, other than to the collection itself"""
        t = self.ty[i]
        if i in seen: return None
        seen = seen | {i}
        if t['k'] == 'ref' and t['m'] and t['e'] != own: return t['s']
        if t['k'] == 'adt' and re.search(r'(IterMut|ChunksMut|RefMut|Drain|PeekMut|EntryMut)$|Mut$', t['path']) and t['path'].startswith(('core::', 'alloc::', 'std::')): return t['s']
        for k in ('args', 'e', 'f'):
            v = t.get(k)
            for x in ([v] if isinstance(v, int) else v if isinstance(v, list) else ()):
                if isinstance(x, int):
                    r = self.mut_inside(x, own, seen)
                    if r: return r
        return None
    def owner(self, f):
        """protected type a function operates on: the implementing type, else a protected argument"""
        im = self.imp.get(f['path'])
        if im is not None:
            i = im['self']; t = self.ty[i]
            while t['k'] == 'ref': i = t['e']; t = self.ty[i]
            if t['k'] == 'adt' and t['path'] in PROT: return t['path'], i
        for i in f['ins']:
            t = self.ty[i]
            while t['k'] == 'ref': i = t['e']; t = self.ty[i]
            if t['k'] == 'adt' and t['path'] in PROT: return t['path'], i
        return None, None
    def covered(self, f):
        im = self.imp.get(f['path'])
        if im is None: return f['pk'] == 'trait' and (f.get('parent') or '') in TRAITS
        if im.get('trait'): return im['trait'] in TRAITS
        a = self.p.adt_of(im['self'])
        return a in INHERENT and f['name'] in INHERENT[a]
    def reachable(self): return [f for f in self.p.fns if f['reach'] and f['exported'] or f['reach'] and self.imp.get(f['path'], {}).get('trait')]
    def extra(self):
        """exported producers and mutators no other obligation decides"""
        for f in self.reachable():
            if self.covered(f) or f['body'] is None: continue
            out = {a for a in self.parts(f['out'], byval=True)} | {a for i in f['ins'] if self.ty[i]['k'] == 'ref' and self.ty[i]['m'] for a in self.parts(self.ty[i]['e'])}
            if out: yield f, out

def steps(ty, locals_, place):
    """(adt path, field index) of every field projection of a place, with the projection suffix"""
    cur = locals_[place[0]]
    for n, pr in enumerate(place[1]):
        if cur is None: return
        t = ty[cur]
        if pr[0] == '*': cur = t.get('e') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' and t.get('args') else None)
        elif pr[0] == 'f':
            if t['k'] == 'adt': yield t['path'], pr[1]
            cur = pr[2]
        elif pr[0] in ('i', 'ci', 'si', 'ix'): cur = t.get('e')
        # downcasts keep the type

@rule('C02')
def fields(ctx):
    p = ctx.narrow
    for path in PROT + ITERS:
        a = p.adts.get(path)
        if a is None: ctx.unknown('private-fields', path, 'type not found'); continue
        mod = path.rsplit('::', 1)[0]; f0 = a['span'].split(':')[0]
        for i, (_, name, vis) in enumerate(a['fields']):
            ctx.obligation(); ctx.count('fields')
            if vis == 'pub':
                if a['exported']: ctx.fail('private-fields', '%s (%s)' % (path, a['span']), 'field %s is public: any safe program can write it' % name)
                continue
            if vis == 'in ' + mod or vis.startswith('in ' + mod + '::'): ctx.ok(); continue
            # wider than the module: nobody else may write it or build the type
            bad = outside(p, path, i, f0)
            if bad: ctx.fail('private-fields', bad, 'writes, borrows mutably or assembles %s.%s outside the module that maintains it' % (path, name))
            else: ctx.ok()

def outside(p, path, field, home):
    for b in p.bodies:
        if not b.get('local') or b['span'].split(':')[0] == home: continue
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] != '=': continue
                if any(x == (path, field) for x in steps(p.types, b['locals'], s[1])): return '%s (%s)' % (b['q'], s[-1])
                rv = s[2]
                if rv[0] == 'agg' and rv[1] == 'adt' and rv[2][0] == path: return '%s (%s)' % (b['q'], s[-1])
                if rv[0] == 'ref' and rv[1] is True and isinstance(rv[2], list) and any(x == (path, field) for x in steps(p.types, b['locals'], rv[2])): return '%s (%s)' % (b['q'], s[-1])
    return None

@rule('C02')
def borrows(ctx):
    s = Surface(ctx.narrow); ty = s.ty
    for f in s.reachable():
        im = s.imp.get(f['path'])
        adt, own = s.owner(f)
        if adt is None: continue
        ctx.obligation(); ctx.count('exported_signatures')
        at = '%s (%s)' % (f['q'], f['span'])
        r = s.mut_inside(f['out'], own)
        tail = f['sig'].rsplit('->', 1)[-1] if '->' in f['sig'] else ''
        opq = [x for x in re.findall(r"&(?:'\w+ )?mut ([^,>)]*)", tail) if x.strip() != 'Self'] if 'impl ' in tail else []
        if r or opq: ctx.fail('no-mutable-access', at, 'hands out %s into the collection' % (r or '&mut ' + opq[0])); continue
        if im is not None and im.get('trait'):
            t = [(a[1], s.mut_inside(a[2], own)) for a in im['assoc'] if a[0] == 'type' and isinstance(a[2], int)]
            t = [x for x in t if x[1]]
            if t: ctx.fail('no-mutable-access', at, 'associated type %s is %s' % t[0]); continue
        takes_mut = any(ty[i]['k'] == 'ref' and ty[i]['m'] for i in f['ins'])
        cb = [q for q in f['preds'] if re.search(r"Fn(?:Once|Mut)?[(<][^)>]*&(?:'\w+ )?mut", q)]
        if takes_mut and cb: ctx.fail('no-mutable-access', at, 'passes a mutable reference to a caller function: ' + cb[0][:120]); continue
        ctx.ok()
    # mutable views through std traits, whatever their signature
    for im in ctx.narrow.impls:
        t = im.get('trait') or ''
        if t.split('::')[-1] in ('DerefMut', 'AsMut', 'BorrowMut', 'IndexMut') and ctx.narrow.adt_of(im['self']) in PROT:
            ctx.obligation(); ctx.fail('no-mutable-access', im['text'][:100], 'the collection can be borrowed mutably from outside')

@rule('C02')
def producers(ctx):
    s = Surface(ctx.narrow)
    for f in s.reachable():
        if s.parts(f['out'], byval=True) & set(CORE): ctx.count('exported_producers')
    ctx.obligation(); ctx.ok()
    ctx.cov['producers_not_covered_elsewhere'] = [f['q'] for f, _ in s.extra()]
