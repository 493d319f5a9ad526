#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
BM='src/bitmap/mod.rs'; PK='src/bitmap/packed.rs'; UP='src/bitmap/unpacked.rs'; BV='src/bitmap/validity.rs'
VA='src/validity.rs'; OF='src/offset.rs'; FL='src/collection/flatten.rs'; CO='src/collection/mod.rs'
VEC='src/collection/vec.rs'; SL='src/collection/slice.rs'; BX='src/collection/box.rs'
FX='narrow-ffi/src/export/mod.rs'; FI='narrow-ffi/src/import/mod.rs'; FB='narrow-ffi/src/lib.rs'
EXP=['narrow-ffi/src/export/boolean.rs','narrow-ffi/src/export/fixed_size_primitive.rs','narrow-ffi/src/export/fixed_size_list.rs','narrow-ffi/src/export/variable_size_list.rs']
IMP=['narrow-ffi/src/import/boolean.rs','narrow-ffi/src/import/fixed_size_primitive.rs','narrow-ffi/src/import/fixed_size_list.rs','narrow-ffi/src/import/variable_size_list.rs']
LAY=['src/layout/boolean.rs','src/layout/fixed_size_primitive.rs','src/layout/fixed_size_list.rs','src/layout/variable_size_list.rs','src/array.rs']

p('C01','Raw parts are accepted exactly when they are consistent',
  'Building a bitmap, a list-offset collection, a nullable collection or a fixed-width grouping from caller-supplied parts succeeds exactly when the parts fit together: the bit range lies inside the buffer; the offsets are non-empty, start at zero, are never negative, never decrease and end inside the data; the two lengths are equal; the child length is a multiple of a non-zero width. '
  'Anything else is returned as the error that names the offending condition and carries the offending values, never a panic and never a wrapped-around computation. '
  'Accepted parts are stored unchanged, and taking the collection apart again returns exactly those parts.',
  ['inputs'],'every buffer length, bit count, bit offset, offset sequence and child length, up to the integer limits',
  'tests try a handful of small part combinations; the conditions range over all lengths, offsets and offset sequences, including sums near the integer limits',
  [BM,OF,VA,FL],[('Bitmap::try_from_parts',BM),('Offsets::try_from_parts',OF),('Validity::try_from_parts',VA),('Flatten::try_from_parts',FL)])
p('C02','Collection internals cannot be changed or forged from outside',
  'Outside the module that maintains it, no safe code can write the bit count, bit offset, buffers, offsets, child data or validity of a collection, obtain a mutable reference to them, or assemble one from unchecked parts. '
  'The only public ways to obtain a bitmap, list-offset collection, nullable collection, fixed-width grouping, list view or group view are the checked constructors, the collecting and capacity constructors, the default value, cloning, and lookup in an existing collection.',
  ['programs'],'every safe program that uses the public interface',
  'a test can only show what one program is able to do; the claim is about what no program can do',
  [BM,OF,VA,FL,'src/array.rs']+LAY[:4],[('struct field visibility',BM),('public signatures returning &mut',CO),('constructors of each struct',OF)])
p('C03','Positional access is total: Some inside the length, None outside',
  'For every collection and every index, borrowed or owned positional access returns a value when the index is smaller than the reported length and nothing otherwise. '
  'It never panics, for any index up to the largest representable one, and neither does asking whether a position is null or valid.',
  ['inputs','histories'],'every reachable collection state and every index value',
  'tests probe a few indices near the length; overflow and off-by-one at arbitrary offsets, widths and extreme indices are not sampled',
  [BM,OF,VA,FL,BV,VEC,SL],[('Collection::view / owned',CO),('ValidityBitmap::is_valid / is_null',BV),('OffsetView::view',OF),('Flatten::view',FL)])
p('C04','A bitmap bit lives at its least-significant-first position',
  'Bit i of a bitmap with bit offset o is bit (o + i) mod 8, counted from the least significant, of byte (o + i) div 8 of its buffer, for positional access, for iteration and for counting set bits alike. '
  'Bits of the buffer outside that range never influence any result.',
  ['inputs'],'every buffer content, bit offset (including offsets of a byte or more) and bit count',
  'tests use a few hand-written byte patterns; the mask arithmetic must be right for all offsets, lengths and stray bits',
  [BM,UP],[('Bitmap::view',BM),('Bitmap::count_ones',BM),('Bitmap::into_iter',BM),('BitUnpacked::next',UP)])
p('C05','Iteration agrees with positional access',
  'Iterating a collection by reference yields exactly the values positional access gives for 0 up to the length, in that order, and then ends; consuming iteration yields the owned form of the same values. '
  'This holds for plain buffers, bitmaps, nullable collections, lists, list views, fixed-width groups and the unpacking of bits from bytes.',
  ['inputs','histories'],'every reachable collection state and every iteration position',
  'tests compare a few collections element by element; skipped, duplicated or shifted items at other lengths and offsets go unseen',
  [BM,UP,VA,OF,FL,SL,VEC],[('iter_views / into_iter_owned',CO),('ValidityIter::next',VA),('OffsetIntoIter::next',OF),('ArrayChunks::next',FL),('SliceIntoIter::next',SL),('BitUnpacked::next',UP)])
p('C06','Iterators report exactly how many items remain',
  'At every point of an iteration the size the iterator reports is the number of items it will still yield: exactly for iterators that promise an exact length, and as correct lower and upper bounds for the bit packing and unpacking iterators over any inner iterator. '
  'Size computations never overflow or panic.',
  ['inputs','histories'],'every iterator state reachable by consuming some prefix, including partly consumed bytes',
  'tests check the size at the start and a few steps in; it must hold after every prefix and for every inner bound',
  [UP,PK,VA,OF,FL,SL],[('BitUnpacked::size_hint',UP),('BitPacked::size_hint',PK),('ValidityIter::size_hint / len',VA),('OffsetIntoIter::len',OF),('ArrayChunks::len',FL),('SliceIntoIter::size_hint',SL)])
p('C07','Extending a bitmap appends exactly the given bits',
  'After extending a bitmap with n bits, its length has grown by exactly n, every bit that was there before reads the same, and the new bits read as the supplied ones in order. '
  'This holds whatever the bit offset, the length, any stray bits or spare bytes already present behind the logical end, and however the iterator reports its size, for the infallible and the fallible form.',
  ['inputs','histories'],'every bitmap state (offset, length, slack bytes from truncation) and every item sequence',
  'tests sample a few offsets and lengths; alignment, partial bytes and slack bytes combine in far more ways',
  [BM,PK],[('Extend::extend for Bitmap',BM),('Bitmap::try_extend',BM),('BitPacked::next',PK)])
p('C08','Extending or collecting nullable items keeps each value with its validity',
  'Extending a nullable collection with any number of optional items appends exactly those items: each present item stays present with its value, each absent item stays absent, in order, for batches of any size, and the items already there are unchanged. '
  'Collecting optional items builds a collection with exactly those items, and a collection without stored validity treats its existing items as present when it first has to record an absent one.',
  ['inputs','histories'],'every item sequence of any length (including multiples of the internal batch size) appended to every state',
  'tests stop at a few items or one batch boundary; the batching loop must be right for every count',
  [VA],[('Validity::extend',VA),('Validity::try_extend',VA),('Validity::from_iter / from_iter_in',VA),('materialize_bitmap',VA)])
p('C09','Extending lists appends each list with matching offsets',
  'Extending a list collection with any sequence of lists appends one offset per list, equal to the previous offset plus the length of that list, and appends exactly the elements of that list to the data at that position, so that every list reads back as given and earlier lists are unchanged. '
  'Elements stored behind the last offset are dropped before appending, and a total that does not fit the offset type is refused instead of wrapping around.',
  ['inputs','histories'],'every existing offsets/data state (including data longer than the last offset) and every sequence of lists',
  'tests append a few short lists; the offset arithmetic must hold for all states, counts and the limits of the offset type',
  [OF],[('Extend::extend for Offsets',OF),('Offsets::try_extend',OF),('Offset::strict_add / as_usize',OF),('with_capacity_in / default (initial zero offset)',OF)])
p('C10','A failed fallible extension leaves the collection as it was',
  'When a fallible extension of a buffer, bitmap, nullable collection, list collection or fixed-width grouping reports an allocation error, at whatever point the failure occurs, the collection has the same length and contents as before the call. '
  'The same holds for a failed fallible reservation, and every allocation error inside a fallible operation reaches the caller.',
  ['fault_sequences','inputs'],'every allocation request inside the operation failing, on every state and every item sequence',
  'no test makes an inner allocation fail at each point; there are several allocations per call and some fail only after part of the work',
  [BM,VA,OF,FL,VEC],[('try_extend / try_reserve',CO),('Validity::try_extend rollback',VA),('Offsets::try_extend rollback',OF),('Vec::try_extend rollback',VEC)])
p('C11','Fallible operations never take an aborting allocation path',
  'A fallible constructor, reservation or extension obtains memory only through fallible requests of the buffers it is made of: on no path does it call an operation that aborts or panics when memory is short. '
  'Arithmetic on a requested capacity that overflows is reported as an allocation error, not as a panic.',
  ['fault_sequences','inputs'],'every path through every fallible operation, every capacity value',
  'out-of-memory cannot be provoked at each allocation site in a test, and an aborting call looks identical until memory runs out',
  [BM,VA,OF,FL,VEC,BX],[('try_with_capacity_in / try_from_iter_in / try_reserve / try_extend',CO)])
p('C12','A panicking item source never corrupts a collection',
  'If the iterator given to an infallible or fallible extension panics part-way, the collection stays usable: existing items are unchanged, and a later extension appends exactly its own items after what the collection then reports as its contents. '
  'No item or bit of the interrupted extension that was not counted becomes visible later.',
  ['crash_points','histories'],'every point at which the item source may panic, on every state, followed by any further extension',
  'tests panic at one or two chosen items; the unwinding point can fall between any two updates',
  [BM,VA,OF,FL],[('Extend::extend for Bitmap',BM),('Validity::extend truncates first',VA),('Offsets::extend truncates first',OF),('Flatten::extend truncates first',FL)])
p('C13','Truncation keeps exactly the leading items',
  'Truncating a collection to n items leaves exactly its first min(n, length) items, all unchanged, and never panics; a list collection drops the element data that no remaining list refers to, a fixed-width grouping drops whole groups, and a nullable collection shortens values and validity together. '
  'Nothing dropped by truncation becomes visible again after later extensions.',
  ['inputs','histories'],'every state and every truncation length, including ones beyond the current length and near the integer limit',
  'tests truncate a few collections to a few lengths',
  [BM,VA,OF,FL,VEC],[('CollectionRealloc::truncate',CO)])
p('C14','One allocator is handed to every part of a collection',
  'When a collection is created with an allocator, every buffer it is made of, directly or nested, is created with that same allocator, and asking the collection for its allocator returns that of its data; validity storage added later is allocated with it too. '
  'No part falls back to a default allocator instead.',
  ['configurations','programs'],'every allocator-aware collection type and every composition of them',
  'with the global allocator all choices look alike; tests cover few compositions with a distinguishable allocator',
  [BM,VA,OF,FL]+LAY,[('CollectionAllocIn constructors',CO),('CollectionRealloc::allocator',CO),('materialize_bitmap',VA)])
p('C15','Capacity requests cover what was asked for and change nothing',
  'Reserving room for k more items requests room for at least k more items from every buffer that will grow (for bitmaps in whole bytes beyond the bits already available, for groups k times the width), and does not change length or contents. '
  'Creating a collection with a capacity yields an empty collection whatever the capacity.',
  ['inputs','histories'],'every capacity or additional count, on every state',
  'a missing or short reservation is invisible to tests because growth happens on demand',
  [BM,VA,OF,FL,VEC],[('reserve / try_reserve',CO),('with_capacity_in / try_with_capacity_in',CO)])
p('C16','Untrusted size hints are never used as a commitment',
  'When building or extending from an arbitrary iterator, an allocation made ahead of the items is bounded by the guaranteed lower size bound; the upper bound, which an iterator may legally overstate without limit, never sizes an allocation, and a wrong hint never changes which items are stored.',
  ['inputs'],'every iterator and every legal size report, including unbounded or absurd upper bounds',
  'test iterators report exact sizes, for which both bounds agree',
  [VA,OF,VEC],[('Validity::from_iter / from_iter_in / try_from_iter_in',VA),('Offsets::from_iter_in / try_from_iter_in',OF),('Vec::try_from_iter_in / try_extend',VEC)])
p('C17','Items after the first end-of-iteration are never consumed',
  'Building or extending a bitmap, nullable collection, list collection, buffer or fixed-width grouping stores exactly the items produced before the iterator first reports its end, even if the iterator would produce more when polled again.',
  ['inputs'],'every iterator, including ones that resume after reporting their end, at every position of that report',
  'ordinary test iterators stay exhausted once they end',
  [BM,PK,VA,VEC,OF],[('FromIterator / from_iter_in / try_from_iter_in for Bitmap',BM),('Extend::extend / try_extend',BM),('BitPacked::next',PK),('Validity::extend loop',VA)])
p('C18','Null accounting agrees with the individual items',
  'The null count is the number of positions that read as absent, the valid count is the length minus it, and the any/all null and valid questions as well as the per-position null and valid answers agree with those counts. '
  'A collection without stored validity has no nulls.',
  ['inputs','histories'],'every length, bit pattern and bit offset, including the empty collection',
  'tests sample a few patterns; empty, all-null and offset cases interact',
  [BV,BM,VA],[('ValidityBitmap provided methods',BV),('Bitmap::count_ones',BM),('Validity::view',VA)])
p('C19','Layout wrappers and the array facade add no behaviour',
  'Every operation on an array or on a boolean, primitive, fixed-size-list or variable-size-list layout gives the result of the same operation, with the same arguments, on the memory it wraps, and changes that memory in the same way; wrapping and unwrapping return the memory unchanged.',
  ['inputs','histories','configurations'],'every operation of every wrapper for every element type, nullability and storage',
  'about eighty forwarding methods exist and tests exercise a minority of them with distinguishable arguments',
  LAY,[('Array',LAY[4]),('Boolean',LAY[0]),('FixedSizePrimitive',LAY[1]),('FixedSizeList',LAY[2]),('VariableSizeList',LAY[3])])
p('C20','Collecting builds a collection of exactly the given items',
  'Collecting items, with or without an allocator, fallibly or not, builds a buffer, bitmap, list collection or fixed-width grouping that contains exactly those items in order, in the canonical form: bit offset zero, offsets starting at zero, no unreferenced data. '
  'The default value of every growable collection is empty.',
  ['inputs'],'every item sequence of any length',
  'tests collect a few short sequences; partial last bytes and carried state matter at every length',
  [BM,PK,OF,FL,VEC,BX],[('FromIterator::from_iter',BM),('from_iter_in / try_from_iter_in',CO),('Default::default',OF)])
p('C21','Element types select exactly one memory layout at compile time',
  'Booleans, fixed-size primitives, arrays and vectors select the bit-packed, primitive, fixed-size-list and 32-bit variable-size-list layouts, optional elements select the nullable form of the same layout, and the storage choice selects the buffer type of every part. '
  'Programs that ask for an unsupported combination, such as a doubly optional element, do not compile.',
  ['programs','configurations'],'every element type and storage choice a program can name',
  'a test can only name programs that compile; the refused ones cannot appear in it',
  ['src/layout/mod.rs','src/nullability.rs','src/buffer.rs'],[('Layout / NullableLayout / ArrayItem impls','src/layout/mod.rs'),('Nullability','src/nullability.rs'),('Buffer','src/buffer.rs')])
p('C22','No unsafe code in the core and closed marker families',
  'The core crate contains no unsafe code and cannot gain any without failing to build. '
  'The families of fixed-size element types, list offset types and nullability markers, on whose properties buffers shared with other programs rely, cannot be extended by other crates: a program that tries does not compile.',
  ['programs'],'every safe program that depends on the crate',
  'a test cannot contain the programs that must not compile',
  ['src/lib.rs','src/fixed_size.rs',OF,'src/nullability.rs'],[('forbid(unsafe_code)','src/lib.rs'),('sealed traits','src/fixed_size.rs')])
p('C23','Fixed-width groups keep their width',
  'A fixed-width grouping shows only whole groups: its length is the number of complete groups in the child, group i is child items i times the width onwards in order, and after extending, exactly the given groups follow the existing ones, whatever incomplete rest the child held. '
  'Consuming iteration returns the same groups.',
  ['inputs','histories'],'every width greater than zero, every length and every operation sequence',
  'tests fix one or two widths and a few groups',
  [FL],[('Flatten::view / len',FL),('Flatten::extend / try_extend',FL),('ArrayChunks::next',FL)])
p('C24','List views show exactly their list',
  'A view of list i exposes exactly the data elements from offset i up to offset i+1: its length is their difference, position k inside it is data element offset_i + k, positions at or beyond the length do not exist, and comparison with another collection is true exactly when lengths and all elements are equal. '
  'Turning a view into an owned list yields those elements in order.',
  ['inputs','histories'],'every offsets/data state, every list and every position',
  'tests look at a few lists; reads outside the window of a middle list return plausible data',
  [OF],[('OffsetView::view / len',OF),('OffsetView::eq',OF),('OffsetView::into_owned',OF),('OffsetIntoIter::next',OF)])
p('C25','Conversions and copies keep the contents',
  'Viewing an item or list and taking ownership of a view both yield exactly the same items in the same order, with absent items staying absent; for groups, fixed-size arrays and options as well as plain lists. '
  'A copy of a collection, array or view equals the original in every component. '
  'Mapping or zipping items under a nullability yields an item exactly when every input is present, holding the inputs in order and applying the function once.',
  ['inputs','configurations'],'every item kind, list length and presence pattern, every collection and view that can be copied',
  'tests convert and clone a handful of short lists; a truncating or reordering conversion of a long list goes unseen',
  ['src/collection/owned.rs','src/collection/view.rs',FL,BM,OF,'src/fixed_size.rs','src/nullability.rs'],[('IntoOwned impls','src/collection/owned.rs'),('AsView impls','src/collection/view.rs'),('Clone for Bitmap',BM),('Nullability::map / zip / zip_with','src/nullability.rs'),('FixedSizeArray conversions','src/fixed_size.rs')])
p('C26','Arrays are as thread-safe as their storage',
  'An array, and every collection, view and iterator it is made of, can be sent to and shared between threads whenever its storage can: always over vector, boxed, array, borrowed and atomically counted storage, for every item type and nesting. '
  'Over non-atomically counted storage it can be neither sent nor shared, so a program that tries does not compile.',
  ['programs','configurations'],'every item type, nullability, nesting and storage',
  'a lost or wrongly gained thread-safety marker shows only in programs that fail, or wrongly succeed, to compile',
  [BM,VA,OF,FL,'src/buffer.rs']+LAY,[('RcBuffer / ArcBuffer','src/buffer.rs'),('Array',LAY[4]),('Bitmap',BM),('Validity',VA),('Offsets',OF)])

p('F01','Exported structures are released exactly once and marked released',
  'Every exported array and schema carries a release function that frees exactly the private data it was created with, of the same type, once; it marks the structure released and clears its buffer, child and private-data pointers before freeing. '
  'Dropping a structure calls its release function exactly when it has not been released.',
  ['histories','programs'],'every exported layout (flat and nested), every order of releasing, moving and dropping',
  'double frees and mismatched types show up only under particular histories and are undefined behaviour rather than a failing assertion',
  [FX,FB]+EXP[2:],[('release_array / release_schema / release_flat_schema',FX),('Drop for ArrowArray / ArrowSchema',FB),('into_array',FX)])
p('F02','Exported pointers stay valid until release',
  'Every buffer, child, format and private pointer placed in an exported structure points into memory that the structure keeps alive until its release and that does not move in between: buffers of storage that has already been pinned, child tables and child structures inside the pinned private data, or static data. '
  'No pointer to a temporary or to data that is moved afterwards is ever exported.',
  ['programs','histories'],'every exported layout, storage and nesting',
  'a dangling pointer often still reads the right bytes in a test',
  [FX]+EXP,[('ArrowArrayLayout::export / child_array',FX),('ArrayData::set_child_pointers / into_array',FX),('buffers()',EXP[1])])
p('F03','Import checks every header field before trusting it',
  'On every path, import reads foreign memory through a pointer only after checking what that read relies on: released markers, non-null pointers, declared buffer and child counts, format, non-negative length, zero offset and absent dictionary; value and offset buffers are turned into slices only when present, aligned and with exactly the element count the declared length implies. '
  'This holds for the top level and for every nested child.',
  ['inputs'],'every combination of header values in array and schema, at every nesting level',
  'a missing check is undefined behaviour for particular malformed headers, not a test failure; the combinations are unbounded',
  [FI]+IMP,[('import_layout',FI),('import_child',FI),('ImportNullability::wrap',FI),('import_validated',IMP[1])])
p('F04','Import never panics and reports the designated error',
  'Import of any header that meets the stated memory-safety contract returns either the array or an error; it never panics, overflows or aborts. '
  'A released structure is reported as released, whatever its other fields hold; each malformed field is rejected with the error that describes it and carries the offending value, and a well-formed header of the right type is accepted.',
  ['inputs'],'every combination of header values, lengths and offsets',
  'tests malform one field at a time with one value',
  [FI]+IMP,[('import_layout',FI),('import_validated',IMP[2]),('wrap',FI)])
p('F05','Imported arrays borrow, exported arrays own',
  'An imported array cannot outlive the foreign array structure it borrows from, and importing is possible only through an operation marked unsafe. '
  'Only arrays that own their memory for the lifetime of the program can be exported, so a program that exports borrowed memory does not compile.',
  ['programs'],'every program that uses the import and export interface',
  'the programs that must be refused cannot be written as tests',
  [FI,FX],[('Import::import signature',FI),("Export impl bounds ('static)",FX)])
p('F06','Arrays with a bit offset are refused by export',
  'Export of an array reports an error whenever any bitmap in it, values or validity, at any nesting level, starts at a non-zero bit offset; otherwise it succeeds and declares offset zero. '
  'A refused export hands out nothing and releases what it had already built.',
  ['inputs','configurations'],'every layout, nullability, nesting level and bit offset',
  'tests set an offset at one level at a time for a few layouts',
  [FX]+EXP,[('ArrowArrayLayout::offset',FX),('export / child_array',FX)])
p('F07','Format strings and flags follow the Arrow specification on both sides',
  'Each element type is exported with the format string and nullable flag the Arrow C data interface assigns to it, and import accepts exactly that format and flag for the same type; list formats distinguish 32-bit and 64-bit offsets, and fixed-size-list formats carry the width in decimal. '
  'No two element types share a format.',
  ['configurations','inputs'],'every supported element type and nullability, every width, every format text offered to import',
  'tests check a few formats, and only that the two sides agree with each other',
  [FB,FX]+EXP+IMP,[('ArrowType::FORMAT / FLAGS',FX),('ArrowListOffset::FORMAT',FB),('matches_format',IMP[2])])
p('F08','Exchange structures have the Arrow C ABI layout',
  'The exchanged array and schema structures have exactly the fields, order, types, sizes and offsets of the Arrow C data interface, and their release callbacks use the C calling convention.',
  ['configurations'],'every field of both structures',
  'tests that both produce and consume with the same definition cannot notice a wrong order or width',
  [FB],[('ArrowArray',FB),('ArrowSchema',FB)])
p('F09','Exported counts are those of the array',
  'An exported array declares the length of the array, its exact number of nulls (zero when it cannot have any), the number of buffers and children its layout prescribes, with tables of exactly that many entries, and each buffer in its prescribed slot: validity first and null when absent, then offsets or values. '
  'This holds for nested children as well.',
  ['inputs','configurations'],'every layout, nullability, nesting and content',
  'tests inspect a few exports; a wrong slot or count in another layout goes unseen',
  [FX]+EXP,[('into_array',FX),('buffers() / children() / null_count()',EXP[3])])
p('F10','Nested arrays and schemas describe the same child',
  'For list and fixed-size-list arrays the exported schema has exactly one child describing the element type and the exported array exactly one child holding the element data, and import pairs child array and child schema of the same position, recursively with the same checks as the top level.',
  ['configurations','inputs'],'every nesting of list layouts',
  'tests nest once or twice with one element type',
  [FX,FI]+EXP[2:]+IMP[2:],[('schema()',EXP[3]),('children()',EXP[3]),('import_child',FI)])
p('F11','Import and export copy no buffer contents',
  'Export moves the array and hands out pointers to its existing buffers; import builds the array over the foreign buffers in place. '
  'Neither allocates or copies in proportion to the array contents.',
  ['inputs','configurations'],'every layout, storage and length',
  'a copy gives the same values, so value-based tests cannot see it',
  [FX,FI]+EXP+IMP,[('buffers()',EXP[1]),('import_validated',IMP[1])])
p('F12','Declared null counts are checked against the validity bits',
  'Importing nullable data with a known null count succeeds only if that count equals the number of cleared validity bits; a missing validity buffer is accepted only for data without nulls; an unknown count is accepted as is. '
  'Non-nullable data with a positive declared null count is refused.',
  ['inputs'],'every validity content, length and declared count',
  'tests use one mismatching count',
  [FI],[('ImportNullability::wrap',FI),('import_layout',FI)])
p('F13','A failed or panicking export neither leaks nor frees twice',
  'Between giving up ownership of the private data to a raw pointer and storing that pointer together with its release function in the returned structure, no operation can fail or panic; before that point ordinary ownership releases everything. '
  'Every raw pointer given up this way ends up in exactly one structure.',
  ['crash_points','fault_sequences'],'every path through every export function, including error returns and panics',
  'the window is only hit by failures tests do not provoke',
  [FX]+EXP[2:],[('into_array',FX),('fixed_size_list / variable_size_list schema construction',EXP[2])])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
