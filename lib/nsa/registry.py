"""Property table: how each property is decided, and at which level."""
from .props import P as _P
INFO = {}
AI = 'abstract interpretation of compiler MIR (affine/boolean domain, array segmentation, loop-head generalisation)'
def C(id, technique=AI, level='proof', note='', explain='', assume=()):
    _P(id, level, explain, assume); INFO[id] = {'technique': technique, 'note': note}
MEM = 'byte and integer buffers hold at most 2^60 elements; opaque collections obey the Collection trait contract'
AL = 'growing a buffer either succeeds or fails without changing it'
C('C01', note='every input value: lengths, offsets, bit ranges and widths are symbolic', assume=[MEM])
C('C03', note='every index and every length; 8 partitions of the bit offset', assume=[MEM])
C('C04', note='every buffer, offset and length; 8x8 partitions of the bit positions of start and end', assume=[MEM])
C('C07', note='every bitmap (offset, length, stray bits, spare bytes symbolic), every item count and bit pattern, every size hint; 8 partitions of the end position', assume=[MEM, AL])
PART = '8 partitions of the bit position where packing matters'
HINT = 'size hints of caller iterators are unconstrained unless stated'
C('C05', note='every collection and iterator form, every length; ' + PART, assume=[MEM])
C('C06', note='after any number of items taken; bit adapters over iterators with arbitrary, valid and exact hints', assume=[MEM])
C('C08', note='nullable collections with and without validity storage, every item and null pattern', assume=[MEM, AL])
C('C09', note='32 and 64 bit offsets, every list length, every number of lists; refusal when offsets would overflow', assume=[MEM, AL])
C('C10', note='an allocation error may occur at every fallible request of a buffer; extension, reservation and collecting of every collection', assume=[MEM, AL])
C('C12', note='the caller iterator may panic at any item; the invariant is re-established on every unwind path', assume=[MEM, AL])
C('C13', note='every length and every cut; ' + PART, assume=[MEM])
C('C14', note='constructors of every allocator-aware collection, later validity storage, and allocator()', assume=[MEM])
C('C15', note='every capacity request on every collection; contents unchanged', assume=[MEM, AL])
C('C16', note='every allocation amount is compared with the unconstrained hint of the iterator', assume=[MEM, AL])
C('C17', note='an item source that yields again after its end: such items are marked and must not be stored', assume=[MEM, AL])
C('C18', note='every null pattern; with and without validity storage', assume=[MEM])
C('C20', note='collecting, with capacity and default of every collection', assume=[MEM, AL])
C('C23', note='every width greater than zero (symbolic), every child length', assume=[MEM, AL])
C('C24', note='every start and end of every list', assume=[MEM])
C('C19', note='107 operations of the five wrappers over an arbitrary collection', assume=[MEM, AL])
C('C11', note='every fallible operation of every collection and wrapper; an infallible request is accepted only when an earlier fallible one covers it', assume=[MEM, AL])
TW = 'type-level witnesses decided by rustc (programs that must and must not compile)'
C('C21', technique=TW, note='generic in element type, width, nullability, offset type and storage; refusals each have a well-formed twin')
C('C22', technique=TW + '; enumeration of trait implementations; forbid(unsafe_code) probe in every build configuration', note='programs of another crate against the sealed families')
C('F05', technique=TW, note='lifetime and ownership witnesses over flat, nullable, list and fixed-size-list arrays')
C('F08', technique='compiler type and layout table of both structures compared with the Arrow C data interface; compile-time size assertions', note='x86-64 layout')
C('C02', technique='query over the type-checked item table: field visibility, exported signatures and associated types, exported producers and mutators; ' + AI + ' for any constructor or mutator outside the known interface', note='every exported function and trait implementation of the core crate')
HDR = 'foreign memory the headers point to obeys the memory-safety contract of the Arrow C data interface; children, offset checks and lengths of the core crate are summarised by the obligations of their own properties'
C('F03', note='four layouts, nullable and not, 32 and 64 bit offsets; every header field symbolic; every read through a foreign pointer is an obligation on the state it happens in', assume=[HDR, MEM])
C('F04', note='four layouts, nullable and not, 32 and 64 bit offsets; every header field and every buffer bit symbolic', assume=[HDR, MEM])
C('F12', note='every declared null count, every validity bit pattern, every length', assume=[HDR, MEM])
EXPN = 'four layouts, nullable with and without validity storage and non-nullable, 32 and 64 bit offsets; top level and child structures; '
EXM = 'the memory of caller storage does not move when its owner is moved into the pinned private data is checked, not assumed; children are summarised by the same obligations one level down; lengths above 2^63-1 may panic'
C('F01', note=EXPN + 'both orders of release, a child released before its parent, drop of live and released structures', assume=[EXM, MEM], technique=AI + ' with an ownership typestate for raw memory')
C('F02', note=EXPN + 'every exported pointer is followed to the object it points into and that object to its owner', assume=[EXM, MEM], technique=AI + ' with an ownership typestate for raw memory')
C('F06', note=EXPN + 'every bit offset of values and validity; refusals of the child', assume=[EXM, MEM])
C('F07', note='every element type, offset type, nullability and width; both directions', technique='constant table of the type-checked program against the Arrow specification; ' + AI, assume=[HDR])
C('F09', note=EXPN + 'every length and validity pattern', assume=[EXM, MEM])
C('F10', note=EXPN + 'one level at a time, generic in the child', assume=[EXM, HDR, MEM])
C('F11', note=EXPN + 'every request for memory is compared with a constant; every exported and imported buffer is the original one', assume=[EXM, HDR, MEM])
C('F13', note=EXPN + 'refusal or panic of a child, panic of any conversion, on every unwind path', assume=[EXM, MEM], technique=AI + ' with an ownership typestate for raw memory, including unwind edges')
C('C25', note='every item, list, group and option; every variant of every copyable collection and view', assume=[MEM])
C('C26', technique=TW, note='generic in item, nullability and storage; refusals each have a well-formed twin')
