"""Obligations of the C data interface crate: import."""
from .obl import ob
from .ffimodels import *
from .ffimodels import fmt_is, fmt_prefix, fmtbyte, FMTLEN, dec_ok, dec_val, FM, fp, isnull, i64, arrow_array, arrow_schema
from .specs import is_ok, is_err, some, none

FFI = 'narrow_ffi::'
LAYOUTS = {
    'Boolean': dict(adt='narrow::layout::boolean::Boolean', buffers=2, children=0, values='bits'),
    'FixedSizePrimitive': dict(adt='narrow::layout::fixed_size_primitive::FixedSizePrimitive', buffers=2, children=0, values='T'),
    'FixedSizeList': dict(adt='narrow::layout::fixed_size_list::FixedSizeList', buffers=1, children=1, values=None),
    'VariableSizeList': dict(adt='narrow::layout::variable_size_list::VariableSizeList', buffers=2, children=1, values='offsets'),
}
NULLS = {'NonNullable': NONNULL, 'Nullable': NULLABLE}

class Import:
    """one layout and nullability, over an arbitrary pair of structures"""
    def __init__(self, h, layout, nulls, props):
        self.h = h; self.lay = LAYOUTS[layout]; self.nullable = nulls == 'Nullable'; self.props = set(props)
        M = h.M
        M.nulls = NULLS[nulls]; M.reads = self.read; M.childcall = self.childcall; M.summary = self.summary
        self.st = st = h.st()
        self.A = arrow_array(h, 'A'); self.S = arrow_schema(h, 'S')
        self.ra = h.put(st, 'A', self.A); self.rs = h.put(st, 'S', self.S)
        g = lambda v, n: h.get(v, n)
        self.L = g(self.A, 'length').k[0]; self.nc = g(self.A, 'null_count').k[0]; self.off = g(self.A, 'offset').k[0]
        self.nb = g(self.A, 'n_buffers').k[0]; self.na = g(self.A, 'n_children').k[0]; self.ns = g(self.S, 'n_children').k[0]
        self.flags = g(self.S, 'flags').k[0]
        self.relA = batom('A.released', ()); self.relS = batom('S.released', ())
        self.nul = lambda n, *i: batom('null:' + n, tuple(topoly(x) for x in i))
        self.match = batom('fmt.match:S.format', ())
        self.nb_bit = batom('S.nullable', ())
        self.flag_ok = self.nb_bit if self.nullable else bnot(self.nb_bit)
        B, C = P.const(self.lay['buffers']), P.const(self.lay['children'])
        self.B, self.C = B, C
        nonneg = lambda b: band(le(ZERO, b))
        self.counts_ok = band(eq(self.nb, B)); self.kids_ok = band(eq(self.na, C), eq(self.ns, C))
        self.nc_ok = band(le(P.const(-1), self.nc), le(self.nc, self.L), *([] if self.nullable else [le(self.nc, ZERO)]))
        self.dict_ok = band(self.nul('A.dictionary'), self.nul('S.dictionary'))
        self.N = var('const N', 0, USIZE)
        self.k = dom._mk  # unused
        self.child = []
        # roots of foreign memory exist from the start
        self.bits0 = lambda p: batom('A.buf.bytes', (ZERO, p))
        for i in (0, 1):
            for kind in ((8, False), 'T', M.opaque_int()):
                key = M.memroot(_I(st, h.I), fp('A.buf', i), kind)
        for n in ('A.buffers', 'A.children', 'S.children'): M.memroot(_I(st, h.I), fp(n), 'ptr')
    # ---- what reads rely on (F03)
    def chk(self, prop, st, cond, msg):
        if prop in self.props: return self.h.check(st, cond, msg)
    def read(self, I, p, kind, n):
        st = I.st; c = lambda b, m: self.chk('F03', st, b, m)
        name = p.m[0]
        if kind == 'cstr':
            if name != 'S.format': raise Undecided('string behind %s' % name)
            c(bnot(self.relS), 'the schema format is read only when the schema is not released')
            c(bnot(self.nul('S.format')), 'the schema format is read only when present')
            return
        base, off = self.h.M.base(p)
        if kind == 'ptr':
            if base.k: raise Undecided('nested table')
            cnt, rel = {'A.buffers': (self.nb, self.relA), 'A.children': (self.na, self.relA), 'S.children': (self.ns, self.relS)}[name]
            c(bnot(rel), 'the table %s is read only when the structure is not released' % name)
            c(bnot(self.nul(name)), 'the table %s is read only when present' % name)
            c(band(le(ZERO, off), le(off + n, cnt)), 'no more entries of %s are read than declared' % name)
            return
        if kind == 'struct':
            c(bnot(isnull(p)), '%s is dereferenced only when present' % name)
            return
        if name != 'A.buf': raise Undecided('read of %s' % name)
        for b, m in ((bnot(self.relA), 'array not released'), (bnot(self.relS), 'schema not released'), (self.match, 'format matched'),
                     (le(ZERO, self.L), 'length not negative'), (eq(self.off, ZERO), 'offset is zero'),
                     (self.counts_ok, 'buffer count matched'), (self.dict_ok, 'no dictionary')):
            c(b, 'a buffer is read only after checking: ' + m)
        c(bnot(isnull(p)), 'a buffer is turned into a slice only when present')
        c(self.h.M.aligned(I, p, kind), 'a buffer is turned into a slice only when aligned for its element type')
        i = I.st.f.norm(p.k[0])
        if not i.isconst(): raise Undecided('buffer slot %s' % pstr(i))
        i = i.c()
        if i == 0 and self.nullable: role = 'bits'
        elif i == 1: role = self.lay['values']
        else: role = None
        if role is None:
            c(FALSE, 'buffer %d of this layout holds no data' % i); return
        if role == 'bits':
            c(band(le(self.L, n * 8), le(n * 8, self.L + 7)), 'exactly the bytes that hold one bit per item are read')
            if kind not in ((8, False),): c(FALSE, 'bits are read as bytes')
        elif role == 'T':
            c(eq(n, self.L), 'exactly one value per item is read')
            if kind != 'T': c(FALSE, 'values are read with the element type of the array')
        else:
            c(eq(n, self.L + 1), 'exactly one more offset than items is read')
            if kind != self.h.M.opaque_int(): c(FALSE, 'offsets are read with the offset type of the array')
    # ---- children (F10)
    def childcall(self, I, nm, args):
        if nm not in ('import_layout', 'import_validated'): return None
        a, s = I.force(args[0]), I.force(args[1])
        def key(v): return v.m[0] if v.t == 'ref' and not v.m[1] and isinstance(v.m[0], tuple) and v.m[0][0] == 'str' else None
        ka, ks = key(a), key(s)
        if ka is None or ks is None or ka[1] != 'A.child' or ks[1] != 'S.child':
            if a == self.ra and s == self.rs: return None
            self.chk('F10', I.st, FALSE, 'a child is imported from the child array and child schema of the structures')
            if 'F10' not in self.props: raise Undecided('import of something that is not a child')
            raise DeadPath()
        i, j = ka[2][0], ks[2][0]
        self.chk('F10', I.st, eq(i, j), 'child array and child schema have the same position')
        self.chk('F10', I.st, band(le(ZERO, i), lt(i, self.C)), 'the child position exists')
        if nm == 'import_validated':
            for p, k in (('A.child', i), ('S.child', j)):
                self.chk('F03', I.st, bnot(batom(p + '.released', (k,))), 'a child is imported with the same header checks as the top level')
                self.chk('F10', I.st, bnot(batom(p + '.released', (k,))), 'a child is imported with the same header checks as the top level')
        if I.choose(2) == 1: return Err(Term('child.error', i))
        n = var('child.len', 0, USIZE)
        return Ok(buf(('opq', 'child'), Seq(Seg(n, Term('child.items', i, E)))))
    # ---- summaries of the core crate, established by its own obligations
    def summary(self, I, c, args, destty):
        q = c.get('rq') or c.get('q') or ''; tr = c.get('trait'); nm = c.get('name')
        M = self.h.M; h = self.h
        if tr == TVB and nm == 'null_count':
            v = M.peel(I, args[0])
            if v.t == 'adt' and v.m[0] == VALIDITY: return Int(self.zeros(I, v))
        if tr == TLEN and nm == 'len':
            v = M.peel(I, args[0])
            if v.t == 'adt' and v.m[0] == BITMAP: return h.get(v, 'bits', 1)
            if v.t == 'adt' and v.m[0] == OFFSETS: return Int(M.sl_len(I, h.get(v, 'offsets', 1)) - 1)
            if v.t == 'adt' and v.m[0] == VALIDITY:
                with I.tmp(h.get(v, 'collection', 0)) as l: return self.summary(I, c, [I.mkref(l)], destty) or M.meth[(TLEN, 'len')](M, I, [I.mkref(l)], None)
            if v.t == 'adt' and v.m[0] == FLATTEN:
                n = M.sl_len(I, h.get(v, '0', 0))
                if I.branch(eq(self.N, ZERO)): raise Unwind('division by zero')
                return Int(I.idiv(n, self.N, (64, False))[0])
        if nm == 'try_from_parts' and OFFSETS in q:
            d, o = args
            if I.choose(2) == 1: return Err(Term('offsets.error'))
            return Ok(h.struct(OFFSETS, {'data': d, 'offsets': o}))
        return None
    def zeros(self, I, v):
        """cleared bits of the validity storage of v"""
        h = self.h
        b = I.force(h.get(v, 'bitmap', 1))
        if b.m[1] == 0: return ZERO
        bm = b.k[0]
        k, n, o = h.get(bm, 'buffer', 0), h.get(bm, 'bits', 1).k[0], h.get(bm, 'offset', 2).k[0]
        k = I.force(k)
        if k.t != 'slref' or not isinstance(k.m[0], tuple) or k.m[0][0] != 'mem' or k.m[0][1] != 'A.buf': raise Undecided('validity bits outside the imported buffer')
        i = k.m[0][2][0]; s = h.I.sl_parts(k)[1]
        return n - psum(b2i(batom('A.buf.bytes', (i, S + o + s * 8))), n)
    # ---- verdicts
    def run(self):
        h = self.h; adt = self.lay['adt']
        im = next((im for im in h.prog.impls_of(TIMPL) if h.prog.adt_of(im['self']) == adt), None)
        if im is None: raise Missing('%s for %s' % (TIMPL, adt))
        b = next((e[1] for e in im['provided'] if e[0] == 'import_layout'), None)
        if b is None: b = next((h.prog.fn_by_path[e[2]]['body'] for e in im['assoc'] if e[0] == 'fn' and e[1] == 'import_layout'), None)
        if b is None: raise Missing('import_layout for %s' % adt)
        h.what = '<%s as ImportLayout>::import_layout' % adt.split('::')[-1]
        outs = h.run(self.st, b, [self.ra, self.rs])
        if 'F04' in self.props: res = h.rets(outs, 'import returns for every header')
        else:
            res = [o for o in outs if o.k == 'ret']
            for o in outs:
                if o.k == 'und': h.never(o, 'import is analysed')
        nok = 0
        for o in res:
            st = o.st
            def body(v=o.v, st=st):
                v = h.I.force(v)
                if v.m[1] == 0: self.okcase(h.I.st, v.k[0])
                else: self.errcase(h.I.st, v.k[0])
            if any(w.t == 'adt' and w.m == (RES, 0) for w in vwalk(o.v) if isinstance(w, V)): nok += 1
            h.in_state(st, body)
        if not nok: h.note('undecided', 'no successful import found')
    def okcase(self, st, v):
        h = self.h; c = self.chk
        for prop in ('F03', 'F04'):
            for b, m in ((bnot(self.relA), 'a released array is refused'), (bnot(self.relS), 'a released schema is refused'), (bnot(self.nul('S.format')), 'a missing format is refused'),
                         (self.match, 'a format that does not match is refused'),
                         (le(ZERO, self.L), 'a negative length is refused'), (eq(self.off, ZERO), 'a non-zero offset is refused'),
                         (self.counts_ok, 'an unexpected number of buffers is refused'), (self.kids_ok, 'an unexpected number of children is refused'),
                         (self.dict_ok, 'a dictionary is refused')): c(prop, st, b, m)
        for prop in ('F07', 'F04'):
            c(prop, st, self.flag_ok, 'a nullable flag that does not match is refused')
        c('F04', st, bnot(self.nul('A.buffers')), 'a missing table of buffers is refused')
        if self.lay['children']:
            for n in ('A', 'S'):
                c('F04', st, bnot(self.nul(n + '.children')), 'a missing table of children is refused')
                c('F04', st, bnot(self.nul(n + '.child', 0)), 'a missing child is refused')
        if self.lay['values'] == 'offsets':
            c('F04', st, bnot(self.nul('A.buf', 1)), 'a missing offset buffer is refused')
            c('F04', st, h.M.aligned(h.I, fp('A.buf', 1), h.M.opaque_int()), 'a misaligned offset buffer is refused')
        elif self.lay['values']:
            c('F04', st, bor(bnot(self.nul('A.buf', 1)), eq(self.L, ZERO)), 'a missing value buffer is refused')
            if self.lay['values'] == 'T': c('F04', st, bor(h.M.aligned(h.I, fp('A.buf', 1), 'T'), eq(self.L, ZERO)), 'a misaligned value buffer is refused')
        for prop in ('F12', 'F04'):
            c(prop, st, self.nc_ok, 'a declared null count outside the possible range is refused')
        if v.t != 'adt' or v.m[0] != self.lay['adt']: h.note('undecided', 'unexpected result'); return
        col = h.I.force(h.get(v, 'buffer', 0))
        if self.nullable:
            if col.t != 'adt' or col.m[0] != VALIDITY: h.note('undecided', 'unexpected nullable collection'); return
            b = h.I.force(h.get(col, 'bitmap', 1))
            if b.m[1] == 0:
                for p in ('F12', 'F04'): c(p, st, bor(self.nul('A.buf', 0), eq(self.L, ZERO)), 'present validity bits are not ignored')
                for p in ('F12', 'F04'): c(p, st, bor(le(self.nc, ZERO), FALSE), 'a missing validity buffer is accepted only for data without nulls')
                for p in ('F12', 'F04'): c(p, st, bor(eq(self.nc, ZERO), eq(self.L, ZERO)), 'a missing validity buffer is accepted only for data without nulls')
            else:
                bm = b.k[0]
                self.slice_is(st, h.get(bm, 'buffer', 0), 0, (8, False), None, 'validity bits')
                c('F04', st, eq(h.get(bm, 'bits', 1).k[0], self.L), 'one validity bit per item')
                c('F04', st, eq(h.get(bm, 'offset', 2).k[0], ZERO), 'validity starts at the first bit')
                z = self.zeros(h.I, col)
                c('F12', st, bor(lt(self.nc, ZERO), eq(self.nc, z)), 'a declared null count equals the number of cleared validity bits')
            col = h.I.force(h.get(col, 'collection', 0))
        w = self.lay['values']
        if w == 'bits':
            if col.t != 'adt' or col.m[0] != BITMAP: h.note('undecided', 'unexpected collection'); return
            k = h.I.force(h.get(col, 'buffer', 0))
            c('F04', st, eq(h.get(col, 'bits', 1).k[0], self.L), 'the imported array has the declared length')
            c('F04', st, eq(h.get(col, 'offset', 2).k[0], ZERO), 'values start at the first bit')
            self.slice_is(st, k, 1, (8, False), None, 'values', empty=True)
        elif w == 'T':
            self.slice_is(st, col, 1, 'T', self.L, 'values', empty=True)
        elif w == 'offsets':
            if col.t != 'adt' or col.m[0] != OFFSETS: h.note('undecided', 'unexpected collection'); return
            self.slice_is(st, h.get(col, 'offsets', 1), 1, h.M.opaque_int(), self.L + 1, 'offsets')
            self.childdata(st, h.get(col, 'data', 0))
        else:
            if col.t != 'adt' or col.m[0] != FLATTEN: h.note('undecided', 'unexpected collection'); return
            d = h.I.force(h.get(col, '0', 0))
            self.childdata(st, d)
            c('F04', st, bnot(eq(self.N, ZERO)), 'width zero is refused')
            c('F04', st, eq(var('child.len', 0, USIZE), self.L * self.N), 'the child holds exactly width items per list')
            c('F03', st, eq(var('child.len', 0, USIZE), self.L * self.N), 'the child holds exactly width items per list')
    def childdata(self, st, d):
        d = self.h.I.force(d)
        ok = d.t == 'buf' and d.m == ('opq', 'child')
        for p in ('F10', 'F11'): self.chk(p, st, bconst(ok), 'the list holds the imported child')
    def slice_is(self, st, v, i, kind, n, msg, empty=False):
        """v is the foreign buffer i in place"""
        h = self.h
        v = h.I.force(v)
        if v.t == 'ref': v = h.I.force(h.M.peel(h.I, v))
        inplace = v.t == 'slref' and v.m[0] == ('mem', 'A.buf', (P.const(i),), kind) and h.I.st.f.eval(eq(v.k[-2], ZERO)) is True
        ln = v.k[-1] if v.t == 'slref' else seq_len(v.k[0]) if v.t in ('arr', 'buf') else None
        if ln is None: h.note('undecided', '%s: unexpected storage' % msg); return
        if inplace:
            if n is not None: self.chk('F04', st, eq(ln, n), 'the %s have the declared length' % msg)
            return
        if empty:
            self.chk('F04', st, eq(self.L, ZERO), 'the %s are those of the foreign buffer unless the array is empty' % msg)
            self.chk('F11', st, eq(self.L, ZERO), 'the %s are the foreign buffer itself' % msg)
            if n is not None: self.chk('F04', st, eq(ln, n), 'the %s have the declared length' % msg)
            return
        for p in ('F04', 'F11'): self.chk(p, st, FALSE, 'the %s are the foreign buffer itself' % msg)
    def errcase(self, st, e):
        h = self.h
        if 'F04' not in self.props: return
        c = lambda b, m: self.chk('F04', st, b, m)
        if e.t == 'term' and e.m == 'child.error': return
        if e.t != 'adt' or e.m[0] != IERR: h.note('undecided', 'unexpected error value'); return
        vs = h.prog.types[h.prog.adts[IERR]['ty']]['variants']
        name = vs[e.m[1]]['n']
        fl = {f[0]: x for f, x in zip(vs[e.m[1]]['f'], e.k)}
        val = lambda n, x: c(eq(h.I.p(fl[n]), x), '%s carries the offending %s' % (name, n)) if n in fl else None
        nul = self.nul
        child = var('child.len', 0, USIZE)
        if name == 'ReleasedArray': why = self.relA
        elif name == 'ReleasedSchema': why = self.relS
        elif name == 'MissingFormat': why = nul('S.format')
        elif name == 'UnexpectedFormat': why = bnot(self.match)
        elif name == 'UnexpectedFlags': why = bnot(self.flag_ok); val('flags', self.flags)
        elif name == 'InvalidLength': why = lt(self.L, ZERO); val('length', self.L)
        elif name == 'NonZeroOffset': why = bnot(eq(self.off, ZERO)); val('offset', self.off)
        elif name == 'UnexpectedNullCount': why = bnot(self.nc_ok); val('null_count', self.nc)
        elif name == 'UnexpectedBufferCount': why = bnot(self.counts_ok); val('count', self.nb)
        elif name == 'UnexpectedChildCount': why = bnot(self.kids_ok); val('array', self.na); val('schema', self.ns)
        elif name == 'UnexpectedDictionary': why = bnot(self.dict_ok)
        elif name == 'MissingBufferPointers': why = nul('A.buffers')
        elif name == 'MissingArrayChildren': why = bor(nul('A.children'), nul('A.child', 0)) if self.lay['children'] else FALSE
        elif name == 'MissingSchemaChildren': why = bor(nul('S.children'), nul('S.child', 0)) if self.lay['children'] else FALSE
        elif name == 'MissingValidityBuffer': why = band(nul('A.buf', 0), bnot(eq(self.L, ZERO)), bnot(eq(self.nc, ZERO))) if self.nullable else FALSE
        elif name == 'NullCountMismatch':
            z = self.L - psum(b2i(batom('A.buf.bytes', (ZERO, S))), self.L)
            why = band(le(ZERO, self.nc), bnot(eq(self.nc, z))) if self.nullable else FALSE
            val('declared', self.nc); val('actual', z)
        elif name == 'UnsupportedFixedSizeListSize': why = eq(self.N, ZERO); val('size', self.N)
        elif name == 'FixedSizeListLengthMismatch':
            why = bnot(eq(child, self.L * self.N)); val('length', self.L); val('child_length', child); val('size', self.N)
        elif name in ('MissingOffsetsBuffer', 'MissingValuesBuffer'):
            off = name == 'MissingOffsetsBuffer'
            if off != (self.lay['values'] == 'offsets') or self.lay['values'] is None: why = FALSE
            else: why = band(nul('A.buf', 1), TRUE if off else bnot(eq(self.L, ZERO)))
        elif name in ('MisalignedOffsetsBuffer', 'MisalignedValuesBuffer'):
            kind = h.M.opaque_int() if name == 'MisalignedOffsetsBuffer' else 'T'
            if (kind == 'T') != (self.lay['values'] == 'T'): why = FALSE
            else: why = bnot(h.M.aligned(h.I, fp('A.buf', 1), kind)); val('alignment', h.M.align(kind))
        elif name == 'InvalidOffsets':
            why = TRUE; x = fl.get('error')
            c(bconst(x is not None and (x.t == 'term' and x.m == 'offsets.error' or x.t == 'adt' and x.m[0] == 'narrow::offset::OffsetsError')), 'InvalidOffsets carries the violated offset invariant')
        else: h.note('undecided', 'error %s has no specification' % name); return
        c(why, 'a header is refused with %s only when that is what is wrong' % name)
        if not name.startswith('Released'):
            # nothing else in a released structure means anything
            c(band(bnot(self.relA), bnot(self.relS)), 'a released structure is reported as released, not with %s' % name)

class _I:
    """an interpreter view used to build the initial store"""
    def __init__(self, st, I): self.st = st; self.rng = I.rng

LP = [{'layout': l, 'nulls': n} for l in LAYOUTS for n in NULLS]
def _imp(prop, opts={}):
    def f(h, layout, nulls, bits=32):
        if layout == 'VariableSizeList': h.M.opts = dict(h.M.opts, offset_bits=bits)
        Import(h, layout, nulls, {prop}).run()
    parts = [dict(p, **({'bits': b} if p['layout'] == 'VariableSizeList' else {})) for p in LP for b in ((32, 64) if p['layout'] == 'VariableSizeList' else (32,))]
    ob('%s.import_layout' % prop, prop, parts=parts, crate='ffi', models=FM, nomerge=True)(f)
for _p in ('F03', 'F04', 'F07', 'F10', 'F11', 'F12'): _imp(_p)

def find_impl(h, trait, adt, pick=None):
    for im in h.prog.impls_of(trait):
        if h.prog.adt_of(im['self']) == adt and (pick is None or pick(im)): return im
    raise Missing('%s for %s' % (trait, adt))
def impl_fn(h, im, name):
    for e in im['assoc']:
        if e[0] == 'fn' and e[1] == name: return h.prog.fn_by_path[e[2]]['body']
    for e in im['provided']:
        if e[0] == name: return e[1]
    raise Missing('%s::%s' % (im['trait'], name))

@ob('F07.matches_format', 'F07', parts=[{'layout': l} for l in LAYOUTS], crate='ffi', models=FM, nomerge=True)
def _(h, layout):
    """the format accepted for a layout is exactly that of its element type"""
    im = find_impl(h, TIMPL, LAYOUTS[layout]['adt'])
    b = impl_fn(h, im, 'matches_format')
    args = h.prog.types[im['self']]['args']
    ts = [h.prog.tstr(a) for a in args if isinstance(a, int)]
    N = var('const N', 0, USIZE)
    pre = (43, 119, 58)
    strict = None
    if layout == 'Boolean': want = fmt_is((98,))
    elif layout == 'FixedSizePrimitive': want = batom('format.is:ArrowType:%s' % ts[0], ())
    elif layout == 'VariableSizeList': want = batom('format.is:ArrowListOffset:%s' % ts[2], ())
    else:
        want = band(fmt_prefix(pre), lt(P.const(3), FMTLEN), dec_ok(3), eq(dec_val(3), N))
        strict = band(want, bnot(eq(fmtbyte(P.const(3)), P.const(48))))
    h.what = '<%s as ImportLayout>::matches_format' % layout
    h.parsed = False
    st = h.st()
    outs = list(h.rets(h.run(st, b, [V('cstr', ('S.format',))]), 'format comparison returns'))
    known = layout != 'FixedSizeList' or h.parsed
    # when the digits are read in a way that has no meaning here, only the prefix can be decided
    if not known: h.note('undecided', 'width is parsed in an unknown way')
    for o in outs:
        def body(v=o.v):
            r = h.I.b(v)
            if not known: return h.check(h.I.st, bor(bnot(r), band(fmt_prefix(pre), lt(P.const(3), FMTLEN))), 'no other format is accepted')
            h.check(h.I.st, bor(bnot(r), want), 'no other format is accepted')
            h.check(h.I.st, bor(r, bnot(want if strict is None else strict)), 'the format of the type is accepted')
        h.in_state(o.st, body)

@ob('F03.import', 'F03', 'F04', 'F11', crate='ffi', models=FM, nomerge=True)
def _(h):
    """the public entry hands the structures to the import of the layout and keeps its answer"""
    b = None
    for im in h.prog.impls_of('narrow_ffi::import::Import'): b = impl_fn(h, im, 'import')
    if b is None: raise Missing('Import::import')
    st = h.st()
    ra = h.put(st, 'A', arrow_array(h, 'A')); rs = h.put(st, 'S', arrow_schema(h, 'S'))
    h.what = 'Import::import'
    def childcall(I, nm, args):
        if nm != 'import_layout': raise Undecided('import through %s' % nm)
        h.check(I.st, bconst((I.force(args[0]), I.force(args[1])) == (ra, rs)), 'the structures of the caller are imported with every header check')
        return Err(Term('memory.error')) if I.choose(2) == 1 else Ok(Term('memory'))
    h.M.childcall = childcall
    for o in h.rets(h.run(st, b, [ra, rs]), 'import returns for every header'):
        def body(v=o.v):
            v = h.I.force(v)
            x = v.k[0]
            if v.m[1] == 1: h.check(h.I.st, bconst(x.t == 'term' and x.m == 'memory.error'), 'the error of the layout is reported')
            else: h.check(h.I.st, bconst(any(isinstance(w, V) and w.t == 'term' and w.m == 'memory' for w in vwalk(x))), 'the imported memory is returned')
        h.in_state(o.st, body)
