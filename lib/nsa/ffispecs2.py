"""Obligations of the C data interface crate: export and release."""
from .obl import ob
from .ffimodels2 import *
from .ffimodels2 import isvec, EM, TEXP, EERR, DROP, bx, hp, isheap
from .ffispecs import LAYOUTS, NULLS, find_impl, impl_fn
from .interp import v_eq

EXPORT = 'narrow_ffi::export::Export'
VARIANTS = {'NonNullable': (NONNULL, None), 'Nullable': (NULLABLE, True), 'Nullable, no bitmap': (NULLABLE, False)}
MAXI = (1 << 63) - 1
CH = {'F01', 'F02', 'F06', 'F07', 'F09', 'F10', 'F11', 'F13'}

class Export:
    """one layout and nullability, over arbitrary contents"""
    def __init__(self, h, layout, variant, props):
        self.h = h; self.lay = LAYOUTS[layout]; self.layout = layout; self.props = set(props)
        M = h.M
        self.nulls, self.bm = VARIANTS[variant]; self.nullable = self.nulls == NULLABLE
        M.nulls = self.nulls; M.summary = self.summary; M.expchild = self.expchild; M.violation = self.violation; M.ontake = self.ontake
        M.opts = dict(M.opts, noabort=True); M.hooks = [self.onalloc]
        self.st = st = h.st()
        self.im = find_impl(h, TEXP, self.lay['adt'], lambda im: self.nulls in [h.prog.adt_of(a) for a in h.prog.types[im['self']]['args'] if isinstance(a, int)])
        self.names = [h.prog.tstr(a) if isinstance(a, int) else '' for a in h.prog.types[self.im['self']]['args']]
        self.N = var('const N', 0, USIZE)
        st.f.add(le(ONE, self.N))
        self.tags = []
        w = self.lay['values']
        own = lambda r: self.tags.append('own:' + r) or 'own:' + r
        if w == 'bits':
            col = h.bitmap(st, 'vals', alloc=own('values')); _, self.n, self.bo = h.bm(col)
        elif w == 'T':
            self.n = h.usize('vals.len', MEMMAX); col = h.items('vals', self.n, own('values')); self.bo = ZERO
        elif w == 'offsets':
            self.n = h.usize('lists', MEMMAX); self.bo = ZERO
            self.cn = h.usize('child.len', MEMMAX)
            ln = app('list.len', (S,), 0, None)
            st.f.add(le(psum(ln, self.n), self.cn)); st.f.add(le(self.cn, P.const((1 << (M.opaque_int()[0] - 1)) - 1)))
            o = buf(('opq', own('values')), Seq(Seg(1, h.offint(ZERO)), Seg(self.n, h.offint(psum(ln, E + 1)))))
            col = h.struct(OFFSETS, {'data': h.items('child', self.cn, own('child')), 'offsets': o})
        else:
            self.cn = h.usize('child.len'); self.bo = ZERO; self.n = None
            col = h.struct(FLATTEN, {'0': h.items('child', self.cn, own('child'))})
        self.vo = ZERO; self.vbits = None
        if self.nullable:
            if self.bm:
                b = h.bitmap(st, 'validity', alloc=own('validity')); _, self.vbits, self.vo = h.bm(b)
                n = self.n if self.n is not None else app('divp', (st.f.norm(self.cn), st.f.norm(self.N)), 0, None)
                st.f.add(le(self.vbits, n)); st.f.add(le(n, self.n if self.n is not None else self.cn))
                col = h.struct(VALIDITY, {'collection': col, 'bitmap': Some(b)})
            else: col = h.struct(VALIDITY, {'collection': col, 'bitmap': NONE})
        self.col = col
        self.owner = h.struct(self.lay['adt'], {'buffer': col})
    def chk(self, prop, st, cond, msg):
        if prop in self.props: return self.h.check(st, cond if isinstance(cond, B) else bconst(cond), msg)
        return True
    def violation(self, I, kind, msg):
        for p in {'free': ('F01', 'F13'), 'use': ('F01', 'F02', 'F13'), 'type': ('F01',)}[kind]: self.chk(p, I.st, FALSE, msg)
    def onalloc(self, I, *ev):
        if ev[0] == 'abort':
            n = topoly(ev[3]) if not isinstance(ev[3], P) else ev[3]
            self.chk('F11', I.st, le(n, P.const(8)), 'export obtains memory (%s) in proportion to the array' % ev[1])
        elif ev[0] == 'alloc' and isinstance(ev[3], P):
            self.chk('F11', I.st, le(ev[3], P.const(8)), 'export obtains memory (%s) in proportion to the array' % ev[1])
    # ---- the structure given to the opaque child
    def childname(self, I, v):
        v = I.force(v)
        if v.t != 'ref': return None
        x = I.force(I.read((v.m[0], v.m[1], v.k)))
        while x.t == 'ref': x = I.force(I.read((x.m[0], x.m[1], x.k)))
        return x.m[1] if x.t == 'buf' and isinstance(x.m, tuple) and len(x.m) > 1 else None
    def mark(self, I, why): I.st.store[('why', why)] = UNIT
    def release(self, I, p):
        """release function of a structure made by the child"""
        v = I.force(p)
        if v.t != 'ref': raise Undecided('release of %s' % v.t)
        loc = (v.m[0], v.m[1], v.k)
        s = I.force(I.read(loc))
        pd = I.force(self.h.get(s, 'private_data'))
        if not isheap(pd): raise Undecided('private data of a child')
        self.h.M.free(I, pd.m[0][1])
        i = self.h.fidx(s.m[0], 'release')
        I.write(loc, s.with_kid(i, NONE))
        return UNIT
    def childstruct(self, I, adt, what):
        h = self.h
        n = h.M.newheap(I, Term('child.' + what), None, 'raw')
        q = lambda f: Term('child.%s.%s' % (what, f))
        vals = {f[0]: V('ptrconst', (0,)) for f in h.fields(adt)}
        for f in ('length', 'null_count', 'offset', 'n_buffers', 'n_children', 'flags'):
            if f in vals: vals[f] = V('int', (64, True), (var('child.%s.%s' % (what, f), -(1 << 63), MAXI),))
        vals['private_data'] = hp(n)
        vals['release'] = Some(V('pyfn', (self.pyrel(),)))
        return h.struct(adt, vals)
    def pyrel(self):
        f = getattr(self, '_rel', None)
        if f is None: f = self._rel = lambda I, p: self.release(I, p)
        return f
    def expchild(self, I, nm, args):
        if nm == 'child_array':
            self.chk('F10', I.st, self.childname(I, args[0]) == 'own:child', 'the exported child is the child of the array')
            c = I.choose(3)
            if c == 1: self.mark(I, 'child error'); return Err(Term('child.error'))
            if c == 2: self.mark(I, 'child panic'); raise Unwind('the export of the child panics')
            return Ok(self.childstruct(I, ARR, 'array'))
        if nm == 'schema':
            if I.choose(2) == 1: self.mark(I, 'schema panic'); raise Unwind('the schema of the child panics')
            return self.childstruct(I, SCH, 'schema')
        return None
    # ---- summaries of the core crate
    def summary(self, I, c, args, destty):
        tr = c.get('trait'); nm = c.get('name'); M = self.h.M; h = self.h
        if tr == TVB and nm == 'null_count':
            v = M.peel(I, args[0])
            if v.t == 'adt' and v.m[0] == VALIDITY: return Int(self.zeros(I, v))
        if tr == TVB and nm == 'valid_count':
            v = M.peel(I, args[0])
            if v.t == 'adt' and v.m[0] == VALIDITY:
                with I.tmp(v) as l: n = I.p(self.summary(I, dict(c, trait=TLEN, name='len'), [I.mkref(l)], destty))
                return Int(n - self.zeros(I, v))
        if tr == TLEN and nm == 'len':
            v = M.peel(I, args[0])
            if v.t == 'adt' and v.m[0] == BITMAP: return h.get(v, 'bits', 1)
            if v.t == 'adt' and v.m[0] == OFFSETS: return Int(M.sl_len(I, h.get(v, 'offsets', 1)) - 1)
            if v.t == 'adt' and v.m[0] == VALIDITY:
                with I.tmp(h.get(v, 'collection', 0)) as l: return self.summary(I, c, [I.mkref(l)], destty) or M.meth[(TLEN, 'len')](M, I, [I.mkref(l)], None)
            if v.t == 'adt' and v.m[0] == FLATTEN:
                n = M.sl_len(I, h.get(v, '0', 0))
                if I.branch(eq(self.N, ZERO)): raise Unwind('division by zero')
                return Int(I.idiv(n, self.N, (64, False))[0])
        return None
    def zeros(self, I, v):
        b = I.force(self.h.get(v, 'bitmap', 1))
        if b.m[1] == 0: return ZERO
        _, n, o = self.h.bm(b.k[0])
        k = I.force(self.h.get(b.k[0], 'buffer', 0))
        if k.m[1] != 'own:validity': raise Undecided('validity bits of %s' % (k.m,))
        return n - psum(b2i(batom('validity', (S + o,))), n)
    def length(self, I):
        if self.n is not None: return self.n
        return I.idiv(self.cn, self.N, (64, False))[0]
    # ---- outcomes
    def run(self, fn):
        h = self.h
        b = impl_fn(h, self.im, fn)
        h.what = '<%s as ArrowArrayLayout>::%s' % (self.lay['adt'].split('::')[-1], fn)
        self.fn = fn
        if fn == 'export': args = [self.owner]
        else: args = [h.put(self.st, 'S', self.owner)]
        outs = h.run(self.st, b, args)
        nok = 0
        for o in outs:
            if o.k == 'und': h.never(o, 'export is analysed'); continue
            if o.k == 'unwind': self.unwound(o); continue
            def body(v=o.v):
                r = h.I.force(v)
                if r.m[1] == 0: self.okcase(h.I, r.k[0])
                else: self.errcase(h.I, r.k[0])
            v = h.I.force(o.v) if o.v.t != 'ite' else None
            if v is not None and v.m[1] == 0: nok += 1
            h.in_state(o.st, body)
        if not nok: h.note('undecided', 'no successful export found')
    def released(self, st, when):
        """everything built or consumed so far has been released exactly once"""
        for k in list(st.store):
            if isinstance(k, tuple) and k[0] == 'own' and st.store[k].m[0] != 'freed':
                for p in ('F13', 'F06') if 'refused' in when else ('F13',): self.chk(p, st, FALSE, 'memory (%s) is leaked when %s' % (self.tname(st.store[k].m[1]), when))
        if self.fn == 'export':
            for t in self.tags:
                if ('dropped', t) not in st.store:
                    for p in ('F13', 'F06') if 'refused' in when else ('F13',): self.chk(p, st, FALSE, 'storage (%s) is leaked when %s' % (t[4:], when))
        for p in ('F13', 'F06') if 'refused' in when else ('F13',): self.chk(p, st, TRUE, 'nothing is leaked')
    def tname(self, tid): return self.h.prog.tstr(tid)[:80] if isinstance(tid, int) else 'child structure or string'
    def unwound(self, o):
        h = self.h; st = o.st
        why = [k for k in st.store if isinstance(k, tuple) and k[0] == 'why' and k[1].endswith('panic')]
        if not why and 'F06' in self.props:
            # only a length no structure can declare may panic
            def body():
                h.check(h.I.st, lt(P.const(MAXI), self.length(h.I)), 'export returns: %s' % o.v)
            h.in_state(st, body)
        self.released(st, 'export panics')
    def errcase(self, I, e):
        st = I.st; h = self.h
        ch = ('why', 'child error') in st.store
        own = bor(lt(ZERO, self.vo), lt(ZERO, self.bo))
        self.chk('F06', st, TRUE if ch else own, 'export is refused only because of a bit offset')
        if e.t == 'adt' and e.m[0] == EERR:
            x = I.p(h.get(e, 'offset', 0)) if len(e.k) else None
            if x is not None: self.chk('F06', st, bor(band(eq(x, self.vo), lt(ZERO, self.vo)), band(eq(x, self.bo), lt(ZERO, self.bo))), 'the refusal carries the offset')
        elif not (e.t == 'term' and e.m == 'child.error'): h.note('undecided', 'unexpected error')
        self.released(st, 'export is refused')
    def okcase(self, I, v):
        st = I.st; h = self.h
        self.chk('F06', st, band(eq(self.vo, ZERO), eq(self.bo, ZERO), bconst(('why', 'child error') not in st.store)), 'an array with a bit offset is refused')
        if self.fn == 'export': a, s = I.force(v.k[0]), I.force(v.k[1])
        else: a, s = I.force(v), None
        if a.t != 'adt' or a.m[0] != ARR: h.note('undecided', 'unexpected array structure'); return
        # the structure may be moved by its consumer
        st.store['XA'] = a
        self.fields(I, a)
        if s is not None:
            if s.t != 'adt' or s.m[0] != SCH: h.note('undecided', 'unexpected schema structure'); return
            st.store['XS'] = s
            self.schema(I, s)
        self.lifecycle(I, s is not None)
    def g(self, v, f): return self.h.I.force(self.h.get(v, f))
    def where(self, I, p, what):
        """True: into memory the structures keep alive; False: violation reported; None: undecided"""
        st = I.st
        if p.t == 'ptrconst': return p.m[0] == 0
        if p.t in ('cstr', 'str'): return True
        if p.t in ('ref', 'slref'):
            root = p.m[0]
            if isinstance(root, tuple) and root[0] == 'p': return True
            if isinstance(root, tuple) and root[0] == 'heap':
                o = st.store.get(('own', root[1]))
                if o is None: return None
                return self.chk('F02', st, o.m[0] != 'freed', '%s points to freed memory' % what)
            if root not in st.store and ('vecptr', root) in st.store: return self.undecided('F02', '%s points into a vector that moved' % what)
            if root not in st.store: return self.chk('F02', st, FALSE, '%s points to a temporary' % what)
            if root == 'S' and self.fn == 'child_array':
                return self.chk('F02', st, FALSE, '%s of a child points into storage that only the parent owns: a child moved out of its parent dangles once the parent is released' % what)
            if p.t == 'slref' and root not in ('S',):
                # memory of a vector moves with its owner only in name
                return self.undecided('F02', '%s points into a container that was a local' % what) if self.isvec(I, p) else self.chk('F02', st, FALSE, '%s points to a temporary' % what)
            return self.chk('F02', st, FALSE, '%s points to a temporary' % what)
        if p.t == 'fp' or p.t == 'term': return self.undecided('F02', '%s: unknown pointer' % what)
        return self.undecided('F02', '%s: %s' % (what, p.t))
    def isvec(self, I, p): return isvec(I, p)
    def undecided(self, prop, msg):
        if prop in self.props: self.h.note('undecided', msg)
        return None
    def table(self, I, p, what, n, prop):
        """entries of a pointer table, or None"""
        st = I.st
        if n == 0:
            self.chk(prop, st, p.t == 'ptrconst' and p.m[0] == 0 or p.t == 'slref', 'an empty table')
            return []
        if not self.chk(prop, st, p.t != 'ptrconst', 'the table of %s is present' % what): return None
        if p.t not in ('slref', 'ref'): return self.undecided(prop, 'table of %s: %s' % (what, p.t))
        if not self.where(I, p, 'the table of %s' % what): return None
        if p.t == 'ref': return self.undecided(prop, 'table of %s: %s' % (what, p.t))
        (loc, s0, ln) = I.sl_parts(p)
        self.chk(prop, st, band(eq(s0, ZERO), eq(ln, P.const(n))), 'the table of %s has one entry per declared %s' % (what, what))
        q = I.read(loc)
        ln = st.f.norm(seq_len(q))
        if not ln.isconst(): return self.undecided(prop, 'table of %s' % what)
        if not self.chk(prop, st, ln.c() >= n, 'the table of %s has one entry per declared %s' % (what, what)): return None
        return [I.force(I.seq_get(q, P.const(i))) for i in range(min(n, ln.c()))]
    def buffertag(self, I, p):
        if p.t not in ('slref',): return None
        if p.m[0] not in I.st.store: return 'dead'
        (loc, s0, ln) = I.sl_parts(p)
        if I.st.f.eval(eq(s0, ZERO)) is not True: return 'middle'
        x = I.force(I.read((loc[0], loc[1][:-1], loc[2])))
        return x.m[1] if x.t == 'buf' and isinstance(x.m, tuple) and len(x.m) > 1 else None
    def fields(self, I, a):
        st = I.st; h = self.h; g = lambda f: self.g(a, f)
        B, C = self.lay['buffers'], self.lay['children']
        L = self.length(I)
        self.chk('F09', st, eq(g('length').k[0], L), 'the declared length is that of the array')
        if self.vbits is None: want = ZERO
        else: want = self.vbits - psum(b2i(batom('validity', (S + self.vo,))), self.vbits)
        self.chk('F09', st, eq(g('null_count').k[0], want), 'the declared null count is the number of nulls')
        for p in ('F06', 'F09'): self.chk(p, st, eq(g('offset').k[0], ZERO), 'the declared offset is zero')
        self.chk('F09', st, eq(g('n_buffers').k[0], P.const(B)), 'the declared number of buffers is that of the layout')
        for p in ('F09', 'F10'): self.chk(p, st, eq(g('n_children').k[0], P.const(C)), 'the declared number of children is that of the layout')
        self.chk('F09', st, g('dictionary').t == 'ptrconst' and g('dictionary').m[0] == 0, 'no dictionary is declared')
        self.chk('F02', st, g('dictionary').t == 'ptrconst' and g('dictionary').m[0] == 0, 'no dictionary is declared')
        es = self.table(I, g('buffers'), 'buffers', B, 'F09')
        slots = ['own:validity' if self.bm else None, 'own:values'][:B]
        for i, e in enumerate(es or ()):
            w = slots[i]
            if w is None: self.chk('F09', st, e.t == 'ptrconst' and e.m[0] == 0, 'the validity slot is null when there is no validity bitmap'); continue
            role = 'validity' if i == 0 else 'values'
            for p in ('F09', 'F11'): self.chk(p, st, e.t == 'slref' and self.buffertag(I, e) == w if e.t in ('ptrconst', 'slref') else FALSE if e.t == 'ref' else TRUE, 'the %s slot holds the %s buffer of the array itself' % (role, role))
            self.where(I, e, 'the %s buffer' % role)
        es = self.table(I, g('children'), 'children', C, 'F10')
        for e in es or ():
            if e.t != 'ref': self.undecided('F10', 'child pointer: %s' % e.t); continue
            if not self.where(I, e, 'the child array'): continue
            x = I.force(I.read((e.m[0], e.m[1], e.k)))
            self.chk('F10', st, x.t == 'adt' and x.m[0] == ARR and self.childid(I, x) == 'child.array', 'the child array is the export of the child')
        pd = g('private_data')
        self.where(I, pd, 'the private data')
        r = g('release')
        self.chk('F01', st, r.t == 'adt' and r.m == (OPT, 1), 'the exported array carries a release function')
    def childid(self, I, x):
        pd = I.force(self.h.get(x, 'private_data'))
        if not isheap(pd): return None
        t = I.st.store.get(pd.m[0])
        return t.m if t is not None and t.t == 'term' else None
    def schema(self, I, s):
        st = I.st; h = self.h; g = lambda f: self.g(s, f)
        C = self.lay['children']
        self.chk('F07', st, eq(I.p(g('flags')), P.const(2 if self.nullable else 0)), 'the nullable flag is that of the type')
        for p in ('F10', 'F09'): self.chk(p, st, eq(I.p(g('n_children')), P.const(C)), 'the schema declares the children of the layout')
        for f in ('metadata', 'dictionary'): self.chk('F07', st, g(f).t == 'ptrconst' and g(f).m[0] == 0, 'no %s is declared' % f)
        for f in ('format', 'name', 'private_data'): self.where(I, g(f), 'the schema %s' % f)
        f = g('format')
        w = self.lay['values']
        if w == 'bits': want = ('lit', (98,))
        elif w == 'T': want = ('const', 'ArrowType', self.names[0])
        elif w == 'offsets': want = ('const', 'ArrowListOffset', self.names[2])
        else: want = None
        if f.t == 'ptrconst': self.chk('F07', st, FALSE, 'the schema has a format')
        elif want is not None:
            if f.t == 'cstr': self.chk('F07', st, f.m == want, 'the format is the one of the element type')
            else: self.undecided('F07', 'format: %s' % f.t)
        else:
            t = I.st.store.get(f.m[0]) if isheap(f) else None
            if f.t == 'cstr': self.chk('F07', st, FALSE, 'the format carries the width')
            elif t is None or t.t != 'fmts': self.undecided('F07', 'format: %s' % f.t)
            else:
                lit = b''.join(b if k == 'l' else b'\0' for k, b in t.m)
                ok = lit == b'+w:\0' and len(t.k) == 1
                self.chk('F07', st, eq(t.k[0], self.N) if ok else FALSE, 'the format is +w: followed by the width in decimal')
        es = self.table(I, g('children'), 'children', C, 'F10')
        for e in es or ():
            if e.t != 'ref': self.undecided('F10', 'child pointer: %s' % e.t); continue
            if not self.where(I, e, 'the child schema'): continue
            x = I.force(I.read((e.m[0], e.m[1], e.k)))
            self.chk('F10', st, x.t == 'adt' and x.m[0] == SCH and self.childid(I, x) == 'child.schema', 'the child schema is that of the child')
        r = g('release')
        self.chk('F01', st, r.t == 'adt' and r.m == (OPT, 1), 'the exported schema carries a release function')
    # ---- after the export
    def ontake(self, I, n):
        """private data is about to be freed: the structure being released says so already"""
        key = getattr(self, 'dropping', None)
        if key is None: return
        s = I.st.store.get(key)
        if s is None: return
        self.marked(I, s, 'before its private data is freed')
    def marked(self, I, s, when):
        for f, m in (('release', 'is marked released'), ('private_data', 'no longer has private data'), ('children', 'no longer has children')) + ((('buffers', 'no longer has buffers'),) if s.m[0] == ARR else ()):
            v = I.force(self.h.get(s, f))
            self.chk('F01', I.st, v.t == 'adt' and v.m == (OPT, 0) if f == 'release' else v.t == 'ptrconst' and v.m[0] == 0, 'the structure %s %s' % (m, when))
    def pointers(self, I, s):
        return [(f, v) for f in ('buffers', 'children', 'private_data', 'format', 'name') if any(x[0] == f for x in self.h.fields(s.m[0])) for v in [I.force(self.h.get(s, f))] if v.t in ('ref', 'slref') and isinstance(v.m[0], tuple) and v.m[0][0] == 'heap']
    def lifecycle(self, I, both):
        if not self.props & {'F01', 'F02', 'F13'}: return
        M = self.h.M
        order = ['XA', 'XS'] if both else ['XA']
        if both and I.choose(2): order.reverse()
        # a consumer may have released a child on its own
        gone = self.lay['children'] and I.choose(2)
        if gone:
            for k in order:
                p = I.force(self.h.get(I.st.store[k], 'children'))
                if p.t != 'slref': continue
                e = I.force(I.seq_get(I.read(I.sl_parts(p)[0]), ZERO))
                if e.t != 'ref': continue
                self.dropping = None
                M.drop_at(I, (e.m[0], e.m[1], e.k))
        for i, k in enumerate(order):
            ptrs = self.pointers(I, I.st.store[k]) if i else []
            for f, v in ptrs:
                self.chk('F02', I.st, I.st.store[('own', v.m[0][1])].m[0] != 'freed', 'the %s pointer of the %s outlives the release of the other structure' % (f, 'array' if k == 'XA' else 'schema'))
            self.dropping = k
            M.drop_at(I, (k, (), ()))
            self.dropping = None
            s = I.st.store[k]
            v = I.force(self.h.get(s, 'release'))
            self.chk('F01', I.st, v.t == 'adt' and v.m == (OPT, 0), 'a released structure is marked released')
            if self.props & {'F01'}: M.drop_at(I, (k, (), ()))
        for k in list(I.st.store):
            if isinstance(k, tuple) and k[0] == 'own' and I.st.store[k].m[0] != 'freed':
                for p in ('F01', 'F13'): self.chk(p, I.st, FALSE, 'memory (%s) is never freed: releasing the structures leaves it behind' % self.tname(I.st.store[k].m[1]))
        if self.fn == 'export':
            for t in self.tags:
                for p in ('F01', 'F13'): self.chk(p, I.st, ('dropped', t) in I.st.store, 'storage of the array (%s) is released with the structure' % t[4:])

PARTS = [dict({'layout': l, 'variant': v}, **({'bits': b} if l == 'VariableSizeList' else {})) for l in LAYOUTS for v in VARIANTS for b in ((32, 64) if l == 'VariableSizeList' else (32,))]
def _exp(prop, fn, parts=None):
    def f(h, layout, variant, bits=32):
        if layout == 'VariableSizeList': h.M.opts = dict(h.M.opts, offset_bits=bits)
        Export(h, layout, variant, {prop}).run(fn)
    ob('%s.%s' % (prop, fn), prop, parts=parts or PARTS, crate='ffi', models=EM, nomerge=True, cleanup=True, every=(prop, fn) == ('F02', 'child_array'))(f)
for _p in ('F01', 'F02', 'F06', 'F07', 'F09', 'F10', 'F11', 'F13'):
    _exp(_p, 'export')
    if _p != 'F07': _exp(_p, 'child_array')

# ------------------------------------------------------------------ dropping and asking
def symbolic(h, adt, release):
    """a structure with arbitrary contents"""
    vals = {}
    for f in h.fields(adt):
        ty = h.prog.types[f[1]]
        if f[0] == 'release': vals[f[0]] = release
        elif ty['k'] == 'int': vals[f[0]] = V('int', (ty['bits'], ty['signed']), (var('any.' + f[0], -(1 << 63), MAXI),))
        else: vals[f[0]] = Term('any.' + f[0])
    return h.struct(adt, vals)

@ob('F01.drop', 'F01', parts=[{'adt': a, 'live': l} for a in (ARR, SCH) for l in (True, False)], crate='ffi', models=EM, nomerge=True)
def _(h, adt, live):
    """dropping calls the release function of the structure itself, exactly when it is live"""
    fe, im = h.prog.find_impl_fn(DROP, 'drop', adt)
    if fe is None: raise Missing('Drop for %s' % adt)
    st = h.st()
    h.what = '<%s as Drop>::drop' % adt.split('::')[-1]
    def rel(I, p):
        p = I.force(p)
        n = sum(1 for k in I.st.store if isinstance(k, tuple) and k[0] == 'released')
        h.check(I.st, bconst(n == 0), 'the release function is called once')
        h.check(I.st, bconst(p.t == 'ref' and p.m[0] == 'D' and not p.m[1]) , 'the release function is given the structure itself')
        I.st.store[('released', n)] = UNIT
        if p.t == 'ref':
            s = I.force(I.read((p.m[0], p.m[1], p.k)))
            if s.t == 'adt': I.write((p.m[0], p.m[1], p.k), s.with_kid(h.fidx(adt, 'release'), NONE))
        return UNIT
    f = V('pyfn', (rel,))
    h.M.violation = lambda I, kind, msg: h.check(I.st, FALSE, msg)
    r = h.put(st, 'D', symbolic(h, adt, Some(f) if live else NONE))
    n = 0
    for o in h.rets(h.run(st, fe['body'], [r]), 'dropping returns'):
        n += 1
        done = any(isinstance(k, tuple) and k[0] == 'released' for k in o.st.store)
        h.check(o.st, bconst(done == live), 'the release function is called exactly when the structure is live')
    if not n: h.note('undecided', 'no path found')

@ob('F01.is_released', 'F01', parts=[{'adt': a, 'live': l} for a in (ARR, SCH) for l in (True, False)], crate='ffi', models=EM, nomerge=True)
def _(h, adt, live):
    b = h.inherent(adt, 'is_released')
    h.what = '%s::is_released' % adt.split('::')[-1]
    st = h.st()
    r = h.put(st, 'D', symbolic(h, adt, Some(V('pyfn', (lambda I, p: UNIT,))) if live else NONE))
    for o in h.rets(h.run(st, b, [r]), 'the question is answered'):
        def body(v=o.v): h.check(h.I.st, h.I.b(v) if not live else bnot(h.I.b(v)), 'a structure is reported released exactly when it carries no release function')
        h.in_state(o.st, body)

@ob('F01.default', 'F01', 'F03', parts=[{'adt': a} for a in (ARR, SCH)], crate='ffi', models=EM, nomerge=True)
def _(h, adt):
    """the default structure is a released one"""
    fe, im = h.prog.find_impl_fn('core::default::Default', 'default', adt)
    if fe is None: raise Missing('Default for %s' % adt)
    h.what = '<%s as Default>::default' % adt.split('::')[-1]
    st = h.st()
    for o in h.rets(h.run(st, fe['body'], []), 'the default is returned'):
        def body(v=o.v):
            v = h.I.force(v); r = h.I.force(h.get(v, 'release'))
            h.check(h.I.st, bconst(r.t == 'adt' and r.m == (OPT, 0)), 'the default structure is marked released')
        h.in_state(o.st, body)

@ob('F06.wrapper', 'F06', 'F11', 'F13', crate='ffi', models=EM, nomerge=True, cleanup=True)
def _(h):
    """the public entry gives the memory of the array to its layout and keeps the answer"""
    b = None
    for im in h.prog.impls_of(EXPORT): b = impl_fn(h, im, 'export')
    if b is None: raise Missing('Export::export')
    fe = h.prog.bodies[b]; adt = h.prog.adt_of(fe['locals'][1])
    h.what = 'Export::export'
    st = h.st()
    mem = buf(('opq', 'own:memory'), Seq(Seg(h.usize('memory.len'), Term('x'))))
    fs = h.fields(adt)
    a = h.struct(adt, {f[0]: Adt('core::marker::PhantomData', 0) if h.prog.adt_of(f[1]) == 'core::marker::PhantomData' else mem for f in fs})
    h.M.violation = lambda I, kind, msg: h.check(I.st, FALSE, msg)
    def ev(I, *e):
        if e[0] in ('abort', 'alloc'): h.check(I.st, FALSE, 'the entry obtains memory')
    h.M.opts = dict(h.M.opts, noabort=True); h.M.hooks = [ev]
    def child(I, nm, args):
        if nm != 'export': return None
        x = I.force(args[0])
        h.check(I.st, bconst(x.t == 'buf' and x.m[1] == 'own:memory'), 'the memory of the array is exported')
        I.st.store[('asked', 0)] = UNIT
        return Err(Term('memory.error')) if I.choose(2) == 1 else Ok(Term('structures'))
    h.M.expchild = child
    n = 0
    for o in h.rets(h.run(st, b, [a]), 'export returns'):
        def body(v=o.v):
            v = h.I.force(v); x = h.I.force(v.k[0]); n_ = x.m if x.t == 'term' else None
            h.check(h.I.st, bconst(('asked', 0) in h.I.st.store), 'the layout is asked')
            h.check(h.I.st, bconst(('dropped', 'own:memory') not in h.I.st.store), 'the memory is handed over')
            if v.m[1] == 1: h.check(h.I.st, bconst(n_ == 'memory.error'), 'the refusal of the layout is reported')
            elif x.t == 'tup': h.note('undecided', 'structures are taken apart')
            else: h.check(h.I.st, bconst(n_ == 'structures'), 'the structures of the layout are returned')
        n += 1
        h.in_state(o.st, body)
    if not n: h.note('undecided', 'no path found')

@ob('F07.option', 'F07', parts=[{'c': 'FORMAT'}, {'c': 'FLAGS'}], crate='ffi', models=EM, nomerge=True)
def _(h, c):
    """an optional type has the format of its type and is flagged nullable"""
    h.what = '<Option as ArrowType>::%s' % c
    for im in h.prog.impls_of('narrow_ffi::export::ArrowType'):
        t = h.prog.types[im['self']]
        if h.prog.adt_of(im['self']) != OPT: continue
        T = h.prog.tstr(t['args'][0])
        for e in im['assoc']:
            if e[0] == 'const' and e[1] == c and isinstance(e[2], dict): break
        else: raise Missing(h.what)
        def body():
            v = h.I.call_body(e[2]['cbody'], []) if 'cbody' in e[2] else h.I.const(None, None, e[2])
            if c == 'FLAGS': h.check(h.I.st, eq(h.I.p(v), P.const(2)), 'an optional type is flagged nullable and nothing else')
            else:
                v = h.I.force(v)
                while v.t == 'ref': v = h.I.force(h.I.read((v.m[0], v.m[1], v.k)))
                if v.t == 'cstr': h.check(h.I.st, bconst(v.m == ('const', 'ArrowType', T)), 'an optional type has the format of its type')
                elif v.t in ('str', 'ptrconst'): h.check(h.I.st, FALSE, 'an optional type has the format of its type')
                else: h.note('undecided', 'format is %s' % v.t)
        h.in_state(h.st(), body)
        return
    raise Missing(h.what)
