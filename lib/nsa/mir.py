"""Program model loaded from the extractor output."""
import json

class Prog:
    def __init__(self, path, dep=None):
        j = json.load(open(path))
        self.crate = j['crate']
        self.types = j['types']; self.bodies = j['bodies']; self.fns = j['fns']
        self.impls = j['impls']; self.adts = {a['path']: a for a in j['adts']}
        self.traits = {t['path']: t for t in j['traits']}
        self.modules = j['modules']; self.unsafes = j['unsafe']; self.consts = j.get('consts', [])
        self.raw = j
        self.fn_by_path = {}
        for f in self.fns: self.fn_by_path.setdefault(f['path'], f)
        self._impl_ix = None
        self._cfg = {}
    def ty(self, i): return self.types[i]
    def tstr(self, i): return self.types[i]['s']
    # -------------------------------------------------- impl lookup
    def impls_of(self, trait):
        if self._impl_ix is None:
            d = {}
            for im in self.impls:
                if im.get('trait'): d.setdefault(im['trait'], []).append(im)
            self._impl_ix = d
        return self._impl_ix.get(trait, [])
    def adt_of(self, tid):
        t = self.types[tid]
        return t.get('path') if t['k'] == 'adt' else None
    def tykey(self, ti):
        """short name of an implementing type: path, 'array', 'slice', '&slice', ..."""
        t = self.types[ti]
        k = t['k']
        if k == 'adt': return t['path']
        if k == 'ref': return ('&mut ' if t.get('m') else '&') + self.tykey(t['e'])
        return k
    def find_impl_fn(self, trait, name, adt, byref=False):
        """(fn entry | None, impl entry | None) of the impl for a crate type"""
        want = ('&' + adt) if byref else adt
        for im in self.impls_of(trait):
            if self.tykey(im['self']) != want: continue
            for kind, n, path in (e[:3] for e in im['assoc']):
                if kind == 'fn' and n == name:
                    return self.fn_by_path.get(path), im
            return None, im
        return None, None
    def inherent(self, adt, name):
        for im in self.impls:
            if im.get('trait'): continue
            if self.adt_of(im['self']) != adt: continue
            for kind, n, path in (e[:3] for e in im['assoc']):
                if kind == 'fn' and n == name: return self.fn_by_path.get(path)
        return None
    # -------------------------------------------------- cfg
    def cfg(self, bid, unwind=False):
        c = self._cfg.get((bid, unwind))
        if c is None: c = self._cfg[(bid, unwind)] = Cfg(self.bodies[bid], unwind)
        return c


def succs(t, unwind=False):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    u = []
    if unwind:
        w = t[5] if k in ('call', 'assert') else t[4] if k == 'drop' else None
        if isinstance(w, int) and not isinstance(w, bool): u = [w]
    if k == 'call': return ([t[4]] if t[4] is not None else []) + u
    if k == 'drop': return [t[3]] + u
    if k == 'assert': return [t[4]] + u
    return []


class Cfg:
    def __init__(self, body, unwind=False):
        bl = body['blocks']
        n = len(bl)
        self.succ = [[] for _ in range(n)]; self.pred = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            for s in dict.fromkeys(succs(b['t'], unwind)):
                self.succ[i].append(s); self.pred[s].append(i)
        # reverse postorder from 0
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            v, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(v); stack.pop()
        order.reverse()
        self.rpo = {v: i for i, v in enumerate(order)}
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for v in order[1:]:
                ps = [p for p in self.pred[v] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]: x = idom[x]
                        while self.rpo[y] > self.rpo[x]: y = idom[y]
                if idom.get(v) != x: idom[v] = x; changed = True
        self.idom = idom
        self.loops = {}
        for v in order:
            for s in self.succ[v]:
                if self.dominates(s, v):
                    body = self.loops.setdefault(s, {s})
                    todo = [v]
                    while todo:
                        x = todo.pop()
                        if x in body: continue
                        body.add(x); todo += [p for p in self.pred[x] if p in self.rpo]
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]
