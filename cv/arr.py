"""SymArr: an array of records of unbounded length. An element is found by its symbolic index; two indices are
told apart by the solver, otherwise the path is split on their equality. Elements not yet touched have arbitrary content,
constrained by new_elem (the instantiation of what is known about every element)."""
from exec import *
from ir import DOUBLE, FLOAT, PTR

class SymArr:
    """fields: {offset: (size, kind)} kind: 'i' signed, 'u' unsigned, 'f' double, 'p' pointer (via mk), or callable(ex, st, k) -> value"""
    def __init__(self, name, esize, fields, n, new_elem=None, ro=False):
        self.name = name; self.esize = esize; self.fields = fields; self.n = n; self.new_elem = new_elem; self.ro = ro
        self.ents = []       # (index poly, {off: value}, {off: initial value})
        self.ver = 0; self.writes = 0
    def clone(self):
        c = SymArr.__new__(SymArr); c.__dict__.update(self.__dict__)
        c.ents = [(k, dict(v), i) for k, v, i in self.ents]
        return c
    def changed(self, old): return self.writes != old.writes
    def havoc(self, ex, st):
        self.ents = []; self.ver += 1
    # ---- locating
    def split(self, ex, off):
        """offset -> (index poly, field offset)"""
        p = off.p if isinstance(off, IV) else P(off)
        c = p.d.get((), 0) % self.esize
        q = p - c
        if all(v % self.esize == 0 for v in q.d.values()): k = Poly({m: v//self.esize for m, v in q.d.items()})
        else:
            k = ex.d.fdiv(q, self.esize)
        return k, c, q - k*self.esize
    def entry(self, ex, st, k, what, write=False):
        """-> [(state, position in ents)]. Untouched elements are told apart by congruence facts, modified ones by a split of the path"""
        d = ex.d
        me = st.mem[self.rid].arr
        for j, (i, v, _) in enumerate(me.ents):
            if (i - k).const() == 0:
                if not write or any(v[o] is not _[o] for o in v): return [(st, j)]
                return self.alone(ex, st, k, j)
        out = []; cur = st; ack = []
        for j, (i, v, ini) in enumerate(list(me.ents)):
            if (i - k).const() is not None: continue
            c = d.rel('==', i - k)
            if c is False: continue
            dirty = any(v[o] is not ini[o] for o in v)
            if not (write or dirty or any(callable(kd) for _, kd in self.fields.values())):
                ack.append((c, ini)); continue
            r = ex.fork(cur, c); nxt = None
            for bb, s in r:
                if bb: out.append((s, j))
                else: nxt = s
            cur = nxt
            if cur is None: return out
        a = cur.region_w(self.rid).arr
        ini = {}
        for off, (sz, kind) in a.fields.items():
            nm = '%s.%d' % (a.name, off)
            if callable(kind): ini[off] = kind(ex, cur, k)
            elif kind == 'i': ini[off] = IV(d.atom(nm, -(1 << (sz*8-1)), (1 << (sz*8-1))-1), sz*8)
            elif kind == 'u': ini[off] = IV(d.atom(nm, 0, (1 << (sz*8))-1), sz*8)
            elif kind == 'f': ini[off] = ex.fp.fresh(nm, 'double' if sz == 8 else 'float')
            elif isinstance(kind, tuple): ini[off] = IV(d.atom(nm, kind[0], kind[1]), sz*8)
            else: raise ExecError('field kind')
        for c, o in ack:
            for off in ini:
                x, y = (ini[off].x, o[off].x) if isinstance(ini[off], FPV) else (ini[off].p, o[off].p)
                cur.add(c_imp(c, d.rel('==', x - y)))
        a.ents.append((k, dict(ini), ini))
        if a.new_elem: a.new_elem(ex, cur, k, ini)
        out.append((cur, len(a.ents)-1))
        return out
    def alone(self, ex, st, k, j):
        """before the first modification of a known element: no other known element may be the same one. Where one is, it has the same
        content (congruence), and is forgotten"""
        out = []; work = [(st, 0)]
        while work:
            s, n = work.pop(); es = s.mem[self.rid].arr.ents
            while n < len(es) and ((es[n][0] - k).const() is not None or ex.d.rel('==', es[n][0] - k) is False): n += 1
            if n == len(es):
                out.append((s, next(x for x, e in enumerate(es) if (e[0] - k).const() == 0))); continue
            for same, s2 in ex.fork(s, ex.d.rel('==', es[n][0] - k)):
                if same: s2.region_w(self.rid).arr.ents.pop(n); work.append((s2, n))
                else: work.append((s2, n+1))
        return out
    def _rid(self, st): return self.rid
    def locate(self, ex, st, p, size, what, write):
        d = ex.d
        off = p.off if isinstance(p.off, IV) else IV(P(p.off), 64)
        k, c, rest = self.split(ex, IV(d.s(off), 64))
        if rest.const() != 0: ex.oblige(st, '%s: aligned access to %s' % (what, self.name), d.rel('==', rest))
        me = st.mem[self.rid].arr
        ex.oblige(st, '%s: index inside %s' % (what, self.name), c_and(d.ge(k, 0), d.lt(k, me.n)))
        return k, c
    def load(self, ex, st, p, t, size, what):
        if t.k in ('struct', 'array', 'vec'): raise ExecError('aggregate load from array')
        k, c = self.locate(ex, st, p, size, what, False)
        out = []
        for s, j in self.entry(ex, st, k, what):
            a = s.mem[self.rid].arr
            out.append((s, self.rd(ex, s, a.ents[j][1], c, t, size, what)))
        return out
    def rd(self, ex, st, v, c, t, size, what):
        if c in v and self.fields[c][0] == size: return ex.conv(st, v[c], t)
        # combine or split fields
        if t.k != 'int': raise ExecError('%s: field at %d of %s' % (what, c, self.name))
        for off, (sz, kind) in self.fields.items():
            if off <= c and c + size <= off + sz and off in v:
                x = v[off]
                if isinstance(x, (bool, Cond)): x = ex.d.b2i(x, sz*8)
                x = ex.unundef(x)
                if c > off: x = ex.d.lshr(x, ex.d.const((c-off)*8, x.w))
                return ex.d.trunc(x, size*8)
        acc = ex.d.const(0, t.bits); got = False
        for off, (sz, kind) in sorted(self.fields.items()):
            if off >= c and off + sz <= c + size:
                x = v[off]
                if isinstance(x, (bool, Cond)): x = ex.d.b2i(x, sz*8)
                x = ex.unundef(x); got = True
                acc = ex.d.add(acc, ex.d.shl(ex.d.zext(x, t.bits), ex.d.const((off-c)*8, t.bits)))
        if not got: return Undef(t)
        return acc
    def store(self, ex, st, p, t, size, v, what):
        if self.ro:
            ex.oblige(st, '%s: %s is not modified' % (what, self.name), False); return []
        k, c = self.locate(ex, st, p, size, what, True)
        out = []
        for s, j in self.entry(ex, st, k, what, True):
            a = s.region_w(self.rid).arr; a.writes += 1
            self.wr(ex, s, a.ents[j][1], c, t, size, v, what); out.append(s)
        return out
    def wr(self, ex, st, e, c, t, size, v, what):
        if c in self.fields and self.fields[c][0] == size: e[c] = v; return
        fs = [(off, sz) for off, (sz, kind) in sorted(self.fields.items()) if off >= c and off + sz <= c + size]
        if fs:
            for off, sz in fs:
                if isinstance(v, Undef): e[off] = Undef(ty_int(sz*8)); continue
                x = v
                if off > c: x = ex.d.lshr(x, ex.d.const((off-c)*8, x.w))
                e[off] = ex.d.trunc(x, sz*8)
            return
        # part of a field
        for off, (sz, kind) in self.fields.items():
            if off <= c and c + size <= off + sz:
                x = e[off]; d = ex.d
                if isinstance(x, Undef): x = ex.fresh(ty_int(sz*8))
                ux = d.u(x); lo = (c-off)*8; hi = lo + size*8
                top = d.fdiv(ux, 1 << hi); low = d.modu(ux, 1 << lo) if lo else P(0)
                vv = d.b2i(v, size*8) if isinstance(v, (bool, Cond)) else ex.unundef(v)
                e[off] = IV(top*(1 << hi) + d.u(vv)*(1 << lo) + low, sz*8); return
        raise ExecError('%s: bytes %d..%d of %s' % (what, c, c+size, self.name))
    def chunks(self, ex, n, p):
        """pieces of a memcpy of n bytes starting at p"""
        k, c, rest = self.split(ex, ex.offv(p.off))
        out = []; pos = 0
        while pos < n:
            o = (c + pos) % self.esize
            if o in self.fields:
                sz, kind = self.fields[o]
                if pos + sz <= n:
                    t = Ty_f(sz) if kind == 'f' else PTR if callable(kind) else ty_int(sz*8)
                    out.append((pos, t)); pos += sz; continue
            # padding
            nxt = min([x for x in list(self.fields) + [self.esize] if x > o]) - o
            inside = [f for f, (sz, _) in self.fields.items() if f < o < f+sz]
            if inside: raise ExecError('copy starts inside a field of %s' % self.name)
            pos += nxt
        return out
def Ty_f(sz): return DOUBLE if sz == 8 else FLOAT

def new_arr(ex, st, name, esize, fields, n, new_elem=None, ro=False):
    rid = ex.new_region(st, name, None)
    a = SymArr(name, esize, fields, P(n), new_elem, ro); a.rid = rid
    st.mem[rid].arr = a
    return rid
def elem(ex, st, rid, k):
    """-> [(state, {off: value})] element at index k (for specifications)"""
    a = st.mem[rid].arr
    return [(s, s.mem[rid].arr.ents[j][1]) for s, j in a.entry(ex, st, P(k), 'spec')]
