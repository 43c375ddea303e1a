"""Loop invariants. AutoCut: on the first arrival at a loop header the invariant is established, everything
the body can modify (found by a dry run of the body from the real code, to a fixpoint) is replaced by arbitrary values of its
type, the invariant is assumed, and on every back edge it must be re-established. What the body does not
modify keeps its value."""
import re
from exec import *

class Mods:
    """what a havoc replaced: lists of (key, old value, new value)"""
    def __init__(self): self.vals = []
    def ptrs(self, rid=None): return [(k, o, n) for k, o, n in self.vals if isinstance(n, (Ptr, PInt)) and (rid is None or getattr(n, 'r', None) == rid or (isinstance(n, PInt) and n.p.r == rid))]
    def ints(self): return [(k, o, n) for k, o, n in self.vals if isinstance(n, IV)]

class AutoCut:
    """fn: regex on the demangled name of the function that contains the loop, nth: index of the loop header in block order (None: all)
    inv: object with
      init(ex, st, fr)             ghosts on entry (may be absent)
      facts(ex, st, fr, m)         -> [(name, cond)] for the state at the header (m: Mods or None)
      havoc(ex, st, fr, m)         fresh ghosts
      step(ex, st, fr, m)          ghosts advanced before the facts are required on a back edge (may be absent)"""
    def __init__(self, fn, inv, nth=None):
        self.rx = re.compile(fn); self.inv = inv; self.nth = nth; self.hits = 0
    def match(self, ex, f, b, L):
        if not self.rx.search(f.dem): return False
        if self.nth is None: return True
        hs = [x for x in f.order if x in L]
        return self.nth < len(hs) and hs[self.nth] == b
    def call(self, nm, *a):
        f = getattr(self.inv, nm, None)
        return f(*a) if f else None
    def arrive(self, ex, st, fr, b, back):
        depth = len(st.frames); key = (b, depth)
        dry = ex.dry
        if dry and dry[-1][0] == key and back:
            dry[-1][1].append(st); return []
        if back and b in fr.cut:
            m = fr.cut[b]
            self.call('step', ex, st, fr, m)
            for n, c in self.inv.facts(ex, st, fr, m): ex.oblige(st, 'loop invariant of %s preserved: %s' % (short(fr.f.dem), n), c)
            return []
        if back: raise ExecError('loop of %s entered in the middle' % fr.f.dem)
        self.hits += 1
        self.call('init', ex, st, fr)
        for n, c in self.inv.facts(ex, st, fr, None): ex.oblige(st, 'loop invariant of %s established: %s' % (short(fr.f.dem), n), c)
        mods = set(); L = loops_of(fr.f)[b]
        for rnd in range(12):
            s = st.copy(); m = self.havoc(ex, s, b, mods); f2 = s.frames[-1]
            self.call('havoc', ex, s, f2, m)
            for n, c in self.inv.facts(ex, s, f2, m): s.add(c)
            f2.cut[b] = m
            start = s.copy()
            got = self.run_dry(ex, s, b, depth, L)
            new = set()
            for t in got: new |= self.diff(ex, start, t, b, depth)
            if new <= mods: break
            mods |= new
        else: raise ExecError('modified set of the loop in %s does not stabilise' % fr.f.dem)
        m = self.havoc(ex, st, b, mods); fr = st.frames[-1]
        self.call('havoc', ex, st, fr, m)
        for n, c in self.inv.facts(ex, st, fr, m): st.add(c)
        fr.cut[b] = m; fr.visits = {}
        return [st]
    def run_dry(self, ex, st, b, depth, L):
        coll = []
        ex.dry.append(((b, depth), coll, L)); ex.mute += 1
        try:
            work = [st]; n = 0
            while work:
                s = work.pop()
                try: out = ex.step_until(s, depth)
                except PathEnd: continue
                for x in out:
                    n += 1
                    if n > 4000: raise ExecError('dry run of a loop body too long')
                    if not x.done: work.append(x)
        finally:
            ex.dry.pop(); ex.mute -= 1
        return coll
    def diff(self, ex, s0, s1, b, depth):
        out = set(); f0, f1 = s0.frames[depth-1], s1.frames[depth-1]
        for i in f0.f.blocks[b]:
            if i.op != 'phi': break
            a, c = f0.env[i.dst], f1.env[i.dst]
            if isinstance(a, Ptr) and isinstance(c, Ptr) and a.r != c.r: raise ExecError('a pointer is moved to other storage in a loop of %s' % f0.f.dem)
            if not same(ex, a, c): out.add(('phi', i.dst))
        for rid, r1 in s1.mem.items():
            r0 = s0.mem.get(rid)
            if r0 is None or r0 is r1: continue
            if r1.freed and not r0.freed:
                out.add(('freed', rid)); continue
            if r1.arr is not None and r0.arr is not r1.arr:
                if r1.arr.changed(r0.arr): out.add(('arr', rid))
            for o in set(r0.cells) | set(r1.cells):
                c0, c1 = r0.cells.get(o), r1.cells.get(o)
                if c0 is None:
                    if r0.lazy is not None: continue      # read of initial content
                    out.add(('cell', rid, o, c1[0])); continue
                if c1 is None: out.add(('cell', rid, o, c0[0])); continue
                if isinstance(c0[1], Ptr) and isinstance(c1[1], Ptr) and c0[1].r != c1[1].r:
                    raise ExecError('a pointer is moved to other storage (%s) in a loop of %s' % (r1.name, f0.f.dem))
                if c0[0] != c1[0] or not same(ex, c0[1], c1[1]): out.add(('cell', rid, o, c1[0]))
        return out
    def havoc(self, ex, st, b, mods):
        m = Mods(); fr = st.frames[-1]
        for k in sorted(mods, key=repr):
            if k[0] == 'phi':
                i = next(i for i in fr.f.blocks[b] if i.dst == k[1]); o = fr.env[k[1]]
                n = anyval(ex, o, i.t); fr.env[k[1]] = n; m.vals.append((k, o, n))
            elif k[0] == 'cell':
                if k[1] not in st.mem: continue
                c = st.mem[k[1]].cells.get(k[2])
                if c is None or c[0] != k[3]: 
                    n = Undef(ty_int(8*k[3])) if c is None else anyval(ex, c[1], ty_int(8*k[3])); o = None
                else: o = c[1]; n = anyval(ex, o, ty_int(8*k[3]))
                ex.put(st, k[1], k[2], k[3], n); m.vals.append((k, o, n))
            elif k[0] == 'arr':
                r = st.region_w(k[1]); r.arr.havoc(ex, st)
            elif k[0] == 'freed':
                raise ExecError('storage of %s released in a loop' % st.mem[k[1]].name)
        return m

def short(n): return re.sub(r'\(.*', '', n)[-80:]
def same(ex, a, b):
    if a is b: return True
    if isinstance(a, IV) and isinstance(b, IV): return a.p == b.p and a.w == b.w
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r != b.r: return False
        x, y = ex.offc(a.off), ex.offc(b.off)
        if x is not None or y is not None: return x == y
        return a.off.p == b.off.p
    if isinstance(a, PInt) and isinstance(b, PInt): return same(ex, a.p, b.p)
    if isinstance(a, Cond) and isinstance(b, Cond): return a.z.eq(b.z)
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, FPV) and isinstance(b, FPV): return a.x == b.x
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(ex, x, y) for x, y in zip(a, b))
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.f == b.f
    return False
def anyval(ex, o, t):
    """an arbitrary value of the kind of o"""
    if isinstance(o, IV): return IV(ex.d.atom('h', -(1 << (o.w-1)), (1 << (o.w-1))-1), o.w) if o.w > 1 else ex.fresh(ty_int(1), 'h')
    if isinstance(o, BV): return ex.d.fresh('h', o.w)
    if isinstance(o, (bool, Cond)): return ex.fresh(ty_int(1), 'h')
    if isinstance(o, Ptr): return Ptr(o.r, IV(ex.d.atom('hp', -(1 << 62), (1 << 62)), 64))
    if isinstance(o, PInt): return PInt(anyval(ex, o.p, t))
    if isinstance(o, FPV): return ex.fp.fresh('h', o.k)
    if isinstance(o, list): return [anyval(ex, x, None) for x in o]
    if isinstance(o, Undef): return o
    raise ExecError('arbitrary value of %r' % (o,))
