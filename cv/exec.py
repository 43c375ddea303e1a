"""Symbolic execution of LLVM IR that generates the proof obligations.

One call of Exec.run explores every path of a function whose loops are either
of constant trip count (completely unrolled), ended by the solver's refutation
of the next iteration, or cut with an inductive invariant supplied by a LoopCut.
Calls that match a contract are replaced by it, all others are entered."""
import re, subprocess, time, sys, os
from ir import *
from ir import P as ir_P
from dom import *

DBG = os.environ.get('CV_OBL')
class ExecError(Exception):
    pass
class PathEnd(Exception):
    pass

class Undef:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t

class Ptr:
    __slots__ = ('r', 'off')
    def __init__(self, r, off): self.r = r; self.off = off     # r None: null + off
    def __repr__(self): return 'Ptr(%r,%r)' % (self.r, self.off)
class FnPtr:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p', 'w')
    def __init__(self, p): self.p = p; self.w = 64
class FPV:
    """floating point value: exact real z3 expression (see fp.py)"""
    __slots__ = ('z', 'at', 'k', 'x', 'rel')
    def __init__(self, z, at=frozenset(), k='double', x=None): self.z = z; self.at = at; self.k = k; self.x = x; self.rel = None

class Region:
    __slots__ = ('id', 'name', 'size', 'cells', 'lazy', 'own', 'arr', 'freed', 'const', 'tag')
    def __init__(self, id, name, size, lazy=None):
        self.id = id; self.name = name; self.size = size; self.cells = {}; self.lazy = lazy; self.own = None; self.arr = None
        self.freed = False; self.const = False; self.tag = None
    def clone(self):
        r = Region.__new__(Region)
        r.id = self.id; r.name = self.name; r.size = self.size; r.cells = dict(self.cells); r.lazy = self.lazy
        r.arr = self.arr.clone() if self.arr is not None else None
        r.freed = self.freed; r.own = None; r.const = self.const; r.tag = self.tag
        return r

class Frame:
    __slots__ = ('f', 'blk', 'idx', 'env', 'prev', 'ret', 'visits', 'cut', 'invoke', 'loc')
    def __init__(self, f): 
        self.f = f; self.blk = f.order[0]; self.idx = 0; self.env = {}; self.prev = None; self.ret = None; self.visits = {}; self.cut = {}
        self.invoke = None; self.loc = []
    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.blk = self.blk; n.idx = self.idx; n.env = dict(self.env); n.prev = self.prev; n.ret = self.ret
        n.visits = dict(self.visits); n.cut = dict(self.cut); n.invoke = self.invoke; n.loc = list(self.loc)
        return n

class State:
    __slots__ = ('frames', 'mem', 'facts', 'ghost', 'trace', 'done', 'rv')
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = []; self.ghost = {}; self.trace = []; self.done = False; self.rv = None
    def copy(self):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem); n.facts = list(self.facts); n.ghost = dict(self.ghost); n.trace = list(self.trace)
        n.done = self.done; n.rv = self.rv
        for r in n.mem.values(): r.own = None
        return n
    def region_w(self, rid):
        r = self.mem[rid]
        if r.own is not self:
            r = r.clone(); r.own = self; self.mem[rid] = r
        return r
    def add(self, c):
        if c is True: return
        self.facts.append(c)

class Obl:
    owner = None
    def __init__(self, name, status, backend, model, func, state=None, goal=None, secs=0):
        self.name = name; self.status = status; self.backend = backend; self.model = model; self.func = func; self.state = state; self.goal = goal; self.secs = secs

def loops_of(f):
    """header -> set of blocks (natural loops)"""
    if hasattr(f, '_loops'): return f._loops
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br': s = list(t.x)
        elif t.op == 'switch': s = [t.x[0]] + [c for _, c in t.x[1]]
        elif t.op == 'invoke': s = [t.x['to'], t.x['unwind']]
        else: s = []
        succ[b] = s
    pred = {b: [] for b in f.order}
    for b, ss in succ.items():
        for s in ss: pred[s].append(b)
    full = set(f.order); dom = {b: set(full) for b in f.order}; dom[f.order[0]] = {f.order[0]}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    L = {}
    for b, ss in succ.items():
        for h in ss:
            if h in dom[b]:
                body = L.setdefault(h, {h}); w = [b]
                while w:
                    x = w.pop()
                    if x in body: continue
                    body.add(x); w += pred[x]
    f._loops = L
    return L

class Exec:
    def __init__(self, mod, dom, contracts=(), cuts=(), max_visits=400, check_ub=False, max_paths=20000):
        self.m = mod; self.d = dom; self.contracts = list(contracts); self.cuts = list(cuts)
        self.obls = []; self.nreg = 0; self.max_visits = max_visits; self.check_ub = check_ub
        self.cur = '?'; self.globals = {}; self.used_contracts = set(); self.entered = set(); self.assume_used = set()
        self.max_paths = max_paths; self.fp = None; self.ite_select = True
        self.feas_timeout = 3000; self.prove_timeout = None; self.on_obl_fail = None
        self.deadline = None; self.cache_c = {}; self.dry = []; self.mute = 0
        if not getattr(mod, '_dem', False):
            names = list(mod.funcs)
            o = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            for n, d in zip(names, o): mod.funcs[n].dem = d
            import shutil
            rest = [n for n in names if mod.funcs[n].dem.startswith('_Z')]; lf = shutil.which('llvm-cxxfilt-18') or shutil.which('llvm-cxxfilt')
            if rest and lf:
                o = subprocess.run([lf], input='\n'.join(rest), capture_output=True, text=True).stdout.split('\n')
                for n, d in zip(rest, o): mod.funcs[n].dem = d
            mod._dem = True
    # ------------------------------------------------------------ regions
    def new_region(self, st, name, size, lazy=None):
        self.nreg += 1
        r = Region(self.nreg, name, size, lazy); r.own = st
        st.mem[r.id] = r
        return r.id
    def new_state(self): return State()
    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, c, timeout=None, assume=True):
        if self.mute:
            if assume: st.add(c)
            return c is not False
        if c is True:
            self.obls.append(Obl(name, 'proved', 'trivial', None, self.cur)); return True
        t = time.time()
        r, m, be = self.d.prove(st.facts, c, timeout or self.prove_timeout)
        o = Obl(name, r, be, m, self.cur, st.copy() if r != 'proved' else None, c, time.time()-t)
        self.obls.append(o)
        if DBG: sys.stderr.write('obl %.1fs %s %s %s %s\n' % (o.secs, r, be, self.cur, name))
        if r != 'proved' and self.on_obl_fail: self.on_obl_fail(self, o)
        if assume: st.add(c)
        if c is False: return False
        return r == 'proved'
    def oblige_all(self, st, items, timeout=None):
        """several obligations in one query; one by one when that does not succeed"""
        items = [(n, c() if callable(c) else c) for n, c in items]
        if self.mute or any(c is False for _, c in items):
            return [self.oblige(st, n, c, timeout) for n, c in items]
        todo = [(n, c) for n, c in items if c is not True]
        for n, c in items:
            if c is True: self.obls.append(Obl(n, 'proved', 'trivial', None, self.cur))
        if len(todo) > 1:
            t = time.time(); r, m, be = self.d.prove(st.facts, c_and(*[c for _, c in todo]), timeout=timeout or 20000, cvc5=False)
            if r == 'proved':
                for k, (n, c) in enumerate(todo):
                    self.obls.append(Obl(n, r, be, None, self.cur, None, c, (time.time()-t)/len(todo))); st.add(c)
                return
        for n, c in todo: self.oblige(st, n, c, timeout)
    def feasible(self, st, c):
        if c is True: return True
        if c is False: return False
        r, _ = self.d.sat(st.facts + [c], self.feas_timeout, True) if self.d.name == 'int' else self.d.sat(st.facts + [c], self.feas_timeout)
        return r != 'unsat'
    def fork(self, st, c):
        """-> [(bool, state)] for the feasible outcomes of c"""
        if c is True or c is False: return [(c, st)]
        nc = c_not(c)
        t = self.feasible(st, c)
        if not t:
            st.add(nc); return [(False, st)]
        if not self.feasible(st, nc):
            st.add(c); return [(True, st)]
        s2 = st.copy(); st.add(c); s2.add(nc)
        return [(True, st), (False, s2)]
    # ------------------------------------------------------------ values
    def fresh(self, t, name='v'):
        t = self.m.res(t)
        if t.k == 'int':
            if t.bits == 1: 
                return self.d.icmp('ne', self.d.fresh(name, 8) if False else self._bitfresh(name), self.d.const(0, 8))
            return self.d.fresh(name, t.bits)
        if t.k in ('double', 'float', 'x86_fp80'): return self.fp.fresh(name, t.k)
        if t.k == 'struct': return [self.fresh(f, name) for f in t.fields]
        if t.k == 'array': return [self.fresh(t.elem, name) for _ in range(t.n)]
        if t.k == 'ptr': return Undef(t)
        raise ExecError('fresh %r' % t)
    def _bitfresh(self, name):
        if self.d.name == 'int': return IV(self.d.atom(name, 0, 1), 8)
        v = self.d.fresh(name, 8); return self.d.and_(v, self.d.const(1, 8))
    def zero(self, t):
        t = self.m.res(t)
        if t.k == 'int': return False if t.bits == 1 else self.d.const(0, t.bits)
        if t.k == 'ptr': return Ptr(None, 0)
        if t.k in ('double', 'float'): return self.fp.const(0.0, t.k)
        if t.k == 'struct': return [self.zero(f) for f in t.fields]
        if t.k in ('array', 'vec'): return [self.zero(t.elem) for _ in range(t.n)]
        raise ExecError('zero %r' % t)
    def val(self, st, fr, v):
        k = v.k
        if k == 'local':
            return fr.env[v.v]
        if k == 'int':
            if v.t.k == 'int' and v.t.bits == 1: return bool(v.v & 1)
            return self.d.const(v.v, v.t.bits)
        if k == 'null': return Ptr(None, 0)
        if k == 'undef': 
            t = self.m.res(v.t)
            if t.k in ('struct', 'array'):
                return [Undef(f) for f in (t.fields if t.k == 'struct' else [t.elem]*t.n)]
            return Undef(v.t)
        if k == 'zero': return self.zero(v.t)
        if k == 'fp': return self.fp.const(v.v, v.t.k)
        if k == 'global': return self.gptr(st, v.v)
        if k == 'agg': return [self.val(st, fr, x) for x in v.v]
        if k == 'cexpr': return self.cexpr(st, fr, v)
        if k == 'str':
            b = self._bytes(v.v)
            return [self.d.const(x, 8) for x in b]
        raise ExecError('val %r' % v)
    def _bytes(self, s):
        s = s[2:-1] if s[0] == 'c' else s[1:-1]; out = []; i = 0
        while i < len(s):
            if s[i] == '\\': out.append(int(s[i+1:i+3], 16)); i += 3
            else: out.append(ord(s[i])); i += 1
        return out
    def cexpr(self, st, fr, v):
        op, bt, a, pred = v.v
        if op == 'getelementptr':
            return self.gep(st, fr, bt, self.val(st, fr, a[0]), a[1:])
        if op in ('bitcast', 'addrspacecast'): return self.val(st, fr, a[0])
        if op == 'ptrtoint': return PInt(self.val(st, fr, a[0]))
        if op == 'inttoptr': 
            x = self.val(st, fr, a[0]); return x.p if isinstance(x, PInt) else Ptr(None, self.d.concrete(x))
        raise ExecError('cexpr %s' % op)
    def gptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs and name not in self.m.globals: return FnPtr(name)
        if name not in self.globals:
            t, init, const = self.m.globals[name]
            try: sz = self.m.size(t)
            except IRError: sz = None
            self.nreg += 1
            self.globals[name] = (self.nreg, t, init, const, sz)
        rid, t, init, const, sz = self.globals[name]
        if rid not in st.mem:
            r = Region(rid, '@'+name, sz); r.own = st; r.const = const; st.mem[rid] = r
            if init is not None and (const or True):
                fr = Frame.__new__(Frame)
                try: self.store_val(st, Ptr(rid, 0), t, self.val(st, None, init), raw=True)
                except (ExecError, KeyError, AttributeError): pass
        return Ptr(rid, 0)
    def unundef(self, x, name='undef'):
        return self.fresh(x.t, name) if isinstance(x, Undef) else x
    # ------------------------------------------------------------ memory
    def offc(self, off):
        """concrete offset or None"""
        if isinstance(off, int): return off
        c = self.d.concrete(off)
        if c is None: return None
        return c - (1 << 64) if c >= (1 << 63) else c
    def offv(self, off):
        return self.d.const(off, 64) if isinstance(off, int) else off
    def ptr_add(self, p, off):
        a, b = self.offc(p.off), self.offc(off)
        if a is not None and b is not None: return Ptr(p.r, a+b)
        return Ptr(p.r, self.d.add(self.offv(p.off), self.offv(off)))
    def gep(self, st, fr, bt, base, idx):
        if isinstance(base, PInt): base = base.p
        if isinstance(base, FnPtr): return base
        if isinstance(base, Undef): return base
        t = bt; p = base; first = True
        for iv in idx:
            x = self.val(st, fr, iv)
            if isinstance(x, Undef): x = self.unundef(x)
            if first: sz = self.m.size(t); first = False
            else:
                rt = self.m.res(t)
                if rt.k == 'struct':
                    i = self.d.concrete(x); off, _ = self.m.struct_layout(rt)
                    p = self.ptr_add(p, off[i]); t = rt.fields[i]; continue
                t = rt.elem; sz = self.m.size(t)
            if isinstance(x, (bool, Cond)): x = self.d.b2i(x, 8)
            c = self.d.concrete(x)
            if c is not None:
                if c >= 1 << (x.w-1): c -= 1 << x.w
                p = self.ptr_add(p, c*sz)
            else:
                if x.w < 64: x = self.d.sext(x, 64)
                p = self.ptr_add(p, self.d.mul(x, self.d.const(sz, 64)))
        return p
    def resolve(self, st, p, size, what):
        """-> [(state, region id, concrete offset)], forking on a symbolic offset"""
        if isinstance(p, PInt): p = p.p
        if isinstance(p, Undef) or isinstance(p, FnPtr): raise ExecError('%s through %r in %s' % (what, p, self.cur))
        if p.r is None:
            self.oblige(st, '%s: no null dereference' % what, False); raise PathEnd()
        reg = st.mem[p.r]
        if reg.freed:
            self.oblige(st, '%s: no access to released storage (%s)' % (what, reg.name), False); raise PathEnd()
        c = self.offc(p.off)
        if c is not None:
            if c < 0 or (reg.size is not None and c + size > reg.size):
                self.oblige(st, '%s: access inside %s' % (what, reg.name), False); raise PathEnd()
            return [(st, p.r, c)]
        if reg.size is None: raise ExecError('symbolic offset in unsized region %s (%s)' % (reg.name, what))
        # bounds obligation then enumeration
        o = p.off
        inb = c_and(self.d.icmp('sge', o, self.d.const(0, 64)), self.d.icmp('sle', o, self.d.const(reg.size - size, 64)))
        self.oblige(st, '%s: access inside %s' % (what, reg.name), inb)
        out = []
        for k in range(0, reg.size - size + 1):
            c = self.d.icmp('eq', o, self.d.const(k, 64))
            if c is False: continue
            if self.feasible(st, c):
                s = st.copy(); s.add(c); out.append((s, p.r, k))
        return out
    def load(self, st, p, t, what='load'):
        """-> [(state, value)]"""
        t = self.m.res(t); size = self.m.size(t)
        if isinstance(p, PInt): p = p.p
        if isinstance(p, Ptr) and p.r is not None and st.mem[p.r].arr is not None:
            return st.mem[p.r].arr.load(self, st, p, t, size, what)
        return [(s, self.load_at(s, r, o, t)) for s, r, o in self.resolve(st, p, size, what)]
    def load_at(self, st, rid, off, t):
        t = self.m.res(t)
        if t.k == 'struct':
            lo, _ = self.m.struct_layout(t)
            return [self.load_at(st, rid, off+o, f) for o, f in zip(lo, t.fields)]
        if t.k in ('array', 'vec'):
            es = self.m.size(t.elem)
            return [self.load_at(st, rid, off+i*es, t.elem) for i in range(t.n)]
        size = self.m.size(t); reg = st.mem[rid]
        c = reg.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(st, c[1], t)
        # overlapping cells
        ov = [(o, s, v) for o, (s, v) in reg.cells.items() if o < off+size and off < o+s]
        if not ov:
            if reg.lazy is not None:
                v = reg.lazy(self, st, rid, off, t)
                r = st.region_w(rid); r.cells[off] = (size, v)
                return v
            return Undef(t)
        if t.k != 'int':
            # e.g. a double or pointer stored as integer bytes
            raise ExecError('load %r of mixed cells %r at %s+%d in %s' % (t, ov, reg.name, off, self.cur))
        acc = self.d.const(0, t.bits); pos = off
        for o, s, v in sorted(ov, key=lambda x: x[0]):
            if o > pos: # gap: undefined bytes
                pass
            if isinstance(v, Undef): v = self.d.fresh('undef', s*8)
            if isinstance(v, (bool, Cond)): v = self.d.b2i(v, s*8)
            if not hasattr(v, 'w') or isinstance(v, PInt): raise ExecError('partial load of non-integer in %s' % self.cur)
            lo = max(o, off); hi = min(o+s, off+size)
            x = v
            if lo > o: x = self.d.lshr(x, self.d.const((lo-o)*8, x.w))
            if (hi-lo)*8 != x.w: x = self.d.trunc(x, (hi-lo)*8)
            if x.w < t.bits: x = self.d.zext(x, t.bits)
            elif x.w > t.bits: x = self.d.trunc(x, t.bits)
            if lo > off: x = self.d.shl(x, self.d.const((lo-off)*8, t.bits))
            acc = self.d.or_(acc, x) if self.d.name == 'bv' else self.d.add(acc, x)
            pos = hi
        return acc
    def conv(self, st, v, t):
        if isinstance(v, Undef): return v if v.t.k == t.k and getattr(v.t, 'bits', None) == getattr(t, 'bits', None) else Undef(t)
        if t.k == 'int':
            if t.bits == 1:
                if isinstance(v, (bool, Cond)): return v
                return self.d.i2b(v)
            if isinstance(v, (bool, Cond)): return self.d.b2i(v, t.bits)
            if isinstance(v, Ptr): return PInt(v)
            if isinstance(v, FPV): return self.fp.bits(self, st, v, t.bits)
            return v if v.w == t.bits else self.d.trunc(v, t.bits)
        if t.k == 'ptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, (IV, BV)):
                c = self.d.concrete(v)
                if c is not None: return Ptr(None, c)
                raise ExecError('load pointer from integer')
            return v
        if t.k in ('double', 'float'):
            if isinstance(v, FPV): return v
            return self.fp.frombits(self, st, v, t.k)
        raise ExecError('conv to %r' % t)
    def store_at(self, st, rid, off, t, v):
        t = self.m.res(t)
        if t.k == 'struct':
            lo, _ = self.m.struct_layout(t)
            for o, f, x in zip(lo, t.fields, v): self.store_at(st, rid, off+o, f, x)
            return
        if t.k in ('array', 'vec'):
            es = self.m.size(t.elem)
            for i in range(t.n): self.store_at(st, rid, off+i*es, t.elem, v[i])
            return
        size = self.m.size(t)
        self.put(st, rid, off, size, v)
    def put(self, st, rid, off, size, v):
        reg = st.region_w(rid)
        c = reg.cells.get(off)
        if c is None or c[0] != size:
            self.clear(st, reg, off, size)
        reg.cells[off] = (size, v)
    def clear(self, st, reg, off, size):
        for o in [o for o, (s, _) in reg.cells.items() if o < off+size and off < o+s]:
            s, v = reg.cells.pop(o)
            if o < off: 
                reg.cells[o] = (off-o, self._part(v, s, 0, off-o))
            if o+s > off+size:
                reg.cells[off+size] = (o+s-off-size, self._part(v, s, off+size-o, o+s-off-size))
    def _part(self, v, s, lo, n):
        if isinstance(v, Undef): return Undef(ty_int(n*8))
        if isinstance(v, (bool, Cond)): v = self.d.b2i(v, s*8)
        if not isinstance(v, (IV, BV)): return Undef(ty_int(n*8))
        if lo: v = self.d.lshr(v, self.d.const(lo*8, v.w))
        return self.d.trunc(v, n*8) if v.w != n*8 else v
    def store_val(self, st, p, t, v, what='store', raw=False):
        size = self.m.size(t)
        if isinstance(p, PInt): p = p.p
        if isinstance(p, Ptr) and p.r is not None and st.mem[p.r].arr is not None:
            return st.mem[p.r].arr.store(self, st, p, self.m.res(t), size, v, what)
        out = []
        for s, r, o in ([(st, p.r, p.off)] if raw else self.resolve(st, p, size, what)):
            if s.mem[r].const and not raw:
                self.oblige(s, '%s: does not write constant %s' % (what, s.mem[r].name), False); continue
            self.store_at(s, r, o, t, v); out.append(s)
        return out
    def memcpy(self, st, dst, src, n):
        if n == 0: return [st]
        if isinstance(dst, PInt): dst = dst.p
        if isinstance(src, PInt): src = src.p
        if st.mem[dst.r].arr is not None or st.mem[src.r].arr is not None if (dst.r is not None and src.r is not None) else False:
            return self._memcpy_arr(st, dst, src, n)
        out = []
        for s, dr, do in self.resolve(st, dst, n, 'memcpy destination'):
            for s2, sr, so in self.resolve(s, src, n, 'memcpy source'):
                reg = s2.mem[sr]
                cells = [(o, sz, v) for o, (sz, v) in reg.cells.items() if o < so+n and so < o+sz]
                new = []; covered = []
                for o, sz, v in cells:
                    lo = max(o, so); hi = min(o+sz, so+n)
                    if lo != o or hi != o+sz: v = self._part(v, sz, lo-o, hi-lo)
                    new.append((lo-so, hi-lo, v)); covered.append((lo-so, hi-so))
                if reg.lazy is not None:
                    pos = 0; gaps = []
                    for a, b in sorted(covered):
                        if a > pos: gaps.append((pos, a))
                        pos = max(pos, b)
                    if pos < n: gaps.append((pos, n))
                    for a, b in gaps:
                        q = a
                        while q < b:
                            k = 8 if (so+q) % 8 == 0 and b-q >= 8 else 4 if (so+q) % 4 == 0 and b-q >= 4 else 1
                            v = self.load_at(s2, sr, so+q, ty_int(k*8)); new.append((q, k, v)); q += k
                wr = s2.region_w(dr)
                self.clear(s2, wr, do, n)
                for o, sz, v in new: wr.cells[do+o] = (sz, v)
                out.append(s2)
        return out
    def _memcpy_arr(self, st, dst, src, n):
        # element-wise copy through the declared fields of the array side
        A = st.mem[dst.r].arr or st.mem[src.r].arr
        states = [st]
        for off, t in A.chunks(self, n, dst if st.mem[dst.r].arr is not None else src):
            nxt = []
            for s in states:
                for s2, v in self.load(s, self.ptr_add(src, off), t, 'memcpy'):
                    r = self.store_val(s2, self.ptr_add(dst, off), t, v, 'memcpy')
                    nxt += r
            states = nxt
        return states
    # ------------------------------------------------------------ running
    def run(self, fname, args, st, final=None):
        """explore; returns final states (with .rv) or calls final(state) on each"""
        f = self.m.funcs[fname]
        fr = Frame(f)
        for (pn, pt, at), a in zip(f.params, args): fr.env[pn] = a
        st.frames.append(fr); depth0 = len(st.frames)
        self.enter_block(st, f.order[0], None)
        work = [st]; res = []; n = 0
        while work:
            s = work.pop()
            try:
                out = self.step_until(s, depth0)
            except PathEnd:
                continue
            for x in out:
                if x.done:
                    n += 1
                    if n > self.max_paths: raise ExecError('too many paths in %s' % fname)
                    x.done = False
                    if final: final(x)
                    else: res.append(x)
                else: work.append(x)
        self.npaths = n
        return res
    def enter_block(self, st, b, prev):
        """evaluates phis; -> list of states (a cut loop may end the path)"""
        fr = st.frames[-1]
        fr.visits[b] = fr.visits.get(b, 0) + 1
        if fr.visits[b] > self.max_visits: raise ExecError('loop without invariant at %s in %s' % (b, fr.f.dem))
        if self.dry and len(st.frames) == self.dry[-1][0][1] and b not in self.dry[-1][2]: return []
        ins = fr.f.blocks[b]; new = {}; i = 0
        while i < len(ins) and ins[i].op == 'phi':
            p = ins[i]; k = p.x.index(prev)
            new[p.dst] = self.val(st, fr, p.a[k]); i += 1
        fr.env.update(new)
        fr.prev = prev; fr.blk = b; fr.idx = i
        if self.cuts:
            L = loops_of(fr.f)
            if b in L:
                c = None
                for cut in self.cuts:
                    if cut.match(self, fr.f, b, L): c = cut; break
                if c is not None:
                    back = prev in L[b]
                    if hasattr(c, 'arrive'): return c.arrive(self, st, fr, b, back)
                    if back and b in fr.cut:
                        c.check(self, st, fr, b, 'preserved', fr.cut[b])
                        raise PathEnd()
                    elif not back:
                        ctx = c.begin(self, st, fr, b)
                        c.check(self, st, fr, b, 'established', ctx)
                        return c.havoc(self, st, fr, b, ctx) 
        return [st]
    def step_until(self, st, depth0):
        while True:
            if self.deadline and time.time() > self.deadline: raise ExecError('time budget exceeded')
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.idx]
            r = self.step(st, fr, ins)
            if r is None: 
                continue
            out = []
            if len(r) == 1 and r[0] is st and not st.done: continue
            # returned from the outermost frame?
            for s in r:
                if len(s.frames) < depth0: s.done = True
            return r
    def goto(self, st, b):
        fr = st.frames[-1]
        return self.enter_block(st, b, fr.blk)
    def branch(self, st, outs):
        res = []
        for s, b in outs:
            try: res += self.goto(s, b)
            except PathEnd: pass
        return res
    def step(self, st, fr, ins):
        op = ins.op; d = self.d; env = fr.env
        if op in BIN:
            if op[0] == 'f':
                a, b = (self.unundef(self.val(st, fr, x)) for x in ins.a)
                env[ins.dst] = self.fp.bin(self, st, op, a, b, ins.t.k); fr.idx += 1; return None
            r = self.binop(st, fr, ins)
            if isinstance(r, list): return r
            env[ins.dst] = r; fr.idx += 1; return None
        if op == 'icmp':
            a, b = self.val(st, fr, ins.a[0]), self.val(st, fr, ins.a[1])
            env[ins.dst] = self.icmp(st, ins.x, a, b, ins.t); fr.idx += 1; return None
        if op == 'fcmp':
            a, b = (self.unundef(self.val(st, fr, x)) for x in ins.a)
            env[ins.dst] = self.fp.cmp(self, st, ins.x, a, b); fr.idx += 1; return None
        if op == 'fneg':
            env[ins.dst] = self.fp.neg(self.unundef(self.val(st, fr, ins.a[0]))); fr.idx += 1; return None
        if op in CAST:
            r = self.cast(st, fr, ins)
            if isinstance(r, list) and r and isinstance(r[0], State): return r
            env[ins.dst] = r; fr.idx += 1; return None
        if op == 'getelementptr':
            b = self.val(st, fr, ins.a[0])
            env[ins.dst] = self.gep(st, fr, ins.x, b, ins.a[1:]); fr.idx += 1; return None
        if op == 'load':
            p = self.val(st, fr, ins.a[0])
            rs = self.load(st, p, ins.t, 'load in ' + fr.f.dem)
            out = []
            for s, v in rs:
                f2 = s.frames[-1]; f2.env[ins.dst] = v; f2.idx += 1; out.append(s)
            if len(out) == 1 and out[0] is st: return None
            return out
        if op == 'store':
            v = self.val(st, fr, ins.a[0]); p = self.val(st, fr, ins.a[1])
            rs = self.store_val(st, p, ins.a[0].t, v, 'store in ' + fr.f.dem)
            for s in rs: s.frames[-1].idx += 1
            if len(rs) == 1 and rs[0] is st: return None
            return rs
        if op == 'alloca':
            t, n = ins.x; k = 1
            if n is not None:
                k = d.concrete(self.val(st, fr, n))
            rid = self.new_region(st, '%s.%s' % (fr.f.dem[:40], ins.dst), self.m.size(t)*k)
            fr.loc.append(rid); st.mem[rid].tag = getattr(t, 'name', None) or ''
            env[ins.dst] = Ptr(rid, 0); fr.idx += 1; return None
        if op == 'br':
            if not ins.a: return self.goto(st, ins.x[0])
            c = self.unundef(self.val(st, fr, ins.a[0]))
            r = self.fork(st, c)
            return self.branch(st, [(s, ins.x[0] if b else ins.x[1]) for b, s in r])
        if op == 'switch':
            x = self.unundef(self.val(st, fr, ins.a[0]))
            if isinstance(x, (bool, Cond)): x = d.b2i(x, ins.a[0].t.bits)
            outs = []; cur = st
            for cv, b in ins.x[1]:
                c = d.icmp('eq', x, d.const(cv, x.w))
                r = self.fork(cur, c); nxt = None
                for bb, s in r:
                    if bb: outs.append((s, b))
                    else: nxt = s
                cur = nxt
                if cur is None: break
            if cur is not None: outs.append((cur, ins.x[0]))
            return self.branch(st, outs)
        if op == 'ret':
            v = self.val(st, fr, ins.a[0]) if ins.a else None
            return self.do_ret(st, v)
        if op == 'select':
            c = self.unundef(self.val(st, fr, ins.a[0])); a = self.val(st, fr, ins.a[1]); b = self.val(st, fr, ins.a[2])
            if c is True or c is False: env[ins.dst] = a if c else b; fr.idx += 1; return None
            if isinstance(a, Undef) and isinstance(b, Undef): env[ins.dst] = a; fr.idx += 1; return None
            a2, b2 = self.unundef(a) if not (isinstance(a, Undef) and a.t.k == 'ptr') else a, self.unundef(b) if not (isinstance(b, Undef) and b.t.k == 'ptr') else b
            if st.facts and not isinstance(a2, (bool, Cond)):
                if not self.feasible(st, c): env[ins.dst] = b2; fr.idx += 1; return None
                if not self.feasible(st, c_not(c)): env[ins.dst] = a2; fr.idx += 1; return None
            if isinstance(a2, (bool, Cond)):
                env[ins.dst] = c_ite(c, a2, b2); fr.idx += 1; return None
            if self.ite_select and isinstance(a2, (IV, BV)) and isinstance(b2, (IV, BV)):
                env[ins.dst] = d.ite(c, a2, b2); fr.idx += 1; return None
            if isinstance(a2, Ptr) and isinstance(b2, Ptr) and a2.r == b2.r and self.offc(a2.off) == self.offc(b2.off) and self.offc(a2.off) is not None:
                env[ins.dst] = a2; fr.idx += 1; return None
            out = []
            for bb, s in self.fork(st, c):
                f2 = s.frames[-1]; f2.env[ins.dst] = a2 if bb else b2; f2.idx += 1; out.append(s)
            return out
        if op == 'call' or op == 'invoke': return self.call(st, fr, ins)
        if op == 'extractvalue':
            v = self.val(st, fr, ins.a[0])
            for i in ins.x:
                if isinstance(v, Undef):
                    t = self.m.res(v.t); v = Undef(t.fields[i] if t.k == 'struct' else t.elem)
                else: v = v[i]
            env[ins.dst] = v; fr.idx += 1; return None
        if op == 'insertvalue':
            v = self.val(st, fr, ins.a[0]); x = self.val(st, fr, ins.a[1])
            env[ins.dst] = self._ins(v, x, ins.x, ins.t); fr.idx += 1; return None
        if op == 'freeze':
            env[ins.dst] = self.unundef(self.val(st, fr, ins.a[0])); fr.idx += 1; return None
        if op == 'unreachable':
            self.oblige(st, 'unreachable code in %s is not reached' % fr.f.dem, False)
            raise PathEnd()
        if op in ('resume', 'landingpad'): raise PathEnd()
        raise ExecError('instruction %s in %s' % (op, fr.f.dem))
    def _ins(self, v, x, idx, t):
        t = self.m.res(t)
        if isinstance(v, Undef):
            n = len(t.fields) if t.k == 'struct' else t.n
            v = [Undef(t.fields[i] if t.k == 'struct' else t.elem) for i in range(n)]
        v = list(v)
        if len(idx) == 1: v[idx[0]] = x
        else: v[idx[0]] = self._ins(v[idx[0]], x, idx[1:], t.fields[idx[0]] if t.k == 'struct' else t.elem)
        return v
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for rid in fr.loc:
            if rid in st.mem:
                r = st.region_w(rid); r.freed = True
        if not st.frames:
            st.rv = v; st.done = True; return [st]
        c = st.frames[-1]
        if fr.ret is None and not fr.invoke and not getattr(fr, 'invoke', None):
            pass
        if fr.ret is not None: c.env[fr.ret] = v
        st.rv = v
        if fr.invoke: return self.goto(st, fr.invoke)
        c.idx += 1
        return [st]
    def binop(self, st, fr, ins):
        op = ins.op; d = self.d
        a, b = self.val(st, fr, ins.a[0]), self.val(st, fr, ins.a[1])
        t = ins.t
        if isinstance(a, Undef): a = self.unundef(a)
        if isinstance(b, Undef): b = self.unundef(b)
        if t.k == 'int' and t.bits == 1:
            if op in ('xor', 'add', 'sub'): return c_xor(a, b)
            if op in ('and', 'mul'): return c_and(a, b)
            if op == 'or':
                if d.name == 'int' and isinstance(a, Cond) and isinstance(b, Cond) and getattr(a, 'ov', 0) and getattr(b, 'ov', 0): return d.bor(a, b)
                return c_or(a, b)
            raise ExecError('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.r != b.p.r: raise ExecError('difference of unrelated pointers in %s' % fr.f.dem)
                x, y = self.offc(a.p.off), self.offc(b.p.off)
                if x is not None and y is not None: return d.const(x-y, 64)
                return d.sub(self.offv(a.p.off), self.offv(b.p.off))
            if op == 'add':
                if isinstance(b, PInt): a, b = b, a
                return PInt(self.ptr_add(a.p, b))
            if op == 'sub' and isinstance(a, PInt):
                return PInt(self.ptr_add(a.p, d.sub(d.const(0, 64), b)))
            if op == 'and':
                # alignment masks: pointers to regions are 16-aligned at offset 0
                if isinstance(b, PInt): a, b = b, a
                k = d.concrete(b); o = self.offc(a.p.off)
                if k is not None and k < 16 and o is not None: return d.const(o & k, 64)
            raise ExecError('pointer arithmetic %s in %s' % (op, fr.f.dem))
        if not isinstance(a, (IV, BV)): raise ExecError('%s on %r in %s' % (op, a, fr.f.dem))
        nsw = 'nsw' in ins.flags
        if op in ('add', 'sub', 'mul'):
            r = getattr(d, op)(a, b)
            if nsw and d.name == 'int':
                # mathematical result of the signed interpretation
                if self.ub_on(fr):
                    x, y = d.s(a), d.s(b)
                    m = x + y if op == 'add' else x - y if op == 'sub' else x * y
                    H = 1 << (t.bits-1); lo, hi = d.bounds(m)
                    if not (lo >= -H and hi < H):
                        self.oblige(st, 'no signed overflow in %s' % fr.f.dem, c_and(d.ge(m, -H), d.lt(m, H)))
                        # from here on the value is the exact one
                    return IV(m, t.bits) if d.bounds(m)[0] >= -H and d.bounds(m)[1] < H else self.tight(m, t.bits)
            return self.narrow(st, r, t.bits) if d.name == 'int' else r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            z = d.icmp('ne', b, d.const(0, b.w))
            if z is not True: self.oblige(st, 'divisor is not zero in %s' % fr.f.dem, z)
            if op[0] == 's':
                ov = c_not(c_and(d.icmp('eq', a, d.const(1 << (a.w-1), a.w)), d.icmp('eq', b, d.const(-1, b.w))))
                if ov is not True: self.oblige(st, 'quotient representable in %s' % fr.f.dem, ov)
            return getattr(d, op)(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            k = d.concrete(b)
            if k is None:
                self.oblige(st, 'shift amount below width in %s' % fr.f.dem, d.icmp('ult', b, d.const(b.w, b.w)))
                if d.name == 'int':
                    # split on the amount
                    out = []
                    for n in range(t.bits):
                        c = d.icmp('eq', b, d.const(n, b.w))
                        if c is False or not self.feasible(st, c): continue
                        s = st.copy(); s.add(c); f2 = s.frames[-1]
                        f2.env[ins.dst] = getattr(d, op)(a, d.const(n, b.w)); f2.idx += 1; out.append(s)
                    return out
            elif k >= t.bits:
                self.oblige(st, 'shift amount below width in %s' % fr.f.dem, False); return d.fresh('poison', t.bits)
            return getattr(d, op)(a, b)
        if op == 'and': return d.and_(a, b)
        if op == 'or': return d.or_(a, b)
        if op == 'xor': return d.xor(a, b)
        raise ExecError(op)
    def ub_on(self, fr):
        u = self.check_ub
        return u(fr.f) if callable(u) else u
    def tight(self, m, w):
        """IV for a polynomial proved to be in the signed range of w: keeps the exact polynomial"""
        d = self.d; H = 1 << (w-1)
        d.fd.setdefault((m + H, 2*H), None)
        # record the proved range through an alias atom
        a = d.atom('x', -H, H-1, 'alias'); A = d.at(a)
        A.defs.append(Cond(A.z == d.z(m), d.zat(m) | {A.id})); A.aux = m
        if d.fd.get((m + H, 2*H)) is None: d.fd.pop((m+H, 2*H), None)
        return IV(a, w)
    def icmp(self, st, pred, a, b, t):
        d = self.d
        ptrish = (Ptr, PInt, FnPtr)
        if isinstance(a, ptrish) or isinstance(b, ptrish):
            if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh(ty_int(1))
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isinstance(a, (IV, BV)): a = Ptr(None, a)
            if isinstance(b, (IV, BV)): b = Ptr(None, b)
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.f == b.f
                return e if pred == 'eq' else not e
            if a.r != b.r:
                if pred == 'eq': return False
                if pred == 'ne': return True
                if a.r is None or b.r is None:
                    return (a.r is None) == (pred in ('ult', 'ule', 'slt', 'sle'))
                raise ExecError('ordering of unrelated pointers in %s' % self.cur)
            x, y = self.offc(a.off), self.offc(b.off)
            if x is not None and y is not None:
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[pred]
            p2 = pred if pred in ('eq', 'ne') else 's' + pred[1:]
            return d.icmp(p2, self.offv(a.off), self.offv(b.off))
        if isinstance(a, Undef): a = self.unundef(a)
        if isinstance(b, Undef): b = self.unundef(b)
        if isinstance(a, (bool, Cond)):
            if not isinstance(b, (bool, Cond)): raise ExecError('icmp i1')
            if pred == 'eq': return c_iff(a, b)
            if pred == 'ne': return c_xor(a, b)
            if pred == 'ult': return c_and(c_not(a), b)
            if pred == 'ugt': return c_and(a, c_not(b))
            if pred == 'ule': return c_or(c_not(a), b)
            if pred == 'uge': return c_or(a, c_not(b))
            if pred == 'slt': return c_and(a, c_not(b))
            if pred == 'sgt': return c_and(c_not(a), b)
            raise ExecError('icmp i1 ' + pred)
        return d.icmp(pred, a, b)
    def cast(self, st, fr, ins):
        op = ins.op; d = self.d; t = ins.t; x = self.val(st, fr, ins.a[0])
        if isinstance(x, Undef):
            if op in ('bitcast',) and t.k == x.t.k: return Undef(t)
            if op == 'trunc': return Undef(t)
            x = self.unundef(x)
        if op in ('zext', 'sext'):
            if isinstance(x, (bool, Cond)):
                v = d.b2i(x, t.bits)
                return v if op == 'zext' else d.sub(d.const(0, t.bits), v)
            if isinstance(x, PInt): raise ExecError('ext of pointer')
            return getattr(d, op)(x, t.bits)
        if op == 'trunc':
            if isinstance(x, PInt): raise ExecError('trunc of pointer')
            if t.bits == 1: return d.i2b(x)
            return d.trunc(self.narrow(st, x, t.bits), t.bits)
        if op in ('bitcast', 'addrspacecast'):
            return self.conv(st, x, t)
        if op == 'ptrtoint': return PInt(x) if not isinstance(x, FnPtr) else x
        if op == 'inttoptr':
            if isinstance(x, PInt): return x.p
            return Ptr(None, d.concrete(x))
        if op in ('sitofp', 'uitofp'):
            if isinstance(x, (bool, Cond)): x = d.b2i(x, 8); op = 'uitofp'
            return self.fp.from_int(self, st, x, op == 'sitofp', t.k)
        if op in ('fptosi', 'fptoui'):
            return self.fp.to_int(self, st, x, op == 'fptosi', t.bits)
        if op in ('fpext', 'fptrunc'):
            return self.fp.resize(self, st, x, t.k)
        raise ExecError(op)
    def narrow(self, st, x, bits):
        """a value computed from floating point that the path's facts keep within the signed range of a narrower type is renamed to an atom with that range"""
        d = self.d
        if d.name != 'int' or self.mute: return x
        lo, hi = d.bounds(x.p); L, H = -(1 << (bits-1)), (1 << (bits-1))-1
        if lo >= L and hi <= H: return x
        if not any(d.A[a].name.split('!')[0] in ('floor', 'ceil', 'trunc', 'round', 'narrow') for a in x.p.atoms()): return x
        c = c_and(d.ge(x.p, L), d.le(x.p, H)); key = x.p
        r = st.ghost.get(('narrow', key, bits))
        if r is None:
            r, m = d.sat(st.facts + [c_not(c)], 20000)
            if r != 'unsat': return x
            r = d.atom('narrow', L, H); st.add(c); st.add(d.rel('==', r - x.p)); st.ghost[('narrow', key, bits)] = r
            dens = set()
            for a in x.p.atoms(): dens |= set(d.dens.get(a, ()))
            for q in dens: st.add(d.rel('==', (r - x.p)*q))
            d.dens[d.at(r).id] = dens
        return IV(r, x.w)
    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        cv = ins.x['callee']
        if cv.k == 'asm': return self.asm(st, fr, ins, cv)
        if cv.k == 'local':
            v = fr.env[cv.v]
            if not isinstance(v, FnPtr): raise ExecError('indirect call in %s' % fr.f.dem)
            name = v.f
        else: name = cv.v
        name = self.m.aliases.get(name, name)
        if name.startswith('llvm.'): return self.intrinsic(st, fr, ins, name)
        args = [self.val(st, fr, a) for a in ins.a]
        f = self.m.funcs.get(name)
        if f is None: raise ExecError('unknown function %s' % name)
        for rx, h in self.contracts:
            if rx.search(f.dem):
                r = h(self, st, f, args, ins)
                if r is not None:
                    self.used_contracts.add(rx.pattern)
                    return self.finish(st, ins, r)
        h = STD.get(f.dem.split('(')[0]) or STD.get(name)
        if h:
            r = h(self, st, f, args, ins)
            if r is not None: return self.finish(st, ins, r)
        if f.decl and self.fp is not None:
            r = self.fp.fn(self, st, f.name.lstrip('_'), args, self.m.res(f.ret).k)
            if r is not None:
                return self.finish(st, ins, [(st, r)])
        if f.decl: raise ExecError('call of external function %s from %s' % (f.dem, fr.f.dem))
        if len(st.frames) > 200: raise ExecError('recursion too deep in %s' % f.dem)
        nf = Frame(f)
        for i, ((pn, pt, at), a) in enumerate(zip(f.params, args)):
            if 'byval' in ins.x['attrs'][i]:
                bt = ir_P(self.m, ins.x['attrs'][i]['byval']).type()
                sz = self.m.size(bt); rid = self.new_region(st, 'byval', sz)
                self.memcpy(st, Ptr(rid, 0), a, sz); a = Ptr(rid, 0); nf.loc.append(rid)
            nf.env[pn] = a
        nf.ret = ins.dst
        if ins.op == 'invoke': nf.invoke = ins.x['to']
        self.entered.add(f.dem)
        st.frames.append(nf)
        return self.enter_block(st, f.order[0], None)
    def finish(self, st, ins, r):
        """r: list of (state, value)"""
        out = []
        for s, v in r:
            fr = s.frames[-1]
            if ins.dst is not None: fr.env[ins.dst] = v
            if ins.op == 'invoke': out += self.goto(s, ins.x['to'])
            else: fr.idx += 1; out.append(s)
        return out
    def intrinsic(self, st, fr, ins, name):
        d = self.d
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.var.annotation', 'llvm.prefetch')):
            fr.idx += 1; return None
        a = [self.val(st, fr, x) for x in ins.a]
        def done(v): fr.env[ins.dst] = v; fr.idx += 1; return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = d.concrete(a[2])
            if n is None:
                hh = STD.get('memmove')
                r = hh(self, st, None, a, ins)
                return self.finish(st, ins, r)
            rs = self.memcpy(st, a[0], a[1], n)
            for s in rs: s.frames[-1].idx += 1
            return None if len(rs) == 1 and rs[0] is st else rs
        if name.startswith('llvm.memset'):
            n = d.concrete(a[2]); k = d.concrete(self.unundef(a[1]))
            if n is None or k is None: raise ExecError('memset of symbolic size/value in %s' % fr.f.dem)
            p = a[0]; i = 0
            if st.mem[p.r].arr is not None: raise ExecError('memset of array')
            for s, r, o in self.resolve(st, p, n, 'memset'):
                while i < n:
                    w = 8 if (o+i) % 8 == 0 and n-i >= 8 else 4 if (o+i) % 4 == 0 and n-i >= 4 else 1
                    self.put(s, r, o+i, w, d.const(int.from_bytes(bytes([k])*w, 'little'), w*8)); i += w
            fr.idx += 1; return None
        a = [self.unundef(x) for x in a]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            sg, op, w = m.group(1), m.group(2), int(m.group(3)); x, y = a
            r = getattr(d, op)(x, y)
            if d.name == 'int':
                f = d.u if sg == 'u' else d.s
                px, py = f(x), f(y); q = px+py if op == 'add' else px-py if op == 'sub' else px*py
                lo, hi = (0, (1 << w)-1) if sg == 'u' else (-(1 << (w-1)), (1 << (w-1))-1)
                M = 1 << w
                if sg == 'u' and op == 'add': d.settight(q, 0, 2*M-2)
                elif sg == 'u' and op == 'sub': d.settight(q, -(M-1), M-1)
                elif op == 'add': d.settight(q, -M, M-2)
                elif op == 'sub': d.settight(q, -(M-1), M-1)
                ov = c_or(d.lt(q, lo), d.gt(q, hi))
                if sg == 'u' and isinstance(ov, Cond): ov = Cond(ov.z, ov.at, ov.p); ov.ov = 1
                r = IV(q, w)
            else:
                E = z3.ZeroExt if sg == 'u' else z3.SignExt
                X, Y = E(w, x.z), E(w, y.z); q = X+Y if op == 'add' else X-Y if op == 'sub' else X*Y
                ov = d.cnd(q != E(w, r.z))
            return done([r, ov])
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', name)
        if m:
            k = m.group(1); c = d.icmp(k[0] + ('lt' if k[1:] == 'min' else 'gt'), a[0], a[1]); return done(d.ite(c, a[0], a[1]))
        if name.startswith('llvm.abs'):
            x = a[0]; c = d.icmp('slt', x, d.const(0, x.w))
            if a[1] is True:
                self.oblige(st, 'abs representable in %s' % fr.f.dem, c_not(d.icmp('eq', x, d.const(1 << (x.w-1), x.w))))
            return done(d.ite(c, d.sub(d.const(0, x.w), x), x))
        if name.startswith('llvm.ctlz'):
            x = a[0]; w = x.w
            # fork on the number of leading zeros (complete)
            if getattr(self, 'clz_hook', None):
                return self.finish(st, ins, self.clz_hook(self, st, x))
            out = []
            for n in range(w+1):
                if n == w: c = d.icmp('eq', x, d.const(0, w))
                else:
                    c = d.icmp('uge', x, d.const(1 << (w-1-n), w))
                    if n: c = c_and(c, d.icmp('ult', x, d.const(1 << (w-n), w)))
                if c is False or not self.feasible(st, c): continue
                s = st.copy(); s.add(c); f2 = s.frames[-1]; f2.env[ins.dst] = d.const(n, w); f2.idx += 1; out.append(s)
            return out
        if name.startswith('llvm.expect'): return done(a[0])
        if name.startswith('llvm.is.constant'): return done(False)
        if name.startswith('llvm.objectsize'): return done(d.const(-1, 64))
        if name.startswith('llvm.fsh'):
            n = d.concrete(a[2]); w = a[0].w
            if n is not None:
                n %= w
                if n == 0: return done(a[0] if 'fshl' in name else a[1])
                if 'fshl' in name: return done(d.or_(d.shl(a[0], d.const(n, w)), d.lshr(a[1], d.const(w-n, w))))
                return done(d.or_(d.shl(a[0], d.const(w-n, w)), d.lshr(a[1], d.const(n, w))))
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.oblige(st, 'trap not reached in %s' % fr.f.dem, False); raise PathEnd()
        if name.startswith('llvm.stacksave'): return done(Ptr(None, 0))
        if self.fp is not None:
            r = self.fp.intrinsic(self, st, name, a)
            if r is not None:
                return done(r)
        raise ExecError('intrinsic %s in %s' % (name, fr.f.dem))
    def asm(self, st, fr, ins, cv):
        tpl, con, fl = cv.v; d = self.d
        args = [self.unundef(self.val(st, fr, a)) for a in ins.a]
        mn = re.match(r'\s*\$?\(?\s*([a-z]+)', tpl.replace('\\09', ' '))
        cons = con.split(',')
        outs = [c for c in cons if c.startswith('=')]; ins_c = [c for c in cons if not c.startswith('=') and not c.startswith('~')]
        tl = tpl.replace('\\09', ' ')
        if re.match(r'\s*i?div', tl):
            signed = tl.strip().startswith('idiv')
            # outputs {ax},{dx}; inputs: tied "0"/"1"/{ax}/{dx} and the divisor
            om = {}
            for i, c in enumerate(outs):
                if '{ax}' in c or c == '={rax}': om['a'] = i
                elif '{dx}' in c or c == '={rdx}': om['d'] = i
                else: raise ExecError('asm constraint ' + con)
            lo = hi = dv = None
            for c, v in zip(ins_c, args):
                c0 = c
                if c.isdigit(): key = 'a' if int(c) == om['a'] else 'd'
                elif '{ax}' in c: key = 'a'
                elif '{dx}' in c: key = 'd'
                else: key = 'c'
                if key == 'a': lo = v
                elif key == 'd': hi = v
                else: dv = v
            if isinstance(dv, Ptr):
                (st, dv), = self.load(st, dv, ty_int(64)); dv = self.unundef(dv)
            w = dv.w
            if d.name != 'int': raise ExecError('div asm needs IntDom')
            if signed:
                x = d.s(hi)*(1 << w) + d.u(lo); y = d.s(dv)
                self.oblige(st, 'idiv: divisor not zero', d.ne(y, 0))
                q, r = d.tdivrem(x, y)
                if y.const() is None:
                    for sy in (y, -y):
                        for e in (q - (1 << (w-1)), -q - (1 << (w-1)) - 1): st.add(d.mul_lemma(e, sy))
                self.oblige(st, 'idiv: quotient representable', c_and(d.ge(q, -(1 << (w-1))), d.lt(q, 1 << (w-1))))
            else:
                x = d.u(hi)*(1 << w) + d.u(lo); y = d.u(dv)
                self.oblige(st, 'div: divisor not zero', d.ne(y, 0))
                self.oblige(st, 'div: quotient representable (high word below divisor)', d.lt(d.u(hi), y))
                q, r = d.tdivrem(x, y)
            q = self._ranged(q, w, signed); 
            res = [None]*len(outs); res[om['a']] = IV(q, w); res[om['d']] = IV(r, w)
            self.assume_used.add('x86-64 %s: quotient and remainder of the 128-bit dividend' % ('idiv' if signed else 'div'))
            fr.env[ins.dst] = res; fr.idx += 1; return None
        m = re.match(r'.*\b(sh[rl]d)\b', tl)
        if m:
            # dest (output 0, tied), src, count
            o = outs[0]
            ind = '*' in o
            names = {}
            vals = []
            # operands in order of the constraint string: outputs first
            dest = src = cnt = None
            rest = []
            for c, v in zip(cons if ind else ins_c, args):
                rest.append((c, v))
            if ind:
                dp = rest[0][1]
                tied = [v for c, v in rest[1:] if c.isdigit() or '*' in c]
                (st, dest), = self.load(st, dp, ty_int(64)); dest = self.unundef(dest)
                oth = [v for c, v in rest[1:] if not c.isdigit() and '*' not in c]
                src, cnt = oth
            else:
                tied = [v for c, v in rest if c.isdigit()]
                oth = [v for c, v in rest if not c.isdigit()]
                dest = tied[0]; src, cnt = oth
            w = dest.w; cw = d.zext(cnt, w) if cnt.w < w else cnt
            cw = d.and_(cw, d.const(63, w))
            z = d.icmp('eq', cw, d.const(0, w))
            inv = d.sub(d.const(w, w), cw)
            if d.name != 'bv' and d.concrete(cw) is None: raise ExecError('shxd asm needs BVDom')
            if z is True: r = dest
            else:
                if m.group(1) == 'shrd': r = d.or_(d.lshr(dest, cw), d.shl(src, inv))
                else: r = d.or_(d.shl(dest, cw), d.lshr(src, inv))
                r = d.ite(z, dest, r)
            self.assume_used.add('x86-64 %s: double-precision shift, count modulo 64, unchanged for 0' % m.group(1))
            if ind:
                for s in self.store_val(st, dp, ty_int(64), r): pass
            else: fr.env[ins.dst] = r
            fr.idx += 1; return None
        if tpl.strip() == '':
            raise ExecError('empty asm')
        raise ExecError('asm %s' % tpl)
    def _ranged(self, q, w, signed):
        """quotient proved representable: keep it exact through an alias with tight bounds"""
        d = self.d; A = d.at(q)
        lo, hi = (-(1 << (w-1)), (1 << (w-1))-1) if signed else (0, (1 << w)-1)
        b = d.bounds(q)
        if b[0] >= lo and b[1] <= hi: return q
        if A is not None and A.kind == 'tq':
            A.lo = max(A.lo, lo); A.hi = min(A.hi, hi)     # sound on this path: the obligation above is required of every path
            A.defs.append(Cond(z3.And(A.z >= lo, A.z <= hi), frozenset([A.id])))
        return q

# ------------------------------------------------------------ library functions
STD = {}
def std(*names):
    def deco(f):
        for n in names: STD[n] = f
        return f
    return deco

@std('__assert_fail')
def _assert_fail(ex, st, f, args, ins):
    g = args[0]; txt = ''
    try:
        reg = st.mem[g.r]; txt = ''.join(chr(ex.d.concrete(v)) for o, (s, v) in sorted(reg.cells.items()) if ex.d.concrete(v))
    except Exception: pass
    ex.oblige(st, 'assertion holds: %s (in %s)' % (txt, st.frames[-1].f.dem), False)
    raise PathEnd()

@std('abs', 'labs', 'llabs', 'std::abs')
def _abs(ex, st, f, args, ins):
    x = ex.unundef(args[0]); d = ex.d
    if not isinstance(x, (IV, BV)): return None
    if f and not f.decl: return None
    ex.oblige(st, 'abs representable', c_not(d.icmp('eq', x, d.const(1 << (x.w-1), x.w))))
    c = d.icmp('slt', x, d.const(0, x.w))
    if d.name == 'int':
        return [(st, IV(d.absv(d.s(x)), x.w))]
    return [(st, d.ite(c, d.sub(d.const(0, x.w), x), x))]

@std('__clang_call_terminate', 'std::terminate', 'abort', 'std::__throw_length_error', 'std::__throw_bad_alloc', 'std::__throw_bad_array_new_length', 'std::__throw_out_of_range_fmt', 'std::__throw_logic_error')
def _noret(ex, st, f, args, ins):
    ex.oblige(st, '%s is not reached' % f.dem.split('(')[0], False)
    raise PathEnd()
