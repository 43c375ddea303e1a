"""Parser for the textual LLVM 18 IR that clang emits for the driver units.

Only the subset that clang produces for the sources of /repo is understood; an
unknown construct raises IRError (a check that meets one ends in an error, it
never passes silently)."""
import re, struct as _struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Type:
    __slots__ = ('k', 'bits', 'elem', 'n', 'fields', 'name', 'packed', 'vararg')
    def __init__(self, k, **kw):
        self.k = k
        for a in ('bits', 'elem', 'n', 'fields', 'name', 'packed', 'vararg'):
            setattr(self, a, kw.get(a))
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.bits
        if self.k in ('ptr', 'void', 'double', 'float', 'x86_fp80', 'label', 'metadata', 'opaque'): return self.k
        if self.k == 'array': return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.elem)
        if self.k == 'named': return '%' + self.name
        if self.k == 'struct': return '{' + ', '.join(map(repr, self.fields)) + '}'
        return self.k

INT = {}
def ty_int(b):
    if b not in INT: INT[b] = Type('int', bits=b)
    return INT[b]
PTR = Type('ptr'); VOID = Type('void'); DOUBLE = Type('double'); FLOAT = Type('float'); FP80 = Type('x86_fp80')
LABEL = Type('label'); META = Type('metadata')

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"))
 | (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|[-+]?\d+)
 | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise IRError('lex: %r' % s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws': continue
        v = m.group(k)
        if k in ('loc', 'glob', 'comdat') and v[1:2] == '"': v = v[0] + v[2:-1]
        out.append((k, v))
    return out

class Val:
    """operand: kind in local, global, int, fp, null, undef, poison, zero, agg, cexpr, str"""
    __slots__ = ('k', 'v', 't')
    def __init__(self, k, v, t): self.k = k; self.v = v; self.t = t
    def __repr__(self): return '%s:%r' % (self.k, self.v)

class Ins:
    __slots__ = ('op', 'dst', 't', 'a', 'x', 'flags', 'line')
    def __init__(self, op, dst=None, t=None, a=(), x=None, flags=()):
        self.op = op; self.dst = dst; self.t = t; self.a = a; self.x = x; self.flags = flags; self.line = None
    def __repr__(self): return '%s=%s %r %r %r' % (self.dst, self.op, self.t, self.a, self.x)

class Func:
    def __init__(self, name, ret, params):
        self.name = name; self.ret = ret; self.params = params  # [(name, type, attrs)]
        self.blocks = {}; self.order = []; self.decl = True; self.dem = name

PARAM_ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg returned
 immarg swiftself nofree noreturn nounwind dead_on_unwind writable allocalign allocptr nest inalloca'''.split())
PARAM_ATTR_ARG = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated range nofpclass captures initializes memory'.split())

class P:
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def at(self, v): return self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] != 'str'
    def opt(self, v):
        if self.at(v): self.i += 1; return True
        return False
    def exp(self, v):
        if not self.opt(v): raise IRError('expected %s at %r' % (v, self.t[self.i:self.i+8]))
    def end(self): return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): t = ty_int(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.at('addrspace'): self.next(); self.exp('('); self.next(); self.exp(')')
            elif v == 'void': t = VOID
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'x86_fp80': t = FP80
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Type('opaque')
            else: raise IRError('type %s' % v)
        elif k == 'loc': t = Type('named', name=v[1:])
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = Type('array', n=n, elem=e)
        elif v == '<':
            if self.at('{'):
                self.next(); t = self._struct(True); self.exp('>')
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = Type('vec', n=n, elem=e)
        elif v == '{': t = self._struct(False)
        else: raise IRError('type at %r' % (self.t[self.i-1:self.i+6],))
        while self.at('('):   # function type
            self.next()
            while not self.opt(')'):
                if self.opt('...'): continue
                self.type(); self.opt(',')
            t = Type('func')
        return t
    def _struct(self, packed):
        f = []
        while not self.opt('}'):
            f.append(self.type()); self.opt(',')
        return Type('struct', fields=f, packed=packed)

    def skip_attrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTR_WORDS: self.next(); at[v] = True
            elif k == 'word' and v in PARAM_ATTR_ARG:
                self.next()
                if v == 'align' and self.peek()[0] == 'num': at[v] = self.next()[1]; continue
                if self.at('('):
                    at[v] = self.paren()
                else: at[v] = True
            elif k == 'attr': self.next()
            elif k == 'str': self.next(); 
            else: return at
            if self.at('=') : self.next(); self.next()
    def paren(self):
        d = 0; out = []
        while True:
            k, v = self.next()
            if v == '(' and k == 'p': d += 1
            elif v == ')' and k == 'p':
                d -= 1
                if d == 0: return out[1:]
            out.append((k, v))

    def value(self, t):
        k, v = self.next()
        if k == 'loc': return Val('local', v[1:], t)
        if k == 'glob': return Val('global', v[1:], t)
        if k == 'num':
            if t.k in ('double', 'float'):
                if v.startswith('0x'):
                    return Val('fp', _struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0], t)
                return Val('fp', float(v), t)
            if t.k == 'x86_fp80': return Val('fp', v, t)
            return Val('int', int(v), t)
        if k == 'word':
            if v == 'true': return Val('int', 1, t)
            if v == 'false': return Val('int', 0, t)
            if v == 'null': return Val('null', None, t)
            if v in ('undef', 'poison'): return Val('undef', None, t)
            if v == 'zeroinitializer': return Val('zero', None, t)
            if v == 'none': return Val('zero', None, t)
            if v == 'asm':
                fl = []
                while self.peek()[0] == 'word': fl.append(self.next()[1])
                tpl = self.next()[1][1:-1]; self.exp(','); con = self.next()[1][1:-1]
                return Val('asm', (tpl, con, fl), t)
            if v in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'sub', 'add', 'select', 'icmp', 'addrspacecast', 'xor', 'and', 'or', 'mul', 'shl'):
                return self.cexpr(v, t)
            if v in ('dso_local_equivalent', 'no_cfi', 'blockaddress'):
                raise IRError(v)
        if k == 'str': return Val('str', v, t)
        if k == 'meta':
            return Val('meta', v, t)
        if v in ('{', '[', '<') :
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.at('{'):
                self.next(); a = self._agg('}'); self.exp('>')
                return Val('agg', a, t)
            return Val('agg', self._agg(close), t)
        raise IRError('value %r' % (self.t[self.i-1:self.i+5],))
    def _agg(self, close):
        a = []
        while not self.opt(close):
            tt = self.type(); a.append(self.value(tt)); self.opt(',')
        return a
    def cexpr(self, op, t):
        fl = []
        while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nsw', 'nuw', 'exact', 'inrange'):
            fl.append(self.next()[1])
        pred = None
        if op == 'icmp': pred = self.next()[1]
        self.exp('(')
        bt = None
        if op == 'getelementptr': bt = self.type(); self.exp(',')
        a = []
        while not self.opt(')'):
            if self.at('inrange'): self.next()
            tt = self.type(); a.append(self.value(tt))
            if self.opt('to'): self.type()
            self.opt(',')
        return Val('cexpr', (op, bt, a, pred), t)
    def tv(self):
        t = self.type(); self.skip_attrs(); return self.value(t)

FASTMATH = set('fast nnan ninf nsz arcp contract afn reassoc'.split())
BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast'.split())

class Module:
    def __init__(self, text):
        self.named = {}; self.funcs = {}; self.globals = {}; self.aliases = {}
        self._parse(text)
    # ---------------------------------------------------------- layout
    def res(self, t):
        while t.k == 'named':
            if t.name not in self.named: raise IRError('unknown type %s' % t.name)
            t = self.named[t.name]
        return t
    def align(self, t):
        t = self.res(t)
        if t.k == 'int': return min(16, max(1, 1 << max(0, ((t.bits+7)//8 - 1)).bit_length()))
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'array': return self.align(t.elem)
        if t.k == 'vec': return self.size(t)
        if t.k == 'struct':
            if t.packed: return 1
            return max([self.align(f) for f in t.fields] or [1])
        raise IRError('align %r' % t)
    def size(self, t):
        t = self.res(t)
        if t.k == 'int':
            b = (t.bits+7)//8; a = self.align(t); return (b+a-1)//a*a
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'array': return t.n*self.size(t.elem)
        if t.k == 'vec': return t.n*self.size(t.elem)
        if t.k == 'struct':
            return self.struct_layout(t)[1]
        raise IRError('size %r' % t)
    def struct_layout(self, t):
        off = 0; o = []
        for f in t.fields:
            if not t.packed:
                a = self.align(f); off = (off+a-1)//a*a
            o.append(off); off += self.size(f)
        if not t.packed:
            a = self.align(t); off = (off+a-1)//a*a
        return o, off
    # ---------------------------------------------------------- parse
    def _parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                p = P(self, tokenize(l)); nm = p.next()[1][1:]; p.exp('='); p.exp('type')
                self.named[nm] = p.type()
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare'):
                self._header(l, True)
            elif l.startswith('define'):
                f = self._header(l, False)
                i += 1; body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                self._body(f, body)
            i += 1
    def _global(self, l):
        toks = tokenize(l); p = P(self, toks)
        nm = p.next()[1][1:]; p.exp('=')
        const = False
        while True:
            k, v = p.peek()
            if v in ('constant', 'global'): p.next(); const = v == 'constant'; break
            if v == 'alias' or v == 'ifunc':
                p.next(); p.type(); p.exp(','); p.type(); self.aliases[nm] = p.next()[1][1:]; return
            p.next()
            if p.end(): return
            if p.at('(') : p.paren()
        t = p.type()
        init = None
        if not p.end() and not p.at(','):
            try: init = p.value(t)
            except IRError: init = None
        self.globals[nm] = (t, init, const)
    def _header(self, l, decl):
        toks = tokenize(l); p = P(self, toks); p.next()
        # find the function name: first glob followed by (
        rt = None
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'external', 'available_externally',
                    'dso_local', 'hidden', 'protected', 'default', 'fastcc', 'ccc', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak', 'common'):
                p.next(); continue
            at0 = p.i
            p.skip_attrs()
            if p.i != at0: continue
            break
        rt = p.type(); nm = p.next()[1][1:]
        p.exp('('); params = []; idx = 0
        while not p.opt(')'):
            if p.opt('...'): p.opt(','); continue
            t = p.type(); at = p.skip_attrs(); pn = None
            if p.peek()[0] == 'loc': pn = p.next()[1][1:]
            else: pn = str(idx)
            params.append((pn, t, at)); idx += 1; p.opt(',')
        f = Func(nm, rt, params); f.decl = decl
        if not decl or nm not in self.funcs: self.funcs[nm] = f
        return f
    def _body(self, f, lines):
        f.decl = False
        # the entry block label is implicit when unnamed: number = count of unnamed params
        cur = None; toks_acc = ''
        nparam = sum(1 for p in f.params if p[0].isdigit())
        i = 0
        lab = re.compile(r'^([-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"):')
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.strip() or l.lstrip().startswith(';'): continue
            m = lab.match(l)
            if m:
                cur = m.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = str(nparam); f.blocks[cur] = []; f.order.append(cur)
            # switch spans lines
            if re.match(r'\s*(%\S+ = )?switch ', l) and ']' not in l:
                while ']' not in l: l += ' ' + lines[i]; i += 1
            if re.search(r'\b(invoke|landingpad)\b', l) :
                while i < len(lines) and re.match(r'\s+(to label|cleanup|catch|filter)', lines[i]): l += ' ' + lines[i]; i += 1
            ins = self._ins(l)
            f.blocks[cur].append(ins)
    def _ins(self, l):
        toks = tokenize(l)
        # cut trailing metadata ", !dbg !5"
        for j, (k, v) in enumerate(toks):
            if k == 'meta' and j > 0 and toks[j-1][1] == ',':
                toks = toks[:j-1]; break
        p = P(self, toks); dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = p.next()[1][1:]; p.next()
        k, op = p.next()
        ins = self._ins2(p, op, dst)
        return ins
    def _ins2(self, p, op, dst):
        if op in ('tail', 'musttail', 'notail'): k, op = p.next()
        fl = []
        if op in BIN or op in ('fneg', 'fcmp', 'icmp', 'getelementptr', 'zext', 'trunc', 'phi', 'select', 'call', 'sext', 'uitofp'):
            while p.peek()[0] == 'word' and (p.peek()[1] in ('nsw', 'nuw', 'exact', 'inbounds', 'disjoint', 'nneg', 'nusw') or p.peek()[1] in FASTMATH):
                fl.append(p.next()[1])
        if op in BIN:
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Ins(op, dst, t, (a, b), None, fl)
        if op == 'fneg':
            t = p.type(); return Ins(op, dst, t, (p.value(t),), None, fl)
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Ins(op, dst, t, (a, b), pred, fl)
        if op in CAST:
            t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
            return Ins(op, dst, t2, (a,), t, fl)
        if op == 'freeze':
            t = p.type(); return Ins(op, dst, t, (p.value(t),))
        if op == 'alloca':
            t = p.type(); n = None
            if p.opt(',') and not p.at('align'):
                n = p.tv()
            return Ins(op, dst, PTR, (), (t, n))
        if op == 'load':
            p.opt('volatile'); p.opt('atomic')
            t = p.type(); p.exp(','); a = p.tv()
            return Ins(op, dst, t, (a,))
        if op == 'store':
            p.opt('volatile'); p.opt('atomic')
            v = p.tv(); p.exp(','); a = p.tv()
            return Ins(op, None, None, (v, a))
        if op == 'getelementptr':
            bt = p.type(); p.exp(','); b = p.tv(); idx = []
            while p.opt(','): idx.append(p.tv())
            return Ins(op, dst, PTR, (b, *idx), bt, fl)
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1][1:]; p.exp(']'); inc.append((v, b))
                if not p.opt(','): break
            return Ins(op, dst, t, tuple(v for v, _ in inc), [b for _, b in inc])
        if op == 'select':
            c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
            return Ins(op, dst, a.t, (c, a, b))
        if op == 'br':
            if p.opt('label'): return Ins('br', None, None, (), [p.next()[1][1:]])
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next()[1][1:]; p.exp(','); p.exp('label'); b = p.next()[1][1:]
            return Ins('br', None, None, (c,), [a, b])
        if op == 'switch':
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1][1:]; p.exp('[')
            cs = []
            while not p.opt(']'):
                ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv.v, p.next()[1][1:]))
            return Ins('switch', None, t, (c,), (d, cs))
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return Ins('ret', None, t, ())
            return Ins('ret', None, t, (p.value(t),))
        if op == 'unreachable': return Ins(op)
        if op == 'resume': return Ins(op)
        if op == 'landingpad': return Ins(op, dst, None, ())
        if op in ('call', 'invoke'):
            while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'cc'): p.next()
            p.skip_attrs()
            t = p.type(); 
            if t.k == 'func': t = VOID   # varargs callee type printed: resolved by callee
            callee = p.value(PTR)
            p.exp('('); args = []; ats = []
            while not p.opt(')'):
                at = p.type()
                if at.k == 'metadata':
                    d = 0
                    while True:
                        kk, vv = p.peek()
                        if d == 0 and vv in (',', ')') and kk == 'p': break
                        if vv == '(' : d += 1
                        if vv == ')' : d -= 1
                        p.next()
                    p.opt(','); continue
                aa = p.skip_attrs(); v = p.value(at); args.append(v); ats.append(aa); p.opt(',')
            x = {'callee': callee, 'attrs': ats}
            p.skip_attrs()
            if op == 'invoke':
                while not p.at('to'): p.next()
                p.exp('to'); p.exp('label'); x['to'] = p.next()[1][1:]; p.exp('unwind'); p.exp('label'); x['unwind'] = p.next()[1][1:]
            return Ins(op, dst, t, tuple(args), x, fl)
        if op == 'extractvalue':
            a = p.tv(); idx = []
            while p.opt(','): idx.append(int(p.next()[1]))
            return Ins(op, dst, None, (a,), idx)
        if op == 'insertvalue':
            a = p.tv(); p.exp(','); b = p.tv(); idx = []
            while p.opt(','): idx.append(int(p.next()[1]))
            return Ins(op, dst, a.t, (a, b), idx)
        if op in ('extractelement',):
            a = p.tv(); p.exp(','); b = p.tv()
            return Ins(op, dst, a.t.elem, (a, b))
        if op in ('insertelement',):
            a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
            return Ins(op, dst, a.t, (a, b, c))
        return Ins('unsupported:' + op, dst)
