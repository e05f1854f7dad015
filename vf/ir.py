"""Parser for the textual LLVM IR (clang/LLVM 18, opaque pointers) emitted from /repo's sources."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'name', 'packed')
    def __init__(self, k, n=0, el=None, fields=None, name=None, packed=False):
        self.k, self.n, self.el, self.fields, self.name, self.packed = k, n, el, fields, name, packed
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.fields))
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float'); META = Ty('metadata'); LABEL = Ty('label')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<var>[%@](?:"(?:[^"\\]|\\..)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+e[+-]?\d+|-?\d+|0x[0-9A-Fa-f]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)
  | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise IRError('token: %r' % s[i:i+60])
        i = m.end()
        k = m.lastgroup; out.append((k, m.group(k)))
    return out

class TS:
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self, d=0): return self.t[self.i+d] if self.i+d < len(self.t) else (None, None)
    def nxt(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str': self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise IRError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

# values: ('reg',name) ('glob',name) ('int',n) ('null',) ('undef',) ('zero',) ('fp',float bits) ('agg',[(ty,val)]) ('str',bytes) ('cexpr',op,..)
PATTRS = {'noundef','zeroext','signext','nonnull','nocapture','readonly','writeonly','readnone','noalias','returned','inreg','immarg','nofree','allocptr','allocalign','dead_on_unwind','writable'}
FLAGS = {'nuw','nsw','exact','inbounds','disjoint','nneg','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

class Inst:
    __slots__ = ('op','res','ty','a','line','txt','flags')
    def __init__(self, op, res=None, ty=None, a=None, line=0, txt='', flags=()):
        self.op, self.res, self.ty, self.a, self.line, self.txt, self.flags = op, res, ty, a, line, txt, flags
    def __repr__(self): return self.txt

class Func:
    def __init__(self, name, ret, params, vararg):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.blocks = {}; self.order = []; self.internal = False; self.pattrs = []

class Global:
    def __init__(self, name, ty, init, const): self.name, self.ty, self.init, self.const = name, ty, init, const

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.dbg = {}; self.scopes = {}
    # --- layout
    def size(self, t):
        if t.k == 'int': return max(1, (t.n + 7) // 8) if t.n <= 8 else {16:2,32:4,64:8,128:16}.get(t.n, (t.n+7)//8)
        if t.k == 'ptr': return 8
        if t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'arr': return t.n * self.size(t.el)
        if t.k == 'struct': return self.layout(t)[1]
        if t.k == 'vec': return t.n * self.size(t.el)
        raise IRError('size of %r' % t)
    def align(self, t):
        if t.k == 'int': return min(self.size(t), 16)
        if t.k == 'arr': return self.align(t.el)
        if t.k == 'struct': return max([1] + [self.align(f) for f in self.fields(t)]) if not t.packed else 1
        return self.size(t)
    def fields(self, t):
        if t.fields is None:
            r = self.types.get(t.name)
            if r is None: raise IRError('opaque type %s' % t.name)
            t.fields = r.fields; t.packed = r.packed
        return t.fields
    def layout(self, t):
        fs = self.fields(t); o = 0; offs = []
        for f in fs:
            if not t.packed:
                a = self.align(f); o = (o + a - 1) // a * a
            offs.append(o); o += self.size(f)
        if not t.packed and fs:
            a = self.align(t); o = (o + a - 1) // a * a
        return offs, o
    def flat(self, t, base=0):
        """leaf fields: list of (offset, Ty)"""
        if t.k == 'struct':
            out = []
            for o, f in zip(self.layout(t)[0], self.fields(t)): out += self.flat(f, base + o)
            return out
        if t.k == 'arr':
            out = []; s = self.size(t.el)
            for i in range(t.n): out += self.flat(t.el, base + i*s)
            return out
        return [(base, t)]
    def struct(self, name):
        for n in ('%struct.' + name, '%' + name, '%union.' + name):
            if n in self.types: return Ty('struct', name=n, fields=self.types[n].fields, packed=self.types[n].packed)
        raise IRError('no type ' + name)

    # --- parse types
    def pty(self, ts):
        k, v = ts.nxt()
        if k == 'word':
            if v == 'void': t = VOID
            elif v == 'ptr': t = PTR
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'metadata': t = META
            elif v == 'label': t = LABEL
            elif re.fullmatch(r'i\d+', v): t = INT(int(v[1:]))
            elif v == 'opaque': t = Ty('struct', name='opaque', fields=[])
            elif v == 'x86_fp80': t = Ty('x86_fp80')
            else: raise IRError('type %r' % v)
        elif v == '[':
            n = int(ts.nxt()[1]); ts.exp('x'); el = self.pty(ts); ts.exp(']'); t = Ty('arr', n, el)
        elif v == '{':
            fs = []
            if not ts.acc('}'):
                while True:
                    fs.append(self.pty(ts))
                    if ts.acc('}'): break
                    ts.exp(',')
            t = Ty('struct', fields=fs)
        elif v == '<':
            if ts.peek()[1] == '{':
                t = self.pty(ts); t.packed = True; ts.exp('>')
            else:
                n = int(ts.nxt()[1]); ts.exp('x'); el = self.pty(ts); ts.exp('>'); t = Ty('vec', n, el)
        elif k == 'var': t = Ty('struct', name=v)
        else: raise IRError('type tok %r' % v)
        while ts.peek()[1] == '(' and t.k in ('void', 'int', 'ptr', 'double', 'struct') and self._fnty(ts):
            t = t  # function type in call: consumed by _fnty
        return t
    def _fnty(self, ts):
        # function type "ret (args...)": only appears in calls to varargs: consume
        j = ts.i; d = 0; ok = False
        # look ahead: must be followed by var after matching paren and contain only types or ...
        while j < len(ts.t):
            v = ts.t[j][1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: break
            j += 1
        inner = ts.t[ts.i+1:j]
        nxt = ts.t[j+1] if j+1 < len(ts.t) else (None, None)
        if nxt[0] == 'var' and all(x[0] in ('word', 'dots') or x[1] in ',*' for x in inner):
            ts.i = j+1; return True
        return False

    def pval(self, ts, ty):
        k, v = ts.nxt()
        if k == 'var': return ('reg', v) if v[0] == '%' else ('glob', v)
        if k == 'num':
            if ty.k in ('double', 'float'):
                if v.startswith('0x'): return ('fp', int(v, 16))
                import struct
                return ('fp', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            return ('int', int(v, 0))
        if k == 'str':
            return ('str', unesc(v))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                while ts.peek()[1] in FLAGS: ts.nxt()
                ts.exp('('); et = self.pty(ts); ts.exp(',')
                args = self.ptvs(ts, ')'); return ('cexpr', 'gep', et, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
                ts.exp('('); t1 = self.pty(ts); a = self.pval(ts, t1); ts.exp('to'); t2 = self.pty(ts); ts.exp(')')
                return ('cexpr', v, t1, a, t2)
            raise IRError('value %r' % v)
        if v == '[':
            return ('agg', self.ptvs(ts, ']'))
        if v == '{': return ('agg', self.ptvs(ts, '}'))
        if v == '<':
            if ts.peek()[1] == '{':
                ts.nxt(); r = self.ptvs(ts, '}'); ts.exp('>'); return ('agg', r)
            return ('agg', self.ptvs(ts, '>'))
        if k == 'meta': return ('meta',)
        raise IRError('value tok %r %r' % (k, v))
    def ptvs(self, ts, close):
        out = []
        if ts.acc(close): return out
        while True:
            t = self.pty(ts); out.append((t, self.pval(ts, t)))
            if ts.acc(close): return out
            ts.exp(',')

    def parg(self, ts):
        t = self.pty(ts); attrs = {}
        while True:
            k, v = ts.peek()
            if k == 'word' and v in PATTRS: ts.nxt()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                ts.nxt()
                if ts.acc('('): ts.nxt(); ts.exp(')')
                else: ts.nxt()
            elif k == 'word' and v in ('byval', 'sret', 'elementtype'):
                ts.nxt(); ts.exp('('); attrs[v] = self.pty(ts); ts.exp(')')
            elif k == 'word' and v in ('captures','range','initializes','memory'):
                ts.nxt(); ts.exp('('); d = 1
                while d:
                    x = ts.nxt()[1]; d += (x == '(') - (x == ')')
            else: break
        return t, attrs

def unesc(v):
    v = v[v.index('"')+1:-1]; out = bytearray(); i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i+1:i+3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return bytes(out)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast','fptoui','fptosi','uitofp','sitofp','fpext','fptrunc','addrspacecast'}

def parse(text):
    M = Module()
    lines = text.split('\n'); i = 0; n = len(lines)
    dbgline = {}
    for ln in lines:
        m = re.match(r'(!\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
        if m: dbgline[m.group(1)] = int(m.group(2))
    _di(M, lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%'):
            m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
            if m:
                if m.group(2).strip() == 'opaque': M.types[m.group(1)] = Ty('struct', fields=[])
                else: M.types[m.group(1)] = M.pty(TS(tokenize(m.group(2)), M))
        elif ln.startswith('@'):
            m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
            ts = TS(tokenize(m.group(2)), M); const = False; ext = False
            while True:
                k, v = ts.peek()
                if v in ('global', 'constant'):
                    const = v == 'constant'; ts.nxt(); break
                if v in ('thread_local',) and ts.peek(1)[1] == '(':
                    ts.nxt(); ts.nxt(); ts.nxt(); ts.nxt(); continue
                if v == 'external': ext = True
                if v == 'alias': break
                ts.nxt()
            t = M.pty(ts); init = None
            if not ext and ts.peek()[0] is not None and ts.peek()[1] != ',': init = M.pval(ts, t)
            M.globals[m.group(1)] = Global(m.group(1), t, init, const)
        elif ln.startswith('declare'):
            f = _header(M, ln); M.decls[f.name] = f
        elif ln.startswith('define'):
            f = _header(M, ln); i += 1; cur = None
            while lines[i] != '}':
                l = lines[i]
                if l.strip() == '' or l.lstrip().startswith(';'): i += 1; continue
                m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
                if m and not l.startswith(' '):
                    cur = '%' + m.group(1).strip('"') if not m.group(1).startswith('"') else '%' + m.group(1)
                    f.blocks[cur] = []; f.order.append(cur); i += 1; continue
                if cur is None:
                    cur = '%0'; f.blocks[cur] = []; f.order.append(cur)
                full = l
                if re.match(r'\s*switch ', l):
                    while ']' not in lines[i]: i += 1; full += ' ' + lines[i]
                ins = _inst(M, full, dbgline)
                if ins is not None: f.blocks[cur].append(ins)
                i += 1
            M.funcs[f.name] = f
        i += 1
    return M

def _di(M, lines):
    """struct member names and offsets from the debug info"""
    md = {}
    for ln in lines:
        if ln.startswith('!'):
            m = re.match(r'(!\d+) = (?:distinct )?(!\w*)(.*)$', ln)
            if m: md[m.group(1)] = (m.group(2), m.group(3))
    def field(s, k):
        m = re.search(r'\b%s: ("[^"]*"|[^,)]+)' % k, s); return m.group(1).strip('"') if m else None
    M.members = {}; M.enums = {}
    def strip(t):
        while t in md and field(md[t][1], 'tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'): t = field(md[t][1], 'baseType')
        return t
    def members(node, base, pre, out):
        el = field(node, 'elements')
        if el not in md: return
        for e in re.findall(r'!\d+', md[el][1]):
            x = md[e][1]
            if field(x, 'tag') != 'DW_TAG_member': continue
            off = base + int(field(x, 'offset') or 0) // 8
            nm = field(x, 'name'); out[(pre + nm) if nm else pre] = (off, int(field(x, 'size') or 0) // 8)
            bt = strip(field(x, 'baseType'))
            if bt in md and field(md[bt][1], 'tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                members(md[bt][1], off, (pre + nm + '.') if nm else pre, out)
    for k, (kind, x) in md.items():
        if kind == '!DICompositeType' and field(x, 'tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and field(x, 'name'):
            out = {}; members(x, 0, '', out); M.members[field(x, 'name')] = out
        if kind == '!DIEnumerator' and field(x, 'name'): M.enums[field(x, 'name')] = int(field(x, 'value'))

def _header(M, ln):
    ln = re.sub(r'\{\s*$', '', ln)
    ts = TS(tokenize(ln), M); ts.nxt()
    internal = False; f = None
    while True:
        k, v = ts.peek()
        if k == 'word' and (v in ('dso_local','internal','external','weak','linkonce_odr','available_externally','hidden','private','unnamed_addr','local_unnamed_addr','noundef','zeroext','signext','noalias','nonnull','inreg','fastcc','extern_weak')):
            internal |= v == 'internal'; ts.nxt()
        elif k == 'word' and v in ('align','dereferenceable','range'):
            ts.nxt()
            if ts.acc('('):
                while ts.nxt()[1] != ')': pass
            else: ts.nxt()
        else: break
    ret = M.pty(ts)
    name = ts.nxt()[1]
    ts.exp('('); params = []; va = False; pat = []
    if not ts.acc(')'):
        while True:
            if ts.peek()[0] == 'dots': ts.nxt(); va = True
            else:
                t, at = M.parg(ts); nm = None
                if ts.peek()[0] == 'var': nm = ts.nxt()[1]
                params.append((t, nm)); pat.append(at)
            if ts.acc(')'): break
            ts.exp(',')
    f = Func(name, ret, params, va); f.internal = internal; f.pattrs = pat
    return f

def _inst(M, l, dbgline):
    line = 0
    m = re.search(r', !dbg (!\d+)', l)
    if m: line = dbgline.get(m.group(1), 0)
    if '@llvm.dbg.' in l or '@llvm.lifetime' in l or '@llvm.experimental.noalias' in l: return None
    body = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', l)
    ts = TS(tokenize(body), M); res = None
    if ts.peek()[0] == 'var' and ts.peek(1)[1] == '=':
        res = ts.nxt()[1]; ts.nxt()
    k, op = ts.nxt(); I = lambda **kw: Inst(op, res, line=line, txt=l.strip(), **kw)
    flags = []
    if op in BIN:
        while ts.peek()[1] in FLAGS: flags.append(ts.nxt()[1])
        t = M.pty(ts); a = M.pval(ts, t); ts.exp(','); b = M.pval(ts, t)
        return I(ty=t, a=(a, b), flags=tuple(flags))
    if op == 'fneg':
        while ts.peek()[1] in FLAGS: ts.nxt()
        t = M.pty(ts); return I(ty=t, a=(M.pval(ts, t),))
    if op in ('icmp', 'fcmp'):
        while ts.peek()[1] in FLAGS: ts.nxt()
        pr = ts.nxt()[1]; t = M.pty(ts); a = M.pval(ts, t); ts.exp(','); b = M.pval(ts, t)
        return I(ty=t, a=(pr, a, b))
    if op in CAST:
        while ts.peek()[1] in FLAGS: ts.nxt()
        t = M.pty(ts); a = M.pval(ts, t); ts.exp('to'); t2 = M.pty(ts)
        return I(ty=t2, a=(t, a))
    if op == 'load':
        while ts.peek()[1] in ('volatile', 'atomic'): ts.nxt()
        t = M.pty(ts); ts.exp(','); pt = M.pty(ts); p = M.pval(ts, pt); return I(ty=t, a=(p,))
    if op == 'store':
        while ts.peek()[1] in ('volatile', 'atomic'): ts.nxt()
        t = M.pty(ts); v = M.pval(ts, t); ts.exp(','); pt = M.pty(ts); p = M.pval(ts, pt); return I(ty=t, a=(v, p))
    if op == 'getelementptr':
        while ts.peek()[1] in FLAGS: flags.append(ts.nxt()[1])
        et = M.pty(ts); ts.exp(','); args = []
        while True:
            t = M.pty(ts); args.append((t, M.pval(ts, t)))
            if not ts.acc(','): break
        return I(ty=et, a=args, flags=tuple(flags))
    if op == 'alloca':
        t = M.pty(ts); cnt = None
        if ts.acc(','):
            if ts.peek()[1] != 'align': ct = M.pty(ts); cnt = (ct, M.pval(ts, ct))
        return I(ty=t, a=(cnt,))
    if op == 'br':
        t = M.pty(ts)
        if t.k == 'label': return I(a=(ts.nxt()[1],))
        c = M.pval(ts, t); ts.exp(','); ts.exp('label'); a = ts.nxt()[1]; ts.exp(','); ts.exp('label'); b = ts.nxt()[1]
        return I(a=(c, a, b))
    if op == 'switch':
        t = M.pty(ts); v = M.pval(ts, t); ts.exp(','); ts.exp('label'); d = ts.nxt()[1]; ts.exp('['); cs = []
        while not ts.acc(']'):
            ct = M.pty(ts); cv = M.pval(ts, ct); ts.exp(','); ts.exp('label'); cs.append((cv[1], ts.nxt()[1]))
        return I(ty=t, a=(v, d, cs))
    if op == 'ret':
        t = M.pty(ts)
        return I(ty=t, a=() if t.k == 'void' else (M.pval(ts, t),))
    if op == 'unreachable': return I(a=())
    if op == 'phi':
        while ts.peek()[1] in FLAGS: ts.nxt()
        t = M.pty(ts); inc = []
        while True:
            ts.exp('['); v = M.pval(ts, t); ts.exp(','); b = ts.nxt()[1]; ts.exp(']'); inc.append((v, b))
            if not ts.acc(','): break
        return I(ty=t, a=inc)
    if op == 'select':
        while ts.peek()[1] in FLAGS: ts.nxt()
        ct = M.pty(ts); c = M.pval(ts, ct); ts.exp(','); t = M.pty(ts); a = M.pval(ts, t); ts.exp(','); t2 = M.pty(ts); b = M.pval(ts, t2)
        return I(ty=t, a=(c, a, b))
    if op in ('extractvalue',):
        t = M.pty(ts); v = M.pval(ts, t); idx = []
        while ts.acc(','): idx.append(int(ts.nxt()[1]))
        return I(ty=t, a=(v, idx))
    if op == 'insertvalue':
        t = M.pty(ts); v = M.pval(ts, t); ts.exp(','); t2 = M.pty(ts); w = M.pval(ts, t2); idx = []
        while ts.acc(','): idx.append(int(ts.nxt()[1]))
        return I(ty=t, a=(v, t2, w, idx))
    if op == 'freeze':
        t = M.pty(ts); return I(ty=t, a=(M.pval(ts, t),))
    if op in ('atomicrmw', 'cmpxchg', 'fence'):
        return I(a=())
    if op in ('call', 'tail', 'musttail', 'notail'):
        if op != 'call': ts.exp('call')
        while True:
            k, v = ts.peek()
            if k == 'word' and (v in PATTRS or v in FLAGS or v in ('fastcc',)): ts.nxt()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                ts.nxt()
                if ts.acc('('):
                    while ts.nxt()[1] != ')': pass
                else: ts.nxt()
            else: break
        rt = M.pty(ts)
        if ts.peek()[1] == 'asm':
            return Inst('asm', res, rt, (), line, l.strip())
        k, v = ts.nxt(); callee = ('glob', v) if v[0] == '@' else ('reg', v)
        ts.exp('('); args = []
        if not ts.acc(')'):
            while True:
                t, at = M.parg(ts); args.append((t, M.pval(ts, t) if t.k != 'metadata' else _skipmeta(ts), at))
                if ts.acc(')'): break
                ts.exp(',')
        return Inst('call', res, rt, (callee, args), line, l.strip())
    raise IRError('inst: ' + l)

def _skipmeta(ts):
    d = 0
    while True:
        v = ts.peek()[1]
        if d == 0 and v in (',', ')'): return ('meta',)
        d += (v == '(') - (v == ')'); ts.nxt()

# ---------------------------------------------------------------- CFG / loops
class CFG:
    def __init__(self, f):
        self.f = f; self.succ = {}; self.pred = {b: [] for b in f.order}
        for b in f.order:
            t = f.blocks[b][-1]; s = []
            if t.op == 'br': s = list(t.a) if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[1]] + [x[1] for x in t.a[2]]
            self.succ[b] = s
            for x in s: self.pred[x].append(b)
        ent = f.order[0]
        # reachable
        seen = [ent]; st = [ent]; S = {ent}
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in S: S.add(y); st.append(y)
        self.reach = S
        dom = {b: (set(S) if b != ent else {ent}) for b in S}
        ch = True
        order = [b for b in f.order if b in S]
        while ch:
            ch = False
            for b in order:
                if b == ent: continue
                ps = [dom[p] for p in self.pred[b] if p in S]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]: dom[b] = d; ch = True
        self.dom = dom; self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [p for p in self.pred[x] if p in S]
        # irreducible check: every retreating edge must be a back edge
        self.irreducible = False
        color = {}
        stack = [(ent, iter(self.succ[ent]))]; color[ent] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                c = color.get(y, 0)
                if c == 0:
                    color[y] = 1; stack.append((y, iter(self.succ[y]))); break
                if c == 1 and y not in dom[x]: self.irreducible = True
            else:
                color[x] = 2; stack.pop()
