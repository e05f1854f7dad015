"""Symbolic values and memory: linear offsets, functional arrays, typed regions."""
import z3
from . import ir
z3.set_param('rewriter.bv_le2extract', False)

class Unsupported(Exception):
    pass
class Dead(Exception):
    """raised when a path is infeasible"""

M64 = (1 << 64) - 1
_bvs = {}
def BV(v, w=64):
    k = (v & ((1 << w) - 1), w)
    r = _bvs.get(k)
    if r is None: r = _bvs[k] = z3.BitVecVal(k[0], w)
    return r
def isnum(t): return z3.is_bv_value(t)
_cnt = [0]
def fresh(name, w=64):
    _cnt[0] += 1
    return z3.BitVec('%s!%d' % (name, _cnt[0]), w)
def freshb(name):
    _cnt[0] += 1
    return z3.Bool('%s!%d' % (name, _cnt[0]))
def freshn():
    _cnt[0] += 1
    return _cnt[0]
_keep = []
_simpc = {}
def simp(t):
    k = t.get_id()
    r = _simpc.get(k)
    if r is None:
        r = z3.simplify(t)
        _simpc[k] = r; _keep.append(t)
    return r
def clear_caches():
    _simpc.clear(); _keep.clear(); Arr.cache.clear()

class Lin:
    """const + sum coeff*term over BV64"""
    __slots__ = ('c', 't', '_term')
    def __init__(self, c=0, t=None): self.c = c & M64; self.t = t or {}; self._term = None
    @staticmethod
    def of(x):
        if isinstance(x, int): return Lin(x)
        if isnum(x): return Lin(x.as_long())
        return _lin(simp(x))
    def add(self, o):
        t = dict(self.t)
        for k, (a, n) in o.t.items():
            if k in t:
                m = (t[k][1] + n) & M64
                if m: t[k] = (a, m)
                else: del t[k]
            else: t[k] = (a, n)
        return Lin(self.c + o.c, t)
    def mul(self, n):
        n &= M64
        if n == 0: return Lin(0)
        return Lin(self.c * n, {k: (a, m * n & M64) for k, (a, m) in self.t.items() if m * n & M64})
    def sub(self, o): return self.add(o.mul(-1))
    def isconst(self): return not self.t
    def term(self):
        if self._term is None:
            r = None
            for a, n in self.t.values():
                if n == 1: x = a
                elif n == M64: x = -a
                else: x = a * BV(n)
                r = x if r is None else r + x
            if r is None: r = BV(self.c)
            elif self.c: r = r + BV(self.c)
            self._term = simp(r)
        return self._term
    def divmod(self, s):
        """split as s*q + r with constant 0<=r<s when all coefficients are divisible by s (signed view); else None"""
        if s == 1: return self, 0
        q = {}
        for k, (a, n) in self.t.items():
            sn = n - (1 << 64) if n >> 63 else n
            if sn % s: return None
            q[k] = (a, (sn // s) & M64)
        sc = self.c - (1 << 64) if self.c >> 63 else self.c
        return Lin(sc // s, q), sc % s
    def __repr__(self): return str(self.term())

def _lin(x):
    if isnum(x): return Lin(x.as_long())
    k = x.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin(0)
        for a in x.children(): r = r.add(_lin(a))
        return r
    if k == z3.Z3_OP_BMUL and x.num_args() == 2 and isnum(x.arg(0)):
        return _lin(x.arg(1)).mul(x.arg(0).as_long())
    if k == z3.Z3_OP_BMUL and x.num_args() == 2 and isnum(x.arg(1)):
        return _lin(x.arg(0)).mul(x.arg(1).as_long())
    if k == z3.Z3_OP_BNEG: return _lin(x.arg(0)).mul(-1)
    if k == z3.Z3_OP_BSUB and x.num_args() == 2: return _lin(x.arg(0)).sub(_lin(x.arg(1)))
    if k == z3.Z3_OP_BSHL and isnum(x.arg(1)) and x.arg(1).as_long() < 64:
        return _lin(x.arg(0)).mul(1 << x.arg(1).as_long())
    if k == z3.Z3_OP_CONCAT:
        # low constant zeros: concat(extract(h..0,x), 0..0) == x << n
        ch = x.children()
        if len(ch) == 2 and isnum(ch[1]) and ch[1].as_long() == 0:
            n = ch[1].size(); hi = ch[0]
            if z3.is_app(hi) and hi.decl().kind() == z3.Z3_OP_EXTRACT:
                h, l = hi.params()
                if l == 0 and h == 63 - n and hi.arg(0).size() == 64:
                    return _lin(simp(hi.arg(0))).mul(1 << n)
        if len(ch) >= 2 and isnum(ch[-1]) and ch[-1].as_long() == 0:
            n = ch[-1].size(); hi = simp(z3.Concat(*([BV(0, n)] + ch[:-1]))) if len(ch) > 2 or True else None
            if hi.size() == 64 and not (hi.decl().kind() == z3.Z3_OP_CONCAT and isnum(hi.children()[-1]) and hi.children()[-1].as_long() == 0):
                # valid only if the n high bits are zero in hi (they are: zero-extended by n)
                return Lin(0, {hi.get_id(): (hi, 1 << n)})
    _keep.append(x)
    return Lin(0, {x.get_id(): (x, 1)})

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o if isinstance(o, Lin) else Lin.of(o)
    def add(self, lin): return Ptr(self.r, self.o.add(lin))
    def __repr__(self): return 'Ptr(%s+%s)' % (self.r, self.o)
NULL = Ptr(None, Lin(0))

class FV:
    """double: either bits (BV64 term) or an expression tree over integer leaves"""
    __slots__ = ('op', 'a')
    def __init__(self, op, *a): self.op = op; self.a = a
    def __repr__(self): return 'FV(%s,%s)' % (self.op, self.a)

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n

# ------------------------------------------------------------------ functional arrays
class Arr:
    """idx (BV64) -> BVw.  kinds: base(decl), const(val), table(list), store, copy, fill, fn"""
    __slots__ = ('k', 'w', 'a', 'label', 'id')
    cache = {}
    n = 0
    def __init__(self, k, w, label, *a):
        self.k, self.w, self.a, self.label = k, w, a, label
        Arr.n += 1; self.id = Arr.n
    @staticmethod
    def base(label, w):
        d = z3.Function('%s!%d' % (label, freshn()), z3.BitVecSort(64), z3.BitVecSort(w))
        LABELS[d.get_id()] = label; _decls.append(d)
        return Arr('base', w, label, d)
    @staticmethod
    def const(label, w, v=0): return Arr('const', w, label, BV(v, w) if isinstance(v, int) else v)
    @staticmethod
    def table(label, w, vals): return Arr('table', w, label, vals)
    def store(self, i, v):
        i = simp(i)
        if self.k == 'store' or self.k == 'wstore' and self.a[2] < 16:
            # adjacent stores become one range
            start = self.a[1]; vals = [self.a[2]] if self.k == 'store' else self.a[3]; n = len(vals)
            d = simp(i - start)
            if isnum(d) and d.as_long() == n: return Arr('wstore', self.w, self.label, self.a[0], start, n + 1, vals + [v])
        return Arr('store', self.w, self.label, self, i, v)
    def copy(self, lo, n, src, slo): return Arr('copy', self.w, self.label, self, simp(lo), simp(n), src, simp(slo))
    def fill(self, lo, n, v): return Arr('fill', self.w, self.label, self, simp(lo), simp(n), v)
    def read(self, i):
        i = simp(i)
        key = (self.id, i.get_id())
        r = Arr.cache.get(key)
        if r is not None: return r[0]
        r = self._read(i)
        Arr.cache[key] = (r, i, self)
        return r
    def _read(self, i):
        node = self; conds = []   # iterative unwinding of store layers
        res = None
        while True:
            k = node.k
            if k == 'store':
                _, j, v = node.a[0], node.a[1], node.a[2]
                d = simp(i - j)
                if isnum(d):
                    if d.as_long() == 0: res = v; break
                    node = node.a[0]; continue
                conds.append((i == j, v)); node = node.a[0]
                continue
            if k == 'wstore':
                start, n, vals = node.a[1], node.a[2], node.a[3]
                d = simp(i - start)
                if isnum(d):
                    if d.as_long() < n: res = vals[d.as_long()]; break
                    node = node.a[0]; continue
                sel = vals[-1]
                for x in range(n - 2, -1, -1): sel = z3.If(d == BV(x), vals[x], sel)
                conds.append((z3.ULT(d, BV(n)), sel)); node = node.a[0]
                continue
            if k == 'fill':
                c = simp(z3.ULT(i - node.a[1], node.a[2]))
                if z3.is_true(c): res = node.a[3]; break
                if not z3.is_false(c): conds.append((c, node.a[3]))
                node = node.a[0]; continue
            if k == 'copy':
                c = simp(z3.ULT(i - node.a[1], node.a[2]))
                if z3.is_false(c): node = node.a[0]; continue
                sv = node.a[3].read(i - node.a[1] + node.a[4])
                if z3.is_true(c): res = sv; break
                conds.append((c, sv)); node = node.a[0]; continue
            if k == 'base': res = node.a[0](i); break
            if k == 'const': res = node.a[0]; break
            if k == 'ite':
                c, x, y = node.a
                res = z3.If(c, x.read(i), y.read(i)); break
            if k == 'table':
                vals = node.a[0]
                if isnum(i):
                    n = i.as_long(); res = BV(vals[n], node.w) if n < len(vals) else BV(0, node.w); break
                if len(vals) > 300: raise Unsupported('symbolic read of large table')
                res = BV(vals[-1] if vals else 0, node.w)
                for n in range(len(vals) - 2, -1, -1): res = z3.If(i == BV(n), BV(vals[n], node.w), res)
                break
            raise Unsupported('arr kind ' + k)
        for c, v in reversed(conds): res = z3.If(c, v, res)
        return res
LABELS = {}
_decls = []

# ------------------------------------------------------------------ regions
class Seg:
    __slots__ = ('start', 'stride', 'w', 'arrs', 'scal', 'tys')
    # w: off -> width bits; tys: off -> ir.Ty ; scal: off->Value (scalar segment, one instance) ; arrs: off -> Arr
    def __init__(self, start, stride, tys, arrs=None, scal=None):
        self.start, self.stride, self.tys = start, stride, tys
        self.arrs, self.scal = arrs, scal
    def clone(self):
        return Seg(self.start, self.stride, self.tys, dict(self.arrs) if self.arrs is not None else None,
                   dict(self.scal) if self.scal is not None else None)

class RegState:
    __slots__ = ('size', 'alive', 'segs', 'zero', 'const', 'kind', 'label', 'nul')
    def __init__(self, size, kind, label, segs=None, zero=False, const=False):
        self.size = size          # Lin, in bytes
        self.alive = True; self.kind = kind; self.label = label
        self.segs = segs          # None: untyped yet
        self.zero = zero; self.const = const; self.nul = ()
    def clone(self):
        r = RegState(self.size, self.kind, self.label, [s.clone() for s in self.segs] if self.segs is not None else None, self.zero, self.const)
        r.alive = self.alive; r.nul = self.nul
        return r

def width(t):
    if t.k == 'int': return max(8, t.n)
    if t.k == 'ptr' or t.k == 'double': return 64
    if t.k == 'float': return 32
    raise Unsupported('width of %r' % t)
