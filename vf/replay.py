"""Re-runs a contract concretely: the real compiled function on the solver's input, the same postconditions evaluated on the outcome."""
import sys, os, json, ctypes, subprocess, tempfile, importlib, traceback, z3
from . import contract, build, mem, core, ir
from .mem import *
from .core import All, Engine, State, simp
from .contract import Ctx, Out, Obj
CC = '/usr/bin/gcc'
class BadInput(Exception): pass
class Violated(Exception): pass
SHIM = ['-Dmalloc=vf_malloc', '-Dcalloc=vf_calloc', '-Drealloc=vf_realloc', '-Dfree=vf_free', '-Dvsnprintf=vf_vsnprintf']

def buildso(con, td, ubsan):
    so = os.path.join(td, 'm.so')
    fl = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero', '-fsanitize-undefined-trap-on-error'] if ubsan else []
    o1 = os.path.join(td, 'm.o'); o2 = os.path.join(td, 's.o')
    src = build.path(con.src)
    cmds = [[CC, '-c', '-fPIC', '-O1', '-g', '-w', '-D_GNU_SOURCE'] + fl + SHIM + build.incs() + list(con.flags) + [src, '-o', o1],
            [CC, '-c', '-fPIC', '-O1', os.path.join(build.VERIF, 'native', 'shim.c'), '-o', o2],
            [CC, '-shared', o1, o2, '-o', so, '-lpthread', '-lm']]
    for c in cmds:
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode: raise RuntimeError('replay build: ' + r.stderr[:500])
    return so

class ConcEngine(Engine):
    def __init__(self, mod, **o): super().__init__(mod, 'concrete', **o); self.raw = {}; self.iv = []
    def basevar(self, rid):
        b = self.bases.get(rid)
        if b is None: raise Unsupported('address of %s' % rid)
        return b
    def resolve(self, st, p):
        if isinstance(p, core.FnPtr) or p.r is not None: return p
        if p.o.isconst() and p.o.c:
            best = None
            for rid, a, n in self.iv:
                if a <= p.o.c <= a + n and (best is None or p.o.c < a + n): best = (rid, a)
            if best: return Ptr(best[0], Lin(p.o.c - best[1]))
        return p
    def settype(self, st, rid, ty):
        super().settype(st, rid, ty)
        if rid in self.raw: self.fill(st.mem[rid], self.raw[rid])
    def fill(self, rs, raw):
        for s in rs.segs:
            if s.scal is not None:
                for o, t in s.tys.items():
                    if o == '__len': continue
                    n = self.mod.size(t)
                    if o + n <= len(raw): s.scal[o] = self.frombits(BV(int.from_bytes(raw[o:o+n], 'little'), 8 * n), t)
            else:
                L = s.tys.get('__len'); end = s.start + L if L else len(raw); cnt = max(0, (min(end, len(raw)) - s.start) // s.stride)
                for o, a in list(s.arrs.items()):
                    if o == '__len': continue
                    n = a.w // 8
                    s.arrs[o] = Tab(a.label, a.w, [int.from_bytes(raw[s.start + i * s.stride + o: s.start + i * s.stride + o + n], 'little') for i in range(cnt)])
    def prove(self, st, goal, name='', ms=None, want_model=False): raise Unsupported('prove in replay')
    def feasible(self, st, c): return not z3.is_false(simp(c))
class _Tab(Arr): pass
def Tab(label, w, vals):
    a = Arr('table', w, label, vals); a.__class__ = BigTab; return a
class BigTab(Arr):
    __slots__ = ()
    def _read(self, i):
        i = simp(i)
        if isnum(i):
            v = self.a[0]; n = i.as_long(); return BV(v[n], self.w) if n < len(v) else BV(0, self.w)
        raise Unsupported('symbolic read in replay')

class RCtx(Ctx):
    concrete = True
    def __init__(self, con, mod, lib, data, front):
        self.con, self.mod, self.prefix = con, mod, list(data['prefix'])
        self.ci = 0; self.pending = []; self.taken = []; self.labels = {}
        o = dict(con.opts); self.eng = ConcEngine(mod, **o); self.st = State(); self.inputs = []; self.names = set(); self.small = False
        self.covers = 0; self.nens = 0; self.lib = lib; self.d = data; self.front = front; self.viol = []; self.nrun = 0; self.maxn = 16
        lib.vf_block.restype = ctypes.c_void_p; lib.vf_block.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
        self.plan = bytes(data.get('plan', [])); self.planbuf = ctypes.create_string_buffer(self.plan + b'\1' * 16)
        self.vsn = ctypes.create_string_buffer(bytes(data.get('vsn', [])) + b'\1' * 16); lib.vf_setvsn(self.vsn, len(data.get('vsn', [])))
        lib.vf_reset(self.planbuf, len(self.plan), front)
    def bv(self, name, w=64):
        self.names.add(name); return BV(int(self.d['bv'].get(name, 0)), w)
    def place(self, rid, size):
        if size > (1 << 24): raise BadInput('size')
        a = self.lib.vf_block(size, 1 if size % 8 else 8); self.eng.bases[rid] = BV(a); self.eng.iv.append((rid, a, size)); return a
    def num(self, t):
        t = simp(t) if not isinstance(t, int) else BV(t)
        if not isnum(t): raise Unsupported('not concrete')
        return t.as_long()
    def bytes(self, name, size, kind='heap', nul=None, init=None, typ=None, zero=False):
        n = self.num(size); raw = bytes(self.d['bytes'].get(name, []))[:n]
        if init is not None: raw = bytes(init)
        if zero: raw = b''
        raw = raw + b'\0' * (n - len(raw)); self.maxn = max(self.maxn, n)
        self.place(name, n)
        self.st.mem[name] = RegState(Lin(n), kind, name, [Seg(0, 1, {0: INT8}, {0: Tab(name, 8, list(raw))})])
        return Ptr(name, Lin(0))
    def array(self, name, ty, count, kind='heap', head=0):
        if isinstance(ty, str): ty = self.mod.struct(ty)
        n = self.mod.size(ty); cnt = self.num(count) + head; self.maxn = max(self.maxn, cnt)
        self.place(name, n * cnt)
        rs = RegState(Lin(n * cnt), kind, name, [self.eng.mkseg(ty, 0, False, name)]); self.st.mem[name] = rs
        vals = self.d['arrays'].get(name, {})
        for o, a in list(rs.segs[0].arrs.items()):
            v = [self.trans(x) for x in vals.get(str(o), [])][:cnt]; rs.segs[0].arrs[o] = Tab(a.label, a.w, v + [0] * (cnt - len(v)))
        return Ptr(name, Lin(head * n))
    def fmt(self, name):
        L = int(self.d['bv'].get(name + '.len', 0)); raw = bytes(self.d['bytes'].get(name, []))[:L]; raw = (raw + b'x' * (L - len(raw))).replace(b'\0', b'x')
        f = self.bytes(name + '.fmt', 3, 'ext', init=b'%s\0'); a = self.bytes(name + '.arg', L + 1, 'ext', init=raw + b'\0')
        self.maxn = max(self.maxn, L + 1)
        return f, [a], BV(L), Tab(name, 8, list(raw))
    def trans(self, x): return x
    def struct(self, name, sname, fields=None, kind='ext'):
        ty = self.mod.struct(sname); n = self.mod.size(ty)
        self.place(name, n); rs = RegState(Lin(n), kind, name, self.eng.structsegs(ty, name)); self.st.mem[name] = rs
        raw = bytearray(n)
        for off, (w, v) in self.d['structs'].get(name, {}).items():
            off = int(off); k = w // 8; raw[off:off + k] = int(v).to_bytes(k, 'little')
        for off, vals in self.d.get('segs', {}).get(name, {}).items():
            off = int(off); raw[off:off + len(vals)] = bytes(vals)
        self.eng.fill(rs, bytes(raw[:n]))
        o = Obj(Ptr(name, Lin(0)), sname)
        for k, v in (fields or {}).items(): self.setf(self.st, o, k, v)
        return o
    def cstr(self, name, ln, extra=None, kind='ext'): return super().cstr(name, ln, extra, kind)
    def ev(self, f):
        """True / False / None (undetermined)"""
        if isinstance(f, bool): return f
        if isinstance(f, (list, tuple)):
            r = [self.ev(x) for x in f]
            return False if False in r else (None if None in r else True)
        if isinstance(f, All):
            k = len(f.labels); N = min(self.maxn + 2, 3000 if k == 1 else (60 if k == 2 else 16)); res = True
            import itertools
            for tup in itertools.product(range(N), repeat=k):
                v = self.ev(f.body(*[BV(x) for x in tup]))
                if v is False: return False
                if v is None: res = None
            return res
        f = simp(f)
        return True if z3.is_true(f) else False if z3.is_false(f) else None
    def assume(self, f, st=None):
        if self.nrun: return
        if self.ev(f) is False: raise BadInput('precondition')
    def ensure(self, out, name, goal):
        try: v = self.ev(goal)
        except Unsupported: return
        if v is False: self.viol.append(name)
    lemma = ensure
    def use(self, out, f): pass
    def hint(self, out, label, *ts): pass
    def rawof(self, rid, rs):
        n = rs.size.c; raw = bytearray(n)
        for s in rs.segs:
            if s.scal is not None:
                for o, t in s.tys.items():
                    if o in s.scal:
                        b = simp(self.eng.tobits(s.scal[o])); k = self.mod.size(t)
                        if isnum(b): raw[o:o+k] = (b.as_long() & ((1 << 8*k) - 1)).to_bytes(k, 'little')
            else:
                L = s.tys.get('__len'); end = s.start + L if L else n; cnt = (end - s.start) // s.stride
                for o, a in s.arrs.items():
                    k = a.w // 8
                    for i in range(cnt):
                        b = simp(a.read(BV(i))); v = b.as_long() if isnum(b) else 0
                        p = s.start + i * s.stride + o; raw[p:p+k] = v.to_bytes(k, 'little')
        return bytes(raw)
    def run(self, fn, args, st=None):
        self.nrun += 1
        pre = st or self.st; lib = self.lib
        f = self.mod.funcs['@' + fn]
        adr = {r: a for r, a, n in self.eng.iv}
        for rid, rs in pre.mem.items():
            if rid in adr and rs.segs is not None:
                raw = self.rawof(rid, rs); ctypes.memmove(adr[rid], raw, len(raw))
        def ct(t):
            if t.k == 'ptr': return ctypes.c_void_p
            if t.k == 'double': return ctypes.c_double
            if t.k == 'int': return {1: ctypes.c_uint8, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[t.n]
            raise Unsupported('ctype %s' % t.k)
        F = getattr(lib, fn); cargs = []
        for i, a in enumerate(args):
            t = f.params[i][0] if i < len(f.params) else None
            if isinstance(a, Obj): a = a.ptr
            if isinstance(a, Ptr):
                v = simp(self.eng.addr(a)).as_long(); cargs.append(ctypes.c_void_p(v))
            elif isinstance(a, FV):
                import struct
                cargs.append(ctypes.c_double(struct.unpack('<d', struct.pack('<Q', simp(a.a[0]).as_long()))[0]))
            elif isinstance(a, core.FnPtr): raise Unsupported('callback')
            else:
                if isinstance(a, bool): a = z3.BoolVal(a)
                v = (1 if z3.is_true(simp(a)) else 0) if z3.is_bool(a) else self.num(a)
                cargs.append((ct(t) if t is not None else ctypes.c_uint64)(v))
        F.restype = ct(f.ret) if f.ret.k != 'void' else None
        n0 = lib.vf_count(); sys.stdout.flush(); print('CALL', flush=True)
        r = F(*cargs)
        print('RETURNED', flush=True)
        out = State(); out.trace = [('vsn', x) for x in self.d.get('vsn', [])]; i64 = ctypes.c_uint64
        if lib.vf_errs(): self.viol.append('invalid free or realloc')
        alive = {}
        for i in range(lib.vf_count()):
            a, s, al = i64(), i64(), ctypes.c_int(); lib.vf_info(i, ctypes.byref(a), ctypes.byref(s), ctypes.byref(al)); alive[a.value] = (i, s.value, al.value)
            if i >= n0:
                rid = 'heap#%d' % i; self.eng.bases[rid] = BV(a.value)
                if al.value: self.eng.iv.append((rid, a.value, s.value))
                out.mem[rid] = RegState(Lin(s.value), 'heap', 'heap'); out.mem[rid].alive = bool(al.value)
                if al.value: self.eng.raw[rid] = ctypes.string_at(a.value, s.value)
        for rid, rs in pre.mem.items():
            if rid not in adr: continue
            n = RegState(rs.size, rs.kind, rs.label); out.mem[rid] = n; _, _, al = alive.get(adr[rid], (0, 0, 1)); n.alive = bool(al)
            n.segs = [s.clone() for s in rs.segs] if rs.segs is not None else None
            if n.alive:
                raw = ctypes.string_at(adr[rid], rs.size.c); self.eng.raw[rid] = raw
                if n.segs is not None: self.eng.fill(n, raw)
        if f.ret.k == 'void': rv = None
        elif f.ret.k == 'ptr': rv = self.eng.resolve(None, Ptr(None, Lin(r or 0)))
        elif f.ret.k == 'double':
            import struct
            rv = FV('bits', BV(struct.unpack('<Q', struct.pack('<d', r))[0]))
        elif f.ret.n == 1: rv = z3.BoolVal(bool(r & 1))
        else: rv = BV(r, f.ret.n)
        self.nextpre = out
        return [Out(out, rv)]
INT8 = ir.INT(8)

def child(path):
    d = json.load(open(path)); sys.setrecursionlimit(20000)
    from . import runner
    runner.load()
    con = next(c for c in contract.REG if c.name == d['contract'])
    mod = build.module(con.src, con.flags)
    lib = ctypes.CDLL(d['so'])
    c = RCtx(con, mod, lib, d['data'], d['front'])
    try: con.fn(c)
    except BadInput as e: print('BADINPUT', e); return
    except (mem.Unsupported, mem.Dead) as e:
        print('UNSUPPORTED', e)
        if not c.viol: return
    print('VIOLATED ' + json.dumps(c.viol) if c.viol else 'HOLDS', flush=True)
    os._exit(0)

def replay(con, data, kinds=()):
    """-> (outcome, detail) outcome in violated/holds/bad/unsupported"""
    if con.opts.get('replay') is False: return ('unsupported', '')
    last = ('unsupported', '')
    with tempfile.TemporaryDirectory(prefix='vfr') as td:
        for ub in ([True, False] if 'arithmetic' in kinds else [False]):
            try: so = buildso(con, td, ub)
            except RuntimeError as e: return ('unsupported', str(e))
            for front in (0, 1):
                p = os.path.join(td, 'in.json'); json.dump(dict(contract=con.name, so=so, data=data, front=front), open(p, 'w'))
                try: r = subprocess.run([sys.executable, '-m', 'vf.replay', p], cwd=build.VERIF, capture_output=True, text=True, timeout=60)
                except subprocess.TimeoutExpired as e:
                    if 'CALL' in str(e.stdout) and 'RETURNED' not in str(e.stdout): return ('violated', 'the call does not return within 60 s')
                    continue
                o = r.stdout
                if 'VIOLATED' in o: return ('violated', o[o.index('VIOLATED') + 9:].strip())
                if r.returncode < 0 and 'CALL' in o and o.count('CALL') > o.count('RETURNED'):
                    return ('violated', 'the call crashes with signal %d (%s)' % (-r.returncode, 'undefined arithmetic' if ub else 'access outside the given memory or assertion'))
                if 'HOLDS' in o: last = ('holds', '')
                elif 'BADINPUT' in o: last = ('bad', '')
                else: last = ('unsupported', (o + r.stderr)[-300:])
    return last
if __name__ == '__main__': child(sys.argv[1])
