"""Contract layer: symbolic pre-states, running the real function, postconditions."""
import z3, time, os, sys
from . import ir, build
from .mem import *
from .core import Engine, State, All, Obl, simp, tobool
from .ir import INT, PTR

REG = []      # registered contracts
class Contract:
    def __init__(self, props, name, fn, src, flags, opts): self.props, self.name, self.fn, self.src, self.flags, self.opts = props, name, fn, src, flags, opts
def contract(props, src, name=None, flags=(), **opts):
    if isinstance(props, str): props = (props,)
    def d(f):
        REG.append(Contract(props, name or f.__name__, f, src, tuple(flags), opts)); return f
    return d

class EnumStop(Exception): pass
class Out:
    def __init__(self, st, ret): self.st, self.ret = st, ret
class Obj:
    """a C struct instance"""
    def __init__(self, ptr, sname): self.ptr, self.sname = ptr, sname

class Ctx:
    concrete = False
    def __init__(self, con, mod, prefix=(), mode='prove', eng_opts=None):
        self.con, self.mod, self.prefix = con, mod, list(prefix)
        self.ci = 0; self.pending = []; self.taken = []
        o = dict(con.opts); o.update(eng_opts or {})
        self.eng = Engine(mod, mode, **o); self.st = State(); self.inputs = []; self.names = set(); self.small = mode == 'bmc'
        self.covers = 0; self.nens = 0; self.labels = {}
        self.eng.opt.setdefault('tmo', 60000)
    # --- nondeterministic case split
    def choose(self, name, opts):
        opts = list(opts)
        if self.ci < len(self.prefix): v = self.prefix[self.ci]
        else:
            v = 0
            for k in range(1, len(opts)): self.pending.append(self.taken + [k])
        self.ci += 1; self.taken.append(v); self.labels[name] = opts[v]
        return opts[v]
    # --- inputs
    def bv(self, name, w=64):
        assert name not in self.names, name
        self.names.add(name); t = z3.BitVec('in.' + name, w); self.inputs.append(('bv', name, t)); return t
    def boolean(self, name):
        return self.bv(name, 8)
    def opaque(self, name):
        """an unconstrained pointer value that is never dereferenced"""
        return Ptr(None, Lin.of(self.bv(name, 64)))
    def bytes(self, name, size, kind='heap', nul=None, init=None, typ=None, zero=False):
        """byte block of `size` (term or int); nul: index of a known terminator"""
        if isinstance(size, int): size = BV(size)
        rid = name
        if init is not None: arr = Arr.table(name, 8, list(init))
        elif zero: arr = Arr.const(name, 8, 0)
        else:
            arr = Arr.base(name, 8)
            self.inputs.append(('bytes', name, size, arr))
        rs = RegState(Lin.of(size), kind, name, [Seg(0, 1, {0: INT(8)}, {0: arr})])
        if nul is not None: rs.nul = ((0, simp(nul)),)
        self.st.mem[rid] = rs
        if kind == 'heap' or kind == 'ext': self.assume(z3.ULE(size, BV(MAXSZ)))
        return Ptr(rid, Lin(0))
    def cstr(self, name, ln, extra=None, kind='ext'):
        """NUL-terminated string of length ln (term); block is exactly ln+1 bytes unless extra"""
        size = simp(ln + 1) if extra is None else extra
        p = self.bytes(name, size, kind, nul=ln)
        self.assume(z3.ULT(ln, BV(MAXSZ)))
        arr = self.arr(self.st, p)
        self.assume(arr.read(ln) == BV(0, 8))
        self.assume(All((name,), lambda q: z3.Implies(z3.ULT(q, ln), arr.read(q) != BV(0, 8)), 'cstr', rng=ln))
        return p
    def fmt(self, name):
        """caller-supplied format and arguments, standing for arbitrary text of arbitrary length -> (fmt pointer, args, length, bytes)"""
        L = self.bv(name + '.len'); self.assume(z3.ULE(L, BV((1 << 31) - 1)))
        arr = Arr.base(name, 8); self.inputs.append(('bytes', name, L, arr))
        f, a = self.opaque(name + '.fmt'), self.opaque(name + '.arg')
        self.eng.opt['vsn'] = (L, arr, f, [a])
        return f, [a], L, arr
    def array(self, name, ty, count, kind='heap', head=0):
        """array of `count` elements of IR type ty; head: elements before index 0 of the returned pointer"""
        if isinstance(ty, str): ty = self.mod.struct(ty)
        n = self.mod.size(ty)
        if isinstance(count, int): count = BV(count)
        seg = self.eng.mkseg(ty, 0, False, name)
        self.st.mem[name] = RegState(Lin.of(count).add(Lin(head)).mul(n), kind, name, [seg])
        self.inputs.append(('array', name, simp(count + BV(head)), seg, ty))
        return Ptr(name, Lin(head * n))
    def struct(self, name, sname, fields=None, kind='ext'):
        ty = self.mod.struct(sname)
        self.st.mem[name] = RegState(Lin(self.mod.size(ty)), kind, name, self.eng.structsegs(ty, name))
        self.inputs.append(('struct', name, sname))
        o = Obj(Ptr(name, Lin(0)), sname)
        for k, v in (fields or {}).items(): self.setf(self.st, o, k, v)
        return o
    def off(self, sname, f): return self.mod.members[sname][f]
    def fty(self, sname, f):
        off, sz = self.off(sname, f)
        for o, t in self.mod.flat(self.mod.struct(sname)):
            if o == off and self.mod.size(t) == sz: return t
        raise Unsupported('field %s.%s' % (sname, f))
    def setf(self, st, o, f, v):
        ty = self.fty(o.sname, f); q = self.eng.quiet; self.eng.quiet = 1
        self.eng.rawstore(st, o.ptr.add(Lin(self.off(o.sname, f)[0])), v, ty); self.eng.quiet = q
    def getf(self, st, o, f):
        ty = self.fty(o.sname, f)
        return self.eng.rawload(st, st.mem[o.ptr.r], o.ptr.add(Lin(self.off(o.sname, f)[0])), ty)
    def arr(self, st, p, fo=0):
        """functional array behind pointer p (index 0 = region start)"""
        rs = st.mem[p.r]
        if rs.segs is None: self.eng.settype(st, p.r, INT(8)); rs = st.mem[p.r]
        for s in rs.segs:
            if s.arrs is not None: return s.arrs[fo]
        raise Unsupported('no array in %s' % p.r)
    def size(self, st, p): return st.mem[p.r].size.term()
    # --- logic
    def assume(self, f, st=None):
        self.eng.addhyp(st or self.st, f)
    def ensure(self, out, name, goal):
        self.nens += 1
        st = out.st if isinstance(out, Out) else out
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.eng.oblige(st, goal, 'post', name, line=0, assume=False)
    def lemma(self, out, name, goal):
        """prove then use"""
        st = out.st if isinstance(out, Out) else out
        self.nens += 1
        self.eng.oblige(st, goal, 'lemma', name, line=0, assume=True)
    def use(self, out, f):
        self.eng.addhyp(out.st if isinstance(out, Out) else out, f)
    def hint(self, out, label, *ts):
        st = out.st if isinstance(out, Out) else out
        for t in ts: st.hints.append((label, t if not isinstance(t, int) else BV(t)))
    def forall(self, label, body, rng=None): return All((label,), body, '', rng)
    def forall2(self, l1, l2, body): return All((l1, l2), body)
    # --- run
    enum = False
    def run(self, fn, args, st=None):
        if self.enum: raise EnumStop()
        st = (st or self.st).clone()
        if not self.eng.feasible(st, z3.BoolVal(True)):
            self.eng.obls.append(Obl(name='precondition is satisfiable', kind='vacuity', fn=fn, line=0, status='failed', time=0))
            return []
        av = [a.ptr if isinstance(a, Obj) else a for a in args]
        self.target = fn
        f = self.mod.funcs.get('@' + fn)
        if f is None: raise Unsupported('function %s not found' % fn)
        saved = self.eng.contracts.pop('@' + fn, None)
        # width adaptation
        res = self.eng.run(st, f, av, 0)
        if saved is not None: self.eng.contracts['@' + fn] = saved
        self.eng.curfn = fn
        outs = []
        for s, r in res:
            outs.append(Out(s, r))
        if res: self.covers += 1
        return outs
    # --- counterexample
    def failure(self, o):
        """solver counterexample of a failed obligation as concrete inputs"""
        eng = self.eng
        fs = eng.cefs(o.st, o.goal)
        sizes = [i[2] for i in self.inputs if i[0] in ('bytes', 'array')]
        sizes = [x for x in sizes if not isnum(x)]
        ints = [i[2] for i in self.inputs if i[0] == 'bv' and i[2].size() == 64]
        for extra in ([z3.ULE(x, BV(40)) for x in ints] + [z3.ULE(x, BV(64)) for x in sizes], [z3.ULE(x, BV(300)) for x in sizes], [z3.ULE(x, BV(1 << 20)) for x in sizes]):
            s = z3.Solver(); s.set('timeout', 8000)
            for f in fs + extra: s.add(f)
            if s.check() == z3.sat: break
        else: return dict(obligation=o.name, kind=o.kind, prefix=self.taken, data=None)
        m = s.model(); ev = lambda t: m.eval(t, model_completion=True).as_long()
        d = dict(prefix=list(self.taken), bv={}, bytes={}, arrays={}, structs={}, segs={}, plan=[])
        for i in self.inputs:
            if i[0] == 'bv': d['bv'][i[1]] = ev(i[2])
            elif i[0] == 'bytes':
                n = min(ev(i[2]), 1 << 16); d['bytes'][i[1]] = [ev(i[3].read(BV(k))) for k in range(n)]
            elif i[0] == 'array':
                n = min(ev(i[2]), 1 << 12); d['arrays'][i[1]] = {str(fo): [ev(a.read(BV(k))) for k in range(n)] for fo, a in i[3].arrs.items()}
        names = {}
        for dd in m.decls():
            nm = dd.name()
            if dd.arity() == 0 and '!' in nm: names.setdefault(nm[:nm.rindex('!')], dd)
        for i in self.inputs:
            if i[0] == 'struct':
                t = {}
                for off, ty in self.mod.flat(self.mod.struct(i[2])):
                    dd = names.get('%s.%d' % (i[1], off))
                    if dd is not None and z3.is_bv_value(m[dd]): t[str(off)] = (m[dd].size(), m[dd].as_long())
                d['structs'][i[1]] = t
        for t in o.st.trace:
            if t[0] == 'alloc': d['plan'].append(0 if t[1] is None else 1)
            elif t[0] == 'realloc': d['plan'].append(1)
            elif t[0] == 'vsn': d.setdefault('vsn', []).append(t[1])
        return dict(obligation=o.name, kind=o.kind, prefix=self.taken, data=d)
MAXSZ = 1 << 62

def cases(con):
    """the case prefixes of a contract chosen before its first run"""
    mod = build.module(con.src, con.flags); work = [[]]; out = []
    while work:
        c = Ctx(con, mod, work.pop(), 'prove', None); c.enum = True; c.eng.quiet = 1
        try: con.fn(c)
        except EnumStop: pass
        except Exception: pass
        out.append(c.taken); work += c.pending
        clear_caches()
    return out

def run_case(con, mod, prefix, mode='prove', eng_opts=None):
    c = Ctx(con, mod, prefix, mode, eng_opts)
    try:
        con.fn(c)
    except Dead:
        pass
    return c

def run_contract(con, mode='prove', eng_opts=None, deadline=None):
    """all cases of one contract -> dict"""
    t0 = time.time(); mod = build.module(con.src, con.flags)
    work = [[]]; obls = []; ncase = 0; errs = []; tm = 0; nq = 0; inl = set(); used = set(); loops = []; inc = 0; ctxs = []
    covers = 0
    while work:
        pre = work.pop()
        ncase += 1
        eo = dict(eng_opts or {})
        c = None
        try:
            c = Ctx(con, mod, pre, mode, eo); c.eng.deadline = deadline
            try: con.fn(c)
            except Dead: pass
        except (Unsupported, ir.IRError, KeyError, AttributeError, z3.Z3Exception, RecursionError, IndexError, TypeError, AssertionError) as e:
            import traceback
            errs.append('%s: %s' % (type(e).__name__, e))
            if os.environ.get('VF_DEBUG'): traceback.print_exc()
        work += c.pending
        for o in c.eng.obls:
            obls.append(o); o.extra = (dict(c.labels), pre)
        tm += c.eng.solver_time; nq += c.eng.nq; inl |= c.eng.inlined; used |= c.eng.used; loops += c.eng.loop_info; inc += len(c.eng.incomplete)
        covers += c.covers
        if mode == 'bmc' or any(o.status != 'proved' for o in c.eng.obls): ctxs.append(c)
        clear_caches()
    return dict(con=con, obls=obls, cases=ncase, errs=errs, solver=tm, queries=nq, inlined=sorted(inl), used=sorted(used), loops=loops, wall=time.time() - t0, incomplete=inc, ctxs=ctxs, covers=covers)
