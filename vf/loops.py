"""Loop cutting: modified-set discovery, candidate invariants (generic and contract-supplied), Houdini filtering, termination measures."""
import z3, itertools, math, os, time
from .mem import *
from . import mem as _mem
from .core import All, BV, simp

class LoopInfo:
    """what candidate generators see"""
    def __init__(self, eng, fr, header):
        self.eng = eng; self.fn = fr.fn.name[1:]; self.header = header; self.frame = fr
        self.vars = []      # keys: ('phi', name) or (rid, si, fo)
        self.arrs = []      # (rid, si, fo) of modified arrays
        self.ghosts = []
        self.bounds = []    # loop-invariant terms compared against inside the loop (BV)
    def ints(self, ws=(32, 64)):
        return [k for k in self.vars if self.kind[k] == 'int' and self.width[k] in ws]
    def ptrs(self):
        return [k for k in self.vars if self.kind[k] == 'ptr']

class View:
    """a state at the loop header: V.cur(key), V.ent(key), V.st, V.st0"""
    def __init__(self, L, st, env, st0, env0):
        self.L, self.st, self.env, self.st0, self.env0 = L, st, env, st0, env0
    def _get(self, st, env, k):
        if k[0] == 'phi': return env[k[1]]
        s = st.mem[k[0]].segs[k[1]]
        return s.scal[k[2]]
    def cur(self, k): return self._get(self.st, self.env, k)
    def ent(self, k): return self._get(self.st0, self.env0, k)
    def arr(self, k): return self.st.mem[k[0]].segs[k[1]].arrs[k[2]]
    def arr0(self, k): return self.st0.mem[k[0]].segs[k[1]].arrs[k[2]]
    def u64(self, k, entry=False):
        v = self.ent(k) if entry else self.cur(k)
        if isinstance(v, Ptr): return v.o.term()
        if z3.is_bool(v): return z3.If(v, BV(1), BV(0))
        if v.size() == 64: return v
        return simp(z3.ZeroExt(64 - v.size(), v))
    def s64(self, k, entry=False):
        v = self.ent(k) if entry else self.cur(k)
        if isinstance(v, Ptr): return v.o.term()
        if v.size() == 64: return v
        return simp(z3.SignExt(64 - v.size(), v))
    def idx(self, k, entry=False):
        """index (BV64) denoted by an int var, or element index of a pointer var inside its region"""
        v = self.ent(k) if entry else self.cur(k)
        if isinstance(v, Ptr):
            if v.r is None: return None
            rs = self.st.mem.get(v.r)
            if rs is None or rs.segs is None: return v.o.term()
            for s in rs.segs:
                if s.arrs is not None:
                    q = Lin(v.o.c - s.start, v.o.t).divmod(s.stride)
                    if q is not None: return q[0].term()
            return v.o.term()
        return self.u64(k, entry)

def loopvar_kind(v):
    if isinstance(v, Ptr): return 'ptr'
    if isinstance(v, FnPtr): return 'fn'
    if isinstance(v, FV): return 'fp'
    if z3.is_bool(v): return 'bool'
    return 'int'

def hasnew(t, n0, memo):
    """does the term mention a symbol created after counter n0"""
    k = t.get_id()
    if k in memo: return memo[k]
    r = False
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name(); i = nm.rfind('!')
            if i >= 0:
                try:
                    if int(nm[i+1:]) > n0: r = True
                except ValueError: pass
        if not r:
            for c in t.children():
                if hasnew(c, n0, memo): r = True; break
    memo[k] = r; _keepm.append(t)
    return r
_keepm = []

def do_loop(eng, fr, st0, env0, prev, header):
    body = fr.cfg.loops[header]; blk = fr.fn.blocks[header]
    phis = []
    for I in blk:
        if I.op != 'phi': break
        phis.append(I)
    n0 = _mem._cnt[0]
    env_e = dict(env0)
    for I in phis:
        for v, b in I.a:
            if b == prev: env_e[I.res] = eng.val(st0, env0, v, I.ty); break
        else: raise Unsupported('phi')
    hk = eng.opt.get('onloop')
    if hk: hk(eng, st0, env_e, fr, header)
    nphi = len(phis)
    eng.loops_seen += 1
    lname = '%s:%s' % (fr.fn.name[1:], _line(blk))
    # ---- modified-set discovery
    mod = set(); alts = {}; syms = {}
    for I in phis:
        v = env_e[I.res]
        if isinstance(v, Ptr): alts[('phi', I.res)] = [shape(v)]
    def granule(rid, ent):
        rs = st0.mem.get(rid)
        if rs is None or rs.segs is None: return 1
        gs = [s.stride for s in rs.segs if s.arrs is not None]
        if not gs: return 1
        if len(gs) == 1: return gs[0]
        for s in rs.segs:
            if s.arrs is not None and ent is not None and ent.o.c >= s.start and (not s.tys.get('__len') or ent.o.c < s.start + s.tys['__len']): return s.stride
        return min(gs)
    def sym(key, w, tag=''):
        k = (key, tag, w)
        if k not in syms: syms[k] = fresh('lv', w) if w else freshb('lv')
        return syms[k]
    def havocval(key, ent, alt):
        if isinstance(ent, Ptr) or alt is not None:
            if alt[0] == 'null': return NULL
            if alt[0] == 'opaque': return Ptr(None, Lin.of(sym(key, 64, 'op')))
            rid = alt[1]
            same = isinstance(ent, Ptr) and ent.r == rid
            g = granule(rid, ent if same else None)
            base = ent.o if same else Lin(0)
            return Ptr(rid, base.add(Lin.of(sym(key, 64, 'p' + rid)).mul(g)))
        if isinstance(ent, FV): return FV('bits', sym(key, 64, 'f'))
        if isinstance(ent, FnPtr): return ent
        if z3.is_bool(ent): return sym(key, 0, 'b')
        if isinstance(ent, Agg): raise Unsupported('aggregate loop variable')
        return sym(key, ent.size())
    arrsyms = {}
    def havoc():
        """-> list of (state, env)"""
        pk = [k for k in alts if k[0] == 'phi' or k in mod]
        out = []
        combos = itertools.product(*[alts[k] for k in pk])
        for combo in combos:
            ch = dict(zip(pk, combo))
            st = st0.clone(); env = dict(env_e)
            for I in phis:
                key = ('phi', I.res); env[I.res] = havocval(key, env_e[I.res], ch.get(key))
            for key in mod:
                if key[1] == 'ghost':
                    g = st0.ghost.get(key[2])
                    if g is not None and z3.is_expr(g): st.ghost[key[2]] = sym(key, g.size()) if z3.is_bv(g) else sym(key, 0, 'gb')
                    continue
                rid, si, fo = key
                if rid not in st0.mem: continue
                if st0.mem[rid].segs is None: raise Unsupported('untyped region modified in loop')
                if st.mem[rid] is st0.mem[rid]: st.mem[rid] = st0.mem[rid].clone()
                s = st.mem[rid].segs[si]
                if s.scal is not None:
                    ent = s.scal.get(fo)
                    if ent is None: ent = eng.freshval(s.tys[fo], 'u')
                    s.scal[fo] = havocval(key, ent, ch.get(key))
                else:
                    if key not in arrsyms: arrsyms[key] = Arr.base(s.arrs[fo].label, s.arrs[fo].w)
                    s.arrs[fo] = arrsyms[key]
            out.append((st, env))
        return out
    eng.quiet += 1
    cmps = []
    try:
        for it in range(10):
            log = set(); eng.writelogs.append(log); cl = []; eng.cmplogs.append(cl)
            newalt = False
            try:
                for hs, he in havoc():
                    out = eng.blocks(fr, [(hs, he, header, prev, nphi)], body, header) if nphi or True else None
                    for (bs, be, src) in out['backs']:
                        for I in phis:
                            key = ('phi', I.res); v = inval(eng, bs, be, I, src)
                            if isinstance(v, Ptr):
                                sh = shape(eng.resolve(bs, v))
                                if sh not in alts.setdefault(key, []): alts[key].append(sh); newalt = True
                        for key in set(log) | mod:
                            if key[1] == 'ghost' or key[0] not in st0.mem: continue
                            s = bs.mem[key[0]].segs[key[1]] if bs.mem[key[0]].segs else None
                            if s is not None and s.scal is not None and isinstance(s.scal.get(key[2]), Ptr):
                                sh = shape(eng.resolve(bs, s.scal[key[2]])); lst = alts.setdefault(key, [])
                                e = st0.mem[key[0]].segs[key[1]].scal.get(key[2])
                                if isinstance(e, Ptr) and shape(eng.resolve(st0, e)) not in lst: lst.append(shape(eng.resolve(st0, e))); newalt = True
                                if sh not in lst: lst.append(sh); newalt = True
                        for rid, rs in bs.mem.items():
                            if rid not in st0.mem:
                                if rs.alive and rs.kind == 'heap': raise Unsupported('allocation that outlives an iteration in loop %s' % lname)
                            elif rs.alive != st0.mem[rid].alive: raise Unsupported('release inside loop %s' % lname)
                        for gk in [k for k in st0.ghost if k not in bs.ghost]:
                            del st0.ghost[gk]; newalt = True
                        for gk, gv in bs.ghost.items():
                            ov = st0.ghost.get(gk)
                            if ov is None: continue
                            if gv is not ov and not (z3.is_expr(gv) and z3.is_expr(ov) and gv.eq(ov)): log.add((None, 'ghost', gk))
                    # writes on exit paths are not part of the loop effect but over-approximating is sound
            finally:
                eng.writelogs.pop(); eng.cmplogs.pop()
            log = {k for k in log if k[1] == 'ghost' or k[0] in st0.mem}
            cmps = cl
            if log <= mod and not newalt: break
            mod |= log
        else: raise Unsupported('modified set does not stabilise')
    finally:
        eng.quiet -= 1
    for key in mod: eng.log(key)     # the loop's effect belongs to enclosing loops too
    # ---- loop info
    L = LoopInfo(eng, fr, header); L.kind = {}; L.width = {}
    L.scrambled = set()      # loop variables updated by multiplication or xor: no ordering candidates
    defs = {I.res: I for b in body for I in fr.fn.blocks[b] if I.res}
    for I in phis:
        for v, b in I.a:
            if b in body and v[0] == 'reg' and v[1] in defs and defs[v[1]].op in ('mul', 'xor'): L.scrambled.add(('phi', I.res))
    def addvar(k, v):
        L.vars.append(k); L.kind[k] = loopvar_kind(v); L.width[k] = v.size() if L.kind[k] == 'int' else 0
    for I in phis: addvar(('phi', I.res), env_e[I.res])
    for key in sorted(mod, key=str):
        if key[1] == 'ghost': L.ghosts.append(key[2]); continue
        s = st0.mem[key[0]].segs[key[1]]
        if s.scal is not None:
            if key[2] not in s.scal:
                r2 = st0.mem[key[0]].clone(); st0.mem[key[0]] = r2; r2.segs[key[1]].scal[key[2]] = eng.freshval(s.tys[key[2]], 'u')
                s = r2.segs[key[1]]
            addvar(key, s.scal[key[2]])
        else: L.arrs.append(key)
    memo = {}; bset = {}
    pbounds = {}
    for a, b in cmps:
        for x in (a, b):
            if isinstance(x, Ptr):
                t = x.o.term()
                if not hasnew(t, n0, memo): pbounds.setdefault(x.r, {})[t.get_id()] = t
            elif not z3.is_bool(x) and not hasnew(x, n0, memo): bset[x.get_id()] = x
    L.bounds = list(bset.values())[:8]; L.pbounds = {r: list(d.values())[:6] for r, d in pbounds.items()}
    L.mod = mod; L.st0 = st0; L.env0 = env_e
    # ---- candidates
    cands = []
    for gen in eng.loop_cands:
        try: cands += list(gen(L) or [])
        except Unsupported: pass
    ncon = len(cands)
    cands += auto(eng, L)
    def evalc(c, V):
        try: return c[1](V)
        except (KeyError, AttributeError, z3.Z3Exception, TypeError) as e:
            if os.environ.get('VF_CDEBUG'): print('cand', c[0], repr(e)[:200])
            return z3.BoolVal(False)
    Ve = View(L, st0, env_e, st0, env_e)
    live = []
    ms = eng.opt.get('cand_ms', 8000)
    dbg = os.environ.get('VF_CDEBUG')
    for c in cands:
        f = evalc(c, Ve)
        if f is None: continue
        r = eng.prove(st0, f, c[0], ms)[0]
        if r == 'proved': live.append(c)
        elif dbg: print('   init drops', c[0])
    rounds = 0
    while True:
        rounds += 1
        dropped = []
        Hs = havoc(); backs = []
        eng.quiet += 1
        try:
            for hs, he in Hs:
                V = View(L, hs, he, st0, env_e)
                try:
                    for c in live: eng.addhyp(hs, evalc(c, V))
                except Dead: continue
                if not eng.feasible(hs, z3.BoolVal(True)): continue
                out = eng.blocks(fr, [(hs, he, header, prev, nphi)], body, header)
                for (bs, be, src) in out['backs']:
                    be = dict(be); vals = [(I.res, inval(eng, bs, be, I, src)) for I in phis]
                    for r, v in vals: be[r] = v
                    backs.append((bs, be))
            for (bs, be) in backs:
                if not eng.feasible(bs, z3.BoolVal(True)): continue
                V = View(L, bs, be, st0, env_e)
                if ptrs_match(eng, phis, bs, be, alts) is False: raise Unsupported('pointer shape')
                for c in live:
                    if c in dropped: continue
                    r = eng.prove(bs, evalc(c, V), c[0], ms)[0]
                    if r != 'proved':
                        dropped.append(c)
                        if dbg: print('   back drops', c[0], r)
        finally:
            eng.quiet -= 1
        if not dropped: break
        live = [c for c in live if c not in dropped]
    # ---- final pass: obligations inside the body, exits, termination
    exits = []; allbacks = []
    for hs, he in havoc():
        V = View(L, hs, he, st0, env_e)
        try:
            for c in live: eng.addhyp(hs, evalc(c, V))
        except Dead: continue
        if not eng.feasible(hs, z3.BoolVal(True)): continue
        h_st = hs.clone(); h_env = dict(he)
        out = eng.blocks(fr, [(hs, he, header, prev, nphi)], body, header)
        exits += out['exits']
        for (bs, be, src) in out['backs']:
            be = dict(be); vals = [(I.res, inval(eng, bs, be, I, src)) for I in phis]
            for r, v in vals: be[r] = v
            allbacks.append((h_st, h_env, bs, be))
    term = None
    if eng.opt['term'] and allbacks and not eng.quiet:
        ok = False
        meas = []
        for gen in eng.opt.get('measures', ()): meas += list(gen(L) or [])
        meas += automeas(L)
        for nm, m in meas:
            good = True
            for (h_st, h_env, bs, be) in allbacks:
                Vh = View(L, h_st, h_env, st0, env_e); Vb = View(L, bs, be, st0, env_e)
                try: a = m(Vh); b = m(Vb)
                except Exception: good = False; break
                if a is None or b is None: good = False; break
                if not isinstance(a, tuple): a, b = (a,), (b,)
                g = z3.BoolVal(False); eq = z3.BoolVal(True)
                for x, y in zip(a, b): g = z3.Or(g, z3.And(eq, z3.ULT(y, x))); eq = z3.And(eq, x == y)
                if eng.prove(bs, g, 'measure', 4000)[0] != 'proved': good = False; break
            if good: ok = True; term = nm; break
        from .core import Obl
        eng.obls.append(Obl(name='loop terminates', kind='termination', fn=fr.fn.name[1:], line=_line(blk), status='proved' if ok else 'failed', time=0))
    if not eng.quiet:
        eng.loop_info.append(dict(loop=lname, invariants=[c[0] for c in live], candidates=len(cands), contract_candidates=ncon, rounds=rounds, measure=term))
    return [(s, e, tgt, pv) for (s, e, tgt, pv) in exits]

def inval(eng, st, env, I, src):
    for v, b in I.a:
        if b == src: return eng.val(st, env, v, I.ty)
    raise Unsupported('phi')

def shape(p):
    if not isinstance(p, Ptr): return ('opaque',)
    if p.r is not None: return ('reg', p.r)
    if p.o.isconst() and p.o.c == 0: return ('null',)
    return ('opaque',)
def ptrs_match(eng, phis, bs, be, alts):
    for I in phis:
        v = be[I.res]
        if isinstance(v, Ptr) and shape(eng.resolve(bs, v)) not in alts.get(('phi', I.res), []): return False
    return True

def _line(blk):
    for I in blk:
        if I.line: return I.line
    return 0

def auto(eng, L):
    out = []
    add = lambda n, f: out.append((n, f))
    for k in L.vars:
        kd = L.kind[k]; n = '%s' % (k[-1],)
        if k in L.scrambled: continue
        if kd == 'int':
            add('%s>=u entry' % n, lambda V, k=k: z3.UGE(V.cur(k), V.ent(k)))
            add('%s<=u entry' % n, lambda V, k=k: z3.ULE(V.cur(k), V.ent(k)))
            add('%s>=s entry' % n, lambda V, k=k: V.cur(k) >= V.ent(k))
            add('%s<=s entry' % n, lambda V, k=k: V.cur(k) <= V.ent(k))
            add('%s>=s 0' % n, lambda V, k=k: V.cur(k) >= 0)
            for b in L.bounds:
                if b.size() == L.width[k]:
                    add('%s<=u %s' % (n, sh(b)), lambda V, k=k, b=b: z3.ULE(V.cur(k), b))
                    if isnum(b): continue
                    add('%s<=s %s' % (n, sh(b)), lambda V, k=k, b=b: V.cur(k) <= b)
                    add('%s>=u %s' % (n, sh(b)), lambda V, k=k, b=b: z3.UGE(V.cur(k), b))
                elif b.size() == 64 and L.width[k] < 64:
                    add('%s<=u %s' % (n, sh(b)), lambda V, k=k, b=b: z3.ULE(V.u64(k), b))
        elif kd == 'ptr':
            def rel(V, k, f):
                c, e = V.cur(k), V.ent(k)
                if c.r is None or c.r != e.r: return z3.BoolVal(True) if c.r is None else z3.BoolVal(False)
                return f(c.o.term(), e.o.term())
            add('%s>=entry' % n, lambda V, k=k: rel(V, k, lambda c, e: z3.UGE(c, e)))
            add('%s<=entry' % n, lambda V, k=k: rel(V, k, lambda c, e: z3.ULE(c, e)))
            def inb(V, k=k):
                c = V.cur(k)
                if c.r is None: return z3.BoolVal(True)
                return z3.ULE(c.o.term(), V.st.mem[c.r].size.term())
            add('%s in region' % n, inb)
            for r, bs in L.pbounds.items():
                for b in bs:
                    add('%s<=%s' % (n, sh(b)), lambda V, k=k, b=b, r=r: z3.ULE(V.cur(k).o.term(), b) if V.cur(k).r == r else z3.BoolVal(True))
        elif kd == 'bool':
            pass
    # linear relations between pairs of counters
    vs = [k for k in L.vars if L.kind[k] in ('int', 'ptr') and k not in L.scrambled][:6]
    for a, b in itertools.combinations(vs, 2):
        def dl(V, k):
            if L.kind[k] == 'ptr':
                c, e = V.cur(k), V.ent(k)
                if c.r is None or c.r != e.r: return None
                return c.o.sub(e.o).term()
            return V.u64(k) - V.u64(k, True)
        def pair(V, a, b, s):
            x, y = dl(V, a), dl(V, b)
            if x is None or y is None: return None
            return x == s * y
        add('%s-%s const' % (a[-1], b[-1]), lambda V, a=a, b=b: pair(V, a, b, 1))
        add('%s+%s const' % (a[-1], b[-1]), lambda V, a=a, b=b: pair(V, a, b, -1))
    # array frames
    for ak in L.arrs:
        if ak[0] in (L.eng.opt.get('noframes') or (lambda st: ()))(L.st0): continue
        def frame(V, ak, cond):
            a, a0 = V.arr(ak), V.arr0(ak)
            return All((a.label,), lambda q, a=a, a0=a0, cond=cond: z3.Implies(cond(q), a.read(q) == a0.read(q)))
        for k in vs:
            def c1(V, ak=ak, k=k):
                i = V.idx(k)
                return frame(V, ak, lambda q: z3.UGE(q, i)) if i is not None else None
            def c2(V, ak=ak, k=k):
                e = V.idx(k, True)
                return frame(V, ak, lambda q: z3.ULT(q, e)) if e is not None else None
            def c3(V, ak=ak, k=k):
                e = V.idx(k, True)
                return frame(V, ak, lambda q: z3.UGT(q, e)) if e is not None else None
            def c4(V, ak=ak, k=k):
                e = V.idx(k)
                return frame(V, ak, lambda q: z3.ULT(q, e)) if e is not None else None
            add('%s same from %s' % (ak, k[-1]), c1); add('%s same below entry %s' % (ak, k[-1]), c2)
            add('%s same above entry %s' % (ak, k[-1]), c3); add('%s same below %s' % (ak, k[-1]), c4)
        add('%s same' % (ak,), lambda V, ak=ak: frame(V, ak, lambda q: z3.BoolVal(True)))
    return out

def sh(b):
    s = str(b).replace('\n', ' '); return s if len(s) < 40 else s[:37] + '...'

def automeas(L):
    out = []
    for k in L.vars:
        kd = L.kind[k]
        if k in L.scrambled: continue
        if kd == 'int':
            for b in L.bounds:
                if b.size() == L.width[k]:
                    out.append(('%s-%s' % (sh(b), k[-1]), lambda V, k=k, b=b: b - V.cur(k)))
                    out.append(('%s-%s' % (k[-1], sh(b)), lambda V, k=k, b=b: V.cur(k) - b))
                elif b.size() == 64:
                    out.append(('%s-%s' % (sh(b), k[-1]), lambda V, k=k, b=b: b - V.u64(k)))
                    out.append(('%s-%s' % (sh(b), k[-1]), lambda V, k=k, b=b: b - V.s64(k)))
            out.append(('%s' % k[-1], lambda V, k=k: V.cur(k)))
            out.append(('-%s' % k[-1], lambda V, k=k: ~V.cur(k)))
        elif kd == 'ptr':
            for r, bs in L.pbounds.items():
                for b in bs: out.append(('%s-%s' % (sh(b), k[-1]), lambda V, k=k, b=b: b - V.cur(k).o.term() if V.cur(k).r is not None else None))
                for b in bs: out.append(('%s-%s' % (k[-1], sh(b)), lambda V, k=k, b=b: V.cur(k).o.term() - b if V.cur(k).r is not None else None))
            out.append(('room after %s' % k[-1], lambda V, k=k: V.st.mem[V.cur(k).r].size.term() - V.cur(k).o.term() if V.cur(k).r is not None else None))
            out.append(('room before %s' % k[-1], lambda V, k=k: V.cur(k).o.term() if V.cur(k).r is not None else None))
    return out
