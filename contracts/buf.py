"""Contracts for buffer/sc_buf.c"""
import z3
from vf.contract import contract, Obj, Out
from vf.mem import *
from vf.core import All, simp
SRC = 'buffer/sc_buf.c'
U64 = (1 << 64) - 1
BUFMAX = U64 - 4096
LIM = 1 << 60

class B:
    """abstract state of a buffer in one program state"""
    def __init__(self, c, st, o):
        self.c, self.st, self.o = c, st, o
        g = lambda f: c.getf(st, o, f)
        self.mem = g('mem'); self.cap = g('cap'); self.limit = g('limit'); self.rpos = g('rpos'); self.wpos = g('wpos'); self.err = g('err'); self.ref = g('ref')
    def byte(self, i):
        if self.mem.r is None: return BV(0, 8)
        m = self.c.arr(self.st, self.mem)
        return m.read(simp(self.mem.o.term() + i))
    def wf(self):
        """representation invariant: cursors ordered inside the capacity, capacity inside the block"""
        c = [z3.ULE(self.rpos, self.wpos), z3.ULE(self.wpos, self.cap)]
        if self.mem.r is None: c.append(self.cap == 0); return z3.And(*c)
        rs = self.st.mem[self.mem.r]
        c.append(z3.BoolVal(rs.alive)); c.append(self.mem.o.term() == 0)
        c.append(z3.ULE(self.cap, rs.size.term()))
        if isnum(self.ref) and self.ref.as_long() == 0: c.append(z3.BoolVal(rs.kind == 'heap'))
        return z3.And(*c)
    def same(self, p, fields):
        c = []
        for f in fields.split():
            a, b = getattr(self, f), getattr(p, f)
            if isinstance(a, Ptr): c.append(z3.BoolVal(a.r == b.r) if (a.r or b.r) else z3.BoolVal(True))
            else: c.append(a == b)
        return z3.And(*c)
    def bytes_same(self, p, cond=None, lab='bmem'):
        """every byte of p's block (or those selected) is unchanged"""
        if p.mem.r is None: return z3.BoolVal(True)
        if self.mem.r is None: return z3.BoolVal(False)
        a, b = self.c.arr(self.st, self.mem), p.c.arr(p.st, p.mem)
        cap = p.cap
        def body(q):
            g = z3.ULT(q, cap)
            if cond is not None: g = z3.And(g, cond(q))
            return z3.Implies(g, a.read(q) == b.read(q))
        return All((lab,), body, rng=cap)

def mkbuf(c, name='b', lab='bmem', kinds=('heap', 'ref', 'null'), err0=None):
    kind = c.choose(name + '.kind', kinds)
    cap = c.bv(name + '.cap'); rpos = c.bv(name + '.rpos'); wpos = c.bv(name + '.wpos'); lim = c.bv(name + '.limit'); err = c.bv(name + '.err', 32)
    c.assume(z3.And(z3.ULE(rpos, wpos), z3.ULE(wpos, cap), z3.ULE(cap, BV(LIM))))
    # error flag values that the library can set
    c.assume(z3.Or(err == 0, err == 1, err == 3))
    if err0: c.assume(err == 0)
    if kind == 'null':
        c.assume(cap == 0); mem = NULL
    else:
        if kind == 'heap': c.assume(cap != 0)
        mem = c.bytes(lab, cap, 'heap' if kind == 'heap' else 'ext')
    o = c.struct(name, 'sc_buf', dict(mem=mem, cap=cap, limit=lim, rpos=rpos, wpos=wpos, err=err, ref=BV(1 if kind == 'ref' else 0, 8)))
    if kind != 'ref': c.assume(z3.BoolVal(True))
    return o

W = {8: 1, 16: 2, 32: 4, 64: 8}
def fits(pos, n, lim):
    """pos+n <= lim over the integers"""
    return z3.And(z3.ULE(n, lim), z3.ULE(pos, lim - n))
def le(b, pos, n):
    bs = [b.byte(pos + BV(i)) for i in range(n)]
    return bs[0] if n == 1 else z3.Concat(*reversed(bs))
def bytesof(v, n): return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]
CORRUPT = 1
OOM = 3
def isset(err, bit): return (err & BV(bit, 32)) == BV(bit, 32)

# ---------------------------------------------------------------- peek / get
def mk_peek(n, at):
    w = W[n]
    @contract(('C01', 'C02'), SRC, name='peek_%d%s' % (n, '_at' if at else ''))
    def f(c):
        o = mkbuf(c); p = B(c, c.st, o)
        pos = c.bv('pos') if at else p.rpos
        for out in c.run('sc_buf_peek_%d%s' % (n, '_at' if at else ''), [o] + ([pos] if at else [])):
            b = B(c, out.st, o)
            ok = z3.And(p.err == 0, fits(pos, BV(w), p.wpos))
            c.ensure(out, 'in range: value is the little-endian bytes at pos', z3.Implies(ok, out.ret == le(p, pos, w)))
            c.ensure(out, 'in range: no error', z3.Implies(ok, b.err == p.err))
            c.ensure(out, 'out of range or failed: zero and error set', z3.Implies(z3.Not(ok), z3.And(out.ret == 0, b.err != 0, isset(b.err, CORRUPT))))
            c.ensure(out, 'cursors, capacity and block unchanged', b.same(p, 'mem cap limit rpos wpos ref'))
            c.ensure(out, 'bytes unchanged', b.bytes_same(p))
def mk_get(n):
    w = W[n]
    @contract(('C01', 'C02'), SRC, name='get_%d' % n)
    def f(c):
        o = mkbuf(c); p = B(c, c.st, o)
        for out in c.run('sc_buf_get_%d' % n, [o]):
            b = B(c, out.st, o)
            ok = z3.And(p.err == 0, fits(p.rpos, BV(w), p.wpos))
            c.ensure(out, 'value read back, cursor advanced', z3.Implies(ok, z3.And(out.ret == le(p, p.rpos, w), b.rpos == p.rpos + w, b.err == p.err)))
            c.ensure(out, 'failure: zero, error, cursor kept', z3.Implies(z3.Not(ok), z3.And(out.ret == 0, isset(b.err, CORRUPT), b.rpos == p.rpos)))
            c.ensure(out, 'rest unchanged', b.same(p, 'mem cap limit wpos ref')); c.ensure(out, 'bytes unchanged', b.bytes_same(p)); c.ensure(out, 'invariant', b.wf())
def mk_set(n, at):
    w = W[n]
    @contract(('C01', 'C02'), SRC, name='set_%d%s' % (n, '_at' if at else ''))
    def f(c):
        o = mkbuf(c); p = B(c, c.st, o)
        pos = c.bv('pos') if at else p.wpos
        v = c.bv('val', n)
        for out in c.run('sc_buf_set_%d%s' % (n, '_at' if at else ''), [o] + ([pos] if at else []) + [v]):
            b = B(c, out.st, o)
            ok = z3.And(p.err == 0, fits(pos, BV(w), p.cap))
            c.ensure(out, 'in range: little-endian bytes stored', z3.Implies(ok, z3.And(le(b, pos, w) == v, b.err == p.err)))
            c.ensure(out, 'in range: other bytes unchanged', b.bytes_same(p, lambda q: z3.Or(z3.Not(ok), z3.UGE(q - pos, BV(w)))))
            c.ensure(out, 'failure flagged', z3.Implies(z3.Not(ok), isset(b.err, CORRUPT)))
            c.ensure(out, 'cursors unchanged', b.same(p, 'mem cap limit rpos wpos ref'))
def grown(c, out, b, p, need, lab='bmem'):
    """capacity after a write that needed `need` bytes at wpos: unchanged if they fitted, else at least enough and within the limit"""
    fit = fits(p.wpos, need, p.cap)
    c.ensure(out, 'capacity changes only by a growth inside the limit', z3.Or(b.cap == p.cap, z3.And(z3.Not(fit), p.ref == 0, z3.UGT(b.cap, p.cap), z3.ULE(b.cap, p.limit))))
def mk_put(n):
    w = W[n]
    @contract(('C01', 'C03'), SRC, name='put_%d' % n)
    def f(c):
        o = mkbuf(c); p = B(c, c.st, o); v = c.bv('val', n)
        for out in c.run('sc_buf_put_%d' % n, [o, v]):
            put_post(c, out, o, p, w, lambda b: le(b, p.wpos, w) == v)
def put_post(c, out, o, p, w, content):
    b = B(c, out.st, o)
    need = w if not isinstance(w, int) else BV(w)
    adv = b.wpos != p.wpos
    # success: exactly when no error was and is set
    ok = z3.And(p.err == 0, b.err == 0)
    c.ensure(out, 'success: value stored at the write cursor', z3.Implies(ok, z3.And(content(b), b.wpos == p.wpos + need)))
    c.ensure(out, 'failure: cursor kept and flagged', z3.Implies(z3.Not(ok), z3.And(b.wpos == p.wpos, b.err != 0)))
    c.ensure(out, 'succeeds whenever it fits and no error was set', z3.Implies(z3.And(p.err == 0, fits(p.wpos, need, p.cap)), b.err == 0))
    c.ensure(out, 'out of memory is the only reason for failure', z3.Implies(z3.And(p.err == 0, b.err != 0), b.err == OOM))
    c.ensure(out, 'read cursor, limit, ownership unchanged', b.same(p, 'rpos limit ref'))
    c.ensure(out, 'earlier bytes unchanged', b.bytes_same(p, lambda q: z3.Or(z3.ULT(q, p.wpos), z3.UGE(q - p.wpos, need), z3.Not(ok))))
    c.ensure(out, 'invariant', b.wf())
    grown(c, out, b, p, need)
for n in W:
    mk_peek(n, True); mk_peek(n, False); mk_get(n); mk_set(n, True); mk_set(n, False); mk_put(n)

@contract(('C01', 'C02'), SRC)
def get_bool(c):
    o = mkbuf(c); p = B(c, c.st, o)
    for out in c.run('sc_buf_get_bool', [o]):
        b = B(c, out.st, o); ok = z3.And(p.err == 0, fits(p.rpos, BV(1), p.wpos))
        c.ensure(out, 'value read back', z3.Implies(ok, z3.And(out.ret == (le(p, p.rpos, 1) != 0), b.rpos == p.rpos + 1, b.err == 0)))
        c.ensure(out, 'failure', z3.Implies(z3.Not(ok), z3.And(z3.Not(out.ret), b.err != 0, b.rpos == p.rpos)))
        c.ensure(out, 'bytes unchanged', b.bytes_same(p))
@contract(('C01', 'C03'), SRC)
def put_bool(c):
    o = mkbuf(c); p = B(c, c.st, o); v = c.bv('val', 8); c.assume(z3.ULE(v, BV(1, 8)))
    for out in c.run('sc_buf_put_bool', [o, v != 0]):
        put_post(c, out, o, p, 1, lambda b: le(b, p.wpos, 1) == v)
@contract(('C01', 'C02'), SRC)
def get_double(c):
    o = mkbuf(c); p = B(c, c.st, o)
    for out in c.run('sc_buf_get_double', [o]):
        b = B(c, out.st, o); ok = z3.And(p.err == 0, fits(p.rpos, BV(8), p.wpos)); r = c.eng.fbits(out.ret)
        c.ensure(out, 'value read back', z3.Implies(ok, z3.And(r == le(p, p.rpos, 8), b.rpos == p.rpos + 8, b.err == 0)))
        c.ensure(out, 'failure', z3.Implies(z3.Not(ok), z3.And(r == 0, b.err != 0, b.rpos == p.rpos)))
        c.ensure(out, 'bytes unchanged', b.bytes_same(p))
@contract(('C01', 'C03'), SRC)
def put_double(c):
    o = mkbuf(c); p = B(c, c.st, o); v = c.bv('val', 64)
    for out in c.run('sc_buf_put_double', [o, FV('bits', v)]):
        put_post(c, out, o, p, 8, lambda b: le(b, p.wpos, 8) == v)

# ---------------------------------------------------------------- bulk
@contract(('C01', 'C02'), SRC)
def peek_data(c):
    o = mkbuf(c); p = B(c, c.st, o); pos = c.bv('pos'); ln = c.bv('len'); dcap = c.bv('dcap')
    c.assume(z3.ULE(ln, dcap)); d = c.bytes('dst', dcap, 'ext'); d0 = c.arr(c.st, d)
    for out in c.run('sc_buf_peek_data', [o, pos, d, ln]):
        b = B(c, out.st, o); d1 = c.arr(out.st, d); ok = z3.And(p.err == 0, fits(pos, ln, p.wpos))
        c.ensure(out, 'returns length', out.ret == z3.If(ok, ln, BV(0)))
        c.ensure(out, 'in range: bytes copied', All(('dst', 'bmem')[:1], lambda q: z3.Implies(z3.And(ok, z3.ULT(q, ln)), d1.read(q) == p.byte(pos + q)), rng=ln))
        c.ensure(out, 'failure: zeroes', All(('dst',), lambda q: z3.Implies(z3.And(z3.Not(ok), z3.ULT(q, ln)), d1.read(q) == 0), rng=ln))
        c.ensure(out, 'beyond len untouched', All(('dst',), lambda q: z3.Implies(z3.And(z3.ULE(ln, q), z3.ULT(q, dcap)), d1.read(q) == d0.read(q)), rng=dcap))
        c.ensure(out, 'error flag', z3.If(ok, b.err == p.err, isset(b.err, CORRUPT)))
        c.ensure(out, 'buffer unchanged', b.same(p, 'mem cap limit rpos wpos ref')); c.ensure(out, 'bytes unchanged', b.bytes_same(p))
@contract(('C01', 'C02'), SRC)
def get_data(c):
    o = mkbuf(c); p = B(c, c.st, o); ln = c.bv('len'); dcap = c.bv('dcap')
    c.assume(z3.ULE(ln, dcap)); d = c.bytes('dst', dcap, 'ext'); d0 = c.arr(c.st, d)
    for out in c.run('sc_buf_get_data', [o, d, ln]):
        b = B(c, out.st, o); d1 = c.arr(out.st, d); ok = z3.And(p.err == 0, fits(p.rpos, ln, p.wpos))
        c.ensure(out, 'bytes copied, cursor advanced', z3.If(ok, z3.And(b.rpos == p.rpos + ln, b.err == 0), z3.And(b.rpos == p.rpos, b.err != 0)))
        c.ensure(out, 'in range: bytes', All(('dst',), lambda q: z3.Implies(z3.And(ok, z3.ULT(q, ln)), d1.read(q) == p.byte(p.rpos + q)), rng=ln))
        c.ensure(out, 'failure: zeroes', All(('dst',), lambda q: z3.Implies(z3.And(z3.Not(ok), z3.ULT(q, ln)), d1.read(q) == 0), rng=ln))
        c.ensure(out, 'beyond len untouched', All(('dst',), lambda q: z3.Implies(z3.And(z3.ULE(ln, q), z3.ULT(q, dcap)), d1.read(q) == d0.read(q)), rng=dcap))
        c.ensure(out, 'rest unchanged', b.same(p, 'mem cap limit wpos ref')); c.ensure(out, 'bytes unchanged', b.bytes_same(p))
@contract(('C01', 'C02'), SRC)
def set_data(c):
    o = mkbuf(c); p = B(c, c.st, o); pos = c.bv('pos'); ln = c.bv('len'); scap = c.bv('scap')
    c.assume(z3.ULE(ln, scap)); s = c.bytes('src', scap, 'ext'); s0 = c.arr(c.st, s)
    for out in c.run('sc_buf_set_data', [o, pos, s, ln]):
        b = B(c, out.st, o); ok = z3.And(p.err == 0, fits(pos, ln, p.cap))
        c.ensure(out, 'returns length', out.ret == z3.If(ok, ln, BV(0)))
        c.ensure(out, 'in range: bytes stored', All(('src',), lambda q: z3.Implies(z3.And(ok, z3.ULT(q, ln)), b.byte(pos + q) == s0.read(q)), rng=ln))
        c.ensure(out, 'others unchanged', b.bytes_same(p, lambda q: z3.Or(z3.Not(ok), z3.UGE(q - pos, ln))))
        c.ensure(out, 'error flag', z3.If(ok, b.err == p.err, isset(b.err, CORRUPT)))
        c.ensure(out, 'buffer unchanged', b.same(p, 'mem cap limit rpos wpos ref'))
def put_bulk(c, fn, pre, mk):
    pass
@contract(('C01', 'C03'), SRC)
def put_raw(c):
    o = mkbuf(c); p = B(c, c.st, o); ln = c.bv('len'); scap = c.bv('scap')
    c.assume(z3.ULE(ln, scap)); s = c.bytes('src', scap, 'ext'); s0 = c.arr(c.st, s)
    for out in c.run('sc_buf_put_raw', [o, s, ln]):
        put_post(c, out, o, p, ln, lambda b: z3.BoolVal(True)); b = B(c, out.st, o); ok = z3.And(p.err == 0, b.err == 0)
        c.ensure(out, 'bytes stored', All(('src',), lambda q: z3.Implies(z3.And(ok, z3.ULT(q, ln)), b.byte(p.wpos + q) == s0.read(q)), rng=ln))
def prefixed(c, out, o, p, n, s0, tail):
    """[8 byte length][n bytes][tail NUL] at the old write cursor"""
    b = B(c, out.st, o); ok = z3.And(p.err == 0, b.err == 0); tot = n + 8 + tail
    c.ensure(out, 'length prefix', z3.Implies(ok, le(b, p.wpos, 8) == n))
    c.ensure(out, 'content', All(('src',), lambda q: z3.Implies(z3.And(ok, z3.ULT(q, n)), b.byte(p.wpos + 8 + q) == s0.read(q)), rng=n))
    if tail: c.ensure(out, 'terminator', z3.Implies(ok, b.byte(p.wpos + 8 + n) == 0))
    c.ensure(out, 'cursor', z3.Implies(ok, b.wpos == p.wpos + tot))
    c.ensure(out, 'fits: succeeds', z3.Implies(z3.And(p.err == 0, fits(p.wpos, tot, p.cap)), b.err == 0))
    c.ensure(out, 'earlier bytes unchanged', b.bytes_same(p, lambda q: z3.Or(z3.ULT(q, p.wpos), z3.And(z3.UGE(q - p.wpos, tot), z3.UGE(q, p.wpos)))))
    c.ensure(out, 'read cursor unchanged', b.same(p, 'rpos limit ref')); c.ensure(out, 'invariant', b.wf())
    c.ensure(out, 'capacity within limit', z3.Or(b.cap == p.cap, z3.And(p.ref == 0, z3.UGT(b.cap, p.cap), z3.ULE(b.cap, p.limit))))
@contract(('C01', 'C03'), SRC)
def put_blob(c):
    o = mkbuf(c); p = B(c, c.st, o); ln = c.bv('len'); scap = c.bv('scap')
    c.assume(z3.ULE(ln, scap)); s = c.bytes('src', scap, 'ext'); s0 = c.arr(c.st, s)
    for out in c.run('sc_buf_put_blob', [o, s, ln]): prefixed(c, out, o, p, ln, s0, 0)
@contract(('C01', 'C03'), SRC)
def put_str_len(c):
    o = mkbuf(c); p = B(c, c.st, o)
    if c.choose('str', ['null', 'str']) == 'null':
        for out in c.run('sc_buf_put_str_len', [o, NULL, c.bv('len')]): nullstr(c, out, o, p)
        return
    ln = c.bv('len'); scap = c.bv('scap')
    c.assume(z3.ULE(ln, scap)); s = c.bytes('src', scap, 'ext'); s0 = c.arr(c.st, s)
    for out in c.run('sc_buf_put_str_len', [o, s, ln]): prefixed(c, out, o, p, ln, s0, 1)
@contract(('C01', 'C03'), SRC, assumptions=('vsnprintf: writes at most the given size including the terminator, returns the full text length or a negative value; same format and arguments give the same text',))
def put_fmt(c):
    o = mkbuf(c); p = B(c, c.st, o); f, args, n, s0 = c.fmt('src')
    for out in c.run('sc_buf_put_fmt', [o, f] + args):
        b = B(c, out.st, o); ok = z3.And(p.err == 0, b.err == 0); tot = n + 9; fail = any(t == ('vsn', 0) for t in out.st.trace) if hasattr(out.st, 'trace') else False
        c.ensure(out, 'length prefix', z3.Implies(ok, le(b, p.wpos, 8) == n))
        c.ensure(out, 'content', All(('src',), lambda q: z3.Implies(z3.And(ok, z3.ULT(q, n)), b.byte(p.wpos + 8 + q) == s0.read(q)), rng=n))
        c.ensure(out, 'terminator', z3.Implies(ok, b.byte(p.wpos + 8 + n) == 0))
        c.ensure(out, 'cursor', b.wpos == z3.If(ok, p.wpos + tot, p.wpos))
        if not fail: c.ensure(out, 'fits: succeeds', z3.Implies(z3.And(p.err == 0, fits(p.wpos, tot, p.cap)), b.err == 0))
        c.ensure(out, 'earlier bytes unchanged', b.bytes_same(p, lambda q: z3.ULT(q, p.wpos)))
        c.ensure(out, 'read cursor unchanged', b.same(p, 'rpos limit ref')); c.ensure(out, 'invariant', b.wf()); c.ensure(out, 'error flag only grows', (b.err & p.err) == p.err)
        c.ensure(out, 'capacity within limit', z3.Or(b.cap == p.cap, z3.And(p.ref == 0, z3.UGT(b.cap, p.cap), z3.ULE(b.cap, p.limit))))
@contract(('C01', 'C03'), SRC)
def put_text(c):
    o = mkbuf(c); p = B(c, c.st, o); f, args, n, s0 = c.fmt('src')
    # text is appended to text: the last unread byte is the terminator of the earlier text
    off = z3.If(p.wpos == p.rpos, BV(0), BV(1))
    if p.mem.r is not None: c.assume(z3.Implies(p.wpos != p.rpos, p.byte(p.wpos - 1) == 0))
    at = p.wpos - off
    for out in c.run('sc_buf_put_text', [o, f] + args):
        b = B(c, out.st, o); fail = any(t == ('vsn', 0) for t in out.st.trace); done = b.wpos != p.wpos
        ok = z3.And(p.err == 0, b.err == 0)
        c.ensure(out, 'content', All(('src',), lambda q: z3.Implies(z3.And(ok, z3.ULT(q, n)), b.byte(at + q) == s0.read(q)), rng=n))
        c.ensure(out, 'terminator', z3.Implies(ok, b.byte(at + n) == 0))
        c.ensure(out, 'cursor', z3.Implies(p.err == 0, b.wpos == z3.If(ok, at + n + 1, p.wpos)))
        if not fail: c.ensure(out, 'fits: succeeds', z3.Implies(z3.And(p.err == 0, fits(p.wpos, n + 1, p.cap)), b.err == 0))
        c.ensure(out, 'earlier bytes unchanged', b.bytes_same(p, lambda q: z3.ULT(q, at)))
        c.ensure(out, 'failure keeps the unread bytes', b.bytes_same(p, lambda q: z3.And(z3.Not(ok), p.err == 0, z3.ULT(q, p.wpos))))
        c.ensure(out, 'read cursor unchanged', b.same(p, 'rpos limit ref')); c.ensure(out, 'invariant', b.wf()); c.ensure(out, 'error flag only grows', (b.err & p.err) == p.err)
        c.ensure(out, 'capacity within limit', z3.Or(b.cap == p.cap, z3.And(p.ref == 0, z3.UGT(b.cap, p.cap), z3.ULE(b.cap, p.limit))))
def nullstr(c, out, o, p):
    put_post(c, out, o, p, 8, lambda b: le(b, p.wpos, 8) == BV(BUFMAX))
@contract(('C01', 'C03'), SRC)
def put_str(c):
    o = mkbuf(c); p = B(c, c.st, o)
    if c.choose('str', ['null', 'str']) == 'null':
        for out in c.run('sc_buf_put_str', [o, NULL]): nullstr(c, out, o, p)
        return
    ln = c.bv('len'); s = c.cstr('src', ln); s0 = c.arr(c.st, s)
    for out in c.run('sc_buf_put_str', [o, s]): prefixed(c, out, o, p, ln, s0, 1)
@contract(('C01', 'C02'), SRC)
def get_str(c):
    o = mkbuf(c); p = B(c, c.st, o)
    for out in c.run('sc_buf_get_str', [o]):
        b = B(c, out.st, o); n = le(p, p.rpos, 8) if p.mem.r else BV(0)
        hd = z3.And(p.err == 0, fits(p.rpos, BV(8), p.wpos))
        isnul = z3.And(hd, n == BV(BUFMAX))
        ok = z3.And(hd, n != BV(BUFMAX), z3.ULT(n, p.wpos - p.rpos - 8))
        r = out.ret
        if r.r is not None:
            c.ensure(out, 'returns the string in place only when it lies completely inside the readable bytes', z3.And(ok, z3.BoolVal(r.r == p.mem.r), r.o.term() == p.rpos + 8))
            c.ensure(out, 'consumes prefix, content and terminator', z3.And(b.rpos == p.rpos + n + 9, b.err == p.err))
        else:
            c.ensure(out, 'NULL only for stored NULL or corrupt data', z3.And(r.o.term() == 0, z3.Not(ok)))
            c.ensure(out, 'stored NULL: no error', z3.Implies(isnul, z3.And(b.err == p.err, b.rpos == p.rpos + 8)))
            c.ensure(out, 'corrupt: error', z3.Implies(z3.Not(isnul), isset(b.err, CORRUPT)))
        c.ensure(out, 'rest unchanged', b.same(p, 'mem cap limit wpos ref')); c.ensure(out, 'bytes unchanged', b.bytes_same(p)); c.ensure(out, 'invariant', b.wf())
@contract(('C01', 'C02'), SRC)
def get_blob(c):
    o = mkbuf(c); p = B(c, c.st, o); ln = c.bv('len')
    for out in c.run('sc_buf_get_blob', [o, ln]):
        b = B(c, out.st, o); r = out.ret; ok = z3.And(ln != 0, fits(p.rpos, ln, p.wpos))
        if r.r is not None:
            c.ensure(out, 'block lies inside the readable bytes', z3.And(ok, z3.BoolVal(r.r == p.mem.r), r.o.term() == p.rpos, b.rpos == p.rpos + ln, b.err == p.err))
        else:
            c.ensure(out, 'NULL only when empty or too long', z3.And(r.o.term() == 0, z3.Not(ok), b.rpos == p.rpos, z3.Implies(ln != 0, isset(b.err, CORRUPT)), z3.Implies(ln == 0, b.err == p.err)))
        c.ensure(out, 'rest unchanged', b.same(p, 'mem cap limit wpos ref')); c.ensure(out, 'bytes unchanged', b.bytes_same(p))

# ---------------------------------------------------------------- cursors
@contract(('C02', 'C03'), SRC)
def set_rpos(c):
    o = mkbuf(c); p = B(c, c.st, o); pos = c.bv('pos')
    for out in c.run('sc_buf_set_rpos', [o, pos]):
        b = B(c, out.st, o); ok = z3.ULE(pos, p.wpos)
        c.ensure(out, 'moves inside, flags outside', z3.If(ok, z3.And(b.rpos == pos, b.err == p.err), z3.And(b.rpos == p.rpos, isset(b.err, CORRUPT))))
        c.ensure(out, 'rest', b.same(p, 'mem cap limit wpos ref')); c.ensure(out, 'invariant', b.wf()); c.ensure(out, 'bytes', b.bytes_same(p))
@contract(('C02', 'C03'), SRC)
def set_wpos(c):
    o = mkbuf(c); p = B(c, c.st, o); pos = c.bv('pos')
    for out in c.run('sc_buf_set_wpos', [o, pos]):
        b = B(c, out.st, o); ok = z3.ULE(pos, p.cap)
        c.ensure(out, 'moves inside, flags outside', z3.If(ok, z3.And(b.wpos == pos, b.err == p.err), z3.And(b.wpos == p.wpos, isset(b.err, CORRUPT))))
        c.ensure(out, 'rest', b.same(p, 'mem cap limit rpos ref')); c.ensure(out, 'bytes', b.bytes_same(p))
@contract(('C03',), SRC)
def clear(c):
    o = mkbuf(c); p = B(c, c.st, o)
    for out in c.run('sc_buf_clear', [o]):
        b = B(c, out.st, o)
        c.ensure(out, 'empty and valid', z3.And(b.rpos == 0, b.wpos == 0, b.err == 0)); c.ensure(out, 'rest', b.same(p, 'mem cap limit ref'))
@contract(('C03',), SRC)
def accessors(c):
    f = c.choose('fn', ['valid', 'quota', 'size', 'rpos', 'wpos', 'cap', 'rbuf', 'wbuf', 'at', 'limit', 'mark_read', 'mark_write'])
    o = mkbuf(c); p = B(c, c.st, o); n = c.bv('n'); ar = [n] if f in ('at', 'limit', 'mark_read', 'mark_write') else []
    if f == 'at': c.assume(z3.ULE(n, p.cap))
    if f == 'mark_read': c.assume(z3.ULE(n, p.wpos - p.rpos))
    if f == 'mark_write': c.assume(z3.ULE(n, p.cap - p.wpos))
    for out in c.run('sc_buf_' + f, [o] + ar):
        b = B(c, out.st, o); r = out.ret
        isat = lambda pos: z3.And(z3.BoolVal(r.r == p.mem.r), r.o.term() == pos)
        exp = {'valid': lambda: r == (p.err == 0), 'quota': lambda: r == p.cap - p.wpos, 'size': lambda: r == p.wpos - p.rpos, 'rpos': lambda: r == p.rpos, 'wpos': lambda: r == p.wpos,
               'cap': lambda: r == p.cap, 'rbuf': lambda: isat(p.rpos), 'wbuf': lambda: isat(p.wpos), 'at': lambda: isat(n),
               'limit': lambda: b.limit == n, 'mark_read': lambda: b.rpos == p.rpos + n, 'mark_write': lambda: b.wpos == p.wpos + n}[f]()
        c.ensure(out, f, exp)
        keep = 'mem cap limit rpos wpos err ref'.split()
        for k in {'limit': ['limit'], 'mark_read': ['rpos'], 'mark_write': ['wpos']}.get(f, []): keep.remove(k)
        c.ensure(out, 'rest unchanged', b.same(p, ' '.join(keep))); c.ensure(out, 'bytes', b.bytes_same(p)); c.ensure(out, 'invariant', b.wf())

# ---------------------------------------------------------------- growth
@contract(('C03',), SRC)
def reserve(c):
    o = mkbuf(c); p = B(c, c.st, o); ln = c.bv('len')
    for out in c.run('sc_buf_reserve', [o, ln]):
        b = B(c, out.st, o); fit = fits(p.wpos, ln, p.cap)
        c.ensure(out, 'true exactly when the bytes now fit', z3.If(out.ret, fits(b.wpos, ln, b.cap), z3.And(z3.Not(fit), isset(b.err, OOM))))
        c.ensure(out, 'success leaves error flag alone', z3.Implies(out.ret, b.err == p.err))
        c.ensure(out, 'fits: nothing changes', z3.Implies(fit, z3.And(out.ret, b.same(p, 'mem cap'))))
        c.ensure(out, 'growth stays within limit and is never applied to external blocks', z3.Or(b.same(p, 'mem cap'), z3.And(z3.ULE(b.cap, p.limit), p.ref == 0, z3.UGT(b.cap, p.cap), b.cap == c.size(out.st, b.mem) if b.mem.r else z3.BoolVal(False))))
        c.ensure(out, 'failure: block and capacity kept', z3.Implies(z3.Not(out.ret), b.same(p, 'mem cap')))
        c.ensure(out, 'cursors', b.same(p, 'rpos wpos limit ref')); c.ensure(out, 'bytes kept', b.bytes_same(p)); c.ensure(out, 'invariant', b.wf())
        oldgone = p.mem.r is None or b.mem.r == p.mem.r or not out.st.mem[p.mem.r].alive
        c.ensure(out, 'no block leaked', bool(oldgone))
@contract(('C03',), SRC)
def shrink(c):
    o = mkbuf(c, kinds=('heap', 'null', 'ref')); p = B(c, c.st, o); ln = c.bv('len')
    for out in c.run('sc_buf_shrink', [o, ln]):
        b = B(c, out.st, o); n = p.wpos - p.rpos
        c.ensure(out, 'failure is flagged', z3.If(out.ret, b.err == p.err, isset(b.err, OOM)))
        c.ensure(out, 'size kept', z3.And(b.wpos - b.rpos == n, b.same(p, 'limit ref')))
        if p.mem.r is not None: c.ensure(out, 'unread bytes kept', All(('bmem',), lambda q: z3.Implies(z3.ULT(q, n), b.byte(b.rpos + q) == p.byte(p.rpos + q)), rng=n))
        c.ensure(out, 'invariant', b.wf())
        c.ensure(out, 'never below the request, never grown, external blocks never reallocated', z3.And(z3.ULE(b.cap, p.cap), z3.Or(b.cap == p.cap, z3.UGE(b.cap, ln)), z3.Implies(p.ref != 0, b.same(p, 'mem cap'))))
@contract(('C03',), SRC)
def compact(c):
    o = mkbuf(c); p = B(c, c.st, o)
    for out in c.run('sc_buf_compact', [o]):
        b = B(c, out.st, o); n = p.wpos - p.rpos
        c.ensure(out, 'moved to the front', z3.And(b.rpos == 0, b.wpos == n)); c.ensure(out, 'rest', b.same(p, 'mem cap limit err ref'))
        if p.mem.r is not None: c.ensure(out, 'unread bytes kept', All(('bmem',), lambda q: z3.Implies(z3.ULT(q, n), b.byte(q) == p.byte(p.rpos + q)), rng=n))
        c.ensure(out, 'invariant', b.wf())
@contract(('C03',), SRC)
def move(c):
    d = mkbuf(c, 'd', 'dmem'); s = mkbuf(c, 's', 'smem'); pd = B(c, c.st, d); ps = B(c, c.st, s)
    for out in c.run('sc_buf_move', [d, s]):
        bd, bs = B(c, out.st, d), B(c, out.st, s); n = bs.rpos - ps.rpos
        size = ps.wpos - ps.rpos; quota = pd.cap - pd.wpos; exp = z3.If(z3.ULT(quota, size), quota, size)
        c.ensure(out, 'source loses exactly what the destination gains', z3.And(bd.wpos == pd.wpos + n, z3.ULE(n, size)))
        c.ensure(out, 'valid destination takes as much as fits', z3.Implies(pd.err == 0, n == exp))
        if pd.mem.r and ps.mem.r: c.ensure(out, 'bytes transferred', All(('smem', ), lambda q: z3.Implies(z3.ULT(q, n), bd.byte(pd.wpos + q) == ps.byte(ps.rpos + q)), rng=n))
        c.ensure(out, 'destination keeps its bytes', bd.bytes_same(pd, lambda q: z3.ULT(q, pd.wpos), 'dmem'))
        c.ensure(out, 'source bytes', bs.bytes_same(ps, None, 'smem'))
        c.ensure(out, 'rest', z3.And(bd.same(pd, 'mem cap limit rpos ref'), bs.same(ps, 'mem cap limit wpos err ref'))); c.ensure(out, 'invariant', z3.And(bd.wf(), bs.wf()))
@contract(('C03',), SRC)
def init(c):
    o = c.struct('b', 'sc_buf'); cap = c.bv('cap')
    for out in c.run('sc_buf_init', [o, cap]):
        b = B(c, out.st, o)
        c.ensure(out, 'empty valid owned buffer', z3.And(b.rpos == 0, b.wpos == 0, b.err == 0, b.ref == 0, b.wf()))
        c.ensure(out, 'capacity as requested or nothing', b.cap == z3.If(out.ret, cap, BV(0)))
        c.ensure(out, 'cap 0 never fails', z3.Implies(cap == 0, out.ret))
@contract(('C03',), SRC)
def term(c):
    o = mkbuf(c); p = B(c, c.st, o)
    for out in c.run('sc_buf_term', [o]):
        b = B(c, out.st, o)
        if p.mem.r: c.ensure(out, 'owned block freed once, external block untouched', bool(out.st.mem[p.mem.r].alive == (out.st.mem[p.mem.r].kind == 'ext')))
        c.ensure(out, 'empty afterwards', z3.And(b.cap == 0, b.rpos == 0, b.wpos == 0, b.err == 0, z3.BoolVal(b.mem.r is None), b.wf()))
@contract(('C03',), SRC)
def wrap(c):
    o = c.struct('b', 'sc_buf'); ln = c.bv('len'); fl = c.bv('flag', 32); m = c.bytes('bmem', ln, 'heap')
    for out in c.run('sc_buf_wrap', [o, m, ln, fl]):
        b = B(c, out.st, o); ref = (fl & 8) != 0; data = (fl & 16) != 0
        c.ensure(out, 'wraps the block', z3.And(z3.BoolVal(b.mem.r == m.r), b.cap == ln, b.rpos == 0, b.err == 0, b.wpos == z3.If(data, ln, BV(0)), (b.ref != 0) == ref, z3.Implies(ref, b.limit == ln), z3.Implies(z3.Not(ref), b.limit == BUFMAX)))
