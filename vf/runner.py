"""Runs the contracts of one property in parallel, confirms failures on the real code, writes evidence."""
import sys, os, time, json, importlib, traceback, multiprocessing as mp, hashlib, subprocess, resource
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from . import contract, build, mem
VERIF = build.VERIF
MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(VERIF, 'contracts'))) if f.endswith('.py') and not f.startswith('_')]
CAUGHT = None
def load():
    for m in MODULES: importlib.import_module('contracts.' + m)

def caught():
    import z3
    from . import ir
    return (mem.Unsupported, ir.IRError, KeyError, AttributeError, z3.Z3Exception, RecursionError, IndexError, TypeError, AssertionError, ValueError, MemoryError)

def unit(args):
    """one case of one contract; runs in a worker process"""
    ci, prefix, mode, deadline, eopts = args
    con = contract.REG[ci]; t0 = time.time()
    r = dict(con=con.name, ci=ci, prefix=prefix, obls=[], pending=[], err=None, inlined=[], used=[], loops=[], solver=0.0, queries=0, backend={}, incomplete=0, covers=0, labels={}, nens=0, failures=[])
    c = None
    try:
        mod = build.module(con.src, con.flags)
        c = contract.Ctx(con, mod, prefix, mode, eopts); c.eng.deadline = deadline
        try: con.fn(c)
        except mem.Dead: pass
    except build.BuildError as e: r['err'] = 'build: ' + str(e)[:500]
    except TimeoutError: r['err'] = 'timeout'
    except caught() as e:
        r['err'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VF_DEBUG'): traceback.print_exc()
    if c is not None:
        r['pending'] = c.pending; r['labels'] = {k: str(v) for k, v in c.labels.items()}
        nf = 0
        for o in c.eng.obls:
            r['obls'].append((o.name, o.kind, o.fn, o.line, o.status, o.time))
            if o.status != 'proved' and o.st is not None and nf < 6 and time.time() < deadline:
                nf += 1
                try: r['failures'].append(c.failure(o))
                except (TimeoutError,) + caught() as e:
                    if os.environ.get('VF_DEBUG'): traceback.print_exc()
        e = c.eng
        r.update(inlined=sorted(e.inlined), used=sorted(e.used), loops=e.loop_info, solver=e.solver_time, queries=e.nq, backend=e.backend, incomplete=len(e.incomplete), covers=c.covers, nens=c.nens, assumed=sorted(e.assumed))
    mem.clear_caches()
    r['wall'] = time.time() - t0
    return r

def winit():
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass

def enum(ci):
    try: return ci, contract.cases(contract.REG[ci])
    except Exception: return ci, [[]]

def confirm_task(pid, ci, failures, deadline, seed):
    from . import confirm
    return confirm.confirm(pid, contract.REG[ci], failures, deadline, seed, {}, search=not contract.REG[ci].opts.get('replay', True))

def costs():
    """scheduling hints only: longest cases first"""
    try: return json.load(open(os.path.join(VERIF, 'vf', 'costs.json')))
    except Exception: return {}

def run_units(cis, deadline, mode='prove', eopts=None, jobs=None, unit_limit=400, early=None):
    """-> list of unit results; sub-cases discovered on the way are scheduled too.
    early: (pid, seed, names of known findings, dict to fill): replay failures as they appear and stop once one is confirmed on the real code"""
    confs = {}; ctried = {}
    jobs = jobs or int(os.environ.get('VF_JOBS', '0')) or max(1, min(8, (os.cpu_count() or 4)))
    out = []; todo = []; live = {}; cost = costs()
    ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork'), initializer=winit)
    try:
        for src, flags in {(contract.REG[ci].src, contract.REG[ci].flags) for ci in cis}: build.module(src, flags)
    except Exception: pass
    try:
        for ci, ps in ex.map(enum, cis): todo += [(ci, p) for p in ps]
    except Exception: todo = [(ci, []) for ci in cis]; ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork'), initializer=winit)
    key = lambda x: cost.get('%s %s' % (contract.REG[x[0]].name, x[1]), 5)
    todo.sort(key=key)
    broken = 0
    try:
        while todo or live or confs:
            while todo and len(live) < jobs * 2:
                ci, pre = todo.pop()
                dl = min(deadline, time.time() + unit_limit)
                try: live[ex.submit(unit, (ci, pre, mode, dl, eopts))] = (ci, pre)
                except Exception:
                    ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork'), initializer=winit); todo.append((ci, pre)); broken += 1
                    if broken > 8: todo = []
            done, _ = wait(list(live) + list(confs), timeout=5, return_when=FIRST_COMPLETED)
            for f in done:
                if f in confs:
                    ci = confs.pop(f)
                    try: info = f.result()
                    except Exception: info = None
                    if info and info.get('input'):
                        early[3][ci] = info; todo = []; live = {}; confs = {}
                        return out
                    continue
                ci, pre = live.pop(f)
                try:
                    r = f.result(); out.append(r)
                    for p in r['pending']: todo.append((ci, p))
                    if r['pending']: todo.sort(key=key)
                    noreplay = not contract.REG[ci].opts.get('replay', True); tk = contract.REG[ci].opts.get('search') if noreplay else ci
                    if early and any(o[4] == 'failed' for o in r['obls']) and (noreplay or r['failures']) and r['con'] not in early[2] and ctried.get(tk, 0) < (1 if noreplay else 3):
                        ctried[tk] = ctried.get(tk, 0) + 1
                        confs[ex.submit(confirm_task, early[0], ci, r['failures'], deadline, early[1])] = ci
                except Exception as e:
                    out.append(dict(con=contract.REG[ci].name, ci=ci, prefix=pre, obls=[], pending=[], err='worker: %s' % type(e).__name__, inlined=[], used=[], loops=[], solver=0, queries=0, backend={}, incomplete=0, covers=0, labels={}, nens=0, failures=[], wall=0))
            if time.time() > deadline + 45:
                for f, (ci, pre) in live.items():
                    out.append(dict(con=contract.REG[ci].name, ci=ci, prefix=pre, obls=[], pending=[], err='timeout', inlined=[], used=[], loops=[], solver=0, queries=0, backend={}, incomplete=0, covers=0, labels={}, nens=0, failures=[], wall=0))
                live = {}; break
    finally:
        ps = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in ps:
            try: p.kill()
            except Exception: pass
    return out

TRUSTED = ['clang 18 front end, -O0 code generation and its sroa/mem2reg/simplifycfg/loop-simplify passes (C source to LLVM IR)',
           'the verification condition generator in /verif/vf (LLVM IR semantics, memory model, loop rule, instantiation)',
           'z3 5.3 (bit-vector and integer-encoding solvers)',
           'assumed contracts of the C library functions listed as model:* under "external_contracts"']

def checkprop(pid, tier, seed):
    t0 = time.time(); budget = float(os.environ.get('VF_BUDGET', '600' if tier == 'quick' else '2400'))
    deadline = t0 + budget
    load()
    cis = [i for i, c in enumerate(contract.REG) if pid in c.props and (tier == 'thorough' or not c.opts.get('thorough_only'))]
    if tier == 'thorough': os.environ['VF_FULL_MS'] = '240000'
    known = knownfindings(pid); early = {}
    res = run_units(cis, deadline - 120 if tier == 'quick' else deadline - 300, early=(pid, seed, {k['contract'] for k in known}, early))
    if os.environ.get('VF_COSTS'):
        cs = costs(); cs.update({'%s %s' % (r['con'], r['prefix']): round(r['wall'], 1) for r in res if r['wall'] > 5})
        json.dump(cs, open(os.path.join(VERIF, 'vf', 'costs.json'), 'w'), indent=0, sort_keys=True)
    # ---------------- summarise
    byc = {}
    for r in res: byc.setdefault(r['ci'], []).append(r)
    total = disch = 0; failed = []; undecided = []; functions = set(); ext = set(); backend = {}; solver = 0.0; queries = 0; kinds = {}; loops = []
    percon = []
    for ci in cis:
        rs = byc.get(ci, []); con = contract.REG[ci]
        ob = [o for r in rs for o in r['obls']]
        n = len(ob); ok = sum(1 for o in ob if o[4] == 'proved')
        total += n; disch += ok
        errs = sorted({r['err'] for r in rs if r['err']})
        bad = [(r, o) for r in rs for o in r['obls'] if o[4] == 'failed']
        unk = [o for o in ob if o[4] not in ('proved', 'failed')]
        if n == 0 and not errs: errs = ['no obligations were generated']
        if bad: failed.append((ci, bad))
        if early and ci not in early and not bad: continue      # a confirmed violation stopped the run
        if errs or unk: undecided.append((ci, errs + ['%s %s [%s:%s]' % (o[4], o[0], o[2], o[3]) for o in unk[:6]]))
        for r in rs:
            functions |= set(r['inlined']); ext |= {u for u in r['used']}; solver += r['solver']; queries += r['queries']
            for k, v in r['backend'].items(): backend[k] = backend.get(k, 0) + v
            for l in r['loops']: loops.append(l)
        for o in ob: kinds[o[1]] = kinds.get(o[1], 0) + 1
        percon.append(dict(contract=con.name, source=con.src, cases=len(rs), obligations=n, discharged=ok, cpu_s=round(sum(r['wall'] for r in rs), 2), status='proved' if n and ok == n and not errs else ('failed' if bad else 'undecided')))
    # ---------------- confirm failures / bounded stand-ins on the real code
    from . import confirm
    viol = []; stand = []
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    cdead = t0 + budget
    searched = {}
    for ci, bad in failed:
        con = contract.REG[ci]
        fl = [f for r, o in bad for f in r['failures']]
        fl = [f for r in byc[ci] for f in r['failures']] or fl
        if early and ci not in early: info = None
        else: info = early.get(ci) or confirm.confirm(pid, con, fl, cdead, seed, searched)
        r, o = bad[0]
        viol.append(dict(contract=con.name, obligation=o[0], kind=o[1], function=o[2], line=o[3], case=r['labels'], all_failed=sorted({'%s: %s [%s:%s]' % (x[1], x[0], x[2], x[3]) for _, x in bad})[:40], confirmed=info))
    for ci, why in undecided:
        if any(ci == f[0] for f in failed): continue
        con = contract.REG[ci]
        info = confirm.confirm(pid, con, [f for r in byc.get(ci, []) for f in r['failures']], cdead, seed, searched)
        if info and info.get('input'): viol.append(dict(contract=con.name, obligation='(undecided) ' + '; '.join(why[:3]), kind='undecided', function=con.name, line=0, case={}, all_failed=why[:10], confirmed=info))
        else: stand.append(dict(contract=con.name, why=why, bounded_stand_in=(info or {}).get('bound', 'none available'), outcome='no violation found; NOT counted as proved'))
    ext = sorted(ext)
    lines = []; nviol = 0
    if viol:
        viol.sort(key=lambda v: 0 if v['confirmed'] and v['confirmed'].get('input') else 1)
    for v in viol:
        if early and not v['confirmed'] and nviol: continue
        kf = [k for k in known if k['contract'] == v['contract'] and (not k.get('obligation') or k['obligation'] in v['obligation'])]
        if kf:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what'])); continue
        nviol += 1
        p = os.path.join(rdir, '%s-%s.json' % (pid, v['contract'])); json.dump(v, open(p, 'w'), indent=1, default=str)
        lines.append('failed obligation: %s: %s [%s:%s] in contract %s case %s' % (v['kind'], v['obligation'], v['function'], v['line'], v['contract'], v['case']))
        conf = v['confirmed'] and v['confirmed'].get('input')
        if conf: lines.append('failing input on the real code: %s' % str(v['confirmed'].get('summary'))[:600])
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, p, '' if conf else ' no-failing-input-found'))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=nviol,
        coverage=dict(obligations=total, discharged=disch, checker_cmd='/verif/check %s --tier %s' % (pid, tier), trusted_base=TRUSTED,
            functions_under_contract=sorted(contract.REG[i].name for i in cis), functions_executed_symbolically=sorted(functions),
            external_contracts=[e for e in ext if e.startswith('model:')], callee_contracts=[e for e in ext if e.startswith('contract:')],
            solver_s=round(solver, 2), queries=queries, backends={('z3 bit-vector' if k == 'bb' else 'z3 integer encoding' if k == 'int' else k): v for k, v in backend.items()},
            obligations_by_kind=kinds, contracts=percon, loops=dedup(loops), undecided=stand, search=[s for s in searched.values()],
            explanation='contracts on the real functions, verification conditions generated from the LLVM IR of the current source and discharged by z3; every case of every contract'),
        assumptions=assumptions(cis))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for s in stand: lines.append('UNDECIDED %s: %s (bounded stand-in: %s)' % (s['contract'], '; '.join(s['why'])[:300], s['bounded_stand_in']))
    lines.append('%s: %d contracts, %d/%d obligations discharged, %d failed contracts, %d undecided, %.1fs' % (pid, len(cis), disch, total, len(failed), len(stand), time.time() - t0))
    print('\n'.join(lines), flush=True)
    return 1 if nviol else 0

def dedup(loops):
    d = {}
    for l in loops: d[l['loop']] = dict(l, invariants=l['invariants'][:30])
    return list(d.values())[:60]
def assumptions(cis):
    a = ['objects are at most 2^62 bytes; distinct objects do not overlap; pointers passed in are valid as the contracts state',
         'x86-64 System V: little-endian, 64-bit size_t, struct layout as emitted by clang 18',
         'external functions behave as their assumed contracts say (allocation may fail at every call)']
    for i in cis:
        for x in contract.REG[i].opts.get('assumptions', ()):
            if x not in a: a.append(x)
    return a
def knownfindings(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') == 'known']

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    sys.exit(checkprop(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1'))))
if __name__ == '__main__': main()
