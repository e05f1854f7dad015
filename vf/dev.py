import sys, importlib, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import contract
def main():
    mod = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
    importlib.import_module('contracts.' + mod)
    tot = 0
    for con in contract.REG:
        if pat and not any(con.name == p or (p.endswith('*') and con.name.startswith(p[:-1])) for p in pat.split(',')): continue
        r = contract.run_contract(con, mode=os.environ.get('VF_MODE', 'prove'))
        bad = [o for o in r['obls'] if o.status != 'proved']
        print('%-18s cases=%d obl=%d bad=%d q=%d wall=%.1f solver=%.1f %s' % (con.name, r['cases'], len(r['obls']), len(bad), r['queries'], r['wall'], r['solver'], r['errs'][:3]), flush=True)
        seen = set()
        for o in bad:
            k = (o.kind, o.name, o.fn, o.line, str(o.extra))
            if k in seen: continue
            seen.add(k)
            if len(seen) < 12: print('    %s %s: %s [%s:%s] %s %.1fs' % (o.status, o.kind, o.name, o.fn, o.line, o.extra[0], o.time))
        if os.environ.get('VF_LOOPS'):
            for l in r['loops']: print('    loop', l)
if __name__ == '__main__': main()
