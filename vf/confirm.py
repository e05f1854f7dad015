"""Confirmation of failed obligations on the real code: replay of the solver's counterexample, then a search through the public interface."""
import os, time, json, importlib
from . import replay, contract, build
def confirm(pid, con, failures, deadline, seed, searched, search=True):
    tried = 0; seen = set()
    for f in failures:
        if f is None or f.get('data') is None: continue
        k = json.dumps(f['data'], sort_keys=True)
        if k in seen: continue
        seen.add(k)
        if time.time() > deadline - 20 or tried >= 8: break
        tried += 1
        try: r, d = replay.replay(con, f['data'], (f['kind'],))
        except Exception as e: r, d = 'unsupported', str(e)
        if r == 'violated':
            return dict(input=f['data'], summary='replay of the counterexample of "%s" through %s: violated %s; input %s' % (f['obligation'], con.name, d, short(f['data'])), detail=d)
    h = con.opts.get('search')
    if h and search:
        key = str(h)
        if key not in searched:
            try:
                from . import search
                searched[key] = search.run(h, max(10, min(120, deadline - time.time() - 10)), seed)
            except Exception as e: searched[key] = dict(harness=key, error='%s: %s' % (type(e).__name__, e), input=None)
        s = searched[key]
        if s.get('input'): return dict(input=s['input'], summary=s.get('summary'), harness=key)
        return dict(input=None, bound=s.get('bound'), summary='replayed %d counterexamples; search through the public interface found none (%s)' % (tried, s.get('bound')))
    return dict(input=None, bound='replay of %d solver candidates' % tried, summary='replayed %d counterexamples without reproducing' % tried)
def short(d):
    return {'choices': d['prefix'], 'values': d['bv'], 'bytes': {k: v[:40] for k, v in d['bytes'].items()}, 'alloc_plan': d['plan']}
