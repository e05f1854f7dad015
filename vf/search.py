"""Search for a failing history through the public interface: native/search_NAME.c compiled with the current sources, run with many seeds."""
import os, subprocess, tempfile, time, re
from . import build
CC = '/usr/bin/gcc'
def head(path):
    d = {}
    for l in open(path):
        m = re.match(r'//\s*(SRCS|FLAGS):\s*(.*)', l)
        if m: d[m.group(1)] = m.group(2).split()
        elif not l.startswith('//'): break
    return d
def run(name, secs, seed, jobs=8):
    src = os.path.join(build.VERIF, 'native', 'search_%s.c' % name); h = head(src)
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix='vfs') as td:
        exe = os.path.join(td, 'search')
        cmd = [CC, '-g', '-O1', '-w', '-D_GNU_SOURCE', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-include', os.path.join(build.VERIF, 'native', 'fail.h')] + h.get('FLAGS', []) + build.incs() + [src] + [build.path(s) for s in h.get('SRCS', [])] + ['-o', exe, '-lpthread', '-lm']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: return dict(harness=name, input=None, bound='harness does not build: ' + r.stderr[-300:], error=True)
        ps = []
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1:exitcode=99', UBSAN_OPTIONS='print_stacktrace=1')
        for j in range(jobs):
            o = open(os.path.join(td, 'o%d' % j), 'w')
            ps.append((j, subprocess.Popen([exe, str(seed * 1000 + j), str(int(secs))], stdout=o, stderr=subprocess.STDOUT, env=env, cwd=td)))
        bad = None; hist = 0
        end = time.time() + secs + 20
        live = dict(ps)
        while live and time.time() < end and bad is None:
            for j, p in list(live.items()):
                rc = p.poll()
                if rc is None: continue
                del live[j]
                t = open(os.path.join(td, 'o%d' % j), errors='replace').read()
                if rc != 0: bad = (j, rc, t)
                else:
                    m = re.search(r'histories (\d+)', t); hist += int(m.group(1)) if m else 0
            time.sleep(0.05)
        hung = None
        if bad is None and live:
            j = next(iter(live)); hung = (j, 'timeout', open(os.path.join(td, 'o%d' % j), errors='replace').read())
        for p in live.values(): p.kill()
        for p in live.values(): p.wait()
        bad = bad or hung
        if bad:
            t = bad[2]; i = t.find('FAIL')
            tail = t[i:i + 1500] if i >= 0 else t[:1500] + (' ... ' + t[-500:] if len(t) > 2000 else '')
            return dict(harness=name, input=dict(seed=seed * 1000 + bad[0], program='native/search_%s.c' % name, exit=bad[1], output=tail), summary='seed %d of native/search_%s.c: %s' % (seed * 1000 + bad[0], name, tail.strip()[:500]), bound='%d s' % secs, wall=time.time() - t0)
    return dict(harness=name, input=None, bound='random histories through the public interface (native/search_%s.c), %d histories, %d s on %d processes' % (name, hist, secs, jobs), wall=time.time() - t0)
if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 10, int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    print(r)
