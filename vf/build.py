"""Extraction: /repo C sources -> LLVM IR, on every run."""
import subprocess, os, tempfile, hashlib
from . import ir
REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang') if os.path.exists(c)), 'clang-18')
OPT = next((c for c in ('/usr/lib/llvm-18/bin/opt', '/usr/bin/opt') if os.path.exists(c)), 'opt')
PASSES = 'sroa,mem2reg,simplifycfg,loop-simplify'
class BuildError(Exception): pass
_cache = {}
def incs():
    return ['-I' + os.path.join(REPO, d) for d in sorted(os.listdir(REPO)) if os.path.isdir(os.path.join(REPO, d)) and not d.startswith(('.', '_'))]
def path(src):
    return src if src.startswith('/') else (os.path.join(VERIF, src[6:]) if src.startswith('verif:') else os.path.join(REPO, src))
def module(src, flags=()):
    key = (src, tuple(flags))
    if key in _cache: return _cache[key]
    p = path(src)
    with tempfile.TemporaryDirectory(prefix='vf') as td:
        a, b = td + '/a.ll', td + '/b.ll'
        cmd = [CLANG, '-S', '-emit-llvm', '-O0', '-g', '-w', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-D_GNU_SOURCE'] + incs() + list(flags) + [p, '-o', a]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[:3000])
        r = subprocess.run([OPT, '-S', '-passes=' + PASSES, a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[:3000])
        text = open(b).read()
    m = ir.parse(text); m.src = src
    _cache[key] = m
    return m
