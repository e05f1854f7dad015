#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  <<< json {old,new,needs,breaks,demo,files,cc}: creates seeded/ID from a textual replacement and a demo program"""
import sys, json, os, subprocess, shutil, tempfile
if len(sys.argv) > 1 and sys.argv[1].endswith(".py"):
    ns = {}; exec(open(sys.argv[1]).read(), ns); d = ns["SEEDS"]
else: d = json.load(sys.stdin) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in d if isinstance(d, list) else [d]:
    out = os.path.join(V, 'seeded', b['id']); os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w'])
    try:
        for f, old, new in b['edits']:
            p = os.path.join(t, 'w', f); s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff']).decode()
        open(out + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w']); shutil.rmtree(t, ignore_errors=True)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
    open(out + '/demo.c', 'w').write(b['demo'])
    open(out + '/demo.sh', 'w').write('''#!/bin/sh
# exit 0 when the property holds for the demonstrated input
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
incs=""; for d in "$repo"/*/; do incs="$incs -I$d"; done
gcc -g -w -D_GNU_SOURCE %s $incs "$here/demo.c" %s -o "$t/demo" -lpthread -lm || exit 2
cd "$t" && timeout 60 ./demo
''' % (b.get('cflags', '-fsanitize=address -fno-sanitize-recover=all'), ' '.join('"$repo/%s"' % x for x in b.get('srcs', []))))
    os.chmod(out + '/demo.sh', 0o755)
    print('made', b['id'])
