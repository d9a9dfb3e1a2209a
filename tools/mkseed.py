"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS : writes seeded/ID/{patch.diff,meta.json}
(FILE OLD NEW may be read from a python file: mkseed.py spec.py, with S = [dict(...)...])"""
import sys, os, json, subprocess, tempfile, shutil
exec(open(sys.argv[1]).read())
for s in S:
    d = os.path.join('/verif/seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    diff = ''
    byfile = {}
    for f, old, new in s['edits']:
        t = byfile.get(f) or open('/repo/' + f, newline='').read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        byfile[f] = t.replace(old, new)
    for f, t in byfile.items():
        with tempfile.NamedTemporaryFile('w', delete=False, newline='') as h:
            h.write(t)
        r = subprocess.run(['git', 'diff', '--no-index', '--', '/repo/' + f, h.name], capture_output=True, text=True).stdout
        os.unlink(h.name)
        body = r[r.index('@@'):]
        diff += 'diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n%s' % (f, f, f, f, body)
    open(d + '/patch.diff', 'w', newline='').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in s:
        open(d + '/demo.cpp', 'w').write(s['demo'])
        srcs = "$(find src -name '*.cpp')"
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd /repo. Compiles the demonstration against the sources and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 %s -Iinclude "$D/demo.cpp" %s -o "$T/demo" || exit 3
timeout 200 "$T/demo"
''' % (s.get('flags', ''), srcs))
        os.chmod(d + '/demo.sh', 0o755)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], check=True)
    print(s['id'])
