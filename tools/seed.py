#!/usr/bin/env python3
# Makes and confirms a planted bug. seed.py ID PROPERTY FILE NEEDS BREAKS  with OLD/NEW pairs in /tmp/seed/ID.edit ("<<<<\nold\n====\nnew\n>>>>\n" blocks, optionally "@@ file" before one) and the demonstration in /tmp/seed/ID.cpp
import sys, os, subprocess, json, re, shutil
ident, prop, needs, breaks = sys.argv[1:5]; R = '/repo'; D = '/verif/seeded/' + ident; T = '/tmp/seed/' + ident
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
os.makedirs(D, exist_ok=True)
demo = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -g -O1 -I include -I include/rtmfp "$here/demo.cpp" %s librtmfp.a -o "$tmp/demo" %s -lpthread || exit 2
timeout 120 "$tmp/demo"
'''
cpp = open(T + '.cpp').read(); extra = re.findall(r'//LINK (.*)', cpp); srcs = re.findall(r'//SRC (.*)', cpp)
open(D + '/demo.sh', 'w').write(demo % (' '.join(srcs), ' '.join(extra))); os.chmod(D + '/demo.sh', 0o755); shutil.copy(T + '.cpp', D + '/demo.cpp')
b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0, b.stdout
r = sh(D + '/demo.sh', cwd=R); print('clean demo', r.returncode, r.stdout[-300:])
if r.returncode: shutil.rmtree(D); sys.exit('demo fails on the clean tree: ' + r.stdout[-800:])
try:
    cur = None
    for m in re.finditer(r'(?:@@ (\S+)\n)?<<<<\n(.*?)\n====\n(.*?)\n?>>>>', open(T + '.edit').read(), re.S):
        cur = m.group(1) or cur; p = R + '/' + cur; s = open(p).read(); assert s.count(m.group(2)) == 1, ('occurrences', s.count(m.group(2)), m.group(2)); open(p, 'w').write(s.replace(m.group(2), m.group(3)))
    d = sh('git -C /repo diff').stdout; open(D + '/patch.diff', 'w').write(d)
    t = sh('bash /opt/vp/test.sh /tmp/seed/t.json'); j = json.load(open('/tmp/seed/t.json')); print('tests', len(j['passed']), j['failed'], '' if j['passed'] else t.stdout[-1500:])
    r = sh(D + '/demo.sh', cwd=R); print('patched demo', r.returncode, r.stdout[-300:])
    ok = len(j['passed']) == 16 and not j['failed'] and r.returncode not in (0, 2)
    if '--check' in sys.argv:
        c = sh('python3 check.py %s --tier quick' % prop, cwd='/verif'); print('check', c.returncode, c.stdout[-400:])
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
print('KEEP' if ok else 'REJECT', ident)
if not ok: shutil.rmtree(D)
