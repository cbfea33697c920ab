"""makes /verif/seeded/<id>/ from tools/seeds/*.py entries and confirms each on /repo (applied, built, tested, undone)
usage: mkseed.py [id...]"""
import sys, os, json, subprocess, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = {}
def seed(id, prop, file, edits, needs, breaks, demo_c=None, demo_cli=None, files=None):
    SEEDS[id] = dict(id=id, prop=prop, edits=[(file, a, b) for a, b in edits] if file else edits, needs=needs, breaks=breaks, c=demo_c, cli=demo_cli, files=files or {})
for f in sorted(glob.glob(HERE + '/seeds/*.py')): exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO_C = '''#!/bin/bash
# compiles the sources with the demonstration (cwd: the repository) and runs it
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d)
inc=$(find src -type d -printf '-I%p ')
gcc -std=gnu99 -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined '-DINSTALL_PATH="/nonexistent"' $inc $(find src -name '*.c' ! -path src/client/main.c) "$here/demo.c" -o "$d/demo" -lm || { rm -r "$d"; exit 3; }
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$d/demo"; r=$?
rm -r "$d"; exit $r
'''
DEMO_CLI = '''#!/bin/bash
# runs sessions of the built program (cwd: the repository)
here=$(cd "$(dirname "$0")" && pwd); bin=$PWD/bin/release/ccalc; d=$(mktemp -d); cd "$d"
fail() { echo "unexpected: $*"; rm -r "$d"; exit 1; }
'''
def make(s):
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    for f, a, b in s['edits']:
        p = '/repo/' + f; t = open(p, newline='').read()
        if '\r\n' in t: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        if t.count(a) != 1: return 'edit does not apply (%d): %r' % (t.count(a), a)
        open(p, 'w', newline='').write(t.replace(a, b))
    p = sh('git -C /repo diff'); open(d + '/patch.diff', 'wb').write(p.stdout)
    if s['c']:
        open(d + '/demo.c', 'w').write(s['c'].lstrip()); open(d + '/demo.sh', 'w').write(DEMO_C)
    else: open(d + '/demo.sh', 'w').write(DEMO_CLI + s['cli'].strip() + '\nrm -r "$d"; exit 0\n')
    for n, t in s['files'].items(): open(d + '/' + n, 'w').write(t)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: return 'does not build: ' + r.stdout.decode()[-500:]
        sh('bash /opt/vp/test.sh /tmp/mkseed.json')
        base = json.load(open('/opt/vp/BASELINE.json')); got = set(json.load(open('/tmp/mkseed.json'))['passed'])
        bs = base if isinstance(base, list) else (base.get('stable') or base.get('passed') or base.get('tests'))
        lost = [t for t in bs if t not in got]
        if lost: return 'fails tests: %s' % lost[:5]
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0: return 'demo passes with the bug: ' + r.stdout.decode()[-300:]
        if r.returncode == 3: return 'demo does not build: ' + r.stdout.decode()[-1500:]
        out = r.stdout.decode()[-200:]
    finally: sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode: return 'demo fails on the unchanged tree: ' + r.stdout.decode()[-800:]
    return None
if __name__ == '__main__':
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists('/verif/seeded/%s/ok' % i)]
    assert not sh('git -C /repo status --porcelain -uno').stdout
    for i in ids:
        try: e = make(SEEDS[i])
        finally: sh('git -C /repo checkout -- .')
        print(i, e or 'ok', flush=True)
        if e: sh('rm -r /verif/seeded/' + i)
    sh('bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/mkseed.json')
