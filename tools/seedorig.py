"""every removed line of a seed must be a line of the original repository"""
import glob, subprocess, re
for f in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    cur = None; ok = False; mine = []
    for l in open(f):
        m = re.match(r'--- a/(.*)', l)
        if m: cur = subprocess.run(['git', '-C', '/repo', 'show', '9946e14:' + m.group(1)], stdout=subprocess.PIPE).stdout.decode().split('\n'); continue
        if l.startswith('-') and not l.startswith('---'):
            if l[1:].rstrip('\n') in cur: ok = True
            else: mine.append(l.rstrip())
    print('ok ' if ok and not mine else 'CHECK', f.split('/')[-2], mine)
