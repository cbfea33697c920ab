"""Integer, character and string literals of the current sources: sizes and values around them are tried more often
(thresholds written into the code).  Literals that are not in the recorded list (native/literals.json) are preferred."""
import os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
def scan(repo):
    r = {}
    for d, _, fs in os.walk(repo + '/src'):
        for f in sorted(fs):
            if not f.endswith(('.c', '.h')): continue
            s = open(os.path.join(d, f), errors='replace').read()
            s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
            toks = re.findall(r'//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\b0[xX][0-9a-fA-F]+\b|\b\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|\b\w+|#[^\n]*include[^\n]*', s)
            c = r.setdefault(os.path.relpath(os.path.join(d, f), repo), {})
            for t in toks:
                if t.startswith('//') or t.startswith('#'): continue
                if t[0] in '"\'' or t[0].isdigit(): c[t] = c.get(t, 0) + 1
    return r
def num(t):
    try: return float(int(t, 16)) if t[:2] in ('0x', '0X') else float(t)
    except ValueError: return None
def env(repo):
    """environment of the harnesses"""
    cur = scan(repo)
    try: base = json.load(open(HERE + '/literals.json'))
    except OSError: base = {}
    new = []
    for f, c in cur.items():
        b = base.get(f, {})
        for t, n in c.items():
            if n > b.get(t, 0): new.append(t)
    nums = sorted({num(t) for t in new if num(t) is not None and 2 <= num(t) < 1e12})
    alln = sorted({num(t) for c in cur.values() for t in c if num(t) is not None and 2 <= num(t) <= 200 and num(t) == int(num(t))})
    words = []
    for t in new:
        if t[0] in '"\'':
            try: w = t[1:-1].encode().decode('unicode_escape')
            except Exception: continue
            if 0 < len(w) < 40 and '\n' not in w and '\0' not in w and all(32 <= ord(x) < 127 for x in w): words.append(w)
    return {'VERIF_NEW': ','.join('%.17g' % x for x in nums[:40]), 'VERIF_DICT': ','.join('%d' % x for x in alln), 'VERIF_WORDS': '\n'.join(sorted(set(words))[:20])}
if __name__ == '__main__':
    json.dump(scan(os.environ.get('VERIF_REPO', '/repo')), open(HERE + '/literals.json', 'w'), indent=0, sort_keys=True)
