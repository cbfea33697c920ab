"""C17: whole scripts (blank lines, comments, quit, missing last line end, commands by precedence, loaded files, -c arguments):
stdout and exit status against a model; plus exact delivery of the characters of every line (c17.c)"""
import os, re
from . import cli, runner
NM = ['f', 'g', 'k', 'fa']
def script(r, depth, files, defs):
    """list of lines with (line, stdout lines, ok) or quit"""
    out = []
    for _ in range(cli.dim(r, 9, 30 if depth else 90)):
        k = r.random()
        if k < 0.3: a, b = r.randrange(50), r.randrange(50); n = cli.dim(r, 4, 400); out.append(('%d' % a + '+1' * n + ' ' * cli.dim(r, 2, 300) + '+%d' % b, ['%d' % (a + b + n)], True) if r.random() < 0.2 else ('%d%s+ %d' % (a, r.choice(['', ' ', '  ']), b), ['%d' % (a + b)], True))
        elif k < 0.38: out.append((r.choice(['#', '# 1+1', '#quit', '#f = 3', '#' + ''.join(chr(r.randrange(32, 127)) for _ in range(cli.dim(r, 20, 2000)))]), [], True))
        elif k < 0.46: out.append(('', [], True))
        elif k < 0.54: out.append((r.choice(['1 +', '(2', '1/0', 'sin(1,2)', '2 = 3', 'load /nonexistent', 'load simplification /nonexistent', 'clear nosuch', 'table x ; 1', ' ', 'table 1;x;3;1', ')', 'sin(x)=x', 'pi = 3', '2 + 1\\', '1 ' + r.choice('?&~"`;:.\\'), 'load ', 'table ', 'load simplification ', 'load simplification bad.rs', 'clear ', 'table ;;;']), [], False))
        elif k < 0.64:
            n = r.choice(NM)
            if n in defs: out.append(('%s = 4' % n, [], False))
            else: v = r.randrange(100); defs[n] = v; out.append(('%s = %d' % (n, v), [], True))
        elif k < 0.72:
            n = r.choice(NM); out.append((n, ['%d' % defs[n]] if n in defs else [n], True))
        elif k < 0.78:
            n = r.choice(NM)
            if n in defs: del defs[n]; out.append(('clear ' + n, [], True))
            else: out.append(('clear ' + n, [], False))
        elif k < 0.8: defs.clear(); out.append(('clear', [], True))
        elif k < 0.84: a = r.randrange(10); out.append(('table %d*x ; 1 ; 2 ; 1' % a, ['TABLE', '1.0000000000', '%d.0000000000' % a, '2.0000000000', '%d.0000000000' % (2 * a)], True))
        elif k < 0.87: out.append((r.choice(['help', 'help operators', 'license']), ['HELP'], True)); out.append(('zzmark', ['zzmark'], True))
        elif k < 0.9: out.append((r.choice(['tablex', 'loadx', 'quitx', 'helpx', 'ab']), None, True)); out[-1] = (out[-1][0], [out[-1][0]], True)
        elif k < 0.93 and depth < 2:
            fn = 'file%d' % len(files); files[fn] = ''
            sub = script(r, depth + 1, files, defs)
            files[fn] = text(r, sub); o = []; ok = True; stop = False
            for s in sub:
                o += s[1]; ok &= s[2]; stop = s[0] == 'quit' or len(s) > 3
                if stop: break
            out.append(('load ' + fn, o, ok) + (('stop',) if stop else ()))
        elif k < 0.95: out.append((r.choice(['clear %s = 3' % n for n in NM] + ['table = 3', 'load = ', 'table %s = 4' % NM[0]]), [], False))
        elif k < 0.97 and r.random() < (1 if depth == 0 else 0.3): out.append(('quit', [], True)); 
        else: out.append((r.choice([' # 1', '1 # 2', ' quit', 'quit ']), None, None)); s = out.pop()[0]; out.append((s, [], False) if '#' in s else (s, ['quit'], True))
    return out
def text(r, sub):
    t = ''.join(s[0] + '\n' for s in sub)
    if sub and r.random() < 0.5 and sub[-1][0]: t = t[:-1]
    return t
def gen(r):
    files = {'bad.rs': 'RULESET\nx -> \n'}; defs = {}; s = script(r, 0, files, defs)
    x = r.random(); mode = 'c' if x < 0.15 else 'ic' if x < 0.3 else 'stdin'; nc = len(s) if mode == 'c' else r.randrange(len(s) + 1) if mode == 'ic' else 0
    isc = lambda x: x[0] and x[0][0] != '#' and x[0] != 'quit'
    head = [x for x in s[:nc] if isc(x)]; tail = s[nc:]; exp = []; ok = True; stop = False
    for y in head:
        exp += y[1]; ok &= y[2]; stop = len(y) > 3 or not y[2]
        if stop: break
    for y in tail:
        if stop or y[0] == 'quit': break
        exp += y[1]; ok &= y[2]
        if len(y) > 3: break
    args = []
    if mode != 'stdin': args = ([r.choice(['-i', '--interactive'])] if mode == 'ic' else []) + ([r.choice(['-q', '--quiet'])] if r.random() < 0.3 else []) + [r.choice(['-c', '--commands'])] + [x[0] for x in head]
    elif r.random() < 0.3: args = r.choice([['-q'], ['-i'], ['--interactive', '--quiet'], ['-i', '-i']])
    return {'lines': [x[0] for x in s], 'text': text(r, tail), 'args': args, 'files': files, 'expect': exp, 'ok': ok}
def play(exe, c, cwd):
    for n, t in c['files'].items(): open(os.path.join(cwd, n), 'w').write(t)
    rc, out, err = cli.run_prog(exe, c['text'], c['args'], cwd, leaks='load simplification bad.rs' not in str(c)) # a refused rule file is not released
    x = cli.crashed(rc, err)
    if x: return x
    o = cli.plain(out).split('\n'); 
    if o[-1] == '': o.pop()
    i = 0; j = 0; e = c['expect']
    while j < len(e):
        if e[j] == 'HELP':
            k = i
            while i < len(o) and o[i] != 'zzmark': i += 1
            if i == k: return 'no help is printed'
            j += 1; continue
        if e[j] == 'TABLE':
            rows = [x.split() for x in o[i:i + 2]]
            if rows != [e[j + 1:j + 3], e[j + 3:j + 5]]: return 'table %r expected, got %r' % (e[j + 1:j + 5], o[i:i + 2])
            i += 2; j += 5; continue
        if i >= len(o) or o[i] != e[j]: return 'answer %d is %r, expected %r' % (j, o[i] if i < len(o) else None, e[j])
        i += 1; j += 1
    if i != len(o): return 'unexpected answer %r' % o[i]
    if (rc == 0) != c['ok']: return 'exit status %s, %s' % (rc, 'every line succeeded' if c['ok'] else 'a line failed')
    return None
def run(repo, d, tier, seed):
    os.makedirs(d + '/c'); 
    a = cli.run_sessions('C17', repo, d, tier, seed, gen, 'scripts of commands on stdin or as arguments, with loaded files', player=play, budget=12 if tier == 'quick' else 200)
    if a['failures']: return a
    exe, err = runner.build(repo, d + '/c', runner.HERE + '/c17.c')
    if exe:
        b = runner.run_exe('C17', exe, d + '/c', seed, 6 if tier == 'quick' else 100)
        a['failures'] = b['failures']; a['evaluations'] += b['evaluations']; a['distinct'] += b['distinct']; a['rule'] += '; ' + b['rule']
    return a
def replay(repo, d, f):
    if 'worker' in f:
        exe, err = runner.build(repo, d, runner.HERE + '/c17.c')
        import subprocess
        return 1 if subprocess.run([exe, str(f['seed'] * 100 + f['worker']), '60', d + '/case', str(f['worker'])], env=runner.ENV, cwd=d).returncode else 0
    return cli.replay('C17', repo, d, f, player=play)
