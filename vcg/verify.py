"""Driver: verify functions under contract, one process per function."""
import sys, os, time, json, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vcg.cast import *
from vcg import logic as lg, core, calls
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = ['vector', 'history', 'string_builder', 'linked_list', 'tree', 'tree2', 'evalop', 'strings', 'strutil', 'trie', 'tokenizer', 'commands', 'context', 'parser', 'printing', 'rewriting', 'definition']

def setup(repo=None, modules=None):
    prog = Program(repo or REPO)
    core.Engine.the_prog = prog
    mac = macros(repo or REPO)
    core.Engine.macros = mac
    for k, n in (('OP', 'NTYPE_OPERATOR'), ('CONST', 'NTYPE_CONSTANT'), ('VAR', 'NTYPE_VARIABLE')):
        lg.NT[k] = prog.enumconst[n]
    from specs import base
    for m in modules or MODULES: importlib.import_module('specs.' + m)
    cts = {}
    missing = []
    for c in base.CONTRACTS:
        fn = prog.funcs.get((c.file, c.name)) if c.file else None
        if fn is None:
            fn = prog.by_name.get(c.name)
            if fn is not None and (c.file and fn.static and fn.file != c.file): fn = None
        if fn is None: missing.append(c)
        else: cts[(fn.file, fn.name)] = c; c.fn = fn
    calls._index_types(prog)
    return prog, cts, missing

def verify_one(prog, cts, c, budget=None):
    t = time.time()
    r = {'function': c.name, 'file': c.file, 'props': list(c.props)}
    try:
        e = core.Engine(prog, cts, c, tmo=c.tmo, budget=budget or c.budget)
        try:
            e.verify()
            r['unsupported'] = None
        except Unsupported as x:
            r['unsupported'] = str(x)
        r['obligations'] = [dict(label=o.label, line=o.line, status=o.status, time=round(o.time, 3), detail=o.detail, n=o.n) for o in e.obls.values()]
        r['paths'] = e.paths; r['completed'] = e.completed; r['solver_s'] = round(e.stime, 2); r['queries'] = e.queries
        r['notes'] = sorted(e.notes); r['called'] = sorted(e.called); r['inlined'] = sorted(e.inlined)
        r['loops'] = {'%s:%s' % k: v for k, v in e.loops_done.items()}
    except Unsupported as x:
        r['unsupported'] = str(x); r['obligations'] = []
    except Exception as x:
        r['unsupported'] = 'internal: ' + traceback.format_exc()[-1500:]; r['obligations'] = []
    r['time'] = round(time.time() - t, 2)
    obs = r['obligations']
    if r['unsupported']: r['status'] = 'undecided'
    elif any(o['status'] == 'failed' for o in obs): r['status'] = 'failed'
    elif any(o['status'] != 'proved' for o in obs): r['status'] = 'undecided'
    elif not obs or not r.get('completed') and not c.noreturn: r['status'] = 'vacuous'
    else: r['status'] = 'verified'
    return r

if __name__ == '__main__':
    mods = sys.argv[1].split(',')
    prog, cts, missing = setup(modules=mods)
    names = sys.argv[2:]
    for c in list(cts.values()):
        if c.trusted: continue
        if names and c.name not in names: continue
        if not names and not c.fn.file: continue
        r = verify_one(prog, cts, c)
        print('%-9s %-28s %3d obl %3d paths %5.1fs (solver %.1fs) %s' % (r['status'], r['function'], len(r['obligations']), r.get('paths', 0), r['time'], r.get('solver_s', 0), r['unsupported'] or ''))
        for o in r['obligations']:
            if o['status'] != 'proved': print('     ', o['status'], o['line'], o['label'], '|', o['detail'][:700])
    for m in missing: print('missing', m.name)
