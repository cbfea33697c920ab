"""verify every contract, 8 at a time; prints what is not verified and the slowest"""
import sys, os, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from vcg import verify
mods = sys.argv[1].split(',') if len(sys.argv) > 1 else None
prog, cts, missing = verify.setup(modules=mods)
L = [c for c in cts.values() if not c.trusted]
L.sort(key=lambda c: -c.budget)
def f(i):
    c = L[i]; return verify.verify_one(prog, cts, c)
if __name__ == '__main__':
    t = time.time()
    with mp.get_context('fork').Pool(8, maxtasksperchild=4) as p:
        rs = list(p.imap_unordered(f, range(len(L)), 1))
    for r in rs:
        if r['status'] != 'verified': print(r['status'], r['file'], r['function'], r['unsupported'], [(o['line'], o['label'], o['status']) for o in r['obligations'] if o['status'] != 'proved'][:4])
    print('slowest', [(r['function'], r['time']) for r in sorted(rs, key=lambda r: -r['time'])[:8]])
    print(len(rs), 'functions', sum(len(r['obligations']) for r in rs), 'obligations', round(time.time() - t), 's')
    for m in missing: print('missing', m.name)
