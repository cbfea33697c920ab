import sys,os
sys.path.insert(0,'/verif'); os.environ.setdefault('VCG_DEBUG','0') if 0 else None
from vcg import verify as V
mods=sys.argv[1].split(','); name=sys.argv[2]; b=float(sys.argv[3]) if len(sys.argv)>3 else None
prog,cts,m=V.setup(modules=mods)
for c in cts.values():
    if c.name==name:
        r=V.verify_one(prog,cts,c,budget=b)
        print(r['status'],r['unsupported'],r.get('paths'),r['time'],r.get('solver_s'))
        for o in sorted(r['obligations'],key=lambda o:-o['time'])[:25]: print(o['status'],o['time'],o['n'],o['line'],o['label'])
