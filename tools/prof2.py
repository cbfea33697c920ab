import sys,os,traceback,collections,time
sys.path.insert(0,'/verif')
from vcg import verify as V, core
mods=sys.argv[1].split(','); name=sys.argv[2]; b=float(sys.argv[3]) if len(sys.argv)>3 else None
tot=collections.Counter(); cntr=collections.Counter(); ex={}
orig=core.Engine.check
def chk(self,*a):
    t=time.time(); r=orig(self,*a); d=time.time()-t
    st=[f.name+':'+str(f.lineno) for f in traceback.extract_stack()[-7:-1]]
    k=' < '.join(reversed(st)); tot[k]+=d; cntr[k]+=1
    if d>1 and k not in ex: ex[k]=str(a[2])[:200]
    return r
core.Engine.check=chk
prog,cts,m=V.setup(modules=mods)
for c in cts.values():
    if c.name==name:
        r=V.verify_one(prog,cts,c,budget=b)
        print(r['status'],r['unsupported'],r.get('paths'),r['time'],r.get('solver_s'))
for k,v in tot.most_common(12): print('%.1f'%v,cntr[k],k, ex.get(k,''))
