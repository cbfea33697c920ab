import sys,os,json,tempfile,shutil,importlib
sys.path.insert(0,'/verif')
pid=sys.argv[1]; b=float(sys.argv[2])
m=importlib.import_module('native.'+pid.lower())
from native import cli
d=tempfile.mkdtemp(prefix='rp')
try:
    import native.cli as c
    o=c.run_sessions
    def rs(*a,**k): k['budget']=b; return o(*a,**k)
    c.run_sessions=rs
    r=m.run(os.environ.get('VERIF_REPO','/repo'),d,'quick',int(os.environ.get('VERIF_SEED','1')))
    print(json.dumps(r,indent=0)[:4000])
finally: shutil.rmtree(d)
