# rn.sh ID budget : build+run harness on VERIF_REPO
cd /verif; python3-vt - "$@" <<'P'
import sys,os,json,tempfile,shutil
sys.path.insert(0,'/verif')
from native import runner
pid=sys.argv[1]; b=float(sys.argv[2]) if len(sys.argv)>2 else 5
d=tempfile.mkdtemp(prefix='rn')
try:
    r=runner.run_c(pid,os.environ.get('VERIF_REPO','/repo'),d,'quick',1,b)
    for f in r['failures']: print(f['what'][:1500]); print(f['case'][:600]); print(f['output'][:2500])
    r['failures']=len(r['failures']); print(json.dumps(r,indent=0)[:1500])
finally: shutil.rmtree(d)
P
