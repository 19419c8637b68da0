#!/bin/bash
# replay.sh <file.json>: rebuild the harness natively against /repo and run the recorded counterexample
exec python3-vt - "$1" <<'P'
import json,sys,os,subprocess,tempfile
sys.path.insert(0,'/verif')
import check
j=json.load(open(sys.argv[1]))
if j['kind']=='compile': sys.exit(subprocess.run(j['command']).returncode)
d=tempfile.mkdtemp()
t=check.TU(); t.src=j['tu']; t.name='r'
exe=check.build_native(t,d,j.get('tier','quick'),j['replay_build'])
rc,out=check.run_native(exe,j['harness'],[(k,v) for k,_,v in j['inputs']],d,j['replay_build'],tol=j.get('tol'))
print('exit',rc); print(out)
P
