#!/usr/bin/env python3
"""Run the repository's own sample files through the executor (concretely) and
natively, and compare the logs."""
import glob, json, os, subprocess, sys
SX='/verif/target/sx/release/sx'; LL='/verif/target/ir-self/release/deps/harness.ll'; RP='/verif/target/native/debug/replay'
from concurrent.futures import ThreadPoolExecutor
def one(f):
    k=f.split('/')[-2]; s=open(f,'rb').read()
    try: t=s.decode()
    except UnicodeDecodeError: return f,'skip'
    out='/tmp/selft.%s.json'%f.replace('/','_')
    r=[]
    for tz in ('UTC0','CET-1CEST,M3.5.0,M10.5.0/3'):
        subprocess.run([SX,'--ir',LL,'--entry','selft_all','--plain','--env','TZ='+tz,'--env','SX_KIND='+k,'--env','SX_INPUT='+t,'--out',out,'--time','60'],stdout=subprocess.DEVNULL)
        d=json.load(open(out)); os.unlink(out)
        e=dict(os.environ,TZ=tz,SX_KIND=k,SX_INPUT=t)
        n=subprocess.run([RP,'selft_all','/dev/null'],env=e,capture_output=True,text=True,errors='replace').stdout
        nl=n.split('SX-LOG ')[1:] if 'SX-LOG' in n else []
        nl=[x.rstrip('\n') for x in nl]
        if nl: nl[-1]=nl[-1].replace('\nSX-DONE','')
        ok=[x for x in d['logs']]==nl and not d['errors']
        if ok: r.append('same')
        else:
            r.append('DIFF errors=%s viol=%s native=%s'%(d['errors'][:1],[v['id'] for v in d['violations']],n[-200:]))
    return f,' '.join(r)
fs=sorted(glob.glob('/repo/tests/*/*.ics'))
bad=0
with ThreadPoolExecutor(8) as p:
    for f,r in p.map(one,fs):
        if r!='same same': print(f,r[:900]); bad+=1
print(len(fs),'files',bad,'not the same')
