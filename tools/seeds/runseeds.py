import sys,subprocess,os
args=sys.argv[1:]; f=args[0]; ids=[a for a in args[1:] if not a.startswith('-')]; fl=[a for a in args[1:] if a.startswith('-')]
ns={}; exec(open('/tmp/seeds/common.py').read(),ns); exec(open(f).read(),ns)
for d in ns['S']:
    if ids and d['ID'] not in ids: continue
    p=f"/tmp/seeds/spec_{d['ID']}.py"
    open(p,'w').write('\n'.join(f'{k}={v!r}' for k,v in d.items()))
    print('=====',d['ID'],flush=True)
    r=subprocess.run(['python3','/tmp/mkseed.py',p]+fl,capture_output=True,text=True); print(r.stdout[-2500:],r.stderr[-1500:],flush=True)
