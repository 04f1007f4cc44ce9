#!/usr/bin/env python3
"""mkseed.py spec.py [--nocheck]: spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (rust main body file text), DEPS"""
import sys, subprocess, os, json, re, shutil
spec={}
exec(open(sys.argv[1]).read(), spec)
ID=spec['ID']; R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
d=f'/verif/seeded/{ID}'
try:
    for f,o,n in spec['EDITS']:
        p=os.path.join(R,f); s=open(p).read()
        assert s.count(o)==1, (f, s.count(o), o)
        open(p,'w').write(s.replace(o,n))
    diff=sh('git -C /repo diff').stdout
    # blame
    cur=None; own=False; orig=0
    for f in set(e[0] for e in spec['EDITS']):
        fd=sh(f'git -C /repo diff -U0 {f}').stdout
        bl=sh(f'git -C /repo blame -s HEAD -- {f}').stdout.splitlines()
        base=set(sh('git -C /repo log --format=%h --abbrev=8 247f557').stdout.split())
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
            a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
            for i in range(a,a+n):
                h=bl[i-1].split()[0]
                is_base = h.startswith('^') or sh(f'git -C /repo merge-base --is-ancestor {h} 247f557').returncode==0
                if is_base: orig+=1
                else: print('OWN LINE', f, bl[i-1]); own=True
    print('original lines changed:', orig)
    r=sh('bash /tmp/t.sh').stdout.strip(); print(r)
    ok=r.endswith('196 passed, 0 failed')
    if not ok: print(r[-2000:]); sys.exit(1)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':spec['PROP'],'needs':spec['NEEDS'],'what_it_breaks':spec['BREAKS']}, open(d+'/meta.json','w'), indent=1)
    open(d+'/main.rs','w').write(spec['MAIN'])
    shutil.copy('/tmp/demo.sh', d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    for n,c in spec.get('FILES',{}).items(): open(d+'/'+n,'w').write(c)
    x=sh(f'bash {d}/demo.sh', cwd=R); print('demo patched:', x.returncode, (x.stdout+x.stderr)[-300:])
    bad=x.returncode==0
    if '--nocheck' not in sys.argv:
        c=sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {spec["PROP"]} quick'); print('CHECK', c.returncode, c.stdout[-600:], c.stderr[-300:])
finally:
    sh('git -C /repo checkout -- .')
x=sh(f'bash {d}/demo.sh', cwd=R); print('demo clean:', x.returncode, (x.stdout+x.stderr)[-300:])
sh('bash /tmp/t.sh')
