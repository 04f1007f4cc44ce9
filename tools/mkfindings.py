import subprocess, json
M = {
'beff3a6':'C03','80c8e10':'C01',
'4b91108':'C03','6abd5bc':'C03','dc8e350':'C08','7103490':'C08','f0f2f51':'C08','c3dfeeb':'C08','2591cf7':'C08','bc085d1':'C08','94c547e':'C08',
'0c18a32':'C01','add48c1':'C01','c98f98c':'C01','96dc9c7':'C07','abc7c84':'C07','e3f79b6':'C01','0f042df':'C05','1bdeb6d':'C08','776896f':'C08','ca5f7c7':'C10','ab43eb8':'C05','25f3800':'C11','f82274d':'C11','051a252':'C11','f35f4b9':'C08','175d345':'C04','0fcb560':'C06','8a4b17e':'C07','34a9ff5':'C07','1a18333':'C07','b79c432':'C09','b2a08f2':'C08','e0f0348':'C05','95086cc':'C12','999c26e':'C12','078e0b2':'C12','78678e0':'C12','f449088':'C13','8a128a7':'C12','f9911df':'C09','a67d32c':'C12','9867eab':'C08','ea92b09':'C03','064bb75':'C03','31c9302':'C03','3978894':'C05','e929941':'C09','bbc38cd':'C07','fad4f17':'C17','82e0fcf':'C17','73108e5':'C17','d5b4125':'C17','205c013':'C16','5fff396':'C17','9d76a04':'C18','06cd2e8':'C18','3f51c2c':'C05','6197886':'C07','70d093a':'C07','2e7c0f6':'C15','9a7ed67':'C15','4edd70c':'C15','79d8233':'C06','a9d4115':'C08','cdf116b':'C08','a35460c':'C08','bd17ad6':'C08','f5d6dbf':'C09','3b2e214':'C09','7374665':'C09','0b04b7d':'C09','b53c051':'C09','4829d3d':'C05','fe59d8e':'C06','746aeeb':'C08','28312e7':'C15','96f006f':'C06','f825362':'C09','366eaa4':'C04','ac39e48':'C09','259469f':'C03','69e1cf2':'C11','679999c':'C08','33794b9':'C08','73a420e':'C08','6ee624e':'C08','8441999':'C08','0af2271':'C08','31f8f65':'C08','8d017c2':'C04'}
out=["# Genuine defects of ratel-core that the checks found. `finding:` lines are recorded, not repaired:",
"# the exact case fails on the unchanged tree. `fixed:` lines are repaired by the commit and suppress nothing.",""]
F=[("Name 2 3 a.b;","the property name of a member expression is located at the token after it, as an existing test demands (`foo.bar` at 7..7)"),
("New 0 8 new a(b);","a `new` expression ends at the end of the token after it, as existing tests demand"),
("New 0 5 new a;","a `new` expression without arguments ends at the end of the token after it, as existing tests demand"),
("Seq 0 4 a, b;","a sequence ends at the end of the token after it, as existing tests demand"),
("ImpSpec 8 9 import {a} from 'x'","an import specifier ends at the end of the token after it, as existing tests demand"),
("ImpDef 7 8 import a from 'x'","a default import specifier ends at the end of the token after it, as existing tests demand"),
("ImpNs 7 13 import * as a from 'x'","a namespace import specifier ends at the end of the token after it, as existing tests demand"),
]
for d,w in F: out.append(f"finding: property=C09 kind=location data={json.dumps(d)} what={w}")
out.append("")
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
for l in log:
    h,_,s=l.partition(' ')
    if s.startswith('fix:'):
        out.append(f"fixed: property={M[h]} {h} {s[5:]}")
open('/verif/known-findings.txt','w').write("\n".join(out)+"\n")
