import json,sys,re
sys.path.insert(0,'/verif/tools/gen')
from manifest_data import C,NA
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"python3-vt -c \"import sys; sys.path.insert(0,'.'); from engine import build; build.irdump()\"",
"checks":[{"property":i,"quick_cmd":"checks/run %s"%i,"thorough_cmd":"checks/run %s --strict"%i,"technique":C[i][0],"level":C[i][1],"level_note":C[i][2]} for i in ids if i in C],
"not_applicable":[{"property":i,"reason":NA[i]} for i in ids if i in NA],
"notes":"All checks analyse LLVM IR that clang produces from /repo's current source; see DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
assert all((i in C)!=(i in NA) for i in ids),[i for i in ids if (i in C)==(i in NA)]
