import json,sys
sys.path.insert(0,'/verif/tools/gen')
from props_data import P
with open('/verif/properties.jsonl','w') as o:
    for p in P:
        o.write(json.dumps({"id":p[0],"title":p[1],"statement":p[2],"quantifier":{"over":p[3],"text":p[4]},"why_tests_cant":p[5],
          "anchors":{"files":p[6],"mechanism":[{"name":n,"where":w} for n,w in p[7]],"observe_at":p[8]}})+"\n")
        assert len(p[1])<=80,p[0]
