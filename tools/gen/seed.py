"""seed.py make|verify|detect [ids]: writes /verif/seeded/<id> from seeds_data.py; confirms a seed; runs its check"""
import sys,os,subprocess,shutil,json,re,tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from seeds_data import SEEDS
BASE='03ba0b7'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def make(s):
    d='/verif/seeded/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    t=tempfile.mkdtemp(); sh('git -C /repo worktree add -f --detach %s/w HEAD'%t)
    try:
        for f,o,n in s['edits']:
            p='%s/w/%s'%(t,f); x=open(p).read(); assert x.count(o)==1,(s['id'],x.count(o),o)
            # blame
            ln=x[:x.index(o)].count('\n')+1; k=o.count('\n')
            open(p,'w').write(x.replace(o,n))
        diff=sh('git -C %s/w diff'%t).stdout
        old=[]
        f=None
        for l in diff.splitlines():
            if l.startswith('--- a/'): f=l[6:]
            m=re.match(r'@@ -(\d+)',l)
            if m: c=int(m.group(1)); continue
            if f and l.startswith('-') and not l.startswith('---'):
                b=sh('git -C /repo blame -s -L %d,%d HEAD -- %s'%(c,c,f)).stdout.split()[0]
                anc=sh('git -C /repo merge-base --is-ancestor %s %s'%(b.lstrip('^'),BASE)).returncode==0
                old.append(anc)
            if f and not l.startswith('+') and not l.startswith('@@') and not l.startswith('---'): c=locals().get('c',0)+1
        if not all(old) or not old: print(s['id'],'LINES NOT ORIGINAL',old)
        open(d+'/patch.diff','w').write(diff)
    finally: sh('git -C /repo worktree remove --force %s/w; git -C /repo worktree prune'%t); shutil.rmtree(t,ignore_errors=True)
    for n,c in s['files'].items(): open(d+'/'+n,'w').write(c)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
def build(): return sh('bash /opt/vp/build.sh').returncode==0
def verify(s):
    d='/verif/seeded/'+s['id']; t=tempfile.mkdtemp(); shutil.copytree(d,t+'/x'); 
    for f in os.listdir(t+'/x'):
        if f.endswith('.diff') or f=='meta.json': os.unlink(t+'/x/'+f)
    ok=[]
    assert sh('git -C /repo status --short').stdout==''
    try:
        r=sh('git -C /repo apply %s/patch.diff'%d); ok.append(('apply',r.returncode==0))
        r=sh('bash /opt/vp/test.sh /tmp/seed_out.json'); j=json.load(open('/tmp/seed_out.json')); ok.append(('tests',len(j['passed']),len(j['failed'])))
        r=sh('timeout 300 bash %s/x/demo.sh'%t,cwd='/repo'); ok.append(('demo patched',r.returncode)); out=r.stdout[-300:]
        if s.get('check',1) and '--nocheck' not in sys.argv:
            r=sh('checks/run %s'%s['property'],cwd='/verif'); ok.append(('check',r.returncode)); out+='\n'+r.stdout[:700]
    finally:
        sh('git -C /repo checkout -- .')
    print(s['id'],ok,out.strip().replace('\n','\n     '),flush=True); shutil.rmtree(t)
def clean(ss):
    print('build',build())
    for s in ss:
        t=tempfile.mkdtemp(); shutil.copytree('/verif/seeded/'+s['id'],t+'/x')
        r=sh('timeout 300 bash %s/x/demo.sh'%t,cwd='/repo'); print(s['id'],'clean demo',r.returncode, r.stdout[-200:] if r.returncode else '',flush=True); shutil.rmtree(t)
a=[x for x in sys.argv[2:] if x[0]!='-']
ss=[s for s in SEEDS if not a or s['id'] in a]
if 'make' in sys.argv[1]:
    for s in ss: make(s)
if 'verify' in sys.argv[1]:
    for s in ss: verify(s)
    clean(ss)
