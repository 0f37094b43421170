#!/usr/bin/env python3
"""mut.py PROPS(comma) FILE FUNCS(comma|all) N SLOTS SEED  -- automated mutants, run property checks, list survivors"""
import sys,re,random,subprocess,os,shutil,threading,queue,time,json
props,f,funcs,N,slots,seed=sys.argv[1].split(','),sys.argv[2],sys.argv[3],int(sys.argv[4]),int(sys.argv[5]),int(sys.argv[6])
SRC='/repo/'+f if os.environ.get('MUTREPO') is None else os.environ['MUTREPO']+'/'+f
L=open(SRC).read().split('\n')
# function ranges: line starting at col 0 with name( ... { until '^}'
rng={}
i=0
while i<len(L):
    m=re.match(r'^[A-Za-z_].*?\b(\w+)\s*\(',L[i])
    if m and not L[i].rstrip().endswith(';') and not L[i].startswith(('#','typedef')):
        j=i
        while j<len(L) and '{' not in L[j] and not L[j].rstrip().endswith(';'): j+=1
        if j<len(L) and '{' in L[j] and not L[j].rstrip().endswith(';'):
            k=j
            while k<len(L) and not L[k].startswith('}'): k+=1
            rng[m.group(1)]=(j+1,k); i=k
    i+=1
if funcs=='list': print({k:v[1]-v[0] for k,v in rng.items()}); sys.exit()
names=list(rng) if funcs=='all' else funcs.split(',')
SKIP=re.compile(r'malloc|realloc|calloc|strdup|PROFILE|getenv|fprintf|debug|DEBUG|capacity|remaining|free\(|NULL|/\*|^\s*\*|//|PROGRESS|perror|buf_size|sizeof')
def muts(ln):
    s=L[ln]; out=[]
    if SKIP.search(s) or not s.strip(): return out
    code=re.sub(r'"(\\.|[^"])*"',lambda m:'"'+'\x01'*(len(m.group(0))-2)+'"',s)
    for pat,rep in [(r'<=','<'),(r'>=','>'),(r' < ',' <= '),(r' > ',' >= '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),(r' \+ 1\b',''),(r' - 1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bcontinue;',';'),(r'\bbreak;',';'),(r' \+= ',' = '),(r'\bif \(!','if ('),(r"'\\t'","' '"),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b2\b','3'),(r'\b3\b','4'),(r'\b4\b','5')]:
        for m in re.finditer(pat,code):
            out.append((pat,s[:m.start()]+rep+s[m.end():]))
    # drop one alternative of || or &&
    for m in re.finditer(r" (\|\||&&) [^|&()]+(\([^()]*\)[^|&()]*)?(?=( \|\|| &&|\)))",code):
        out.append(('dropalt',s[:m.start()]+s[m.end():]))
    if re.match(r"^\s+[\w\*\->\.\[\]]+ (=|\+=|-=|\|=) .*;$",code) or re.match(r"^\s+\w+\(.*\);$",code) or re.match(r'^\s+(\*?\w+(\+\+|--);)$',code):
        out.append(('delstmt',re.match(r'\s*',s).group(0)+';'))
    return [(p,r) for p,r in out if r!=s]
allm=[]
for n in names:
    a,b=rng[n]
    for ln in range(a,b):
        for p,r in muts(ln): allm.append((n,ln,p,r))
random.Random(seed).shuffle(allm)
# at most one per line first
seen=set(); first=[m for m in allm if not (m[1] in seen or seen.add(m[1]))]
rest=[m for m in allm if m not in first]
sel=(first+rest)[:N]
print(len(allm),'mutants,',len(sel),'selected',flush=True)
q=queue.Queue()
for m in sel: q.put(m)
res=[]; lock=threading.Lock()
def slot(k):
    base='/tmp/apexv-mut%d'%k
    subprocess.run('mkdir -p %s/repo %s/verif; rsync -a --delete --exclude .git --exclude build %s/ %s/repo/; rsync -a --delete --exclude .git --exclude evidence --exclude seeded %s/ %s/verif/'%(base,base,os.environ.get('MUTREPO','/repo'),base,os.environ.get('MUTVERIF','/verif'),base),shell=True)
    while True:
        try: n,ln,p,r=q.get_nowait()
        except queue.Empty: return
        T=list(L); T[ln]=r
        open(base+'/repo/'+f,'w').write('\n'.join(T))
        st='SURVIVED'; t0=time.time()
        for pr in props:
            try:
                c=subprocess.run(['timeout','200','python3-vt','check.py',pr],cwd=base+'/verif',env=dict(os.environ,VERIF_REPO=base+'/repo',VERIF_SEED='1',VERIF_NOSHRINK='1'),capture_output=True,text=True,errors='replace')
            except Exception as e: st='err'; break
            if 'BUILD ERROR' in c.stdout+c.stderr: st='nobuild'; break
            if c.returncode==1: st='killed '+pr; break
            if c.returncode!=0: st='rc%d %s'%(c.returncode,pr); break
        with lock:
            res.append(st)
            if not st.startswith(('killed','nobuild','rc124')): print('%s %s:%d [%s]\n  - %s\n  + %s'%(st,n,ln+1,p,L[ln].strip(),r.strip()),flush=True)
th=[threading.Thread(target=slot,args=(k,)) for k in range(slots)]
[t.start() for t in th]; [t.join() for t in th]
from collections import Counter
print(Counter(x.split()[0] for x in res))
