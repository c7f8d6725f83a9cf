#!/usr/bin/env python3
"""Mutation testing of the checks, in a scratch clone: one operator, constant, condition, call or pragma changed at a time.
usage: mutate.py SCRATCHDIR N RUNS SEED [FILEREGEX]      writes SCRATCHDIR/log-SEED.txt, one JSON object per mutant
A mutant is killed when some check's campaign of RUNS runs shows a verdict other than ok.  Nothing in /repo or /verif changes."""
import sys,os,re,random,json,subprocess,shutil,glob,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D=os.path.abspath(sys.argv[1]); N=int(sys.argv[2]); RUNS=sys.argv[3]; SEED=sys.argv[4]; FILT=sys.argv[5] if len(sys.argv)>5 else "."
REPO=os.environ.get('KNOR_REPO','/repo')
lines=set()
for pat in ('libman/*.?pp','libauto/*.?pp','libdist/*.?pp','libkcommon/*.?pp','binding/*.?pp','exec/*.cpp'):
    for p in glob.glob(REPO+'/'+pat):
        f=os.path.relpath(p,REPO)
        if 'cxxopts' in f or 'gmm' in f or not re.search(FILT,f): continue
        for i in range(1,len(open(p).read().split('\n'))): lines.add((f,i))
def ops(l):
    o=[]
    s=l.strip()
    if not s or s.startswith(('//','*','/*','#','assert','printf','std::cout','perror','throw','}','using','namespace')) or 'cout' in s or 'printf' in s or 'gettimeofday' in s or 'assert' in s or 'VERBOSE' in s: return o
    def rep(pat,new,tag):
        for m in re.finditer(pat,l): o.append((tag,l[:m.start()]+m.expand(new)+l[m.end():]))
    rep(r'(?<![<\-=>])<(?![<=])(?=[^<>]*[;)&|]) *(?=[\w(*])','<=','lt-le') if '<<' not in l and 'static_cast' not in l and 'std::' not in l else None
    rep(r'<=','<','le-lt'); rep(r'>=','>','ge-gt'); rep(r'(?<![\->=])> (?=[\w(])','>= ','gt-ge')
    rep(r'(?<=\w) < (?=\w)',' > ','lt-gt')
    rep(r'==','!=','eq-ne'); rep(r'!=','==','ne-eq'); rep(r'&&','||','and-or'); rep(r'\|\|','&&','or-and')
    rep(r'\btrue\b','false','t-f'); rep(r'\bfalse\b','true','f-t')
    rep(r'(?<![\w.])0(?![\w.])','1','0-1'); rep(r'(?<![\w.])1(?![\w.])','0','1-0'); rep(r'(?<![\w.])1(?![\w.])','2','1-2')
    rep(r' \+ ',' - ','add-sub'); rep(r' - ',' + ','sub-add'); rep(r'(?<=\w)\*(?=\w)','+','mul-add'); rep(r'(?<=[\w)])/(?=[\w(])','*','div-mul')
    rep(r'\+=','=','pe-e'); rep(r'\+=','-=','pe-me'); rep(r'-=','=','me-e')
    rep(r'\bmin\(','max(','min-max'); rep(r'\bmax\(','min(','max-min')
    rep(r'\bif \(','if (!','if-not') if re.match(r'\s*if \([^()]*(\([^()]*\)[^()]*)*\)',l) else None
    o=[(t,x) if t!='if-not' else (t,re.sub(r'if \((.*)\)(?=[^)]*$)',r'if (!(\1))',l,1)) for t,x in o]
    if s.endswith(';') and not s.startswith(('return','const','auto','double','unsigned','size_t','int','std::','bool','T ','long','char','unsigned','struct','FILE','break','continue','case')) and not re.match(r'^[\w:<>*]+ \w+( =|;|\()',s): o.append(('del',re.match(r'\s*',l).group(0)+';'))
    if s in('break;','continue;'): o.append(('delbc',re.match(r'\s*',l).group(0)+';'))
    if 'cond_broadcast' in l: o.append(('bc-sig',l.replace('cond_broadcast','cond_signal')))
    if s.startswith('while (') : o.append(('while-if',l.replace('while (','if (',1)))
    if 'for reduction' in l or 'omp critical' in l or 'omp barrier' in l or 'omp single' in l: o.append(('omp-del',''))
    return o
muts=[]
for f,n in sorted(lines):
    l=open(REPO+'/'+f).read().split('\n')[n-1]
    for t,x in ops(l):
        if x!=l: muts.append((f,n,t,l,x))
random.Random(int(SEED)).shuffle(muts)
print(len(muts),'candidate mutants',flush=True)
if N==0: sys.exit()
muts=muts[:N]
os.makedirs(D,exist_ok=True)
R=D+'/repo'
if not os.path.exists(R): subprocess.run(['git','clone','-q',REPO,R],check=True)
env=dict(os.environ,KNOR_REPO=R,VERIF_BUILD=D+'/b')
def build(): return subprocess.run(['nice','python3',V+'/build.py'],env=env,capture_output=True,text=True).returncode
assert build()==0
ids=[c['property'] for c in json.load(open(V+'/MANIFEST.json'))['checks'] if c['property']!='C35']
for (f,n,t,l,x) in muts:
    p=R+'/'+f; src=open(REPO+'/'+f).read(); a=src.split('\n'); a[n-1]=x; open(p,'w').write('\n'.join(a)); t0=time.time(); k={}
    if build(): res='NOBUILD'
    else:
        order=ids[:]; random.Random(f+str(n)+t).shuffle(order)
        for i in order:
            try:
                o=subprocess.run(['nice',D+'/b/simknor','hist',i,'--runs',RUNS,'--workers','4'],env={'PATH':'/usr/bin:/bin','VERIF_SEED':'1'},capture_output=True,text=True,timeout=90,cwd=D).stdout
                bad=[m for m in re.findall(r'^ *(\d+) (.*?)  e\.g\.',o,re.M) if not m[1].startswith('ok ')]
                if bad: k[i]=[sum(int(b[0]) for b in bad), max(bad,key=lambda b:int(b[0]))[1][:80]]
                elif 'nontrivial' not in o: k[i]=[0,'no output']
            except subprocess.TimeoutExpired: k[i]=[0,'timeout']
            if k: break
        res='KILLED' if k else 'SURVIVED'
    open(p,'w').write(src)
    open(D+'/log-'+SEED+'.txt','a').write(json.dumps(dict(res=res,file=f,line=n,op=t,old=l.strip(),new=x.strip(),kill=k,t=round(time.time()-t0,1)))+'\n')
