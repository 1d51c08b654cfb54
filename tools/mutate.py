import random,re,subprocess,sys,os,json,time
seed=int(sys.argv[1]); count=int(sys.argv[2]); sel=sys.argv[3] if len(sys.argv)>3 else ''
rng=random.Random(seed)
M='/tmp/mt'; M0='/tmp/mt0'; W='/tmp/mw'
MAP=[('calendar/',['C01','C02']),('matrix/',['C03','C04']),('polynomial/',['C03','C04']),('geometry/',['G06','G01','G02','G03','G04','G05']),
('model/src/hvac',['P01','P02','P03','R09']),('model/',['P01','P02','P03']),('derive/',['P01','P02','P03']),('schedule/',['P05']),
('weather/src/epw',['P04']),('weather/',['P05','P06','P07','P08','P04','R06']),('air/',['P09']),('heat/',['P10','P11','P12','P13','P14']),
('rendering/src/from_',['R05']),('rendering/src/daylight',['R07']),('rendering/src/material',['R02','R03']),('rendering/src/image',['R04']),('rendering/src/colour',['R04']),('rendering/src/camera',['R04']),('rendering/',['R01','R03','R02','R04','R05','R07']),('light/',['R06','R07']),('src/',['R09','R08'])]
files=[]
for d,_,fs in os.walk(M0):
    if '/tests' in d or '/target' in d or '/bin' in d or '/examples' in d or 'test_models' in d or '/communication' in d or 'backward_metropolis' in d or '/utils' in d: continue
    for f in fs:
        if f.endswith('.rs'):
            p=os.path.join(d,f)[len(M0)+1:]
            if p.startswith(sel) and any(p.startswith(a) for a,_ in MAP): files.append(p)
def body(p):
    t=open(f'{M0}/{p}').read()
    i=t.find('#[cfg(test)]\nmod')
    return t[:i] if i>=0 else t, t
ops=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r' \+= ',' -= '),(r' -= ',' += '),
(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\.max\(','.min('),(r'\.min\(','.max('),(r'\.sin\(\)','.cos()'),(r'\.cos\(\)','.sin()'),
(r'\bfront_','back_'),(r'\bback_','front_'),(r'\.x\b','.y'),(r'\.y\b','.z'),(r'\.z\b','.x'),(r' == ',' != '),(r' != ',' == '),(r'\bif ','if !'),(r'\.first\(\)','.last()'),(r'\.sqrt\(\)',''),(r'\.abs\(\)',''),(r'\.powi\(2\)','.powi(3)'),('NUM',None),('INT',None),('DEL',None),('continue;',''),('break;','')]
lines=[]
for p in files:
    b,_=body(p)
    off=0
    for l in b.splitlines(keepends=True):
        s=l.strip()
        if s and not s.startswith('//') and not s.startswith('#') and not s.startswith('use ') and 'debug_assert' not in s and 'eprintln' not in s and 'feature' not in s:
            lines.append((p,off,l))
        off+=len(l)
print(len(files),'files',len(lines),'lines',flush=True)
def mutate():
    while True:
        p,off,l=rng.choice(lines)
        code=l.split('//')[0]
        cand=[]
        for a,b in ops:
            if a=='NUM':
                for m in re.finditer(r'(?<![\w.])(\d+\.\d*)(?![\w.])',code): cand.append((m.start(),m.end(),rng.choice([str(float(m.group(1))*1.05+(0.01 if float(m.group(1))==0 else 0)),str(float(m.group(1))+1)])))
            elif a=='INT':
                for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code): cand.append((m.start(),m.end(),str(int(m.group(1))+1)))
            elif a=='DEL':
                s=code.strip()
                if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and ('=' in s or '(' in s) and s.count('(')==s.count(')'): cand.append((len(code)-len(code.lstrip()),len(code.rstrip()),''))
            else:
                for m in re.finditer(a,code): cand.append((m.start(),m.end(),b))
        if not cand: continue
        # prefer diversity
        s,e,r=rng.choice(cand)
        new=l[:s]+r+l[e:]
        if new==l: continue
        return p,off,l,new
os.environ['VH_SCALE']=os.environ.get('VH_SCALE','2')
done=0
while done<count:
    p,off,l,new=mutate()
    t=open(f'{M0}/{p}').read()
    open(f'{M}/{p}','w').write(t[:off]+new+t[off+len(l):])
    res='MISSED'; by=''
    t0=time.time()
    for a,props in MAP:
        if p.startswith(a):
            for pr in props:
                env=dict(os.environ)
                env.pop('VH_SCALE')
                try:
                    r=subprocess.run(['timeout','400','./run.sh',pr,'quick'],cwd=W,capture_output=True,text=True,env=env)
                except Exception as ex:
                    res='ERR';break
                if r.returncode==1: res='caught';by=pr;break
                if r.returncode==2: res='nobuild';break
                if r.returncode!=0: res='caught?';by=f'{pr} rc {r.returncode}';break
            break
    open(f'{M}/{p}','w').write(t)
    if res=='nobuild': continue
    done+=1
    ln=t[:off].count('\n')+1
    print(f'{res} {by} {p}:{ln} [{time.time()-t0:.0f}s]\n   - {l.strip()}\n   + {new.strip()}',flush=True)
