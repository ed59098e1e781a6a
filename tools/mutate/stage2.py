import json,os,subprocess,sys,glob,re,multiprocessing as mp
ORD=[('lexer/','C19 C01 C05 C13 C10'),('token/','C05 C01 C19 C13 C03 C08'),
('parser/','C06 C01 C02 C03 C07 C13 C08'),
('evaluator/evaluator.go','C06 C01 C02 C03 C04 C07 C11 C20 C13'),
('evaluator/','C11 C20 C09'),
('object/','C12 C01 C20 C03 C11'),
('ast/','C06 C07 C13'),
('fail/','C06 C13 C17 C20 C09 C14'),
('','C06 C20 C17 C18 C13')]
def checks(f):
    for p,c in ORD:
        if f.startswith(p): return c.split()
def run(a):
    k,ids=a
    v=f'/tmp/mut/v{k}'
    if not os.path.isdir(v):
        os.makedirs(v); subprocess.run(f'cd /verif && cp -a check.sh env.sh mc known_findings.txt MANIFEST.json properties.jsonl {v}/ ; mkdir -p {v}/evidence',shell=True,check=True)
    w=f'/tmp/mut/x{k}'
    if not os.path.isdir(w): subprocess.run(['cp','-a','/repo',w],check=True)
    for i in ids:
        o=f'/tmp/mut/s/{i}'
        if os.path.exists(o): continue
        m=json.load(open(f'/tmp/mut/m/{i}.json'))
        p=f"{w}/{m['file']}"; src=open(p,'rb').read()
        open(p,'wb').write(src[:m['off']]+m['text'].encode()+src[m['off']+m['del']:])
        res='MISSED'
        try:
            for c in checks(m['file']):
                try:
                    t=subprocess.Popen(['unshare','-Urm','bash','-c',f'mount --bind {w} /repo; cd {v}; VERIF_FIRST=1 ./check.sh {c} quick -budget 60'],stdout=open(f'/tmp/mut/out{k}','w'),stderr=subprocess.DEVNULL,start_new_session=True)
                    t.wait(timeout=300)
                    try: os.killpg(t.pid,9)
                    except ProcessLookupError: pass
                    out=open(f'/tmp/mut/out{k}',errors='replace').read()
                    if t.returncode==1:
                        res='caught '+c+' '+out.split('FIRST')[-1][:300]; break
                    if t.returncode!=0: res='MISSED(rc%d %s)'%(t.returncode,c)
                except subprocess.TimeoutExpired: res='MISSED timeout '+c
        finally: open(p,'wb').write(src)
        open(o,'w').write(res)
os.makedirs('/tmp/mut/s',exist_ok=True)
N=int(sys.argv[1])
ids=[i for i in open('/tmp/mut/pick.txt').read().split() if not os.path.exists(f'/tmp/mut/s/{i}')]
print(len(ids),flush=True)
with mp.Pool(N) as p: p.map(run,[(k,ids[k::N]) for k in range(N)],chunksize=1)
