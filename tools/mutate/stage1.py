import json,os,subprocess,sys,glob,multiprocessing as mp
def setup(k):
    w=f'/tmp/mut/w{k}'
    if not os.path.isdir(w): subprocess.run(['cp','-a','/repo',w],check=True)
    return w
def run(a):
    k,ids=a
    w=setup(k)
    env=dict(os.environ,GOFLAGS='-mod=mod',CGO_ENABLED='0',GOMAXPROCS='2')
    for i in ids:
        o=f'/tmp/mut/r/{i}'
        if os.path.exists(o): continue
        m=json.load(open(f'/tmp/mut/m/{i}.json'))
        p=f"{w}/{m['file']}"; src=open(p,'rb').read()
        new=src[:m['off']]+m['text'].encode()+src[m['off']+m['del']:]
        open(p,'wb').write(new)
        try:
            b=subprocess.run(['go','build','./...'],cwd=w,env=env,capture_output=True,timeout=120)
            if b.returncode: v='nobuild'
            else:
                try:
                    t=subprocess.run(['bash','-c','ulimit -v 8000000; exec timeout 30 go test -vet=off -timeout 20s ./...'],cwd=w,env=env,capture_output=True)
                    v='survived' if t.returncode==0 else 'killed'
                except Exception as e: v='killed'
        finally: open(p,'wb').write(src)
        open(o,'w').write(v)
os.makedirs('/tmp/mut/r',exist_ok=True)
ids=sorted(os.path.basename(f)[:-5] for f in glob.glob('/tmp/mut/m/*.json'))
N=int(sys.argv[1])
with mp.Pool(N) as p: p.map(run,[(k,ids[k::N]) for k in range(N)],chunksize=1)
