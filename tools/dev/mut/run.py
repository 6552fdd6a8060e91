"""mutants: run.py file.py [slots]  -- file defines M=[(id, props, [(file, old, new[,count])])]"""
import sys,os,subprocess,threading,queue,time,shutil,json
f=sys.argv[1]; slots=int(sys.argv[2]) if len(sys.argv)>2 else 4
only=set(sys.argv[3:])
ns={}; exec(open(f).read(),ns); M=ns['M']
CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
q=queue.Queue()
for m in M:
    if only and m[0] not in only: continue
    q.put(m)
out=open('/tmp/mut/results.txt','a'); lock=threading.Lock()
def prep(s):
    d=f'/tmp/mut/s{s}'
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.check_call(['cp','-a','/repo',d+'/repo'])
    subprocess.check_call(['rsync','-a','--delete','--exclude','seeded','--exclude','evidence',os.environ.get('VSRC','/verif')+'/',d+'/verif/']) if shutil.which('rsync') else subprocess.check_call(f'mkdir -p {d}/verif; cd {os.environ.get("VSRC","/verif")} && tar cf - --exclude=./seeded --exclude=./evidence --exclude=./.git . | tar xf - -C {d}/verif',shell=True)
    os.makedirs(d+'/verif/evidence',exist_ok=True)
    subprocess.check_call(f'git -C {d}/repo fetch -q /repo HEAD && git -C {d}/repo checkout -q -- . && git -C {d}/repo reset -q --hard FETCH_HEAD',shell=True)
    return d
def work(s):
    d=prep(s)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        mid,props,edits=m[:3]
        subprocess.check_call(['git','-C',d+'/repo','checkout','-q','--','.'])
        bad=None
        if isinstance(edits,str):
            r=subprocess.run(['git','-C',d+'/repo','apply',edits]); bad='apply' if r.returncode else None; edits=[]
        for e in edits:
            p=d+'/repo/'+e[0]; t=open(p,encoding='utf-8').read(); n=t.count(e[1]); want=e[3] if len(e)>3 else 1
            if n!=want: bad=f'edit: {e[1][:50]!r} found {n} times'; break
            open(p,'w',encoding='utf-8').write(t.replace(e[1],e[2]))
        if bad:
            with lock: print(mid,'BAD',bad,flush=True); out.write(f'{mid} BAD {bad}\n'); out.flush()
            continue
        for p in props:
            t0=time.time()
            r=subprocess.run(['/tmp/mut/ns.sh',d,f'VERIF_SEED={os.environ.get("SEED","1")} VERIF_TIER=quick timeout 900 bin/check {p}'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            det=''
            ls=r.stdout.splitlines()
            for i,l in enumerate(ls):
                if l.startswith('VIOLATION'): det=ls[i+1].strip()[:150] if i+1<len(ls) else ''; break
            verdict='caught' if r.returncode==1 and v else 'MISSED' if r.returncode==0 else f'rc{r.returncode}'
            if verdict.startswith('rc'): det=r.stdout[-600:]
            line=f'{mid:28s} {p} {verdict} {time.time()-t0:.0f}s {det}'
            with lock: print(line,flush=True); out.write(line+'\n'); out.flush()
    
ts=[threading.Thread(target=work,args=(i,)) for i in range(int(os.environ.get('OFF','0')),int(os.environ.get('OFF','0'))+slots)]
[t.start() for t in ts]; [t.join() for t in ts]
