#!/usr/bin/env python3
"""Validate trace files with Trace and list violations: tv.py [-l LABEL] FILE.nd..."""
import sys,subprocess,os,re,json,collections,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
SPEC=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'spec')
JAR='/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
def run(f,mod='Trace'):
    d=tempfile.mkdtemp()
    env=dict(os.environ,TRACES=os.path.abspath(f),LABEL='any')
    p=subprocess.run(['java','-Xmx5g','-XX:+UseParallelGC','-XX:ParallelGCThreads=2','-cp',JAR,'tlc2.TLC','-config',mod+'.cfg','-metadir',d,'-noGenerateSpecTE','-workers','2',mod+'.tla'],cwd=SPEC,env=env,capture_output=True,text=True)
    shutil.rmtree(d)
    out=p.stdout
    bad=[]
    for m in re.finditer(r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}\s*>>',out):
        bad.append((m[1],int(m[2]),m[3],re.sub(r'[\s"]','',m[4])))
    m=re.search(r'(\d+) states generated, (\d+) distinct',out)
    if not m or 'Error:' in out: print('TLC:', out[max(0,out.find('Error:')):][:500])
    return bad,int(m[2]) if m else 0
def chunks(f,size=12_000_000):
    out=[];cur=[];n=0
    d=tempfile.mkdtemp()
    def fl():
        if cur:
            p='%s/%d.nd'%(d,len(out)); open(p,'w').writelines(cur); out.append(p)
    for l in open(f):
        if n+len(l)>size: fl(); cur=[];n=0
        cur.append(l); n+=len(l)
    fl()
    return d,out
if __name__=='__main__':
    mod='Trace'
    args=sys.argv[1:]
    if args[0]=='-m': mod=args[1]; args=args[2:]
    ex_=ThreadPoolExecutor(4)
    jobs=[]
    for f in args:
        d,cs=chunks(f)
        jobs.append((f,d,[ex_.submit(run,c,mod) for c in cs]))
    for f,d,fs in jobs:
        bad=[];st=0
        for x in fs:
            b,s=x.result(); bad+=b; st+=s
        shutil.rmtree(d)
        print('##',f,'traces',open(f).read().count('\n'),'states',st,'bad',len(bad),flush=True)
        c=collections.Counter((b[2],b[3]) for b in bad)
        ex={}
        for b in bad: ex.setdefault((b[2],b[3]),b)
        for k,n in c.most_common(25): print('  %4d %s [%s] e.g. %s @%d'%(n,k[0],k[1],ex[k][0],ex[k][1]),flush=True)
