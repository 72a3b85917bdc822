import subprocess,random,json,sys,os
sys.path.insert(0,'/verif'); import check, checks, tempfile, shutil
S=[([[0],[1]],[2,2]),([[1,0],[2]],[2,3,2]),([[2,1],[0,1]],[2,2,3]),([[3,1],[2,0]],[1,2,3,2]),([[0,1,2],[0,3]],[2,2,2,2])]
SI=[0,5,10,19,14]
import itertools
scratch=tempfile.mkdtemp(); c=checks.C("x","h_r",["C19"],lang="r"); b=check.Build(scratch); b.compile([c]); exe=b.link(("r","h_r",1))
random.seed(4)
def flat(ix,sh):
    r=0
    for i,s in zip(ix,sh): r=r*s+i
    return r
bad=0;tot=0
rs=["suppressMessages(library(humanleague, lib.loc='/repo/_build/Rlib'))"]; exps=[]
for (idx,sz),si in zip(S,SI):
  for rep in range(6):
    cells=list(itertools.product(*map(range,sz))); a={x:random.choice([0,0,1,2,5,30]) for x in cells}
    if sum(a.values())==0: a[cells[0]]=1
    ms=[]
    for k in idx:
        sh=[sz[d] for d in k]; v=[0]*(eval('*'.join(map(str,sh))))
        for x in cells: v[flat([x[d] for d in k],sh)]+=a[x]
        ms.append((sh,v))
    inp={"scen":si,"skip":0}
    for k,(sh,v) in enumerate(ms):
        for i,x in enumerate(v): inp["m%d_%02d"%(k,i)]=x
    def colm(sh,v):
        out=[]
        for x in itertools.product(*map(range,reversed(sh))): out.append(v[flat(x[::-1],sh)])
        return out
    I="list(%s)"%",".join("c(%s)"%",".join(str(d+1) for d in k) for k in idx)
    M="list(%s)"%",".join("array(c(%s),dim=c(%s))"%(",".join(map(str,colm(sh,v))),",".join(map(str,sh))) for sh,v in ms)
    n=1
    for d in sz:n*=d
    seed=[0.25*(1+(i*7+6)%11) for i in range(n)]
    SD="array(c(%s),dim=c(%s))"%(",".join(map(str,colm(sz,seed))),",".join(map(str,sz)))
    for part,call in ((0,"qis(%s,%s)"%(I,M)),(1,"qisi(%s,%s,%s)"%(SD,I,M)),(2,"ipf(%s,%s,%s)"%(SD,I,M))):
        r=check.native(exe,inp,{"part":part,"phi":100000,"pattern":2},60,scratch)
        if part<2: mine=[int(o[1]) for o in r["obs"] if o[0]=="c"]
        else: mine=[float.fromhex(o[1]) for o in r["obs"] if o[0]=="f"]
        tot+=1
        exps.append((r["fails"],mine,sz,part)); rs.append("x=tryCatch(%s,error=function(e) NULL); cat(if(is.null(x)) 'ERR' else paste(sprintf('%%.12g',x$result),collapse=' '),'\\n')"%call)
open('/tmp/rv.R','w').write("\n".join(rs)); out=subprocess.run(["Rscript","--no-init-file","/tmp/rv.R"],capture_output=True,text=True).stdout.splitlines()
for (f,mine,sz,part),l in zip(exps,out):
    if l.strip()=="ERR": got=[]
    else:
        v=[float(x) for x in l.split()]; got=[]
        for x in itertools.product(*map(range,sz)):
            rsz=sz[::-1]; got.append(v[flat(x[::-1],rsz)])
    ok=not f and len(got)==len(mine) and all(abs(p-q)<1e-6 for p,q in zip(got,mine))
    if not ok: print("DIFF",part,sz,f,got[:8],mine[:8]); bad+=1
print(tot,len(out),bad); shutil.rmtree(scratch)
