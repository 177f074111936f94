#!/usr/bin/env python3
# plant.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]
# Makes seeded/ID from a textual edit of /repo's HEAD, and confirms it in a scratch copy:
# it builds, the tests pass, and seeded/ID/demo.sh (already there) passes without the change and fails with it.
# FILE OLD NEW may be replaced by one argument "@path/to/edited/tree" diffed against HEAD.
import sys,os,subprocess,shutil,json,tempfile
id,prop,needs,breaks=sys.argv[1:5]
d='/verif/seeded/'+id
os.makedirs(d,exist_ok=True)
w=tempfile.mkdtemp(prefix='plant',dir='/tmp')
r=w+'/repo'
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
def sh(c,cwd=r,show=False):
    p=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    if show: print(p.stdout[-1500:])
    return p.returncode,p.stdout
try:
    shutil.copytree('/repo',r,symlinks=True)
    sh('git checkout -q -- .')
    b,o=sh('mkdir -p dist && go build -buildvcs=false -o dist/ ./...')
    assert b==0,o
    rc,o=sh('bash %s/demo.sh'%d)
    if rc!=0: print('demo FAILS on the unchanged tree\n',o[-2500:]); sys.exit(1)
    a=sys.argv[5:]
    while a:
        f,old,new=a[:3]; a=a[3:]
        s=open(r+'/'+f).read()
        n=1
        if old.startswith('#') and ':' in old and old[1:old.index(':')].isdigit():
            n=int(old[1:old.index(':')]); old=old[old.index(':')+1:]
        i=-1
        for _ in range(n):
            i=s.find(old,i+1)
            if i<0: print('not found:',f,old); sys.exit(1)
        if n==1 and s.count(old)>1 and not sys.argv[6].startswith('#'): print('warning: %d occurrences'%s.count(old))
        s=s[:i]+new+s[i+len(old):]
        open(r+'/'+f,'w').write(s)
    rc,diff=sh('git diff')
    b,o=sh('go build -buildvcs=false -o dist/ ./...')
    if b!=0: print('does not build',o); sys.exit(1)
    b,o=sh('go test -vet=off -buildvcs=false -count=1 ./...')
    if b!=0: print('TESTS FAIL',o); sys.exit(1)
    rc,o=sh('bash %s/demo.sh'%d)
    if rc==0: print('demo PASSES with the change\n',o[-2500:]); sys.exit(1)
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    print('planted',id,'| demo says:',o.strip().splitlines()[-6:])
    # which checks see it
    p=subprocess.run(['/verif/check.sh',prop],env=dict(env,VERIF_REPO=r),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    print('check %s: rc=%d\n%s'%(prop,p.returncode,p.stdout[-700:]))
finally:
    shutil.rmtree(w)
