#!/usr/bin/env python3
"""Make seeded bugs from specs (development only).
seed.py make SPEC.py [ID...]   build /verif/seeded/ID from the specs and validate
seed.py check [ID...]          run the property's check on each seeded bug
A spec file defines seeds: list of dicts id, property, edits=[(file, old, new)], demo (Go main), needs, breaks, race(bool)."""
import sys, os, subprocess, json, shutil, tempfile, re, concurrent.futures as cf
V='/verif'; S=V+'/seeded'
env=dict(os.environ, GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off', GONOSUMDB='*')
def sh(cmd, cwd=None, timeout=900, env_=None):
    p=subprocess.run(cmd, shell=isinstance(cmd,str), cwd=cwd, env=env_ or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
DEMO='''#!/bin/bash
# Run with cwd = the tree of the library. Exit 0: it behaves; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 9
trap 'rm -r -f "$t"' EXIT
cp "$here/main.go" "$t/main.go"
sed "s#REPO#$repo#" "$here/go.mod.txt" > "$t/go.mod"
cp "$here/go.sum.txt" "$t/go.sum"
cd "$t" || exit 9
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off TMPDIR=$t/tmp
mkdir "$TMPDIR"
go build RACE -o demo . || exit 8
timeout 250 ./demo
'''
GOMOD='''module demo

go 1.18

require (
	github.com/mmdet/mcrypto v0.0.0
	golang.org/x/crypto v0.18.0
)

require golang.org/x/sys v0.18.0 // indirect

replace github.com/mmdet/mcrypto => REPO
'''
def gosum():
    a=set(open('/repo/go.sum').read().splitlines())|set(open('/opt/vp/mod/extra.sum').read().splitlines())
    return '\n'.join(sorted(a))+'\n'
def copy(d):
    shutil.copytree('/repo', d, symlinks=True)
def make(s):
    id=s['id']; d=f'/tmp/seedwork/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/seedwork', exist_ok=True); copy(d)
    for f,old,new in s['edits']:
        p=f'{d}/{f}'; t=open(p).read()
        if t.count(old)!=1: return id, f'edit of {f}: {t.count(old)} matches of {old[:50]!r}'
        open(p,'w').write(t.replace(old,new))
    rc,o=sh('gofmt -l '+' '.join({f for f,_,_ in s['edits']}), cwd=d)
    rc,diff=sh('git diff', cwd=d)
    out=f'{S}/{id}'; os.makedirs(out, exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.sh','w').write(DEMO.replace('RACE','-race' if s.get('race') else '').replace('go build  ','go build '))
    os.chmod(out+'/demo.sh',0o755)
    open(out+'/main.go','w').write(s['demo'].lstrip()); open(out+'/go.mod.txt','w').write(GOMOD); open(out+'/go.sum.txt','w').write(gosum())
    rc,o=sh(['gofmt','-w',out+'/main.go'])
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(out+'/meta.json','w'), indent=1)
    return validate(id)
def origlines(id):
    # every removed line must not come from my commits; at least one removed line
    diff=open(f'{S}/{id}/patch.diff').read()
    f=None; n=0; removed=[]
    for l in diff.splitlines():
        if l.startswith('--- '): f=l[6:]
        elif l.startswith('+++ '): pass
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'): removed.append((f,n)); n+=1
        elif l.startswith('+'): pass
        elif f: n+=1
    orig=0
    for f,n in removed:
        rc,o=sh(f'git blame -s -l -L {n},{n} {f}', cwd='/repo')
        c=o.split()[0].lstrip('^')
        rc,_=sh(f'git merge-base --is-ancestor {c} 604d42f', cwd='/repo')
        if rc==0: orig+=1
    return orig,len(removed)
def tests(d):
    open('/tmp/seedwork/x','w').close()
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']; bad=[]
    m=d+'.mod'; shutil.copy(d+'/go.mod',m)
    open(d+'.sum','w').write(gosum())
    e=dict(env, GOFLAGS=f'-mod=mod -modfile={m}')
    for pkg in ['sm2','sm3','x509','pkcs12']:
        rc,o=sh(f'go vet -composites=false ./{pkg}; go build ./{pkg}', cwd=d, env_=e)
        if rc: bad.append('build '+pkg+o); continue
        if pkg=='pkcs12': continue
        rc,o=sh(f'go test -vet=off -c -o {d}.{pkg}.test ./{pkg}', cwd=d, env_=e)
        if rc: bad.append('test build '+o); continue
        names=[b.split('/')[-1] for b in base if f'/{pkg}/' in b]
        if pkg=='sm2':
            names=[]
        for t in names:
            rc,o=sh([f'{d}.{pkg}.test','-test.run',f'^{t}$','-test.timeout','2m'], cwd=f'{d}/{pkg}', env_=e)
            if rc: bad.append(pkg+'.'+t)
        os.unlink(f'{d}.{pkg}.test')
    os.unlink(m); os.unlink(d+'.sum')
    return bad
def validate(id):
    d=f'/tmp/seedwork/{id}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs('/tmp/seedwork', exist_ok=True); copy(d)
    rc,o=sh(['git','apply',f'{S}/{id}/patch.diff'], cwd=d)
    if rc: return id,'patch: '+o
    o1,n=origlines(id); msg=[]
    if not o1: msg.append(f'changes no original line ({n} removed)')
    elif o1!=n: msg.append(f'warning: {n-o1} removed lines are mine')
    bad=tests(d)
    if bad: msg.append('tests: '+' '.join(bad))
    rc,o=sh(['bash',f'{S}/{id}/demo.sh'], cwd='/repo')
    if rc: msg.append(f'demo fails on the unchanged tree: {rc} {o[-600:]}')
    rc,o=sh(['bash',f'{S}/{id}/demo.sh'], cwd=d)
    if rc in (0,8,9,124): msg.append(f'demo with patch: exit {rc} {o[-600:]}')
    else: msg.append('demo says: '+o.strip().splitlines()[0][:150] if o.strip() else 'demo silent')
    shutil.rmtree(d)
    return id,'; '.join(msg)
def check(id, props=None):
    d=f'/tmp/seedwork/{id}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs('/tmp/seedwork', exist_ok=True); copy(d)
    rc,o=sh(['git','apply',f'{S}/{id}/patch.diff'], cwd=d)
    p=json.load(open(f'{S}/{id}/meta.json'))['property']
    res=[]
    for q in props or [p]:
        e=dict(env, MON_REPO=d, VERIF_SEED=os.environ.get('VERIF_SEED','1'), VERIF_TIER=os.environ.get('VERIF_TIER','quick'))
        # a copy of /verif without evidence so that the committed tree's is kept
        v=f'/tmp/seedwork/v-{id}-{q}'; shutil.rmtree(v,ignore_errors=True); shutil.copytree(V,v,ignore=shutil.ignore_patterns('seeded','.git','evidence')); os.makedirs(v+'/evidence')
        try: rc,o=sh(['bash',v+'/run.sh','check',q], cwd=v, env_=e, timeout=1500)
        except subprocess.TimeoutExpired: rc,o=-1,'timeout'
        m=[l for l in o.splitlines() if l.startswith('VIOLATION property='+q)]
        res.append(f"{q}: {'CAUGHT' if rc==1 and m else 'MISSED' if rc==0 else 'ERROR %d'%rc+o[-500:]} {o.strip()[:200]!r}" if rc==1 else f"{q}: {'MISSED' if rc==0 else 'ERROR %d '%rc+o[-800:]}")
        shutil.rmtree(v)
    shutil.rmtree(d)
    return id,' | '.join(res)
if __name__=='__main__':
    cmd=sys.argv[1]
    if cmd=='make':
        g={}; exec(open(sys.argv[2]).read(),g)
        L=[s for s in g['seeds'] if not sys.argv[3:] or s['id'] in sys.argv[3:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(make,L): print(*r,flush=True)
    elif cmd=='validate':
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(validate,sys.argv[2:] or sorted(os.listdir(S))): print(*r,flush=True)
    elif cmd=='check':
        with cf.ThreadPoolExecutor(int(os.environ.get('J','2'))) as ex:
            for r in ex.map(check,sys.argv[2:] or sorted(os.listdir(S))): print(*r,flush=True)
    elif cmd=='cross':
        print(*check(sys.argv[2],sys.argv[3:]))
