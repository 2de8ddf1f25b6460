import sys,re,os,subprocess,json,shutil
# mk.py SPEC... : build /verif/seeded/<id>
R='/tmp/seed/repo'
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTC_WRAPPER='')
def sh(c,cwd,t=900,env=ENV):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,'timeout'
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
rustica = { path = "$repo", features = ["full"] }
DEPS
[workspace]
T
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cp "$here/demo.rs" "$work/src/main.rs"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build -q --offline --manifest-path "$work/Cargo.toml" --target-dir "$work/target" || exit 2
timeout 60 "$work/target/debug/demo"
'''
base={}
def one(path,run):
    t=open(path).read(); g=lambda k:re.search(r'^@'+k+r' (.*)$',t,re.M).group(1).strip()
    id,prop,needs,breaks=g('id'),g('prop'),g('needs'),g('breaks')
    sh('git checkout -q -- .',R)
    for m in re.finditer(r'^@file (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',t,re.M|re.S):
        f,old,new=m.groups(); p=f'{R}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(id,'OLD TEXT COUNT',s.count(old),f,old[:80]); return
        open(p,'w').write(s.replace(old,new))
    rc,diff=sh('git diff',R); rm=[l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    fixed=subprocess.run('git diff 3f1df7d HEAD',shell=True,cwd='/repo',capture_output=True,text=True).stdout
    added={l[1:].strip() for l in fixed.split('\n') if l.startswith('+')}
    for l in rm:
        if l.strip() and len(l.strip())>3 and l.strip() in added: print(id,'WARNING removes fix line?',l.strip())
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    demo=t.split('@demo\n',1)[1]; open(d+'/demo.rs','w').write(demo)
    deps='\n'.join(re.findall(r'^@dep (.*)$',t,re.M))
    open(d+'/demo.sh','w').write(DEMO.replace('DEPS',deps)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.copy(path,f'/tmp/seed/specs/{id}.spec') if os.path.abspath(path)!=f'/tmp/seed/specs/{id}.spec' else None
    rcg,og=sh(f'bash {d}/demo.sh','/repo',300); rcb,ob=sh(f'bash {d}/demo.sh',R,300)
    rc1,o1=sh("cargo test --workspace --all-features --lib --bins --tests --no-fail-fast --offline -q -- --test-threads 8 --skip test_validated::performance_tests",R,600)
    rc2,o2=sh("cargo test --workspace --all-features --doc --no-fail-fast --offline -q -- --test-threads 8",R,600)
    fails=re.findall(r'^    (\S.*)$',o1+o2,re.M)
    ok=rcg==0 and rcb not in(0,2) and rc1==0 and rc2==0
    print(id,prop,'OK' if ok else 'BAD','demo good',rcg,'bad',rcb,'tests',rc1,rc2,fails[:6],flush=True)
    if rcg!=0: print(og[-1500:])
    if rcb in(0,2): print(ob[-1500:])
    if rc1 or rc2: 
        if 'error' in o1 and not fails: print('\n'.join([l for l in o1.split('\n') if 'error' in l][:10]))
    # my check
    b=prop.lower()
    rc,o=sh(f'cargo build -q --release --offline --manifest-path mon/Cargo.toml --target-dir target --bin {b}','/tmp/seed')
    if rc: print('mon build failed',o[-800:])
    else:
        rc,o=sh(f"target/release/{b}",'/tmp/seed',300,dict(ENV,MON_VERIF='/tmp/seed/v',VERIF_SEED='1',MON_SCALE='1'))
        v=[l for l in o.split('\n') if 'VIOLATION' in l or 'violat' in l][:2]
        print('   check',b,'rc',rc,'CAUGHT' if rc in(1,-6,-11,134,139) else 'MISSED',v[:1])
    sh('git checkout -q -- .',R)
for p in sys.argv[1:]: one(p,True)
