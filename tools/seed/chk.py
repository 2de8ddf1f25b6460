# chk.py ID... : run the property's check against the scratch copy with the seeded patch
import sys,json,subprocess,os
exec(open('/tmp/seed/mk.py').read().split('DEMO=')[0])
sh('rsync -a --delete --exclude Cargo.toml /verif/mon/src/ /tmp/seed/mon/src/ || (rm -rf /tmp/seed/mon/src && cp -a /verif/mon/src /tmp/seed/mon/src)','/')
for i in sys.argv[1:]:
    d='/verif/seeded/'+i; b=json.load(open(d+'/meta.json'))['property'].lower()
    sh('git checkout -q -- .',R); rc,o=sh(f'git apply {d}/patch.diff',R)
    if rc: print(i,'does not apply',o); continue
    rc,o=sh(f'cargo build -q --release --offline --manifest-path mon/Cargo.toml --target-dir target --bin {b}','/tmp/seed')
    if rc: print(i,'build',o[-600:])
    rc,o=sh(f'target/release/{b}','/tmp/seed',300,dict(ENV,MON_VERIF='/tmp/seed/v',VERIF_SEED=os.environ.get('S','1')))
    print(i,b,'CAUGHT' if rc in(1,-6,-11,134,139) else f'MISSED rc={rc}',[l for l in o.split('\n') if 'violation' in l][:1],flush=True)
    sh('git checkout -q -- .',R)
