#!/usr/bin/env python3
"""catch.py [--all] [id...]: which planted bugs does the property's own check find, and after how many runs?
Works in a scratch copy (/tmp/catch, to be removed afterwards); /repo is only read."""
import subprocess,sys,os,json,re,time
W='/tmp/catch'; V='/verif'
env=dict(os.environ,RUSTUP_TOOLCHAIN='1.84.1',CARGO_TARGET_DIR=W+'/target',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='0',VERIF_SEED=os.environ.get('VERIF_SEED','1'),DSIM_ROOT=W+'/root')
sh=lambda c,**k: subprocess.run(c,shell=True,check=True,**k)
sh(f'mkdir -p {W}/root/evidence {W}/dsim {W}/repo; cp {V}/KNOWN_FINDINGS.txt {W}/root/; cp -r {V}/findings {W}/root/; rsync -rc --delete {V}/dsim/ {W}/dsim/; sed -i "s#\\"/repo\\"#\\"{W}/repo\\"#" {W}/dsim/Cargo.toml')
args=[a for a in sys.argv[1:] if not a.startswith('--')]; every='--all' in sys.argv
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
for id in sorted(os.listdir(V+'/seeded')):
    if args and not any(re.fullmatch(a,id) for a in args): continue
    sh(f'rsync -rc --delete --exclude target --exclude .git /repo/ {W}/repo/')
    sh(f'patch -s -p1 < {V}/seeded/{id}/patch.diff',cwd=W+'/repo')
    own=json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
    b=subprocess.run('cargo build --offline --locked 2>&1 | grep -E "^error" -A8 | head -30',shell=True,cwd=W+'/dsim',env=env,capture_output=True,text=True)
    if b.stdout.strip(): print(id,'BUILD',b.stdout); continue
    for p in ([own]+[q for q in props if q!=own] if every else [own]):
        e=dict(env)
        if p!=own: e['DSIM_RUNS']='1500'
        t=time.time(); r=subprocess.run([W+'/target/debug/dsim','check',p],env=e,capture_output=True,text=True)
        line=([l for l in r.stdout.splitlines() if l.startswith('run ')] or [''])[0]
        print(id,p,'CAUGHT' if r.returncode==1 and f'VIOLATION property={p} ' in r.stdout else 'MISSED rc=%d'%r.returncode,'%.0fs'%(time.time()-t),line[:150],flush=True)
sh(f'rsync -rc --delete --exclude target --exclude .git /repo/ {W}/repo/')
