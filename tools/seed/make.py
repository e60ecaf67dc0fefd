#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every bug in bugs.py. Patches are made against /repo's HEAD."""
import os, sys, json, subprocess, shutil
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
from bugs import B
out='/verif/seeded'; prelude=open(here+'/prelude.rs').read()
sel=sys.argv[1:]
for id,b in B.items():
    if sel and id not in sel: continue
    d=f'{out}/{id}'; os.makedirs(d,exist_ok=True)
    w='/tmp/seedgen'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.run(f'git -C /repo archive HEAD src | tar x -C {w}',shell=True,check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x',shell=True,cwd=w,check=True)
    for f,a,n in b['edits']:
        p=f'{w}/src/{f}'; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,n))
    diff=subprocess.run('git diff',shell=True,cwd=w,capture_output=True,text=True).stdout; assert diff
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    name='zz_demo_'+id.lower().replace('-','_')
    open(d+'/demo.rs','w').write(prelude+b['demo'].lstrip('\n'))
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Run with the repository as the working directory, after its build. Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only
unset BPF_OUT_DIR SBF_OUT_DIR
t="$PWD/tests/{name}.rs"
trap '/bin/rm -f "$t"' EXIT
cp "$here/demo.rs" "$t" || exit 2
timeout 280 cargo test --locked --offline --test {name} -- --test-threads 1
''')
    os.chmod(d+'/demo.sh',0o755)
    shutil.rmtree(w)
    print(id)
