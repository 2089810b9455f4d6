#!/usr/bin/env python3
"""matrix.py own|all [bug id..]: runs the checks against the planted bugs in scratch copies; prints which catch which."""
import subprocess, sys, os, shutil, glob, json, tempfile
mode=sys.argv[1]; bugs=sys.argv[2:] or sorted(os.path.basename(p) for p in glob.glob('/verif/seeded/*'))
IDS=["C%02d"%i for i in range(1,100) if os.path.exists('/verif/harness/src/props/c%02d.rs'%i)]
d=tempfile.mkdtemp(prefix='kpdb-matrix.',dir='/tmp')
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
sh(f'mkdir {d}/verif; cp -a /repo {d}/repo; cp -a /verif/harness /verif/check.sh /verif/known_findings.txt /verif/regress {d}/verif/; cp -a /verif/target {d}/verif/target')
sh(f"sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml")
out=[]
for b in bugs:
    prop=json.load(open(f'/verif/seeded/{b}/meta.json'))['property']
    r=sh(f'cd {d}/repo && git checkout -q -- . && git apply /verif/seeded/{b}/patch.diff')
    if r.returncode: print(b,'does not apply',r.stderr); continue
    r=sh(f'{d}/verif/check.sh build')
    if r.returncode: print(b,'does not build',r.stdout[-500:]); continue
    hit=[];bad=[]
    for i in ([prop] if mode=='own' else IDS):
        r=sh(f'cd {d}/verif && VERIF_SEED={os.environ.get("VERIF_SEED","1")} VERIF_TIER=quick VERIF_DIR={d}/verif {d}/verif/target/debug/kpdb-verif run {i}')
        if r.returncode==1 and f'VIOLATION property={i} ' in r.stdout: hit.append(i); last=r.stdout.splitlines()[0][:160] if i==prop else ''
        elif r.returncode!=0: bad.append((i,r.returncode))
        if i==prop: msg=r.stdout.strip().splitlines()[0][:150] if r.stdout else ''
    print(f"{b}: {'caught' if prop in hit else 'MISSED'} by own; all: {' '.join(hit)} {('errors '+str(bad)) if bad else ''} | {msg}",flush=True)
shutil.rmtree(d)
