#!/usr/bin/env python3
"""mutate.py list | run [slots] [scale]: simple source mutants of /repo/src in scratch copies under /tmp/mut.

A mutant that builds and passes the existing tests is run against every check (small scale, first catch ends it);
results go to /tmp/mut/results.jsonl (resumed if it exists)."""
import re, os, sys, glob, json, random, subprocess, shutil, threading, queue, time
SRC='/repo/src'
TOK=[(r'==','!='),(r'!=','=='),(r' <= ',' < '),(r' >= ',' > '),(r' < ',' <= '),(r' > ',' >= '),(r'&&','||'),(r'\|\|','&&'),
 (r' \+ ',' - '),(r' - ',' + '),(r' \+= ',' -= '),(r' \+ 1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\b(0)\b','1'),
 (r'\b(\d+)\b',lambda m:str(int(m.group(1))+1)),(r'\b(\d+)\b',lambda m:str(int(m.group(1))-1) if int(m.group(1))>0 else None),
 (r'if !','if '),(r'\bPlain\b','Protected'),(r'\bProtected\b','Plain'),(r'LittleEndian','BigEndian'),(r'BigEndian','LittleEndian'),
 (r'\bu16\b','u8'),(r'\bu32\b','u16'),(r'\bu64\b','u32'),(r'_u16','_u8'),
 (r'\.push_back\(','.push_front('),(r'\.pop_front\(','.pop_back('),(r'\.to_lowercase\(\)',''),(r'\.clone\(\)','.clone()') ,
 (r'"([A-Za-z][A-Za-z0-9]*)"',lambda m:'"'+m.group(1)+'X"'),(r'"([A-Za-z][A-Za-z0-9]*)"',lambda m:'"'+m.group(1).lower()+'"'),
 (r'0x([0-9a-fA-F]{2})\b',lambda m:'0x%02x'%(int(m.group(1),16)^1)),(r'\.contains\(','.starts_with('),(r'\.rev\(\)',''),(r'\.trim\(\)',''),(r'read_exact','read'),
 (r'Some\(([a-z_]+)\)','None'),(r'\.unwrap_or\(',None),(r'write_all','write'),(r'\bbreak\b','continue'),(r'\bcontinue\b','break'),(r'is_empty\(\)','is_empty() == false'),
 (r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),(r'Err\(_\)','Ok(_)')]
def mutants():
    out=[]
    for f in sorted(glob.glob(SRC+'/**/*.rs',recursive=True)):
        if f.endswith('icon.rs'): continue # C17 covers it exhaustively
        ls=open(f).read().split('\n')
        end=next((i for i,l in enumerate(ls) if l.startswith('#[cfg(test)]')),len(ls))
        depth=False
        for i in range(end):
            l=ls[i]; s=l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('pub use') or s.startswith('#') or s.startswith('extern') or s.startswith('mod ') or s.startswith('pub mod'): continue
            seen=set()
            def add(new,op):
                if new!=l and new not in seen:
                    seen.add(new); out.append(dict(file=f[len('/repo/'):],line=i,op=op,old=l,new=new))
            for pat,rep in TOK:
                if rep is None: continue
                for m in re.finditer(pat,l):
                    r=rep(m) if callable(rep) else rep
                    if r is None: continue
                    add(l[:m.start()]+r+l[m.end():],pat)
            if s.endswith(';') and not s.startswith('let ') and s not in('};','});'): add('','delete line')
            if '=>' in s and s.endswith(',') : add('','delete arm')
            if s.startswith('if ') and s.endswith('{'):
                ind=l[:len(l)-len(l.lstrip())]
                if not s.startswith('if let'):
                    add(ind+'if false && ('+s[3:-1].strip()+') {','if false'); add(ind+'if true || ('+s[3:-1].strip()+') {','if true')
            if i+1<end and 'const ' not in s and 'write_' not in s and s.endswith(';') and ls[i+1].strip().endswith(';') and 'let ' not in s and l[:len(l)-len(s)]==ls[i+1][:len(ls[i+1])-len(ls[i+1].strip())]:
                out.append(dict(file=f[len('/repo/'):],line=i,op='swap lines',old=l,new=None))
    return out
def apply(root,m):
    p=f'{root}/{m["file"]}'; ls=open(f'/repo/{m["file"]}').read().split('\n')
    if m['new'] is None: ls[m['line']],ls[m['line']+1]=ls[m['line']+1],ls[m['line']]
    else: ls[m['line']]=m['new']
    open(p,'w').write('\n'.join(ls))
def restore(root,m): shutil.copyfile(f'/repo/{m["file"]}',f'{root}/{m["file"]}')
ORDER="C01 C13 C15 C14 C16 C17 C20 C18 C19 C11 C23 C22 C12 C05 C06 C21 C24 C03 C02 C09 C08 C10 C07 C04 C25 C26 C27 C28 C29".split()
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true')
def sh(c,env=None,timeout=900,cwd=None):
    try: return subprocess.run('exec nice -n 15 timeout -k 5 %d %s'%(timeout,c),shell=True,capture_output=True,text=True,env=env or ENV,cwd=cwd,errors='replace')
    except Exception as e: return subprocess.CompletedProcess(c,99,'',str(e))
def work(slot,q,scale,lock,results):
    d=f'/tmp/mut/s{slot}'
    if not os.path.exists(d):
        os.makedirs(d+'/verif'); sh(f'cp -a /repo {d}/repo'); 
        for x in('harness','check.sh','known_findings.txt','regress'): sh(f'cp -a /verif/{x} {d}/verif/')
        sh(f"sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml")
        sh(f"sed -i 's#^opt-level = 2#opt-level = 1#; s#^debug = 1#debug = 0#' {d}/verif/harness/Cargo.toml")
    cenv=dict(ENV,CARGO_BUILD_JOBS='2',CARGO_TARGET_DIR=d+'/verif/target')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        apply(d+'/repo',m); t=time.time()
        tenv=dict(ENV,CARGO_BUILD_JOBS='2')
        r=sh('cargo check --offline',tenv,120,d+'/repo')
        if r.returncode==0: r=sh('cargo test --offline --lib -- --test-threads 2',tenv,120,d+'/repo')
        if r.returncode==0: r=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 2',tenv,300,d+'/repo')
        if r.returncode!=0:
            m['result']='nobuild' if 'could not compile' in r.stderr else 'tests'
        else:
            r=sh('cargo build --offline --manifest-path '+d+'/verif/harness/Cargo.toml',cenv,900)
            if r.returncode!=0: m['result']='harness build failed'
            else:
                m['result']='MISSED'
                env=dict(ENV,VERIF_SEED='1',VERIF_TIER='quick',VERIF_SCALE=str(scale),VERIF_DIR=d+'/verif')
                for i in ORDER:
                    r=sh(f'{d}/verif/target/debug/kpdb-verif run {i}',env,400)
                    if r.returncode!=0:
                        m['result']=('caught ' if r.returncode==1 else 'rc%d '%r.returncode)+i; m['msg']=(r.stdout.strip().split('\n') or [''])[0][:200]; break
        restore(d+'/repo',m); m['t']=round(time.time()-t,1)
        with lock:
            results.write(json.dumps(m)+'\n'); results.flush()
if __name__=='__main__':
    ms=mutants()
    if sys.argv[1]=='list':
        print(len(ms)); import collections; print(collections.Counter(m['op'] for m in ms).most_common()); sys.exit()
    random.Random(7).shuffle(ms)
    done=set()
    if os.path.exists('/tmp/mut/results.jsonl'):
        for l in open('/tmp/mut/results.jsonl'):
            m=json.loads(l); done.add((m['file'],m['line'],m['old'],m['new']))
    q=queue.Queue()
    only=os.environ.get('ONLY')
    for m in ms:
        if (m['file'],m['line'],m['old'],m['new']) not in done and (not only or re.search(only,m['file'])): q.put(m)
    lock=threading.Lock(); res=open('/tmp/mut/results.jsonl','a')
    slots=int(sys.argv[2]); scale=float(sys.argv[3])
    ts=[threading.Thread(target=work,args=(i,q,scale,lock,res)) for i in range(slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
