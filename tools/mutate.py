#!/usr/bin/env python3
"""Mutation survey: mutate.py WORKERS SEED COUNT OUT [file-substring...]
Plants COUNT random one-token changes in scratch copies of /repo and reports which are caught by no check
(quick tier, 1/20 of the cases) and by no test. A development aid: no registered command uses it."""
import re,random,subprocess,sys,os,json,threading,queue
W,SEED,COUNT,OUT=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
SUB=sys.argv[5:]
SNAP='/tmp/mut/src/'  # git archive of the tree to mutate, so that /repo can change meanwhile
CORE=['parsing/scanner.rs','parsing/parser.rs','parsing/source.rs','parsing/char_utils.rs','parsing/parser_iter.rs','parsing/mod.rs','node/scalar.rs','node/yaml.rs','node/yaml_data.rs','node/yaml_owned.rs','node/spanned_yaml.rs','prelude/loader.rs','prelude/mod.rs','lib.rs','escaper.rs']
FILES=['yam-core/src/'+f for f in CORE]+['yam-serde/src/'+f for f in ('de.rs','ser.rs','escape_str.rs','lib.rs')]
ORDER={'core':['P10','P09','P15','P06','P14','P08','P05','P07','P04','P12','P11','P13','P03','P18','P16','P17','P02'],
       'node':['P12','P11','P18','P16','P05','P17','P03'],
       'serde':['P16','P17','P03','P02','P05']}
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def muts(f):
    L=open(SNAP+f).read().split('\n'); out=[]; test=False
    for i,l in enumerate(L):
        if '#[cfg(test)]' in l: break
        s=l.strip()
        if not s or s.startswith(('//','#[','use ','pub use','impl','pub fn','fn ','mod ','pub mod','///','debug_assert','where')): continue
        c=l.split('//')[0] if '"' not in l else l
        def add(a,b,new,k):
            out.append((f,i,l[:a]+new+l[b:],k))
        for pat,news in [(r'==',['!=']),(r'!=',['==']),(r' < ',[' <= ',' > ']),(r' > ',[' >= ',' < ']),(r' <= ',[' < ']),(r' >= ',[' > ']),(r'&&',['||']),(r'\|\|(?=\s*[!a-z(])',['&&']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r'\+= ',['-= ']),(r'(?<=if )(?=[a-z!(])',['true || ','false && ']),(r'(?<=[( ])!(?=[a-z])',['']),(r'\bis_breakz\b',['is_break','is_blank_or_breakz']),(r'\bis_break\b',['is_breakz']),(r'\bis_blank_or_breakz\b',['is_breakz','is_blank']),(r'\bis_blank\b',['is_blank_or_breakz']),(r'\bis_flow\b',['is_blank_or_breakz']),(r'\bNone\b(?=[),;]|$)',[]),(r'saturating_sub',['wrapping_sub']),(r'\bmin\(',['max(']),(r'\bmax\(',['min(']),(r'\bany\(',['all(']),(r'\ball\(',['any(']),(r'\.is_some\(',['.is_none(']),(r'\.is_none\(',['.is_some(']),(r'\.is_empty\(\)',['.len() == 1']),(r'\.first\(',['.last(']),(r'\.last\(',['.first(']),(r'to_ascii_lowercase|to_ascii_uppercase',[])]:
            for m in re.finditer(pat,c):
                for n in news: add(m.start(),m.end(),n,f'{m.group()}->{n}')
        for m in re.finditer(r"(?<![\w.'\\x\"])(\d+)(?![\w.'\"])",c):
            v=int(m.group(1)); 
            for n in ({v+1,max(v-1,0)}-{v}): add(m.start(),m.end(),str(n),f'{v}->{n}')
        # alternatives of patterns and matches!
        for m in re.finditer(r"(b?'(?:\\.|[^'\\])+'|\"(?:[^\"\\]|\\.)*\") \| ",c): add(m.start(),m.end(),'',f'drop {m.group()}')
        for m in re.finditer(r" \| (b?'(?:\\.|[^'\\])+'|\"(?:[^\"\\]|\\.)*\")",c): add(m.start(),m.end(),'',f'drop {m.group()}')
        for m in re.finditer(r"b'(\\.|[^'\\])'",c):
            n={'\\n':'\\r','\\r':'\\n','\\t':' ',' ':'\\t',':':'?','-':'.','#':'!','"':'\\\''}.get(m.group(1))
            if n: add(m.start(),m.end(),"b'"+n+"'",f'{m.group()}->{n}')
        for m in re.finditer(r"\b(Some|Ok)\((\w+)\) =>",c): pass
        if re.match(r'^[a-z_.]+(\[[^\]]*\])?(\.[a-z_]+\(.*\)\??| [-+]?= .*);$',s) and not s.startswith(('let','return')): out.append((f,i,re.match(r'\s*',l).group()+'{}',f'delete {s}'))
        if re.match(r'^return .*;$',s): out.append((f,i,re.match(r'\s*',l).group()+'{}',f'delete {s}'))
        if s in('break;','continue;'): out.append((f,i,re.match(r'\s*',l).group()+('continue;' if s=='break;' else 'break;'),s))
    return out
allm=[]
for f in FILES:
    if SUB and not any(x in f for x in SUB): continue
    if os.path.exists(SNAP+f): allm+=muts(f)
random.Random(SEED).shuffle(allm)
print(len(allm),'mutants possible'); allm=allm[:COUNT]
if os.path.exists(OUT):
    done={(f,i-1,k) for _,f,i,k,_,_ in map(json.loads,open(OUT))}
    allm=[m for m in allm if (m[0],m[1],m[3]) not in done]
q=queue.Queue()
for m in allm:q.put(m)
lock=threading.Lock(); stat={}
def worker(w):
    d=f'/tmp/mut/{w}'; rs=d+'/repo'; hv=d+'/hv'
    sh(f'mkdir -p {d}; rm -rf {rs}; cp -a /repo {rs}; cp -r {SNAP}. {rs}/; mkdir -p {hv} {d}/home/evidence {d}/home/replays {d}/vp {d}/tmp; cp -r /tmp/mut/harness/. {hv}/; sed -i "s#/repo/#{rs}/#g" {hv}/Cargo.toml; cp /verif/known_findings.txt {d}/home/; for f in build test; do sed "s#/repo#{rs}#g" /opt/vp/$f.sh > {d}/vp/$f.sh; done')
    env=dict(os.environ,YV_HOME=d+'/home',YV_SHARDS='1',YV_SCALE='20',VERIF_SEED=str(SEED),CARGO_NET_OFFLINE='true',RUSTUP_TOOLCHAIN='stable',TMPDIR=d+'/tmp')
    benv=dict(env,RUSTFLAGS='--cfg yam_verif')
    sh(f'cargo build -q --offline --locked --target-dir {d}/target',cwd=hv,env=benv)
    while True:
        try:m=q.get_nowait()
        except queue.Empty: return
        f,i,new,k=m
        p=rs+'/'+f; src=open(SNAP+f).read(); L=src.split('\n'); old=L[i]; L[i]=new
        open(p,'w').write('\n'.join(L))
        res='?'
        try:
            r=sh(f'cargo build -q --offline --locked --target-dir {d}/target',cwd=hv,env=benv)
            if r.returncode: res='nocompile'
            else:
                o=ORDER['serde' if 'yam-serde' in f else 'node' if ('node/' in f or 'prelude' in f) else 'core']
                res=None
                for P in o:
                    try: r=subprocess.run(['timeout','-k','5','240',f'{d}/target/debug/yv','check',P,'quick'],text=True,capture_output=True,env=env)
                    except Exception as e: continue
                    if r.returncode!=0: res=f'{P}:{r.returncode}';break
                if res is None:
                    b=sh(f'bash {d}/vp/build.sh && bash {d}/vp/test.sh {d}/o.json',env=dict(os.environ))
                    try:
                        base=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(f'{d}/o.json'))
                        miss=[t for t in base['stable'] if t not in o['passed']]
                        res='tests' if miss else 'SURVIVED'
                    except Exception as e: res='tests'
                    sh(f'rm -f {d}/o.json')
        finally:
            open(p,'w').write(src); sh(f'find {d}/tmp -mindepth 1 -delete')
        with lock:
            stat[res.split(':')[0]]=stat.get(res.split(':')[0],0)+1
            with open(OUT,'a') as fo: fo.write(json.dumps([res,f,i+1,k,old.strip(),new.strip()])+'\n')
ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
for t in ts:t.start()
for t in ts:t.join()
print(stat)
