#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  tools/check.py C05            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  tools/check.py C05 --replay FILE     runs the failing case of a replay file again
  tools/check.py --setup        builds the extractor, the harness and the program

1. Proof: the functions the property depends on are extracted from /repo, their contracts woven
   in, and Verus discharges every obligation (tools/vc.py).
2. The harness runs the real code of /repo against reference oracles. It never counts as proof: it
   supplies the failing input for a failed obligation, and stands in, with its bound stated, where
   an edit moved a function out of the reach of the annotations.
"""
import sys,os,re,json,subprocess,time,hashlib,shutil,tempfile,signal
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import vc
VERIF=vc.VERIF; BUILD=vc.BUILD; REPO=vc.REPO
TARGET=os.path.join(BUILD,'target')
CONF=json.load(open(os.path.join(VERIF,'contracts','props.json')))

def env_build():
    e=dict(os.environ,CARGO_NET_OFFLINE='true',RUSTFLAGS='--cfg basjoofan_verif')
    e.pop('CARGO_TARGET_DIR',None); e.pop('CARGO_BUILD_TARGET_DIR',None)
    return e

def tree_hash():
    h=hashlib.sha256()
    for root in (os.path.join(REPO,'lib'),os.path.join(REPO,'cmd'),os.path.join(VERIF,'harness')):
        for d,ds,fs in os.walk(root):
            ds[:]=sorted(x for x in ds if x not in('target','.git'))
            for f in sorted(fs):
                p=os.path.join(d,f); h.update(p.encode()+b'\0')
                try: h.update(open(p,'rb').read())
                except OSError: pass
                h.update(b'\0')
    for f in ('Cargo.toml','Cargo.lock'):
        p=os.path.join(REPO,f)
        if os.path.exists(p): h.update(open(p,'rb').read())
    return h.hexdigest()

def build(need_bin):
    """(ok, message); builds the harness (and the program) from the current tree"""
    os.makedirs(TARGET,exist_ok=True)
    want=tree_hash(); stamp=os.path.join(TARGET,'vx_stamp')
    have=open(stamp).read().split() if os.path.exists(stamp) else []
    hd=os.path.join(VERIF,'harness')
    if not have or have[0]!=want:
        # file times cannot be trusted after a checkout: rebuild what comes from /repo
        if os.path.exists(stamp): os.remove(stamp)
        subprocess.run(['cargo','clean','--offline','--target-dir',TARGET,'-p','harness','-p','lib'],cwd=hd,env=env_build(),capture_output=True,text=True)
        subprocess.run(['cargo','clean','--offline','--target-dir',TARGET,'-p','cmd'],cwd=os.path.join(REPO,'cmd'),env=env_build(),capture_output=True,text=True)
        have=[]
    if 'harness' not in have:
        r=subprocess.run(['cargo','build','--offline','--locked','--target-dir',TARGET],cwd=hd,env=env_build(),capture_output=True,text=True)
        if r.returncode: return False,'harness: '+r.stderr[-3000:]
        have=[want]+[x for x in have if x=='bin']+['harness']; open(stamp,'w').write(' '.join(have))
    if need_bin and 'bin' not in have:
        r=subprocess.run(['cargo','build','--offline','--target-dir',TARGET,'-p','cmd'],cwd=os.path.join(REPO,'cmd'),env=env_build(),capture_output=True,text=True)
        if r.returncode: return False,'program: '+r.stderr[-3000:]
        have.append('bin'); open(stamp,'w').write(' '.join(have))
    return True,''

LITERALS=os.path.join(VERIF,'contracts','baseline','literals.json')
NUMBERS={'u8':256,'i8':128,'u16':65536,'i16':32768,'u32':1<<32,'i32':1<<31,'f32':(1<<24)+1,'f64':(1<<53)+1}
def literals():
    """how often each literal (and number type) occurs in each source file"""
    esc={'n':'\n','t':'\t','r':'\r','0':'\0','\\':'\\','"':'"',"'":"'"}
    def plain(t): return re.sub(r'\\(?:u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|\n\s*|(.))',lambda m: chr(int(m[1],16)) if m[1] else chr(int(m[2],16)) if m[2] else esc.get(m[3],'') if m[3] else '',t)
    rx=re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)"(?P<raw>.*?)"\1|b?"(?P<s>(?:[^"\\]|\\.)*)"|b?\'(?P<c>[^\'\\]|\\(?:u\{[^}]*\}|x..|.))\'|(?<![\w.])(?P<n>0[xob][0-9a-fA-F_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:e[+-]?[0-9]+)?)(?:[iuf](?:8|16|32|64|128|size))?\b|\b(?P<t>[iu](?:8|16|32)|f32|f64)\b',re.S)
    out={}
    for root in ('lib/src','cmd/src'):
        for d,ds,fs in os.walk(os.path.join(REPO,root)):
            for f in sorted(fs):
                if not f.endswith('.rs'): continue
                n={}
                for m in rx.finditer(open(os.path.join(d,f),errors='replace').read()):
                    if m['raw'] is not None: ts=[m['raw']]
                    elif m['s'] is not None: ts=[plain(m['s'])]
                    elif m['c'] is not None: ts=[plain(m['c'])]
                    elif m['t']: ts=[str(NUMBERS[m['t']])]
                    elif m['n']:
                        t=m['n'].replace('_','')
                        ts=[str(int(t,0)) if re.match(r'0[xob]',t) else t]
                    else: continue
                    for t in ts:
                        for piece in {t}|set(re.split(r'\{[^{}]*\}',t)):
                            if piece and len(piece)<=60: n[piece]=n.get(piece,0)+1
                out[os.path.relpath(os.path.join(d,f),REPO)]=n
    return out
def hot_literals():
    """the literals that occur more often than when the contracts were written"""
    try: base=json.load(open(LITERALS))
    except (OSError,ValueError): return []
    hot=[]
    for f,n in literals().items():
        b=base.get(f,{})
        hot+=[t for t,k in n.items() if k>b.get(t,0)]
    return list(dict.fromkeys(hot))

class Search:
    """bounded search with the real code"""
    def __init__(s,pid,conf,seed,dict_file):
        s.pid=pid; s.conf=conf; s.seed=seed; s.dict=dict_file
        s.evals=0; s.distinct=0; s.samples=[]; s.error=''; s.runs=[]
    def shard(s,start,cases,budget,extra=()):
        out=os.path.join(BUILD,'search',f'{s.pid}-{os.getpid()}-{start}.json'); os.makedirs(os.path.dirname(out),exist_ok=True)
        scratch=tempfile.mkdtemp(prefix='vx_')
        cmd=[os.path.join(TARGET,'debug','harness'),s.pid,'--seed',str(s.seed),'--start',str(start),'--cases',str(cases),'--budget',str(budget),
             '--bin',os.path.join(TARGET,'debug','basjoofan'),'--scratch',scratch,'--out',out]+(['--dict',s.dict] if s.dict else [])+(['--hot',s.dict+'.hot'] if s.dict and os.path.exists(s.dict+'.hot') else [])+list(extra)
        try:
            try: r=subprocess.run(cmd,capture_output=True,text=True,errors='replace',timeout=budget+60,start_new_session=True)
            except subprocess.TimeoutExpired: return ('error','search did not end',None)
            if r.returncode==0:
                m=re.search(r'^OK (.*)$',r.stdout,re.M)
                return ('ok','',json.loads(m.group(1)) if m else {})
            if r.returncode==3 and os.path.exists(out): return ('fail','',json.load(open(out)))
            if r.returncode<0 and '--trace' not in cmd:
                # the code under test took the process down: find the input
                tr=os.path.join(BUILD,'search',f'{s.pid}-{os.getpid()}-{start}.trace')
                res=s.shard(start,cases,budget*3,['--trace',tr])
                if res[0]=='signal':
                    t=open(tr,errors='replace').read().split('\n',1)
                    return ('fail','',{'property':s.pid,'seed':s.seed,'case':int(t[0] or 0),'input':t[1] if len(t)>1 else '','failure':res[1]})
                return ('error','the search ended with signal %d'%-r.returncode,None)
            if r.returncode<0: return ('signal','process killed by signal %d'%-r.returncode,None)
            return ('error',(r.stdout+r.stderr)[-500:],None)
        finally:
            shutil.rmtree(scratch,ignore_errors=True)
            if os.path.exists(out): os.remove(out)
    def run(s,first,cases,budget,shards):
        per=(cases+shards-1)//shards
        with ThreadPoolExecutor(shards) as ex:
            rs=list(ex.map(lambda k:s.shard(first+k*per,per,budget),range(shards)))
        fail=None
        for st,msg,d in rs:
            if st=='ok':
                s.evals+=d.get('evaluations',0); s.distinct+=d.get('distinct_nontrivial',0); s.samples+=d.get('samples',[])
            elif st=='fail' and (fail is None or d['case']<fail['case']): fail=d
            elif st=='error': s.error=msg
        return fail

def scan_trusted(text):
    """mechanical list of everything Verus was told to believe"""
    t=[]
    for m in re.finditer(r'#\[verifier::external_body\](?:\s*//[^\n]*)*\s*(?:#\[[^\]]*\]\s*)*(?://[^\n]*\n\s*)*((?:pub |open |closed |broadcast |uninterp |const )*(?:fn|proof fn|struct)\s+\w+)',text): t.append('assumed contract: '+re.sub(r'\s+',' ',m.group(1)))
    for m in re.finditer(r'((?:pub |broadcast )*axiom fn \w+)',text): t.append('axiom: '+m.group(1).split()[-1])
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]+)\]',text): t.append('assumed contract on dependency: '+m.group(1).strip())
    for m in re.finditer(r'uninterp spec fn (\w+)',text): t.append('uninterpreted: '+m.group(1))
    for m in re.finditer(r'\b(assume|admit)\s*\(',text): t.append('UNCHECKED '+m.group(1))
    c={}
    for x in t: c[x]=c.get(x,0)+1
    return [x+(f' (x{n})' if n>1 else '') for x,n in sorted(c.items())]

def vacuity(unit):
    """assertions that must fail: a contradictory axiom or precondition would prove them"""
    def mod(text):
        k=[0]
        def add(m):
            k[0]+=1
            return m.group(0)+f'\n    //@fn vx_reach_{k[0]}\n    proof {{ if vx_unknown({k[0]}) {{ assert(false); }} }}'
        text=text.replace('\n//@raw\n','\nuninterp spec fn vx_unknown(i: int) -> bool;\nproof fn vx_must_fail() { assert(false); }\n//@raw\n')
        return text
    r=vc.run_unit(unit,textmod=mod,extra=['--verify-root','--verify-function','vx_must_fail'])
    return any(f['kind']=='obligation' and 'assertion failed' in f['message'] for f in r['failed'])

def main():
    t0=time.time()
    if sys.argv[1:2]==['--setup']:
        vc.extractor(); ok,msg=build(True); print('setup','done' if ok else msg); return 0 if ok else 1
    if sys.argv[1:2]==['--literals']:
        json.dump(literals(),open(LITERALS,'w'),indent=1,ensure_ascii=False,sort_keys=True); return 0
    pid=sys.argv[1]; conf=CONF[pid]
    tier=os.environ.get('VERIF_TIER','quick'); tier=tier if tier in('quick','thorough') else 'quick'
    try: seed=int(os.environ.get('VERIF_SEED','1'))
    except ValueError: seed=1
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    if '--replay' in sys.argv:
        d=json.load(open(sys.argv[sys.argv.index('--replay')+1])); f=d.get('failing_case') or {}
        if 'case' not in f: print(json.dumps(d,indent=1)); return 0
        ok,msg=build(conf.get('bin',False)); 
        if not ok: print(msg); return 2
        s=Search(pid,conf,f['seed'],d.get('dict')); r=s.shard(0,1,60,['--only',str(f['case'])]); print(json.dumps(r,indent=1,ensure_ascii=False)); return 1 if r[0]=='fail' else 0
    # ---- proof
    units=conf['units']; names=[u[0] for u in units]
    bfut=ThreadPoolExecutor(1).submit(build,conf.get('bin',False))
    with ThreadPoolExecutor(3) as ex:
        results=list(ex.map(lambda n:vc.run_unit(n),names))
        vac=list(ex.map(vacuity,names)) if tier=='thorough' else []
    failed=[];weak=[];obl=0;dis=0;trusted=[];assume=[];solver=0.0;fns=[];lit=[];detail=[];trusted_fns=[]
    for (name,pat,*cl),r in zip(units,results):
        obl+=r['verified']+r['errors']; dis+=r['verified']; solver+=r.get('smt_s',0)
        rx=re.compile(pat) if pat else None
        mine=[f for f in r['fns'] if rx is None or rx.search(f)]
        fns+=[f'{name}: {f}' for f in mine]
        trusted_fns+=[f'{name}: {f}' for f in r.get('external_fns',[])]
        lit+=[x for k in ('strs','chars','ints','floats') for x in (r.get('literals') or {}).get(k,[])]
        if 'path' in r: trusted+=[f'{name}: {t}' for t in scan_trusted(open(r['path']).read())]
        assume+=[f'{name}: {n}' for n in r['notes']]+[f'{name}: not verified, dropped by the extraction: {x}' for x in r['dropped']]
        detail.append({'unit':name,'status':r['status'],'verified':r['verified'],'errors':r['errors'],'verus_s':round(r.get('verus_s',0),2),'smt_s':r.get('smt_s',0),'reasons':r['reasons'],'skeleton_changes':r.get('skeleton',[]),'changed_functions':r.get('changed',[]),'renamed':r['log']})
        if r['status']=='ok': continue
        bad=[f for f in r['failed'] if f['kind']=='obligation' and (rx is None or rx.search(f['fn']) or f['fn'] not in r['fns']) and not (cl and cl[0] and re.search(cl[0],f['clause'])) and not (len(cl)>1 and not re.search(cl[1],f['clause']))]
        if r['status']=='failed' and not r.get('skeleton') and bad: failed+=[dict(f,unit=name) for f in bad]
        elif r['status']=='failed' and not bad: assume.append(f'{name}: obligations of functions outside this property fail: '+', '.join(sorted({f["fn"] for f in r['failed']})))
        else: weak.append(f'{name}: '+'; '.join(r['reasons']+r.get('skeleton',[])+[f"{f['kind']} {f['fn']}: {f['message']}" for f in r['failed'][:4]])[:900])
    # ---- search with the real code
    ok,msg=bfut.result()
    os.makedirs(os.path.join(BUILD,'search'),exist_ok=True)
    dict_file=os.path.join(BUILD,'search',f'{pid}.dict')
    lit=[x for x in dict.fromkeys(lit) if x and len(x)<=60]
    open(dict_file,'w').write('\x01'.join(lit))
    open(dict_file+'.hot','w').write('\x01'.join(hot_literals()))
    s=Search(pid,conf,seed,dict_file); case=None
    n,b=conf['search'][tier]; shards=conf.get('shards',4)
    if ok:
        case=s.run(0,n,b,shards)
        if case is None and (failed or weak) and tier=='quick':
            case=s.run(n,n*8,min(120,b*6),shards)
    else:
        r=subprocess.run(['cargo','build','--offline','--target-dir',TARGET+'-plain'],cwd=os.path.join(REPO,'lib'),env=dict(os.environ,CARGO_NET_OFFLINE='true'),capture_output=True,text=True)
        if r.returncode: print('the code under test does not build:\n'+r.stderr[-2000:]); return 2
        s.error='harness does not build against this tree: '+msg[-600:]
    viol=0; rc=0
    replay=os.path.join(BUILD,'replay',f'{pid}-{seed}.json'); os.makedirs(os.path.dirname(replay),exist_ok=True)
    vio_text=''
    if case is not None or failed:
        keep=os.path.join(BUILD,'replay',f'{pid}.dict'); shutil.copy(dict_file,keep); shutil.copy(dict_file+'.hot',keep+'.hot')
        json.dump({'property':pid,'failed_obligations':[{k:f[k] for k in('unit','fn','message','clause','at')} for f in failed],'failing_case':case,'dict':keep,
                   'replay':f'python3 tools/check.py {pid} --replay {replay}','units':detail,'search':{'evaluations':s.evals,'error':s.error}},open(replay,'w'),indent=1,ensure_ascii=False)
        viol=1; rc=1
        for f in failed: print(f"obligation failed: {f['unit']}: {f['fn']}: {f['message']}: {f['clause']} [{f['at']}]")
        if case is not None:
            print('failing input:',json.dumps(case,ensure_ascii=False)[:1500]); vio_text=f'VIOLATION property={pid} replay={replay}'
        else: vio_text=f'VIOLATION property={pid} replay={replay} no-failing-input-found'
    elif weak:
        print(f'{pid}: not decided by proof on this tree, the bounded search ({s.evals} cases) found nothing: '+' | '.join(weak))
    vacuous=[n for n,v in zip(names,vac) if not v]
    if obl==0 and not weak or vacuous:
        print('vacuous proof',vacuous); rc=rc or 2
    proved=not weak and not failed and obl>0
    conf_run=None
    if tier=='thorough':
        import conform
        try: conf_run=conform.run()
        except Exception as e: conf_run={'functions':0,'texts':0,'contracts':0,'failure':'could not run: '+str(e)[-400:]}
        if conf_run['failure']: print('ASSUMPTION not supported by the library:',conf_run['failure'])
    ev={'property':pid,'tier':tier,'seed':seed,'level':conf.get('level','proof'),
        'coverage':{'obligations':obl,'discharged':dis,'checker_cmd':f'python3 tools/check.py {pid}  (per unit: {"; ".join(r.get("cmd","") for r in results)})',
            'trusted_base':['Verus 0.2026.09.13.671956e, Z3, rustc','extraction /verif/extract (syn): what it rewrites or drops is listed under assumptions']+trusted+['trusted to meet its contract: '+t for t in trusted_fns],
            'back_end':'Verus / Z3','decided_by_proof':proved,'functions_under_contract':fns,'solver_s':round(solver,2),'units':detail,
            'undecided_by_proof':weak,
            'bounded_stand_in':{'what':'real code of /repo run against reference oracles; bounded, never counted as proved','scope':conf.get('bounded',''),'evaluations':s.evals,'distinct_nontrivial':s.distinct,'rule':'case n of the seed: directed cases first, then generated from (seed, n); non-trivial: as flagged by the case, distinct by its input text','samples':s.samples[:5],'error':s.error},
            'must_fail_assertions_failed':len(vac)-len(vacuous) if vac else None},
        'library_contracts_sampled':conf_run and {k:conf_run[k] for k in('functions','contracts','texts','failure')},
        'assumptions':conf.get('assumptions',[])+sorted(set(assume)),
        'wall_s':round(time.time()-t0,2),'violations':viol}
    json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1,ensure_ascii=False)
    if vio_text: print(vio_text)
    elif rc==0: print(f'{pid}: held. {dis}/{obl} obligations discharged in {len(names)} units ({len(fns)} functions), {s.evals} bounded cases, {time.time()-t0:.1f} s')
    return rc
if __name__=='__main__':
    sys.exit(main())
