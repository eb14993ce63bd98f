#!/usr/bin/env python3
"""Weaves the contracts in /verif/contracts/*.vc into functions extracted from /repo and runs Verus.

A .vc file is line based; a line starting with '@' opens a section:
  @unit NAME
  @spec FILE...            specification text included first (contracts/FILE)
  @source PATH             repository file to extract from; followed by `drop ID`, `only ID`, `expand MACRO` lines
  @derive TYPE = A, B      derives kept on an extracted type (all others are dropped)
  @method A = B            method renamed to an assumed library contract (shim)
  @call A = B              path call renamed to an assumed library contract (shim)
  @cast T = F              cast written as a call of an assumed conversion
  @type A = B              library type or bound named by its stand-in
  @trait A = B             library trait implemented as the stand-in B (B empty: as inherent functions)
  @fnvalue PATH            constructor used as a function value
  @traitimpl ID            trait implementation kept ("impl Add for Value")
  @fn ID [external] [ret=NAME] [attr=...]    contract text follows
  @loop K                  loop contract of the function above (K-th loop in source order)
  @hint WHERE              ghost text at: entry, exit, K#begin, K#end, K#before, K#after, let#NAME
  @raw                     specification text appended last
"""
import sys,os,re,json,subprocess,time,hashlib
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
CON=os.path.join(VERIF,'contracts')
BUILD=os.environ.get('VX_BUILD',os.path.join(VERIF,'.build'))
REPO=os.environ.get('VX_REPO','/repo')
TIMEOUT=250

def parse_vc(path):
    u={'unit':os.path.basename(path)[:-3],'spec':[],'sources':[],'derives':{},'methods':{},'calls':{},'casts':{},'fn_values':[],'trait_impls':[],'types':{},'traits':{},'args':{},'threads':{},'steps':{},'fns':{},'raw':'','no_inline':[],'rlimit':30}
    cur=None; fn=None; src=None
    def sink(line): pass
    for ln in open(path):
        line=ln.rstrip('\n')
        if line.startswith('@'):
            w=line[1:].split(None,1); k=w[0]; rest=w[1] if len(w)>1 else ''
            cur=None
            if k=='unit': u['unit']=rest
            elif k=='spec': u['spec']+=rest.split()
            elif k=='rlimit': u['rlimit']=int(rest)
            elif k=='include':
                inc=parse_vc(os.path.join(CON,rest))
                for f in ('spec','sources','fn_values','trait_impls','no_inline'): u[f]+= [x for x in inc[f] if x not in u[f]]
                for f in ('derives','methods','calls','casts','types','traits','args','threads','steps','fns'): 
                    for a,b in inc[f].items(): u[f].setdefault(a,b)
                u['raw']+=inc['raw']
            elif k=='includeext':
                # same, but the functions are trusted to meet their contracts (proved in their own unit)
                inc=parse_vc(os.path.join(CON,rest))
                for f in ('spec','sources','fn_values','trait_impls','no_inline'): u[f]+= [x for x in inc[f] if x not in u[f]]
                for f in ('derives','methods','calls','casts','types','traits','args','threads','steps'):
                    for a,b in inc[f].items(): u[f].setdefault(a,b)
                for a,b in inc['fns'].items():
                    b=dict(b); b['external']=True; b['proved_in']=inc['unit']; b['attrs']=[x for x in b['attrs'] if 'external_body' not in x and 'decreases' not in x and 'rlimit' not in x and 'spinoff' not in x]
                    b['noloops']=True
                    u['fns'].setdefault(a,b)
                u['raw']+=inc['raw']
            elif k=='source':
                src={'path':rest,'drop':[],'expand':{}}; cur='source'
                had=[i for i,x in enumerate(u['sources']) if x['path']==rest]
                if had: u['sources'][had[0]]=src
                else: u['sources'].append(src)
            elif k in('derive','method','call','cast','type','trait'):
                a,b=[x.strip() for x in rest.split('=',1)]
                u[{'derive':'derives','method':'methods','call':'calls','cast':'casts','type':'types','trait':'traits'}[k]][a]=b
            elif k=='arg':
                # @arg OPT NAME TYPE [= library calls and .methods that take it]
                a,_,b=rest.partition('='); o,n,t=a.split()
                u['args'][o]={'opt':o,'name':n,'type':t,'pass':b.replace(',',' ').split()}
            elif k=='thread':
                # @thread FN#K PARAMS: the K-th thread FN begins, as a function of what its closure captures
                a,b=rest.split(None,1); u['threads'][a]=b
            elif k=='step':
                # @step FN (STATE...) -> Option<ITEM>: the closure FN gives to iter::from_fn
                a,b=rest.split(None,1); u['steps'][a]=b
            elif k=='nospec': u['spec']=[x for x in u['spec'] if x not in rest.split()]
            elif k=='fnvalue': u['fn_values'].append(rest)
            elif k=='noinline': u['no_inline'].append(rest)
            elif k=='traitimpl': u['trait_impls'].append(rest)
            elif k=='fn':
                m=re.match(r'(.*?)((?:\s+(?:external|ret=\S+|opt=\S+|attr=.*))*)$',rest)
                fid=m.group(1).strip(); opts=m.group(2)
                o=re.search(r'opt=(\S+)',opts)
                fn={'external':bool(re.search(r'\bexternal\b',opts)),'opts':o.group(1).split(',') if o else [],'ret':'r','attrs':[],'spec':'','loops':{},'hints':{}}
                r=re.search(r'ret=(\S+)',opts); fn['ret']=r.group(1) if r else 'r'
                a=re.search(r'attr=(.*)$',opts)
                if a: fn['attrs'].append(a.group(1).strip())
                u['fns'][fid]=fn; cur='fn'
            elif k=='loop': cur=('loop',rest.strip()); fn['loops'][rest.strip()]=''
            elif k=='hint': cur=('hint',rest.strip()); fn['hints'][rest.strip()]=''
            elif k=='raw': cur='raw'
            else: raise SystemExit(f'{path}: unknown section @{k}')
            continue
        if cur=='source':
            w=line.split(None,1)
            if not w or w[0].startswith('#'): continue
            if w[0]=='drop': src['drop'].append(w[1])
            elif w[0]=='only': src.setdefault('only',[]).append(w[1])
            elif w[0]=='expand': src['expand'][w[1]]=True
        elif cur=='fn': fn['spec']+=line+'\n'
        elif cur=='raw': u['raw']+=line+'\n'
        elif isinstance(cur,tuple):
            d=fn['loops'] if cur[0]=='loop' else fn['hints']
            d[cur[1]]+=line+'\n'
    return u

def extractor():
    exe=os.path.join(BUILD,'extract','debug','vx')
    src=os.path.join(VERIF,'extract')
    newest=max(os.path.getmtime(os.path.join(src,f)) for f in ('src/main.rs','Cargo.toml'))
    if not os.path.exists(exe) or os.path.getmtime(exe)<newest:
        env=dict(os.environ,CARGO_NET_OFFLINE='true'); env.pop('RUSTFLAGS',None)
        r=subprocess.run(['cargo','build','--offline','--target-dir',os.path.join(BUILD,'extract')],cwd=src,env=env,capture_output=True,text=True)
        if r.returncode: raise RuntimeError('extractor build failed:\n'+r.stderr[-3000:])
    return exe

def extract(u):
    inp={'repo':REPO,'sources':u['sources'],'derives':u['derives'],'methods':u['methods'],'calls':u['calls'],'casts':u['casts'],'types':u['types'],'traits':u['traits'],
         'args':list(u['args'].values()),'threads':u['threads'],'steps':u['steps'],'fn_values':u['fn_values'],'trait_impls':u['trait_impls'],'no_inline':u['no_inline'],
         'fns':{k:{'external':v['external'],'exit':'exit' in v['hints'],'opts':v.get('opts',[])} for k,v in u['fns'].items()}}
    r=subprocess.run([extractor()],input=json.dumps(inp),capture_output=True,text=True)
    if r.returncode: raise RuntimeError('extractor failed: '+r.stderr[-2000:])
    return json.loads(r.stdout)

def balanced(s,i,op='(',cl=')'):
    d=0
    while i<len(s):
        c=s[i]
        if c==op: d+=1
        elif c==cl:
            d-=1
            if d==0: return i
        i+=1
    return -1

def subst_idents(text,ren):
    if not ren: return text
    return re.sub(r'\b('+'|'.join(map(re.escape,ren))+r')\b',lambda m:ren[m.group(1)],text)

def meta_spec(s,const):
    """the Avro meta data in a constant of the source (an array of pairs of literals), read as JSON, as specification functions"""
    m=re.search(r'const '+const+r'\b[^=]*=(.*?)\n\];',s,re.S)
    if not m: raise RuntimeError(f'constant {const} not found')
    toks=re.findall(r'r(#*)"(.*?)"\1|("(?:[^"\\]|\\.)*")|([(),\[\]\s&]+)|(.)',m.group(1),re.S)
    if any(t[4] for t in toks): raise RuntimeError(f'constant {const} is not made of literals')
    lit=[json.loads(t[2]) if t[2] else t[1] for t in toks if not t[3]]
    keys,vals=lit[0::2],lit[1::2]; meta=dict(zip(keys,vals))
    def shape(x):
        if x in ('int','long'): return 'Some(Shape::Long)'
        if x in ('string','bytes'): return 'Some(Shape::Bytes)' if x=='string' else 'None'
        if isinstance(x,dict) and x.get('type')=='array':
            i=x.get('items')
            if i=={'type':'array','items':'string'}: return 'Some(Shape::Pairs)'
            if isinstance(i,dict) and i.get('type')=='record' and 'name' in i and [(f['name'],f['type']) for f in i['fields']]==[('expr','string'),('left','string'),('compare','string'),('right','string'),('result','boolean')]: return 'Some(Shape::Checks)'
        if isinstance(x,dict) and set(x)=={'type'}: return shape(x['type'])
        return 'None'
    try:
        sc=json.loads(meta['avro.schema'])
        cols=[(f['name'],shape(f['type'])) for f in sc['fields']] if sc.get('type')=='record' and 'name' in sc else []
    except (KeyError,ValueError,TypeError): cols=[]
    q=json.dumps
    return ('pub open spec fn vx_meta_columns() -> Seq<(&\'static str, Option<Shape>)> { seq!['+', '.join(f'({q(n)}, {k})' for n,k in cols)+'] }\n'
        f'pub open spec fn vx_meta_codec() -> &\'static str {{ {q(meta.get("avro.codec","null"))} }}\n')

def weave(u,ex,baseline,log):
    """returns the text handed to Verus"""
    parts=[]
    for it in ex['items']:
        code=it['code']
        if it['kind']=='type' and it.get('derive'): code=f"#[derive({it['derive']})] "+code
        parts.append(f"//@item {it['id']}\n{code}\n")
    src='\n'.join(parts)
    r=subprocess.run(['rustfmt','--edition','2021','--config','max_width=140'],input=src,capture_output=True,text=True)
    if r.returncode: raise RuntimeError('rustfmt: '+r.stderr[:2000])
    s=r.stdout
    # return types
    while True:
        m=re.search(r'vx_ret\s*!',s)
        if not m: break
        i=m.start()
        j=s.index('(',i); k=balanced(s,j)
        inner=s[j+1:k].strip()
        m=re.search(r'vx_sig!\("([^"]+)"\);',s[k:])
        fid=m.group(1) if m else ''
        name=u['fns'].get(fid,{}).get('ret','r')
        s=s[:i]+f'({name}: {inner.rstrip(",")})'+s[k+1:]
    # for loops
    while True:
        m=re.search(r'vx_it\s*!',s)
        if not m: break
        i=m.start()
        j=s.index('(',i); k=balanced(s,j)
        name,ex_=s[j+1:k].split(',',1)
        s=s[:i]+f'{name.strip()}: {ex_.strip().rstrip(",")}'+s[k+1:]
    facts={f['id']:f for f in ex['fns']}
    def rename_map(fid):
        b=baseline.get(fid)
        if not b or fid not in facts: return {}
        a=b.get('locals',[]); c=facts[fid]['locals']
        if a==c or len(a)!=len(c): return {}
        ren={}
        for x,y in zip(a,c):
            if x!=y:
                if ren.get(x,y)!=y: return {}
                ren[x]=y
        if set(ren)&set(ren.values()): return {}
        if f'{fid}: locals renamed {ren}' not in log: log.append(f'{fid}: locals renamed {ren}')
        return ren
    # vx_iterK in the clauses of a function: the iterator of its K-th loop
    iters={m.group(2):m.group(1) for m in re.finditer(r'=\s*(\w+)\s*\.\s*next\(\)\s*\{\s*vx_loop!\("([^"]+)"\);',s)}
    # vx_listK: the list its K-th loop collects into
    lists={m.group(1):m.group(2) for m in re.finditer(r'vx_loop!\("([^"]+)"\);(?:(?!vx_loop!)[\s\S])*?\b(vx_acc\d+)\s*\.\s*(?:push|insert)\(',s)}
    def with_iters(fid,t):
        t=re.sub(r'\bvx_iter(\d+)\b',lambda m: iters.get(f'{fid}#{m.group(1)}',m.group(0)),t)
        return re.sub(r'\bvx_list(\d+)\b',lambda m: lists.get(f'{fid}#{m.group(1)}',m.group(0)),t)
    used=set()
    def sig(m):
        fid=m.group(1); f=u['fns'].get(fid)
        if not f: return '{'
        used.add(fid)
        t=f['spec'].rstrip()
        return '\n'+t+'\n{' if t else '{'
    s=re.sub(r'\{\s*vx_sig!\("([^"]+)"\);',sig,s)
    def loop(m):
        fid,k=m.group(1).rsplit('#',1); f=u['fns'].get(fid)
        if not f: return '{'
        t=f['loops'].get(k)
        if t is None: return '{'
        used.add((fid,'loop',k))
        return '\n'+with_iters(fid,subst_idents(t.rstrip(),rename_map(fid)))+'\n{'
    s=re.sub(r'\{\s*vx_loop!\("([^"]+)"\);',loop,s)
    def hint(m):
        fid,w=m.group(1).split('#',1); f=u['fns'].get(fid)
        if not f or f.get('noloops'): return ''
        ren=rename_map(fid)
        inv={b:a for a,b in ren.items()}
        key=w
        if w.startswith('let#'): key='let#'+inv.get(w[4:],w[4:])
        t=f['hints'].get(key)
        # a block right after a loop with a contract would be taken for the body of the loop
        if t is None: return 'proof { }' if w.endswith('#after') and re.match(r'(\s|vx_hint!\("[^"]+"\);)*\{',m.string[m.end():]) else ''
        used.add((fid,'hint',key))
        return with_iters(fid,subst_idents(t.rstrip(),ren))
    s=re.sub(r'vx_hint!\("([^"]+)"\);',hint,s)
    # the characters of the literals of a function: all of them where the unit says so, else those that are new
    def lits(m):
        l=re.findall(r'"(?:[^"\\]|\\.)*"',m.group(1)); fid=json.loads(l[0]); l=l[1:]
        if 'strlit' not in u['fns'].get(fid,{}).get('opts',[]):
            b=baseline.get(fid); new=set(facts[fid]['lits'])-set(b.get('lits',[])) if b else set()
            l=[x for x in l if value(x) in new]
        return 'proof { '+' '.join(f'reveal_strlit({x});' for x in l)+' }' if l else ''
    def value(x):
        try: return json.loads(x)
        except ValueError: return x
    s=re.sub(r'vx_lits!\(((?:"(?:[^"\\]|\\.)*"|[\s,])*)\);',lits,s)
    # attributes on functions
    for fid,f in u['fns'].items():
        at=list(f['attrs'])
        if f['external']: at.append('#[verifier::external_body]')
        if not at or fid not in facts: continue
        # find the fn inside its item
        f['_attrs']=at
    out=[]; item=None; owner=''
    for ln in s.split('\n'):
        m=re.match(r'//@item (.*)',ln)
        if m: item=m.group(1)
        m=re.match(r'\s*(?:pub )?(?:const )?fn (\w+)',ln)
        if m and item:
            fid=m.group(1) if not item.startswith('impl ') else item[5:]+'::'+m.group(1)
            if fid not in facts and fid.replace('::vx_','::') in facts: fid=fid.replace('::vx_','::')
            for a in u['fns'].get(fid,{}).get('_attrs',[]): out.append('    '+a)
            out.append(f'//@fn {fid}')
        out.append(ln)
    s='\n'.join(out)
    missing=[]
    for fid,f in u['fns'].items():
        if fid not in used: missing.append(f'fn {fid}'); continue
        if f['external']: continue
        for k in f['loops']:
            if (fid,'loop',k) not in used: missing.append(f'loop {k} of {fid}')
        for k in f['hints']:
            if (fid,'hint',k) not in used: missing.append(f'anchor {k} of {fid}')
    spec=''
    for f in u['spec']: spec+=f'\n//@spec {f}\n'+open(os.path.join(CON,f)).read()
    m=re.search(r'^//@meta (\w+)',spec,re.M)
    if m: spec+='\n//@spec META\n'+meta_spec(s,m.group(1))
    bc=re.findall(r'^//@broadcast (\S+)',spec,re.M)
    spec=(('broadcast use {'+', '.join(dict.fromkeys(bc))+'};\n') if bc else '')+spec
    text='#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code, unreachable_patterns)]\n'
    # the program's entry takes arguments here
    s=re.sub(r'\bfn main\(',' fn vx_main(',s)
    text+='use vstd::prelude::*;\nuse std::collections::HashMap;\nverus! {\n'+spec+'\n//@extracted\n'+s+'\n//@raw\n'+u['raw']+'\n} // verus!\nfn main() {}\n'
    return text,missing

def verus(path,rlimit,extra=()):
    t=time.time()
    cmd=['verus',path,'--output-json','--time','--error-format=json','--multiple-errors','4','--rlimit',str(rlimit),'--num-threads','4']+list(extra)
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,cwd=os.path.dirname(path),start_new_session=True)
    try: o,e=p.communicate(timeout=TIMEOUT)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); o,e='','the verifier did not end in time'
    return cmd,subprocess.CompletedProcess(cmd,p.returncode,o,e),time.time()-t

def line_owner(text):
    own=[];cur='(specification)'
    for ln in text.split('\n'):
        m=re.match(r'\s*//@fn (.*)',ln)
        if m: cur=m.group(1).strip()
        m=re.match(r'\s*//@(item|spec|raw|extracted)',ln)
        if m: cur='(specification)'
        if cur=='(specification)':
            pass
        own.append(cur)
    return own

# contracts of the verifier's own library that say all there is to say
REVIEWED=set("""is_some is_none is_ok is_err unwrap expect unwrap_or unwrap_err ok err as_ref as_mut take replace clone new len push pop insert remove clear
truncate swap get contains_key iter wrapping_add wrapping_sub wrapping_mul checked_add checked_sub checked_mul checked_div checked_rem checked_neg""".split())
def called(text):
    """names of the methods and path functions each extracted function calls"""
    out={};cur=None
    for ln in text.split('\n'):
        m=re.match(r'\s*//@fn (.*)',ln)
        if m: cur=m.group(1).strip(); continue
        if re.match(r'\s*//@(item|spec|raw|extracted)',ln): cur=None
        if cur: out.setdefault(cur,set()).update(re.findall(r'(?:\.|::)([a-z]\w*)(?:::<[^()]*>)?\(',ln))
    return out
def formats(text):
    """how many texts of open content each extracted function makes"""
    out={};cur=None
    for ln in text.split('\n'):
        m=re.match(r'\s*//@fn (.*)',ln)
        if m: cur=m.group(1).strip(); continue
        if re.match(r'\s*//@(item|spec|raw|extracted)',ln): cur=None
        if cur: out[cur]=out.get(cur,0)+len(re.findall(r'\bvx_format\(',ln))
    return out
def judge(res,path,text,rlimit,extra):
    """runs Verus, fills res; what failed, by function and clause"""
    cmd,r,wall=verus(path,rlimit,extra)
    res['cmd']=' '.join(cmd); res['verus_s']=wall
    try: js=json.loads(r.stdout)
    except Exception: js={}
    vr=js.get('verification-results',{})
    res['verified']=vr.get('verified',0); res['errors']=vr.get('errors',0)
    res['smt_s']=js.get('times-ms',{}).get('smt',{}).get('total',0)/1000.0 if js else 0
    own=line_owner(text); lines=text.split('\n')
    other=[]
    for ln in r.stderr.split('\n'):
        ln=ln.strip()
        if not ln.startswith('{'): 
            if ln: other.append(ln)
            continue
        try: d=json.loads(ln)
        except Exception: continue
        if d.get('level') not in('error','error: internal compiler error'): continue
        msg=d.get('message','')
        if msg.startswith('aborting due to'): continue
        sp=d.get('spans',[]); prim=[x for x in sp if x.get('is_primary')] or sp
        line=prim[0]['line_start'] if prim else 0
        fns=[own[x['line_start']-1] for x in sp if 0<x['line_start']<=len(own) and x.get('file_name','').endswith(os.path.basename(path))]
        fn=next((f for f in fns if f!='(specification)'),'(specification)')
        # the obligation: the non-primary span text names the clause
        clause=''
        for x in sp:
            if x.get('label') and x.get('text'):
                clause=' '.join(t['text'].strip() for t in x['text'])[:200]; lab=x['label']; clause=f'{lab}: {clause}'; 
                if 'failed' in lab or 'not satisfied' in lab: break
        at=lines[line-1].strip()[:160] if line and line<=len(lines) else ''
        kind='obligation'
        if re.search(r'rlimit|resource limit|timed? ?out|recommends',msg,re.I): kind='rlimit'
        elif d.get('code') or re.search(r'not supported|unsupported|does not yet|cannot find|expected|mismatched|not yet supported|panicked|The verifier|is not|must have|must be|cannot',msg): kind='compile'
        if re.search(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|could not prove termination|possible bit shift|recommendation not met|unreachable|loop (ensures|invariant)|termination|precondition of|postcondition|invariant|index out of',msg): kind='obligation'
        if re.search(r'Resource limit',msg): kind='rlimit'
        if 'vx_reach_' in clause: kind='reach'
        res['failed'].append({'kind':kind,'fn':fn,'message':msg,'clause':clause,'at':at,'line':line})
    return vr,r,other

def run_unit(name,quiet=True,keep=True,save_baseline=False,extra=(),textmod=None,retry=True):
    """verify one unit. result: dict(status= ok|failed|undecided, ...)"""
    res={'unit':name,'status':'undecided','reasons':[],'failed':[],'obligations':0,'verified':0,'errors':0,'fns':[],'log':[],'notes':[],'dropped':[]}
    t0=time.time()
    try:
        u=parse_vc(os.path.join(CON,name+'.vc'))
        ex=extract(u)
        bp=os.path.join(CON,'baseline',name+'.json')
        base=json.load(open(bp)) if os.path.exists(bp) else {'fns':{}}
        text,missing=weave(u,ex,base['fns'],res['log'])
        if textmod: text=textmod(text)
        os.makedirs(os.path.join(BUILD,'units'),exist_ok=True)
        path=os.path.join(BUILD,'units',name+('_m' if textmod else '')+'.rs')
        open(path,'w').write(text)
    except Exception as e:
        res['reasons'].append('extraction: '+str(e)); res['wall_s']=time.time()-t0; return res
    res['path']=path
    res['notes']=ex['notes']; res['dropped']=ex['dropped']; res['literals']=ex['literals']
    facts={f['id']:{'loops':f['loops'],'locals':f['locals'],'hash':f['hash'],'calls':f['calls'],'lits':f['lits'],'inlined':f['inlined']} for f in ex['fns']}
    res['fns']=[f for f in u['fns'] if not u['fns'][f]['external']]
    res['external_fns']=[f for f in u['fns'] if u['fns'][f]['external'] and not u['fns'][f].get('proved_in')]
    res['reasons']+=['lost: '+m for m in missing]+['extraction: '+e for e in ex['errors']]
    # skeleton: what the annotations are anchored to
    skel=[]
    for fid,f in facts.items():
        b=base['fns'].get(fid)
        if b is None:
            if base['fns']: skel.append(f'new function {fid}')
        elif b['loops']!=f['loops'] and not u['fns'].get(fid,{}).get('external'): skel.append(f'loops of {fid}: {b["loops"]} -> {f["loops"]}')
        elif f['inlined']: skel.append(f'helper inlined in {fid}')
    for fid in base['fns']:
        if fid not in facts: skel.append(f'function {fid} gone')
    if base['fns']:
        for x in sorted(set(base.get('dropped',[]))^set(ex['dropped'])): skel.append('unverified surroundings changed: '+x)
        for x in sorted(set(base.get('derived',[]))^set(ex['derived'])): skel.append('derives changed: '+x)
    res['skeleton']=skel
    res['changed']=[fid for fid,f in facts.items() if fid in base['fns'] and base['fns'][fid]['hash']!=f['hash']]
    vr,r,other=judge(res,path,text,u['rlimit'],extra)
    if not textmod and retry and not skel and not missing:
        # a proof that fails is tried again with other solver seeds: one success is a proof
        for k in (1,2):
            if vr.get('success') or vr.get('encountered-vir-error') or not res['failed'] or {f['kind'] for f in res['failed']}-{'obligation','rlimit'}: break
            if res['verus_s']*2>200: break
            r2={'failed':[]}
            vr2,_,o2=judge(r2,path,text,u['rlimit'],list(extra)+['--smt-option',f'smt.random_seed={k}'])
            res['verus_s']+=r2['verus_s']; res['smt_s']+=r2['smt_s']
            res['log'].append(f'retried with solver seed {k}: {r2["verified"]} verified, {r2["errors"]} errors')
            if vr2.get('success') or (r2['failed'] and {f['fn'] for f in r2['failed']}<{f['fn'] for f in res['failed']}):
                res.update(failed=r2['failed'],verified=r2['verified'],errors=r2['errors'],cmd=r2['cmd']); vr=vr2; other=o2
    # an obligation of a function that calls a library function nobody has called here before: the verifier's library may say too little about it
    calls=called(text); texts=formats(text)
    for fid in facts: facts[fid]['texts']=texts.get(fid,0)
    known=set(base.get('calls',[]))|REVIEWED|set(re.findall(r'\bfn (\w+)',text))
    if base.get('calls'):
        for f in res['failed']:
            new=calls.get(f['fn'],set())-known
            # a text made by format! whose content the contracts leave open
            if texts.get(f['fn'],0)>base['fns'].get(f['fn'],{}).get('texts',99): new=new|{'format!'}
            if f['kind']=='obligation' and new: f['kind']='reach'; f['clause']='new library calls '+', '.join(sorted(new))+': '+f['clause']
    if vr.get('success') and not missing and not ex['errors'] and res['verified']>0:
        res['status']='ok'
    elif vr.get('success') and res['verified']>0:
        res['status']='undecided'
    else:
        kinds={f['kind'] for f in res['failed']}
        if vr.get('encountered-vir-error') or 'compile' in kinds or not vr or not res['failed'] or res['verified']+res['errors']==0:
            res['status']='undecided'; res['reasons'].append('verifier could not process the text: '+'; '.join(f['message'] for f in res['failed'] if f['kind']=='compile')[:600]+(' '.join(other)[:300] if not res['failed'] else ''))
        elif kinds=={'rlimit'}:
            res['status']='undecided'; res['reasons'].append('resource limit: '+', '.join(sorted({f['fn'] for f in res['failed']})))
        elif 'reach' in kinds:
            res['status']='undecided'; res['reasons'].append('outside the assumed library contracts: '+', '.join(f['fn']+' '+f['clause'] for f in res['failed'] if f['kind']=='reach')[:400])
        elif missing:
            res['status']='undecided'
        else:
            res['status']='failed'
    if save_baseline:
        os.makedirs(os.path.dirname(bp),exist_ok=True)
        json.dump({'calls':sorted(set().union(*calls.values()) if calls else []),'fns':facts,'dropped':sorted(ex['dropped']),'derived':sorted(ex['derived'])},open(bp,'w'),indent=1,sort_keys=True)
    res['stderr']='' if quiet else r.stderr
    res['wall_s']=time.time()-t0
    return res

if __name__=='__main__':
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('unit'); ap.add_argument('--baseline',action='store_true'); ap.add_argument('-v',action='store_true'); ap.add_argument('--extra',nargs='*',default=[])
    a=ap.parse_args()
    r=run_unit(a.unit,quiet=False,save_baseline=a.baseline,extra=a.extra)
    print(r['unit'],r['status'],'verified',r['verified'],'errors',r['errors'],'verus %.1fs'%r.get('verus_s',0))
    for x in r['reasons']: print('  reason:',x)
    for x in r.get('skeleton',[]): print('  skeleton:',x)
    for x in r['log']: print('  log:',x)
    for f in r['failed']: print('  ',f['kind'],f['fn'],'|',f['message'],'|',f['clause'],'| L',f['line'],f['at'])
    if a.v:
        for n in r['notes']: print('  note:',n)
        for n in r['dropped']: print('  dropped:',n)
        for ln in r['stderr'].split('\n'):
            try: d=json.loads(ln); print(d.get('rendered',''))
            except Exception: print(ln)
