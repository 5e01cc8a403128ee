"""Sample single-change mutants of the repository and run the checks that should notice.
usage: mut.py LOG SEED N FILE[:func,func] ... """
import ast, os, random, re, subprocess, sys, time, json, shutil
PY='/opt/venv/bin/python'; HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP=[('generate_Minfinity.py','P03 P01 P05'),('generate_Minfinity_periodic.py','P05 P04 P20'),('generate_R2Bexact.py','P02 P04 P01 P20'),
('generate_grand_resistance_matrix.py','P03 P08 P02 P05 P07 P13 P29'),('functions/timestepping.py','P06 P27 P12 P24 P08 P09 P10 P19'),
('run_simulation.py','P09 P14 P13 P15 P11 P10 P12 P19 P26 P24 P29 P28 P30'),('shared.py','P03 P06 P25 P24 P19 P12 P05'),('simulation_tools.py','P06 P07 P27 P24'),
('functions_inputs.py','P16 P17'),('functions_positions.py','P18 P25'),('setups/positions.py','P15 P18'),('setups/inputs.py','P16 P17 P19 P30'),
('data.py','P22 P20'),('functions_nearfield.py','P21 P22'),('generate_scalars_nearfield.py','P22 P21'),('generate_scalars_midfield.py','P22 P21'),
('functions_general.py','P21 P22'),('combine_scalars.py','P22'),('subtract_','P22'),('graphics.py','P26'),('make_video.py','P26'),('plot_positions.py','P26'),('.f','P23'),('settings.py','P19 P26')]
def checks(f):
    for k,v in MAP:
        if k in f and not (k=='generate_Minfinity.py' and 'periodic' in f): return v.split()
SW={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*',ast.Pow:'*',ast.Mod:'//',ast.FloorDiv:'/'}
CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'=='}
OPTXT={ast.Lt:'<',ast.LtE:'<=',ast.Gt:'>',ast.GtE:'>=',ast.Eq:'==',ast.NotEq:'!='}
def mutants(path, funcs):
    raw=open(path,'rb').read(); src=raw.decode()
    tree=ast.parse(src)
    lines=src.splitlines(keepends=True)
    # utf8 col offsets: assume ascii mostly
    starts=[0]
    b=[l.encode() for l in lines]
    for l in b: starts.append(starts[-1]+len(l))
    def off(ln,col): return starts[ln-1]+col
    out=[]
    def rep(s,e,new,kind,ln,fn): out.append((s,e,new.encode(),kind,ln,fn))
    def visit(n,fn,names):
        if isinstance(n,(ast.FunctionDef,)):
            fn=n.name; names=sorted({m.id for m in ast.walk(n) if isinstance(m,ast.Name)}|{a.arg for a in n.args.args})
            for d in n.decorator_list: pass
            kids=n.body[1:] if n.body and isinstance(n.body[0],ast.Expr) and isinstance(getattr(n.body[0],'value',None),ast.Constant) else n.body
            for k in kids: visit(k,fn,names)
            return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and getattr(n.value.func,'id','') in('print','throw_warning'): return
        if isinstance(n,(ast.Import,ast.ImportFrom)): return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): return
        want = (not funcs or fn in funcs) and (fn or '/functions/' not in path)
        if want:
            if isinstance(n,ast.BinOp) and type(n.op) in SW:
                s=off(n.left.end_lineno,n.left.end_col_offset); e=off(n.right.lineno,n.right.col_offset)
                t=raw[s:e].decode()
                m=re.search(r'\*\*|//|[-+*/%]',t)
                if m and not isinstance(n.left,ast.JoinedStr) and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)):
                    rep(s+m.start(),s+m.end(),SW[type(n.op)],'op',n.lineno,fn)
            if isinstance(n,ast.Compare) and type(n.ops[0]) in CMP:
                s=off(n.left.end_lineno,n.left.end_col_offset); e=off(n.comparators[0].lineno,n.comparators[0].col_offset)
                t=raw[s:e].decode(); o=OPTXT[type(n.ops[0])]; i=t.find(o)
                if i>=0: rep(s+i,s+i+len(o),CMP[type(n.ops[0])],'cmp',n.lineno,fn)
            if isinstance(n,ast.BoolOp):
                s=off(n.values[0].end_lineno,n.values[0].end_col_offset); e=off(n.values[1].lineno,n.values[1].col_offset)
                t=raw[s:e].decode(); o='and' if isinstance(n.op,ast.And) else 'or'; i=t.find(o)
                if i>=0: rep(s+i,s+i+len(o),'or' if o=='and' else 'and','bool',n.lineno,fn)
            if isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not)):
                s=off(n.lineno,n.col_offset); e=off(n.operand.lineno,n.operand.col_offset)
                rep(s,e,'','unary',n.lineno,fn)
            if isinstance(n,ast.Constant) and type(n.value) in (int,float,bool):
                s=off(n.lineno,n.col_offset); e=off(n.end_lineno,n.end_col_offset)
                v=n.value
                if isinstance(v,bool): rep(s,e,str(not v),'const',n.lineno,fn)
                elif isinstance(v,int): rep(s,e,str(v+1),'const',n.lineno,fn)
                else: rep(s,e,repr(v*1.25 if v else 0.1),'const',n.lineno,fn)
            if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load):
                near=[x for x in names if x!=n.id and len(x)==len(n.id) and sum(a!=b for a,b in zip(x,n.id))==1 ]
                near+= [x for x in names if x!=n.id and re.sub('sphere','dumbbell',n.id)==x or x!=n.id and re.sub('dumbbell','sphere',n.id)==x]
                s=off(n.lineno,n.col_offset); e=off(n.end_lineno,n.end_col_offset)
                for x in near: rep(s,e,x,'name',n.lineno,fn)
            if isinstance(n,(ast.Assign,ast.AugAssign)) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Call)):
                s=off(n.lineno,n.col_offset); e=off(n.end_lineno,n.end_col_offset)
                rep(s,e,'pass','del',n.lineno,fn)
            if isinstance(n,ast.AugAssign):
                s=off(n.target.end_lineno,n.target.end_col_offset); e=off(n.value.lineno,n.value.col_offset)
                t=raw[s:e].decode()
                if '+=' in t: i=t.find('+='); rep(s+i,s+i+2,'-=','aug',n.lineno,fn); rep(s+i,s+i+2,'=','aug',n.lineno,fn)
            if isinstance(n,ast.Call):
                for k in n.keywords:
                    if k.arg and len(n.args)+len(n.keywords)>1:
                        s=off(k.value.lineno,k.value.col_offset)-len(k.arg)-1; e=off(k.value.end_lineno,k.value.end_col_offset)
                        m=re.match(rb'\s*,\s*',raw[e:]);
                        if m: rep(s,e+m.end(),'','kw',n.lineno,fn)
                if len(n.args)>=2 and not any(isinstance(a,ast.Starred) for a in n.args):
                    i=0
                    a,b2=n.args[0],n.args[1]
                    s1,e1=off(a.lineno,a.col_offset),off(a.end_lineno,a.end_col_offset); s2,e2=off(b2.lineno,b2.col_offset),off(b2.end_lineno,b2.end_col_offset)
                    rep(s1,e2,(raw[s2:e2]+raw[e1:s2]+raw[s1:e1]).decode(),'argswap',n.lineno,fn)
        for k in ast.iter_child_nodes(n): visit(k,fn,names)
    allnames=sorted({m.id for m in ast.walk(tree) if isinstance(m,ast.Name)})
    for k in tree.body: visit(k,None,allnames)
    return raw,out
def fmutants(path):
    raw=open(path,'rb').read(); out=[]; o=0
    for ln,l in enumerate(raw.split(b'\n'),1):
        t=l.decode('latin1')
        if not (t[:1] in 'cC*!' or re.match(r'\s*(write|format|common|real|integer|double|include|\d+\s+format)',t,re.I)):
            body=t[6:72]
            for m in re.finditer(r'(?<=[\w)])\s*([-+*/])\s*(?=[\w(])',body):
                if body[m.end(1)-2:m.end(1)+1].count('*')>1: continue
                s=o+6+m.start(1)
                out.append((s,s+1,{'+':'-','-':'+','*':'/','/':'*'}[m.group(1)].encode(),'op',ln,None))
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',body):
                s=o+6+m.start(); out.append((s,o+6+m.end(),str(int(m.group())+1).encode(),'const',ln,None))
            for m in re.finditer(r'(?<![\w.])([ijklmn])(?![\w.])',body):
                x={'i':'j','j':'i','k':'j','l':'k','m':'n','n':'m'}[m.group()]
                s=o+6+m.start(); out.append((s,s+1,x.encode(),'name',ln,None))
        o+=len(l)+1
    return raw,out
def main():
    log,seed,N=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
    root='/tmp/mut-%d'%os.getpid()
    subprocess.run(['git','clone','-q','/repo',root],check=True)
    rnd=random.Random(seed)
    for spec in sys.argv[4:]:
        f,_,fs=spec.partition(':'); fs=[x for x in fs.split(',') if x]
        p=os.path.join(root,f)
        raw,ms=fmutants(p) if f.endswith('.f') else mutants(p,fs)
        rnd.shuffle(ms)
        done=0
        for (s,e,new,kind,ln,fn) in ms:
            if done>=N: break
            text=raw[:s]+new+raw[e:]
            if text==raw: continue
            if f.endswith('.py'):
                try: compile(text.decode(),f,'exec')
                except SyntaxError: continue
            open(p,'wb').write(text)
            try:
                env=dict(os.environ,VERIF_REPO=root,VERIF_SEED='1',VERIF_TIER='quick')
                t0=time.time()
                skip=f.startswith('find_') or 'plotting' in f or 'positions' in f
                if not skip:
                    try:
                        r=subprocess.run([PY,'-m','pytest'],cwd=root,capture_output=True,text=True,timeout=200,env=dict(os.environ,PYTEST_ADDOPTS='-q -p no:cacheprovider',MPLBACKEND='Agg',PYTHONDONTWRITEBYTECODE='1',NUMBA_CACHE_DIR=root+'-nb'))
                        if r.returncode!=0: continue
                    except subprocess.TimeoutExpired: continue
                done+=1
                res=[]
                for c in checks(f):
                    try: r=subprocess.run([os.path.join(HERE,'vrun'),c],cwd=HERE,env=env,capture_output=True,text=True,timeout=900); rc=r.returncode
                    except subprocess.TimeoutExpired: rc='timeout'
                    res.append((c,rc))
                    if rc==1: break
                st='KILLED' if res[-1][1]==1 else 'SURVIVED' if all(x[1]==0 for x in res) else 'NOANSWER'
                a=raw.rfind(b'\n',0,s)+1; z=raw.find(b'\n',e)
                with open(log,'a') as g:
                    g.write('%s %s:%d (%s) [%s] %s %ds\n'%(st,f,ln,fn,kind,' '.join('%s=%s'%x for x in res),time.time()-t0))
                    if st!='KILLED':
                        za=text.find(b'\n',s+len(new)); 
                        g.write('    - '+raw[a:z].decode().strip()+'\n    + '+text[a:za].decode().strip()+'\n')
            finally: open(p,'wb').write(raw)
    shutil.rmtree(root)
main()
