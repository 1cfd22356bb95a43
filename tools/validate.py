import warnings; warnings.simplefilter('ignore')
"""Development aid: compare the analyser's value terms with real runs (not part of any check)."""
import sys, time, random, traceback, math
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/repo/src')
import try_ as T
from sa import driver as d, terms as t, model as m
from sa.interp import Split
import coinflip.randtests as rt
import pandas as pd
P={
'monobit':[(30,{})], 'frequency_within_block':[(40,{'blocksize':8}),(41,{'blocksize':5})],'runs':[(30,{})],'longest_runs':[(140,{}),(200,{})],
'binary_matrix_rank':[(60,{'nrows':3,'ncols':4}),(70,{'nrows':3,'ncols':3})],'spectral':[(30,{}),(31,{})],
'non_overlapping_template_matching':[(60,{'template_size':2,'blocksize':20}),(64,{'template_size':3,'blocksize':15})],
'overlapping_template_matching':[(120,{'template_size':2,'blocksize':20,'matches_ceil':3}),(130,{'template_size':3,'blocksize':30,'matches_ceil':2})],
'maurers_universal':[(60,{'blocksize':2,'init_nblocks':5}),(61,{'blocksize':3,'init_nblocks':4})],
'linear_complexity':[(50,{'blocksize':7}),(51,{'blocksize':10})],
'serial':[(40,{'blocksize':3}),(41,{'blocksize':4})],'approximate_entropy':[(40,{'blocksize':3}),(41,{'blocksize':2})],
'cusum':[(40,{'reverse':False}),(41,{'reverse':False})],'random_excursions':[(80,{}),(100,{})],'random_excursions_variant':[(80,{}),(100,{})]}
def fk(k):
    if isinstance(k,tuple): return tuple(fk(x) for x in k)
    if isinstance(k,m.Face): return int(k is m.H)
    return m.hashable(k)
def cmp(a,b,path=''):
    if isinstance(a,dict): a={fk(k):v for k,v in a.items()}
    if isinstance(b,dict): b={tuple(int(y) for y in k) if isinstance(k,tuple) else k:v for k,v in b.items()}
    try:
        a_=a
        if isinstance(b,(list,tuple)) or type(b).__name__ in('ndarray','Series'):
            b=list(b)
            if len(a)!=len(b): return ['%s len %s %s'%(path,len(a),len(b))]
            r=[]
            for i,(x,y) in enumerate(zip(a,b)): r+=cmp(x,y,path+'[%d]'%i)
            return r
        if isinstance(a,m.Rec) and 'Count' in type(b).__name__: return cmp(list(a.fields.values()),[b.heads,b.tails])
        if isinstance(b,dict):
            if set(a)!=set(b): return ['%s keys %s %s'%(path,list(a)[:5],list(b)[:5])]
            r=[]
            for k in b: r+=cmp(a[k],b[k],path+'{%s}'%(k,))
            return r
        if isinstance(a,m.Face): return [] if a.text==str(b) else ['%s face %s %s'%(path,a,b)]
        if isinstance(a,m.Rec):
            r=[]
            for k,x in a.fields.items():
                if hasattr(b,k): r+=cmp(x,getattr(b,k),path+'.'+k)
            return r
        if isinstance(b,(int,float)) or hasattr(b,'dtype'):
            a=float(a); b=float(b)
            return [] if abs(a-b)<=1e-8*max(1,abs(a)) else ['%s %r %r'%(path,a,b)]
        return [] if a==b or isinstance(a,m.Sym) or b is None and a is None else ['%s %r %r'%(path,a,type(b))]
    except Exception as e:
        return ['%s EXC %s'%(path,e)]
def one(name,mod='coinflip.randtests'):
    real=getattr(__import__(mod,fromlist=['x']),name)
    sp=[]
    if name=='longest_runs':
        sp=[[t.gt0(t.sub(t.num(6272),d.N))]]
    else: sp=[[]]
    T.N=None
    I=d.new(); I.module(mod); f=I.mod_attr(mod,name)
    kw={k:T.val(v,k) for k,v in T.TESTS[name].items()}
    t0=time.time()
    try: o=d.run(I,f,[d.INPUT],kw,true=sp[0])
    except Split as e:
        print(name,'SPLIT',t.pretty(e.cond)); return
    ta=time.time()-t0
    ob=I.deref(o.value); 
    for n,par in P[name]:
        for rep in range(3):
            rnd=random.Random(n*7+rep)
            bits=[rnd.random()<(.5 if rep<2 else .35) for _ in range(n)]
            if rep==1: bits=([1,0,0,1,1,0,1,1,0,0,0,1]*20)[:n]
            S=[m.H if b else m.TL for b in bits]
            M=m.Model({'n':n,'S':S,'heads':m.H,'tails':m.TL,**{k:int(v) if isinstance(v,bool) else v for k,v in par.items()}})
            pk=dict(par)
            if 'nrows' in pk: pk={'matrix_dimen':(pk['nrows'],pk['ncols'])}
            m.H.text='1'; m.TL.text='0'
            t1=time.time()
            try: r=real(pd.Series([1 if b else 0 for b in bits]),**pk); ex=None
            except Exception as e: r=None; ex=e
            try: g=M.holds(o.guard)
            except m.Undef as e: g='undef %s'%e
            msgs=[]
            if r is not None:
                if g is not True and g!=1: msgs.append('guard %s but ran'%(g,))
                objs=[('',ob)]
                if ob.op=='rec' : pass
                try:
                    fields=ob.args[1] if ob.op in('inst','rec') else ()
                    for k,x in fields:
                        try: v=M.settle(I.freeze(x))
                        except m.Undef as e: msgs.append('%s undef %s'%(k,e)); continue
                        if hasattr(r,k): msgs+=cmp(v,getattr(r,k),k)
                        else: msgs.append('real lacks '+k)
                except Exception as e: msgs.append('EXC %r'%e); traceback.print_exc()
            else:
                if g is True or g==1: msgs.append('guard true but raised %r'%ex)
            print(name,n,par,rep,'OK' if not msgs else msgs[:6],'%.2fs'%(time.time()-t1), 'stat',getattr(r,'statistic',None) if not msgs else '', repr(ex) if ex else '')
    print('  analysis %.1fs'%ta)
if __name__=='__main__':
    mod='coinflip.randtests'
    for nm in [a for a in sys.argv[1:] if a[0]!='-'] or list(P): 
        try: one(nm)
        except Exception: traceback.print_exc()
