import sys, time, traceback
sys.path.insert(0,'/verif')
from sa import driver as d, terms as t
from sa.interp import Split
TESTS={
'monobit':{}, 'frequency_within_block':{'blocksize':'pos'}, 'runs':{}, 'longest_runs':{},
'binary_matrix_rank':{'matrix_dimen':'pair'}, 'spectral':{},
'non_overlapping_template_matching':{'template_size':'pos','blocksize':'pos'},
'overlapping_template_matching':{'template_size':'pos','blocksize':'pos','matches_ceil':'pos'},
'maurers_universal':{'blocksize':'pos','init_nblocks':'pos'},'linear_complexity':{'blocksize':'pos'},
'serial':{'blocksize':'pos'},'approximate_entropy':{'blocksize':'pos'},'cusum':{'reverse':'b'},'random_excursions':{},'random_excursions_variant':{}}
def val(k,name):
    if k=='pos': return t.var(name,'pos')
    if k=='pair': return t.seq(t.var('nrows','pos'),t.var('ncols','pos'))
    if k=='b': return t.ONE if BOOL else t.ZERO
BOOL=False
def show(x,depth=9): return t.pretty(x,depth)
def go(name,default=False,true=(),mod='coinflip.randtests'):
    t0=time.time()
    I=d.new()
    try:
        m=I.module(mod)
        f=I.mod_attr(mod,name)
        kw={} if default else {k:val(v,k) for k,v in TESTS[name].items()}
        o=d.run(I,f,[d.INPUT],kw,true=true)
    except Split as e:
        
        print(name,'SPLIT',show(e.cond)); 
        for c in (e.cond,t.not_(e.cond)):
            t.CTX.facts=[];t.CTX.known={}
            with_=list(true)+[c]
            I,o=go(name,default,with_,mod)
            print('  case',[show(z) for z in with_])
            if o: dump(I,o)
        return None,None
    except Exception as e:
        tb=traceback.format_exc().strip().split('\n')
        print(name,'EXC',tb[-1], [x for x in tb if '/sa/' in x][-3:]); 
        print('   stack',[(a,getattr(b,'lineno',None)) for a,b in I.stack][-4:])
        if '-v' in sys.argv: traceback.print_exc()
        return None,None
    print('==',name,'%.2fs'%(time.time()-t0))
    return I,o
def dump(I,o,depth=9):
    print(' guard',show(o.guard,depth))
    v=o.value
    if v is None: print(' no value')
    else:
        ob=I.deref(v)
        if ob.op=='inst':
            print(' value',ob.args[0])
            at=ob.args[1]
            for k,x in at: print('   ',k,'=',show(I.freeze(x),depth)[:1500])
        else: print(' value',show(I.freeze(v),depth)[:3000])
    for g,e,pos in o.raises: print(' raise',show(e,4)[:200],'if',show(g,5)[:300],pos)
    print(' events',o.events[:12])
if __name__=='__main__':
    names=[a for a in sys.argv[1:] if not a.startswith('-')] or list(TESTS)
    for nm in names:
        I,o=go(nm,'-d' in sys.argv)
        if o: 
            try: dump(I,o)
            except Exception: traceback.print_exc()
