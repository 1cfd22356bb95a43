"""Development aid: code against specification, one test."""
import sys, time, traceback
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools')
import try_ as T
from sa import driver as d, terms as t, pairs, compare as C
from sa.interp import Split
SPECMOD={'monobit':'frequency','frequency_within_block':'frequency','runs':'runs','longest_runs':'runs','binary_matrix_rank':'matrix','spectral':'fourier','non_overlapping_template_matching':'template','overlapping_template_matching':'template','maurers_universal':'universal','linear_complexity':'complexity','serial':'serial','approximate_entropy':'serial','cusum':'walk','random_excursions':'walk','random_excursions_variant':'walk'}
def run(name,default=False,true=()):
    I=pairs.interp()
    f=pairs.lookup(I,'coinflip.randtests',name); g=pairs.lookup(I,'spec.'+SPECMOD[name],name)
    kw={} if default else {k:T.val(v,k) for k,v in T.TESTS[name].items()}
    if name=='binary_matrix_rank' and kw: pass
    m=I.mark(); st=dict(I.st)
    t0=time.time()
    try:
        a=d.run(I,f,[d.INPUT],kw,true=true); t1=time.time()
        I.reset(m); I.pc=[]; 
        b=d.run(I,g,[d.INPUT],kw,true=true); t2=time.time()
    except Split as e:
        print('SPLIT',t.pretty(e.cond))
        for c in (e.cond,t.not_(e.cond)): run(name,default,list(true)+[c])
        return
    print(name,[t.pretty(c) for c in true],'code %.1f spec %.1f'%(t1-t0,t2-t1))
    I.st=a.state; ca=dict(I.deref(a.value).args[1]) if a.value is not None else {}
    ca={k:I.freeze(v) for k,v in ca.items()}
    I.st=b.state
    sb=I.deref(b.value) if b.value is not None else None
    done=[]
    def p(x): return t.pretty(x,int(D))[:W]
    D=int(__import__("os").environ.get("D","12"));W=int(__import__("os").environ.get("W","700"))
    print(' guard',C.same(a.guard,b.guard))
    if not C.same(a.guard,b.guard): print('   ',p(a.guard));print('   ',p(b.guard))
    for x,o in(('code',a),('spec',b)): print(' ',x,[(t.pretty(e,2)[:60],p(gd)[:150]) for gd,e,pos in o.raises])
    if sb is None: return
    items=I.ditems(sb) if hasattr(I,'ditems') else None
    for k,v in spec_items(I,b.value):
        fv=I.freeze(v)
        if k in('steps','refdist','known'): continue
        if k not in ca: print('  MISSING',k); continue
        s=C.same(ca[k],fv) or C.same(C.plain(ca[k]),C.plain(fv))
        print('  ',k,'same' if s else 'DIFF',ca[k].size,fv.size)
        if not s and '-f' in sys.argv:
            x=C.first_diff(C.plain(ca[k]),C.plain(fv))
            if done: continue
            done.append(1)
            for y in (x or ())[-4:]: print('     code',y[0].op,p(y[0]));print('     spec',y[1].op,p(y[1]))
            continue
        if not s and '-q' not in sys.argv: print('     code',p(C.plain(ca[k])));print('     spec',p(C.plain(fv)))
def spec_items(I,v):
    o=I.deref(v).args[0]
    return [(k.args[0],x) for k,x,_ in o.args[0]]
if __name__=='__main__':
    for nm in [a for a in sys.argv[1:] if not a.startswith('-')]:
        run(nm,'-d' in sys.argv)
