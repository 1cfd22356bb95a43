"""summary of a run per test: sizes of the fields and whether they contain unknowns"""
import sys; sys.argv_=sys.argv
exec(open('/verif/tools/try.py').read().split("if __name__")[0])
import signal
def bad(x, seen=None):
    seen = set() if seen is None else seen
    if x in seen: return []
    seen.add(x)
    r = []
    if x.op in ('unknown','havoc','opaque'): r.append(show(x,2))
    kids=[]; t._scan(x.args,kids)
    for k in kids: r += bad(k,seen)
    return r
def summ(I,o):
    v=o.value
    if v is None: print('   no value'); return
    ob=I.deref(v)
    items = ob.args[1] if ob.op=='inst' else [('value',v)]
    for k,x in items:
        x=I.freeze(x); b=bad(x)
        print('   ',k,x.size, ('UNKNOWN '+str(b[:6])) if b else '', '' if '-q' in sys.argv else show(x,6)[:int(os.environ.get('W','160'))])
    print('   raises',[(show(e,2)[:60],pos) for g,e,pos in o.raises], 'badguard' if bad(o.guard) else '')
    print('   events',[e[:2] for e in o.events if not (e[0]=='libcall' and 'rich' in e[1])][:12])
import os
dump=summ
if __name__=='__main__':
    def h(*a): traceback.print_stack(limit=25); sys.exit(1)
    signal.signal(signal.SIGALRM,h); signal.alarm(int(os.environ.get('T','200')))
    for nm in [a for a in sys.argv[1:] if not a.startswith('-')]:
        I,o=go(nm,'-d' in sys.argv)
        if o: summ(I,o)
