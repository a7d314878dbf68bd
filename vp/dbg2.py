import sys,os,time
sys.path.insert(0,'/verif/vp')
import build,runner,ir,engine
h,entry=sys.argv[1:3]
opts=eval(sys.argv[3]) if len(sys.argv)>3 else {}
src,nsrc,o,_,en=runner.parse_harness(h)
lls=build.compile_ir(["harness/"+h,"rt/rt.cpp"]+src,'/tmp/dbg/'+h+'/ir',[y for x in o.get('irinc',[]) for y in ('-include',x)])
mods=[ir.Module(open(f).read(),f) for f in lls]
sys.setrecursionlimit(20000)
oo=dict(o.get('*',{}));oo.update(o.get(entry,{}));oo.update(opts);e=engine.Engine(mods,{k:v for k,v in oo.items() if k not in('mode','secs','prio','bwall')})
if os.environ.get('SMT'):
    oc=e.check_valid
    def cv(st,phi,*a,**k):
        r=oc(st,phi,*a,**k)
        if r[0]!='proved':
            print(r[0],e.where(st)); 
            print('PC',[c for c in st.pc][-12:]); print('PHI',phi)
        return r
    e.check_valid=cv
t=time.time()
try:
    e.run_entry('vp_entry_'+entry)
finally:
    print(entry,time.time()-t,'steps',e.steps,'paths',e.paths,'q',e.nq,'solver',e.solver_time)
    for o in e.obligations:
        if o['status']!='proved': print(o)
    print(len(e.obligations),e.covers,e.loops_cut,e.models.assumptions)
