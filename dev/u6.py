import sys,time; sys.path.insert(0,'/verif')
from analysis import run, interp as I, configs, prims
from analysis.terms import *
from analysis.soldomain import SolverDomain
en=lambda c,m: mk('enum',c,m)
P=run.P
def go(fn, pins={}, args=(), opaque=()):
    it=I.Interp(run.program(), SolverDomain(pins)); prims.install(it)
    it.opaque_funcs|=set(opaque)
    st=I.State()
    ci=it.prog.find_class('NosnocSolver')
    it.frames.append(I.Frame(ci.module,None,'check'))
    if '.' in fn:
        f=it.getattr(P(fn.split('.')[0]),fn.split('.')[1],st)
    else:
        m=[m for m in it.prog.modules.values() if fn in m.funcs][0] if hasattr(ci.module,'funcs') else None
        f=it.from_resolved(it.prog.resolve('nosnoc.solver',fn),st)
    t=time.time()
    r=it.call(f,list(args),{},ci.node,st)
    print(fn,time.time()-t)
    print('RET',show(it.reify(st,it.V(st,r)),)[:6000])
    for k,ents in st.heap.items():
        for e in ents:
            print('HEAP',str(k)[:60],[show(x)[:60] for x in e[1]],show(it.reify(st,e[3]))[:900])
    print('RAISES',[show(x)[:300] for x in it.raises]); print('UNSUP',it.unsupported[:10])
if __name__=='__main__':
    p=configs.pins(configs.cfg())
    p.update(initialization_strategy=en('InitializationStrategy',sys.argv[2]), do_polishing_step=FALSE, fix_active_set_fe0=FALSE, print_level=ZERO, homotopy_update_rule=en('HomotopyUpdateRule','LINEAR'))
    for a in sys.argv[3:]:
        k,v=a.split('='); p[k]=eval(v)
    A={'self.set':[P('field'),P('value')],'get_results_from_primal_vector':[P('problem'),P('w_opt')],'self.setup_p_val':[P('sigma'),P('tau')],'self.polish_solution':[P('casolver'),P('w_guess')],'self.homotopy_sigma_update':[P('sigma_k')]}.get(sys.argv[1],[])
    import os
    go(sys.argv[1],pins=p,args=A,opaque=os.environ.get('OPQ','').split(','))
