import sys,json,time,os
sys.path.insert(0,''+__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/engine')
from explore import Engine
from sym import *
import traceback
b=json.load(open('/tmp/b.json'))
E=Engine(b,'/tmp/srv.log')
entry=sys.argv[1]; conf=json.loads(sys.argv[2]) if len(sys.argv)>2 else {}
lim=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
st=Stats(); work=[[]]; t=time.time(); n=0
while work and n<lim:
    n+=1
    pre=work.pop()
    try: alts,out=E.run_path(entry,pre,conf,st)
    except Exception as e:
        print(type(e).__name__, e, 'at', E.I.ctx.stack[-6:])
        if '-t' in sys.argv: traceback.print_exc()
        print('decisions',E.I.ctx.decisions); break
    if out['kind'] not in('ok','infeasible'): print(json.dumps(out,ensure_ascii=False)[:1500]); 
    work.extend(alts)
d=st.as_dict(); 
print(n,'paths; left',len(work),'time',round(time.time()-t,2),'steps',d['steps'],'queries',d['queries'],'checks',d['checks'],'solver',round(d['solver_s'],2))
if '-v' in sys.argv: print(d['fns'],d['models'],d['reach'])
