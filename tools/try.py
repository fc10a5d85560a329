import faulthandler,os; faulthandler.dump_traceback_later(int(os.environ.get("FH","100000")),repeat=True)
import sys,time,importlib
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import engine as E, prove as PV
prop=sys.argv[1]
importlib.import_module('contracts.'+prop.lower())
only=sys.argv[2:] 
for h in E.REG[prop.upper()]:
    if only and h.name not in only: continue
    for case in h.cases:
        t=time.time(); n=0; sk=0; dec=0; err=None
        for i in range(h.opts.get("con",300)):
            r=E.con_run(h,case,index=i)
            if r is None: sk+=1
            elif r[0]=='ok': n+=1; dec+=r[1]
            else:
                err=r;print('CON',h.name,case,i,r);break
        tc=time.time()-t
        t=time.time()
        if h.opts.get("sym",True) is False:
            print(h.name,case,'con',n,'skip',sk,'%.2fs'%tc);continue
        ex=E.Explorer(h,case,deadline=time.time()+float(__import__('os').environ.get('TL','120'))).run()
        print(h.name,case,'con',n,'skip',sk,'%.2fs'%tc,'| paths',ex.paths,'dead',ex.dead,'obl',len(ex.results),'failed',len(ex.failed),'uns',len(ex.unsupported),'%.1fs'%(time.time()-t),'hid',ex.hidden)
        for f in ex.failed[:4]: print('  FAIL',{k:v for k,v in f.items()})
        for u in list(dict.fromkeys(ex.unsupported))[:4]: print('  UNS',u)
        nw=sorted({r['label'] for r in ex.results}-{r['label'] for r in ex.results if r['witness']})
        if nw or os.environ.get('V'): print('   nowitness',nw)
        if any(v==0 for v in ex.covers.values()): print('   UNCOVERED',ex.covers)
        if not os.environ.get('V'): continue
        print('   covers',ex.covers, 'nowitness',sorted({r['label'] for r in ex.results}-{r['label'] for r in ex.results if r['witness']}))
        hows={}
        for r in ex.results: hows[r['how']]=hows.get(r['how'],0)+1
        print('   ',hows, 'slow',sorted([(round(r.get('t',0),1),r['label']) for r in ex.results],reverse=True)[:3])
print(PV.STATS)
