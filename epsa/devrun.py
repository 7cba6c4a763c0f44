import sys,time; sys.path.insert(0,'/verif')
from epsa import build, dom, mem, interp
from epsa.ir import Module
from epsa.intrin import I
tu=sys.argv[1]; 
t=time.time()
m=Module(build.to_json(['/verif/harness/%s.cpp'%tu],tu))
print('build',time.time()-t)
for e in [a for a in sys.argv[2:] if a[0]!='-']:
    dom.reset(); mem.ANYB.clear(); dom._cc.clear(); interp.FIDS.clear()
    t=time.time()
    ip=interp.Interp(m,intrinsics=I)
    try: ip.run(e)
    except interp.Budget as x: print('BUDGET',x)
    print(e,'steps',ip.steps,'paths',ip.partitions,'findings',len(ip.findings),'undec',len(ip.undecided),'oblig',len(ip.oblig),'%.2fs'%(time.time()-t), [(v['iterations'],v['stable']) for v in ip.loop_info.values()], ip.unknown_ext)
    for d in list(ip.findings.values())+list(ip.undecided.values()):
        print('  ',d['kind'],d['message'],'|',d['function'],d['line'],'IMP' if d['imprecise'] else '', d['imprecise'] or '')
        if '-v' in sys.argv: print('      ',d['partition'][:6], d['path'][-6:], d.get('witness'))
