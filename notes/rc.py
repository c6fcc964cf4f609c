import sys, importlib
sys.path.insert(0,'/verif')
from vcgen.spec import *
m=importlib.import_module('specs.'+sys.argv[1])
S=Session(); m.cases(S)
print("load errors",S.load_errors)
sel=sys.argv[2] if len(sys.argv)>2 else None
for r in S.run(select=sel, limit=300):
    bad=[o for o in r['obls'] if o['result']!='proved']
    print("%-60s %d/%d  %.1fs %s vac=%s"%(r['case'][:60],len(r['obls'])-len(bad),len(r['obls']),r['time'],r['error'] or '',r.get('vacuity')))
    for o in bad[:int(__import__('os').environ.get('NB','4'))]: print('    ',o['result'],o['name'],'|',o['kind'],o.get('line'),o['fn'],o['backend'],'\n         G:',o.get('goal','')[:300].replace('\n',' '),'\n         M:',(o.get('model') or '')[:200].replace('\n',' '))
