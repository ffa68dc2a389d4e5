import json,sys
sys.path.insert(0,'/verif')
from hv import scad
for f in sys.argv[1:]:
    d=json.load(open(f));print(d.get('message')); c=d['case']
    n=c.get('nodes') or ([c['node']] if 'node' in c else [])
    print({k:v for k,v in c.items() if k not in('node','nodes')})
    print(scad.program(n))
