import json,sys
sys.path.insert(0,'/verif')
from check import merge
r=json.load(open(sys.argv[1]))
if 'fatal' in r: print(r); sys.exit()
m=merge(r['parts']); m.pop('functions'); 
print({k:v for k,v in m.items() if k not in('violations',)}, 'wall',r['wall_s'])
for v in m['violations'][:5]: print(v)
