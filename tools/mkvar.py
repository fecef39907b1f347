import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
asan=set(json.load(open(V+'/tools/asan.json')))
tsan={'P27','P34'}
ids=sorted(f[:-4] for f in os.listdir(V+'/props') if f.endswith('.cpp'))
json.dump({i:('asan' if i in asan else 'tsan' if i in tsan else 'plain') for i in ids},open(V+'/tools/variants.json','w'),indent=0)
