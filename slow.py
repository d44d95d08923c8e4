"""slow.py OUTDIR...: the slowest tasks"""
import json,sys,os
r=[]
for d in sys.argv[1:]:
    for x in os.listdir(d):
        if x.startswith('task'):
            t=json.load(open(f'{d}/{x}')); r.append((t['wall_s'],t['task'],t['part'],t['paths'],t['z3'],t['z3_s'],t['instrs']//1000000))
r.sort(reverse=True)
print(len(r),'tasks',round(sum(x[0] for x in r)),'s')
for x in r[:25]: print(*x)
