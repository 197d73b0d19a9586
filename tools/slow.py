"""slow.py Cxx: the slowest harnesses of the kept run in .work/Cxx"""
import sys, glob, json
R=[]
for f in glob.glob('/verif/.work/%s/s*/out_main.json'%sys.argv[1]):
    d=json.load(open(f))
    R+=[(r.get('duration_ms',0)/1000,r['harness_id'],f.split('/')[-2]) for r in d["verification_results"]["results"]]
R.sort(reverse=True)
print(sum(x[0] for x in R), len(R))
for x in R[:25]: print(x)
