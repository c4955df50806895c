# fam.py FAMILY DIALECT N [seed]: run scenarios of one family, list broken clauses
import sys, collections, json
sys.path.insert(0,"/verif/harness"); sys.dont_write_bytecode=True
import campaign, engines
fam,d,n=sys.argv[1],sys.argv[2],int(sys.argv[3]); seed=sys.argv[4] if len(sys.argv)>4 else "x"
jobs=campaign.plan_jobs("T",seed,[(fam,d,n)])
r=campaign.run(jobs,engines.scratch(),600)
print(r.done,{k:v for k,v in r.stats.items() if not k.startswith("time")})
c=collections.Counter(x for cl,_ in r.bad.values() for x in cl); print("clauses",dict(c))
for i,(cl,p) in list(r.bad.items())[:5]:
    rec=json.load(open(p)); print(r.jobs[i].key,cl,[x["end"]["err"][:150] for x in rec["runs"]])
print("errs",[(r.jobs[i].key,e[-300:]) for i,e in r.errs[:3]])
