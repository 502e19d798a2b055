"""dev helper: group the violations written by MC_DUMP=/tmp/d.json"""
import json,re,collections,sys
c=collections.defaultdict(list)
for l in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/d.json'):
    f=json.loads(l); m=f['msg']
    k=re.sub(r"\[\{.*?\}\]","[]",m) if "[{" in m else re.sub(r"^.*?: ","",m,count=1); k=re.sub(r"\d+","N",k); k=re.sub(r"/\S+","/P",k)
    c[f['domain'],k].append(m)
for k,v in sorted(c.items(), key=lambda x:-len(x[1]))[:14]: print(len(v),k[0],k[1][:200],"|",v[0][:260])
