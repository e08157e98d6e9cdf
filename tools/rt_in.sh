D=$1
sed "s#/repo#$D#g" /opt/vp/test.sh > $D/../test.sh
bash $D/../test.sh $D/../rt.json > $D/../rt.log 2>&1
python3 - $D/../rt.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x:
            v=x[k]; return set(v) if isinstance(v,list) else set(k2 for k2,s in v.items() if s in ('passed','pass',True))
B=passed(b); R=passed(r); print(len(B),len(R),'missing:',sorted(B-R)[:10])
P
