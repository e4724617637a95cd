#!/bin/bash
# dev.sh PROP [names,] : run the symbolic contracts and print the outcome
export PYTHONPATH=${VERIF_REPO:-/repo} MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
D=$(mktemp -d)
MODE=${MODE:-sym}
python3 - "$D" "$MODE" "$1" "$2" <<'P'
import json,sys
d,mode,p,n=sys.argv[1:]
json.dump({"mode":mode,"prop":p,"names":n.split(',') if n else None,"out":d+"/o.json","budget":200,"seed":1,"mult":1},open(d+'/c.json','w'))
P
/opt/venv/bin/python /verif/pyvc/worker.py $D/c.json
python3 - "$D/o.json" $MODE <<'P'
import json,sys
for r in json.load(open(sys.argv[1])):
    if sys.argv[2]=='sym':
        print(r['name'],'paths',r['paths'],r['unsupported'],round(r['wall_s'],2))
        seen=set()
        for o in r['obligations']:
            if o['status']!='proved' and (o['status'],o['label']) not in seen:
                seen.add((o['status'],o['label']))
                print('   ',o['status'],o['label'],o['choices'],str(o["detail"])[:int(__import__("os").environ.get("W","600"))],o.get('tainted'),str(o.get('model'))[:600])
        from collections import Counter
        print('    proved:',sum(o['status']=='proved' for o in r['obligations']),len(set(o['label'] for o in r['obligations'])),'labels')
    else:
        print(r['name'],r['samples'],r['rejected'],r['errors'],round(r['wall_s'],1),list(r['checked']))
        for f in r['fails']: print('   FAIL',f['label'],f['detail'][:700],str(f['inputs'])[:900])
P
rm -rf $D
