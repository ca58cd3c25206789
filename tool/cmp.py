import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed']); bad=[x for x in b['stable'] if x not in p]
print('stable',len(b['stable']),'missing',len(bad),bad[:10]); sys.exit(bool(bad))
