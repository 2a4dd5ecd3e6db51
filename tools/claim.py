import json,sys
j=json.load(open('/verif/tools/claims.json'))
for a in json.load(sys.stdin): j[a[0]]=dict(technique=a[1],note=a[2])
json.dump(j,open('/verif/tools/claims.json','w'),indent=1,sort_keys=True)
