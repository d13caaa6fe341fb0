import json,sys
props=sys.argv[1].split(',')
allp=[json.loads(l) for l in open('properties.jsonl')]
LEV=json.load(open('levels.json'))
man={'version':1,'setup_cmd':'true','checks':[],'not_applicable':[]}
for p in allp:
    i=p['id']
    if i in props:
        l=LEV[i]
        man['checks'].append({'property':i,'quick_cmd':'python3 check.py %s'%i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'technique':l['technique'],'level':l['level'],'level_note':l['note']})
    else:
        man['not_applicable'].append({'property':i,'reason':'check under construction'})
json.dump(man,open('MANIFEST.json','w'),indent=1)
