import json,sys
p='/verif/known_findings.json'
d=json.load(open(p))
prop,status,commit,what=sys.argv[1:5]
e={"property":prop,"status":status}
if status=='fixed':
    e['commit']=commit; e['what']='fixed: property=%s %s %s'%(prop,commit,what)
else:
    e['what']=what; e['site']=sys.argv[5]; e['match']=sys.argv[6]
d['findings'].append(e)
with open(p,'w') as f:
    f.write('{"findings": [\n'+',\n'.join(' '+json.dumps(x) for x in d['findings'])+'\n]}\n')
