import json,sys
p='/verif/harness/props.json'
d=json.load(open(p))
for a in sys.argv[1:]:
    pid,cases=a.split('=')
    wrap=None
    if '@' in cases: cases,wrap=cases.split('@')
    e=d['props'].setdefault(pid,{"src":pid.lower()+".cpp"})
    e['quick']={"cases":int(cases)}
    e['thorough']={"cases":int(cases)*20}
    e.setdefault('fuzz',{"seconds":400})
    if wrap: e['wrap']=wrap
json.dump(d,open(p,'w'),indent=1)
