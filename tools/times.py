import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']; print(p, 'wall',e['wall_s'],'build',c['build_s'], sorted([(s['seconds'],s['paths'],s['job']) for s in c['samples']],reverse=True)[:8])
