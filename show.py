import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p)); e=d['coverage']
    print(p,d['tier'],'wall',d['wall_s'],'cpu',e.get('cpu_s'),'slowest',e.get('slowest_case_cpu_s'),'viol',d['violations'])
    for k,v in e['observations_by_monitor'].items(): print('   %-34s %8d  %s'%(k,v,e['largest_error_over_tolerance'].get(k)))
    print('   ',e['situations_reached'])
