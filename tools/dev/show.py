import json,sys
d=json.load(open(sys.argv[1]))
for g in d['graphs']:
    if len(sys.argv)>2 and g['root'] not in sys.argv[2].split(','): continue
    print("==",g['root'],g['nodes'],len(g['edges']),g['error'],g['obs'])
    for l in sorted(g['labels']):
        if l.startswith(('UNMOD','PANIC','PROTO','return')): print("   ",l[:300])
    if len(sys.argv)>3:
        for e in g['edges']: print(e[0],e[1],g['labels'][e[2]],d['sites'][e[3]])
