import sys; sys.path.insert(0,'/verif/tools')
import json,collections
d=json.load(open(sys.argv[1])); g=[g for g in d['graphs'] if g['root'].replace('root_','')==sys.argv[2]][0]
pat=sys.argv[3]
adj=collections.defaultdict(list)
for a,b,l,s in g['edges']: adj[a].append((b,g['labels'][l],d['sites'][s]))
prev={0:None}; q=collections.deque([0]); seen=set()
while q:
    n=q.popleft()
    for b,l,s in adj[n]:
        if pat in l and l not in seen:
            seen.add(l)
            p=[(l,s)]; x=n
            while prev[x]: x,l2,s2=prev[x]; p.append((l2,s2))
            print('---'); 
            for l2,s2 in reversed(p):
                if l2: print('  ',l2[:150],'|',s2[-90:])
        if b not in prev: prev[b]=(n,l,s); q.append(b)
