import sys; sys.path.insert(0,'/verif/tools')
from vlib import *
d=json.load(open(sys.argv[1]))
gs={g['root'].replace('root_',''):Graph(g,d['sites']) for g in d['graphs']}
def canon(l):
    l=re.sub(r'local:invalid_\w+(\([^()]*(\([^()]*\))*\))?','local',l)
    def msg(m):
        t=sorted(set(re.findall(r'\b(?:tag[=.]\w+|otherkey\.[\w*]+)',m.group(0))))
        return 'local('+','.join(t)+')' if t else 'local'
    l=re.sub(r'message\b.*(?=\)\)$)',msg,l) if l.startswith('return') else l
    l=l.replace('[','(').replace(']',')').replace('"dup","dup"','"dup"')
    l=re.sub(r'^(ask|got):(borrowed_)?str(ing)?\b',r'\1:str',l)
    return l
for p in sys.argv[2:]:
    a,b=p.split(':')
    A=gs[a].relabel(canon);B=gs[b].relabel(canon)
    for x,y,nm in ((A,B,'impl<=spec'),(B,A,'spec<=impl')):
        cx,st=inclusion(x,y)
        print(a,b,nm,st,'OK' if cx is None else 'FAIL')
        if cx: print(show_path(cx)); print('  allowed',cx['allowed'][:20])
