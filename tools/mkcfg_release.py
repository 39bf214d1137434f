import json
d="/verif/spec/cfg/release_"
base=dict(now=10,ed=2,minrel=4,max=2,accs=["a","b"],free={"a":20,"b":3},pre=[])
def mc(**k):
    b=dict(kinds=["transfer","claim"],to=["b"],scheds=[],lists=[],sends=[],locks=[],ticks=[1],maxnow=16,depth=0)
    b["from"]=["a"]
    b.update(k); return b
def w(n,b,**m): json.dump(dict(b,mc=mc(**m)),open(d+n+".json","w"))
S=[[10,2,2,3],[12,1,3,2],[8,3,2,2],[14,1,1,4],[0,2,3,2],[10,0,2,3],[10,2,0,3],[10,1,1,3]]
w("clock",base,scheds=[s for k,s in enumerate(S) if k in (0,1,2,4,5)],to=["b","a"],sends=[3],kinds=["transfer","claim","send"],maxnow=14,depth=8)
w("clock_big",dict(base,max=3,free={"a":30,"b":3}),scheds=S,to=["b","a"],sends=[1,3],kinds=["transfer","claim","send"],maxnow=15)
w("gov",base,kinds=["update","claim","transfer","lock","send"],scheds=[[10,2,2,3],[9,1,3,2]],lists=[[],[[10,2,2,3]],[[12,1,3,2],[8,3,2,2]],[[10,1,1,4],[10,1,1,4],[10,1,1,4]],[[10,2,2,3],[10,0,1,9]],[[10,1,4,5]],[[11,1,1,19],[11,1,1,4]]],to=["a","b"],sends=[2,3],locks=[0,5,30],maxnow=13,depth=5)
w("gov_big",base,kinds=["update","claim","transfer","lock","send"],scheds=[[10,2,2,3],[9,1,3,2]],lists=[[],[[10,2,2,3]],[[12,1,3,2],[8,3,2,2]],[[10,1,1,4],[10,1,1,4],[10,1,1,4]],[[10,2,2,3],[10,0,1,9]],[[10,1,4,5]],[[11,1,1,19],[11,1,1,4]]],to=["a","b"],sends=[2,3],locks=[0,5,30],maxnow=13,depth=6)
json.dump(dict(base,now=100,ed=5,minrel=6,max=4,accs=["a","b","c","d"],free={"a":2000,"b":300,"c":50,"d":0}),open(d+"full.json","w"))
