import json
d="/verif/spec/cfg/schemas_"
c=lambda s: list(s.encode() if isinstance(s,str) else s)
col=lambda **k: dict(dict(name="Foo",column_type="BOOLEAN",compression="GZIP",bloom_filter=False),**k)
J=lambda x: json.dumps(x,separators=(",",":"))
models={"ok_avro":'{"type":"null"}', "ok_short":'{"a":1}', "ok_parquet":J([col()]), "ok_empty_parquet":"[      ]", "list":'["string" ]', "null":"null    ", "text":'"textual"', "broken":'{"type":"null"', "tiny":"{}",
        "ok_long":J({"doc":"x"*50}), "column_missing":J([{"name":"a","column_type":"INT32","compression":"GZIP"}]), "ok_parquet_int":J([col(column_type={"INTEGER":{"bit_width":8,"sign":True}})])}
base=dict(models={k:c(v) for k,v in models.items()},minsize=8,limit=60,hard=130,maxsettings=2,pre=[])
def mc(**k):
    b=dict(kinds=[],models=["ok_avro"],types=["avro"],locs=["chain"],settings=[[]],vers=[1,2,3],names=[c("ab-c.x")],asks=[c("ab-c.x")],limits=[20],maxpend=1,maxsch=3,base=0,depth=0)
    b.update(k); return b
def w(n,b,**m): json.dump(dict(b,mc=mc(**m)),open(d+n+".json","w"))
SP=["abc","ab-c","abcd","bsky"]
nm=dict(base,spaces=["abc","ab-c"])
w("defs",nm,kinds=["create","govern"],models=list(models),types=["avro","parquet"],locs=["chain","ipfs","items","pages"],settings=[[],["append"],["signed"],["signed","append"],["append","append"],["append","signed","signed"]],names=[c("abc.d")],maxsch=1)
w("names",nm,kinds=["create","name","ask","valid"],vers=[3],names=[c("abc.x"),c(" AbC.X "),c("abc.y"),c("abc")],asks=[c("abc.x"),c("ABC"),c("abc.z"),c("a"),c("abc.")],maxsch=3,depth=4)
w("pend",nm,kinds=["govern","propose","propname","enact","limit"],models=["ok_avro","ok_long"],vers=[1,3],names=[c("abc.x"),c("abc.y")],limits=[20,130,131],maxpend=2,maxsch=2,depth=4)
w("names_big",nm,kinds=["create","name","ask","valid"],vers=[3],names=[c("abc.x"),c(" AbC.X "),c("abc.y"),c("ab-c.x"),c("abc")],asks=[c("abc.x"),c("ABC"),c("abc.z")],maxsch=3,depth=5)
w("pend_big",nm,kinds=["govern","propose","propname","enact","limit","name"],models=["ok_avro","ok_long"],vers=[1,3],names=[c("abc.x"),c("abc.y")],limits=[20,130,131],maxpend=2,maxsch=3,depth=5)
w("last",dict(nm,pre=[{"k":"skip","n":65533}]),kinds=["create","name","valid"],names=[c("abc.x"),c("abc.")],vers=[1,3],base=65533,maxsch=3)
full=dict(base,minsize=8,limit=1024,hard=2048,spaces=["abc","ab-c","dsnp","bsky","x-y-z","a"*30],
  names=[c(x) for x in ["abc.x","ABC.x"," abc.X","abc.y\t","ab-c.x","dsnp.broadcast","dsnp.Reply-v","bsky.a-b-c","x-y-z.q","a"*30+".b","a"*29+".bc","abc.","abc",".x","ab.x","abc.-x","abc.x-","-abc.x","abc-.x","a.b.c","abc_x","abc.x1","","abc..x","abc."+"y"*28,"abc."+"y"*29,"dsnp.broad cast"]])
full["models"]["ok_big"]=c(J({"doc":"y"*1010})); full["models"]["too_big"]=c(J({"doc":"y"*1020})); full["models"]["beyond"]=c(J({"doc":"y"*2040}))
json.dump(full,open(d+"full.json","w"))
one={"k":"bulk","n":253,"by":"k1","model":"ok_avro","type":"avro","loc":"chain","settings":[],"ver":3,"named":True,"name":c("abc.x")}
w("vers",dict(nm,pre=[one]),kinds=["create","name","ask"],vers=[3],names=[c("abc.x")],asks=[c("abc.x"),c("abc")],base=253,maxsch=3,depth=3)
