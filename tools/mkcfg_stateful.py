import json
d="/verif/spec/cfg/"
SCH=[{"id":1,"loc":"items","append":False,"signed":False},{"id":2,"loc":"pages","append":False,"signed":False},
     {"id":3,"loc":"items","append":True,"signed":False},{"id":4,"loc":"items","append":False,"signed":True},
     {"id":5,"loc":"pages","append":False,"signed":True},{"id":6,"loc":"chain","append":False,"signed":False},
     {"id":7,"loc":"items","append":True,"signed":True}]
base=dict(keys=["o1","o2","p1","x1"],msas={"o":"7","p":"257","q":"18446744073709551615"},schemas=SCH,blob=4,maxacts=3,ipage=14,ppage=4,maxpage=2,window=3,
  pre=[{"k":"key","key":"o1","m":"o"},{"k":"key","key":"p1","m":"p"}])
def mc(**k):
    b=dict(kinds=[],pages=[0],blobs=[["a",1]],lists=[[]],schemas=[1],owners=["o"],callers=["o1"],signers=["o1"],exps=[2],versions=[1,2],tampers=["none"],delegates=["p"],grants=[[1]],loose=["o2"],stale=True,maxblock=1,maxn=4,depth=0)
    b.update(k); return b
def w(n,c,**m): json.dump(dict(c,mc=mc(**m)),open(d+"stateful_"+n+".json","w"))
A=lambda c,n:["add",[c,n]]
D=lambda i:["del",i]
lists=[[],[A("a",1)],[A("b",4)],[A("",0)],[D(0)],[D(1)],[D(2)],[A("a",1),A("b",1)],[D(0),A("b",1)],[A("b",1),D(0)],[D(1),D(0)],[D(0),D(0)],[A("c",5)],[D(0),D(1),D(2)],[A("a",1)]*3,[A("a",1)]*4,[A("",0),A("a",4),A("b",4)]]
w("items",base,kinds=["write","items"],lists=lists,maxn=3)
w("items_big",base,kinds=["write","items"],lists=lists,maxn=4)
w("pages",base,kinds=["write","page","drop"],pages=[0,1,3],schemas=[2],blobs=[["a",1],["b",2],["",0],["c",5]],owners=["o"],maxn=4)
w("far",dict(base,maxpage=65535,schemas=[{"id":i,"loc":"pages","append":False,"signed":False} for i in (2,258)]),kinds=["write","page","drop"],pages=[0,1,255,256,65535],schemas=[2,258],maxn=1,stale=False)
w("mix",dict(base,pre=base["pre"]+[{"k":"allow","d":"o","p":"p","schemas":[1,2]}],schemas=SCH+[{"id":8,"loc":"pages","append":False,"signed":False}]),kinds=["write","page","drop","items"],pages=[0,1],schemas=[1,2,8],blobs=[["a",1]],owners=["o","p"],callers=["p1"],lists=[[A("a",1)],[D(0)]],maxn=1,stale=False)
w("auth",base,kinds=["write","items","page","drop","allow","deny","cut"],schemas=[1,2,3,4,5,6,7,9],callers=["o1","p1","x1"],lists=[[A("a",1)],[D(0)]],grants=[[1,3,4,7],[2,5]],owners=["o","q"],maxblock=2,maxn=1,stale=False,depth=4)
w("auth_big",base,kinds=["write","items","page","drop","allow","deny","cut","key"],schemas=[1,2,3,4,5,6,7,9],callers=["o1","p1","x1"],lists=[[A("a",1)],[D(0)]],grants=[[1,3,4,7],[2,5]],owners=["o","q"],maxblock=2,maxn=1,stale=False,depth=5)
w("signed",dict(base,pre=base["pre"]+[{"k":"key","key":"o2","m":"o"}]),kinds=["signed","odd","items","page","drop"],schemas=[1,2,3,5],lists=[[A("a",1)],[D(0)]],signers=["o1","o2","p1","x1"],exps=[2,3],tampers=["none","unwrapped","s","target","exp","body","v"],maxblock=3,maxn=1,depth=4)
w("signed_big",dict(base,pre=base["pre"]+[{"k":"key","key":"o2","m":"o"}]),kinds=["signed","odd","items","page","drop"],schemas=[1,2,5],lists=[[A("a",1)],[D(0)]],signers=["o1","o2","x1"],exps=[2,3],tampers=["none","unwrapped","s","target","exp","body","v"],maxblock=3,maxn=2,depth=5)
w("worn",dict(base,pre=base["pre"]+[{"k":"worn","m":"o","s":2,"p":0,"n":65534,"v":[["a",1]]},{"k":"worn","m":"o","s":1,"p":-1,"n":65535,"v":[["a",1]]}]),kinds=["write","signed","page","drop","items"],schemas=[1,2],lists=[[A("a",1)],[D(0)],[]],blobs=[["a",1],["",0]],versions=[2],maxn=2,depth=4)
full=dict(keys=["o1","o2","o3","a1","p1","p2","q1","x1","x2"],msas={"o":"1","a":"256","p":"257","q":"18446744073709551615","r":"65536"},
 schemas=SCH+[{"id":256,"loc":"pages","append":False,"signed":False},{"id":257,"loc":"items","append":False,"signed":False},{"id":65534,"loc":"pages","append":False,"signed":False}],
 blob=1024,maxacts=5,ipage=10260,ppage=1024,maxpage=32,window=40,pre=[{"k":"key","key":"o1","m":"o"},{"k":"key","key":"a1","m":"a"},{"k":"key","key":"p1","m":"p"},{"k":"key","key":"q1","m":"q"}])
json.dump(full,open(d+"stateful_full.json","w"))
full2=dict(full,blob=12,maxacts=3,ipage=40,ppage=9,maxpage=600,window=7,schemas=[x for x in full["schemas"] if x["id"] in (1,2,3,256,65534)],msas={"o":"1","a":"256","p":"72057594037927936"},keys=["o1","a1","p1","o2"],pre=full["pre"][:3])
json.dump(full2,open(d+"stateful_full2.json","w"))
