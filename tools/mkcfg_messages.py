import json
d="/verif/spec/cfg/messages_"
c=lambda s: list(s.encode())
DUMMY="bafkreidgvpkjawlxz6sffxzwgooowe5yt7i6wsyg236mfoks77nywkptdq"
B58="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b):
    n=int.from_bytes(b,"big"); s=""
    while n: n,r=divmod(n,58); s=B58[r]+s
    return "1"*(len(b)-len(b.lstrip(b"\0")))+s
h=bytes(range(32))
v1=bytes([1,0x55,0x12,0x20])+h
import base64
b32=lambda b:"b"+base64.b32encode(b).decode().lower().rstrip("=")
cids={"ok_b32":DUMMY,"ok_b58":"z"+b58(v1),"ok_hex":"f"+v1.hex(),"ok_empty_hash":b32(bytes([1,0x55,0,0])),"old":"Qm"+b58(bytes([0x12,0x20])+h)[2:],"old_in_hex":"f1220"+h.hex(),"short":"ba","nothing":"","bad_char":DUMMY[:-1]+"1","cut":DUMMY[:-8],"version2":b32(bytes([2,0x55,0,0])),"ok_long":b32(bytes([1,0x55,0x13,64])+bytes(64))}
SCH=[{"id":1,"loc":"chain"},{"id":2,"loc":"ipfs"},{"id":3,"loc":"chain"},{"id":4,"loc":"items"},{"id":5,"loc":"pages"}]
base=dict(keys=["o1","p1","x1"],msas={"o":"7","p":"257","q":"18446744073709551615"},schemas=SCH,cids={k:c(v) for k,v in cids.items()},maxpayload=45,pre=[{"k":"key","key":"o1","m":"o"},{"k":"key","key":"p1","m":"p"}])
def mc(**k):
    b=dict(kinds=[],callers=["o1"],authors=[""],owners=["o"],schemas=[1],contents=[["a",1]],cids=["ok_b32"],lens=[5],delegates=["p"],grants=[[1]],loose=["x1"],froms=[1],ats=[0],tos=[2],sizes=[1],maxmsg=1,maxblock=1,depth=0)
    b.update(k); return b
def w(n,b,**m): json.dump(dict(b,mc=mc(**m)),open(d+n+".json","w"))
# every distribution of a few messages over blocks, every page of every range
w("pages",base,kinds=["onchain","page","walk"],schemas=[1,3],maxmsg=4,maxblock=3,froms=[0,1,2,3],tos=[1,2,3,4,5],sizes=[1,2,3,4],ats=[0,1])
w("pages_big",base,kinds=["onchain","page","walk"],maxmsg=6,maxblock=4,froms=[0,1,2,3,4],tos=[1,2,3,4,5,6],sizes=[1,2,3,4,5],ats=[0,1,2])
w("edge",dict(base,pre=base["pre"]+[{"k":"onchain","by":"o1","of":"","s":1,"c":["a",1]},{"k":"ipfs","by":"o1","s":2,"cid":"ok_b32","len":9}]),kinds=["page","walk"],schemas=[1,2,4,5,9],maxblock=2,froms=[0,1,2,50000,2147480000],tos=[0,1,2,50000,50001,50002,100000,2147480000],sizes=[1,10000,10001],ats=[0,1])
w("mix",base,kinds=["onchain","ipfs"],callers=["o1","p1"],schemas=[1,2,3],contents=[["a",1],["b",1]],cids=["ok_b32","ok_hex"],maxmsg=3,maxblock=2)
w("auth",base,kinds=["onchain","ipfs","allow","deny","cut","key"],callers=["o1","p1","x1"],authors=["","o","p","q"],owners=["o","q"],schemas=[1,2,4,9],contents=[["a",45],["a",46]],cids=list(cids),grants=[[1,3],[2]],maxmsg=1,maxblock=2,depth=4)
w("auth_big",base,kinds=["onchain","ipfs","allow","deny","cut","key"],callers=["o1","p1","x1"],authors=["","o","p","q"],owners=["o","q"],schemas=[1,2,4,9],contents=[["a",45],["a",46]],cids=["ok_b32","old_in_hex"],grants=[[1,3],[2]],maxmsg=2,maxblock=3,depth=5)
w("full_block",dict(base,pre=base["pre"]+[{"k":"onchain","by":"o1","of":"","s":1,"c":["z",1]},{"k":"full","n":65533}]),kinds=["onchain","ipfs"],schemas=[1,2],contents=[["a",1],["b",1]],maxmsg=9,maxblock=2,depth=6)
full=dict(base,keys=["o1","o2","p1","p2","x1"],msas={"o":"1","p":"256","q":"18446744073709551615","r":"65536"},maxpayload=3072,
  schemas=SCH+[{"id":256,"loc":"chain"},{"id":257,"loc":"ipfs"},{"id":65534,"loc":"chain"}],pre=base["pre"])
json.dump(full,open(d+"full.json","w"))
