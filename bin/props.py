"""The property table: which specification parts and bindings decide each property."""
import random
import gen_handles as gh

ASSUME = ["the pallets' sources are compiled verbatim from /repo against a small re-implementation of the FRAME interfaces they use "
          "(/verif/harness/shims), because polkadot-sdk is not available offline",
          "signature schemes are ideal: a signature verifies only for the signer and bytes it was made for"]
PROPS = {}
def prop(pid, drivers, *parts, **kw):
    PROPS[pid] = dict(drivers=list(drivers), parts=list(parts), **kw)

def rng(R, salt):
    return random.Random(f"{R.seed}/{salt}/{R.prop}")
def mc(driver, module, cfg, rel, thorough=None, timeout=800):
    """exhaustive edges of a small configuration; a larger one when thorough"""
    def f(R):
        R.mc_replay(driver, module, cfg, rel, timeout)
        if R.thorough and thorough:
            for c in (thorough if isinstance(thorough, list) else [thorough]):
                R.mc_replay(driver, module, c, rel, 7200)
    return f
def trace(driver, module, cfg, rel, hist, steps, thorough=8):
    def f(R):
        R.record_judge(driver, module, cfg, rel, hist, steps)
        if R.thorough:
            for k in range(1, thorough):
                R.record_judge(driver, module, cfg, rel, hist * 2, steps, seed=R.seed * 1000 + k, timeout=3600)
    return f
def ev(driver, module, cases, args=("eval",), **kw):
    def f(R):
        R.evaluate(driver, module, cases(R), args=args, timeout=3600 if R.thorough else 800, **kw)
    return f
def spec(module, cfg=None, **kw):
    return lambda R: R.spec_check(module, cfg or module + ".cfg", **kw)

# ---------------------------------------------------------------- handles
def h01_cases(R):
    g = rng(R, "h01")
    n = 8 if R.thorough else 1
    return gh.chars_all() + gh.case_all() + gh.conf_all() + gh.strings(g, 15000 * n) + gh.variants(g, 20000 * n)
def h02_cases(R):
    g = rng(R, "h02")
    n = 8 if R.thorough else 1
    return gh.suffixes(g, 500 * n, 12 * n)
def h05_cases(R):
    g = rng(R, "h05")
    n = 10 if R.thorough else 1
    return gh.valids(g, 15000 * n) + gh.valid_chars(1 if R.thorough else 31, R.seed % 31)
def h05_offers(R):
    return gh.offers(rng(R, "h05o"), 100000 if R.thorough else 12000)
def h03_splits(R):
    return gh.splits(rng(R, "split"), 40000 if R.thorough else 5000)

D, MC, TR = "d-handles", "HandlesMC", "HandlesTrace"
prop("H01", ["d-hdata"], ev("d-hdata", "HandleEval", h01_cases), level="exploration")
prop("H02", ["d-hdata"], spec("SuffixFY"), ev("d-hdata", "HandleEval", h02_cases))
REL = [({"claim", "change", "retire", "retiretx"}, ["disp", "own", "extra_entries", "res"]), (None, ["own", "disp", "extra_entries"])]
prop("H03", [D, "d-hdata"], mc(D, MC, "handles_small", REL, "handles_big"), trace(D, TR, "handles_full", REL, 60, 100),
     ev("d-hdata", "HandleEval", h03_splits))
REL = [({"claim", "change", "preview"}, ["res", "idx", "cnt", "own"]), (None, ["idx", "cnt"])]
prop("H04", [D], mc(D, MC, "handles_small", REL, "handles_big"), trace(D, TR, "handles_full", REL, 60, 100))
REL = [({"claim", "change", "validate"}, ["res"])]
prop("H05", ["d-hdata", D], ev("d-hdata", "HandleEval", h05_cases), ev(D, "HandleEval", h05_offers),
     trace(D, TR, "handles_full", REL, 30, 100), level="exploration")
REL = [({"claim", "change", "retire", "retiretx"}, None)]
prop("H06", [D], spec("HandlesReplay", CFG="cfg/handles_replay.json"), mc(D, MC, "handles_small", REL, "handles_big"), trace(D, TR, "handles_full", REL, 60, 100))
NA = {}
# ---------------------------------------------------------------- avro
import gen_avro as ga
def a01_cases(R):
    g = rng(R, "avro")
    n = 12 if R.thorough else 1
    return ga.sers(g, 4000 * n) + ga.decs(g, 1500 * n) + ga.parses(g, 3000 * n)
prop("A01", ["d-avro"], ev("d-avro", "AvroEval", a01_cases), level="exploration")

# ---------------------------------------------------------------- capacity
D, MC, TR = "d-capacity", "CapacityMC", "CapacityTrace"
def cap(pid, rel, hist=50):
    prop(pid, [D], mc(D, MC, "capacity_small", rel, "capacity_big"), mc(D, MC, "capacity_deep", rel), trace(D, TR, "capacity_full", rel, hist, 100))
cap("C01", [({"stake", "unstake", "withdraw"}, ["active", "tgt", "frz", "free", "res"]), (None, ["active", "frz", "free"])])
cap("C02", [({"stake", "unstake"}, ["tgt", "cap", "res"]), (None, ["tgt", "cap.1.tok", "cap.1.iss", "cap.2.tok", "cap.2.iss", "cap.3", "cap.4"])])
cap("C03", [({"unstake", "withdraw"}, ["unl", "res", "frz"]), (None, ["unl"])])
cap("C04", [({"spend", "can", "replby", "elen", "block"}, None), (None, ["epoch", "estart", "elen", "cap"])])

# ---------------------------------------------------------------- message source accounts
D, MC, TR = "d-msa", "MsaMC", "MsaTrace"
FREE = {"del", "retire", "revd", "revp"}
SIGNED = {"sponsor", "grant", "addkey"}
def msa(pid, rel, cfgs, big=(), hist=40):
    parts = []
    for c in cfgs:
        parts.append(mc(D, MC, "msa_" + c, rel, ["msa_" + b for b in big if b.startswith(c)]))
    prop(pid, [D], *parts, trace(D, TR, "msa_full", rel, hist, 100), trace(D, TR, "msa_full2", rel, 12, 150, thorough=3))
msa("M01", [({"create", "sponsor", "addkey", "del", "retire"}, ["key", "cnt", "extra", "res"]), (None, ["key", "cnt", "extra"])], ["keys", "prov", "retire"], ["keys_big"])
msa("M02", [({"create", "sponsor"}, ["key", "max", "cnt", "res"]), (None, ["max"])], ["keys", "prov"], ["keys_big"])
msa("M03", [(SIGNED, ["reg", "used_set", "res"]), (None, ["reg", "used_set"])], ["sigs"], ["sigs_big"])
msa("M04", [(SIGNED, None)], ["deleg", "prov", "keys"], ["deleg_big"])
msa("M05", [({"sponsor", "grant", "revd", "revp", "ask"}, ["del_set", "res"]), (None, ["del_set"])], ["deleg", "retire"], ["deleg_big"])
msa("M06", [({"sponsor", "grant", "revs", "ask"}, ["del_set", "res"]), (None, ["del_set"])], ["deleg", "prov"], ["deleg_big"])
msa("M07", [({"sponsor", "grant", "provider", "propose", "govern"}, ["prov", "del_set", "extra", "res"]), (None, ["prov"])], ["prov", "retire"])
msa("M08", [({"retire"}, None), ({"addkey", "create", "hclaim", "hretire", "sponsor"}, ["res"])], ["retire"], ["retire_big"])
msa("M09", [(FREE, None)], ["retire", "keys"], ["retire_big"])

# ---------------------------------------------------------------- stateful storage
def state(pid, rel, cfgs, big=(), hist=40, steps=150):
    parts = [mc("d-state", "StatefulMC", "stateful_" + c, rel) for c in cfgs]
    parts.append(trace("d-state", "StatefulTrace", "stateful_full", rel, hist, steps))
    parts.append(trace("d-state", "StatefulTrace", "stateful_full2", rel, 20, steps, thorough=3))
    parts += [(lambda c: (lambda R: R.mc_replay("d-state", "StatefulMC", "stateful_" + c, rel, 7200) if R.thorough else None))(c) for c in big]
    prop(pid, ["d-state"], *parts)
WR = {"write", "signed"}
state("T01", [(WR, ["page_set", "res"]), (None, ["clash"])], ["items", "pages", "worn"], ["items_big", "signed_big"])
state("T02", [(WR, ["page_set", "res", "reads"])], ["items"], ["items_big"])
state("T03", [(WR, ["page_set", "res"])], ["auth", "mix"], ["auth_big"])
state("T04", [(None, ["page_set", "reads"])], ["mix", "pages", "far"], ["items_big"])
state("T05", [({"signed"}, None)], ["signed"], ["signed_big"])

# ---------------------------------------------------------------- schemas
import gen_schemas as gs
def s02_cases(R):
    return gs.models(rng(R, "models"), 120000 if R.thorough else 12000)
def s03_cases(R):
    return gs.name_bytes() + gs.names(rng(R, "names"), 60000 if R.thorough else 6000)
D, MC, TR = "d-schema", "SchemasMC", "SchemasTrace"
def schemas(pid, rel, cfgs, big, *more):
    prop(pid, [D], *[mc(D, MC, "schemas_" + c, rel, ["schemas_" + b for b in big if b.startswith(c)]) for c in cfgs],
         trace(D, TR, "schemas_full", rel, 40, 120), *more)
MAKE = {"create", "govern", "enact", "bulk", "propose"}
schemas("S01", [(MAKE, ["max", "sch", "res", "reads"]), ({"valid"}, None), (None, ["max", "sch", "reads"])], ["names", "last", "defs"], ["names_big"])
schemas("S02", [(MAKE | {"limit"}, ["max", "sch", "limit", "res", "pend"]), (None, ["limit"])], ["defs", "pend"], ["pend_big"], ev(D, "SchemaEval", s02_cases))
schemas("S03", [(MAKE | {"name", "propname", "ask"}, ["name_set", "res", "pend"]), (None, ["name_set"])], ["names", "pend", "vers"], ["names_big"], ev(D, "SchemaEval", s03_cases))

# ---------------------------------------------------------------- messages
import gen_cids as gc
D, MC, TR = "d-msg", "MessagesMC", "MessagesTrace"
def messages(pid, rel, cfgs, big, *more):
    prop(pid, [D], *[mc(D, MC, "messages_" + c, rel, ["messages_" + b for b in big if b.startswith(c)]) for c in cfgs],
         trace(D, TR, "messages_full", rel, 40, 120), *more)
SEND = {"onchain", "ipfs"}
messages("G01", [(SEND | {"block"}, ["msg_set", "idx", "res", "reads"]), (None, ["msg_set", "reads", "idx"])], ["mix", "full_block", "byte"], [])
messages("G02", [({"page", "walk"}, None)], ["pages", "edge"], ["pages_big"])
messages("G03", [(SEND, None)], ["auth", "mix", "revoke"], ["auth_big"], ev(D, "CidEval", lambda R: gc.cids(rng(R, "cids"), 40000 if R.thorough else 4000)))

# ---------------------------------------------------------------- time release
import gen_release as gr
D, MC, TR = "d-release", "TimeReleaseMC", "TimeReleaseTrace"
def r_cases(R):
    g = rng(R, "sched")
    n = 12 if R.thorough else 1
    return gr.scheds(g, 10000 * n) + gr.genesis(g, 1000 * n)
def release(pid, rel, *more):
    prop(pid, [D], mc(D, MC, "release_clock", rel, "release_clock_big"), mc(D, MC, "release_gov", rel, "release_gov_big"), trace(D, TR, "release_full", rel, 60, 150), *more)
release("R01", [({"claim", "claimfor", "tick"}, None), (None, ["frz", "sch"])], ev(D, "SchedEval", r_cases))
release("R02", [({"transfer", "update", "claim", "claimfor"}, None), (None, ["frz", "sch", "free"])])

# ---------------------------------------------------------------- the runtime: payment, filters, nonces, passkeys
import gen_filters as gf, gen_fees as ge
D, MC, TR = "d-runtime", "TxMC", "TxTrace"
def f01_cases(R):
    return gf.filters(R, rng(R, "filters"), 6000 if R.thorough else 600) + gf.fees_paid(R)
def p01_cases(R):
    return [dict(c, net="testnet") for c in ge.charges(rng(R, "charges"), 60000 if R.thorough else 6000)]
def p02_cases(R):
    return p01_cases(R) + ge.eligible(R)
def runtime(pid, rel, cfgs, *more):
    prop(pid, [D], *[mc(D, MC, "tx_" + c, rel) for c in cfgs], trace(D, TR, "tx_full", rel, 40, 120), *more)
CAPPAY = {"pay", "paybatch"}
ELIG = {"msg", "bad"}
def outs(m):
    """what the spec and the code answered; has the transaction the right nonce; is its call paid with capacity"""
    a, f = m.get("act") or {}, m.get("pre") or {}
    s, c = ((m.get(x) or {}).get("r") or {} for x in ("spec", "code"))
    now = f.get("acc", {}).get(a.get("who"), {}).get("n", 0)
    return a, s, c, a.get("nonce", 0) == now or (a.get("k") == "check" and a.get("nonce", 0) > now), a.get("call", {})
def touched(m, *fields):
    return any(d == f or d.startswith(f + ".") or d in ("projection_panic", "evaluation") for d in m["diff"] for f in fields)
def cls(r):
    return {"ok": "in", "fail": "in"}.get(r.get("r"), r.get("r"))
def crashed(m):
    return m.get("kind") == "crash"
def p01_rel(m):
    a, s, c, cur, call = outs(m)
    if a.get("k") not in ("tx", "check") or crashed(m):
        return crashed(m) or touched(m, "cap")
    return touched(m, "cap") or call["c"] in CAPPAY and cur and (touched(m, "tok") or cls(s) != cls(c) and all(x["c"] in ELIG for x in call["in"]))
def p02_rel(m):
    a, s, c, cur, call = outs(m)
    if a.get("k") not in ("tx", "check") or crashed(m):
        return crashed(m)
    if call["c"] not in CAPPAY or not cur:
        return False
    return touched(m, "cap", "msgs") or s.get("r") != c.get("r")
def n01_rel(m):
    a, s, c, cur, call = outs(m)
    if a.get("k") not in ("tx", "check") or crashed(m):
        return crashed(m) or (a.get("k") == "block" and touched(m, "acc"))
    if touched(m, "acc"):
        return True
    if s == c:
        return False
    return a["nonce"] != m["pre"]["acc"][a["who"]]["n"] or c.get("e") in ("stale", "future") or s.get("wait") != c.get("wait")
runtime("P01", p01_rel, ["cap", "nonce"], ev(D, "FeesEval", p01_cases))
runtime("P02", p02_rel, ["batch", "wide", "cap"], ev(D, "FeesEval", p02_cases))
prop("P03", [D], ev(D, "FeesEval", lambda R: ge.quotes(rng(R, "quotes"), 20000 if R.thorough else 3000)))
runtime("N01", n01_rel, ["nonce", "wake"])
runtime("K01", [({"pk", "pkcheck"}, None)], ["pass", "wake"])
prop("F01", [D], ev(D, "FiltersEval", f01_cases))
prop("F02", [D], ev(D, "FiltersEval", lambda R: gf.authority(R)))

# ---------------------------------------------------------------- the node-local index of keys
D, MC, TR = "d-offchain", "OffchainMC", "OffchainTrace"
REL = [(None, ["idx", "last", "initd", "crash"])]
prop("M10", [D], spec(MC, "OffchainDie.cfg", CFG="cfg/offchain_die.json"), mc(D, MC, "offchain_small", REL, "offchain_big"),
     trace(D, TR, "offchain_full", REL, 60, 120), trace(D, TR, "offchain_crash", REL, 150, 60))

# ---------------------------------------------------------------- storage migrations
import gen_migrate as gm
prop("X01", ["d-migrate"], ev("d-migrate", "MigrateEval", lambda R: gm.cases(rng(R, "migrate"), 8000 if R.thorough else 800)))

# ---------------------------------------------------------------- what goes over the wire
import gen_wire as gw
prop("U01", ["d-wire"], ev("d-wire", "WireEval", lambda R: gw.cases(rng(R, "wire"), 3000 if R.thorough else 250)), level="exploration")

# ---------------------------------------------------------------- the node's answers, and the whole chain hanging together
def asked(*kinds):
    """a wrong answer to one of these questions"""
    return lambda m: m["kind"] == "crash" or "evaluation" in m["diff"] or "Q01" in m.get("broken", ()) and (not kinds or m["act"].get("k") in kinds)
def query(rel, hist, steps):
    return [trace("d-query", "QueryTrace", c, rel, hist, steps) for c in ("query_full", "query_pre")]
prop("Q01", ["d-query"], *query(asked(), 60, 80))
prop("Q02", ["d-query"], *query(lambda m: m["kind"] == "crash" or "evaluation" in m["diff"], 60, 80))
for pid, kinds in (("M05", ("q_deleg", "q_all")), ("M06", ("q_deleg", "q_grants", "q_all")), ("M10", ("q_keys",)), ("H03", ("q_handle", "q_msa")), ("H04", ("q_next",)), ("H05", ("q_valid",)),
                   ("S01", ("q_schema",)), ("S03", ("q_vers",)), ("S02", ("q_check",)), ("T04", ("q_items", "q_pages")), ("G01", ("q_msgs",)), ("G02", ("q_msgs",))):
    PROPS[pid]["drivers"].append("d-query")
    PROPS[pid]["parts"] += query(asked(*kinds), 30, 80)

# ---------------------------------------------------------------- the pool of held-back transactions, and block events
D, MC, TR = "d-node", "PoolMC", "PoolTrace"
prop("U02", [D], mc(D, MC, "pool_small", [(None, None)]), mc(D, MC, "pool_one", [(None, None)]), trace(D, TR, "pool_full", [(None, None)], 60, 60))
