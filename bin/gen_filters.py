"""Calls and authority questions for the runtime's filters, on both networks."""
import json, subprocess
NETS = ["mainnet", "testnet"]
TYPES = ["Any", "NonTransfer", "Governance", "Staking", "CancelProxy"]
BATCH = ["batch", "batch_all", "force_batch"]
OURS = ["Msa", "Messages", "Schemas", "StatefulStorage", "Capacity", "FrequencyTxPayment", "Handles", "TimeRelease", "Passkey"]
POWERS = ["scheduler", "preimage", "council.members", "committee.members", "democracy.external_default", "democracy.external_majority",
          "democracy.external", "democracy.submit", "democracy.fast_track", "democracy.instant", "democracy.cancellation",
          "democracy.cancel_proposal", "democracy.blacklist", "democracy.veto", "treasury.approve", "treasury.reject", "treasury.spend", "collators"]
CONT = ["Utility.batch", "Utility.batch_all", "Utility.force_batch", "Utility.as_derivative", "Utility.dispatch_as", "Utility.with_weight",
        "FrequencyTxPayment.pay_with_capacity", "FrequencyTxPayment.pay_with_capacity_batch_all", "Proxy.proxy", "Passkey.proxy",
        "Sudo.sudo", "Sudo.sudo_unchecked_weight", "Sudo.sudo_as", "Proxy.proxy_announced"]
def names(R, net):
    p = subprocess.run([R.bin("d-runtime"), "eval"], input=json.dumps({"net": net, "op": "names"}) + "\n", text=True, capture_output=True, timeout=120)
    return json.loads(p.stdout)["out"]
def leaf(s, ty=""):
    p, n = s.split(".")
    return {"p": p, "n": n, "in": [], "ty": ty}
def wrap(s, inner, ty=""):
    c = leaf(s, ty)
    c["in"] = inner
    return c
def leaves(all_names):
    out = []
    for s in all_names:
        if s in CONT:
            continue
        if s in ("Proxy.add_proxy", "Proxy.remove_proxy"):
            out += [leaf(s, t) for t in TYPES]
        else:
            out.append(leaf(s))
    return out
def wrappers():
    w = [("Utility." + b, "") for b in BATCH] + [("Utility.as_derivative", "")]
    w += [("FrequencyTxPayment.pay_with_capacity", ""), ("FrequencyTxPayment.pay_with_capacity_batch_all", "")]
    return w + [("Proxy.proxy", t) for t in TYPES]
def filters(R, g, n):
    """base, proxy, passkey, superset and what a filter stops on the way through wrappers"""
    out = []
    for net in NETS:
        ns = names(R, net)
        ls = leaves(ns)
        rem = leaf("System.remark")
        full = ls + [wrap(w, [rem], t) for w, t in wrappers()]
        add = lambda op, **k: out.append(dict(net=net, op=op, **k))
        for c in full:
            add("base", call=c)
            add("passkey", call=c)
            for t in TYPES:
                add("proxy", ty=t, call=c)
            for b in BATCH:
                for inner in ([c], [rem, c], [c, rem], [rem, rem, c, rem]):
                    add("base", call=wrap("Utility." + b, inner))
        for b in BATCH:
            add("base", call=wrap("Utility." + b, []))
        for _ in range(n):
            k = g.randint(2, 6)
            add("base", call=wrap("Utility." + g.choice(BATCH), [g.choice(full) if g.random() < .25 else g.choice(ls) for _ in range(k)]))
        for a in TYPES:
            for b in TYPES:
                add("superset", ty=a, of=b)
        # one inner call, one or two wrappers
        for c in ls:
            add("via", call=c)
            for w, t in wrappers():
                add("via", call=wrap(w, [c], t))
        key = [c for c in ls if c["p"] in OURS + ["Balances", "Proxy", "System", "Democracy"]]
        for w, t in wrappers():
            for v, u in wrappers():
                for c in (g.sample(key, min(len(key), max(12, n // 60))) + [leaf("Balances.transfer_keep_alive"), leaf("Msa.create_provider"), leaf("Msa.retire_msa"), leaf("Proxy.add_proxy", "Any")]):
                    add("via", call=wrap(w, [wrap(v, [c], u)], t))
    return out
def fees_paid(R):
    """which calls of the chain's own pallets are free"""
    return [dict(net=net, op="free", call=c) for net in NETS for c in leaves(names(R, net)) if c["p"] in OURS]
def origins():
    o = [dict(o=x, i=0, n=0, m=0) for x in ("root", "none", "signed")]
    o += [dict(o="member", i=i, n=0, m=0) for i in (1, 2)]
    for i in (1, 2):
        for m in range(1, 14):
            o += [dict(o="members", i=i, n=n, m=m) for n in range(0, m + 1)]
    return o
def authority(R):
    out = []
    for net in NETS:
        ours = [s for s in names(R, net) if s.split(".")[0] in OURS and s not in CONT]
        ours += ["Passkey.proxy"] if "Passkey.proxy" in names(R, net) else []
        for w in POWERS:
            out += [dict(net=net, op="auth", what=w, by=by) for by in origins()]
        for w in ours:
            via = "governance" in w
            out += [dict(net=net, op="auth", what=w, by=by) for by in origins() if via or by["o"] != "members" or by["n"] == by["m"] or by["m"] == 3]
    return out
