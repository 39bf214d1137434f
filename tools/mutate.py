#!/usr/bin/env python3
"""mutate.py GROUP [--workers N] [--sample N] [--seed S] [--only FILE:LINE]: small mechanical changes to the code a group of
properties covers, each tried in scratch copies of /repo and /verif under /tmp/mut; which properties notice goes to
/root/mut/GROUP.jsonl. Not a check: a way to find what the checks miss."""
import json, os, random, re, shutil, subprocess, sys, time, queue, threading
SRC = os.environ.get("MUT_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = {
 "msa": (["pallets/msa/src/lib.rs", "pallets/msa/src/types.rs"], ["M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09"]),
 "handles": (["pallets/handles/src/lib.rs", "pallets/handles/src/handles_signed_extension.rs", "pallets/handles/src/handles-utils/src/suffix.rs", "pallets/handles/src/handles-utils/src/validator.rs", "pallets/handles/src/handles-utils/src/converter.rs"],
             ["H01", "H02", "H03", "H04", "H05", "H06"]),
 "capacity": (["pallets/capacity/src/lib.rs", "pallets/capacity/src/types.rs"], ["C01", "C02", "C03", "C04"]),
 "state": (["pallets/stateful-storage/src/lib.rs", "pallets/stateful-storage/src/types.rs", "pallets/stateful-storage/src/stateful_child_tree.rs"], ["T01", "T02", "T03", "T04", "T05"]),
 "schemas": (["pallets/schemas/src/lib.rs", "pallets/schemas/src/types.rs", "common/primitives/src/parquet/types.rs", "common/primitives/src/parquet/base.rs"], ["S01", "S02", "S03"]),
 "messages": (["pallets/messages/src/lib.rs", "pallets/messages/src/types.rs", "common/primitives/src/messages.rs"], ["G01", "G02", "G03"]),
 "release": (["pallets/time-release/src/lib.rs", "pallets/time-release/src/types.rs"], ["R01", "R02"]),
 "tx": (["pallets/frequency-tx-payment/src/lib.rs", "pallets/frequency-tx-payment/src/payment.rs", "runtime/common/src/extensions/check_nonce.rs", "pallets/passkey/src/lib.rs", "pallets/passkey/src/types.rs", "runtime/common/src/fee.rs"],
        ["P01", "P02", "P03", "N01", "K01"]),
 "runtime": (["runtime/frequency/src/lib.rs", "runtime/common/src/proxy.rs"], ["F01", "F02", "P01", "P02", "P03", "Q01", "Q02"]),
 "offchain": (["pallets/msa/src/offchain_storage.rs", "common/primitives/src/offchain.rs"], ["M10"]),
 "avro": (["common/helpers/src/avro.rs"], ["A01"]),
 "migrate": (["pallets/messages/src/migration/v2.rs", "pallets/schemas/src/migration/v4.rs", "pallets/time-release/src/migration/v2.rs"], ["X01"]),
 "rpc": (["pallets/msa/src/rpc/src/lib.rs", "pallets/handles/src/rpc/src/lib.rs", "pallets/schemas/src/rpc/src/lib.rs", "pallets/messages/src/rpc/src/lib.rs", "pallets/stateful-storage/src/rpc/src/lib.rs", "node/service/src/rpc/frequency_rpc.rs", "common/primitives/src/rpc.rs"], ["Q01", "U02"]),
 "wire": (["common/primitives/src/utils.rs", "common/primitives/src/msa.rs", "common/primitives/src/messages.rs", "common/primitives/src/handles.rs", "common/primitives/src/schema.rs", "common/primitives/src/stateful_storage.rs"], ["U01"]),
}
SWAPS = [(" <= ", " < "), (" >= ", " > "), (" < ", " <= "), (" > ", " >= "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"),
         (".is_ok()", ".is_err()"), ("true", "false"), ("false", "true"), (".is_empty()", ".is_empty() == false"), (".min(", ".max("), (".max(", ".min("), ("saturating_sub", "saturating_add"), ("saturating_add", "saturating_sub"),
         ("checked_sub", "checked_add"), ("checked_add", "checked_sub"), (" + 1", ""), (" - 1", ""), (" + ", " - "), (" - ", " + "), ("if !", "if "), ("::insert(", "::remove("), (".any(", ".all("), (".all(", ".any("), (".first()", ".last()"), (".last()", ".first()"),
         ("One::one()", "Zero::zero()"), ("Pays::No", "Pays::Yes"), ("unwrap_or_default()", "unwrap_or(1u8.into())"), (".get(0)", ".get(1)"), ("..=", ".."), (" % ", " / "), (" * ", " / ")]
def mutants(files):
    out = []
    for f in files:
        t = open(SRC + "/" + f).read()
        cut = len(t)
        m = re.search(r"#\[cfg\(test\)\]\s*mod \w+ \{", t)
        if m: cut = m.start()
        lines = t[:cut].split("\n")
        depth_skip = None; skip_attr = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(") and ("runtime-benchmarks" in s or "try-runtime" in s or "test" in s): skip_attr = True
            if skip_attr and depth_skip is None and s.endswith("{"): depth_skip = len(l) - len(l.lstrip())
            if depth_skip is not None:
                if s.startswith("}") and len(l) - len(l.lstrip()) <= depth_skip: depth_skip = None; skip_attr = False
                continue
            if skip_attr and s.endswith(";"): skip_attr = False; continue
            if not s or s.startswith(("//", "#", "use ", "pub use", "log::", "Self::deposit_event", "warn!", "type ", "pub type")) or "deposit_event" in s or "weight(" in s or "log::" in s: continue
            code = l.split("//")[0]
            for a, b in SWAPS:
                at = code.find(a)
                if at >= 0 and not (a in (" < ", " > ") and ("->" in code or "::<" in code)) and not (a in ("true", "false") and re.search(r"\w" + a + "|" + a + r"\w", code)):
                    out.append((f, n, n, l[:at] + b + l[at + len(a):], a + "→" + b))
            if s.startswith("ensure!("):
                k = n
                while not lines[k].rstrip().endswith(");"): k += 1
                out.append((f, n, k, "", "no ensure"))
            elif s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "pub ", "const ", "break", "continue")) and re.match(r"[\w:<>.*]+.*\(.*;$", s):
                out.append((f, n, n, "", "no statement"))
            elif s.endswith("(") and re.match(r"(Self|T|self|[A-Z]\w*)[\w:<>.]*\($", s):
                k = n
                ind = len(l) - len(l.lstrip())
                while k + 1 < len(lines) and not (len(lines[k]) - len(lines[k].lstrip()) == ind and k > n): k += 1
                if lines[k].rstrip().endswith(";") and re.match(r"\s*\)\??;", lines[k]):
                    out.append((f, n, k, "", "no statement"))
            elif re.match(r"if .*\{$", s):
                out.append((f, n, n, re.sub(r"if .*\{", "if true {", l, 1) if " let " not in l else l, "if true"))
                out.append((f, n, n, re.sub(r"if .*\{", "if false {", l, 1) if " let " not in l else l, "if false"))
            mm = re.search(r"(?<![\w.])(\d+)(?![\w.])", code)
            if mm and "const" not in code and "index" not in code:
                out.append((f, n, n, l[:mm.start()] + str(int(mm[1]) + 1) + l[mm.end():], "number+1"))
    return [m for m in out if open(SRC + "/" + m[0]).read().split("\n")[m[1]] != m[3]]
RUNNER = r'''
import sys, os, json, time, subprocess, shutil
sys.path.insert(0, sys.argv[1] + "/bin")
import vlib, props
pids = sys.argv[2].split(","); cache = sys.argv[3]; base = sys.argv[4] == "base"
hit = {}
class Fake:
    tier = "quick"; seed = 1; thorough = False; prop = None
    def __init__(s): s.calls = []
    def spec_check(s, *a, **k): pass
    def mc_replay(s, driver, module, cfg, rel, *a, **k): s.calls.append(("mc", driver, module, cfg, rel, a, k))
    def record_judge(s, driver, module, cfg, rel, hist, steps, **k): s.calls.append(("rec", driver, module, cfg, rel, (hist, steps), k))
    def evaluate(s, driver, module, cases, **k): s.calls.append(("ev", driver, module, cases, None, (), k))
    def bin(s, d): return os.path.join(vlib.HARN, "target/debug", d)
    def build(s, d): pass
    def path(s, *a): return os.path.join("/tmp/mut/fake", *a)
R = vlib.Run("M", "quick", 1, sys.argv[1] + "/work/m")
drivers = sorted({d for p in pids for d in props.PROPS[p]["drivers"]})
try: R.build(drivers)
except vlib.ToolError as e: print(json.dumps({"status": "nobuild", "why": str(e)[-300:]})); sys.exit()
calls = {}
for p in pids:
    f = vlib.Run(p, "quick", 1, R.work); g = Fake()
    for n in ("mc_replay", "record_judge", "evaluate", "spec_check"): setattr(f, n, getattr(g, n))
    for part in props.PROPS[p]["parts"]: part(f)
    for n, c in enumerate(g.calls):
        key = (c[0], c[1], c[2], c[3] if c[0] != "ev" else p + str(n))
        if key in calls: calls[key][1].append((p, c[4])); calls[key][2] = max(calls[key][2], c[5])
        else: calls[key] = [c, [(p, c[4])], c[5]]
cur = [None]
def violation(m):
    for p, _ in cur[0]: hit.setdefault(p, str(m.get("verdict") or m.get("kind"))[:80])
def consider(m, rel):
    any_ = False
    for p, r in cur[0]:
        if vlib.relevant(m, r, p): hit.setdefault(p, json.dumps({"a": m.get("act"), "d": m.get("diff"), "b": m.get("broken"), "src": m.get("source")})[:300]); any_ = True
    if not any_: hit.setdefault("none", json.dumps({"a": m.get("act"), "d": m.get("diff")})[:300])
R.violation = violation; R.consider = consider
orig = R.tlc
def tlc(module, cfg, out, timeout, workers=1, **ev):
    if os.path.basename(out).startswith("edges-"):
        c = os.path.join(cache, os.path.basename(out))
        if os.path.exists(c):
            os.link(c, out) if not os.path.exists(out) else None
            return 0
        rc = orig(module, cfg, out, timeout, workers, **ev); tmp = c + str(os.getpid()); shutil.copy(out, tmp); os.rename(tmp, c); return rc
    return orig(module, cfg, out, timeout, workers, **ev)
R.tlc = tlc
for key, (c, who, a5) in calls.items():
    if not base and all(p in hit for p, _ in who): continue
    cur[0] = who
    try:
        if c[0] == "mc": R.mc_replay(c[1], c[2], c[3], None, 300)
        elif c[0] == "rec": R.record_judge(c[1], c[2], c[3], None, *a5, **dict(c[6], timeout=300))
        else: R.evaluate(c[1], c[2], c[3], **dict(c[6], timeout=300))
    except vlib.ToolError as e: hit.setdefault("tool", str(e)[-300:])
    except Exception as e: hit.setdefault("tool", repr(e)[-300:])
print(json.dumps({"status": "killed" if [k for k in hit if k[0] != "t" and k != "none"] else "survived", "hit": hit}))
'''
def setup(w):
    d = f"/tmp/mut/w{w}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", ".git", SRC + "/", d + "/repo/"], check=True) if shutil.which("rsync") else subprocess.run(f"rm -rf {d}/repo; mkdir -p {d}/repo; cd /repo && tar cf - --exclude=./target --exclude=.git . | tar xf - -C {d}/repo", shell=True, check=True)
    subprocess.run(f"find {d}/repo -name '*.rs' | xargs touch", shell=True)
    os.makedirs(d + "/verif", exist_ok=True)
    subprocess.run(f"for x in bin spec harness known_findings.json properties.jsonl; do rm -rf {d}/verif/$x.new; done; cd {ROOT} && tar cf - --exclude=harness/target bin spec harness known_findings.json properties.jsonl | tar xf - -C {d}/verif; grep -rlI /repo {d}/verif/harness {d}/verif/bin --include=*.rs --include=*.toml --include=*.py --exclude-dir=target | xargs sed -i 's#/repo\\b#{d}/repo#g'", shell=True, check=True)
    if not os.path.isdir(d + "/verif/harness/target"):
        pass
    open(d + "/runner.py", "w").write(RUNNER)
    return d
def main():
    g = sys.argv[1]; opt = lambda n, dflt: type(dflt)(sys.argv[sys.argv.index("--" + n) + 1]) if "--" + n in sys.argv else dflt
    files, pids = G[g]
    ms = mutants(files)
    if "--list" in sys.argv:
        for m in ms: print(m[0], m[1] + 1, m[4], "|", m[3].strip())
        print(len(ms)); return
    random.Random(opt("seed", 1)).shuffle(ms)
    ms = ms[: opt("sample", 60)]
    os.makedirs("/root/mut", exist_ok=True); os.makedirs("/tmp/mut/cache", exist_ok=True)
    log = f"/root/mut/{g}.jsonl"
    done = {json.dumps(json.loads(l)["m"]) for l in open(log)} if os.path.exists(log) else set()
    q = queue.Queue()
    for m in ms:
        if json.dumps(list(m)) not in done: q.put(m)
    lock = threading.Lock()
    def run(d, timeout=900):
        e = dict(os.environ, CARGO_BUILD_JOBS="3")
        try: r = subprocess.run([sys.executable, d + "/runner.py", d + "/verif", ",".join(pids), "/tmp/mut/cache", "x"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, env=e, cwd=d + "/verif")
        except subprocess.TimeoutExpired: return {"status": "timeout"}
        try: return json.loads(r.stdout.strip().split("\n")[-1])
        except Exception: return {"status": "broken", "out": r.stdout[-300:]}
    def worker(w):
        d = setup(w)
        if w == 0 or True:
            b = run(d, 1800)
            with lock: print("base", w, b, flush=True)
            if b["status"] != "survived" or b["hit"]: return
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = f"{d}/repo/{m[0]}"; t = open(p).read(); ls = t.split("\n"); old = "\n".join(ls[m[1]:m[2] + 1])
            ls[m[1]:m[2] + 1] = [m[3]]
            t0 = time.time(); open(p, "w").write("\n".join(ls))
            r = run(d); open(p, "w").write(t)
            with lock:
                open(log, "a").write(json.dumps(dict(r, m=list(m), old=old.strip(), s=round(time.time() - t0))) + "\n")
    n = opt("workers", 3)
    ts = []
    for w in range(n):
        t = threading.Thread(target=worker, args=(opt("base", 0) + w,)); t.start(); ts.append(t)
        if w == 0: time.sleep(1)
    for t in ts: t.join()
main()
