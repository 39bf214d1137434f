"""Check runner: specification -> code edge replay, code -> specification trace judging, pure
function evaluation, fixed scenarios; attribution of disagreements to properties; evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
CORES = os.cpu_count() or 4

class ToolError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def env(**kw):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "HDTAB": os.path.join(SPEC, "data/handle_chars.json"),
              "SPECDATA": os.path.join(SPEC, "data")})
    e.update({k: str(v) for k, v in kw.items()})
    return e

class Run:
    """One run of one property's check."""
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "edges_replayed": 0, "recorded_steps": 0, "evaluations": 0, "spec_states_reached_in_code": 0}
        self.parts = []
        self.viol = []          # dicts
        self.kf = {}            # id -> text
        self.t0 = time.time()
        os.makedirs(work, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ------------------------------------------------------------------ build
    def build(self, drivers):
        pk = []
        for d in drivers:
            pk += ["-p", d]
        r = subprocess.run(["cargo", "build", "--offline", "-q"] + pk, cwd=HARN, env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stdout[-6000:])

    def bin(self, d):
        return os.path.join(HARN, "target/debug", d)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, out, timeout, workers=1, extra=(), heap="8g", **ev):
        md = self.path("meta-" + os.path.basename(out))
        tmp = self.path("tmp-" + os.path.basename(out))
        os.makedirs(tmp, exist_ok=True)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=env(**ev), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        shutil.rmtree(md, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        return rc

    @staticmethod
    def tlc_tail(out, n=40):
        with open(out) as f:
            ls = [l for l in f if not l.startswith('"{')]
        return "".join(ls[-n:])

    @staticmethod
    def tlc_stats(out):
        gen = dist = 0
        with open(out) as f:
            for l in f:
                if l.startswith('"'):
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
                if m:
                    gen, dist = int(m[1]), int(m[2])
        return gen, dist

    # ------------------------------------------------------------------ parts
    def spec_check(self, module, cfg, timeout=600, workers=CORES, **ev):
        """A pure model-checking obligation of the specification itself."""
        out = self.path(f"mc-{module}-{os.path.basename(cfg)}.txt")
        if "CFG" in ev:
            ev["CFG"] = os.path.join(SPEC, ev["CFG"])
        rc = self.tlc(module, cfg, out, timeout, workers, **ev)
        gen, dist = self.tlc_stats(out)
        if rc != 0:
            raise ToolError(f"TLC on {module}/{cfg} ended with {rc}:\n" + self.tlc_tail(out))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.parts.append({"part": "specification", "module": module, "config": cfg, "states": dist, "generated": gen})

    def mc_replay(self, driver, module, cfg, rel, timeout=800, mccfg=None, ignore=None):
        """Exhaustive exploration of the specification; every edge is replayed in the code."""
        cfgp = os.path.join(SPEC, "cfg", cfg + ".json")
        out = self.path(f"edges-{cfg}.txt")
        t = time.time()
        rc = self.tlc(module, mccfg or module + ".cfg", out, timeout, 1, CFG=cfgp)
        gen, dist = self.tlc_stats(out)
        if rc != 0:
            raise ToolError(f"TLC on {module} with {cfg} ended with {rc}:\n" + self.tlc_tail(out))
        t1 = time.time()
        rep = self.path(f"replay-{cfg}.json")
        self.drive([self.bin(driver), "replay", "--edges", out, "--cfg", open(cfgp).read(), "--out", rep, "--max", "400"],
                   timeout, driver, cfgp, rel)
        if os.path.exists(rep):
            R = json.load(open(rep))
            if R["edges"] == 0 and not R["mismatches"]:
                raise ToolError("no edge replayed")
            self.cov["states"] += dist
            self.cov["transitions"] += R["edges"]
            self.cov["edges_replayed"] += R["edges"]
            self.cov["spec_states_reached_in_code"] += R["states"]
            self.cov["traces_validated_against_impl"] += R["states"]
            self.parts.append({"part": "edge replay", "module": module, "config": cfg, "states": dist, "generated": gen,
                               "edges": R["edges"], "skipped": R["skipped"], "kinds": R["kinds"],
                               "tlc_s": round(t1 - t, 1), "replay_s": round(time.time() - t1, 1)})
            self.sample_edge(out)
            for m in R["mismatches"]:
                m.update(driver=driver, cfg=cfg, source="edge replay")
                self.consider(m, rel)
        os.unlink(out)

    def sample_edge(self, out):
        n = 0
        for l in open(out):
            if l.startswith('"{'):
                n += 1
                if n in (7, 400):
                    e = json.loads(json.loads(l))
                    self.cov["samples"].append({"edge": {"act": e["a"], "res": e["r"]}})
                if n > 400:
                    break

    def drive(self, cmd, timeout, driver, cfgp, rel):
        """Runs a driver; a crash of the code under test is data."""
        try:
            r = subprocess.run(cmd, env=env(DRV_LAST=self.path("last.json")), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("driver timed out: " + " ".join(cmd)[:300])
        if r.returncode < 0:
            subprocess.run(cmd, env=env(DRV_LAST=self.path("last.json"), DRV_NOTE=1), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=2 * timeout)
            try:
                last = json.load(open(self.path("last.json")))
            except Exception:
                last = {}
            m = {"kind": "crash", "act": last.get("a", {}), "diff": ["res"], "code": {"r": {"r": f"signal {-r.returncode}"}},
                 "spec": {}, "path": [last.get("a", {})], "driver": driver, "cfg": os.path.basename(cfgp)[:-5], "source": "driver crash"}
            self.consider(m, rel)
            return
        if r.returncode != 0:
            raise ToolError(f"driver failed ({r.returncode}): " + r.stderr.decode(errors="replace")[-3000:])

    def record_judge(self, driver, module, cfg, rel, hist, steps, seed=None, timeout=800, gencfg=None):
        """Random histories of the code, every step judged by the specification."""
        cfgp = os.path.join(SPEC, "cfg", cfg + ".json")
        rec = self.path(f"rec-{cfg}.ndjson")
        if os.path.exists(rec):
            os.unlink(rec)
        self.drive([self.bin(driver), "record", "--seed", str(self.seed if seed is None else seed), "--hist", str(hist),
                    "--steps", str(steps), "--cfg", open(cfgp).read(), "--out", rec], timeout, driver, cfgp, rel)
        if not os.path.exists(rec):
            return
        lines = open(rec).read().splitlines()
        if not lines:
            return
        if not self.cov["samples"] or len(self.cov["samples"]) < 6:
            e = json.loads(lines[min(len(lines) - 1, 5)])
            self.cov["samples"].append({"recorded": {"act": e["a"], "res": e["r"]}})
        kinds = {}
        bad, live = self.judge(module, cfgp, lines, timeout)
        for l in lines:
            e = json.loads(l)
            k = f'{e["a"].get("k")}/{e["r"].get("r")}'
            kinds[k] = kinds.get(k, 0) + 1
        self.cov["recorded_steps"] += live
        self.cov["transitions"] += live
        self.cov["traces_validated_against_impl"] += hist
        self.parts.append({"part": "recorded histories", "module": module, "config": cfg, "histories": hist, "steps": live,
                           "kinds": kinds, "disagreements": len(bad)})
        # first disagreement of each history
        hs = {}
        for l in lines:
            e = json.loads(l)
            hs.setdefault(e["h"], []).append(e)
        seen = set()
        for i, v in sorted(bad.items()):
            e = json.loads(lines[i])
            path = [x["a"] for x in hs[e["h"]] if x["i"] <= e["i"]]
            d = []
            if v.get("error"):
                d = ["evaluation"]
            else:
                if v["res"] != e["r"]:
                    d.append("res")
                d += diff(v["st"], e["t"])
            m = {"kind": "step", "act": e["a"], "diff": d, "pre": e["f"], "spec": {"r": v.get("res"), "t": v.get("st"), "error": v.get("error")},
                 "code": {"r": e["r"], "t": e["t"]}, "path": path, "broken": v.get("broken_set", []), "driver": driver,
                 "cfg": cfg, "source": "recorded history"}
            self.consider(m, rel)
        os.unlink(rec)

    def judge(self, module, cfgp, lines, timeout):
        """TLC evaluates the specification's step on each record. Records on which evaluation itself
        fails (a state outside the specification's types) count as disagreements."""
        bad = {}
        lines = list(lines)
        idx = list(range(len(lines)))
        for attempt in range(8):
            inp = self.path("judge.ndjson")
            with open(inp, "w") as f:
                f.write("".join(lines[k] + "\n" for k in idx))
            out = self.path("judge.txt")
            rc = self.tlc(module, "Trace.cfg", out, timeout, CORES, CFG=cfgp, IN=inp)
            res = {}
            for l in open(out):
                if l.startswith('"{'):
                    v = json.loads(json.loads(l))
                    res[v["i"]] = v
            if rc == 0:
                for k, v in res.items():
                    bad[idx[k - 1]] = norm(v)
                return bad, len(idx)
            txt = self.tlc_tail(out, 200)
            m = re.findall(r"^/?\\?\s*i = (\d+)", txt, re.M)
            if rc == -9 or not m:
                raise ToolError(f"TLC judging with {module} ended with {rc}:\n" + txt[-3000:])
            k = int(m[-1])
            bad[idx[k - 1]] = {"error": "specification cannot evaluate this state: " + txt[-1500:][:600]}
            h = json.loads(lines[idx[k - 1]])["h"]
            idx = [x for x in idx if json.loads(lines[x])["h"] != h or x < idx[k - 1]]
            if not idx:
                return bad, 0
        for k, v in res.items():
            if k - 1 < len(idx):
                bad[idx[k - 1]] = norm(v)
        return bad, len(idx)

    def evaluate(self, driver, module, cases, classify=None, timeout=800, args=("eval",), cfg=None, tlc_cfg="Trace.cfg"):
        """Pure functions: the code answers every case, the specification judges the answers."""
        inp = "".join(json.dumps(c, separators=(",", ":")) + "\n" for c in cases)
        ev = {"CFG": os.path.join(SPEC, "cfg", cfg + ".json")} if cfg else {}
        try:
            r = subprocess.run([self.bin(driver), *args], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env(**ev), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("evaluator timed out")
        outl = r.stdout.decode().splitlines()
        if r.returncode != 0 and r.returncode > 0:
            raise ToolError("evaluator failed: " + r.stderr.decode(errors="replace")[-2000:])
        if r.returncode < 0:
            c = cases[min(len(outl), len(cases) - 1)]
            self.violation({"kind": "crash", "case": c, "signal": -r.returncode, "driver": driver})
        if not outl:
            return
        f = self.path("eval.ndjson")
        open(f, "w").write("\n".join(outl) + "\n")
        out = self.path("eval.txt")
        rc = self.tlc(module, tlc_cfg, out, timeout, CORES, IN=f, **ev)
        ver = []
        for l in open(out):
            if l.startswith('"{'):
                ver.append(json.loads(json.loads(l)))
        if rc != 0:
            txt = self.tlc_tail(out, 60)
            m = re.findall(r"^/?\\?\s*i = (\d+)", txt, re.M)
            if rc == -9 or not m:
                raise ToolError(f"TLC judging with {module} ended with {rc}:\n" + txt[-3000:])
            ver.append({"i": int(m[-1]), "v": "bad: the specification cannot evaluate this answer"})
        ops = {}
        for l in outl:
            op = json.loads(l).get("op", "?")
            ops[op] = ops.get(op, 0) + 1
        self.cov["evaluations"] += len(outl)
        ne = {hashlib.md5(json.dumps({k: x for k, x in json.loads(l).items() if k != "out"}, sort_keys=True).encode()).digest()
              for l in outl}
        self.cov["distinct_nontrivial"] = self.cov.get("distinct_nontrivial", 0) + len(ne)
        self.cov["transitions"] += len(outl)
        self.parts.append({"part": "evaluations", "module": module, "driver": driver, "by_op": ops, "verdicts": len(ver)})
        if len(self.cov["samples"]) < 8:
            for k in (0, len(outl) // 2):
                s = outl[k]
                self.cov["samples"].append({"evaluation": json.loads(s) if len(s) < 1500 else s[:1500]})
        for v in sorted(ver, key=lambda x: x["i"]):
            rec = json.loads(outl[v["i"] - 1])
            verdict = v["v"]
            if verdict.startswith("kf: "):
                kid = verdict[4:]
                if known(kid, self.prop):
                    self.kf.setdefault(kid, rec)
                    continue
                if known(kid):
                    continue   # listed for another property
            self.violation({"kind": "evaluation", "case": rec, "verdict": verdict, "driver": driver, "module": module})

    def known_scenarios(self):
        """Known findings shown on the real code by a fixed history, each run."""
        for e in findings()["findings"]:
            sc = e.get("scenario")
            if e["property"] != self.prop or not sc:
                continue
            f = self.path("acts.json")
            cfg = sc["cfg"]
            if isinstance(cfg, str):
                cfg = json.load(open(os.path.join(SPEC, "cfg", cfg + ".json")))
            json.dump({"cfg": cfg, "acts": sc["acts"]}, open(f, "w"))
            r = subprocess.run([self.bin(sc["driver"]), "run", "--acts", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=300)
            out = [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")][1:]
            if len(out) != len(sc["acts"]):
                raise ToolError(f"scenario {e['id']} did not run: " + r.stderr.decode()[-1500:])
            if all(dig(out[w["step"]], w["path"]) == w["is"] for w in sc["fails_when"]):
                self.kf.setdefault(e["id"], sc["acts"])

    # ------------------------------------------------------------------ verdicts
    def consider(self, m, rel):
        """Is this disagreement about this property?"""
        if relevant(m, rel, self.prop):
            self.violation(m)
        else:
            self.parts.append({"part": "disagreement outside this property", "act": m.get("act"), "diff": m.get("diff")})

    def violation(self, m):
        if len(self.viol) < 30:
            self.viol.append(m)

    def finish(self, level, assumptions):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {k: v for k, v in self.cov.items()}
        cov["parts"] = self.parts[:60]
        if level != "model_checking":
            cov.setdefault("distinct_nontrivial", 0)
            cov["rule"] = "generated inputs (bin/gen_*.py: all boundary cases, then seeded random ones); counted: distinct inputs the code answered and the specification judged"
        if level == "exploration":
            for k in ("states", "traces_validated_against_impl", "edges_replayed", "spec_states_reached_in_code"):
                if not cov.get(k):
                    cov.pop(k, None)
        elif not cov["evaluations"]:
            cov.pop("evaluations")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        for k in sorted(self.kf):
            e = known(k)
            print(f"KNOWN-FINDING: property={self.prop} {k}: {e['what']}")
        if self.viol:
            rd = os.path.join(ROOT, "work", "replays")
            os.makedirs(rd, exist_ok=True)
            for n, m in enumerate(self.viol[:5]):
                p = os.path.join(rd, f"{self.prop}-{n}.json")
                m["reproduce"] = f"{ROOT}/bin/replay.py {p}"
                m["property"] = self.prop
                json.dump(m, open(p, "w"), indent=1)
                print(f"VIOLATION property={self.prop} replay={p}")
                print("   ", brief(m))
            return 1
        print(f"OK property={self.prop} tier={self.tier} " + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, float)) and v) + f" wall={ev['wall_s']}s")
        return 0

def brief(m):
    if m["kind"] == "evaluation":
        return f"{m['verdict']} on {json.dumps(m['case'])[:300]}"
    if m["kind"] == "crash" and "case" in m:
        return f"crash (signal {m['signal']}) on {json.dumps(m['case'])[:300]}"
    return (f"{m.get('source')}: action {json.dumps(m.get('act'))[:250]} differs in {m.get('diff')} "
            f"spec={json.dumps((m.get('spec') or {}).get('r'))[:120]} code={json.dumps((m.get('code') or {}).get('r'))[:120]} "
            f"broken={m.get('broken')} config={m.get('cfg')}")

def relevant(m, rel, prop):
    """rel: {"kinds": {...}|None, "fields": [prefix...]|None}; or a callable."""
    if prop in (m.get("broken") or []):
        return True
    if rel is None or m["kind"] == "init":
        return True
    if callable(rel):
        return rel(m)
    k = (m.get("act") or {}).get("k")
    if "evaluation" in m["diff"]:
        return True
    for kinds, fields in (rel if isinstance(rel, list) else [rel]):
        if kinds is not None and k not in kinds:
            continue
        if fields is None:
            return True
        for d in m["diff"]:
            if any(d == f or d.startswith(f + ".") or f == "*" for f in fields):
                return True
            if d == "projection_panic":
                return True
    return False

def norm(v):
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        o = {}
        for k, x in v.items():
            x = norm(x)
            if k.endswith("_set") and isinstance(x, list):
                x = sorted(x, key=lambda e: json.dumps(e, separators=(",", ":"), sort_keys=True))
            o[k] = x
        return o
    return v

def diff(a, b, p="", d=0):
    if a == b:
        return []
    if d < 3 and isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                out += diff(a.get(k), b.get(k), (p + "." if p else "") + k, d + 1)
        return out
    return [p]

def dig(v, path):
    for k in path.split("."):
        v = v[int(k)] if isinstance(v, list) else v.get(k)
        if v is None:
            return None
    return v

_kf = None
def findings():
    global _kf
    if _kf is None:
        _kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    return _kf
def known(kid, prop=None):
    for e in findings()["findings"]:
        if e["id"] == kid and (prop is None or e["property"] == prop):
            return e
    return None
