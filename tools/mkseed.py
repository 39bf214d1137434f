#!/usr/bin/env python3
"""mkseed.py FILE.py [ID...] -- builds seeded/<id>/ from definitions in FILE.py and confirms each one:
SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], driver, cfg, acts, expect=[(step, path, value)])]
or driver="d-hdata" with cases=[...] and expect=[(line, path, value)].
Confirmed: the patch applies, the stable tests pass with it, the demo passes without and fails with it."""
import json, os, subprocess, sys, runpy, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this history; 1: it does not; 2: the demonstration could not be built
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "$w"' EXIT
tar xzf "$d/frame.tgz" -C "$w" || exit 2
(cd "$w" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" cargo build --offline -q -p @DRIVER@) || exit 2
python3 "$d/demo.py" "$w/target/debug/@DRIVER@" "$d/demo.json" "$w"
'''
DEMO_PY = '''import json, subprocess, sys
exe, spec, w = sys.argv[1:4]
d = json.load(open(spec))
if "cases" in d:
    r = subprocess.run([exe, "eval"], input="".join(json.dumps(c) + "\\n" for c in d["cases"]).encode(), stdout=subprocess.PIPE, timeout=200)
else:
    json.dump({"cfg": d["cfg"], "acts": d["acts"]}, open(w + "/acts.json", "w"))
    r = subprocess.run([exe, "run", "--acts", w + "/acts.json"], stdout=subprocess.PIPE, timeout=200)
out = [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")]
if "cases" not in d:
    out = out[1:]
def dig(v, path):
    for k in [x for x in path.split(".") if x]:
        try:
            v = v[int(k)] if isinstance(v, list) else v[k]
        except Exception:
            return None
    return v
bad = 0
for step, path, want in d["expect"]:
    got = dig(out[step], path) if step < len(out) else None
    if got != want:
        print("step", step, path, "is", got, "expected", want)
        bad = 1
sys.exit(bad)
'''
def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable():
    sh("bash", "/opt/vp/build.sh"); sh("bash", "/opt/vp/test.sh", "/tmp/seed-out.json")
    try:
        o = json.load(open("/tmp/seed-out.json"))
    except Exception:
        return False
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= set(o["passed"])
def main():
    ns = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    assert sh("git", "-C", "/repo", "status", "--short").stdout == "", "repo dirty"
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        d = os.path.join(ROOT, "seeded", s["id"])
        if os.path.isdir(d) and not want: continue
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            for p, old, new in s["edits"]:
                f = os.path.join("/repo", p); t = open(f).read()
                assert t.count(old) == 1, (s["id"], p, t.count(old), old)
                open(f, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
            ok_tests = stable()
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        drv = s["driver"]
        tar = d + "/frame.tgz"
        ex = [x for x in os.listdir(ROOT + "/harness") if x.startswith("d-") and x != drv and f'"../{x}"' not in open(ROOT + f"/harness/{drv}/Cargo.toml").read()]
        # a workspace with only the driver needed
        tmp = "/tmp/mkseed-frame"; shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(ROOT + "/harness", tmp, ignore=lambda dd, ns_: [n for n in ns_ if n in ("target", "drivers") or (os.path.samefile(dd, ROOT + "/harness") and n in ex)])
        sh("tar", "czf", tar, "--sort=name", "--mtime=2020-01-01", "-C", tmp, ".")
        shutil.rmtree(tmp)
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("@DRIVER@", drv)); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(DEMO_PY)
        j = {"expect": s["expect"]}
        if "cases" in s: j["cases"] = s["cases"]
        else:
            cfg = s["cfg"]
            if isinstance(cfg, str): cfg = json.load(open(f"{ROOT}/spec/cfg/{cfg}.json"))
            j.update(cfg=cfg, acts=s["acts"])
        json.dump(j, open(d + "/demo.json", "w"), ensure_ascii=True)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd="/repo")
        try:
            a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
            r1 = sh("bash", d + "/demo.sh", cwd="/repo")
            caught = None
            if "--nocheck" not in sys.argv:
                c = sh("python3", ROOT + "/bin/check.py", s["property"])
                caught = c.returncode, c.stdout.strip().splitlines()[-3:]
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        good = ok_tests and r0.returncode == 0 and r1.returncode == 1 and a.returncode == 0
        print(s["id"], "CONFIRMED" if good else f"REJECTED tests={ok_tests} clean={r0.returncode} patched={r1.returncode} {r0.stdout[-800:]} // {r1.stdout[-800:]}", "caught:", caught, flush=True)
        if not good: shutil.rmtree(d)
main()
