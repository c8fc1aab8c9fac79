""" Confirms planted bugs: dev/seed.py ID... (applies each to /repo, runs tests, demo and checks, and undoes it). """
import json, os, subprocess, sys
S = "/verif/seeded"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
tests = "-t" in sys.argv
assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
for i in ids:
    d = f"{S}/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    clean = sh("bash", f"{d}/demo.sh", cwd="/repo").returncode
    a = sh("git", "-C", "/repo", "apply", f"{d}/patch.diff")
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr)
        continue
    try:
        bug = sh("bash", f"{d}/demo.sh", cwd="/repo")
        missing = "-"
        if tests:
            sh("bash", "/opt/vp/test.sh", "/tmp/o.json")
            b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/o.json"))
            missing = sorted(set(b["stable"]) - set(o["passed"]))[:3]
        ps = [prop] if "-a" not in sys.argv else [f"C{k:02}" for k in range(1, 60)]
        caught = [p for p in ps if sh("python3", "-B", "check.py", p, cwd="/verif").returncode == 1]
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    ok = clean == 0 and bug.returncode != 0 and missing in ("-", [])
    print(i, prop, "ok" if ok else f"BAD clean={clean} bug={bug.returncode}", "tests", missing, "caught by", caught,
          "" if ok else bug.stdout[-300:] + bug.stderr[-300:], flush=True)
