"""plant.py FILE: plants the bugs described in FILE (a Python file defining BUGS, a list of dicts with id, property, file,
old, new (or edits: list of (file, old, new)), demo, needs, breaks), confirms them, and writes /verif/seeded/<id>/.
With --check the property's quick check is run against each, too."""
import json, os, subprocess, sys
REPO, SEED = "/repo", "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in g["BUGS"]:
        if only and b["id"] not in only:
            continue
        if sh(["git", "-C", REPO, "status", "--short"]).stdout.strip():
            print("repo not clean"); return
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        demo = os.path.join(d, "demo.py")
        open(demo, "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        ok = True
        r = sh(["sh", os.path.join(d, "demo.sh")], cwd=REPO)
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-800:]); ok = False
        try:
            for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
                p = os.path.join(REPO, f)
                s = open(p, encoding="utf-8").read()
                if s.count(old) != 1:
                    print(b["id"], "old text occurs", s.count(old)); ok = False
                open(p, "w", encoding="utf-8").write(s.replace(old, new))
            diff = sh(["git", "-C", REPO, "diff"]).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            if ok:
                r = sh(["sh", os.path.join(d, "demo.sh")], cwd=REPO)
                if r.returncode == 0:
                    print(b["id"], "DEMO PASSES WITH THE BUG"); ok = False
            if ok:
                sh(["bash", "/opt/vp/build.sh"])
                sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
                missing = STABLE - set(json.load(open("/tmp/plant.json"))["passed"])
                if missing:
                    print(b["id"], "TESTS NOTICE", sorted(missing)[:4]); ok = False
            if ok and "--check" in sys.argv:
                r = sh(["bash", "-c", "cd /verif; ./check.sh %s quick" % b["property"]])
                print(b["id"], "caught" if r.returncode == 1 and "VIOLATION property=%s" % b["property"] in r.stdout else "MISSED", r.stdout.strip().splitlines()[:2][-1:] )
        finally:
            clean()
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(b["id"], "ok" if ok else "REJECTED")
        if not ok:
            sh(["rm", "-rf", d])
main()
