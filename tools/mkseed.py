#!/usr/bin/env python3
"""Plants a bug: mkseed.py SPEC.py [--nocheck].  The spec is a Python file (outside /verif is fine) defining
id, property, edits=[(file, old, new)], files={name: text} (with demo.sh), needs, breaks.
Works in the scratch copy /tmp/s (with /tmp/build_s.sh and /tmp/test_s.sh, see DESIGN.md); writes seeded/<id>/ when
the change builds, passes the stable tests and the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys
S = "/tmp/s"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    run(["rsync", "-a", "--checksum", "--exclude", "_build", "/repo/", S + "/"])
    run(["git", "-C", S, "checkout", "-q", "--", "."])


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    clean()
    for f, old, new in spec["edits"]:
        s = open(os.path.join(S, f)).read()
        if s.count(old) != 1:
            sys.exit("%s: found %d times: %s" % (f, s.count(old), old))
        open(os.path.join(S, f), "w").write(s.replace(old, new))
    diff = run(["git", "-C", S, "diff"]).stdout
    t = run(["bash", "/tmp/test_s.sh", "/tmp/s_out.json"], timeout=900)
    res = json.load(open("/tmp/s_out.json"))
    missing = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in res["passed"]]
    if missing:
        print(t.stdout[-3000:])
        sys.exit("tests fail with the change: %s" % missing)
    tmp = "/tmp/seed_demo_" + spec["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for n, txt in spec["files"].items():
        open(os.path.join(tmp, n), "w").write(txt)
    bad = run(["bash", os.path.join(tmp, "demo.sh")], cwd=S, timeout=300)
    caught = ""
    if "--nocheck" not in sys.argv:
        for p in spec.get("checks", [spec["property"]]):
            c = run(["python3", os.path.join(V, "bin", "check.py"), p], env=dict(os.environ, VERIF_REPO=S, VERIF_OUT="/tmp/sout"))
            caught += "%s rc=%d %s\n" % (p, c.returncode, " ".join([l for l in c.stdout.splitlines() if "violation class" in l or "rror" in l][:2])[:300])
    clean()
    run(["bash", "/tmp/build_s.sh"])
    good = run(["bash", os.path.join(tmp, "demo.sh")], cwd=S, timeout=300)
    print("demo: unchanged %d, changed %d" % (good.returncode, bad.returncode))
    print(caught, end="")
    if good.returncode != 0 or bad.returncode == 0:
        print("--- unchanged:\n" + good.stdout[-1500:] + "\n--- changed:\n" + bad.stdout[-1500:])
        sys.exit("the demonstration does not tell them apart")
    d = os.path.join(V, "seeded", spec["id"])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("kept", d)


main()
