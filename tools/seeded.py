"""development: python3 tools/seeded.py [--tests] [ID...]
applies each planted bug to /repo, runs its demo and the check of its property, undoes it, prints a table"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C %s checkout -- ." % REPO)


def main():
    tests = "--tests" in sys.argv
    nocheck = "--nocheck" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
    assert not sh("git -C %s status --porcelain" % REPO).stdout.strip(), "repo not clean"
    rows = []
    for i in ids:
        d = "%s/seeded/%s" % (HERE, i)
        meta = json.load(open(d + "/meta.json"))
        a = sh("bash %s/demo.sh" % d, cwd=REPO)
        try:
            g = sh("git -C %s apply %s/patch.diff" % (REPO, d))
            if g.returncode:
                print(i, "PATCH FAILS", g.stderr)
                continue
            b = sh("bash %s/demo.sh" % d, cwd=REPO)
            t = ""
            if tests:
                sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                base = json.load(open("/opt/vp/BASELINE.json"))
                got = json.load(open("/tmp/seedtest.json"))
                t = "tests:" + ("ok" if stable(base) <= passed(got) else "BROKEN")
            t0 = time.time()
            c = None
            if not nocheck:
                c = sh("python3-vt %s/check.py %s --tier quick" % (HERE, meta["property"]), cwd=HERE)
            line = [l for l in (c.stdout if c else "").split("\n") if l.startswith("VIOLATION")]
        finally:
            clean()
        print("%-10s %s demo clean:%d patched:%d %s check:%s %s %.0fs" % (
            i, meta["property"], a.returncode, b.returncode, t, c.returncode if c else "-", line[0][:150] if line else "", time.time() - t0))
        if a.returncode:
            print(a.stdout[-800:], a.stderr[-800:])
        sys.stdout.flush()


def passed(d):
    x = d.get("passed") or [k for k, v in (d.get("results") or d).items() if v in ("passed", "pass", True)]
    return set(x)


def stable(d):
    for k in ("stable", "passed", "stable_tests", "pass"):
        if k in d:
            return set(d[k])
    raise SystemExit("baseline format: %s" % list(d))


if __name__ == "__main__":
    main()
