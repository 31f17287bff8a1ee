#!/usr/bin/env python3
"""trybug.py ID... [--check]: verifies planted bugs in scratch copies of /repo:
the patch applies and builds, stable tests pass, the demonstration passes
without and fails with it; with --check, runs the property's check on it."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local",
           GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build")


def sh(cmd, cwd, timeout=600, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def stable(repo, work):
    names = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bypkg = {}
    for n in names:
        pkg, t = n.rsplit("/", 1) if not re.search(r"/Test[^/]*/", n) else (n[:n.index("/Test")], n[n.index("/Test") + 1:])
        bypkg.setdefault(pkg, set()).add(t.split("/")[0])
    jobs = []
    for pkg, ts in bypkg.items():
        rel = pkg.replace("github.com/wearelumenai/distclus", ".")
        exe = os.path.join(work, pkg.replace("/", "_") + ".test")
        rc, out = sh(["go", "test", "-c", "-vet=off", "-o", exe, rel], repo)
        if rc:
            return ["BUILD " + pkg]
        for t in ts:
            jobs.append((exe, os.path.join(repo, rel), t))

    def one(j):
        for k in range(2):
            rc, out = sh(["timeout", "-s", "KILL", "50", j[0], "-test.count=1", "-test.timeout=40s", "-test.run", "^" + j[2] + "$"], j[1],
                         env=dict(ENV, GOMAXPROCS="1"))
            if rc == 0:
                return None
        return os.path.basename(j[1]) + "/" + j[2]
    with ThreadPoolExecutor(6) as ex:
        return [r for r in ex.map(one, jobs) if r]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for i in ids:
        d = os.path.join(V, "seeded", i)
        work = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
        repo = os.path.join(work, "repo")
        try:
            shutil.copytree("/repo", repo)
            shutil.copytree(d, os.path.join(work, "demo"))
            demo = ["timeout", "300", "bash", os.path.join(work, "demo", "demo.sh")]
            res = []
            rc, out = sh(demo, repo)
            res.append("demo-unchanged=%s" % ("ok" if rc == 0 else "FAILS\n" + out[-1500:]))
            rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
            if rc:
                print(i, "PATCH DOES NOT APPLY", out)
                continue
            rc, out = sh(["go", "build", "./..."], repo)
            if rc:
                print(i, "DOES NOT BUILD", out)
                continue
            rc, out = sh(demo, repo)
            res.append("demo-patched=%s" % ("ok" if rc != 0 else "NOT FAILING"))
            if "--notests" not in sys.argv:
                bad = stable(repo, work)
                res.append("tests=%s" % ("ok" if not bad else "FAIL " + " ".join(bad)))
            if "--check" in sys.argv:
                prop = json.load(open(os.path.join(d, "meta.json")))["property"]
                rc, out = sh(["python3", "run.py", prop], V, 900, dict(os.environ, VERIF_REPO=repo))
                v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
                res.append("check=%s" % ("caught" if rc == 1 and v else "MISSED rc=%d %s" % (rc, out[-600:])))
            print(i, " ".join(res), flush=True)
        finally:
            shutil.rmtree(work)


main()
