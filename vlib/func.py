"""Cases of the functional parts: run by the real code, judged by TLC."""
import json
from .common import *


def undefined(x):
    """Does the value hold a null?"""
    if isinstance(x, dict):
        return any(map(undefined, x.values()))
    if isinstance(x, list):
        return any(map(undefined, x))
    return x is None


def generate(work, exe, name, prop, seed, first, n, timeout, tier=TIER, **more):
    """Runs the generator of a property, returns cases and a crash, if any."""
    path = work.path(name + ".raw")
    rc, out = sh([exe, "-test.run", "TestFunc", "-test.timeout", "%ds" % (timeout - 30)], timeout=timeout,
                 env=go_env(VERIF_PROP=prop, VERIF_SEED=seed, VERIF_FIRST=first, VERIF_N=n, VERIF_OUT=path, VERIF_TIER=tier, **more))
    cases, begin = [], None
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    c = json.loads(line)
                except ValueError:
                    continue
                if "begin" in c:
                    begin = c
                else:
                    if undefined(c):
                        # nil where the specification expects a value: no case of it
                        c = dict(begin["in"], crash="undefined value in " + line.strip()[:300])
                        line = json.dumps(c) + "\n"
                    cases.append((begin["begin"], line))
                    begin = None
    if "HARNESS DONE" not in out and begin is None:
        raise CheckError("harness %s: %s" % (name, out[-3000:]))
    if begin is not None:
        # the process died in the middle of a case
        c = dict(begin["in"], crash="process died: " + (data_race(out) or out[-3000:]))
        cases.append((begin["begin"], json.dumps(c) + "\n"))
    return cases


def bad_of(out):
    return set((int(x) - 1, k) for x, k in re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out))


def judge(work, name, lines, timeout, retry=True):
    """Positions of the cases rejected by the specification, with the known finding they show, if any."""
    if not lines:
        return []
    path = work.path(name + ".ndjson")
    with open(path, "w") as f:
        f.writelines(lines)
    rc, out = tlc(work, "Cases", env=dict(CASES=path), name="cases-" + name, timeout=timeout)
    j = re.findall(r'<<"JUDGED", (\d+)>>', out)
    if not j or int(j[-1]) != len(lines):
        at = re.findall(r"^i = (\d+)$", out, re.M)
        if at and int(at[-1]) < len(lines) and "Error: The error occurred when TLC was evaluating" in out:
            # the results of this case have no value in the specification
            i = int(at[-1])
            rest = judge(work, name + "r", lines[i + 1:], timeout, False) if retry else []
            return sorted(bad_of(out)) + [(i, "")] + [(k + i + 1, key) for k, key in rest]
        raise CheckError("TLC did not judge the cases of %s: %s" % (name, out[-3000:]))
    os.remove(path)
    return sorted(bad_of(out))


RACE = dict(GORACE="halt_on_error=1 exitcode=66", GOMAXPROCS=4)


def data_race(out):
    """The report of two unordered accesses, at least one of which by the library."""
    r = re.search(r"WARNING: DATA RACE\n(.*?)(\n\nGoroutine|\Z)", out, re.S)
    if not r:
        return None
    lib = [l for l in re.findall(r"^ {6}(/\S+):\d+", r.group(1), re.M)
           if l.startswith(REPO + "/") and "/internal/verif" not in l]
    if not lib:
        raise CheckError("race within the harness: " + r.group(0)[:3000])
    lines = [l.strip() for l in r.group(1).splitlines() if not l.startswith("      ")]
    return "unordered accesses: " + " ".join(l for l in lines if l)[:3000]


def race_shard(work, exe, name, gen, first, n, timeout):
    """Cases run by real threads under the race detector, which ends the process."""
    return shard(work, exe, name, gen, first, n, timeout, **RACE)


def shard(work, exe, name, prop, first, n, timeout, **more):
    cases = generate(work, exe, name, prop, SEED, first, n, timeout, **more)
    bad = judge(work, name, [l for _, l in cases], timeout)
    kinds = {}
    for _, l in cases:
        k = json.loads(l)["k"]
        kinds[k] = kinds.get(k, 0) + 1
    return dict(prop=prop, race="GORACE" in more, n=len(cases), kinds=kinds, sample=[json.loads(l) for _, l in cases[:2]],
                rejected=[(cases[i][0], json.loads(cases[i][1]), key) for i, key in bad])


def describe(prop, base, c):
    what = "case %s of generator %s is not what the specification allows" % (base, prop)
    if c.get("crash"):
        what = "case %s of generator %s: %s" % (base, prop, c["crash"][:400].replace("\n", " "))
    return what + ": " + json.dumps(c)[:900]
