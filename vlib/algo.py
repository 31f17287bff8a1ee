"""Histories of the real algorithm, validated by TLC against spec/Algo.tla."""
import json, os, re
from .common import *


def post(path):
    """Raw events to traces: results are attached to calls; unfinished
    scenarios are returned with complete = False."""
    traces, order = {}, []
    with open(path, errors="replace") as f:
        for line in f:
            try:
                e = json.loads(line)
            except ValueError:
                break  # truncated last line of a crashed process
            sc = e.pop("sc")
            if e["e"] == "cf":
                traces[sc] = dict(id=sc, cf=e["cf"], info={k: e[k] for k in ("impl", "notif", "words") if k in e}, ev=[])
                order.append(sc)
                continue
            t = traces[sc]
            if e["e"] == "call":
                e["res"] = ["pending", "", 0, 0, 0]
                t.setdefault("calls", {})[e["c"]] = e
            elif e["e"] == "ret":
                t["calls"][e["c"]].update((k, e.pop(k)) for k in ("res", "ft") if k in e)
            t["ev"].append(e)
            if e["e"] == "end":
                t["complete"] = True
    out = []
    for sc in order:
        t = traces[sc]
        t.pop("calls", None)
        t.setdefault("complete", False)
        out.append(t)
    return out


def crash_message(text):
    m = re.search(r"^(panic: .*|fatal error: .*|WATCHDOG .*)$", text, re.M)
    return m.group(1) if m else None


def run_harness(work, exe, name, env, timeout):
    out = work.path(name, "raw.ndjson")
    e = go_env(GOMAXPROCS=1, VERIF_OUT=out, **env)
    rc, text = sh([exe, "-test.run", "^TestAlgo$", "-test.timeout", "0"], timeout=timeout, env=e, cwd=os.path.dirname(out))
    traces = post(out) if os.path.exists(out) else []
    if rc != 0 or "HARNESS DONE" not in text:
        msg = crash_message(text)
        if msg is None or not traces:
            raise CheckError("harness failed (%s): %s" % (rc, text[-3000:]))
        # the process died, or hung, within or just after a scenario: its history ends with a crash
        t = traces[-1]
        if t["complete"]:
            t["ev"].pop()
        t["ev"].append(dict(e="end", t=t["ev"][-1]["t"] if t["ev"] else 0, nb=False, mut=0, left=0, crash=msg))
        t["stderr"] = text[-20000:]
        t["complete"] = True
    return [t for t in traces if t["complete"]]


def validate(work, name, traces, timeout=240):
    """TLC validates traces; returns (rejected [(trace, index)], states, transitions, traces given up).
    Histories with too many explanations are given up, at last by time."""
    try:
        return validate_once(work, name, traces, timeout)
    except TLCTimeout:
        if len(traces) == 1 or timeout < 20:
            return [], 0, 0, len(traces)
        k = (len(traces) + 3) // 4
        parts = [validate(work, "%s.%d" % (name, i), traces[i:i + k], timeout / 5) for i in range(0, len(traces), k)]
        return sum((p[0] for p in parts), []), sum(p[1] for p in parts), sum(p[2] for p in parts), sum(p[3] for p in parts)


def validate_once(work, name, traces, timeout):
    path = work.path(name, "traces.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps({k: t[k] for k in ("id", "cf", "ev")}) + "\n")
    rc, out = tlc(work, "AlgoTrace", env=dict(TRACES=path), dfs=True, timeout=timeout, name="at-" + name)
    if '<<"TRACES", %d>>' % len(traces) not in out or "Model checking completed" not in out:
        if "is violated" in out and "Invariant TraceInv" in out:
            return [(traces[0], 0)], 0, 0, 0
        raise CheckError("TLC failed on %s: %s" % (name, out[-3000:]))
    gen, distinct = tlc_states(out)
    rej = [(traces[int(a) - 1], int(b)) for a, b, c in re.findall(r'<<"REJECTED", (\d+), (\d+), (\d+)>>', out)]
    m = re.search(r'<<"GIVENUP", (\d+)>>', out)
    return rej, distinct, gen, int(m.group(1))


def describe(t, l):
    ev = t["ev"]
    lines = ["history %s of %s rejected at event %d of %d" % (t["id"], json.dumps(t["cf"]), l, len(ev))]
    for j in range(max(0, l - 9), min(len(ev), l + 1)):
        lines.append("%s %s" % (">>" if j + 1 == l else "  ", json.dumps(ev[j])))
    return "\n  ".join(lines)


def shard(work, exe, name, env, timeout=600):
    traces = run_harness(work, exe, name, env, timeout)
    if not traces:
        raise CheckError("no history recorded by " + name)
    rej, states, trans, given = validate(work, name, traces, 2000 if TIER == "thorough" else 240)
    events = sum(len(t["ev"]) for t in traces)
    return dict(traces=traces, rejected=rej, states=states, transitions=trans, events=events, given=given)
