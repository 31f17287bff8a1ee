"""Table of the checks."""
import json, os, re, sys
from .common import *
from . import algo, func

ALGO = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C24", "C26", "C29", "C31"]
# histories generated at random per property (quick, thorough), and tours of the specification
N_RANDOM = {"C24": (600, 8000)}
N_RANDOM_DEFAULT = (1500, 12000)
TOURS = {"C01": (1, 2, 3), "C02": (1, 2), "C03": (1, 2, 3), "C04": (1, 2), "C05": (1, 2), "C06": (1, 2),
         "C07": (3,), "C08": (2,), "C09": (1, 2)}
N_TOURS = (360, 20000)
MC = {"C03": ["C03", "C03w"], "C24": [], "C26": [], "C29": [], "C31": []}

# functional properties: cases generated (quick, thorough)
N_FUNC = {"C19": (8000, 60000), "C14": (10000, 80000), "C28": (4000, 40000), "C30": (2400, 24000)}
N_FUNC_DEFAULT = (12000, 120000)
# cases of functional parts judged with the histories of properties
CASES = {"C06": (1500, 30000), "C10": (72, 2000), "C11": (3000, 60000), "C24": (6000, 60000)}
FUNC = ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C25", "C27", "C28", "C30"]
# parts instrumented with scheduling points
FUNC_INSTR = {"C12", "C13", "C14", "C21", "C30"}
# cases run by real threads under the race detector: generator, quick, thorough
RACES = {p: ("race", 360, 6000) for p in ("C02", "C04", "C11", "C24")}
RACES.update({"C21": ("raceC21", 1000, 20000)}, **{p: (p, 600, 8000) for p in ("C12", "C13", "C14", "C30")})
# small scopes of the specifications, exhausted by TLC: (module, configurations, more of them when thorough)
PAR = [("ParMC", ["ParMC_1_1", "ParMC_2_3", "ParMC_3_2", "ParMC_3_5"], ["ParMC_4_3"])]
PROTOCOL = {"C01": (["cmd"], ["push_t"]), "C02": (["cmd"], ["push_t", "all_t"]), "C03": (["live"], ["live_t", "all_t"]),
            "C04": (["cmd"], ["push_t"]), "C06": (["fail"], ["fail_t"]), "C07": (["cmd"], ["fail_t"]), "C11": (["read"], ["read_t"]),
            "C31": (["cmd", "fail"], ["live", "live_t", "fail_t"])}
FUNC_MC = {
    "C10": [("BufferMC", ["BufferMC", "BufferMC2"], ["BufferMC3"])],
    "C11": [("BufferMC", ["BufferMC2"], ["BufferMC3"])],
    "C12": PAR + [("SpaceMC", ["SpaceMC"], ["SpaceMCt"])],
    "C13": PAR,
    "C14": [("LloydMC", ["LloydMC0"], ["LloydMC2", "LloydMC0t"])],
    "C15": [("InitMC", ["InitMC"], ["InitMCt"])],
    "C16": [("DtwMC", ["DtwMC"], ["DtwMCt"])],
    "C17": [("DtwMC", ["DtwMC"], ["DtwMCt"])],
    "C18": [("StreamMC", ["StreamMC"], ["StreamMCt"])],
    "C19": [("McmcMC", ["McmcMCf"], ["McmcMC", "McmcMCt"])],
    "C20": [("McmcMC", ["McmcMC"], ["McmcMCf", "McmcMCt"])],
    "C21": [("LateMC", ["LateMC"], ["LateMCt"])],
    "C22": [("FinMC", ["FinMC"], ["FinMCt"])],
    "C23": [("ConfMC", ["ConfMC"], [])],
    "C24": [("BufferMC", ["BufferMC", "BufferMC3"], [])],
    "C25": [("SpaceMC", ["SpaceMC"], ["SpaceMCt"])],
    "C27": [("DrawMC", ["DrawMC"], ["DrawMCt"])],
    "C29": [("FiguresMC", ["FiguresMC"], [])],
    "C30": [("ReproMC", ["ReproMC"], ["ReproMCt"])],
}


def mc_jobs(work, prop, thorough):
    jobs = []
    protocol = [("Protocol", ["Protocol_" + c for c in q], ["Protocol_" + c for c in t]) for q, t in [PROTOCOL.get(prop, ([], []))]]
    for module, quick, more in FUNC_MC.get(prop, []) + protocol:
        for cfg in quick + (more if thorough else []):
            jobs.append(lambda module=module, cfg=cfg: model_check(work, module, cfg, workers=2, timeout=7000 if cfg.endswith("_t") else 3000))
    return jobs


def known_findings():
    """Findings listed in KNOWN_FINDINGS.md: (property, key) to what fails."""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.md")) as f:
        return {(p, k): w.strip() for p, k, w in re.findall(r"^finding: property=(\S+) key=(\S+) (.*)$", f.read(), re.M)}


def func_jobs(work, exe, prop, n, shards, timeout=3000):
    per = (n + shards - 1) // shards
    return [lambda i=i: func.shard(work, exe, "%s-%d" % (prop, i), prop, i * per, per, timeout) for i in range(shards)]


def race_jobs(work, prop, thorough):
    if prop not in RACES:
        return []
    gen, n = RACES[prop][0], RACES[prop][1 + thorough]
    exe, _ = build(work, "func", (None,), race=True)
    shards = 16 if thorough else 2
    return [lambda i=i: func.race_shard(work, exe, "race-%d" % i, gen, i * n // shards, n // shards, 3000) for i in range(shards)]


def check_func(prop):
    thorough = TIER == "thorough"
    work = Work(prop)
    rep = Report(prop, "model_checking")
    try:
        exe, mode = build(work, "func", (2, 1, 0, None) if prop in FUNC_INSTR else (None,))
        n = N_FUNC.get(prop, N_FUNC_DEFAULT)[thorough]
        jobs = func_jobs(work, exe, prop, n, 40 if thorough else 6)
        jobs = mc_jobs(work, prop, thorough) + race_jobs(work, prop, thorough) + jobs
        results, models = [], []
        for r in parallel(jobs):
            (results if "rejected" in r else models).append(r)
        func_report(rep, results)
        judged = sum(r["n"] for r in results)
        kinds = {}
        for r in results:
            for k in r["kinds"]:
                kinds[k] = kinds.get(k, 0) + r["kinds"][k]
        rep.coverage = dict(
            states=sum(m["states"] for m in models) + judged,
            transitions=sum(m["transitions"] for m in models) + judged,
            traces_validated_against_impl=judged, cases_by_kind=kinds, models=models,
            instrumentation=mode, samples=[c for r in results[:1] for c in r["sample"]])
        rep.assumptions = [
            "inputs are generated on small integers, so that results are exact or recovered as rationals of small denominators",
            "inputs and schedules of the real code are sampled"]
        return rep.finish()
    finally:
        work.close()


def func_report(rep, results):
    listed = known_findings()
    for r in results:
        for base, c, key in r["rejected"]:
            if (r["prop"], key) in listed:
                rep.known_finding(key, listed[(r["prop"], key)])
                continue
            rep.violation(func.describe(r["prop"], base, c),
                          dict(kind="case", gen=r["prop"], seed=SEED, base=base, tier=TIER, case=c, race=r["race"]))


def tours(work, which, thorough):
    lines = []
    for i in which:
        cfg = "AlgoTour%d%s" % (i, "t" if thorough else "")
        rc, out = tlc(work, "AlgoTour", cfg, name=cfg, timeout=900)
        got = [l.strip('"').split()[1:] for l in out.splitlines() if l.startswith('"TOUR')]
        if "Model checking completed" not in out or not got:
            raise CheckError("tour generation failed: " + out[-2000:])
        # drop prefixes of other tours
        keys = set(tuple(g[:k]) for g in got for k in range(len(g)))
        lines += [[str(i)] + g for g in got if tuple(g) not in keys]
    return lines


def check_algo(prop):
    thorough = TIER == "thorough"
    work = Work(prop)
    rep = Report(prop, "model_checking")
    try:
        exe, mode = build(work, "algo", (2, 1, 0))
        jobs, results, models, cases, tourcount = [], [], [], [], 0
        n = N_RANDOM.get(prop, N_RANDOM_DEFAULT)[thorough]
        shards = 7 if not thorough else 40
        per = (n + shards - 1) // shards
        for i in range(shards):
            env = dict(VERIF_PROFILE=prop, VERIF_SEED=SEED, VERIF_FIRST=i * per, VERIF_N=per)
            jobs.append(lambda env=env, i=i: algo.shard(work, exe, "rnd%d" % i, env, 3000))
        if prop in TOURS:
            words = tours(work, TOURS[prop], thorough)
            tourcount = len(words)
            import random
            random.Random(SEED).shuffle(words)
            words = words[:N_TOURS[thorough]]
            path = work.path("tours.txt")
            with open(path, "w") as f:
                f.write("".join(" ".join(w) + "\n" for w in words))
            k = 4 if not thorough else 24
            for i in range(k):
                env = dict(VERIF_TOURS=path, VERIF_SEED=SEED, VERIF_FIRST=i, VERIF_STEP=k,
                           VERIF_N=(len(words) + k - 1) // k)
                jobs.append(lambda env=env, i=i: algo.shard(work, exe, "tour%d" % i, env, 3000))
        if prop in CASES:
            fexe, _ = build(work, "func", (None,))
            jobs += func_jobs(work, fexe, prop, CASES[prop][thorough], 20 if thorough else 3)
        first = [lambda cfg=cfg: model_check(work, "AlgoMC", "AlgoMC_" + cfg, workers=2, timeout=3000) for cfg in MC.get(prop, [prop])]
        jobs = first + mc_jobs(work, prop, thorough) + race_jobs(work, prop, thorough) + jobs
        for r in parallel(jobs):
            (results if "traces" in r else cases if "rejected" in r else models).append(r)
        func_report(rep, cases)
        ntr = sum(len(r["traces"]) for r in results)
        for r in results:
            for t, l in r["rejected"]:
                rep.violation(algo.describe(t, l), dict(kind="history", trace=t, event=l))
        sample = [t for r in results for t in r["traces"]]
        rep.coverage = dict(
            states=sum(m["states"] for m in models) + sum(r["states"] for r in results),
            transitions=sum(m["transitions"] for m in models) + sum(r["transitions"] for r in results),
            traces_validated_against_impl=ntr + sum(r["n"] for r in cases),
            events_validated=sum(r["events"] for r in results),
            histories_given_up=sum(r["given"] for r in results),
            models=models, tours_of_the_specification=tourcount,
            tours_replayed=sum(len(r["traces"]) for r in results if r["traces"] and r["traces"][0]["info"].get("words")),
            instrumentation=mode,
            samples=[dict(cf=t["cf"], events=t["ev"][:12]) for t in sample[:2]])
        rep.assumptions = [
            "virtual time (testing/synctest); locks of package sync replaced by equivalent ones in the core, kmeans, mcmc and streaming packages",
            "schedules are sampled: random delays, random scheduling points, tours of the specification"]
        return rep.finish()
    finally:
        work.close()


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)["replay"]
    work = Work(prop)
    try:
        if r["kind"] == "history":
            rej, _, _, _ = algo.validate(work, "replay", [r["trace"]])
            for t, l in rej:
                print(algo.describe(t, l))
            return 1 if rej else 0
        if r["kind"] == "case":
            race = r.get("race", False)
            exe, _ = build(work, "func", (2, 1, 0, None) if r["gen"] in FUNC_INSTR and not race else (None,), race)
            cases = func.generate(work, exe, "replay", r["gen"], r["seed"], r["base"], 1, 300, r["tier"], **(func.RACE if race else {}))
            lines = [l for _, l in cases]
            listed = known_findings()
            bad = [(i, k) for i, k in func.judge(work, "replay", lines, 300) if (r["gen"], k) not in listed]
            for i, _ in bad:
                print(func.describe(r["gen"], r["base"], json.loads(lines[i])))
            if not bad:
                print("the recorded case is not reproduced: it may depend on the schedule")
                bad = func.judge(work, "recorded", [json.dumps(r["case"]) + "\n"], 300)
            return 1 if bad else 0
        print(json.dumps(r, indent=1))
        return 1
    finally:
        work.close()


def setup():
    """Warms the build cache; every check builds what it needs anyway."""
    work = Work("setup")
    try:
        build(work, "algo", (2, 1, 0))
        build(work, "func", (2, 1, 0, None))
        build(work, "func", (None,))
        build(work, "func", (None,), race=True)
        print("setup done")
        return 0
    finally:
        work.close()


def main(args):
    prop = args[0]
    if prop == "setup":
        return setup()
    if "--replay" in args:
        return replay(prop, args[args.index("--replay") + 1])
    if prop in ALGO:
        return check_algo(prop)
    if prop in FUNC:
        return check_func(prop)
    raise CheckError("unknown property " + prop)
