"""Build, TLC, evidence and reporting helpers shared by all checks."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CPUS = max(2, min(8, os.cpu_count() or 2))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOTBIN = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    """The check itself could not be carried out."""


def go_env(**kw):
    env = dict(os.environ)
    env["PATH"] = GOROOTBIN + ":" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=env.get("GOCACHE", "/root/.cache/go-build"))
    env.update({k: str(v) for k, v in kw.items()})
    return env


def sh(cmd, timeout=600, env=None, cwd=None, out=None):
    """Runs a command, returns (exit code, output)."""
    f = open(out, "w+") if out else tempfile.TemporaryFile("w+")
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = -999
    f.seek(0)
    text = f.read()
    f.close()
    return rc, text


class Work:
    """A scratch directory, removed at the end."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        self.t0 = time.time()

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def instrumenter(work):
    exe = work.path("instr")
    src = os.path.join(VERIF, "harness", "instr")
    rc, out = sh(["go", "build", "-o", exe, "."], cwd=src, env=go_env())
    if rc:
        raise CheckError("instrumenter does not build:\n" + out)
    return exe


# packages whose sources get scheduling points
SCHEDULED = ["core", "kmeans", "mcmc", "streaming"]
# files of heavy sequential computations are only given the lock shim
PLAIN = {"core/clustering.go", "core/util.go", "core/par_assign.go", "core/par_dba.go", "core/par_loss.go",
         "core/status.go", "core/figures.go", "core/error.go", "core/conf.go", "kmeans/init.go", "kmeans/conf.go",
         "kmeans/par.go", "kmeans/seq.go", "mcmc/par.go", "mcmc/seq.go", "mcmc/store.go", "mcmc/multivt.go",
         "mcmc/conf.go", "streaming/conf.go"}


def go_sources(pkg):
    d = os.path.join(REPO, pkg)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go") and not f.endswith("_test.go"))


# files with scheduling points for the functional harness
FUNC_FILES = {"core/par_assign.go", "core/par_dba.go", "core/par_loss.go", "core/util.go", "mcmc/latedistrib.go"}


def overlay(work, harness, instrument):
    """Overlay file adding a harness package and replacing sources by
    instrumented ones (instrument: None, 0, 1 or 2)."""
    rep = {}
    hd = os.path.join(VERIF, "harness", harness)
    for f in sorted(os.listdir(hd)):
        if f.endswith(".go"):
            rep[os.path.join(REPO, "internal", "verif" + harness, f)] = os.path.join(hd, f)
    vs = os.path.join(VERIF, "harness", "vsync")
    for f in os.listdir(vs):
        rep[os.path.join(REPO, "internal", "vsync", f)] = os.path.join(vs, f)
    if instrument is not None:
        exe = instrumenter(work)
        for pkg in SCHEDULED:
            for f in go_sources(pkg):
                rel = os.path.relpath(f, REPO)
                if harness == "func" and rel not in FUNC_FILES:
                    continue
                mode = 0 if harness != "func" and rel in PLAIN else instrument
                out = work.path("src%d" % instrument, pkg + "_" + os.path.basename(f))
                rc, text = sh([exe, os.path.dirname(out), str(mode), f])
                if rc:
                    raise CheckError("instrumentation of %s failed: %s" % (rel, text))
                rep[f] = out
    path = work.path("overlay-%s-%s.json" % (harness, instrument))
    with open(path, "w") as fd:
        json.dump({"Replace": rep}, fd)
    return path


def build(work, harness, instrument=(None,), race=False):
    """Builds a harness test binary against the working tree of the repository,
    with the first kind of instrumentation that compiles."""
    errors = []
    for mode in instrument:
        exe = work.path(harness + ("-race" if race else "") + ".test")
        try:
            ov = overlay(work, harness, mode)
        except CheckError as e:
            errors.append(str(e))
            continue
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", exe]
        env = go_env()
        if race:
            cmd.append("-race")
            env["CGO_ENABLED"] = "1"
        rc, out = sh(cmd + ["./internal/verif" + harness], cwd=REPO, env=env)
        if rc == 0:
            return exe, mode
        errors.append(out)
    raise CheckError("harness does not build:\n" + "\n".join(e[-3000:] for e in errors))


class TLCTimeout(CheckError):
    pass


def tlc(work, module, cfg=None, env=None, workers=1, timeout=600, heap="3g", extra=(), dfs=False, name=None):
    """Runs TLC, returns its output; raises CheckError when it could not run."""
    name = name or module
    meta = work.path("meta-" + name, "x")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    if dfs:
        e["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + os.path.dirname(meta), "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-noTE",
           "-metadir", os.path.dirname(meta), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    rc, out = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
    if rc == -999:
        raise TLCTimeout("TLC timed out on %s" % name)
    return rc, out


def tlc_states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u00a0", ""))
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def model_check(work, module, cfg, workers=2, timeout=600, heap="4g", env=None):
    """Exhaustive check of a specification by TLC: it must hold."""
    rc, out = tlc(work, module, cfg, workers=workers, timeout=timeout, heap=heap, name=cfg, env=env)
    if "Model checking completed. No error has been found." not in out:
        raise CheckError("TLC on %s: %s" % (cfg, out[-3000:]))
    gen, distinct = tlc_states(out)
    return dict(spec=cfg, transitions=gen, states=distinct)


def parallel(jobs, n=CPUS):
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.coverage, self.violations, self.assumptions = {}, [], []
        self.t0 = time.time()
        self.known = {}

    def known_finding(self, key, what):
        """A violation listed in KNOWN_FINDINGS.md."""
        self.known[key] = what

    def violation(self, what, replay):
        """Registers a violation: `replay` is written to a file under /verif/replays."""
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, SEED, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, replay=replay), f)
        self.violations.append((what, path))

    def finish(self):
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=self.coverage, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
        for what, path in self.violations[:20]:
            print("  " + what[:1500])
        for what, path in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s: %s in %.1f s" % (self.prop, "VIOLATED" if self.violations else "held", time.time() - self.t0))
        return 1 if self.violations else 0
