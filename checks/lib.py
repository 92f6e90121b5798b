"""Orchestration shared by all checks: runs TLC, Quint and the drivers, judges, reports."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
REPO = os.environ.get("REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Machinery(Exception):
    """ The check itself failed (neither held nor violated). """


def pick(quick, thorough):
    return thorough if THOROUGH else quick


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
        import atexit
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


_counter = [0]


def temp(name):
    _counter[0] += 1
    return os.path.join(scratch(), "{}-{}".format(_counter[0], name))


# ---------------------------------------------------------------- TLC

class Tlc(object):
    def __init__(self, output, code):
        self.output, self.code = output, code
        self.printed = []
        for line in output.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                try:
                    self.printed.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        m = re.search(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", output)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", output)
        if m:
            self.generated = int(m.group(1))
        self.violated = "is violated" in output or "Temporal properties were violated" in output


def tlc(module, cfg=None, env=None, workers=4, args=(), timeout=600, expect_ok=True, heap="2g",
        constants=None):
    """ Run TLC; `constants` overrides CONSTANT assignments of the configuration. """
    cfg_path = os.path.join(SPECS, cfg or module + ".cfg")
    if constants:
        text = open(cfg_path).read()
        for key, value in constants.items():
            text, n = re.subn(r"(\b{}\s*(?:=|<-)\s*)\S+".format(re.escape(key)),
                              lambda m: m.group(1) + str(value), text)
            if not n:
                raise Machinery("no constant {} in {}".format(key, cfg_path))
        cfg_path = temp(os.path.basename(cfg_path))
        with open(cfg_path, "w") as f:
            f.write(text)
    meta = temp("meta")
    os.mkdir(meta)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + scratch(), "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "-DTLA-Library=" + SPECS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg_path] + list(args) + [os.path.join(SPECS, module + ".tla")]
    full = dict(os.environ)
    full.update(env or {})
    try:
        proc = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=full,
                              timeout=timeout, cwd=scratch(), text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on {}".format(module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    result = Tlc(proc.stdout, proc.returncode)
    if expect_ok and proc.returncode != 0:
        raise Machinery("TLC failed on {} ({}):\n{}".format(module, proc.returncode, proc.stdout[-3000:]))
    return result


def design_check(module, cfg=None, constants=None, timeout=600, workers=4, heap="3g"):
    """ Exhaustive check of the design; a violation there is a defect of the specification. """
    return tlc(module, cfg, constants=constants, timeout=timeout, workers=workers, heap=heap)


def generate(module, cfg, num, depth, constants=None, seed=None, timeout=300, env=None):
    """ Scenarios printed by a generation configuration in simulation mode. """
    result = tlc(module, cfg, constants=constants, workers=1, timeout=timeout, expect_ok=False, env=env,
                 args=["-simulate", "num={}".format(num), "-depth", str(depth),
                       "-seed", str(SEED if seed is None else seed)])
    if not result.printed:
        raise Machinery("no scenarios from {}:\n{}".format(module, result.output[-3000:]))
    return result.printed, result


def enumerate_scenarios(module, cfg, constants=None, timeout=300, workers=1):
    result = tlc(module, cfg, constants=constants, workers=workers, timeout=timeout)
    if not result.printed:
        raise Machinery("no scenarios from {}:\n{}".format(module, result.output[-3000:]))
    return result.printed, result


def validate(module, traces, cfg=None, timeout=600, heap="3g", env=None):
    """ Validate recorded traces against a trace specification. """
    path = temp("traces.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    full = dict(TRACES=path)
    full.update(env or {})
    result = tlc(module, cfg, env=full, workers=1, timeout=timeout, heap=heap)
    rejects = [p for p in result.printed if isinstance(p, dict) and "reject" in p]
    return rejects, result


# ---------------------------------------------------------------- Quint

def quint(spec, main=None, n_traces=20, max_steps=10, seed=None, invariant=None, init="init", step="step",
          timeout=600, max_samples=None):
    """ Behaviours of a Quint specification as decoded ITF traces. """
    directory = temp("itf")
    os.mkdir(directory)
    cmd = ["quint", "run", os.path.join(SPECS, spec), "--mbt", "--out-itf", os.path.join(directory, "t_{seq}.itf.json"),
           "--n-traces", str(n_traces), "--max-samples", str(max_samples or n_traces), "--max-steps", str(max_steps),
           "--seed", str(SEED if seed is None else seed), "--init", init, "--step", step, "--verbosity", "1"]
    if main:
        cmd += ["--main", main]
    if invariant:
        cmd += ["--invariant", invariant]
    try:
        proc = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                              cwd=scratch())
    except subprocess.TimeoutExpired:
        raise Machinery("quint timed out on {}".format(spec))
    if proc.returncode != 0:
        raise Machinery("quint failed on {} ({}):\n{}".format(spec, proc.returncode, proc.stdout[-3000:]))
    traces = []
    for name in sorted(os.listdir(directory)):
        with open(os.path.join(directory, name)) as f:
            traces.append([itf(state) for state in json.load(f)["states"]])
    shutil.rmtree(directory)
    if not traces:
        raise Machinery("quint gave no traces for {}:\n{}".format(spec, proc.stdout[-2000:]))
    return traces


def itf(value):
    if isinstance(value, dict):
        if "#bigint" in value:
            return int(value["#bigint"])
        if "#set" in value:
            return [itf(v) for v in value["#set"]]
        if "#tup" in value:
            return [itf(v) for v in value["#tup"]]
        if "#map" in value:
            return [[itf(k), itf(v)] for k, v in value["#map"]]
        return {k.split("::")[-1]: itf(v) for k, v in value.items() if k != "#meta"}
    if isinstance(value, list):
        return [itf(v) for v in value]
    return value


# ---------------------------------------------------------------- values

class Names(object):
    """ Tokens for vectors, across all recorded traces. """

    def __init__(self, rtol=1e-9, floor=1e-3):
        self.buckets, self.n, self.rtol, self.floor = {}, 0, rtol, floor

    def __call__(self, vector):
        if vector is None:
            return ""
        if not all(math.isfinite(v) for v in vector):
            return "nonfinite"
        # vectors that agree up to the tolerance lie in the same or in neighbouring cells
        x = sum(v * (1. + 0.37 * (i % 3)) for i, v in enumerate(vector))
        width = 1000 * self.rtol * max(1, len(vector)) * (self.floor + max([abs(v) for v in vector] or [0]))
        # the cell size is a power of two; the neighbouring powers are searched as well
        level = math.floor(math.log2(width))
        for l in (level - 1, level, level + 1):
            near = math.floor(x / 2. ** l)
            for k in (near - 1, near, near + 1):
                for known, name in self.buckets.get((len(vector), l, k), ()):
                    if all(abs(a - b) <= self.rtol * (self.floor + abs(a)) for a, b in zip(known, vector)):
                        return name
        self.n += 1
        name = "v{}".format(self.n)
        self.buckets.setdefault((len(vector), level, math.floor(x / 2. ** level)), []).append((vector, name))
        return name


# ---------------------------------------------------------------- drivers

class DriverDied(Exception):
    pass


def project_python():
    return "/opt/venv/bin/python"


def driver_env():
    env = dict(
        HOME=os.environ.get("HOME", "/root"), PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONPATH="/opt/vp/plugins:" + HARNESS, PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1", TF_USE_LEGACY_KERAS="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
        TF_ENABLE_ONEDNN_OPTS="0", MPLBACKEND="Agg", REPO=REPO, OMP_NUM_THREADS="1",
        VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    return env


def start_driver(name, job):
    job_path, out_path, err_path = temp("job.json"), temp("result.json"), temp("stderr")
    with open(job_path, "w") as f:
        json.dump(job, f)
    err = open(err_path, "w")
    proc = subprocess.Popen([project_python(), os.path.join(HARNESS, name + ".py"), job_path, out_path],
                            stdout=err, stderr=err, env=driver_env(), cwd=scratch())
    err.close()
    return dict(proc=proc, out=out_path, err=err_path, name=name)


def finish_driver(d, timeout):
    try:
        code = d["proc"].wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        d["proc"].kill()
        d["proc"].wait()
        raise DriverDied("driver {} did not finish within {} s".format(d["name"], timeout))
    if code != 0 or not os.path.exists(d["out"]):
        tail = open(d["err"], errors="replace").read()[-3000:]
        # an exception that escapes from the code under test (where none may) is a violation of what was exercised
        error = DriverDied if code > 0 else Machinery
        raise error("driver {} failed ({}):\n{}".format(d["name"], code, tail))
    with open(d["out"]) as f:
        return json.load(f)


def run_driver(name, job, timeout=600):
    return finish_driver(start_driver(name, job), timeout)


def run_scenarios(name, scenarios, common=None, jobs=4, timeout=600):
    """ Replay scenarios in parallel driver processes; each gives one record per scenario. """
    jobs = max(1, min(jobs, len(scenarios)))
    parts = [scenarios[i::jobs] for i in range(jobs)]
    started = [start_driver(name, dict(common or {}, scenarios=part)) for part in parts]
    results = []
    deadline = time.time() + timeout
    error = None
    for d in started:
        try:
            results.extend(finish_driver(d, max(1, deadline - time.time())))
        except (DriverDied, Machinery) as e:
            error = error or e
            for other in started:
                if other["proc"].poll() is None:
                    other["proc"].kill()
    if error:
        raise error
    order = {s["id"]: i for i, s in enumerate(scenarios)}
    return sorted(results, key=lambda r: order[r["id"]])


# ---------------------------------------------------------------- verdicts

def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


class Check(object):
    def __init__(self, prop, level, assumptions=()):
        self.prop, self.level = prop, level
        self.start = time.time()
        self.violations, self.known = [], {}
        self.coverage = {}
        self.assumptions = list(assumptions)
        self.findings = [k for k in known_findings()["findings"] if k["property"] == prop]

    def violation(self, what, detail, key=None):
        """ `key` identifies the failing input/history for the list of known findings. """
        for finding in self.findings:
            if key is not None and re.fullmatch(finding["match"], key):
                self.known.setdefault(finding["id"], finding)
                return
        self.violations.append(dict(what=what, key=key, detail=detail))

    def rejects(self, rejects, traces, prefixes=None, key=None):
        """ Turn rejected trace events into violations (first event of each trace). """
        by_id = {t["id"]: t for t in traces}
        seen = set()
        for r in rejects:
            clauses = [c for c in r["clauses"]
                       if prefixes is None or any(c.startswith(p) for p in prefixes)]
            if not clauses or r["reject"] in seen:
                continue
            trace = by_id[r["reject"]]
            remaining = []
            for c in clauses:
                k = key(c, trace, r["event"]) if key else c
                before = len(self.violations)
                self.violation("clause {}".format(c), dict(trace=trace, event=r["event"], clause=c), k)
                remaining += self.violations[before:]
            if remaining:
                seen.add(r["reject"])

    def count(self, **kwargs):
        for k, v in kwargs.items():
            self.coverage[k] = self.coverage.get(k, 0) + v

    def set(self, **kwargs):
        self.coverage.update(kwargs)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evidence = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                        level=self.level, coverage=self.coverage, assumptions=self.assumptions,
                        wall_s=round(time.time() - self.start, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
        for finding in self.known.values():
            print("KNOWN-FINDING: property={} {}".format(self.prop, finding["what"]))
        if self.violations:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            path = os.path.join(OUT, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  {}: {}".format(self.prop, v["what"]))
                print("    " + json.dumps(v["detail"], default=str)[:600])
            print("VIOLATION property={} replay={}".format(self.prop, path))
            sys.stdout.flush()
            return 1
        print("OK property={} tier={} wall={:.1f}s {}".format(
            self.prop, TIER, time.time() - self.start,
            {k: v for k, v in self.coverage.items() if isinstance(v, int)}))
        return 0


def main(run):
    """ Run a check function and map every outcome to an exit code. """
    try:
        code = run()
    except DriverDied as e:
        # the code under test hung or broke the driver: that is a violation of whatever was being exercised
        prop = sys.argv[1]
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        path = os.path.join(OUT, "replay", prop + ".json")
        with open(path, "w") as f:
            json.dump([dict(what=str(e))], f)
        print(str(e))
        print("VIOLATION property={} replay={}".format(prop, path))
        code = 1
    except Machinery as e:
        print("CHECK-ERROR: {}".format(e))
        code = 2
    sys.stdout.flush()
    return code
