"""Builds the harness from /repo, runs TLC, executes scenarios on the real code, and has TLC validate what it did."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something is wrong with the check, its tools, or its environment; no statement about the property."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


def quick():
    return TIER != "thorough"


# ---------------------------------------------------------------------------------------------------------- build
def build_env(target):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN="nightly-2019-01-15", PATH="/root/.cargo/bin:" + env.get("PATH", ""),
               CARGO_HOME=os.path.join(BUILD, "cargo-home"), CARGO_TARGET_DIR=os.path.join(BUILD, target),
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
               RUST_BACKTRACE="0")
    return env


def cargo_build(crate, args=()):
    """Build /verif/<crate> (which depends on /repo by path) and return the directory of its products."""
    d = os.path.join(VERIF, crate)
    os.makedirs(os.path.join(BUILD, "cargo-home"), exist_ok=True)
    t = time.time()
    p = subprocess.run(["cargo", "build", "--locked"] + list(args), cwd=d, env=build_env(crate),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise ToolError("cargo build of %s failed:\n%s" % (crate, p.stdout.decode("utf8", "replace")[-4000:]))
    log("built %s in %.1f s" % (crate, time.time() - t))
    return os.path.join(BUILD, crate, "release" if "--release" in args else "debug")


# ------------------------------------------------------------------------------------------------------------ TLC
class Tlc:
    """The result of a run of TLC."""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.ok = rc == 0
        rest = "\n".join(l for l in out.splitlines() if not l.startswith('"'))
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", rest)
        self.generated, self.distinct = (tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        m = re.findall(r"Progress: (\d[\d,]*) states checked, (\d[\d,]*) traces generated", rest)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
        m = re.findall(r"The number of states generated: (\d[\d,]*)", rest)
        if m:
            self.generated = max(self.generated, int(m[-1].replace(",", "")))

    def printed(self, tag):
        """The JSON values printed by PrintT(tag \\o ToJson(..))"""
        r, pre = [], '"%s ' % tag
        for l in self.out.splitlines():
            if l.startswith(pre):
                r.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return r

    def scenarios(self):
        """The scenarios that were printed, in a reproducible order, not decoded yet"""
        return sorted(set(l for l in self.out.splitlines() if l.startswith('"SCENARIO ')))

    def errors(self):
        ls = [l for l in self.out.splitlines() if not l.startswith('"')]
        i = [k for k, l in enumerate(ls) if l.startswith("Error") or "Exception" in l]
        return "\n".join(x for k in i[:6] for x in ls[k:k + 6])[:3000] + "\n...\n" + "\n".join(ls)[-1500:]


def cfg(constants=(), spec="Spec", invariants=(), constraint=None, postcondition=None, view=None, properties=()):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec if spec else ""
    d = dict(constants)
    if d:
        s += "CONSTANTS\n" + "".join("    %s = %s\n" % kv for kv in d.items())
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for i in properties:
        s += "PROPERTY %s\n" % i
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    if postcondition:
        s += "POSTCONDITION %s\n" % postcondition
    if view:
        s += "VIEW %s\n" % view
    return s


def tlc(module, config, workers=NCPU, env=None, simulate=None, depth=None, timeout=None, mem="6g", expect_ok=True):
    d = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    timeout = timeout or (800 if quick() else 3000)
    try:
        c = os.path.join(d, module + ".cfg")
        open(c, "w").write(config)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d,
               "-workers", str(workers), "-fp", "7", "-seed", str(SEED), "-config", c]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd + [os.path.join(SPEC, module + ".tla")], cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
        r = Tlc(p.stdout.decode("utf8", "replace"), p.returncode, time.time() - t)
        if expect_ok and not r.ok:
            raise ToolError("TLC on %s (exit %d):\n%s" % (module, r.rc, r.errors()))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------------------------------- one property
def cpu(pid):
    """Seconds of processor time a process has used."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def watch(p, trace):
    """Wait for a process that writes a trace.  It hangs when it computes for long, or waits for very long, without
    another event; how long all of it takes doesn't matter."""
    size, busy, since = 0, 0.0, time.time()
    while True:
        try:
            return p.wait(timeout=0.2)
        except subprocess.TimeoutExpired:
            pass
        n = os.path.getsize(trace)
        if n != size:
            size, busy, since = n, cpu(p.pid), time.time()
        elif cpu(p.pid) - busy > 90 or time.time() - since > 400:
            p.kill()
            p.wait()
            return "hang"


class Check:
    def __init__(self, pid):
        self.one_process = False
        self.pid, self.t0 = pid, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "models": [], "samples": [], "operations": {}, "outcomes": {}}
        self.assumptions = []
        self.violations = []
        self.tmp = None
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="check-", dir=BUILD)
        self.rnd = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self._bins = {}

    # -- tools
    def bin(self, crate, name=None, args=()):
        key = (crate,) + tuple(args)
        if key not in self._bins:
            self._bins[key] = cargo_build(crate, args)
        return os.path.join(self._bins[key], name or crate)

    def model(self, module, constants, invariants, what, sim=None, depth=None, spec="Spec", emit=True, constraint=None, **kw):
        """Check a model with TLC; returns the scenarios that it printed."""
        c = dict({"Mutation": "{}"}, **constants) if constants.get("Mutation", 1) else dict(constants)
        if c.get("Mutation") is None:
            c.pop("Mutation", None)
        inv = list(invariants) + (["Emit"] if emit else [])
        r = tlc(module, cfg(c, spec=spec, invariants=inv, constraint=constraint, properties=kw.pop("properties", ()),
                            view=kw.pop("view", None)), simulate=sim, depth=depth, workers=1 if sim else NCPU, **kw)
        sc = r.scenarios()
        log("%s %s: %d states, %d scenarios, %.1f s" % (module, "simulated" if sim else "checked", r.generated, len(sc), r.wall))
        self.cov["states"] += r.distinct if not sim else r.generated
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"module": module, "constants": {k: str(v) for k, v in c.items()}, "mode": "simulate" if sim else "exhaustive",
                                   "states": r.distinct if not sim else r.generated, "invariants": list(invariants), "scenarios": len(sc), "what": what})
        return sc

    def mutants(self, module, constants, invariants, muts, **kw):
        """Every named deviation of the specification must violate an invariant of the model (is it sensitive?)."""
        for m in muts:
            c = dict(constants, Mutation='{"%s"}' % m)
            r = tlc(module, cfg(c, invariants=invariants), expect_ok=False, **kw)
            if r.rc != 12:
                raise ToolError("model %s does not notice the deviation %s (exit %d)\n%s" % (module, m, r.rc, r.errors()))
            self.cov.setdefault("model_mutants_detected", []).append("%s/%s" % (module, m))

    def sample(self, scenarios, n):
        """At most n of the scenarios, decoded."""
        r = scenarios if len(scenarios) <= n else [scenarios[i] for i in sorted(self.rnd.sample(range(len(scenarios)), n))]
        return [json.loads(json.loads(l)[9:]) for l in r]

    def replay_path(self, obj):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(os.listdir(d))))
        json.dump(obj, open(p, "w"), indent=1)
        return p

    def violate(self, what, obj):
        p = self.replay_path(dict(obj, property=self.pid, what=what, seed=SEED))
        self.violations.append((what, p))

    # -- execution and validation of scenarios of the register machine
    def run_sharded(self, scenarios, argv, mode=None):
        """Run the harness on the scenarios, several processes at once; returns [(scenarios, trace lines, return code)]."""
        n = 1 if self.one_process else max(1, min(NCPU, len(scenarios)))
        shards = [scenarios[i::n] for i in range(n)]
        modes = [mode or ("plain" if n < 4 or i < n - 2 else "threads" if i == n - 2 else "parallel") for i in range(n)]

        def one(i):
            sf, tf, ef = [os.path.join(self.tmp, x + str(i)) for x in ("sc", "tr", "er")]
            with open(sf, "w") as f:
                for s in shards[i]:
                    f.write(json.dumps(s) + "\n")
            open(tf, "w").close()
            with open(ef, "w") as err:
                p = subprocess.Popen(argv(sf, tf, SEED * 8 + i) + [modes[i]], stdout=subprocess.DEVNULL, stderr=err)
                rc = watch(p, tf)
            if rc == 3:
                raise ToolError("harness: " + open(ef, errors="replace").read()[-2000:])
            lines = [l for l in open(tf, errors="replace").read().split("\n")]
            return shards[i], [l for l in lines[:-1] if l], rc, modes[i]

        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(one, range(n)))

    def replay(self, scenarios, what, **kw):
        """Execute scenarios on the real code, and let TLC decide whether the specification allows what it did."""
        batch, size = [], 0
        for s in scenarios:
            batch.append(s)
            size += len(s["ops"]) if "ops" in s else 10
            if size >= 120000:
                self.replay_batch(batch, what, **kw)
                batch, size = [], 0
                if self.violations:
                    return
        if batch or not scenarios:
            self.replay_batch(batch, what, **kw)
        # A part of them again in an optimised build, without assertions and checks for overflows
        if not quick() and not self.violations and kw.get("crate", "harness") == "harness" and not kw.get("args") and not kw.get("mode"):
            some = self.rnd.sample(scenarios, max(1, min(len(scenarios), len(scenarios) * 30000 // (1 + sum(len(s.get("ops", ())) for s in scenarios)))))
            self.replay_batch(some, what + ", in an optimised build", **dict(kw, args=("--release",)))

    def replay_batch(self, scenarios, what, module="MachineTrace", command="machine", constants=None, crate="harness", args=(),
                     trace_timeout=None, invariants=(), mode=None):
        if not scenarios:
            raise ToolError("no scenarios for " + what)
        exe = self.bin(crate, args=args)
        stm = os.path.join(self.tmp, "statements.json")
        if not os.path.exists(stm):
            tlc("Export", "", env={"OUT": stm}, workers=1)
        t = time.time()
        res = self.run_sharded(scenarios, lambda sf, tf, seed: [exe, command, stm, sf, tf, str(seed)], mode)
        t1 = time.time()
        all_lines, where, skip = [], [], False
        for shard, lines, rc, how in res:
            evs = [json.loads(l) for l in lines]
            starts = [i for i, e in enumerate(evs) if e["op"] == "reset"] + [len(evs)]
            for k in range(len(starts) - 1):
                for j in range(starts[k], starts[k + 1]):
                    all_lines.append(lines[j])
                    where.append((shard[evs[starts[k]]["sc"]], j - starts[k], how, (shard, evs[starts[k]]["sc"])))
                    e = evs[j]
                    if e["op"] != "reset":
                        self.cov["operations"][e["op"]] = self.cov["operations"].get(e["op"], 0) + 1
                        for r in (e["res"] if isinstance(e.get("res"), list) else [e.get("res", "-")]):
                            self.cov["outcomes"][r] = self.cov["outcomes"].get(r, 0) + 1
            if rc != 0:
                k = len(starts) - 2
                fail = "does not terminate" if rc == "hang" else "crashes the process (%s)" % rc
                obj = {"module": module, "command": command, "crate": crate, "args": list(args), "constants": constants, "mode": how}
                if how == "parallel":
                    self.violate("the code under test %s while scenarios are executed in parallel" % fail, dict(obj, scenarios=shard))
                else:
                    done = starts[k + 1] - starts[k] - 1 if k >= 0 else 0
                    sc = shard[max(k, 0)]
                    ops = sc["ops"]
                    self.violate("the code under test %s in operation %d of a scenario: %s" % (
                        fail, done + 1, json.dumps(ops[done]) if done < len(ops) else "?"), dict(obj, scenario=sc, operation=done + 1))
        tf = os.path.join(self.tmp, "trace.ndjson")
        with open(tf, "w") as f:
            f.write("\n".join(all_lines) + "\n")
        r = tlc(module, cfg(dict({"Mutation": "{}", "Explained": "FALSE"}, **(constants or {})) if module == "MachineTrace" else (constants or {}),
                            postcondition="Accepted", invariants=invariants), env={"TRACE": tf}, expect_ok=False, timeout=trace_timeout or (800 if quick() else 3000), mem="10g")
        rejects = r.printed("REJECT")
        log("%s: %d scenarios, %d events; executed in %.1f s, validated in %.1f s, %d rejected" % (
            what, len(scenarios), len(all_lines), t1 - t, r.wall, len(rejects)))
        if not rejects and not r.ok:
            raise ToolError("TLC on %s (exit %d):\n%s" % (module, r.rc, r.errors()))
        for x in rejects[:5]:
            sc, j, how, history = where[x["reject"] - 1]
            self.violate("%s: the specification refuses operation %d, %s; it expects %s" % (
                what, j, json.dumps(x["event"])[:400], x.get("expected")),
                {"module": module, "command": command, "crate": crate, "args": list(args), "constants": constants, "operation": j, "mode": how, "event": x["event"], "expected": x.get("expected"),
                 **({"history": True, "scenarios": history[0][:history[1] + 1]} if x["event"].get("op") == "past" else {"scenario": sc})})
        self.cov["traces_validated_against_impl"] += len(scenarios)
        self.cov["events_validated"] += len(all_lines)
        self.cov["transitions"] += r.generated
        self.cov["states"] += r.distinct
        s = scenarios[self.rnd.randrange(len(scenarios))]
        self.cov["samples"].append({"what": what, "operations": [" ".join(
            [str(o.get("o", "")) + " :=" if "o" in o else "", o["op"]] + [str(x) for x in o.get("a", [])]).strip() for o in s["ops"]][:60] if "ops" in s else s})
        return res

    # -- the end
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        known = known_findings(self.pid)
        new = 0
        for what, p in self.violations:
            hit = [k for k in known if k in what]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0]))
            else:
                new += 1
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": "quick" if quick() else "thorough", "seed": SEED, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": new}
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        for what, p in self.violations:
            if not [k for k in known if k in what]:
                print("# " + what)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
        log("%s: %s in %.1f s" % (self.pid, "%d violations" % new if new else "held on everything explored", time.time() - self.t0))
        sys.stdout.flush()
        return 1 if new else 0


def known_findings(pid):
    """Lines `known: property=<id> <text>`; lines `fixed: ...` are a record only and suppress nothing."""
    r = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append(m.group(2))
    except FileNotFoundError:
        pass
    return r
