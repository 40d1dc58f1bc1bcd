"""Common machinery of the checks: running TLC, running drivers, verdicts, evidence."""
import concurrent.futures as cf
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "harness", "drivers")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8
# Everything that runs the code under test does so as an unprivileged user who owns nothing but the
# scratch folder: changed code that removes, replaces or chmods what it is given the name of cannot
# reach a device node or a system file with that.
USER, STRANGER = 65534, 65533


class MachineryError(Exception):
    """Something of ours does not work; never a verdict about the code."""


def tla(v):
    """Python value -> TLA+ text (for constants in a cfg file)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TypeError(v)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cover = {}
        self.mc_runs = []
        self.gen_runs = []
        self.bad = []  # (case, clause, detail)
        self.assumptions = []
        self.ids = itertools.count(1)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def stage(self):
        """a copy of the code, the drivers and the fixtures which the unprivileged user can read"""
        if not hasattr(self, "box"):
            box = os.path.join(self.work, "box")
            os.chmod(self.work, 0o711)
            os.makedirs(box)
            skip = shutil.ignore_patterns("__pycache__", "*.pyc")
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(box, "src"), symlinks=True, ignore=skip)
            shutil.copytree(DRIVERS, os.path.join(box, "harness", "drivers"), ignore=skip)
            shutil.copytree(os.path.join(VERIF, "fixtures"), os.path.join(box, "fixtures"))
            subprocess.run(["chmod", "-R", "a+rX", box], check=True)
            for f in os.listdir(os.path.join(box, "fixtures")):
                self.give(os.path.join(box, "fixtures", f))
            self.box = box
        return self.box

    def give(self, path):
        if os.geteuid() == 0:
            os.chown(path, USER, USER)

    def strangers(self, home):
        """empty files of somebody else, for scenarios about those"""
        pool = home + "-strange"
        os.mkdir(pool)
        if os.geteuid() == 0:
            for i in range(300):
                path = os.path.join(pool, str(i))
                with open(path, "wb"):
                    pass
                os.chown(path, STRANGER, USER)
                os.chmod(path, 0o660)
        self.give(pool)
        return pool

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, args=(), mem="1g"):
        tag = "%s-%d" % (module, next(self.ids))
        d = os.path.join(self.work, tag)
        os.makedirs(d)
        cfgfile = os.path.join(d, "run.cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss128m",
               "-XX:ParallelGCThreads=%d" % max(2, min(4, workers)),
               "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
               "-config", cfgfile, "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE", "-seed", str(self.seed),
               "-deadlock", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        out = p.stdout.decode("utf-8", "replace")
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out)
        m = re.findall(r"(\d[\d,]*) states generated,? \(?[^,]*?,?\)? ?(\d[\d,]*) distinct", out)
        m2 = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen = dist = 0
        if m2:
            gen, dist = (int(x.replace(",", "")) for x in m2[-1])
        return p.returncode, out, gen, dist, d

    def mc(self, module, consts, inv=(), props=(), expect=None, workers=2, timeout=800,
           spec="Spec", defs=None, mem="2g", constraint=None):
        """Model check; expect=None: no error; otherwise the set of names one of which must fail."""
        cfg = ["SPECIFICATION " + spec]
        for k, v in consts.items():
            cfg.append("CONSTANT %s = %s" % (k, tla(v)))
        for k, v in (defs or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        for i in inv:
            cfg.append("INVARIANT " + i)
        for p in props:
            cfg.append("PROPERTY " + p)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        rc, out, gen, dist, d = self.tlc(module, "\n".join(cfg) + "\n", workers=workers,
                                         timeout=timeout, mem=mem)
        violated = re.findall(r"Invariant (\w+) is violated", out)
        violated += re.findall(r"Action property (\w+) is violated", out)
        if "Temporal properties were violated" in out:
            violated.append("temporal")
        ok = "Model checking completed. No error has been found" in out
        label = dict(module=module, constants={k: tla(v) for k, v in consts.items()},
                     definitions=defs or {})
        if expect is None:
            if not ok:
                raise MachineryError("model %s %s does not satisfy its invariants:\n%s"
                                     % (module, consts, out[-3000:]))
            return dict(label, states=dist, transitions=gen, result="no error",
                        checked=list(inv) + list(props))
        if not violated or (expect and not set(violated) & set(expect)):
            raise MachineryError("weakened model %s %s was expected to violate %s, got %s\n%s"
                                 % (module, consts, expect, violated, out[-3000:]))
        return dict(label, states=dist, transitions=gen, result="violates " + violated[0])

    def mc_all(self, jobs, parallel=CORES):
        """jobs: list of kwargs for mc()."""
        with cf.ThreadPoolExecutor(parallel) as ex:
            res = list(ex.map(lambda k: self.mc(**k), jobs))
        for r in res:
            self.mc_runs.append(r)
            self.states += r["states"]
            self.transitions += r["transitions"]
        return res

    def generate(self, module, consts=None, defs=None, env=None, timeout=600, mem="4g", args=(),
                 spec=None, workers=1):
        """Run a generator spec that serialises its scenarios to IOEnv.OUT."""
        out_file = os.path.join(self.work, "scen-%d.json" % next(self.ids))
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        for k, v in (consts or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, tla(v)))
        for k, v in (defs or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        e = {"OUT": out_file, "SEED": str(self.seed), "TIER": self.tier}
        e.update(env or {})
        rc, out, gen, dist, d = self.tlc(module, "\n".join(cfg) + "\n", env=e, timeout=timeout,
                                         mem=mem, args=args, workers=workers)
        if not os.path.exists(out_file):
            raise MachineryError("generator %s wrote nothing:\n%s" % (module, out[-3000:]))
        with open(out_file) as f:
            scen = json.load(f)
        self.gen_runs.append(dict(module=module, scenarios=len(scen)))
        return scen

    # -------------------------------------------------------------- drivers
    def drive(self, driver, scenarios, env=None, shards=CORES, timeout=800, extra=(), user=None):
        """Replay scenarios into the real code; returns the recorded events, in order."""
        if not scenarios:
            raise MachineryError("no scenarios for " + driver)
        shards = max(1, min(shards, len(scenarios)))
        parts = [scenarios[i::shards] for i in range(shards)]
        d = os.path.join(self.work, "drive-%d" % next(self.ids))
        os.makedirs(d)
        box = self.stage()
        self.give(d)
        drop = dict(user=USER, group=USER, extra_groups=[]) if os.geteuid() == 0 else {}

        def one(i):
            sfile = os.path.join(d, "s%d.json" % i)
            tfile = os.path.join(d, "t%d.json" % i)
            home = os.path.join(d, "home%d" % i)
            os.makedirs(home)
            self.give(home)
            with open(sfile, "w") as f:
                json.dump(parts[i], f)
            e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home,
                 "PYTHONPATH": os.path.join(box, "src"), "PYTHONDONTWRITEBYTECODE": "1",
                 "PYTHONPYCACHEPREFIX": "/nonexistent", "PYTHONHASHSEED": str(self.seed % 1000),
                 "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "VERIF_SEED": str(self.seed),
                 "VERIF_TIER": self.tier, "TMPDIR": d, "SHARD": str(i)}
            e.update(env or {})
            if driver == "dir_driver.py":
                e["STRANGERS"] = self.strangers(home)
            try:
                p = subprocess.run([PY, os.path.join(box, "harness", "drivers", driver), sfile, tfile, *extra],
                                   env=e, cwd=home, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=timeout, **drop)
            except subprocess.TimeoutExpired:
                raise MachineryError("driver %s timed out" % driver)
            if p.returncode != 0 or not os.path.exists(tfile):
                raise MachineryError("driver %s failed (%s):\n%s" % (
                    driver, p.returncode, p.stdout.decode("utf-8", "replace")[-3000:]))
            with open(tfile) as f:
                return json.load(f)

        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        out = []
        for r in res:
            out.extend(r)
        return out

    # ----------------------------------------------------------- validation
    def validate(self, module, cases, consts=None, defs=None, shards=CORES, timeout=800,
                 mem="2g", describe=None):
        """cases: list of {"id":…, …}; module reads IOEnv.TRACE and writes IOEnv.VERDICT
        = [consumed |-> n, bad |-> <<[case, clause, info]…>>]."""
        if not cases:
            raise MachineryError("nothing to validate for " + module)
        shards = max(1, min(shards, (len(cases) + 19) // 20))
        parts = [cases[i::shards] for i in range(shards)]
        d = os.path.join(self.work, "val-%d" % next(self.ids))
        os.makedirs(d)
        cfg = ["SPECIFICATION TraceSpec"]
        for k, v in (consts or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, tla(v)))
        for k, v in (defs or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        cfg = "\n".join(cfg) + "\n"

        def one(i):
            tfile = os.path.join(d, "t%d.json" % i)
            vfile = os.path.join(d, "v%d.json" % i)
            with open(tfile, "w") as f:
                json.dump(parts[i], f)
            rc, out, gen, dist, _ = self.tlc(module, cfg, env={"TRACE": tfile, "VERDICT": vfile},
                                             workers=1, timeout=timeout, mem=mem)
            if not os.path.exists(vfile):
                raise MachineryError("trace validation %s gave no verdict:\n%s"
                                     % (module, out[-4000:]))
            with open(vfile) as f:
                v = json.load(f)
            if v.get("consumed") != len(parts[i]):
                raise MachineryError("trace validation %s consumed %s of %s"
                                     % (module, v.get("consumed"), len(parts[i])))
            return v, gen, dist

        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        bad = []
        for v, gen, dist in res:
            self.states += dist
            self.transitions += gen
            bad.extend(v["bad"])
        self.traces += len(cases)
        byid = {c["id"]: c for c in cases}
        for b in bad:
            self.bad.append(dict(clause=b["clause"], case=byid.get(b["case"], {"id": b["case"]}),
                                 info=b.get("info", ""), module=module))
        return bad

    def fail(self, clause, case, info=""):
        self.bad.append(dict(clause=clause, case=case, info=info, module="harness"))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000] + "...")

    # -------------------------------------------------------------- finish
    def known(self):
        """open findings of this property: list of (clause, key)."""
        res = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"open: property=(\S+) clause=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3), m.group(4)))
        return res

    def finish(self):
        known = self.known()
        reported, hit = [], []
        for b in self.bad:
            for clause, key, text in known:
                if b["clause"] == clause and key == str(b["case"].get("key", "")):
                    if (clause, key) not in hit:
                        hit.append((clause, key))
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
                    break
            else:
                reported.append(b)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples,
                   model_runs=self.mc_runs, generators=self.gen_runs)
        cov.update(self.cover)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(reported))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if reported:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            byclause = {}
            for b in reported:
                byclause.setdefault(b["clause"], []).append(b)
            for n, (clause, bs) in enumerate(sorted(byclause.items()), 1):
                rp = os.path.join("replay", "%s-%s.json" % (self.prop, re.sub(r"\W+", "_", clause)))
                with open(os.path.join(VERIF, rp), "w") as f:
                    json.dump(dict(property=self.prop, clause=clause, tier=self.tier,
                                   seed=self.seed, count=len(bs), cases=bs[:20]), f, indent=1)
                print("VIOLATION property=%s replay=%s clause=%s count=%d first=%s" % (
                    self.prop, rp, clause, len(bs), str(bs[0]["case"].get("id"))))
        print("%s %s seed=%d: %d model states, %d traces validated, %d violations, %.1fs" % (
            self.prop, self.tier, self.seed, self.states, self.traces, len(reported),
            time.time() - self.t0))
        return 1 if reported else 0

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("work directory kept: " + self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def main(prop, run):
    c = Check(prop)
    try:
        run(c)
        rc = c.finish()
    except MachineryError as e:
        print("MACHINERY-ERROR %s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    finally:
        c.close()
    sys.exit(rc)
