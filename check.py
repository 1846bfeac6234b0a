#!/usr/bin/env python3
"""check.py <property>: decides one property by model checking and trace
validation (see DESIGN.md).  Environment: VERIF_SEED, VERIF_TIER.
Exit 0 held, 1 violated (VIOLATION line), anything else: no answer."""
import concurrent.futures as cf
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(HERE, "tools"))
from jobs import JOBS, LEVEL_ASSUMPTIONS  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout after %ds: %s" % (timeout, " ".join(cmd)[:300]))


def tlc(work, module, cfg, name, workers, timeout, env=None, heap="3g", extra=()):
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(work, "meta-" + name)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    out = os.path.join(work, name + ".log")
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise ToolError("TLC timeout on %s (%s)" % (module, name))
    shutil.rmtree(meta, ignore_errors=True)
    return rc, open(out, errors="replace").read()


def states_of(text):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states", text, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.gen = self.dist = self.events = self.traces = 0
        self.viol = []       # (aspect, family, seed, shard, line number, [lines])
        self.others = {}
        self.samples = []
        self.notes = []
        self.models = []

    # ---------------------------------------------------------------- building
    def build(self, race=False):
        exe = os.path.join(self.work, "driver-race" if race else "driver")
        if os.path.exists(exe):
            return exe
        src = os.path.join(self.work, "src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(HERE, "driver"), src)
            if REPO != "/repo":
                p = os.path.join(src, "go.mod")
                t = open(p).read().replace("/repo", REPO)
                open(p, "w").write(t)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOTOOLCHAIN="local")
        r = run(["go", "build"] + (["-race"] if race else []) + ["-o", exe, "."], 600, cwd=src, env=env)
        if r.returncode != 0:
            raise ToolError("driver does not build:\n" + r.stdout.decode(errors="replace")[-3000:])
        return exe

    # ---------------------------------------------------------------- models
    def model(self, spec, prefer=()):
        """Model-checks one bounded model; its @@T lines become tests."""
        name, cfg = spec["module"], spec.get("cfg", spec["module"] + ".cfg")
        consts = spec.get("thorough" if self.tier == "thorough" else "quick", {})
        path = os.path.join(SPEC, cfg)
        text = open(path).read()
        for k, v in consts.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), text)
            if n != 1:
                raise ToolError("constant %s not in %s" % (k, cfg))
        mine = os.path.join(self.work, "mc-" + os.path.basename(cfg))
        open(mine, "w").write(text)
        emits = spec.get("emits", False)
        rc, out = tlc(self.work, name, mine, "mc-" + name, spec.get("workers", 1 if emits else CORES),
                      spec.get("timeout", 600), heap=spec.get("heap", "6g"))
        if rc != 0 or "No error has been found" not in out:
            bare = "\n".join(l for l in out.split("\n") if "@@T" not in l)
            raise ToolError("model %s is not clean (rc %d):\n%s" % (name, rc, bare[-3000:]))
        g, d = states_of(out)
        self.gen += g
        self.dist += d
        tests = None
        if emits:
            seen = {}
            for l in out.split("\n"):
                if l.startswith('"@@T '):
                    seen[json.loads(l)[4:]] = 1
            tests = sorted(seen)
            cap = spec.get("cap", {}).get(self.tier)
            if cap and len(tests) > cap:
                random.Random(self.seed).shuffle(tests)
                if prefer:      # histories ending in an operation of interest first
                    at = spec.get("last", -1)
                    tests.sort(key=lambda t: json.loads(t)[at]["op"] not in prefer)
                    front = [t for t in tests[:cap * 3 // 4]]
                    rest = tests[cap * 3 // 4:]
                    random.Random(self.seed + 1).shuffle(rest)
                    tests = front + rest
                tests = tests[:cap]
            p = os.path.join(self.work, "tests-" + name)
            with open(p, "w") as f:
                f.write("\n".join(tests) + "\n")
            if tests:
                self.samples.append({"model": name, "test": show(json.loads(tests[len(tests) // 2]))})
            tests = p
        self.models.append({"module": name, "constants": consts, "states": d, "transitions": g,
                            "tests": len(seen) if emits else 0})
        return tests

    # ---------------------------------------------------------------- traces
    def drive(self, job, seed, tests, n, tag, serial=False):
        out = os.path.join(self.work, "tr-" + tag)
        os.mkdir(out)
        exe = self.build(job.get("race", False))
        cmd = [exe, "-fam", job["fam"], "-seed", str(seed), "-out", out, "-n", str(n), "-tier", self.tier,
               "-focus", job.get("focus", self.prop), "-shards", str(job.get("shards", CORES))]
        if tests:
            cmd += ["-tests", tests]
        if serial:
            cmd += ["-serial"]
        env = dict(os.environ, GORACE="halt_on_error=0 exitcode=66", GOTRACEBACK="single")
        r = run(cmd, job.get("timeout", 500), cwd=out, env=env)
        text = r.stdout.decode(errors="replace")
        if job.get("race") and "WARNING: DATA RACE" in text:
            i = text.index("WARNING: DATA RACE")
            if any("go.jsonvalue" in b or "go%2ejsonvalue" in b for b in text[i:].split("WARNING: DATA RACE")[1:]):
                self.viol.append(("data race", job["fam"], seed, "", 0, [text[i:i + 6000]]))
                return out, {}
        if r.returncode == 0 or (r.returncode == 66 and job.get("race")):
            m = re.findall(r'^\{"lines".*\}$', text, re.M)
            return out, (json.loads(m[-1]) if m else {})
        if r.returncode == 9 or "DRIVER-ERROR" in text:
            raise ToolError("driver failed:\n" + text[-3000:])
        if job.get("control"):      # calls side by side: does it also happen one after another?
            if serial:
                raise ToolError("control run failed (%d):\n%s" % (r.returncode, text[-3000:]))
            self.drive(job, seed, tests, n, tag + "c", serial=True)
            kind = "concurrent calls never return" if r.returncode == 7 else "process killed by concurrent calls"
            self.viol.append((kind, job["fam"], seed, "", 0, [text[:6000]]))
            return out, {}
        # the library hung or killed the process: find the call and reproduce it
        j = os.path.join(self.work, "journal-" + tag)
        out2 = out + "-again"
        os.mkdir(out2)
        cmd2 = [x if x != out else out2 for x in cmd] + ["-journal", j]
        r2 = run(cmd2, job.get("timeout", 500) * 2, cwd=out2, env=env)
        if r2.returncode == 0:
            raise ToolError("driver died once (%d) but not again:\n%s" % (r.returncode, text[-3000:]))
        t2 = r2.stdout.decode(errors="replace")
        tail = open(j, errors="replace").read().split("\n")[-4:] if os.path.exists(j) else []
        if "jsonvalue" not in t2 and "HANG" not in t2:
            raise ToolError("driver died by itself:\n" + t2[-3000:])
        kind = "call never returns" if r2.returncode == 7 else "process killed by the library"
        self.viol.append((kind, job["fam"], seed, "", 0, tail + [t2[:3000]]))
        return out, {}

    def validate(self, job, out, seed, tag):
        files = sorted(glob.glob(os.path.join(out, "*.ndjson")))
        files = [f for f in files if os.path.getsize(f) > 0]

        def one(f):
            name = "%s-%s" % (tag, os.path.basename(f)[:-7])
            mod = job["modules"][os.path.basename(f).split("-")[0]] if "modules" in job else job["module"]
            return f, tlc(self.work, mod, mod + ".cfg", name, 1,
                          job.get("tlc_timeout", 700), env={"TRACE": f}, heap=job.get("heap", "3g"))

        problems = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            for f, (rc, text) in ex.map(one, files):
                lines = open(f).read().split("\n")
                if lines and lines[-1] == "":
                    lines.pop()
                g, d = states_of(text)
                self.gen += g
                self.dist += d
                for l in text.split("\n"):
                    if l.startswith('"@@BAD '):
                        d = json.loads(json.loads(l)[6:])
                        for b in d["b"]:
                            p, aspect = b[0], b[1]
                            if p == "TOOL":
                                raise ToolError("trace spec: %s at %s:%d" % (aspect, f, d["l"]))
                            if p != self.prop:
                                if not job.get("any"):
                                    self.others[p] = self.others.get(p, 0) + 1
                                    continue
                                aspect = p + " " + aspect
                            self.viol.append((aspect, job["fam"], seed, os.path.basename(f), d["l"],
                                              session(lines, d["l"])))
                m = re.search(r"@@DONE (\d+)", text)
                if not m or int(m.group(1)) != len(lines):
                    problems.append("%s: %s of %d lines consumed\n%s" % (
                        f, m.group(1) if m else "?", len(lines), text[-2500:]))
                else:
                    self.events += len(lines)
                    k = sum(1 for l in lines if '"op":"reset"' in l[:40])
                    self.traces += k if k else len(lines)
                    if len(self.samples) < 4 and lines:
                        s = lines[len(lines) * 2 // 3]
                        self.samples.append({"trace": os.path.basename(f), "event": show(json.loads(s)) if len(s) < 20000 else s[:500]})
        if problems and not self.viol:
            raise ToolError("trace not fully consumed: " + problems[0])

    def control(self, job, seed, n, tag, before):
        """Drops deviations that the same calls show one after another."""
        mine, self.viol = self.viol[before:], self.viol[:before]
        fixed = [v for v in mine if v[4] == 0]
        rest = [v for v in mine if v[4] != 0]
        seen = set()
        if rest:
            out, _ = self.drive(job, seed, None, n, tag + "s", serial=True)
            self.validate(job, out, seed, tag + "s")
            shutil.rmtree(out, ignore_errors=True)
            seen = {v[0] for v in self.viol[before:]}
            self.viol = self.viol[:before]
            if seen:
                self.notes.append("also without concurrency or history: " + "; ".join(sorted(seen)))
        self.viol += fixed + [v for v in rest if v[0] not in seen]

    def thorough_budget(self):
        return float(os.environ.get("VERIF_BUDGET", "420"))

    def go(self):
        jobs = JOBS[self.prop]
        for i, job in enumerate(jobs):
            tests = None
            with cf.ThreadPoolExecutor(4) as ex:
                b = ex.submit(self.build, job.get("race", False))
                ms = [ex.submit(self.model, m, job.get("prefer", ())) for m in job.get("models", [])]
                for m in ms:
                    t = m.result()
                    tests = t or tests
                b.result()
            rounds = 0
            share = self.thorough_budget() / len(jobs)
            start = time.time()
            while True:
                seed = self.seed + 1000003 * rounds
                tag = "%d-%d" % (i, rounds)
                n = job["n"]
                before = len(self.viol)
                out, _ = self.drive(job, seed, tests if rounds == 0 else None, n, tag)
                self.validate(job, out, seed, tag)
                shutil.rmtree(out, ignore_errors=True)
                if job.get("control") and len(self.viol) > before:
                    self.control(job, seed, n, tag, before)
                rounds += 1
                if self.tier != "thorough" or self.viol:
                    break
                spent = time.time() - start
                if spent + spent / rounds > share or rounds >= job.get("max_rounds", 1000):
                    break
            self.notes.append("%s: %d round(s)" % (job["fam"], rounds))

    # ---------------------------------------------------------------- verdict
    def finish(self):
        known = load_known()
        real, seen = [], []
        for v in self.viol:
            k = next((k for k in known if k["property"] == self.prop and k["aspect"] == v[0]
                      and k["match"] in "\n".join(v[5])), None)
            if k is None:
                real.append(v)
            elif k not in seen:
                seen.append(k)
        for k in seen:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.dist, "transitions": self.gen,
                "traces_validated_against_impl": self.traces, "trace_events": self.events,
                "models": self.models, "samples": self.samples or ["none"],
                "rounds": self.notes,
            },
            "assumptions": LEVEL_ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(real),
        }
        if self.others:
            ev["coverage"]["deviations_of_other_properties"] = self.others
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not real:
            return 0
        d = os.path.join(HERE, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-replay.json" % self.prop)
        aspects = {}
        for v in real:
            aspects[v[0]] = aspects.get(v[0], 0) + 1
        v = min(real, key=lambda v: sum(len(x) for x in v[5]))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "aspects": aspects,
                       "first": {"aspect": v[0], "family": v[1], "seed": v[2], "trace": v[3], "line": v[4],
                                 "readable": [readable(x) for x in v[5]], "raw": v[5]}}, f, indent=1)
        for a, c in sorted(aspects.items(), key=lambda x: -x[1])[:10]:
            log("  %s: %s (%d times)" % (self.prop, a, c))
        log("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def session(lines, l):
    """The line, preceded by the session it belongs to."""
    if '"op":"reset"' not in lines[0][:40]:
        return [lines[l - 1]]
    i = l - 1
    while i > 0 and '"op":"reset"' not in lines[i][:40]:
        i -= 1
    return lines[i:l]


def readable(line):
    try:
        return json.dumps(show(json.loads(line)), ensure_ascii=False)[:4000]
    except Exception:
        return line[:4000]


def show(x):
    if isinstance(x, list) and x and all(isinstance(i, int) and 0 <= i < 256 for i in x):
        b = bytes(x)
        return b.decode("utf-8", "backslashreplace") if len(b) > 1 or b.isalnum() else x
    if isinstance(x, list):
        return [show(i) for i in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return x


def load_known():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) aspect="([^"]*)" match="(.*?)" :: (.*)', l)
            if m:
                res.append(dict(zip(("property", "aspect", "match", "what"), m.groups())))
    return res


def main():
    prop = sys.argv[1]
    c = Check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        try:
            c.go()
        except ToolError as e:
            if not c.viol:
                raise
            log("note:", str(e)[:500])
        rc = c.finish()
    except ToolError as e:
        log("CHECK-ERROR:", e)
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
    if rc == 0:
        log("%s held: %d trace events, %d states, %.1fs" % (prop, c.events, c.dist, time.time() - c.t0))
    sys.exit(rc)


main()
