#!/usr/bin/env python3
"""Tests of the machinery itself (not registered as checks).

  selftest.py models            negative variants of the models must violate, the positive ones hold
  selftest.py traces [n]        random single changes of recorded traces must be rejected
  selftest.py fixes [id ...]    every "fix:" commit, reverted in a scratch copy, must be reported
  selftest.py seeded [name ...] every planted bug, applied to a scratch copy
"""
import concurrent.futures as cf
import glob, json, os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(work, module, cfg, name, env=None, workers=4, heap="4g"):
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(work, "meta-" + name), "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=900)
    return r.stdout.decode(errors="replace")


# ------------------------------------------------------------------ models
VARIANTS = [   # module, constants, what must be violated (None: nothing)
    ("MCDefs", {"Concerns": 3, "Calls": 1}, None),
    ("MCDefs", {"Protocol": '"early"'}, "Invariant"),
    ("MCDefs", {"Protocol": '"again"'}, "Invariant"),
    ("MCPredict", {}, None),
    ("MCPredict", {"Capped": "FALSE"}, "Invariant Sane"),
    ("MCOwn", {"Emitting": "FALSE"}, None),
    ("MCOwn", {"Design": '"alias"', "Emitting": "FALSE"}, "Invariant Isolated"),
    ("MCOwn", {"Design": '"rawalias"', "Emitting": "FALSE"}, "Invariant Isolated"),
    ("MCOwn", {"Design": '"pooled"', "Emitting": "FALSE"}, "Invariant Isolated"),
    ("MCOwn", {"Design": '"shallow"', "Emitting": "FALSE"}, "Invariant Isolated"),
]


def models():
    ok = True
    for i, (m, consts, want) in enumerate(VARIANTS):
        with tempfile.TemporaryDirectory(prefix="selftest-") as work:
            text = open(os.path.join(SPEC, m + ".cfg")).read()
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda x: x.group(1) + str(v), text)
                assert n == 1, (m, k)
            cfg = os.path.join(work, "v.cfg")
            open(cfg, "w").write(text)
            out = tlc(work, m, cfg, "v%d" % i)
        clean = "No error has been found" in out
        good = clean if want is None else not clean and want in out
        ok &= good
        print("%-4s %s %s: %s" % ("ok" if good else "BAD", m, consts, "clean" if clean else "violated"), flush=True)
    return ok


# ------------------------------------------------------------------ traces
FAMS = [("text", "TraceText", 300), ("number", "TraceText", 400), ("heap", "TraceHeap", 500), ("mar", "TraceMar", 300),
        ("val", "TraceVal", 400), ("imp", "TraceImp", 300), ("own", "TraceOwn", 150), ("def", "TraceDef", 300)]


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
        yield path, "list"
    else:
        yield path, "atom"


OUTPUTS = {   # what the library produced, by operation; the rest is input
    "txt": ["g"], "deep": ["fl", "e", "same"], "num": ["a", "ok", "p"], "new": ["a", "fs", "p"],
    "get": ["e", "ret", "pan", "d", "g", "same"], "cget": ["e", "ret", "pan", "d"], "set": ["e", "ret", "d"],
    "app": ["e", "ret", "d"], "ins": ["e", "ret", "d"], "del": ["e", "d"], "cdel": ["e", "d"],
    "iter": ["v", "len", "d"], "sort": ["d"], "mar": ["b", "e", "d", "out", "rt", "same", "less", "pan"],
    "imp": ["e", "ret", "d", "t", "pan"], "uj": ["e", "d"], "eq": ["ret", "d"], "clob": ["ob", "sn", "ib"],
    "cmp": ["r", "eq", "qe", "same"], "cnt": ["r", "same"], "acc": ["a", "same"], "b64": ["lit", "back", "gets", "ge", "ok"],
    "ne": ["o"], "exp": ["ea", "eb", "a", "b", "same", "pan"], "unj": ["is", "now", "e", "pan", "ptr"],
    "reset": ["outs"],
}


def change(rnd, x):
    """One small change of an output in a record; returns the place."""
    keys = OUTPUTS.get(x["op"], [])
    ls = [p for p in leaves(x) if p[0] and p[0][0] in keys or x["op"] in ("parse", "into", "copy", "mut", "write", "text") and p[0] and p[0] != ("op",)]
    if not ls:
        return None
    path, kind = rnd.choice(ls)
    o = x
    for k in path[:-1]:
        o = o[k]
    v = o[path[-1]]
    if kind == "list":
        if v and rnd.random() < .5:
            del v[rnd.randrange(len(v))]
        elif v:
            v.append(json.loads(json.dumps(v[rnd.randrange(len(v))])))
        else:
            v.append(48)
    elif isinstance(v, str):
        o[path[-1]] = v + "x"
    else:
        o[path[-1]] = 1 - v if v in (0, 1) else v + rnd.choice([-1, 1])
    return path


def traces(n):
    work = tempfile.mkdtemp(prefix="selftest-")
    try:
        exe = os.path.join(work, "driver")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOTOOLCHAIN="local")
        shutil.copytree(os.path.join(HERE, "driver"), os.path.join(work, "src"))
        subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(work, "src"), env=env, check=True)
        for fam, mod, size in FAMS:
            d = os.path.join(work, fam)
            os.mkdir(d)
            subprocess.run([exe, "-fam", fam, "-n", str(size), "-out", d, "-shards", "4"], cwd=d, check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            f = max(glob.glob(d + "/*.ndjson"), key=os.path.getsize)
            lines = open(f).read().split("\n")[:-1][:400]
            rnd = random.Random(7)
            # many mutants in one trace for stateless families, one per trace otherwise
            jobs = []
            for i in range(n):
                ls = list(lines)
                place = None
                while not place:
                    at = rnd.randrange(len(ls))
                    if len(ls[at]) > 3000 and fam != "def":
                        continue
                    x = json.loads(ls[at])
                    place = change(rnd, x)
                ls[at] = json.dumps(x, separators=(",", ":"))
                jobs.append((i, at, x.get("op"), place, ls))

            def one(j):
                i, at, op, place, ls = j
                t = os.path.join(d, "m%d.nd" % i)
                open(t, "w").write("\n".join(ls) + "\n")
                out = tlc(work, mod, mod + ".cfg", "%s%d" % (fam, i), {"TRACE": t}, 1, "2g")
                return op, place, "@@BAD" in out or "@@DONE %d" % len(ls) not in out

            missed = {}
            with cf.ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(one, jobs))
            for op, place, caught in rs:
                if not caught:
                    k = "%s.%s" % (op, ".".join(str(p) if isinstance(p, str) else "#" for p in place))
                    missed[k] = missed.get(k, 0) + 1
            print("%s: %d of %d changes rejected; missed: %s" % (fam, sum(r[2] for r in rs), len(rs),
                  ", ".join("%s x%d" % kv for kv in sorted(missed.items(), key=lambda kv: -kv[1])[:15]) or "-"), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return True


# ------------------------------------------------------------------ copies
def check(prop, repo):
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], env=dict(os.environ, VERIF_REPO=repo),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
    return r.returncode, r.stdout.decode(errors="replace").strip().split("\n")


def fixes(ids):
    ok = True
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if not m or (ids and m.group(1) not in ids and m.group(2) not in ids):
            continue
        prop, commit, what = m.groups()
        with tempfile.TemporaryDirectory(prefix="selftest-") as work:
            repo = os.path.join(work, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            r = subprocess.run(["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", commit],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print("skip", commit, prop, "does not revert alone:", what, flush=True)
                continue
            rc, out = check(prop, repo)
        good = rc == 1
        ok &= good
        print("%-4s %s %s rc=%d %s | %s" % ("ok" if good else "BAD", commit, prop, rc, what, out[0][:120]), flush=True)
    return ok


def seeded(names):
    ok = True
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        if names and os.path.basename(d) not in names:
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        with tempfile.TemporaryDirectory(prefix="selftest-") as work:
            repo = os.path.join(work, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"], check=True)
            rc, out = check(prop, repo)
        ok &= rc == 1
        print("%-4s %s %s rc=%d | %s" % ("ok" if rc == 1 else "MISS", os.path.basename(d), prop, rc, out[0][:120]), flush=True)
    return ok


if __name__ == "__main__":
    what, rest = (sys.argv[1:2] or ["models"])[0], sys.argv[2:]
    good = {"models": models, "fixes": lambda: fixes(rest), "seeded": lambda: seeded(rest),
            "traces": lambda: traces(int(rest[0]) if rest else 40)}[what]()
    sys.exit(0 if good else 1)
