"""Shared machinery of the checks: building the driver, running scenarios against the real code, running TLC."""
import base64, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = max(2, min(8, os.cpu_count() or 4))
TLCCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOTS = ["/opt/veriftools/go1.27.3/bin"]


class CheckError(Exception):
    """the machinery could not decide (never a violation)"""


def go_env():
    e = {k: v for k, v in os.environ.items() if k not in ("CI", "GITHUB_ACTIONS", "CI_NAME", "CI_APP_ID", "CI_BUILD_ID", "CI_BUILD_NUMBER", "UPDATE_SNAPS", "NO_COLOR", "GOFLAGS", "_", "BUILD_NUMBER", "BUILD_ID", "RUN_ID", "CONTINUOUS_INTEGRATION")}
    e["HOME"] = "/root"
    e["PATH"] = ":".join([p for p in GOROOTS if os.path.isdir(p)] + [e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")])
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    return e


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        os.chmod(self.dir, 0o711)
        self.n = 0

    def new(self, name="d"):
        self.n += 1
        p = os.path.join(self.dir, "%s%d" % (name, self.n))
        os.makedirs(p)
        return p

    def close(self):
        if self.dir.startswith("/tmp/verif-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def write_module(dst, name="verifdrv"):
    gm = open(os.path.join(REPO, "go.mod")).read()
    reqs = "\n".join(re.findall(r"require\s*\(.*?\)|require [^\n(]+", gm, re.S))
    with open(os.path.join(dst, "go.mod"), "w") as f:
        f.write("module %s\n\ngo 1.22\n\nrequire github.com/gkampitakis/go-snaps v0.0.0\n\n%s\n\nreplace github.com/gkampitakis/go-snaps => %s\n" % (name, reqs, REPO))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(dst, "go.sum"))


def build_driver(scr, flags=(), extra=None, overlay=None):
    """compiles the driver against the working tree of /repo; returns the test binary"""
    d = scr.new("drv")
    write_module(d)
    for f in os.listdir(os.path.join(VERIF, "driver")):
        if f.endswith(".go"):
            shutil.copy(os.path.join(VERIF, "driver", f), d)
    for n, c in (extra or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(c)
    out = os.path.join(d, "drv.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + list(flags)
    if overlay:
        cmd += ["-overlay", overlay]
    r = subprocess.run(cmd + ["."], cwd=d, env=go_env(), capture_output=True, text=True, timeout=600)
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError("driver does not build:\n" + (r.stdout + r.stderr)[-4000:])
    return out


# ------------------------------------------------------------------------------------------------ scenarios

def b64(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return base64.b64encode(b).decode()


def vstr(b, rep=0):
    v = {"k": "str", "b": b64(b)}
    if rep:
        v["rep"] = rep
    return v


def vbytes(b):
    return {"k": "bytes", "b": b64(b)}


def vgo(n):
    return {"k": "go", "n": n}


def enc(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return "".join(chr(c) if 0x20 <= c < 0x7f and c != 0x25 else "%%%02x" % c for c in b)


NOBODY = 65534


def give(root, ro):
    """hands a scenario's files to an unprivileged user, who cannot write those under the directories ro"""
    for x in ro:
        os.makedirs(root + x, exist_ok=True)
    for d, ds, fs in os.walk(root):
        frozen = any(d == root + x or d.startswith(root + x + "/") for x in ro)
        for f in [d] + [os.path.join(d, f) for f in fs]:
            os.chown(f, NOBODY, NOBODY, follow_symlinks=False)
            if not os.path.islink(f):
                os.chmod(f, (0o555 if f == d else 0o444) if frozen else (0o755 if f == d else 0o644))


def run_proc(binary, root, planfile, outfile, plan, proc, timeout=120, cwd=None, keepraw=False):
    env = {"PATH": "/usr/bin:/bin", "HOME": "/root", "VERIF_PLAN": planfile, "VERIF_OUT": outfile, "GORACE": "atexit_sleep_ms=0 halt_on_error=0", "TMPDIR": "/tmp"}
    if proc.get("cienv"):
        env.update(proc["cienv"])
    elif proc.get("ci"):
        env["CI"] = "true"
    if proc.get("env") is not None:
        env["UPDATE_SNAPS"] = proc["env"]
    if proc.get("nocolor", False):
        env["NO_COLOR"] = "1"
    env.update(proc.get("xenv", {}))
    args = [binary]
    if proc.get("runflag"):
        args.append("-test.run=" + proc["runflag"])
    if proc.get("count", 1) != 1:
        args.append("-test.count=%d" % proc["count"])
    args += proc.get("args", [])
    plan = dict(plan, root=root, ops=proc["ops"])
    json.dump(plan, open(planfile, "w"))
    if os.path.exists(outfile):
        os.remove(outfile)
    if proc.get("ro"):
        open(outfile, "w").close()
        os.chown(outfile, NOBODY, NOBODY)
    try:
        r = subprocess.run(args, cwd=cwd or root, env=env, capture_output=True, timeout=timeout, **({"user": NOBODY, "group": NOBODY, "extra_groups": []} if proc.get("ro") else {}))
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    proc["_rc"], proc["_stdout"], proc["_stderr"] = r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    if not os.path.exists(outfile) or proc.get("ro") and os.path.getsize(outfile) == 0:
        raise CheckError("driver died (%d): %s" % (r.returncode, (proc["_stdout"] + proc["_stderr"])[-3000:]))
    proc["_races"] = proc["_stderr"].count("WARNING: DATA RACE")
    if r.returncode not in (0, 66) and not proc["_races"]:
        raise CheckError("driver failed (%d): %s" % (r.returncode, (proc["_stdout"] + proc["_stderr"])[-3000:]))
    return json.load(open(outfile)) or []


def special(l):
    if l in (b"", b"---"):
        return True
    if l.endswith(b"-/-/-/") and l[:-6].strip(b"/") == b"":
        return True
    return l[:1] == b"[" and l[-1:] == b"]"


def encline(l):
    if len(l) > 160 and not special(l):
        return "%%line:%d:%s" % (len(l), hashlib.sha1(l).hexdigest())
    return enc(l)


def lines_of(b):
    """abstraction of file content, for files planted by the plan (the same as the driver's)"""
    raw, out, i = b.split(b"\n"), [], 0
    while i < len(raw):
        if special(raw[i]):
            out.append(enc(raw[i]))
            i += 1
            continue
        j = i
        while j < len(raw) and not special(raw[j]):
            j += 1
        if j - i > 40:
            out.append("%%run:%d:%s" % (j - i, hashlib.sha1(b"".join(l + b"\n" for l in raw[i:j])).hexdigest()))
        else:
            out += [encline(l) for l in raw[i:j]]
        i = j
    return out


def cfgrec(c):
    u = c.get("upd")
    return {"dir": "%default" if c.get("dir") is None else enc(c["dir"]), "fn": enc(c.get("fn") or ""), "ext": enc(c.get("ext") or ""),
            "upd": "unset" if u is None else ("true" if u else "false")}


def exec_scenario(binary, root, sc):
    """runs all processes of a scenario; returns the trace (events of Snaps.tla)"""
    os.makedirs(root, exist_ok=True)
    tr = []
    init = []
    for p, b in sc.get("init", {}).items():
        f = root + p
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, "wb").write(b)
        init.append({"p": enc(p), "del": False, "lines": lines_of(b)})
    for f in sc.get("sources", []):     # the test files that the snapshots of the default directory belong to
        shutil.copy(os.path.join(VERIF, "driver", f), root)
    for d in sc.get("initdirs", []):
        os.makedirs(root + d, exist_ok=True)
    for i, proc in enumerate(sc["procs"]):
        if "edit" in proc:
            delta = []
            for p, b in proc["edit"].items():
                f = root + p
                if b is None:
                    os.remove(f)
                    delta.append({"p": enc(p), "del": True, "lines": []})
                else:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    if isinstance(b, tuple):      # a link to a file elsewhere
                        p2, b = "/linked" + p + ".target", b[0]
                        os.makedirs(os.path.dirname(root + p2), exist_ok=True)
                        open(root + p2, "wb").write(b)
                        delta.append({"p": enc(p2), "del": False, "lines": lines_of(b)})
                        if os.path.lexists(f):
                            os.remove(f)
                        os.symlink(root + p2, f)
                    else:
                        open(f, "wb").write(b)
                    delta.append({"p": enc(p), "del": False, "lines": lines_of(b)})
            tr.append({"ev": "edit", "delta": delta})
            continue
        plan = {"cfgs": sc["cfgs"], "full": sc.get("full", False), "tree": sc.get("tree", False), "lazy": sc.get("lazy", False), "docs": sc.get("docs", False), "src": sc.get("src", "")}
        if sc.get("inplace"):   # package-level functions: the default directory is then relative to the working directory
            proc.setdefault("xenv", {})["GOFLAGS"] = "-trimpath"
        if proc.get("ro") is not None:
            give(root, proc["ro"])
        evs = run_proc(sc.get("binary") or binary, root, root + ".plan", root + ".out", plan, proc, cwd=proc.get("cwd") or sc.get("cwd"))
        tr.append({"ev": "start", "ci": bool(proc.get("ci")), "env": proc.get("env") or "", "run": proc.get("run", [])})
        nm = 0
        for e in evs:
            if e["ev"] == "begin":
                continue
            e = fill(e, sc)
            if e["ev"] == "match" and e.get("kind") == "val" and (os.path.normpath(e["dir"]).replace("//", "/") + "/").startswith(tuple(x + "/" for x in proc.get("ro") or ["%"])):
                e["kind"] = "ro"
            tr.append(e)
        if proc["_races"]:
            tr.append({"ev": "race", "report": enc(proc["_stderr"][proc["_stderr"].find("WARNING: DATA RACE"):][:1500])})
        tr.append({"ev": "exit"})
    for p in (".plan", ".out"):
        if os.path.exists(root + p):
            os.remove(root + p)
    return {"clauses": sc["clauses"], "init": init, "ev": tr}


def respell(sc, i):
    """the same directories, spelled otherwise: where a snapshot lives is the same location"""
    forms = ["%s/", "/zz/..%s", "%s/./", "/.%s", "%s/zz/..", "/%s", "%s//"]
    sc["cfgs"] = [dict(c) for c in sc["cfgs"]]
    for k, c in enumerate(sc["cfgs"]):
        d = c.get("dir")
        if d and d.startswith("/d"):
            c["dir"] = forms[(i // 3 + k) % len(forms)] % d.replace("%", "%%") if "%" not in d else d + "/./"
        elif d == "rel":
            c["dir"] = "./zz/../rel/"


def run_scenarios(binary, scr, scs, workers=NCPU, keep=False):
    base = scr.new("scn")

    def one(i):
        root = os.path.join(base, "s%d" % i)
        t = exec_scenario(binary, root, scs[i])
        if not keep:
            shutil.rmtree(root, ignore_errors=True)
        return t

    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, range(len(scs))))


def build_sched(scr, flags=()):
    """the driver with a yield point before every lock and file-system operation of go-snaps (an overlay generated from the
    working tree)"""
    d, o = scr.new("rw"), scr.new("ov")
    src = os.path.join(VERIF, "sched")
    shutil.copy(os.path.join(src, "rewrite.go.txt"), os.path.join(d, "main.go"))
    shutil.copy(os.path.join(src, "sched.go.txt"), os.path.join(o, "sched.go"))
    open(os.path.join(d, "go.mod"), "w").write("module rewrite\n\ngo 1.22\n")
    r = subprocess.run(["go", "run", ".", REPO, o], cwd=d, env=go_env(), capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise CheckError("no overlay:\n" + (r.stdout + r.stderr)[-3000:])
    hook = open(os.path.join(src, "hook.go.txt")).read()
    return build_driver(scr, flags, {"hook.go": hook}, os.path.join(o, "overlay.json")), int(r.stdout.split()[-1])


def fill(e, sc):
    """adds what the plan knows to an event of the driver"""
    if e["ev"] == "match":
        e.update(cfgrec(sc["cfgs"][e["cfg"]]))
        e["src"] = "/" + sc.get("src", "")
        e["t"] = enc(e["t"])
        if sc["cfgs"][e["cfg"]].get("pkg"):
            e["upd"] = "unset"
    elif e["ev"] in ("end", "skip"):
        e["t"] = enc(e["t"])
    return e


def run_conc(binary, root, sc):
    """explores the schedules of one concurrent program; returns the distinct behaviours and what was explored"""
    os.makedirs(root, exist_ok=True)
    proc = dict(sc["proc"], ops=[])
    conc = dict(sc["conc"], init={p: b64(b) for p, b in sc.get("init", {}).items()})
    plan = {"cfgs": sc["cfgs"], "conc": conc, "lazy": True}
    evs = run_proc(binary, root, root + ".plan", root + ".out", plan, proc, timeout=600)
    shutil.rmtree(root, ignore_errors=True)
    init = [{"p": enc(p), "del": False, "lines": lines_of(b)} for p, b in sc.get("init", {}).items()]
    beh, info = [], {}
    for e in evs:
        if e["ev"] == "behaviour":
            if not e["deadlock"]:
                e["trace"] = {"clauses": sc["clauses"], "init": init, "ev": [{"ev": "start", "ci": bool(proc.get("ci")), "env": proc.get("env") or "", "run": []}] + [fill(x, sc) for x in e.pop("events")] + [{"ev": "exit"}]}
            beh.append(e)
        elif e["ev"] in ("systematic", "explored"):
            info.update(e)
    return beh, info


# ------------------------------------------------------------------------------------------------ TLC

def java(args, cwd, env=None, timeout=900, mem="3g", xss="256m"):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + mem, "-Xss" + xss, "-XX:TieredStopAtLevel=4", "-cp", TLCCP, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out: " + " ".join(args))
    return r.returncode, r.stdout + r.stderr


def spec_copy(scr):
    d = scr.new("spec")
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def tlc(scr, module, cfg=None, args=(), env=None, timeout=900, workers=1, mem="3g"):
    d = spec_copy(scr)
    a = ["-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    if cfg:
        a += ["-config", cfg]
    rc, out = java(a + list(args) + [module], d, env, timeout, mem)
    return rc, out


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.search(r"states generated: (\d+)|(\d+) states checked", out)
    return (int(m.group(1) or m.group(2)), 0) if m else (0, 0)


def model_check(scr, module, cfg, args=(), timeout=900, workers=NCPU, mem="6g"):
    """explores a model; any error is an error of the machinery (verdicts come from real code only)"""
    rc, out = tlc(scr, module, cfg, args, timeout=timeout, workers=workers, mem=mem)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise CheckError("model %s/%s fails:\n%s" % (module, cfg, out[-3000:]))
    return stats(out)


FULL = {"InjectiveEscape": True, "StructuralLookup": True, "KeepInReport": True, "LiveByHighest": True}
MC = dict(FULL, Tests=["TestA", "TestB"], Vals="<-CoreVals", Upds=["unset"], Envs=["", "true"], Runs="<-CoreRuns", CIs=[False], Bads=[],
          MaxProcs=2, MaxCalls=2, MaxOps=2, Solo=False, Sorting=[False], Skipping=False, Record=False, Plants="<-NoPlants")


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (list, set)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def cfg_text(consts, spec="MSpec", invs=(), props=(), view=None, extra=""):
    t = "SPECIFICATION %s\n" % spec + ("VIEW %s\n" % view if view else "")
    if invs:
        t += "INVARIANTS %s\n" % " ".join(invs)
    if props:
        t += "PROPERTIES %s\n" % " ".join(props)
    t += "CHECK_DEADLOCK FALSE\n" + extra + "CONSTANTS\n"
    for k, v in consts.items():
        t += "  %s <- %s\n" % (k, v[2:]) if isinstance(v, str) and v.startswith("<-") else "  %s = %s\n" % (k, tla(v))
    return t


MCINV = ["FileIsStore", "Totals"]
MCPROP = ["CallsRight", "OrderKept", "CIReadOnly", "OnlyCleanDeletes", "CleanRight", "CleanIdempotent"]


def explore(scr, module, text, timeout=850, workers=NCPU, mem="8g", expect=None):
    """exhaustive exploration of a model.  expect: name of the invariant/property a deliberately broken model must violate"""
    d = spec_copy(scr)
    open(os.path.join(d, "run.cfg"), "w").write(text)
    rc, out = java(["-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "run.cfg", module], d, None, timeout, mem)
    shutil.rmtree(d, ignore_errors=True)
    if expect:
        if not re.search(r"(Invariant|Action property|Temporal properties?) .*(violated|is violated)", out):
            raise CheckError("the broken variant of %s is not rejected:\n%s" % (module, out[-2000:]))
        return stats(out)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise CheckError("model %s fails:\n%s" % (module, out[-3000:]))
    return stats(out)


def printed(out, tag):
    """values printed by PrintT(<<tag, ToJson(..)>>)"""
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^<<"%s", "(.*)">>$' % tag, out, re.M)]


def generate(scr, module, text, num, depth, seed, timeout=300, tag="SCRIPT"):
    """behaviours of a model, drawn by TLC's simulator"""
    d = spec_copy(scr)
    open(os.path.join(d, "run.cfg"), "w").write(text)
    rc, out = java(["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-metadir", os.path.join(d, "meta"),
                    "-noGenerateSpecTE", "-config", "run.cfg", module], d, None, timeout, "3g")
    shutil.rmtree(d, ignore_errors=True)
    r = printed(out, tag)
    if not r:
        raise CheckError("no behaviours generated by %s:\n%s" % (module, out[-2000:]))
    return r


def weight(t):
    return sum(1 + sum(len(c["lines"]) for c in e.get("delta", [])) + len(e.get("val", [])) for e in t["ev"])


def validate(scr, traces, module="SnapsTrace", cfg="SnapsTrace.cfg", shards=NCPU, timeout=900, mem="2g", weigh=weight):
    """TLC validates recorded traces; returns ([(trace index, event index, mismatches)], states, transitions)"""
    if not traces:
        return [], 0, 0
    order = sorted(range(len(traces)), key=lambda i: -weigh(traces[i]))
    shards = max(1, min(shards, (len(traces) + 1) // 2))
    parts, load = [[] for _ in range(shards)], [0] * shards
    for i in order:
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += weigh(traces[i])

    def one(part):
        d = spec_copy(scr)
        f = os.path.join(d, "traces.json")
        json.dump([traces[i] for i in part], open(f, "w"))
        a = ["-workers", "1", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg, module]
        rc, out = java(a, d, {"TRACE_FILE": f}, timeout, mem)
        m = printed(out, "TRACES")
        if not m or m[-1]["n"] != len(part):
            raise CheckError("TLC did not finish validating:\n" + out[-3000:])
        mis = printed(out, "MISMATCH")
        bad = []
        for k, ev in enumerate(m[-1]["stuck"]):
            if ev:
                bad.append((part[k], ev - 1, [(x["cl"], x["what"], "expected %s, got %s" % (x["expected"][:700], x["got"][:700])) for x in mis if x["tr"] == k + 1 and x["l"] == ev]))
        if not bad and rc != 0:
            raise CheckError("TLC failed while validating:\n" + out[-3000:])
        s = stats(out)
        shutil.rmtree(d, ignore_errors=True)
        return bad, s

    bad, st, tn = [], 0, 0
    with cf.ThreadPoolExecutor(shards) as ex:
        for b, s in ex.map(one, [p for p in parts if p]):
            bad += b
            tn += s[0]
            st += s[1]
    return sorted(bad), st, tn


# ------------------------------------------------------------------------------------------------ verdicts

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.scr = Scratch()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []
        self.viol = []       # (summary, replay data, key)
        self.rnd = random.Random(SEED * 7919 + sum(map(ord, pid)))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def plain(self, x):
        return json.loads(json.dumps(x, default=lambda b: b.decode("latin1") if isinstance(b, bytes) else str(b)))

    def violation(self, summary, data, key=None):
        self.viol.append((summary, data, key))

    def known(self):
        p = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid and k.get("status") == "open"]

    def finish(self):
        """writes the evidence file, prints the verdict, returns the exit code"""
        known = self.known()
        new = []
        seen = {}
        for v in self.viol:
            k = next((k for k in known if v[2] and k["key"] == v[2]), None)
            if k:
                seen[k["key"]] = k
            else:
                new.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        self.cov["known_findings_reproduced"] = len(seen)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        self.scr.close()
        if not new:
            print("OK property=%s wall=%.1fs" % (self.pid, time.time() - self.t0))
            return 0
        for i, (s, data, _) in enumerate(new[:5]):
            p = os.path.join(VERIF, "evidence", "%s.violation.%d.json" % (self.pid, i))
            json.dump({"property": self.pid, "summary": s, "replay": data}, open(p, "w"), indent=1, default=str)
            print("  " + s.replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1

    # -------- the common pipeline
    def traces(self, binary, scs, module="SnapsTrace", cfg="SnapsTrace.cfg", label="scenarios", trs=None, weigh=weight):
        t = time.time()
        if trs is None:
            for i, sc in enumerate(scs):
                if i % 3 == 2 and self.pid != "C11" and "key" not in sc:
                    respell(sc, i)
            trs = run_scenarios(binary, self.scr, scs)
        t1 = time.time()
        bad, st, tn = validate(self.scr, trs, module, cfg, weigh=weigh)
        self.log("%s: %d traces, %d events, run %.1fs, TLC %.1fs, stuck %d" % (label, len(trs), sum(len(x["ev"]) for x in trs), t1 - t, time.time() - t1, len(bad)))
        self.add(states=st, transitions=tn, traces_validated_against_impl=len(trs), events=sum(len(x["ev"]) for x in trs))
        for i in list(range(0, len(trs), max(1, len(trs) // 2)))[:2]:
            self.sample({"scenario": scs[i].get("name", ""), "clauses": scs[i]["clauses"], "events": [{k: (v if not isinstance(v, list) else v[:4]) for k, v in e.items() if k in ("ev", "t", "api", "kind", "val", "nerr", "nadd", "nupd", "touched", "env", "ci", "files", "tests")} for e in trs[i]["ev"][:5]]})
        for i, l, mm in bad:
            ev = trs[i]["ev"][l] if l < len(trs[i]["ev"]) else {}
            what = "; ".join("%s: %s %s" % (a, b, c) for a, b, c in mm) or "event is not a behaviour of the specification"
            s = "%s: trace stops at event %d (%s %s): %s" % (scs[i].get("name", "scenario %d" % i), l, ev.get("ev"), ev.get("t", ""), what)
            sc = {k: v for k, v in scs[i].items() if k != "binary"}
            self.violation(s, {"scenario": json.loads(json.dumps(sc, default=lambda b: b.decode("latin1") if isinstance(b, bytes) else str(b))), "event": l, "observed": ev, "mismatch": mm}, scs[i].get("key"))
        return trs, bad


# ------------------------------------------------------------------------------------------------ generated modules (C11)

LAYOUT = ["", "p", "p/q", "p/q/pkg_test/s"]


def build_layout(scr, flags=()):
    """a module with test packages at several depths; returns (module directory, {package: test binary}, source files)"""
    d = os.path.join(scr.new("mod"), "of 100%d %s")    # a directory of the user's, named by the user
    os.makedirs(d)
    write_module(d)
    src = os.path.join(VERIF, "driver")
    for f in os.listdir(src):
        if f.endswith(".go"):
            shutil.copy(os.path.join(src, f), d)
    os.makedirs(os.path.join(d, "testing"))
    shutil.copy(os.path.join(src, "layout", "runner.go.tmpl"), os.path.join(d, "testing", "runner.go"))
    os.makedirs(os.path.join(d, "x_test.go"))
    open(os.path.join(d, "x_test.go", "helper.go"), "w").write("// Package nested is no test, whatever its directory is called.\npackage nested\n\nfunc Through(f func()) { f() }\n")
    for p in LAYOUT[1:]:
        os.makedirs(os.path.join(d, p), exist_ok=True)
        for f in os.listdir(os.path.join(src, "layout")):
            if f != "runner.go.tmpl":
                t = open(os.path.join(src, "layout", f)).read().replace("PKG", p.split("/")[-1])
                open(os.path.join(d, p, f[:-5]), "w").write(t)
    keep = {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
    bins, bd = {}, scr.new("bin")

    def one(p):
        out = os.path.join(bd, (p or "root").replace("/", "-") + ".test")
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", out] + list(flags) + ["./" + p], cwd=d, env=go_env(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("driver does not build:\n" + (r.stdout + r.stderr)[-4000:])
        return out
    with cf.ThreadPoolExecutor(4) as ex:
        for p, o in zip(LAYOUT, ex.map(one, LAYOUT)):
            bins[p] = o
    return d, bins, keep


def tidy(d, keep):
    for r, ds, fs in os.walk(d, topdown=False):
        for f in fs:
            if os.path.join(r, f) not in keep:
                os.remove(os.path.join(r, f))
        if r != d and not os.listdir(r):
            os.rmdir(r)
