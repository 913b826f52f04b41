"""One function per property: what is explored on the specification, which behaviours are executed on the real code and
which clauses of the specification judge them."""
import base64, concurrent.futures as cf, copy, itertools, json, os, random, re, sys, zlib
from vlib import *
from gen import *
from docs import *
from diffs import *
import docs, vlib

Q = not THOROUGH


def n(quick, thorough):
    return thorough if THOROUGH else quick


def sub(c, tag):
    return random.Random("%s/%s/%s" % (SEED, c.pid, tag))


def design(c, consts=None, broken=(), invs=MCINV, props=MCPROP, deep=None):
    """explores the specification itself; `broken` are deliberately wrong variants that must be rejected"""
    cs = dict(MC, **(consts or {}))
    if THOROUGH and deep:
        cs.update(deep)
    s, d = explore(c.scr, "SnapsMC", cfg_text(cs, invs=invs, props=props, view="View"))
    c.add(states=d, transitions=s)
    c.add(design_states=d)
    for b in broken:
        explore(c.scr, "SnapsMC", cfg_text(dict(dict(MC, **(consts or {})), **b), invs=invs, props=props, view="View"), expect=True)
        c.add(broken_variants_rejected=1)
    c.log("design model: %d states, %d transitions, %d broken variants rejected" % (d, s, len(broken)))


def behaviours(c, consts, num, r, names=None, weird=True, depth=90):
    g = generate(c.scr, "SnapsMC", cfg_text(dict(MC, Record=True, **consts), invs=["Emit"]), num, depth, r.randrange(1 << 30))
    c.add(behaviours_generated=len(g))
    return [concretise(r, x, names=names, weird=weird) for x in g]


def finish_scs(scs, clauses, name):
    for i, s in enumerate(scs):
        s.setdefault("name", "%s %d" % (name, i))
        s["clauses"] = clauses
    return scs


def clean_op(sort=False, opts=True):
    return {"op": "clean", "opts": opts, "sort": sort}


def proc(ops, **kw):
    return dict({"ops": ops}, **kw)


RO = [dict(ci=True), dict(), dict(env="false"), dict(env="clean"), dict(ci=True, env="true"), dict(nocolor=True)]

# ------------------------------------------------------------------------------------------------ scale

def entry(nm, k, t):
    return b"\n[%s - %d]\n%s\n---\n" % (nm.encode(), k, escape(t))


def scale(r, clauses, kinds, api="S"):
    """the same histories with very long lines, many lines, many calls, many tests and long names: sizes at which an
    implementation could behave differently (buffers, pages, digits of an ordinal)"""
    scs = []
    D, U = 0, 1
    cfgs = [{"dir": "/d1"}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "fn": "shared"}]
    L = [vstr(b"x", rep=5 << 20), vstr(b"lead\n" + b"y" * 70001 + b"\n---\ntail"), vstr(b"z" * 4095 + b"\n" + b"z" * 4096 + b"\n" + b"z" * 4097), vstr(b"\xe2\x82\xac", rep=50000)]
    M = [vstr(b"x\n", rep=66000), vstr(b"\n".join(b"row %d" % i for i in range(66000)) + b"\n---\n/-/-/-/\nend"), vstr(b"\n", rep=3000), vstr(b"---\n", rep=60)]
    V = lambda s: vstr("%s" % s)
    if "long" in kinds:
        for vs in (L, M):
            vs = vs[:]
            r.shuffle(vs)
            cs = [call("S", D, V("first"))] + [call("S", D, v) for v in vs] + [call("S", D, V("last"))]
            P = Prog([("TestA", cs), ("TestB", [call("S", D, V("b")), call("SS", D, vs[0]), call("SS", D, vs[1]), call("SS", D, V("c"))])])
            # every value gives way to another one: shorter, longer, the same length
            rot = {json.dumps(a): b for a, b in zip(vs, vs[1:] + [V("now short")])}
            P2 = P.map(lambda x: dict(x, v=rot.get(json.dumps(x["v"]), x["v"])))
            scs.append({"cfgs": cfgs, "procs": [proc(P.ops()), proc(P.ops(r), **r.choice(RO)), proc(P2.ops(), env="false"), proc(P2.ops(), env="true"), proc(P2.ops(r)), proc(P.map(lambda x: dict(x, cfg=U)).ops()), proc(P.ops())], "name": "scale: long texts"})
    if "calls" in kinds:
        k = r.choice([530, 600])
        P = Prog([("TestA", [call("S", D, V(i % 7)) for i in range(k)]), ("TestB", [call("S", D, V("b"))])])
        init = {"/d1/a_test.snap": b"".join([entry("TestB", 1, b"b")] + [entry("TestA", i + 1, b"%d" % (i % 7)) for i in range(k)])}
        stale = dict(init)
        stale["/d1/a_test.snap"] += entry("TestOld", 1, b"gone") + entry("TestA", k + 1, b"gone")
        scs.append({"cfgs": cfgs, "init": stale, "procs": [proc(P.ops()), proc(P.ops() + [clean_op(sort=r.random() < .5)], env="clean"), proc(P.ops())], "name": "scale: many calls"})
        S = Prog([("TestA/s", [call("SS", D, V(i % 7)) for i in range(k)])])
        scs.append({"cfgs": cfgs, "procs": [proc(S.ops()), proc(S.ops() + [clean_op()], env="clean")], "name": "scale: many standalone calls"})
    if "tests" in kinds:
        nms = ["Test%s/%d" % (x, i) for i in range(34) for x in ("A", "B")]
        live = [x for x in nms if r.random() < .8]
        r.shuffle(nms)
        init = {"/d1/a_test.snap": b"".join(entry(x, 1, b"v\n" + b"pad" * 300) for x in nms)}
        P = Prog([(x, [call("S", D, vstr(b"v\n" + b"pad" * 300))]) for x in live])
        scs.append({"cfgs": cfgs, "init": init, "procs": [proc(P.ops() + [clean_op(sort=True)], env=r.choice([None, "clean"])), proc(P.ops() + [clean_op(sort=True)], env="clean")], "name": "scale: many tests"})
    if "names" in kinds:
        nms = ["TestA/" + "n" * 70, "TestA/" + "n" * 70 + "m", "TestA/" + "p" * 300, "TestA/x/y/z/w", "TestA/x"]
        P = Prog([(x, [call(a, D, V(x[-3:])) for a in "SSS"] + [call("SS", D, V("s"))] * (len(x) < 200)) for x in nms])
        scs.append({"cfgs": cfgs, "procs": [proc(P.ops(r)), proc(P.ops(r) + [clean_op(sort=r.random() < .5)], env="clean"), proc(P.ops(r))], "name": "scale: long names"})
    if "clean" in kinds:
        # what a rewrite by Clean has to carry over
        odd = [b"", b"\n", b"\n\nx", b"x\n\n", b"a\t\nb", b"a \nb", b"\ta", b"x" * (1 << 20) + b"\ny", b"row\n" * 4000, b"\xff\xfe", b"[TestB - 1]", b"a\x0b\nb\x0c", b"\xc2\xa0\n"]
        r.shuffle(odd)
        init = {"/d1/a_test.snap": b"".join(entry("TestA", i + 1, t) for i, t in enumerate(odd)) + entry("TestGone", 1, b"x\n" * 50) + b"\n[TestA - 40]\n---\n"}
        P = Prog([("TestA", [call("S", 0, vstr(t)) for t in odd])])
        scs.append({"cfgs": cfgs, "init": init, "procs": [proc(P.ops() + [clean_op(sort=True), clean_op(sort=True)]), proc(P.ops() + [clean_op()], env="clean"), proc(P.ops())], "name": "scale: bodies carried over"})
    for s in scs:
        s["clauses"] = clauses
    return scs


# ------------------------------------------------------------------------------------------------ C01


def c01(c):
    CL = ["nopanic", "replay", "out", "inert", "touch", "end"]
    r = sub(c, "c01")
    design(c, broken=[{"StructuralLookup": False}, {"InjectiveEscape": False}], deep=dict(MaxOps=3, Upds=["unset", "true"]))
    b = build_driver(c.scr)
    scs = []
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['long', 'calls', 'tests', 'names'])
    # behaviours of the model; every process is followed by a replay of what it recorded
    for s in behaviours(c, dict(MaxOps=6, MaxProcs=2, MaxCalls=3, Solo=True, Upds=["unset", "true"], Envs=["", "true"]), n(60, 600), r):
        ps = []
        for p in s["procs"]:
            ps += [p]
        s["procs"] = ps
        scs.append(s)
    # record once, then replay in every mode that makes no difference, in other schedules, repeated
    for i in range(n(110, 1500)):
        names = r.choice(NAMES)
        if r.random() < .4:
            names = names + [r.choice(r.choice(NAMES)) for _ in range(2)]
            names = list(dict.fromkeys(names))
        apis = r.choice([["S"], ["S", "J", "Y"], ["S", "J", "Y"], ["S", "Y"], ["S", "J", "Y", "SS", "SJ"]])
        nc = r.choice([1, 1, 2, 4])
        bases = r.choice([("a_test",), ("a_test", "b_test"), ("nest_test",)])
        P = prog(r, names, apis, nc, calls=r.choice([(1, 3), (2, 5), (9, 12)]), big=.06, bases=bases)
        if nc > 2:    # standalone files of tests with one Filename would collide: give those a config without Filename
            P = P.map(lambda x: dict(x, cfg=x["cfg"] if x["api"] in ("S", "J", "Y") or x["cfg"] in (0, 3) else 0))
        elif nc == 2:
            P = P.map(lambda x: dict(x, cfg=0 if x["api"] in ("SS", "SJ") else x["cfg"]))
        ps = [proc(P.ops(r if r.random() < .5 else None, count=r.choice([1, 1, 1, 2])))]
        if r.random() < .2:
            ps.append(proc(P.map(lambda x: change(r, x, .3)).ops(), env="true"))    # recorded by an update run
            P2 = None
        for m in r.sample(RO, 2):
            ps.append(proc((P if len(ps) < 2 or r.random() < 2 else P).ops(r if r.random() < .5 else None, count=r.choice([1, 1, 3])), **m))
        scs.append({"cfgs": MIXCFGS, "procs": ps})
    # the same files left by another process, edited by hand between runs in ways that leave the values alone
    c.traces(b, finish_scs(scs, CL, "record/replay"))
    c.assume += ["a carriage return at the end of a line is the documented limitation and is not used in shared files"]


# ------------------------------------------------------------------------------------------------ C02

def lookalikes(r, many):
    """pairs of different texts that a shortcut of the comparison could take for one"""
    o = []
    run = lambda k, pre=b"", post=b"": pre + b"/" * k + b"-/-/-/" + post
    for k in list(range(0, 20)) + [31, 32, 33, 64, 255, 256]:
        o += [(run(k), run(k + 1)), (run(k, b"x\n", b"\ny"), run(k + 1, b"x\n", b"\ny")), (run(k), run(k + 2))]
    o += [(b"---", run(k)) for k in (1, 2, 3, 4, 8)]
    # colliding checksums (birthday search), as they are and in the middle of a text
    def fnv1a(x, h=0x811c9dc5):
        for ch in x:
            h = (h ^ ch) * 0x01000193 & 0xffffffff
        return h
    def fnv1(x, h=0x811c9dc5):
        for ch in x:
            h = h * 0x01000193 & 0xffffffff ^ ch
        return h
    def java(x, h=0):
        for ch in x:
            h = h * 31 + ch & 0xffffffff
        return h
    for f in (zlib.crc32, zlib.adler32, fnv1a, fnv1, java):
        seen, found = {}, 0
        while found < 3:
            x = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(8)).encode()
            y = seen.setdefault(f(x), x)
            if y != x:
                o += [(x, y)] + ([(b"a\n" + x + b"\nz", b"a\n" + y + b"\nz")] if f in (zlib.crc32, fnv1a, zlib.adler32) else [])
                found += 1
    # only the middle differs
    for k in (15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192):
        pad = b"".join(r.choice([b"x", b"ab", b"line\n", b"y z "]) for _ in range(k))[:k]
        o.append((pad + b"1" + pad, pad + b"2" + pad))
    # the same letters, words or lines
    for _ in range(many):
        x = [r.choice([b"a", b"b", b"ab", b"1", b"2", b"---", b"-", b"x y"]) for _ in range(r.choice([2, 3, 5, 9]))]
        y = x[:]
        r.shuffle(y)
        j = r.choice([b"", b" ", b"\n", b",", b"\n\n"])
        if j.join(x) != j.join(y):
            o.append((j.join(x), j.join(y)))
        if len(set(x)) < len(x) and j.join(dict.fromkeys(x)) != j.join(x):
            o.append((j.join(dict.fromkeys(x)), j.join(x)))
    r.shuffle(o)
    return o


def c02(c):
    CL = ["nopanic", "replay", "out", "inert", "touch", "one"]
    r = sub(c, "c02")
    design(c, broken=[{"InjectiveEscape": False}], deep=dict(MaxOps=3))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=6, MaxProcs=3, MaxCalls=2, Solo=True, Upds=["unset", "false"], Envs=["", "false", "clean"], CIs=[True, False]), n(60, 600), r), CL, "model behaviour")
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['long'])
    # every ordered pair of a set of easily conflated texts
    pool = [b"---", b"/-/-/-/", b"//-/-/-/", b"---\n", b"\n---", b"/-/-/-/\n", b"", b"\n", b"\n\n", b" ", b"x", b"x\n", b"\nx", b"x ", b" x", b"x\n---", b"x\n/-/-/-/", b"---\n---", b"---\n/-/-/-/",
            b"\xff", b"\xfe", b"\xff\xfe", b"\xef\xbf\xbd", b"\x00", b"x\x00", b"\xff\nx", b"\xfe\nx", b"a\tb", b"a b", b"\xc3\xa9", b"e\xcc\x81", b"a\nb\nc", b"a\nc\nb", b"a\nb", b"a\nb\nc\n", b"\r", b"a\rb", b"A", b"\x1b[31mx", b"[TestA - 1]", b"[TestA - 2]",
            b"x\n\ny", b"x\n \ny", "\u2028".encode(), b"\xc2\x85", b"\x0b", b"\x0c", b"%s", b"%d", b"\\n", b"x\\ny", b"x\ny"]
    ok = [p for p in pool if not any(l.endswith(b"\r") for l in p.split(b"\n"))]
    pairs = [(x, y) for x in ok for y in ok if x != y]
    r.shuffle(pairs)
    pairs = pairs if THOROUGH else pairs[:700]
    for i in range(0, len(pairs), 24):
        ch = pairs[i:i + 24]
        rec = Prog([("TestA", [call("S", 0, vstr(x)) for x, _ in ch])])
        cmp_ = Prog([("TestA", [call("S", 0, vstr(y)) for _, y in ch])])
        scs.append({"cfgs": MIXCFGS, "procs": [proc(rec.ops()), proc(cmp_.ops(), **r.choice(RO))], "clauses": CL, "name": "pairs %d" % i})
    solo = [(x, y) for x in pool for y in pool if x != y]
    r.shuffle(solo)
    for i in range(0, n(240, 1500), 24):
        ch = solo[i:i + 24]
        rec = Prog([("TestA", [call("SS", 0, vstr(x)) for x, _ in ch])])
        cmp_ = Prog([("TestA", [call("SS", 0, vstr(y)) for _, y in ch])])
        scs.append({"cfgs": MIXCFGS, "procs": [proc(rec.ops()), proc(cmp_.ops(), **r.choice(RO))], "clauses": CL, "name": "standalone pairs %d" % i})
    # every length of an escaped terminator; texts that agree in length, checksum, letters, beginning or end
    alike = lookalikes(r, n(40, 400))
    for i in range(0, len(alike), 24):
        ch = [(y, x) if r.random() < .5 else (x, y) for x, y in alike[i:i + 24]]
        for api in ("S", "SS"):
            rec = Prog([("TestA", [call(api, 0, vstr(x)) for x, _ in ch])])
            cmp_ = Prog([("TestA", [call(api, 0, vstr(y)) for _, y in ch])])
            scs.append({"cfgs": MIXCFGS, "procs": [proc(rec.ops()), proc(rec.ops(), **r.choice(RO)), proc(cmp_.ops(), **r.choice(RO))], "clauses": CL, "name": "lookalikes %s %d" % (api, i)})
    # random values, barely changed
    for i in range(n(70, 1200)):
        P = prog(r, r.choice(NAMES), r.choice([["S"], ["S", "SS"], ["S", "J", "Y", "SJ"]]), 1, calls=(2, 6), big=.1)
        P2 = P.map(lambda x: change(r, x, .6))
        scs.append({"cfgs": [{"dir": "/d1"}, {"dir": "/d1", "upd": False}], "procs": [proc(P.ops()), proc(P2.ops(), **r.choice(RO)), proc(P2.map(lambda x: dict(x, cfg=1)).ops(), env="true")], "clauses": CL, "name": "barely changed %d" % i})
    # an entry changed on disk, not by the library
    c.traces(b, scs)


# ------------------------------------------------------------------------------------------------ C03

def c03(c):
    CL = ["nopanic", "replay", "out", "disk", "end"]
    r = sub(c, "c03")
    design(c, dict(Bads=["bad"]), broken=[{"StructuralLookup": False}], deep=dict(MaxOps=3, Upds=["unset", "false"]))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=10, MaxProcs=2, MaxCalls=5, Solo=True, Upds=["unset", "true", "false"], Envs=["", "true"], Bads=["bad"]), n(80, 800), r), CL, "model behaviour")
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['calls', 'names'])
    for i in range(n(110, 1500)):
        names = list(dict.fromkeys(r.choice(NAMES) + r.choice(NAMES)))
        apis = r.choice([["S"], ["S", "J", "Y"], ["S", "SS", "SJ", "J"]])
        P = prog(r, names, apis, 2, calls=r.choice([(1, 4), (2, 6), (10, 13)]), big=.03, bases=r.choice([("a_test",), ("a_test", "b_test")]), bad=.1)
        P = P.map(lambda x: dict(x, cfg=0) if x["api"] in ("SS", "SJ") else x)
        keep = P.map(lambda x: dict(x))
        # the second process runs the tests in another order, a subset of them, with some values changed and updated
        ex = keep.execs[:]
        r.shuffle(ex)
        P2 = Prog(ex[:r.randint(1, len(ex))]).map(lambda x: change(r, x, .4))
        P3 = Prog([(nm, cs + [call("S", 0, value(r, "S"))] * r.randrange(3)) for nm, cs in ex])
        ps = [proc(P.ops(r, count=r.choice([1, 2, 3]))), proc(P2.ops(r, count=r.choice([1, 2])), env=r.choice(["true", "true", None])), proc(P3.ops(r))]
        scs.append({"cfgs": r.choice(NEAR), "procs": ps, "clauses": CL, "name": "isolation %d" % i})
    # a test whose Match* calls fail, and one whose earlier file content was written in another order
    for i in range(n(20, 200)):
        names = ["TestA", "TestB", "TestA/sub"]
        slots = [(nm, k) for nm in names for k in (1, 2, 3, 11)]
        r.shuffle(slots)
        body = {s: text(r) for s in slots}
        f = b"".join(b"\n[%s - %d]\n%s\n---\n" % (s[0].encode(), s[1], escape(body[s])) for s in slots)
        P = Prog([(nm, [call("S", 0, vstr(body.get((nm, k), b"new") if r.random() < .6 else text(r))) for k in range(1, 5)]) for nm in names])
        scs.append({"cfgs": MIXCFGS[:1], "init": {"/d1/a_test.snap": f}, "procs": [proc(P.ops(r), env=r.choice([None, "true"])), proc(P.ops(r), env="true")], "clauses": CL, "name": "foreign order %d" % i})
    # calls made while the test is being torn down belong to the test; recorded finding when the cleanup was registered first
    scs.append({"cfgs": MIXCFGS[:1], "procs": [proc([{"op": "begin", "t": "x", "name": "TestA"}, dict(call("S", 0, vstr("c")), t="x", defer=True), dict(call("S", 0, vstr("a")), t="x"), {"op": "end", "t": "x"}])],
                "clauses": CL, "name": "call inside an earlier registered cleanup", "key": "c03-cleanup-ordinal"})
    for i in range(n(6, 40)):
        ops = [{"op": "begin", "t": "x", "name": "TestA"}]
        m = r.randint(1, 5)
        for k in range(m + 1):
            ops.append(dict(call(r.choice(["S", "J"]), 0, vstr("%d" % k)), t="x", defer=k == m))
        ops += [{"op": "end", "t": "x"}]
        scs.append({"cfgs": MIXCFGS[:1], "procs": [proc(ops), proc(ops)], "clauses": CL, "name": "calls inside cleanups %d" % i})
    c.traces(b, scs)


def escape(t):
    out = []
    for l in t.split(b"\n"):
        if l == b"---":
            l = b"/-/-/-/"
        elif l.endswith(b"-/-/-/") and len(l) > 6 and l[:-6].strip(b"/") == b"":
            l = b"/" + l
        out.append(l)
    return b"\n".join(out)


# ------------------------------------------------------------------------------------------------ C04

def c04(c):
    CL = ["nopanic", "replay", "out", "disk", "touch"]
    r = sub(c, "c04")
    design(c, dict(Envs=["true"]), broken=[{"StructuralLookup": False}], deep=dict(MaxOps=3, Upds=["unset", "true"]))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=8, MaxProcs=3, MaxCalls=4, Solo=True, Upds=["unset", "true"], Envs=["true"]), n(70, 700), r), CL, "model behaviour")
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['long', 'calls', 'tests'])
    for i in range(n(120, 1600)):
        names = list(dict.fromkeys(r.choice(NAMES) + r.choice(NAMES)))
        apis = r.choice([["S"], ["S"], ["S", "J", "Y"], ["S", "SS", "SJ", "J"]])
        P = prog(r, names, apis, 2, calls=r.choice([(1, 4), (2, 6), (10, 12)]), big=.08)
        P = P.map(lambda x: dict(x, cfg=0) if x["api"] in ("SS", "SJ") else x)
        ps, cur = [proc(P.ops())], P
        for _ in range(r.choice([1, 2])):
            cur = cur.map(lambda x: change(r, x, r.choice([.2, .5, 1])))
            up = r.choice(["env", "opt"])
            if up == "env":
                ps.append(proc(cur.ops(r if r.random() < .5 else None, count=r.choice([1, 1, 2])), env="true"))
            else:
                ps.append(proc(cur.map(lambda x: dict(x, cfg=x["cfg"] + 2)).ops(), env=r.choice([None, "false"])))
            ps.append(proc(cur.ops(r if r.random() < .5 else None), **r.choice(RO[:2])))
        near = r.choice(NEAR)
        scs.append({"cfgs": near + [dict(x, upd=True) for x in near], "procs": ps, "clauses": CL, "name": "update %d" % i})
    c.traces(b, scs)


# ------------------------------------------------------------------------------------------------ C05

# environments that announce CI, and environments that do not
CIENVS = [(True, {v: "1"}) for v in ("CI", "BUILD_NUMBER", "BUILD_ID", "RUN_ID", "CONTINUOUS_INTEGRATION", "CI_NAME", "CI_APP_ID", "CI_BUILD_ID", "CI_BUILD_NUMBER", "GITHUB_ACTIONS", "GITLAB_CI", "CIRCLECI", "TRAVIS",
                                     "BUILDKITE", "TF_BUILD", "TEAMCITY_VERSION", "APPVEYOR", "DRONE", "BITBUCKET_COMMIT", "CODEBUILD_BUILD_ARN", "SEMAPHORE", "CIRRUS_CI", "NETLIFY")]
CIENVS += [(True, {"CI": v}) for v in ("", "0", "true", "no", "FALSE", "woodpecker")] + [(True, {"GITHUB_ACTIONS": "true", "CI": "true"}), (True, {"JENKINS_URL": "http://x", "BUILD_ID": "7"}), (True, {"GITHUB_ACTIONS": "false"})]
CIENVS += [(False, {"CI": "false"}), (False, {"CI": "false", "GITHUB_ACTIONS": "true"}), (False, {"CI": "false", "BUILD_NUMBER": "7"}), (False, {"CI_": "1"}), (False, {"ci": "1"}), (False, {"PULL_REQUEST": "1"})]


def c05(c):
    CL = ["nopanic", "out", "inert", "touch", "dirs", "mode"]
    r = sub(c, "c05")
    design(c, dict(CIs=[True, False], Upds=["unset", "true", "false"], Envs=["", "true", "clean"], Vals="<-TwoVals", Sorting=[True, False], MaxOps=2),
           deep=dict(MaxOps=3, Tests=["TestA"], Solo=True))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=6, MaxProcs=3, MaxCalls=3, Solo=True, Upds=["unset", "true", "false"], Envs=["", "true", "false", "clean", "TRUE", "1", "always", "clean-up"], CIs=[True, False],
                                        Sorting=[True, False], Bads=["bad"]), n(80, 800), r), CL, "model behaviour")
    # the whole mode table: CI x UPDATE_SNAPS x Update x (missing | equal | different) x API, with Clean in every mode
    apis = [("S", vstr("v1"), vstr("v2")), ("J", vstr('{"a":1}'), vstr('{"a":2}')), ("Y", vstr("a: 1"), vstr("a: 2")), ("SS", vstr("v1"), vstr("v2")), ("SJ", vstr('[1]'), vstr('[2]'))]
    cfgs = [{"dir": "/d1"}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "upd": False}]
    for ci in (False, True):
        for env in (None, "", "true", "false", "clean", "TRUE", "always", " true", "true ", "True", "t", "1", "CLEAN", "cleanup", "clean ", "unclean", "clean,true", "truest", "untrue"):
            for upd in (0, 1, 2):
                pre = [("TestA", [call(a, 0, v1) for a, v1, _ in apis] + [call(a, 0, v1) for a, v1, _ in apis]), ("TestOld", [call(a, 0, v1) for a, v1, _ in apis])]
                # equal, different, missing for every API; TestOld does not run: stale items
                cs = [call(a, upd, v1) for a, v1, _ in apis] + [call(a, upd, v2) for a, _, v2 in apis] + [call(a, upd, v1) for a, v1, _ in apis]
                sort = r.random() < .5
                scs.append({"cfgs": cfgs, "procs": [proc(Prog(pre).ops()), proc(Prog([("TestB", cs[:3]), ("TestA", cs)]).ops() + [clean_op(sort=sort, opts=sort or r.random() < .5)], ci=ci, env=env),
                                                    proc(Prog([("TestA", cs[:5])]).ops() + [clean_op(sort=not sort)], ci=True, env=env)],
                            "clauses": CL, "name": "mode table ci=%s env=%s upd=%s" % (ci, env, upd)})
    # package-level functions follow the environment alone
    for ci in (False, True):
        for env in (None, "true", "false"):
            cs = [dict(call(a, 0, v1), base="a_test") for a, v1, _ in apis]
            cs2 = [dict(call(a, 0, v2), base="a_test") for a, _, v2 in apis]
            scs.append({"cfgs": [{"pkg": True}], "inplace": True, "procs": [proc(Prog([("TestA", cs)]).ops()), proc(Prog([("TestA", cs2 + cs)]).ops() + [clean_op()], ci=ci, env=env)], "clauses": CL,
                        "name": "package functions ci=%s env=%s" % (ci, env)})
    # every way CI is announced
    for is_ci, xs in CIENVS:
        for env in r.sample([None, "true", "clean"], 2):
            pre = [("TestA", [call(a, 0, v1) for a, v1, _ in apis]), ("TestOld", [call(a, 0, v1) for a, v1, _ in apis])]
            cs = [call(a, u, v2) for a, _, v2 in apis for u in (0, 1)]
            scs.append({"cfgs": cfgs, "procs": [proc(Prog(pre).ops()), proc(Prog([("TestA", cs)]).ops() + [clean_op(sort=True)], ci=is_ci, cienv=xs, env=env)], "clauses": CL, "name": "environment %s, UPDATE_SNAPS=%s" % (xs, env)})
    c.traces(b, scs)


# ------------------------------------------------------------------------------------------------ C06

JPRETTY = [('{"a":1}', '{\n "a": 1\n}'), ('[1,2]', '[1, 2]'), ('"s"', '"s"'), ('{"b":"---","a":[]}', '{\n "a": [],\n "b": "---"\n}')]
CONCCFGS = [{"dir": "/d1"}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "upd": False}, {"dir": "/d1", "fn": "a_test"}]


def conc_plan(r, i, tests, calls, lists, random_, pct, bound=0, maxn=0, seed=0):
    """tests that share one file; the slots of every test are created, matched, mismatched or updated"""
    names = r.choice([["TestA", "TestB", "TestC"], ["TestA/x", "TestA/y", "TestA/x/z"], ["TestP", "TestP/1", "TestP/10"], ["TestA", "TestAB", "TestA/sub"]])[:tests]
    env, ci = r.choice([(None, False), (None, False), ("true", False), ("true", False), ("false", False), ("true", True)])
    one = r.random() < .25    # one kind of call only
    kinds = [r.choice(["create", "update", "match", "mismatch"])] if one else ["create", "create", "update", "update", "match", "mismatch"]
    entries, tasks = [], []
    for nm in names:
        cs = []
        made = True
        for k in range(1, calls + 1):
            kind = r.choice(kinds)
            if not made:
                kind = "create"
            api = r.choice(["S", "S", "J", "Y"])
            if api == "J":
                src, new = r.choice(JPRETTY)
                v, new = vstr(src), new.encode()
            elif api == "Y":
                src = r.choice(["a: 1\n", "- x\n---\n- y", "# c\nk: v"])
                v, new = vstr(src), src.encode()
            else:
                new = text(r, big=.02)
                v = vstr(new)
            old = r.choice([text(r), b"short", b"longer\n" * r.choice([3, 30])])
            if kind == "create":
                cfg = r.choice([0, 0, 1, 3])
            elif kind == "match":
                entries.append((nm, k, new))
                cfg = r.choice([0, 1, 2])
            elif kind == "mismatch":
                entries.append((nm, k, old))
                cfg = 2
            else:
                entries.append((nm, k, old))
                cfg = 1 if env != "true" or r.random() < .3 else r.choice([0, 3])
            cs.append(call(api, cfg, v))
        if r.random() < .2:
            cs.append({"op": "skip", "kind": "SkipNow", "base": "a_test"})
        tasks.append({"op": "exec", "name": nm, "t": "g", "children": cs})
    r.shuffle(entries)
    # entries of a test that is not running, and an unused file
    if r.random() < .5:
        entries.insert(r.randrange(len(entries) + 1), ("TestOther", 1, text(r)))
    init = {"/d1/a_test.snap": b"".join(b"\n[%s - %d]\n%s\n---\n" % (nm.encode(), k, escape(v)) for nm, k, v in entries)} if entries or r.random() < .3 else {}
    return {"cfgs": CONCCFGS, "init": init, "proc": {"env": env, "ci": ci}, "name": "schedules %d" % i,
            "conc": {"tasks": tasks, "lists": lists, "random": random_, "pct": pct, "seed": seed, "bound": bound, "max": maxn}}


def c06(c):
    CL = ["nopanic", "out", "one", "settle"]
    r = sub(c, "c06")
    C = dict(Procs=[1, 2], Calls=n(1, 2), AppendLocked=True, ReadLocked=True, RereadOnUpdate=True, Record=False)
    small(c, "Conc", dict(C, Procs=[1, 2], Calls=2), ["Serial", "Final", "Progress", "Exclusion"])
    small(c, "Conc", dict(C, Procs=[1, 2, 3], Calls=1), ["Serial", "Final", "Progress", "Exclusion"], broken=[{"AppendLocked": False}, {"ReadLocked": False}, {"RereadOnUpdate": False}])
    gen = {}
    for k, procs in ((2, [1, 2]), (3, [1, 2, 3])):
        g = generate(c.scr, "Conc", cfg_text(dict(C, Procs=procs, Calls=2, Record=True), spec="Spec", invs=["Emit"]), n(150, 1500), 200, r.randrange(1 << 30))
        gen[k] = [[x - 1 for x in l] for l in g]
        c.add(behaviours_generated=len(g))
    b, points = build_sched(c.scr)
    c.add(yield_points=points)
    scs = []
    for i in range(n(40, 320)):
        k = r.choice([2, 2, 3])
        # a step of the specification is about two scheduling points of the code
        lists = [[x for y in l for x in [y] * rep] for l in r.sample(gen[k], min(len(gen[k]), n(12, 40))) for rep in (1, 2, 3)]
        scs.append(conc_plan(r, i, k, r.choice([1, 2, 2, 3]), lists, n(120, 400), n(60, 200), seed=r.randrange(1 << 30)))
    for i in range(n(24, 160)):      # small programs: every schedule with at most two preemptions
        scs.append(conc_plan(r, 1000 + i, 2, r.choice([1, 1, 2]), [], 0, 0, bound=n(2, 3), maxn=n(1500, 12000)))
    for i in range(n(6, 40)):
        scs.append(conc_plan(r, 2000 + i, 3, 1, [], 0, 0, bound=2, maxn=n(1500, 12000)))
    for s in scs:
        s["clauses"] = CL
    base = c.scr.new("conc")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda i: run_conc(b, os.path.join(base, "p%d" % i), scs[i]), range(len(scs))))
    trs, ts = [], []
    nsched = steps = complete = stuck = 0
    for s, (beh, info) in zip(scs, res):
        nsched += info["schedules"]
        steps += info["steps"]
        complete += bool(info.get("complete"))
        stuck += info["stuck"]
        for e in beh:
            at = [[k, a] for k, a in zip(e["schedule"], e["at"])]
            if e["deadlock"]:
                c.violation("%s: deadlock: no task can go on after the schedule" % s["name"], c.plain({"scenario": s, "schedule": at}))
                continue
            trs.append(e["trace"])
            ts.append(dict(s, kind=e["kind"], schedule=at, times=e["times"], conc=dict(s["conc"], lists=[])))
    c.log("%d programs, %d schedules (%d scheduling steps), %d distinct behaviours, %d programs searched completely up to the bound" % (len(scs), nsched, steps, len(trs), complete))
    c.add(programs=len(scs), schedules=nsched, scheduling_steps=steps, programs_searched_completely=complete, tasks_outside_control=stuck)
    if stuck:
        c.assume.append("%d schedules were given up: a task waited for something that is not under the scheduler's control" % stuck)
    c.traces(None, ts, trs=trs, label="schedules")
    # free-running executions under the race detector: Match*, Skip* and shared Configs
    RCL = ["nopanic", "out", "settle", "race", "skip"]
    rb = build_driver(c.scr, ["-race"])
    cfgs = [{"dir": "/d1"}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "fn": "a_test"}, {"dir": "/d1", "hasjson": True, "nosort": True}, {"dir": "/d1", "upd": False}]
    c.traces(rb, [group_scenario(r, RCL, i, tests=(2, 4, 8), cfgs=cfgs if i % 3 else None, skips=.4, clean=i % 2 == 0) for i in range(n(80, 800))], label="free running (race detector)")
    c.assume += ["scheduling points are the lock and file-system operations of go-snaps itself (inserted by an overlay generated from the working tree); between two of them a task runs alone",
                 "data races are looked for by the race detector on free-running executions"]


# ------------------------------------------------------------------------------------------------ C07, C09, C10

CLEANENVS = [None, "clean", "true", "false", ""]


def names_set(r, k=4):
    pool = ["TestA", "TestAB", "TestA/sub", "TestA/sub/deep", "TestA/1", "TestA/10", "TestA/2", "TestB", "TestB/x", "TestB/x#01", "TestA_b", "FuzzA", "BenchmarkA", "TestC/[y]", "Test", "TestZ9", "TestZ10",
            "TestA/a_-_1", "Testa", "TestA/b-c", "TestA/B", "TestA/SUB", "TestA/s", "TestA/sub_1"]
    return r.sample(pool, k)


ORDS = [1, 2, 3, 4, 10, 11]


def disorder(r, init, names, ords=ORDS):
    """a snapshot file written by hand: entries in any order, blank lines, an id that occurs twice"""
    slots = [(nm, k) for nm in names for k in r.sample(ords, r.choice([1, 2, 4]))]
    r.shuffle(slots)
    if r.random() < .3:
        slots.append(r.choice(slots))
    f = b""
    for nm, k in slots:
        f += b"\n[%s - %s]\n%s\n---\n" % (nm.encode(), str(k).encode(), escape(text(r)))
        if r.random() < .1:
            f += b"\n\n"
    init["/d1/a_test.snap"] = f


def trap(r, slots):
    """a value that looks like the end of its entry and the beginning of another one"""
    ls = [r.choice([b"", b"v", b"{"])] * r.randint(0, 1)
    ls += [r.choice([b"--- a", b"---a", b"----", b" ---", b"--- ", b"---\t", b"--", b"---\x00", b"---"])] * r.choice([1, 1, 2])
    for _ in range(r.choice([1, 1, 2])):
        nm, k = r.choice(slots)
        ls += [b"[%s - %d]" % (nm.encode(), k), r.choice([b"other", b"", b"---", b"--- z"])]
    return b"\n".join(ls)


def clean_scenarios(c, r, count, clauses, run=.25, skip=.3, ci=.1, sort=.4, twice=.4, edits=.6, envs=CLEANENVS, foreign=.25, ords=ORDS):
    scs = []
    for i in range(count):
        names = names_set(r, r.choice([2, 3, 4, 6]))
        if r.random() < .25:
            names = list(r.choice(PLAINNAMES)) + r.choice([[], ["TestZ"]])
        apis = r.choice([["S"], ["S", "J", "Y"], ["S", "J", "SS", "SJ"]])
        # standalone snapshots are addressed without Filename here: a file name alone does not tell its test
        cfgs = [{"dir": "/d1"}, {"dir": "/d1", "fn": "shared"}, {"dir": "/d2"}, {"dir": "/d1", "fn": "multi", "ext": ".txt"}, {"dir": "/d1/sub"}]
        if r.random() < .3:
            cfgs[2], cfgs[4] = {"dir": "/d2.snapshots"}, {"dir": "/d1.snap/in"}
        # values that look like the end of their entry and the beginning of another test's
        trapped = r.random() < .35
        fix = lambda x: dict(x, cfg=r.choice([0, 2, 4])) if x["api"] in ("SS", "SJ") else dict(x, v=vstr(trap(r, [(r.choice(names), r.choice([1, 1, 2, 3, 9, 10]))]))) if trapped and x["api"] == "S" and r.random() < .4 else x
        P = prog(r, names, apis, r.choice([1, 2, 5]), calls=r.choice([(1, 2), (1, 4), (9, 12)]), big=.02).map(fix)
        init, dirs = {}, []
        if r.random() < foreign:
            disorder(r, init, names, ords)
        ps = [proc(P.ops(r if r.random() < .4 else None))]
        if r.random() < edits:
            ed = {}
            for f in r.sample(["/d1/old.snap", "/d1/old_1.snap", "/d1/TestGone_1.snap", "/d1/TestGone_1.snap.json", "/d1/x.snap.bak", "/d1/notes.txt", "/d1/snap", "/d1/a.snapshot", "/d1/README.md", "/d1/sub/in.snap", "/d3/never.snap",
                               "/d1/deep/er/x.snap", "/d2/z.snap", "/top.snap", "/d1/shared.snap.orig", "/d1/TestA_99.snap", "/d1/.hidden.snap", "/d1/b.SNAP",
                               "/d1/TestGone_TestA_1.snap", "/d1/TestGone_%s_2.snap" % names[0].replace("/", "_"), "/d1/xTestA_1.snap"]
                              + ["/d2.snapshots/notes.txt", "/d2.snapshots/data.json", "/d1.snap/in/notes.txt", "/d1.snap/x.txt", "/d1.snap/in/x.snap", "/d1.snap/y.snap"] * ("snapshots" in cfgs[2]["dir"]), r.choice([2, 4, 7])):
                ed[f] = r.choice([b"", b"plain\n", b"\n[TestGone - 1]\nx\n---\n", b"\n[TestGone - 1]\nx\n---\n\n[TestGone - 2]\n---\n---\n"[:38], b"{\"a\": 1}"])
            if r.random() < .3:
                ed["/d1/TestLinked_1.snap"] = (b"\n[TestGone - 1]\nx\n---\n",)
            ps.append({"edit": ed})
        for rep in range(r.choice([1, 1, 2])):
            env, isci = r.choice(envs), r.random() < ci
            pat = randrun(r, names) if r.random() < run else []
            skips = [nm for nm in names if r.random() < .3] if r.random() < skip else []
            ex = []
            for nm, cs in P.execs:
                if not selects(pat, nm):
                    continue
                if any(nm == s or nm.startswith(s + "/") for s in skips):
                    if r.random() < .3:
                        ex.append((nm, cs[:r.randint(0, len(cs))], True))
                    else:
                        ex.append((nm, [], True)) if nm in skips else None
                    continue
                k = r.random()
                if not skips and not pat and k < .2:
                    continue                                      # the test was removed
                cs = cs[:r.randint(1, len(cs))] if k < .6 else cs   # it makes fewer calls
                ex.append((nm, [change(r, x, .15) for x in cs], False))
            if not ex:
                continue
            cnt = r.choice([1, 1, 1, 2, 3])
            ops = []
            nn = 0
            for rep2 in range(cnt):
                for nm, cs, sk in ex:
                    nn += 1
                    x = "x%d" % nn
                    cut = cs[:r.randint(1, len(cs))] if cnt > 1 and cs and r.random() < .2 else cs   # executions of one test may differ
                    ops += [{"op": "begin", "t": x, "name": nm}] + [dict(y, t=x) for y in cut]
                    if sk and nm in skips:
                        ops.append({"op": "skip", "t": x, "kind": r.choice(["Skip", "Skipf", "SkipNow"]), "base": "a_test"})
                    ops.append({"op": "end", "t": x})
            so = r.random() < sort
            ops.append(clean_op(sort=so, opts=so or r.random() < .5))
            if r.random() < twice:
                ops.append(clean_op(sort=so, opts=True) if r.random() < .6 else clean_op(sort=not so))
            ps.append(proc(ops, ci=isci, env=env, run=pat, runflag=flag_of(pat) if pat else None, count=cnt))
        scs.append({"cfgs": cfgs, "init": init, "initdirs": dirs, "procs": ps, "clauses": clauses, "name": "clean %d" % i})
    return scs


def orders(r, count, clauses):
    """every order of a small set of entries ends in the same order"""
    ids = [("TestA", 1), ("TestA", 2), ("TestA", 10), ("TestA/2", 1), ("TestA/10", 1), ("TestB", 1), ("TestAB", 1), ("Test", 3), ("TestA/b", 1), ("TestA_b", 1), ("Testa", 1), ("FuzzA", 1),
           ("TestA/B", 1), ("TestA/b#01", 1), ("TestA/b/b", 1), ("TestA/b-b", 1), ("TestA/%d", 1)]
    scs = []
    for i in range(count):
        pick = r.sample(ids, r.choice([3, 4, 6, 9]))
        traps = r.random() < .4
        f = b"".join(b"\n[%s - %d]\n%s\n---\n" % (nm.encode(), k, escape(trap(r, pick) if traps and r.random() < .6 else text(r))) for nm, k in pick)
        live = [x for x in pick if r.random() < .7] or pick[:1]
        ops = []
        for j, (nm, k) in enumerate(dict.fromkeys((nm, max(kk for n2, kk in live if n2 == nm)) for nm, _ in live)):
            ops += [{"op": "begin", "t": "x%d" % j, "name": nm}] + [call("S", 1, vstr("never stored"), t="x%d" % j) for _ in range(k)] + [{"op": "end", "t": "x%d" % j}]
        scs.append({"cfgs": [{"dir": "/d1"}, {"dir": "/d1", "upd": False}], "init": {"/d1/a_test.snap": f},
                    "procs": [proc(ops + [clean_op(sort=True), clean_op(sort=True)], env=r.choice([None, "clean"])), proc(ops + [clean_op(sort=True)])], "clauses": clauses, "name": "orders %d" % i})
    return scs


def c07(c):
    CL = ["nopanic", "keep"]
    r = sub(c, "c07")
    design(c, dict(Sorting=[True, False], Envs=["", "true", "clean"], Vals="<-TwoVals", Runs="<-SomeRuns", Skipping=True), broken=[{"KeepInReport": False}],
           deep=dict(MaxOps=3, Solo=True, Tests=["TestA", "TestB"]))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=8, MaxProcs=3, MaxCalls=4, Solo=True, Sorting=[True, False], Skipping=True, Runs="<-SomeRuns", Envs=["", "true", "clean"]), n(60, 600), r, names=["TestA", "TestB"]), CL, "model behaviour")
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['calls', 'tests', 'names', 'clean'])
    scs += clean_scenarios(c, r, n(160, 2200), CL)
    scs += orders(r, n(40, 400), CL)
    # executions that differ: -count with branches, retries with another number of calls
    for i in range(n(30, 300)):
        ops, k = [], 0
        cnt = r.choice([2, 3, 5])
        per = [r.randint(0, 12) for _ in range(cnt)]
        for e in per:
            k += 1
            ops += [{"op": "begin", "t": "x%d" % k, "name": "TestA"}] + [call(r.choice(["S", "SS"]), 0, vstr("v"), t="x%d" % k) for _ in range(e)] + [{"op": "end", "t": "x%d" % k}]
        ops.append({"op": "begin", "t": "y", "name": "TestB"})
        ops += [call("S", 0, vstr("w"), t="y"), {"op": "end", "t": "y"}]
        scs.append({"cfgs": [{"dir": "/d1"}], "procs": [proc(ops), proc(ops + [clean_op(sort=r.random() < .5)], env=r.choice(["clean", "true"]), count=cnt)], "clauses": CL, "name": "differing executions %d" % i})
    c.traces(b, scs)


def c09(c):
    CL = ["nopanic", "stale", "remove", "others", "dirs"]
    r = sub(c, "c09")
    design(c, dict(Sorting=[True, False], Envs=["", "true", "clean"], Vals="<-TwoVals", Skipping=True), broken=[{"KeepInReport": False}], deep=dict(MaxOps=3, Solo=True))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=8, MaxProcs=3, MaxCalls=4, Solo=True, Sorting=[True, False], Skipping=True, Envs=["", "true", "clean", "false"], CIs=[False, True]), n(60, 600), r), CL, "model behaviour")
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['calls', 'tests', 'names', 'clean'])
    scs += clean_scenarios(c, r, n(200, 2600), CL, run=0, ci=.15, ords=ORDS + ["01", "0", "002", "1000", "00"])
    c.traces(b, scs)


def c10(c):
    CL = ["nopanic", "rewrite", "cleantouch"]
    r = sub(c, "c10")
    design(c, dict(Sorting=[True, False], Envs=["", "clean"], Vals="<-TwoVals", MaxCalls=2), broken=[{"KeepInReport": False}], deep=dict(MaxOps=3))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=9, MaxProcs=3, MaxCalls=4, Sorting=[True, False], Envs=["", "true", "clean"]), n(60, 600), r), CL, "model behaviour")
    for _ in range(n(1, 2)):
        scs += scale(r, CL, ['calls', 'tests', 'clean', 'names'])
    scs += clean_scenarios(c, r, n(170, 2400), CL, run=.1, skip=.15, sort=.75, twice=.7, envs=[None, "clean", "clean", "true"], foreign=.6)
    scs += orders(r, n(40, 500), CL)
    c.traces(b, scs)


# ------------------------------------------------------------------------------------------------ C08

def tree_node(r, name, ncfg, depth, apis):
    ch = []
    for _ in range(r.choice([0, 1, 1, 2])):
        api = r.choice(apis)
        ch.append({"op": "match", "api": api, "cfg": r.randrange(ncfg) if api not in ("SS", "SJ") else r.choice([0, 2]), "v": value(r, api)})
    if depth:
        for s in r.sample(["sub", "sub2", "x", "x", "s b", "1", "deep", "TestA", "n" * 70, "n" * 70 + "m"], r.choice([0, 1, 2, 3])):
            ch.append(tree_node(r, s, ncfg, depth - 1, apis))
    r.shuffle(ch)
    return {"op": "sub", "name": name, "children": ch}


def tree_names(node, prefix=""):
    nm = (prefix + "/" if prefix else "") + node["name"].replace(" ", "_")
    out = [nm]
    for x in node["children"]:
        if x["op"] == "sub":
            out += tree_names(x, nm)
    return out


def with_skips(r, node, p):
    node = dict(node)
    node["children"] = [with_skips(r, x, p) if x["op"] == "sub" else x for x in node["children"]]
    if r.random() < p:
        k = r.randint(0, min(1, len(node["children"])))
        node["children"] = node["children"][:k] + [{"op": "skip", "kind": r.choice(["Skip", "Skipf", "SkipNow"])}]
    return node


FUNCS = ["TestA", "TestAB", "TestA_b", "TestB", "TestC", "TestCC", "TestAll", "TestB_1", "FuzzA"]


def c08(c):
    CL = ["nopanic", "protect"]
    r = sub(c, "c08")
    design(c, dict(Sorting=[False], Envs=["", "clean"], Vals="<-OneVal", Runs="<-SomeRuns", Skipping=True, Solo=True), deep=dict(MaxOps=3))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=8, MaxProcs=3, MaxCalls=3, Solo=True, Sorting=[True, False], Skipping=True, Runs="<-SomeRuns", Envs=["", "true", "clean"]), n(50, 500), r, names=["TestA", "TestB"]), CL, "model behaviour")
    scs += clean_scenarios(c, r, n(80, 1000), CL, run=.5, skip=.6, envs=["clean", "true", "clean", None])
    # the real test runner decides what runs
    for i in range(n(150, 2200)):
        fs = r.sample(FUNCS, r.choice([2, 3, 4, 5]))
        default = r.random() < .35
        cfgs = [{"pkg": True}, {"fn": "shared"}, {"dir": "d2"}] if default else [{"dir": "/d1"}, {"dir": "/d1", "fn": "shared"}, {"dir": "/d1", "ext": ".txt"}]
        apis = r.choice([["S"], ["S", "J", "Y"], ["S", "SS", "SJ"]])
        tree = [dict(tree_node(r, f, 3, 2, apis), op="func") for f in fs]
        names = [x for t in tree for x in tree_names(t)]
        ps = [proc(tree, args=["-test.run=."])]
        for _ in range(r.choice([1, 2])):
            pat = randrun(r, names) if r.random() < .6 else []
            t2 = [with_skips(r, t, .15) if r.random() < .6 else t for t in tree]
            if r.random() < .2:
                t2 = [t for t in t2 if t["name"] != fs[0]] or t2
            t2 = t2 + [clean_op(sort=r.random() < .2)]
            ps.append(proc(t2, env=r.choice(["clean", "true", "clean", None]), run=pat, runflag=flag_of(pat) if pat else None, count=r.choice([1, 1, 2])))
        scs.append({"cfgs": cfgs, "tree": True, "inplace": default, "sources": ["tree_test.go", "more_test.go"] if default else [], "procs": ps, "clauses": CL, "name": "real runner %d" % i})
    # a custom Filename hides whose standalone snapshot a file is: recorded finding
    P = lambda sk: [{"op": "func", "name": "TestA", "children": ([{"op": "skip", "kind": "Skip"}] if sk else []) + [{"op": "match", "api": "SS", "cfg": 0, "v": vstr("v")}]},
                    {"op": "func", "name": "TestB", "children": [{"op": "match", "api": "SS", "cfg": 1, "v": vstr("w")}]}]
    scs.append({"cfgs": [{"dir": "/d1", "fn": "custom"}, {"dir": "/d1"}], "tree": True, "procs": [proc(P(False)), proc(P(True) + [clean_op()], env="clean")], "clauses": CL,
                "name": "standalone snapshot with a custom Filename of a skipped test", "key": "c08-custom-filename-standalone-skip"})
    c.traces(b, scs)


# ------------------------------------------------------------------------------------------------ C11

SHAPES = ["shape_test:" + x for x in ("plain closure deferred recovered goroutine recursion method interface generic helper helpers rawhelpers runner reflect sort subtest subtests cleanup throughother nontest nontest2 nontest3 nontest4 deephelpers allocs".split())]
SHAPES += ["weird.name_test", "weird.name_test:method", "direct_test", "direct_test:subtest", "direct_test:deferred"]
ROOTSHAPES = ["a_test", "b_test", "nest_test", "tree_test"]
DIRS = [None, None, "", ".", "rel", "a/b/c", "./x/../y", "/abs", "/abs/n/m", "..", "__snapshots__", "with space/x", "%d/%s", "../sibling", "d.snap", "/abs/../other/"]
FNS = [None, None, None, "f", "f.x", "custom name", "100%d", "a_test", "_1", "TestA", "in/f", "a/b.c/d", "./dot", "x.snap", ".h", "shape_test.go", "a_test.snap"]
EXTS = [None, None, ".txt", ".json", "ext", ".a.b", ".snap", "%v"]
TNAMES = ["TestA", "TestA/sub", "TestA/sub/deep", "TestA_sub", "TestB/a b", "TestB/%d", "TestÜ/é", "TestA/..", "TestA/a.b", "FuzzA/seed#0", "BenchmarkX/y-8", "TestA/x#01",
          "TestA/a/b/c/d", "TestA/1/2/3/4/5/6/7/8/9", "TestA_1", "TestA/__snapshots__", "TestA/.", "Test/" + "long_" * 30, "TestA/a\\b", "TestA/x=1,y=[2]", "ExampleA"]


def c11(c):
    CL = ["nopanic", "out", "place", "foot"]
    r = sub(c, "c11")
    small(c, "LocMC", {}, ["Separate", "Stable", "UnderSource"])
    fixed = {"S": "v", "J": '{"a":1}', "Y": "a: 1\n", "SS": "v", "SJ": "[1]"}
    other = {"S": "w", "J": '{"a":2}', "Y": "a: 2\n", "SS": "w", "SJ": "[2]"}
    mods = [(False, *build_layout(c.scr)), (True, *build_layout(c.scr, ["-trimpath"]))]
    scs, trs = [], []
    for trim, d, bins, keep in mods:
        every = {s: r.sample(q, len(q)) for s, q in (("", [(b, a) for b in ROOTSHAPES for a in fixed]), ("p", [(b, a) for b in SHAPES for a in fixed]))}
        for i in range(n(110, 1200)):
            pkg = r.choice(LAYOUT)
            shapes = SHAPES if pkg else ROOTSHAPES
            todo = every["p" if pkg else ""]
            combos = [{"pkg": True}]
            for _ in range(6):
                o = {k: v for k, v in (("dir", r.choice(DIRS)), ("fn", r.choice(FNS)), ("ext", r.choice(EXTS)), ("upd", r.choice([None, None, True]))) if v is not None}
                if not (o.get("dir") in ("..", "../sibling") and pkg == ""):
                    combos.append(o)
            ex = []
            for nm in r.sample(TNAMES, 3):
                cs = []
                for _ in range(r.randint(2, 6)):
                    api = r.choice(["S", "J", "Y", "SS", "SJ"])
                    x = call(api, r.randrange(len(combos)), vstr(fixed[api]), r.choice(shapes))
                    if r.random() < .3:
                        x["chdir"] = r.choice(["/", "/p", "/p/q", "/wd/x", "/" + pkg])
                    cs.append(x)
                ex.append((nm, cs))
            for j in range(2):            # every shape with every API
                if todo:
                    shape, api = todo.pop()
                    ex.append(("TestEach%d" % j, [call(api, k, vstr(fixed[api]), shape) for k in range(len(combos))] * 2))
            P = Prog(ex)
            P2 = P.map(lambda x: dict(x, v=vstr(other[x["api"]])))
            wd = os.path.join(d, pkg)
            ps = [proc(P.ops(r), cwd=wd), proc(P2.ops(r), cwd=wd, nocolor=r.random() < .5)]
            if not trim and r.random() < .5:
                ps[1]["cwd"] = r.choice([d, os.path.join(d, "p"), "/tmp", d + "/wd"])
            for p in ps:
                if r.random() < .3:
                    p["xenv"] = {"PWD": r.choice(["/", "/nowhere"]), "GOFLAGS": r.choice(["", "-mod=mod", "-v"])}
                if r.random() < .5:      # go test sets it, a test binary run by hand does not have it
                    p["xenv"] = dict(p.get("xenv", {}), GOROOT="/opt/go")
            sc = {"cfgs": combos, "src": pkg, "initdirs": ["/wd/x"], "procs": ps, "binary": bins[pkg], "clauses": CL, "name": "layout %s%s %d" % (pkg or "root", " -trimpath" if trim else "", i)}
            scs.append(sc)
            trs.append(exec_scenario(None, d, sc))
            tidy(d, keep)
    c.traces(None, scs, trs=trs)
    c.assume += ["trimpath builds are run from their package's directory, as go test does (the directory of the sources is unknown to such a binary)",
                 "the innermost *_test.go frame is the calling test file; a stack without one is not covered by the property"]


# ------------------------------------------------------------------------------------------------ C12

def small(c, module, consts, invs, broken=(), props=(), spec="Spec", view=None):
    s, d = explore(c.scr, module, cfg_text(consts, spec=spec, invs=invs, props=props, view=view))
    c.add(states=d, transitions=s, design_states=d)
    for b in broken:
        explore(c.scr, module, cfg_text(dict(consts, **b), spec=spec, invs=invs, props=props, view=view), expect=True)
        c.add(broken_variants_rejected=1)
    c.log("%s: %d states, %d broken variants rejected" % (module, d, len(broken)))


JSONOPTS = [{}, {"hasjson": True}, {"hasjson": True, "nosort": True}, {"hasjson": True, "width": 10, "indent": "  "}, {"hasjson": True, "width": 200, "indent": "\t", "nosort": True}, {"hasjson": True, "indent": "    "}]


def cfgspec(r, i, dirs=None):
    o = {}
    d = r.choice(dirs or [None, "/d1", "rel", "rel/deep", "/d2", "rel/../up"])
    if d is not None:
        o["dir"] = d
    if r.random() < .5:
        o["fn"] = r.choice(["f", "shared", "f.x", "a_test"])
    if r.random() < .4:
        o["ext"] = r.choice([".txt", ".json", ".html", "x"])
    u = r.choice([None, None, True, False])
    if u is not None:
        o["upd"] = u
    o.update(r.choice(JSONOPTS))
    return o


MDOC = '{"z":1,"a":{"y":[3,2],"x":null},"m":"text"}'


def masked_call(r, cfg, t=None, base="a_test"):
    """a JSON call with a matcher whose effect the plan knows"""
    p, w = r.choice([("z", '{"z":"<Any value>","a":{"y":[3,2],"x":null},"m":"text"}'), ("a.y", '{"z":1,"a":{"y":"<Any value>","x":null},"m":"text"}'),
                     ("m", '{"z":1,"a":{"y":[3,2],"x":null},"m":"<Any value>"}')])
    return call(r.choice(["J", "SJ"]), cfg, r.choice([vstr, vbytes])(MDOC), base, m=[{"kind": "any", "paths": [p]}], want={"k": "json", "b": b64(w)})


def anycall(r, i, cfgs, base=None, bad=.05):
    api = r.choice(["S", "J", "Y", "SS", "SJ"])
    b = base or r.choice(["a_test", "a_test", "b_test"])
    if api in ("J", "SJ") and r.random() < .3:
        return masked_call(r, i, base=b)
    return call(api, i, value(r, api, bad=bad), b)


def c12(c):
    CL = ["nopanic", "out", "place", "disk", "settle", "race"]
    r = sub(c, "c12")
    small(c, "Config", dict(Ids=[1, 2], MaxCalls=n(3, 4), MutatesReceiver=False, MutatesDefault=False),
          ["Immutable", "Defaults", "CallsByOptions"], broken=[{"MutatesReceiver": True}, {"MutatesDefault": True}])
    b = build_driver(c.scr)
    scs = []
    # every ordered pair of entry points through one Config, then the second alone
    kinds = ["S", "J", "Y", "SS", "SJ"]
    fixed = {"S": vstr("v"), "J": vstr(MDOC), "Y": vstr("a: 1\n"), "SS": vstr("v"), "SJ": vbytes(MDOC)}
    for x in kinds:
        for y in kinds:
            for o in ({"dir": "/d1"}, {"dir": "rel", "fn": "f"}, {"pkg": True}, {"dir": "/d1", "ext": ".txt"}, {"dir": "/d1", "hasjson": True, "nosort": True, "width": 5}, {"dir": "/d1", "upd": True}):
                P = [call(x, 0, fixed[x]), call(y, 0, fixed[y]), call(x, 0, fixed[x]), call(y, 1, fixed[y]), call(y, 2, fixed[y], "b_test"), call(y, 0, fixed[y], "b_test")]
                scs.append({"cfgs": [o, dict(o), {"dir": "/other"}], "lazy": r.random() < .7, "inplace": True,
                            "procs": [proc(Prog([("TestA", P), ("TestB", P[1:])]).ops()), proc(Prog([("TestA", P[1:2]), ("TestB", P)]).ops(), env=r.choice([None, "true"]), ci=r.random() < .2)], "clauses": CL, "name": "pair %s;%s" % (x, y)})
    # every ordered pair of update options, in every environment, on slots that hold something else
    k = 0
    second = {"S": vstr("w"), "J": vstr('{"a":2}'), "Y": vstr("b: 2\n"), "SS": vstr("w"), "SJ": vbytes('{"a":2}')}
    for env in (None, "", "true", "clean", "false", "TRUE", "1", "update"):
        for ci in (False, True):
            for u in itertools.product([None, True, False], repeat=2):
                x, y = kinds[k % 5], kinds[k // 5 % 5]
                k += 1
                cfgs = [dict({"dir": "/d1"}, **({} if a is None else {"upd": a})) for a in u] + [{"pkg": True}, {"dir": "/d1"}]
                ex = lambda vs, o: [call(a, j, vs[a]) for j, a in zip(o, (x, y, x, y, x, y, x, y))]
                pre = [(nm, ex(fixed, (0, 1, 2, 3, 2, 3, 1, 0))) for nm in ("TestA", "TestB")]
                post = [(nm, ex(second, (0, 1, 2, 3, 2, 3, 1, 0))) for nm in ("TestA", "TestB")]
                scs.append({"cfgs": cfgs, "lazy": r.random() < .5, "inplace": True, "procs": [proc(Prog(pre).ops()), proc(Prog(post).ops(), env=env, ci=ci)], "clauses": CL, "name": "update %s env %s%s" % (u, env, " ci" if ci else "")})
    # random histories over several Configs and the package-level functions
    for i in range(n(120, 1800)):
        cfgs = [{"pkg": True}] + [cfgspec(r, k) for k in range(r.choice([2, 3, 5]))]
        if r.random() < .5:
            cfgs.append(dict(cfgs[-1]))          # built from the same options
        ps = []
        for _ in range(r.choice([1, 2, 3])):
            ex = [(nm, [anycall(r, r.randrange(len(cfgs)), cfgs) for _ in range(r.randint(2, 7))]) for nm in r.sample(["TestA", "TestB", "TestA/sub", "TestC"], r.choice([1, 2, 3]))]
            ps.append(proc(Prog(ex).ops(r if r.random() < .5 else None, count=r.choice([1, 1, 2])), env=r.choice([None, None, "true", "false", "clean", "always"]), ci=r.random() < .15))
        scs.append({"cfgs": cfgs, "lazy": r.random() < .6, "inplace": True, "procs": ps, "clauses": CL, "name": "history %d" % i})
    c.traces(b, scs)
    # concurrent use of shared Configs, under the race detector
    rb = build_driver(c.scr, ["-race"])
    scs = [group_scenario(r, CL, i) for i in range(n(40, 400))]
    c.traces(rb, scs, label="concurrent use (race detector)")
    c.add(race_detector_runs=len(scs))


def group_scenario(r, clauses, i, tests=(2, 4, 8), skips=.3, pre=.6, cfgs=None, clean=False, bad=.1):
    """executions of several tests that run concurrently and share Configs (entries and files are disjoint per test)"""
    cfgs = cfgs or [{"dir": "/d1"}, {"pkg": True}, {"dir": "rel", "fn": "shared"}, {"dir": "/d1", "ext": ".txt"}, {"dir": "/d1", "hasjson": True, "nosort": True, "indent": "  "}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "upd": False}]
    solo = [k for k, x in enumerate(cfgs) if "fn" not in x]
    names = ["TestG%d/%s" % (k, r.choice(["x", "y"])) for k in range(r.choice(tests))]

    def ex(nm, k):
        cs = []
        for _ in range(r.randint(1, k)):
            x = anycall(r, r.randrange(len(cfgs)), cfgs, base="a_test", bad=bad)
            if x["api"] in ("SS", "SJ"):
                x["cfg"] = r.choice(solo)
            cs.append(x)
        return cs
    base = {nm: ex(nm, 6) for nm in names}
    ps = []
    if r.random() < pre:      # some slots exist already
        ps.append(proc(Prog([(nm, cs[:r.randint(0, len(cs))]) for nm, cs in base.items()]).ops()))
    for _ in range(r.choice([1, 2])):
        ch = []
        for nm, cs in base.items():
            o = [change(r, x, .3) if not x.get("want") else x for x in cs]
            if r.random() < skips:
                o = o + [{"op": "skip", "kind": r.choice(["Skip", "Skipf", "SkipNow"]), "base": "a_test"}]
            ch.append({"op": "exec", "name": nm, "t": "g", "children": o})
        ops = [{"op": "group", "children": ch}]
        if clean:
            ops.append(clean_op(sort=r.random() < .3))
        ps.append(proc(ops, env=r.choice([None, "true", None, "clean"] if clean else [None, "true"]), ci=r.random() < .1))
    return {"cfgs": cfgs, "lazy": r.random() < .3, "inplace": True, "procs": ps, "clauses": clauses, "name": "concurrent %d" % i}


# ------------------------------------------------------------------------------------------------ C13

def c13(c):
    r = sub(c, "c13")
    inv = ["ScriptRight", "HunksRight", "ReportRight", "ReportTight"]
    M = dict(Popular=0, PopularDiv=1, Broken="", Letters=["a", "b", "c"], MaxLen=n(4, 5), Ctxs=[0, 1, 3])
    P = dict(M, Popular=3, PopularDiv=3, MaxLen=4)
    small(c, "DiffMC", M, inv)
    small(c, "DiffMC", dict(P, Letters=["a", "b"], MaxLen=n(5, 7)), inv)
    for x in ("extend", "recur", "merge", "group", "render"):
        explore(c.scr, "DiffMC", cfg_text(dict(P, Broken=x), spec="Spec", invs=inv), expect=True)
        c.add(broken_variants_rejected=1)
    c.log("broken variants rejected")
    b = build_driver(c.scr)

    J = lambda ls: b"\n".join(ls)
    jobs = []

    def pairs_of(letters, k, keep=1.0, sym=True):
        ts = [J(s) for s in seqs(letters, k)]
        ss = list(seqs(letters, k))
        return ts, [(i, j) for i in range(len(ts)) for j in range(len(ts)) if (not sym or canonical(ss[i], ss[j], letters)) and (keep == 1.0 or r.random() < keep)]
    L3 = [b"a", b"b", b"c"]
    # all pairs over three letters up to length 5
    if THOROUGH:
        jobs += [{"api": a, "texts": [J(s) for s in seqs(L3, 5)], "all": True, "nocolor": nc} for a in ("SS",) for nc in (True, False)]
    else:
        ts, ps = pairs_of(L3, 5)
        jobs.append({"api": "SS", "texts": ts, "pairs": ps, "nocolor": True})
        jobs.append({"api": "SS", "texts": [J(s) for s in seqs(L3, 4)], "all": True, "nocolor": False})
    # lines that look alike, or like the report
    for al in ([b"", b" ", b"x"], [b"- a", b"+ a", b"@@ -1 +1 @@"], [b"x", b"x\r", b"x "], [b"\xff", b"\xfe", "\ufffd".encode()], [b"", b"a", "\u21b5".encode()][:2] + [b"\x1b[1m"], [b"\x80a", b"a", b"\xc3"], [b"", b"\r", b"\t"]):
        for a, nc in ((r.choice(["S", "SS"]), True), (r.choice(["S", "SS"]), False)):
            ts, ps = pairs_of(al, n(3, 4), sym=False)
            jobs.append({"api": a, "texts": ts, "pairs": ps, "nocolor": nc, "value": r.choice(["", "1", "0", "false"])})
    # single lines, compared character by character when colours are on
    for k in range(n(3, 20)):
        base = [bytes(r.choice(b"ab\xff\xc3\xa9 \t\x1b0") for _ in range(r.randint(0, 8))) for _ in range(20)]
        base += [b"", b"x", b"x\n", b"\n", b"x\n\n", b"\nx", b"\xff", b"\xfe", b"\xff\n", b"\xfe\n", b"a\xffb", b"a\xfeb", "a\ufffdb".encode(), b"\x1b[0m", b"\r", b"\r\n", "\u00e9".encode(), "e\u0301".encode(), b"a" * 3000, b"a" * 2999 + b"b"]
        for nc in (True, False):
            jobs.append({"api": r.choice(["S", "SS"]), "texts": sorted(set(base)), "all": True, "nocolor": nc, "value": r.choice(["", "1"])})
    # longer texts: ranges (> 10 lines), popular lines (>= 200 lines)
    def long_job(lens, count, words, nc, api):
        ts, ps = [], []
        for _ in range(count):
            ln = r.choice(lens)
            w = r.sample(words, min(len(words), r.choice([2, 3, 5, 12])))
            a = [r.choice(w) if r.random() < .7 else b"line %d" % r.randint(0, ln) for _ in range(ln)]
            if r.random() < .4:
                a = [r.choice(w) if r.random() < .25 else b"line %d" % i for i in range(ln)]
            fam = [J(a)]
            for _ in range(4):
                fam.append(J(edited(r, a, w + [b"new"], r.choice([1, 1, 2, 3, 6, 12]))))
            fam.append(J(a) + r.choice([b"\n", b"\n\n", b" ", b"\r"]))
            k = len(ts)
            ts += fam
            ps += [(k + i, k + j) for i in range(len(fam)) for j in range(len(fam)) if i != j or r.random() < .2]
            if k:
                ps.append((k, r.randrange(k)))
        jobs.append({"api": api, "texts": ts, "pairs": ps, "nocolor": nc})
    plainw = [w for w in WORDS if b"---" != w and b"[T0" not in w]
    for api in ("SS", "S"):
        for nc in (True, False):
            m = n(1, 6) * (1 if nc else .3)
            long_job(range(2, 11), int(40 * m), WORDS if api == "S" else plainw, nc, api)
            long_job(range(9, 40), int(40 * m), WORDS, nc, api)
            long_job([198, 199, 200, 201, 205, 260], int(12 * m), plainw, nc, api)
    # many changes far apart
    for api in ("SS", "S"):
        for nc in (True, False):
            ts, ps = [], []
            for gap, times in r.sample([(1, 150), (6, 45), (7, 60), (8, 41), (9, 110), (12, 30), (20, 45), (9, 300)], n(3, 8) if nc else 1):
                a = [b"row %d" % i for i in range(gap * times + 5)]
                x = [r.choice([b"changed", b"c %d" % i]) if i % gap == gap - 1 else l for i, l in enumerate(a)]
                y = [l for i, l in enumerate(a) if i % gap]
                z = [q for i, l in enumerate(a) for q in ([b"new", l] if i % gap == 0 else [l])]
                ps += [(len(ts) + i, len(ts) + j) for i, j in ((0, 1), (0, 2), (2, 0), (3, 0), (0, 3))]
                ts += [J(q) for q in (a, x, y, z)]
            jobs.append({"api": api, "texts": ts, "pairs": ps, "nocolor": nc})
    # long runs of lines added, removed or replaced at once
    for api in ("SS", "S"):
        for nc in (True, False):
            ts, ps = [], []
            for ln in r.sample([60, 130, 260, 520, 700, 1030, 1500, 2100], n(3, 8) if nc else 1):
                a = [b"row %d" % i for i in range(r.choice([4, 30]))]
                new = [r.choice([b"new %d" % i, b"new %d" % i, b"new", b"", b"- new"]) for i in range(ln)]
                k = r.randrange(len(a) + 1)
                fam = [a, a[:k] + new + a[k:], a[:k] + new + a[k + 3:], new + a, a + new, new]
                ps += [(len(ts) + i, len(ts) + j) for i, j in ((0, 1), (1, 0), (0, 2), (2, 0), (0, 3), (0, 4), (4, 0), (5, 0), (1, 2))]
                ts += [J(x) for x in fam]
            jobs.append({"api": api, "texts": ts, "pairs": ps, "nocolor": nc})
    # documents: the received text is the formatted one
    docs_ = []
    for k in range(n(12, 40)):
        o = {"k%d" % i: r.choice([1, "v", [1, 2], {"x": None}, True, "", [{"a": 1}] * 9, "\u2028"]) for i in range(r.choice([0, 1, 3, 14]))}
        docs_ += [json.dumps(o).encode(), json.dumps(dict(o, k0=r.choice([2, "w", []]))).encode()]
    docs_ += [b"1", b"\"a\"", b"\"b\"", b"null", b"[]", b"{}", b"[1]", b"\"\xff\"", b"\"\xfe\""]
    docs_ = sorted(set(docs_))
    ydocs = sorted({b"".join(b"k%d: %s\n" % (i, r.choice([b"1", b"v", b"[1, 2]", b"true # note", b"\n  - 1\n  - 2"])) for i in range(r.choice([1, 1, 2, 4, 13]))) for _ in range(n(14, 40))} | {b"a: 1", b"a: 1\n", b"a: 2\n", b"a: 1 \n"})
    for api, ts in (("J", docs_), ("SJ", docs_), ("Y", ydocs)):
        for nc in (True, False):
            jobs.append({"api": api, "texts": ts, "all": True, "nocolor": nc})

    for j in jobs:      # documented limitation of files with several entries: a carriage return at the end of a line
        if j["api"] == "S" and any(l.endswith(b"\r") for t in j["texts"] for l in t.split(b"\n")):
            j["api"] = "SS"
    t = time.time()
    with cf.ThreadPoolExecutor(6) as ex:
        done = list(ex.map(lambda j: compare(b, c.scr, j), jobs))
    trs, who = [], []
    for j, (tl, evs, texts) in zip(jobs, done):
        for tr in chunks(tl, evs, texts):
            who.append({"name": "%s %s" % (j["api"], "NO_COLOR" if j["nocolor"] else "colours"), "clauses": [], "texts": tr.pop("raw")})
            trs.append(tr)
    c.log("%d comparisons in %.1fs" % (sum(len(d[1]) for d in done), time.time() - t))
    c.add(comparisons=sum(len(d[1]) for d in done), reports=sum(1 for d in done for e in d[1] if e["nerr"]), with_ranges=sum(1 for d in done for e in d[1] if e.get("hs")))
    _, bad = c.traces(None, who, "DiffTrace", "DiffTrace.cfg", "reports", trs=trs, weigh=lambda t: sum(2 + len(e.get("ks", ())) + sum(map(len, e.get("gs", ()))) for e in t["ev"]) + sum(map(len, t["texts"])) // 4)

    # the edit scripts underneath
    ps = []
    ss = list(seqs([1, 2, 3], n(4, 5)))
    ps += [(list(x), list(y)) for x in ss for y in ss if canonical(x, y, [1, 2, 3])] + [([], []), ([], [1]), ([1], [])]
    for k in range(n(60, 600)):
        ln = r.choice([7, 12, 30, 199, 200, 230, 420])
        a = [r.choice([1, 2, 3]) if r.random() < r.choice([.2, .7]) else 10 + i for i in range(ln)]
        for _ in range(3):
            ps.append((a, edited(r, a, [1, 2, 3, 4, 5], r.choice([1, 2, 5, 10]))))
            ps.append((ps[-1][1], a))
    ns = [1000000, 3, 0, 1]
    res = scripts(c.scr, vlib.REPO, ps, ns)
    if isinstance(res, list):
        trs = []
        tls, evs = [], []
        for (x, y), per in zip(ps, res):
            tls += [x, y]
            for m, gs in zip(ns, per):
                evs.append({"ev": "script", "a": len(tls) - 1, "b": len(tls), "n": m, "gs": gs})
        trs = list(chunks(tls, evs))
        [t.pop("raw") for t in trs]
        c.traces(None, [{"name": "edit scripts", "clauses": []} for _ in trs], "DiffTrace", "DiffTrace.cfg", "edit scripts", trs=trs,
                 weigh=lambda t: sum(2 + 2 * sum(map(len, e["gs"])) for e in t["ev"]) + sum(map(len, t["texts"])) // 2)
        c.add(scripts=len(evs))
    elif res is None:
        c.add(scripts=0)
        c.assume.append("the line diff is not reachable as difflib.NewMatcher(a, b).GetGroupedOpCodes(n) in this tree: the edit script was judged through the reports only")
    else:
        c.violation("the line diff fails: " + res[-600:], {"output": res[-3000:]})
    c.assume += ["the layout of a report (header, marks, ranges, footer) is the one of the current tree; what it says is judged against the two texts",
                 "with colours on only emptiness is judged, as the property says"]


# ------------------------------------------------------------------------------------------------ C14-C18: documents

DOCINV = ["Frame", "Holds", "Errors", "EveryPath", "LeftToRight", "NoInfluence", "Influence"]
DOCCFGS = [{"dir": "/d1"}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "upd": False}, {"dir": "/d1", "hasjson": True, "nosort": True}, {"dir": "/d1", "hasjson": True, "width": 40, "indent": "  "},
           {"dir": "/d1", "hasjson": True, "nosort": True, "width": 1, "indent": "\t"}]


def docs_design(c, broken=()):
    C = dict(MaskParent=False, FirstOnly=False, KeepFailed=False, Full=False)
    small(c, "DocsMC", dict(C, Deep=True, Full=THOROUGH), DOCINV, broken=[dict(MaskParent=True)])
    small(c, "DocsMC", dict(C, Deep=False), DOCINV, broken=[dict(FirstOnly=True)] if broken else [])
    if THOROUGH:
        small(c, "DocsMC", dict(C, Deep=False, KeepFailed=True, Full=True), ["EveryPath", "LeftToRight", "NoInfluence", "Influence", "Frame"])


def dweight(t):
    return sum(3 + len(json.dumps(e)) // 200 for e in t["ev"])


def docs_run(c, b, scs, clauses, label="documents"):
    for s in scs:
        s.update(docs=True, clauses=clauses)
        s.setdefault("cfgs", DOCCFGS)
    c.traces(b, scs, "DocsTrace", "DocsTrace.cfg", label=label, weigh=dweight)


def replay_procs(r, P, extra=()):
    """recorded, then replayed in another mode"""
    return [proc(P.ops())] + list(extra) + [proc(P.ops(r if r.random() < .5 else None), **r.choice(RO))]


def ok_matchers(r, t, yaml, k, kinds=None):
    """matchers that succeed on the document, on disjoint paths; (matchers, paths)"""
    ps = paths(t)
    r.shuffle(ps)
    ms, at = [], []
    for p, node in ps:
        if len(ms) >= k:
            break
        if any(p[:len(q)] == q or q[:len(p)] == p for q in at):
            continue
        ms.append(matcher(r, p, node, yaml, kind=r.choice(kinds) if kinds else None))
        at.append(p)
    return ms, at


def merge(r, ms):
    """some matchers of the same kind become one matcher with several paths"""
    out = []
    for m in ms:
        if out and m["kind"] == out[-1]["kind"] == "any" and m.get("ph") == out[-1].get("ph") and m["miss"] == out[-1]["miss"] and r.random() < .7:
            out[-1] = docs.both(out[-1], m)
        elif out and m["kind"] == out[-1]["kind"] == "type" and m["typ"] == out[-1]["typ"] and m["miss"] == out[-1]["miss"] and r.random() < .7:
            out[-1] = docs.both(out[-1], m)
        else:
            out.append(m)
    return out


def tangled(r, t, yaml):
    """one matcher with several paths: nested in each other, equal, missing, or spelt in the other language"""
    ps = paths(t)
    pick = [r.choice(ps)[0] for _ in range(r.choice([1, 2, 3])) if ps]
    for at in pick[:]:
        k = r.random()
        if k < .5 and len(at) > 1:
            pick.insert(r.randrange(len(pick) + 1), at[:r.randrange(1, len(at))])
        elif k < .65:
            pick.append(at)
    for _ in range(r.choice([0, 1])):
        pick.insert(r.randrange(len(pick) + 1), docs.missing(r, t, yaml))
    if not yaml and pick and r.random() < .4:
        pick.insert(r.randrange(len(pick) + 1), (("key", "$"),) + r.choice(pick))
    if not pick:
        pick = [docs.missing(r, t, yaml)]
    m = matcher(r, pick[0], None, yaml, kind=r.choice(["any", "any", "type"]), miss=r.random() < .6)
    for at in pick[1:]:
        m = docs.both(m, matcher(r, at, None, yaml, kind=m["kind"]))
    if m["kind"] == "type":
        ts = [typ_of(x, yaml) for q, x in ps if q in pick]
        m["typ"] = r.choice([x for x in ts if x] or ["string"])
    return m


def with_missing(r, t, ms, yaml, p):
    """some matchers name paths the document does not have, and tolerate that"""
    out = []
    for m in ms:
        if m["kind"] in ("any", "type") and r.random() < p:
            m = dict(m, miss=True, paths=m["paths"][:], segs=m["segs"][:])
            for _ in range(r.choice([1, 1, 2])):
                k, q = r.randrange(len(m["paths"]) + 1), (docs.missing(r, t, yaml) if r.random() < .5 else (("key", "nope"),))
                m["paths"].insert(k, ypath(q) if yaml else jpath(q))
                m["segs"].insert(k, segs(q, yaml))
        out.append(m)
    return out


def c14(c):
    CL = ["nopanic", "one", "valid", "out", "inert", "slot", "tree", "text", "caller"]
    r = sub(c, "c14")
    docs_design(c)
    b = build_driver(c.scr)
    bad = ["", " ", "{", "}", "nope", "{\"a\":}", "[1,]", "{} {}", "{\"a\":1,}", "01", "+1", ".5", "1.", "'a'", "{a:1}", "[1 2]", "\"unterminated", "\"bad \\x escape\"", "tru", "nul", "NaN", "Infinity", "-", "[", "]", "{\"a\"}", "{\"a\":1 \"b\":2}",
           "// c\n1", "\ufeff{}", "\x00", "\"ctl \x01\"", "\"\n\"", "1,2", "{\"a\":1}x", "undefined", "[1,2]]", "\"\\u12\"", "--1", "1e", "1e+", "0x10", "{,}", "[,]", "True"]
    # a valid text with something before, after or inside it
    junk = [chr(x) for x in range(0x21) if x not in (9, 10, 13, 32)] + list("\x7f,;:.#'`/\\}])_0a\"+-") + ["\u00a0", "\u2028", "\u3000", "\ufeff", "\x00\x00", "\n\x00", "//", "/**/", "\x1a", "\\n", "null", "[]", "\n1", " {}"]
    for g in junk:
        for t in ("{}", "[1]", '{"a":1}', "null", '"s"'):
            for x in (t + g, g + t, t + "\n" + g, t[:1] + g + t[1:]):
                try:
                    json.loads(x, parse_constant=lambda _: 1 / 0)
                except (ValueError, ZeroDivisionError):
                    bad.append(x)
    bad += [b"{}\xff", b"\xfe{}", b"[1]\xc3", b"{\x80}"]
    scs = []
    for i in range(n(150, 2000)):
        calls = []
        for _ in range(r.choice([1, 2, 3])):
            t = doc(r, False, custom=False)
            api = r.choice(["J", "J", "SJ"])
            cfg = r.choice([0, 0, 0, 3, 4, 5])
            vs = []
            ref = jtext(r, t)
            for _ in range(r.choice([2, 3, 4])):
                k = r.random()
                # the same document: other whitespace, other order of members, another presentation
                x = jtext(r, t, shuffle=cfg in (0, 4) and r.random() < .6, ws=r.random() < .7)
                vs.append(dcall(r, api, cfg, x))
            d = {"k": "json", "b": b64(ref)}           # a Go value, and the text its encoding is
            go = call(api, cfg, d, want={"k": "bad"})
            enc_ = call(api, cfg, {"k": "enc", "vs": [d], "n": r.randrange(2)}, want={"k": "bad"})
            if cfg in (0, 4):
                vs += [go, enc_]
            calls += vs
        for g in r.sample(GOJSON, 2):
            api = r.choice(["J", "SJ"])
            calls += [call(api, 0, vgo(g), want={"k": "bad"}), call(api, 0, {"k": "enc", "vs": [vgo(g)], "n": r.randrange(2)}, want={"k": "bad"})]
        for _ in range(r.choice([0, 1, 2])):
            calls.insert(r.randrange(len(calls) + 1), dcall(r, r.choice(["J", "SJ"]), r.choice([0, 1]), r.choice(bad)))
        if r.random() < .2:
            calls.insert(r.randrange(len(calls) + 1), call(r.choice(["J", "SJ"]), 0, vgo(r.choice([17, 18, 19, 27])), want={"k": "bad"}))
        P = Prog([("TestA", calls)])
        sw = calls[:]
        # replayed with other presentations of the same documents
        P2 = P.map(lambda x: dict(x, v=dict(x["v"], k=r.choice(["str", "bytes"]))) if x["v"]["k"] in ("str", "bytes") else x)
        # every slot gets a document that is another one's twin or is different
        P3 = Prog([("TestA", [dict(x, api=y["api"], cfg=y["cfg"]) if r.random() < .4 and x["cfg"] == y["cfg"] else y for x, y in zip(r.sample(calls, len(calls)), calls)])])
        scs.append({"procs": [proc(P.ops()), proc(P2.ops(), **r.choice(RO)), proc(P3.ops(), env=r.choice([None, "true"]))], "name": "presentations %d" % i})
    # every invalid text alone, with an existing snapshot and without
    for k in range(0, len(bad), 20):
        P = Prog([("TestA", [x for y in bad[k:k + 20] for x in (dcall(r, "J", 0, y), dcall(r, "SJ", 0, y, form="bytes"))])])
        G = P.map(lambda x: dict(x, v=vstr("{\"a\":1}")))
        scs.append({"procs": [proc(P.ops()), proc(G.ops()), proc(P.ops(), env="true"), proc(G.ops())], "name": "invalid %d" % k})
    docs_run(c, b, scs, CL)
    c.assume += ["members with equal names, an Indent that is not whitespace and nesting beyond encoding/json's limit are not generated", "documents are read back by encoding/json, not by the parser under test"]


def c15(c):
    CL = ["nopanic", "one", "out", "inert", "slot", "tree", "caller", "cb"]
    r = sub(c, "c15")
    docs_design(c, broken=True)
    b = build_driver(c.scr)
    scs = []
    for i in range(n(260, 3500)):
        calls = []
        for _ in range(r.choice([1, 2, 3])):
            yaml = r.random() < .5
            t = doc(r, yaml)
            ps = paths(t)
            ms = []
            for _ in range(r.choice([1, 1, 2, 3])):
                if ps and r.random() < .9:
                    at, node = r.choice(ps) if not yaml or r.random() < .95 else ((), t)
                    ms.append(matcher(r, at, node, yaml, good=r.random() < .92))
                else:
                    ms.append(matcher(r, docs.missing(r, t, yaml), None, yaml, miss=r.random() < .7))
            if r.random() < .4 and ps:      # one after the other on the same or on nested paths
                at, node = r.choice(ps)
                ms += [matcher(r, at, node, yaml), matcher(r, at, node, yaml, kind="custom")]
                if len(at) > 1:
                    ms.insert(r.randrange(len(ms) + 1), matcher(r, at[:-1], None, yaml, kind="any"))
            ms = merge(r, ms)
            if r.random() < .25:            # paths of one matcher that depend on each other, or that are missing among others
                ms.append(tangled(r, t, yaml))
            calls.append(dcall(r, "Y" if yaml else r.choice(["J", "J", "SJ"]), 0 if yaml else r.choice([0, 3, 3, 5]), show(r, t, yaml), ms, form=r.choice(["bytes", "bytes", "str"])))
        P = Prog([("TestA", calls)])
        scs.append({"procs": [proc(P.ops())], "name": "masks %d" % i})
    # every path of a document, every kind
    for i in range(n(24, 250)):
        yaml = i % 2 == 0
        t = doc(r, yaml)
        s = r.random()
        calls = [dcall(r, "Y" if yaml else "J", 0 if yaml else 3, show(r, t, yaml, seed=s, end="\n"), [matcher(r, at, node, yaml, kind=k)], form="bytes") for at, node in paths(t)[:8] for k in ("any", "type", "custom")]
        scs.append({"procs": [proc(Prog([("TestA", calls)]).ops())], "name": "every path %d" % i})
    # paths to a member of every element, and paths that are no place in the document
    for i in range(n(60, 700)):
        calls = []
        for _ in range(r.choice([1, 2, 3])):
            yaml = r.random() < .5
            t, at = docs.listed(r, yaml)
            ms = [matcher(r, at, None, yaml, kind="any", miss=r.random() < .3)]
            cov = docs.expand(t, at)
            if r.random() < .4:
                free = docs.apart(t, at, cov)
                if free:
                    q, x = r.choice(free)
                    ms.insert(r.randrange(2), matcher(r, q, x, yaml))
            if r.random() < .3:      # one of the places again, after they were replaced
                ms.append(matcher(r, r.choice(cov), None, yaml, kind=r.choice(["any", "custom"])))
            if not yaml and r.random() < .25:
                ms.insert(r.randrange(len(ms) + 1), matcher(r, docs.oddpath(r, t), None, yaml, kind=r.choice(["any", "any", "type"]), miss=False))
            if r.random() < .3:
                ms = merge(r, ms)
            calls.append(dcall(r, "Y" if yaml else r.choice(["J", "J", "SJ"]), 0 if yaml else r.choice([0, 3, 3, 5]), show(r, t, yaml), ms, form=r.choice(["bytes", "str"])))
        scs.append({"procs": [proc(Prog([("TestA", calls)]).ops())], "name": "every element %d" % i})
    # matchers made once and used for one document after another
    for i in range(n(40, 400)):
        yaml = r.random() < .5
        t = doc(r, yaml)
        ps = paths(t)
        if not ps:
            continue
        ms = []
        for _ in range(r.choice([1, 1, 2])):
            at, node = r.choice(ps)
            ms.append(matcher(r, at, node, yaml, kind=r.choice(["any", "type", "custom", "custom"]), miss=r.random() < .3))
        us = [t]
        for _ in range(r.choice([2, 3, 5])):
            u = us[-1] if r.random() < .7 else doc(r, yaml)
            for _ in range(r.choice([1, 2, 4])):
                q = paths(u)
                if q:
                    at, x = r.choice(q)
                    u = vary(r, u, at, x, yaml, None) or u
            us.append(u)
        us.append(t)
        scs.append({"procs": [proc(Prog([("TestA", [dcall(r, "Y" if yaml else r.choice(["J", "SJ"]), 0 if yaml else 3, show(r, u, yaml), ms, form=r.choice(["bytes", "str"])) for u in us])]).ops())], "name": "matchers again %d" % i})
    # several YAML documents: every one that has the path
    for i in range(n(24, 250)):
        ts = [("obj", [(k, tree(r, 1, YKEYS, YSTRS, YNUMS, False)) for k in r.sample(YKEYS, r.choice([1, 2, 3]))]) for _ in range(r.choice([2, 3]))]
        at, node = r.choice(paths(r.choice(ts)))
        txt = "\n---\n".join(ytext(r.random(), t) for t in ts) + r.choice(["", "\n"])
        if r.random() < .3:
            txt = "---\n" + txt
        scs.append({"procs": [proc(Prog([("TestA", [dcall(r, "Y", 0, txt, [matcher(r, at, node, True, kind=r.choice(["any", "any", "custom"]))])])]).ops())], "name": "documents %d" % i})
    docs_run(c, b, scs, CL)
    keyed = [("c15-yaml-anchor", "a: &x {k: 1}\nb: *x\n", "$.a", "a"), ("c15-yaml-empty-document", "a: 1\n---\n---\nb: 2\n", "$.a", "a")]
    docs_run(c, b, [{"procs": [proc(Prog([("TestA", [dcall(r, "Y", 0, t, [{"kind": "any", "paths": [p], "segs": [[{"t": "key", "s": k}]], "miss": False}])])]).ops())], "name": key, "key": key} for key, t, p, k in keyed], CL, "recorded findings")
    c.assume += ["YAML comments and blank lines are not values", "paths: members and elements, and for Any every element of a list (no queries, no recursive descent); JSON paths that are no place in the document have to be reported"]


def akin(r, node, yaml):
    """a value that is easily taken for the given one"""
    k, v = node
    c = []
    if k == "str":
        c = [v.swapcase(), v.upper(), v + " ", " " + v, v + v, v[:-1], v.strip(), v + "\n"] + (["<any value>"] if v == "<Any value>" else [])
        c = [("str", x) for x in c if not (yaml and ("\t" in x or x != x.strip() and "\n" in x))]
        if v in ("true", "false", "null"):
            c.append(("lit", v))
        if v in (YNUMS if yaml else SMALL):
            c.append(("num", v))
        if v == "":
            c += [("lit", "null"), ("obj", []), ("arr", [])]
    elif k == "num":
        c = [("str", v), ("num", "1" + v if v[0].isdigit() and v != "0" else "2"), ("num", v[1:] if v[0] == "-" else "-" + v if v != "0" else "1"), ("arr", [node])]
    elif k == "lit":
        c = [("str", v), ("lit", {"true": "false", "false": "true", "null": "false"}[v])] + ([("str", ""), ("obj", []), ("arr", []), ("num", "0")] if v == "null" else [])
    elif not v:
        c = [("arr" if k == "obj" else "obj", []), ("lit", "null"), ("str", "")]
    elif k == "arr":
        c = [("arr", v[::-1]), ("arr", v[:-1]), ("arr", v + v[-1:]), ("arr", [node])]
    else:
        c = [("obj", v[:-1]), ("obj", [(n.swapcase(), x) for n, x in v]) if len({n.swapcase() for n, _ in v}) == len(v) else ("lit", "null"), ("arr", [x for _, x in v])]
    c += [("str", x) for x in ("<Any value>", "masked")] + [("lit", "null")]
    c = [x for x in c if x != node]
    return r.choice(c)


def vary(r, t, at, node, yaml, keep_type):
    """the document with another value at the path"""
    for i in range(40):
        x = akin(r, node, yaml) if r.random() < .4 else tree(r, r.choice([0, 0, 1, 2]), YKEYS if yaml else JKEYS, YSTRS if yaml else STRS, YNUMS if yaml else SMALL, False)
        if keep_type and typ_of(x, yaml) != keep_type:
            continue
        if x != node:
            return put(t, at, x)
    return None


def c16(c):
    CL = ["nopanic", "out", "inert", "tree", "text"]
    r = sub(c, "c16")
    docs_design(c)
    b = build_driver(c.scr)
    scs = []
    for i in range(n(230, 3000)):
        yaml = r.random() < .45
        rec, cmpr = [], []
        for _ in range(r.choice([1, 2, 3])):
            t = doc(r, yaml, big=.12)
            ms, cov = ok_matchers(r, t, yaml, r.choice([1, 1, 2, 3]), kinds=["any", "any", "type", "const"])
            for m, at in zip(ms, cov):
                if m["kind"] == "const":
                    node = dict(paths(t))[at]
                    same = [vstr(x) for x in (node[1].upper(), node[1].lower(), node[1].swapcase(), node[1].strip(), node[1])] if node[0] == "str" else [vstr(node[1])] if node[0] in ("num", "lit") else []
                    m.update(kind="custom", cb="const", ph=r.choice(same if same and r.random() < .4 else [vstr("masked"), vgo(2), vgo(12), vstr("two\nlines")]))
            if not ms:
                continue
            mm = with_missing(r, t, merge(r, ms), yaml, .3)
            seed, end, fam = r.random(), r.choice(["", "\n"]), "f%d" % r.randrange(1 << 40)
            api, cfg = ("Y", 0) if yaml else (r.choice(["J", "SJ"]), r.choice([0, 0, 3, 4]))
            notes = r.random() < .3
            sh = (lambda x: show(r, x, True, seed=seed, end=end, notes=notes, loose=cov)) if yaml else (lambda x: jtext(r, x, shuffle=cfg in (0, 4) and r.random() < .3, ws=r.random() < .3))
            for _ in range(r.choice([1, 2, 3])):
                u = t
                for m, at in zip(ms, cov):                   # covered paths change freely
                    if r.random() < .8:
                        node = dict((q, x) for q, x in paths(u))[at]
                        u = vary(r, u, at, node, yaml, typ_of(node, yaml) if m["kind"] == "type" else None) or u
                if r.random() < .5:                          # and so does one that is not covered
                    free = [(q, x) for q, x in paths(u) if not any(q[:len(p)] == p or p[:len(q)] == q for p in cov)]
                    if free:
                        q, x = r.choice(free)
                        u = vary(r, u, q, x, yaml, None) or u
                rec.append(dcall(r, api, cfg, sh(t), mm, fam))
                cmpr.append(dcall(r, api, cfg, sh(u), mm, fam))
        if not rec:
            continue
        A, B = Prog([("TestA", rec), ("TestB", cmpr)]), Prog([("TestA", cmpr), ("TestB", rec)])
        scs.append({"procs": [proc(A.ops()), proc(B.ops(), **r.choice(RO)), proc(B.ops(), env=r.choice(["true", None])), proc(B.ops())], "name": "variants %d" % i})
    # the same member of every element
    for i in range(n(40, 500)):
        yaml = r.random() < .5
        t, at = docs.listed(r, yaml)
        cov = docs.expand(t, at)
        ms = [matcher(r, at, None, yaml, kind="any")]
        seed, end, fam = r.random(), r.choice(["", "\n"]), "f%d" % r.randrange(1 << 40)
        api, cfg = ("Y", 0) if yaml else (r.choice(["J", "SJ"]), r.choice([0, 0, 3, 4]))
        sh = (lambda x: show(r, x, True, seed=seed, end=end, notes=False, loose=cov)) if yaml else (lambda x: jtext(r, x, shuffle=False, ws=r.random() < .3))
        rec, cmpr = [], []
        for _ in range(r.choice([1, 2, 3])):
            u = t
            for q in cov:
                if r.random() < .7:
                    u = vary(r, u, q, dict(paths(u))[q], yaml, None) or u
            if r.random() < .5:
                free = docs.apart(u, at, cov)
                if free:
                    q, x = r.choice(free)
                    u = vary(r, u, q, x, yaml, None) or u
            rec.append(dcall(r, api, cfg, sh(t), ms, fam))
            cmpr.append(dcall(r, api, cfg, sh(u), ms, fam))
        A, B = Prog([("TestA", rec), ("TestB", cmpr)]), Prog([("TestA", cmpr), ("TestB", rec)])
        scs.append({"procs": [proc(A.ops()), proc(B.ops(), **r.choice(RO)), proc(B.ops())], "name": "every element %d" % i})
    docs_run(c, b, scs, CL)
    t0 = "{\"a\":null,\"b\":1}"
    docs_run(c, b, [{"procs": [proc(Prog([("TestA", [dcall(r, "J", 0, t0, [m]), ])]).ops()), proc(Prog([("TestA", [dcall(r, "J", 0, "{\"a\":\"x\",\"b\":1}", [m])])]).ops())], "name": "c16-type-interface", "key": "c16-type-interface"}
                     for m in [{"kind": "type", "typ": "any", "paths": ["a"], "segs": [[{"t": "any", "s": "a"}]], "miss": False}]], CL, "recorded findings")


def c17(c):
    CL = ["nopanic", "one", "fails", "named", "inert", "out", "slot", "tree"]
    r = sub(c, "c17")
    docs_design(c, broken=True)
    b = build_driver(c.scr)
    scs = []
    for i in range(n(260, 3500)):
        def one(fail):
            yaml = r.random() < .45
            t = doc(r, yaml)
            ps = paths(t)
            ms = []
            for _ in range(r.choice([1, 2, 3, 4])):
                k = r.random()
                if not ps or k < .4:
                    at = docs.missing(r, t, yaml)
                    ms.append(matcher(r, at, None, yaml, miss=r.random() < (.5 if fail else 1)))
                    if fail and yaml and r.random() < .3:      # a path that is none is missing, too
                        m = matcher(r, (("key", "nope"),), None, yaml, kind=r.choice(["any", "type"]), miss=False)
                        m["paths"] = [r.choice(["nope", "a.b", "", "$[", "$.'a", "name"])]
                        ms.insert(r.randrange(len(ms) + 1), m)
                else:
                    at, node = r.choice(ps)
                    ms.append(matcher(r, at, node, yaml, kind=r.choice(["any", "type", "type", "custom"]), good=not fail or r.random() < .4, miss=r.random() < .3))
            if r.random() < .1:      # many paths that fail, in one matcher or in many
                kind = r.choice(["any", "type"])
                many, seen = [], set()
                for _ in range(r.choice([9, 12, 25])):
                    at = docs.missing(r, t, yaml)
                    at = at[:-1] + (("key", "%s%d" % (r.choice(["nope", "no.pe", "x"]), len(many))),) if at[-1][0] == "key" else at
                    if at not in seen:
                        seen.add(at)
                        many.append(matcher(r, at, None, yaml, kind=kind, miss=False))
                if r.random() < .6:
                    x = many[0]
                    for y in many[1:]:
                        x = docs.both(x, y)
                    many = [x]
                ms = ms[:2] + many
            ms = merge(r, ms)
            if r.random() < .3 and len(ms) > 1:      # a matcher with a path that fails and one that does not
                k = r.randrange(len(ms) - 1)
                if ms[k]["kind"] == ms[k + 1]["kind"] != "custom" and ms[k]["miss"] == ms[k + 1]["miss"] and ms[k].get("typ") == ms[k + 1].get("typ"):
                    ms[k:k + 2] = [docs.both(ms[k], ms[k + 1])]
            if not yaml and fail and r.random() < .15:
                ms.insert(r.randrange(len(ms) + 1), matcher(r, docs.oddpath(r, t), None, yaml, kind=r.choice(["any", "type"]), miss=False))
            if r.random() < .2:
                ms.insert(r.randrange(len(ms) + 1), tangled(r, t, yaml))
            return dcall(r, "Y" if yaml else r.choice(["J", "SJ"]), r.choice([0, 0, 1, 2]), show(r, t, yaml), ms)
        bad1 = [one(r.random() < .6) for _ in range(r.choice([2, 4, 6]))]
        # the same slots: some get the document without matchers, some fail again
        second = [dict(x, m=[] if r.random() < .4 else x["m"], cfg=r.choice([0, 1, 2])) for x in bad1]
        ex2 = [("TestA", bad1), ("TestA/sub", bad1[::-1])]
        scs.append({"procs": [proc(Prog(ex2).ops(r, count=r.choice([1, 2]))), proc(Prog([("TestA", second), ("TestA/sub", second[::-1])]).ops(), env=r.choice([None, "true"]), ci=r.random() < .15), proc(Prog(ex2).ops(), env=r.choice([None, "true", "clean"]))], "name": "failures %d" % i})
    docs_run(c, b, scs, CL)


def c18(c):
    CL = ["nopanic", "one", "valid", "out", "inert", "slot", "tree", "text", "verbatim", "caller"]
    r = sub(c, "c18")
    docs_design(c)
    design(c, broken=[{"StructuralLookup": False}])
    b = build_driver(c.scr)
    bad = ["a: [1", "{a: 1", "a: b: c", "\tx: 1\n\t- y", "a: \"x", "'a", "- a\nb: c", "a: 1\n  b: 2", "[1, 2", "a: *nope", "}", "]", "a:\n\t- 1", "? [", "a: |\n x\n  y\n z: [", "k: !!int x\n: [", "a: @x", "a: `x`"]
    scs = []
    for i in range(n(220, 3000)):
        calls = []
        for _ in range(r.choice([2, 4, 6])):
            k = r.random()
            if k < .45:
                x = ydoc(r)
            elif k < .75:
                t = doc(r, True)
                x = show(r, t, True)
            elif k < .9:
                x = "\n".join(r.choice(["---", "--- ", "---\t", " ---", "a: 1", "# c", "", "b: x", "...", "k: |\n  ---\n  /-/-/-/", "", "- 1", "c: 'q'", "  ", "z:  spaced   # tail", "---  # doc", "--- text", "%YAML 1.2", "[TestA - 1]", "[TestA - 2]", "/-/-/-/", "//-/-/-/"]) for _ in range(r.choice([1, 2, 3, 5])))
            elif k < .96:
                calls.append(call("Y", r.choice([0, 0, 1, 2]), vgo(r.choice(GOYAML)), want={"k": "bad"}))
                continue
            else:
                x = r.choice(bad)
            ms = []
            if r.random() < .15:        # matchers none of which applies
                ms = [{"kind": r.choice(["any", "custom", "type"]), "typ": "string", "cb": "err", "paths": [p], "segs": [[{"t": "key", "s": p[2:]}]], "miss": True} for p in r.sample(["$.nope", "$.never"], r.choice([1, 2]))]
            calls.append(dcall(r, "Y", r.choice([0, 0, 0, 1, 2]), x, ms))
        P = Prog([(nm, r.sample(calls, len(calls))) for nm in r.choice([["TestA"], ["TestA", "TestB"], ["TestA/a", "TestA"]])])

        def tweak(x):
            import base64
            if x["v"]["k"] not in ("str", "bytes"):
                return x
            t = base64.b64decode(x["v"]["b"])
            return dict(x, v=dict(x["v"], b=b64(r.choice([t + b"\n", t.rstrip(b"\n"), t.replace(b"#", b"##"), t.replace(b": ", b":  ", 1), b"\n" + t, t + b"# c", b"---\n" + t, t.replace(b"---", b"...", 1)]))))
        P2 = P.map(lambda x: tweak(x) if r.random() < .3 else x)
        scs.append({"procs": [proc(P.ops(r)), proc(P.ops(), **r.choice(RO)), proc(P2.ops(), env=r.choice([None, "true"])), proc(P2.ops())], "name": "verbatim %d" % i})
    # line ends of another platform are stored as given; comparing them is a documented limitation
    for k in range(n(12, 60)):
        calls = []
        for _ in range(4):
            x = ydoc(r) if r.random() < .6 else show(r, doc(r, True), True)
            calls.append(dcall(r, "Y", 0, r.choice([x.replace("\n", "\r\n"), x + "\r\n", x.replace("\n", " \n"), x.replace("\n", "\t\n", 1), x.replace("---", "--- "), x + "\n--- \nz: 1", x.replace("\n", "\r\n", 1)])))
        scs.append({"procs": [proc(Prog([("TestA", calls)]).ops(r))], "name": "line ends %d" % k})
    for k in range(0, len(bad), 6):
        P = Prog([("TestA", [dcall(r, "Y", 0, y) for y in bad[k:k + 6]])])
        G = P.map(lambda x: dict(x, v=vstr("a: 1")))
        scs.append({"procs": [proc(P.ops()), proc(G.ops()), proc(P.ops(), env="true"), proc(G.ops())], "name": "invalid %d" % k})
    docs_run(c, b, scs, CL)


# ------------------------------------------------------------------------------------------------ C19

def c19(c):
    CL = ["nopanic", "replay", "out", "place", "disk", "end"]
    r = sub(c, "c19")
    design(c, dict(Solo=True, Upds=["unset", "true"], Tests=["TestA"]), deep=dict(MaxOps=3))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=10, MaxProcs=3, MaxCalls=5, Solo=True, Upds=["unset", "true", "false"], Envs=["", "true"], CIs=[False, True]), n(60, 600), r), CL, "model behaviour")
    cfgs = [{"dir": "/d1"}, {"dir": "/d1", "fn": "page", "ext": ".html"}, {"dir": "/d1/%d", "fn": "100%"}, {"dir": "/d1", "ext": ".txt"}, {"dir": "/d1", "upd": True}, {"dir": "/d2", "fn": "a.b_%s", "upd": False},
            {"dir": "/d1", "hasjson": True, "width": 20, "indent": "\t"}, {"dir": "/d1", "hasjson": True, "nosort": True}]

    def raw():
        k = r.randrange(8)
        if k == 0:
            return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 17, 300])))
        if k == 1:
            return b"\r\n".join(text(r, cr=True) for _ in range(3)) + r.choice([b"", b"\r", b"\r\n", b"\n"])
        if k == 2:
            return r.choice([b"", b"\n", b"\r", b"\r\n", b"\n\n", b" ", b"\x00", b"---", b"\n---\n", b"[TestA - 1]", b"\n[TestA - 1]\nx\n---\n", b"\xef\xbb\xbf", b"/-/-/-/", b"x\n", b"\nx", b"%d", b"\x1a"])
        if k == 3:
            return text(r, cr=True, big=.3)
        return text(r, cr=True)

    def solo():
        i = r.randrange(len(cfgs))
        if r.random() < .65:
            return call("SS", i, vstr(raw()) if r.random() < .9 else vgo(r.choice(GOVALS)))
        return call("SJ", i, value(r, "SJ", bad=.08))
    for i in range(n(200, 2600)):
        names = list(dict.fromkeys(r.choice(NAMES) + r.sample(["TestA", "TestA/x", "TestA_x", "TestB", "TestA/x/y", "TestA/x_y"], 2)))
        k = r.choice([(1, 3), (1, 5), (9, 12)])
        ex = [(nm, [solo() for _ in range(r.randint(*k))]) for nm in names]
        if r.random() < .2:      # other calls in between do not count
            ex = [(nm, [y for x in cs for y in ([x] if r.random() < .6 else [call("S", 0, vstr(text(r))), x])]) for nm, cs in ex]
        P, ps = Prog(ex), []
        ps.append(proc(P.ops(r if r.random() < .5 else None, count=r.choice([1, 1, 2, 3]))))
        for _ in range(r.choice([1, 2])):
            P = P.map(lambda x: dict(x, v=vstr(raw())) if x["api"] == "SS" and r.random() < .3 else change(r, x, .3) if not x.get("want") else x)
            ps.append(proc(P.ops(r if r.random() < .5 else None, count=r.choice([1, 2])), env=r.choice([None, "true", "true", "clean"]), ci=r.random() < .15))
        scs.append({"cfgs": cfgs, "procs": ps, "clauses": CL, "name": "standalone %d" % i})
    # files changed by other tools between the runs
    for i in range(n(30, 300)):
        vals = [raw() for _ in range(4)]
        P = Prog([("TestA", [call("SS", 0, vstr(v)) for v in vals])])
        ed = {"/d1/TestA_%d.snap" % (k + 1): r.choice([vals[k], vals[k] + b"\n", vals[k].rstrip(), raw(), vals[k].replace(b"\n", b"\r\n"), None]) for k in range(4) if r.random() < .7}
        scs.append({"cfgs": cfgs, "procs": [proc(P.ops()), {"edit": ed}, proc(P.ops(), env=r.choice([None, "true"]), ci=r.random() < .2), proc(P.ops())], "clauses": CL, "name": "edited %d" % i})
    c.traces(b, scs)


# ------------------------------------------------------------------------------------------------ C20

def c20(c):
    CL = ["nopanic", "one", "inert", "sum", "skip", "race"]
    r = sub(c, "c20")
    design(c, dict(Bads=["bad"], Skipping=True, Vals="<-TwoVals", Envs=["true", "clean"], Upds=["unset"]), deep=dict(MaxOps=3, Tests=["TestA"]))
    b = build_driver(c.scr)
    scs = finish_scs(behaviours(c, dict(MaxOps=10, MaxProcs=3, MaxCalls=5, Solo=True, Sorting=[True, False], Skipping=True, Bads=["bad"], Upds=["unset", "true", "false"], Envs=["", "true", "clean"], CIs=[False, True]), n(60, 600), r), CL, "model behaviour")
    scs += clean_scenarios(c, r, n(90, 1200), CL, run=.15, skip=.4, ci=.2)
    blocked = {"/blk": b"a file where a directory is wanted"}
    cfgs = [{"dir": "/d1"}, {"dir": "/d1", "upd": True}, {"dir": "/d1", "upd": False}, {"dir": "/blk/x"}, {"dir": "/d2", "ext": ".txt"}]
    for i in range(n(120, 1500)):
        ps = []
        names = names_set(r, r.choice([2, 4, 7]))

        def one():
            k = r.random()
            if k < .08:
                return call(r.choice(["S", "J", "Y", "SS", "SJ"]), 3, vstr("1"), want={"k": "bad"})           # cannot be stored
            if k < .14:
                return call("S", r.choice([0, 1, 2]), {"k": "none"})                                       # MatchSnapshot without values
            if k < .24:
                return call(r.choice(["J", "SJ"]), r.choice([0, 1, 2]), vstr(MDOC), m=[{"kind": "any", "paths": ["nope"]}, {"kind": "type", "typ": "string", "paths": ["z"]}], want={"k": "bad"})
            if k < .3:
                return call("Y", r.choice([0, 1, 2]), vstr("a: 1\n"), m=[{"kind": "custom", "paths": ["$.a"], "cb": "err"}], want={"k": "bad"})
            if k < .4:
                return masked_call(r, r.choice([0, 1, 2]))
            x = anycall(r, r.choice([0, 1, 2, 4]), cfgs, base="a_test", bad=.15)
            return x
        P = Prog([(nm, [one() for _ in range(r.randint(0, 6))]) for nm in names])
        for _ in range(r.choice([1, 2, 3])):
            ops = P.ops(r if r.random() < .5 else None, count=r.choice([1, 1, 2]))
            out = []
            for o in ops:
                if o["op"] == "end" and r.random() < .2:
                    out += [{"op": "skip", "t": o["t"], "kind": r.choice(["Skip", "Skipf", "SkipNow"]), "base": "a_test"}] * r.choice([1, 1, 2])
                out.append(o)
            out += [clean_op(sort=r.random() < .3)] * r.choice([1, 1, 2])
            ps.append(proc(out, env=r.choice([None, "true", "false", "clean"]), ci=r.random() < .2, nocolor=r.random() < .3))
            P = P.map(lambda x: change(r, x, .4) if not x.get("want") and x["v"]["k"] != "none" else x)
        scs.append({"cfgs": cfgs, "init": blocked, "procs": ps, "clauses": CL, "name": "history %d" % i})
    # snapshots that can be read and not be written
    for i in range(n(30, 300)):
        names = names_set(r, r.choice([1, 2, 4]))
        solo = r.random() < .4
        apis = ["SS", "SJ"] if solo else ["S", "J", "Y", "SS", "SJ"]
        P = prog(r, names, apis, 3, calls=(1, 5), big=0)
        P2 = P.map(lambda x: change(r, x, .5))
        P3 = Prog([(nm, cs + [anycall(r, 0, cfgs, base="a_test")] if not solo else cs + [call("SS", 0, vstr("more"))]) for nm, cs in P2.execs])
        ps = [proc(P.ops()), proc(P3.ops(r) + [clean_op()] * solo, env=r.choice([None, "true", "true", "false"]), ci=r.random() < .1), proc(P2.ops() + [clean_op()], env=r.choice([None, "true"]))]
        ps[1]["ro"] = ["/d1"]
        ps[2]["ro"] = []
        scs.append({"cfgs": cfgs[:3], "procs": ps, "clauses": CL + ["out", "disk"], "name": "read-only %d" % i})
    # a directory where the snapshot should be: it can be neither read nor written
    for i in range(n(20, 200)):
        P = prog(r, names_set(r, r.choice([1, 2, 3])), ["S", "J", "Y", "SS", "SJ"], 3, calls=(1, 5), big=0).map(lambda x: dict(x, cfg=3, want={"k": "bad"}) if r.random() < .4 else x)
        ps = [proc(P.ops()), proc(P.map(lambda x: x if x.get("want") else change(r, x, .5)).ops(r), env=r.choice([None, "true", "true", "false"]), ci=r.random() < .1)]
        scs.append({"cfgs": cfgs[:3] + [{"dir": "/d4", "fn": "in"}], "initdirs": ["/d4/in.snap"] + ["/d4/in_%d.snap%s" % (k, e) for k in range(1, 40) for e in ("", ".json")], "procs": ps, "clauses": CL + ["out", "disk"], "name": "in a directory's place %d" % i})
    # many outcomes of one kind, large totals
    for i in range(n(3, 20)):
        k = r.choice([1, 60, 130])
        ex = [("TestA", [call("S", 0, vstr("v%d" % j if r.random() < .9 else "w")) for j in range(k)])]
        scs.append({"cfgs": cfgs, "procs": [proc(Prog(ex[:1]).ops() + [clean_op()]), proc(Prog([("TestA", ex[0][1][:k // 2 + 1])]).ops() + [clean_op()], env=r.choice([None, "clean"]))], "clauses": CL, "name": "many calls %d" % i})
    scs += [group_scenario(r, CL, i, tests=(4, 8, 16), clean=True, skips=.5) for i in range(n(60, 600))]
    c.traces(b, scs)
    rb = build_driver(c.scr, ["-race"])
    c.traces(rb, [group_scenario(r, CL, i, tests=(4, 8), clean=True, skips=.5) for i in range(n(20, 200))], label="concurrent histories (race detector)")


# ------------------------------------------------------------------------------------------------ registry

CHECKS = {k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r"c\d\d", k)}
