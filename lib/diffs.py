"""Failure reports and edit scripts: inputs, execution and taking apart (judged by DiffTrace.tla)."""
import base64, itertools, json, os, re, subprocess, shutil
from vlib import *

HEAD = re.compile(rb"\s*- Snapshot +- (\d+)\n\+ Received +\+ (\d+)\n\n")
FOOT = re.compile(rb"\n\nat [^\n]*:\d+\s*$")
RANGE = re.compile(rb"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$")
NL = "↵".encode()


class Ids:
    """line <-> number; number 0 is a line no text has"""
    def __init__(self):
        self.d = {}

    def new(self, l):
        return self.d.setdefault(l, len(self.d) + 1)

    def get(self, l):
        return self.d.get(l, 0)


def take_apart(ids, rep):
    """a report of a run without colours -> the fields of a diff event"""
    e = {"parsed": False, "hd": -1, "hi": -1, "esc": 0, "ks": [], "ls": [], "hs": [], "blank": not rep.strip()}
    m = HEAD.match(rep)
    f = FOOT.search(rep, max(0, rep.rfind(b"\n\nat ")))
    if not m or not f or f.start() < m.end() - 1:
        return e
    e["hd"], e["hi"] = int(m.group(1)), int(m.group(2))
    body = rep[m.end():f.start() + 1]
    e["esc"] = rep[:m.end()].count(b"\x1b") + rep[f.start():].count(b"\x1b")
    if not body.endswith(b"\n"):
        return e
    after = False     # an empty line follows a range
    for l in body[:-1].split(b"\n"):
        if after and l == b"":
            after = False
            continue
        after = False
        k, x = l[:2], l[2:]
        if k in (b"- ", b"+ "):
            i = ids.get(x)
            e["ks"].append(k[:1].decode())
            e["ls"].append(i)
            e["esc"] += 0 if i else x.count(b"\x1b")
        elif k == b"  ":
            i = ids.get(b"" if x == NL and not ids.get(NL) else x)
            e["ks"].append(" ")
            e["ls"].append(i)
            e["esc"] += 0 if i else x.count(b"\x1b")
        else:
            r = RANGE.match(l)
            if not r:
                e["esc"] += l.count(b"\x1b")
                return e
            g = [int(x) if x is not None else 1 for x in r.groups()]
            e["hs"].append(g)
            e["ks"].append("@")
            e["ls"].append(len(e["hs"]))
            after = True
    e["parsed"] = True
    return e


def compare(binary, scr, job):
    """stores the texts of a job and compares pairs of them.  job: api, texts, pairs or all, nocolor, cfg"""
    root = scr.new("dif")
    cfgs = [dict({"dir": "/d1", "upd": False}, **job.get("cfg", {})), dict({"dir": "/d1", "upd": True}, **job.get("cfg", {}))]
    plan = {"cfgs": cfgs}
    D = {"api": job["api"], "texts": [b64(t) for t in job["texts"]]}
    os.makedirs(root, exist_ok=True)
    fst = run_proc(binary, root, root + ".plan", root + ".out", dict(plan, diff=dict(D, store=True, cfg=1)), {"ops": []}, timeout=600)
    if any(e["nerr"] or e["nlog"] != 1 for e in fst):
        raise CheckError("texts cannot be stored: %s" % [base64.b64decode(e["r"]) for e in fst if e["nerr"]][:3])
    # the text a value is formatted as is what storing it stores
    if job["api"] == "S":       # formatted as for a standalone snapshot, which is stored as it is
        run_proc(binary, root, root + ".plan", root + ".out", dict(plan, diff=dict(D, store=True, cfg=1, api="SS")), {"ops": []}, timeout=600)
    texts = stored(root, job)
    proc = {"ops": [], "nocolor": job["nocolor"]}
    if job["nocolor"]:
        proc["xenv"] = {"NO_COLOR": job.get("value", "1")}
    evs = run_proc(binary, root, root + ".plan", root + ".out", dict(plan, diff=dict(D, cfg=0, all=job.get("all", False), pairs=job.get("pairs", []))), proc, timeout=800)
    shutil.rmtree(root, ignore_errors=True)
    for p in (".plan", ".out"):
        if os.path.exists(root + p):
            os.remove(root + p)
    ids = Ids()
    tl = [[ids.new(l) for l in t.split(b"\n")] for t in texts]
    out = []
    for e in evs:
        rep = base64.b64decode(e["r"])
        x = {"ev": "diff", "a": e["a"] + 1, "b": e["b"] + 1, "nerr": e["nerr"], "nother": e["nlog"], "col": not job["nocolor"], "blank": not rep.strip(), "parsed": False}
        if job["nocolor"] and e["nerr"] == 1:
            x.update(take_apart(ids, rep))
            if not x["parsed"]:
                x["rep"] = rep.decode("latin1")
        out.append(x)
    return tl, out, texts


def stored(root, job):
    r = []
    if job["api"] in ("SJ", "S", "SS"):
        for i in range(len(job["texts"])):
            r.append(open(os.path.join(root, "d1", "T%d_1.snap%s" % (i, ".json" if job["api"] == "SJ" else "")), "rb").read())
        return r
    b = open(os.path.join(root, "d1", "a_test.snap"), "rb").read()
    for i in range(len(job["texts"])):
        m = re.search(rb"(?:^|\n)\[T%d - 1\]\n(.*?)\n---\n" % i, b, re.S)
        r.append(m.group(1))
    return r


# ------------------------------------------------------------------------------------------------ traces

def chunks(tl, evs, raw=None, size=600):
    """traces with the texts their events need"""
    for k in range(0, len(evs), size):
        part = evs[k:k + size]
        need = sorted({e["a"] for e in part} | {e["b"] for e in part})
        at = {x: i + 1 for i, x in enumerate(need)}
        yield {"clauses": [], "raw": [(raw or tl)[x - 1] for x in need], "texts": [tl[x - 1] for x in need], "ev": [dict(e, a=at[e["a"]], b=at[e["b"]]) for e in part]}


def seqs(letters, n):
    for k in range(1, n + 1):
        yield from itertools.product(letters, repeat=k)


def canonical(a, b, letters):
    """pairs up to renaming of the letters"""
    seen = 0
    for x in a + b:
        i = letters.index(x)
        if i > seen:
            return False
        if i == seen:
            seen += 1
    return True


WORDS = [b"a", b"b", b"c", b"", b" ", b"x", b"x ", b"\tx", b"- x", b"+ x", b"  x", b"@@ -1 +1 @@", b"-", b"+", b"\xff", b"\xfe", "�".encode(), "日本".encode(), b"{", b"}", b"\r", b"x\r",
         b"\x1b[31mred\x1b[0m", b"\x1b", b"at x:1", b"- Snapshot - 1", b"---", b"\\n", b"%d", b"\x00", "e\u0301".encode(), "\u00e9".encode(), b"long " * 60, "\u2028".encode(), b"\x0b\x0c", b"[T0 - 1]"]


def edited(r, a, words, k):
    b = list(a)
    for _ in range(k):
        x = r.random()
        p = r.randrange(len(b) + 1)
        if x < .3 and b:
            del b[min(p, len(b) - 1)]
        elif x < .6:
            b.insert(p, r.choice(words))
        elif x < .8 and b:
            b[min(p, len(b) - 1)] = r.choice(words)
        elif x < .9 and b:
            q = r.randrange(len(b))
            w = min(len(b) - q, r.randint(1, 12))
            blk = b[q:q + w]
            del b[q:q + w]
            p = r.randrange(len(b) + 1)
            b[p:p] = blk
        else:
            q = r.randrange(len(b) + 1)
            b[p:p] = b[q:q + r.randint(1, 5)]
    return b


# ------------------------------------------------------------------------------------------------ white box

def scripts(scr, repo, pairs, ns):
    """hunks of the line diff in /repo/internal/difflib, through an in-package test added with an overlay; None if that package has no such function any more"""
    d = scr.new("ovl")
    pj, oj = os.path.join(d, "pairs.json"), os.path.join(d, "out.json")
    json.dump({"pairs": pairs, "ns": ns}, open(pj, "w"))
    ov = os.path.join(d, "overlay.json")
    json.dump({"Replace": {os.path.join(repo, "internal/difflib/x_verif_test.go"): os.path.join(VERIF, "whitebox/difflib_test.go.txt")}}, open(ov, "w"))
    env = dict(go_env(), VERIF_PLAN=pj, VERIF_OUT=oj)
    r = subprocess.run(["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-run", "^TestVerifScripts$", "./internal/difflib"], cwd=repo, env=env, capture_output=True, text=True, timeout=600)
    if os.path.exists(oj):
        res = json.load(open(oj))
        shutil.rmtree(d, ignore_errors=True)
        return res
    if "build failed" in r.stdout + r.stderr or "setup failed" in r.stdout + r.stderr:
        return None
    return r.stdout + r.stderr
