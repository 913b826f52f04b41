"""Inputs and scenarios: adversarial texts, JSON and YAML documents, programs of test executions, and the
concretisation of behaviours generated from SnapsMC.tla."""
import json, random
from vlib import vstr, vbytes, vgo, b64

SPECIAL = ["---", "/-/-/-/", "//-/-/-/", "///-/-/-/"]
HEADERS = ["[TestA - 1]", "[TestA - 2]", "[TestB - 1]", "[TestA/sub - 1]", "[TestA - 10]", "[FuzzA - 1]", "[BenchmarkA - 1]", "[x]", "[]", "[", "]",
           "[TestA - ]", "[TestA - x]", "[TestA]", "[ - 1]", "[TestA - 1] ", " [TestA - 1]", "[TestA - 01]", "[TestA - 1]]", "[[TestA - 1]"]
BLANK = ["", "", " ", "\t", "  \t "]
ODD = [b"\xff\xfe", b"\x00", b"\xef\xbb\xbfbom", "\u2028", "\x85", "a\u0085b", "mid\rline", "\r\rx", "%s %d %%", "\x1b[31mred\x1b[0m", "é\u0301", "日本語", b"\xc3", b"\xed\xa0\x80",
       "--- ", " ---", "----", "--", "-/-/-/", "/-/-/-", "/-/-/-//", "/-/-/-/ ", "x---", "---x", "a" * 90, "b" * 200, "\\n", "\"q\"", "`b`", "\x0b\x0c", "\xa0", "\u200b", "\u3000", "a\xa0b", "\ufeff", "\x7f", "a\tb", "$&", "${1}", "\\1"]
PLAIN = ["x", "y", "hello world", "key: value", "{", "}", "- item", "0", "true"]


def bs(x):
    return x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape")


def line(r, cr=False):
    c = r.random()
    l = bs(r.choice(SPECIAL if c < .2 else HEADERS if c < .38 else BLANK if c < .55 else ODD if c < .8 else PLAIN))
    if cr and r.random() < .3:
        l += b"\r"
    return l


def text(r, cr=False, big=0.0):
    """a multi-line text; without cr no line ends in a carriage return (documented limitation)"""
    c = r.random()
    if c < big:
        k = r.randrange(4)
        if k == 0:
            return b"L" * r.choice([65535, 65536, 65537, 70000, 300000, 1200000])
        if k == 1:
            return b"\n".join([b"pre", b"M" * r.choice([4096, 65536, 131072, 2000000]), b"---", b"post"])
        if k == 2:
            return b"\n".join(b"line %d" % i for i in range(r.choice([100, 3000, 9000])))
        return b"\n".join((line(r, cr) if i % 7 == 0 else b"row %d" % i) for i in range(r.choice([60, 400])))
    if r.random() < .03:
        return b""
    n = r.choice([1, 1, 2, 2, 3, 4, 6, 9])
    t = b"\n".join(line(r, cr) for _ in range(n))
    c = r.random()
    if c < .12:
        t = b"\n" + t
    elif c < .24:
        t = t + b"\n"
    elif c < .3:
        t = b"\n\n" + t + b"\n\n"
    if not cr:
        t = b"\n".join(l.rstrip(b"\r") for l in t.split(b"\n"))
    return t


def mutate(r, t, cr=False):
    """a text different from t, often barely"""
    for _ in range(50):
        k = r.randrange(12)
        ls = t.split(b"\n")
        i = r.randrange(len(ls))
        if k == 0:
            u = t + b"\n"
        elif k == 1:
            u = b"\n" + t
        elif k == 2:
            u = t[:-1]
        elif k == 3:
            ls[i] = ls[i] + b" "
            u = b"\n".join(ls)
        elif k == 4:
            ls.insert(i, b"")
            u = b"\n".join(ls)
        elif k == 5:
            del ls[i]
            u = b"\n".join(ls)
        elif k == 6:
            ls[i] = line(r, cr)
            u = b"\n".join(ls)
        elif k == 7:
            ls[i] = {b"---": b"/-/-/-/", b"/-/-/-/": b"---", b"//-/-/-/": b"/-/-/-/"}.get(ls[i], b"---")
            u = b"\n".join(ls)
        elif k == 8:
            r.shuffle(ls)
            u = b"\n".join(ls)
        elif k == 9 and t:
            j = r.randrange(len(t))
            u = t[:j] + bytes([t[j] ^ (1 << r.randrange(7))]) + t[j + 1:]
        elif k == 10:
            ls.insert(i, ls[i])
            u = b"\n".join(ls)
        else:
            u = text(r, cr)
        if not cr:
            u = b"\n".join(l.rstrip(b"\r") for l in u.split(b"\n"))
        if u != t:
            return u
    return t + b"!"


# ------------------------------------------------------------------------------------------------ documents

KEYS = ["a", "b", "c", "name", "id", "k1", "k10", "k2", "z", "A", "with space", "a.b", "x-y", "ünï", "", "0", "1", "null"]
STRS = ["", "\xa0", "a\u200bb", "\ufeff", "ID", "id", "v", "---", "[TestA - 1]", "line\nbreak", "<html>&amp;", "\u2028", "q\"uote\\", "\ttab", "é", "😀", "/-/-/-/", "1", "true", " ", "%d"]
NUMS = ["0", "-0", "1", "-7", "1.0", "1.50", "1e3", "1E+3", "12345678901234567890", "0.1", "1e-7", "3.141592653589793238462643", "1e400"]


def jval(r, d=3, keys=KEYS):
    """a JSON document as (text tree): numbers are kept as text"""
    c = r.random()
    if d == 0 or c < .45:
        k = r.randrange(6)
        if k == 0:
            return ("num", r.choice(NUMS))
        if k == 1:
            return ("lit", r.choice(["true", "false", "null"]))
        return ("str", r.choice(STRS))
    if c < .75:
        ks = r.sample(keys, r.choice([0, 1, 2, 3, 4]))
        return ("obj", [(k, jval(r, d - 1, keys)) for k in ks])
    return ("arr", [jval(r, d - 1, keys) for _ in range(r.choice([0, 1, 2, 3]))])


def jtext(r, v, shuffle=False, ws=False):
    def w():
        return "".join(r.choice([" ", "\n", "\t", "\r", ""]) for _ in range(2)) if ws else ""
    k = v[0]
    if k in ("num", "lit"):
        return v[1]
    if k == "str":
        return json.dumps(v[1], ensure_ascii=r.random() < .5)
    if k == "obj":
        it = list(v[1])
        if shuffle:
            r.shuffle(it)
        return "{" + w() + ("," + w()).join(json.dumps(a, ensure_ascii=False) + w() + ":" + w() + jtext(r, b, shuffle, ws) for a, b in it) + w() + "}"
    return "[" + w() + ("," + w()).join(jtext(r, b, shuffle, ws) for b in v[1]) + w() + "]"


def jdoc(r, d=3):
    return jtext(r, jval(r, d), ws=r.random() < .3)


YAMLS = ["a: 1\n", "a: 1", "# comment\na: 1 # tail\nb:\n  - x\n  - y\n", "a: 1\n---\nb: 2\n", "---\na: 1\n", "---\na: 1\n---\nb: 2", "a: |\n  text\n  ---\n  more\n", "a: >-\n  folded\n\n  para\n",
         "z: 1\na: 2\nm: 3\n", "- 1\n- 2\n- x: y\n", "a: \"---\"\n", "[1, 2, 3]\n", "{a: 1, b: [x, y]}\n", "scalar", "a: &x 1\nb: *x\n", "a:\n    b:\n        c: deep\n\n\n", "\n\na: 1\n", "a: 'it''s'\n",
         "k: [TestA - 1]\n", "# only\n---\na: 1\n", "a: 1\n...\n", "a: ''\nb: null\nc: ~\n", "a: 0x1F\nb: 1e3\n", "? a\n: b\n", "list:\n- a\n-  b\n", "a: é\nb: 日本\n", "a: x\xa0y\n", "# no\xa0break \u200b \u2003\na: \"\u3000\"\n", "a: e\u0301 é\n", "\"a\xa0b\": 1\n", "a: \"\x7f\"\n", "a: 1\n\n---\n\nb: 2\n---\nc: 3\n"]


def ydoc(r):
    c = r.random()
    if c < .6:
        return r.choice(YAMLS)
    n = r.choice([1, 2, 4])
    ls = []
    for k in r.sample(["a", "b", "c", "name", "id", "z1", "z10", "z2"], n):
        c = r.random()
        if c < .4:
            ls.append("%s: %s" % (k, r.choice(["1", "x", "'q'", "true", "1.5", "\"s t\""])))
        elif c < .6:
            ls.append("%s: # c\n  - 1\n  - two" % k)
        elif c < .8:
            ls.append("%s:\n  in: v\n  out: w" % k)
        else:
            ls.append("# about %s\n%s: |\n  block\n  ---\n  end" % (k, k))
    return "\n".join(ls) + r.choice(["", "\n", "\n\n"])


# ------------------------------------------------------------------------------------------------ values and calls

GOVALS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 24, 26] + list(range(28, 41))
GOJSON = [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 20, 21, 22, 23, 24]
GOYAML = [0, 1, 2, 3, 6, 8, 9, 10, 12, 16, 21]


def value(r, api, big=0.0, bad=0.0):
    """(value, ...) for one call"""
    c = r.random()
    if api == "S":
        if c < .7:
            return vstr(text(r, big=big))
        if c < .85:
            return {"k": "many", "vs": [vgo(r.choice(GOVALS)) if r.random() < .4 else vstr(text(r)) for _ in range(r.choice([1, 2, 3]))]}
        return vgo(r.choice(GOVALS))
    if api == "SS":
        return vstr(text(r, cr=True, big=big)) if c < .9 else vgo(r.choice(GOVALS))
    if api in ("J", "SJ"):
        if c < bad:
            return dict(vstr(r.choice(["", "{", "nope", "{\"a\":}", "[1,]", "{} {}"])), bad=1)
        if r.random() < .15:
            return vgo(r.choice(GOJSON))
        return (vstr if r.random() < .6 else vbytes)(jdoc(r))
    if api == "Y":
        if c < bad:
            return dict(vstr(r.choice(["a: [1", "a: b: c", "\tx: 1\n\t- y", "{a: 1"])), bad=1)
        if r.random() < .1:
            return vgo(r.choice(GOYAML))
        return (vstr if r.random() < .7 else vbytes)(ydoc(r))
    raise ValueError(api)


def call(api, cfg, v, base="a_test", **kw):
    if v.get("bad"):
        kw["want"] = {"k": "bad"}
    return dict({"op": "match", "api": api, "cfg": cfg, "base": base, "v": v}, **kw)


NAMES = [["TestA", "TestB"], ["TestA", "TestAB"], ["TestA", "TestA/sub"], ["TestA/x", "TestA/x#01"], ["TestA/a_b", "TestA/a/b2"], ["TestM", "TestM/[y]_-_1"], ["FuzzA", "TestA"],
         ["BenchmarkA", "TestA/b"], ["TestA/1", "TestA/10"], ["Test", "TestA"], ["TestÜ", "TestÜ/ß"], ["TestA/a-b", "TestA/a.b"], ["TestA/%s", "TestA/100%"], ["TestA/seed#0", "FuzzA/seed#0"],
         ["TestA/x", "TestA/X"], ["TestA", "Testa"], ["TestA/b", "TestA/b_1"], ["TestA/x", "TestA/x/x"]]
PLAINNAMES = [n for n in NAMES if all(ord(c) < 127 and c != "%" for x in n for c in x)]
# files whose paths are easily taken for one another
NEAR = [[{"dir": "/d1"}, {"dir": "/d1", "fn": "shared"}], [{"dir": "/d1", "fn": "f"}, {"dir": "/d1", "fn": "f", "ext": ".txt"}], [{"dir": "/d1", "fn": "f", "ext": ".txt"}, {"dir": "/d1", "fn": "f"}],
        [{"dir": "/d1", "fn": "f"}, {"dir": "/d2", "fn": "f"}], [{"dir": "/d1"}, {"dir": "/d1/sub"}], [{"dir": "/d1", "fn": "f"}, {"dir": "/d1", "fn": "F"}], [{"dir": "/d1", "fn": "f"}, {"dir": "/d1", "fn": "ff"}],
        [{"dir": "/d1", "fn": "ff"}, {"dir": "/d1", "fn": "f"}], [{"dir": "/d1", "fn": "f.snap"}, {"dir": "/d1", "fn": "f"}], [{"dir": "/d.snap/x"}, {"dir": "/d.snap"}]]
MIXCFGS = [{"dir": "/d1"}, {"dir": "/d1", "fn": "shared"}, {"dir": "/d1", "fn": "shared", "ext": ".txt"}, {"dir": "/d1/sub"}]


class Prog:
    """executions of tests: [(name, [call, ...])]"""

    def __init__(self, execs):
        self.execs = execs

    def ops(self, r=None, count=1, upd=None):
        """a schedule: serial, or a random interleaving of the executions"""
        out, n = [], 0
        for rep in range(count):
            todo = []
            for name, calls in self.execs:
                n += 1
                x = "x%d" % n
                todo.append([{"op": "begin", "t": x, "name": name}] + [dict(c, t=x) for c in calls] + [{"op": "end", "t": x}])
            if r is None:
                for t in todo:
                    out += t
            else:
                while todo:
                    t = r.choice(todo)
                    out.append(t.pop(0))
                    if not t:
                        todo.remove(t)
        return out

    def map(self, f):
        return Prog([(n, [f(c) for c in cs]) for n, cs in self.execs])


def prog(r, names, apis, ncfg, calls=(1, 4), big=0.0, bad=0.0, bases=("a_test",), val=None):
    ex = []
    for n in names:
        cs = []
        for _ in range(r.randint(*calls)):
            api = r.choice(apis)
            cs.append(call(api, r.randrange(ncfg), (val or value)(r, api, big=big, bad=bad) if val is None else val(r, api), r.choice(bases)))
        ex.append((n, cs))
    return Prog(ex)


def change(r, c, p=.5):
    """the call with another value (with probability p)"""
    if r.random() >= p:
        return c
    v = c["v"]
    api = c["api"]
    if v["k"] == "str" and api in ("S", "SS") and not v.get("rep"):
        import base64
        return dict(c, v=vstr(mutate(r, base64.b64decode(v["b"]), cr=api == "SS")))
    if c.get("want"):
        return c
    return dict(c, v=value(r, api))


# ------------------------------------------------------------------------------------------------ behaviours of SnapsMC

UPD = {"unset": 0, "true": 1, "false": 2}


def concretise(r, script, names=None, solo_api=True, weird=True):
    """a behaviour generated from SnapsMC becomes a scenario: model tests become test names, model lines become lines
    (the dangerous ones stay), model options become configs"""
    nm = names or r.choice(PLAINNAMES)
    nmap = {"TestA": nm[0], "TestB": nm[1]}
    tok = {}

    def conc(l):
        if l in ("", "---", "/-/-/-/"):
            return l.encode()
        if l.startswith("[Test"):
            for a, b in nmap.items():
                if l.startswith("[%s - " % a):
                    return ("[%s%s" % (b, l[1 + len(a):])).encode()
        if l not in tok:
            while True:
                x = line(r) if weird else bs(r.choice(PLAIN))
                if x not in tok.values() and x not in (b"", b"---", b"/-/-/-/") and not x.startswith(b"["):
                    tok[l] = x
                    break
        return tok[l]

    cfgs = [{"dir": "/s", "fn": "m"}, {"dir": "/s", "fn": "m", "upd": True}, {"dir": "/s", "fn": "m", "upd": False},
            {"dir": "/s"}, {"dir": "/s", "upd": True}, {"dir": "/s", "upd": False}]
    procs, cur, open_ = [], None, {}
    n = 0
    for o in script:
        k = o["op"]
        if k == "start":
            run = o["run"]
            cur = {"ops": [], "ci": o["ci"], "env": o["env"] or None, "run": mapruns(run, nmap), "_cleans": 0}
            if run:
                cur["runflag"] = runflag(mapruns(run, nmap))
            procs.append(cur)
            open_ = {}
        elif k in ("match", "skip"):
            t = nmap[o["t"]]
            if t not in open_:
                n += 1
                open_[t] = "x%d" % n
                cur["ops"].append({"op": "begin", "t": open_[t], "name": t})
            if k == "skip":
                cur["ops"] += [{"op": "skip", "t": open_[t], "kind": r.choice(["Skip", "Skipf", "SkipNow"]), "base": "a_test"}, {"op": "end", "t": open_.pop(t)}]
                continue
            v = b"\n".join(conc(l) for l in o["val"])
            c = UPD[o["upd"]] + (3 if o["solo"] else 0)
            if o["kind"] == "bad":
                cur["ops"].append(call("SJ" if o["solo"] else "J", c, vstr("{not json"), t=open_[t]))
            elif o["solo"]:
                cur["ops"].append(call("SS", c, vstr(v), t=open_[t]))
            else:
                cur["ops"].append(call("S", c, vstr(v), t=open_[t]))
        elif k == "end":
            t = nmap[o["t"]]
            cur["ops"].append({"op": "end", "t": open_.pop(t)})
        elif k == "clean":
            for t, x in list(open_.items()):
                cur["ops"].append({"op": "end", "t": x})
            open_ = {}
            cur["ops"].append({"op": "clean", "opts": True, "sort": o["sort"]})
        elif k == "exit":
            for t, x in list(open_.items()):
                cur["ops"].append({"op": "end", "t": x})
            open_ = {}
    return {"cfgs": cfgs, "procs": procs, "from": "SnapsMC"}


def mapruns(run, nmap):
    return [[[dict(a, s=nmap.get(a["s"], a["s"])) for a in lv] for lv in alt] for alt in run]


def runflag(run):
    return flag_of(run)


# ------------------------------------------------------------------------------------------------ -run patterns

def selects(run, name):
    """what the plan schedules under a -run pattern (the judge is Select.tla)"""
    def atom(a, x):
        s = a["s"]
        return x == s if a["a"] and a["z"] else x.startswith(s) if a["a"] else x.endswith(s) if a["z"] else s in x
    parts = name.split("/")
    return not run or any(all(i >= len(alt) or any(atom(a, x) for a in alt[i]) for i, x in enumerate(parts)) for alt in run)


def atom(s, a=True, z=True):
    return {"a": a, "z": z, "s": s}


def randrun(r, names):
    """a pattern built from pieces of the names"""
    def lv(x):
        k = r.randrange(6)
        if k == 0 and len(x) > 2:
            return atom(x[:r.randint(2, len(x))], True, False)
        if k == 1:
            return atom(x, False, False)
        if k == 2:
            return atom(x, True, False)
        if k == 3:
            return atom(x[-2:], False, True)
        return atom(x)
    alts = []
    for _ in range(r.choice([1, 1, 2])):
        parts = r.choice(names).split("/")
        parts = parts[:r.randint(1, len(parts))]
        alt = [[lv(p)] for p in parts]
        if len(names) > 1 and r.random() < .2:
            alt[0].append(lv(r.choice(names).split("/")[0]))
        alts.append(alt)
    return alts


def flag_of(run):
    """the -run flag of a pattern; alternatives inside a level need a group"""
    import re

    def lvl(lv):
        xs = [("^" if a["a"] else "") + re.escape(a["s"]) + ("$" if a["z"] else "") for a in lv]
        return xs[0] if len(xs) == 1 else "(" + "|".join(xs) + ")"
    return "|".join("/".join(lvl(lv) for lv in alt) for alt in run)
