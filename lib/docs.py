"""Documents, paths into them and matchers (C14-C18)."""
import json, random, re
from vlib import vstr, vbytes, vgo, b64
from gen import STRS, NUMS, call, jtext, GOJSON, GOYAML

JKEYS = ["a", "b", "c", "name", "id", "k1", "k10", "k2", "z", "A", "with space", "a.b", "x-y", "ünï", "0", "1", "null", "a*b", "?q", "$d", "a|b", "a:b", ":c", "a@b", "q\"t", "tab\t", "<k>", "😀", "b\\s"]
YKEYS = ["a", "b", "c", "name", "id", "k1", "k10", "z", "A", "with space", "x-y", "ünï", "a_b", "key9", "a.b", "x[0]", "$d", "?q", "k: v", "#h", "a*", "😀"]
SMALL = ["0", "-0", "1", "-7", "1.0", "1.50", "1e3", "1E+3", "0.1", "1e-7", "123456", "42"]
YNUMS = ["0", "1", "-7", "1.5", "42", "123456", "-0.25", "1000000000000"]
YSTRS = ["", "v", "text here", "line\nbreak", "two\nlines\n", "é", "😀", "1", "true", "null", "~", "a: b", "# no comment", "- x", "it's", "q\"uote", "[x]", "{y}", "---", "tab\there", "%d", " lead", "trail ", "a\n\nb", "|", ">", "&a", "*a", "!t", "@x", "2020-01-01", "0x1F", "on", "<Any value>"]


def tree(r, d=3, keys=JKEYS, strs=STRS, nums=NUMS, top=True):
    c = r.random()
    if d == 0 or (c < .45 and not top) or c < .06:
        k = r.randrange(6)
        if k < 2:
            return ("num", r.choice(nums))
        if k == 2:
            return ("lit", r.choice(["true", "false", "null"]))
        return ("str", r.choice(strs))
    if c < .75:
        ks = r.sample(keys, r.choice([1, 2, 3, 4] if top else [0, 1, 2, 3]))
        return ("obj", [(k, tree(r, d - 1, keys, strs, nums, False)) for k in ks])
    return ("arr", [tree(r, d - 1, keys, strs, nums, False) for _ in range(r.choice([0, 1, 2, 3]))])


def paths(t, at=()):
    """every path below the root: (steps, node)"""
    out = []
    if t[0] == "obj":
        for k, v in t[1]:
            out.append((at + (("key", k),), v))
            out += paths(v, at + (("key", k),))
    elif t[0] == "arr":
        for i, v in enumerate(t[1]):
            out.append((at + (("idx", str(i)),), v))
            out += paths(v, at + (("idx", str(i)),))
    return out


def put(t, at, x):
    if not at:
        return x
    (k, s), rest = at[0], at[1:]
    if t[0] == "obj":
        return ("obj", [(n, put(v, rest, x) if n == s else v) for n, v in t[1]])
    return ("arr", [put(v, rest, x) if str(i) == s else v for i, v in enumerate(t[1])])


def jpath(at):
    return ".".join(s if k in ("all", "odd") else "".join("\\" + ch if ch in ".*?|#@!{}[]()=<>%\\" else ch for ch in s) for k, s in at)


def ypath(at):
    o = "$"
    for k, s in at:
        o += "[%s]" % s if k in ("idx", "all") else "." + s if re.fullmatch(r"[A-Za-z0-9_]+", s) else ".'%s'" % s
    return o


def segs(at, yaml):
    return [{"t": k if yaml or k in ("all", "odd") else "any", "s": s} for k, s in at]


# ------------------------------------------------------------------ YAML text

def ystr(r, s, flow, ind):
    if not flow and "\n" in s and r.random() < .6 and re.fullmatch(r"[\x20-\x7eé\n]*", s) and not s.startswith((" ", "\n")) and not any(l.endswith(" ") for l in s.split("\n")) and not s.endswith("\n\n"):
        body = s[:-1] if s.endswith("\n") else s
        return ("|" if s.endswith("\n") else "|-") + "".join("\n" + (" " * ind + l if l else "") for l in body.split("\n"))
    if re.fullmatch(r"[A-Za-zé][a-zA-Zé]*( [a-z]+)*", s) and s.lower() not in ("true", "false", "null", "on", "off", "yes", "no", "y", "n") and r.random() < .6:
        return s
    if "\n" not in s and "\t" not in s and r.random() < .4:
        return "'" + s.replace("'", "''") + "'"
    return json.dumps(s, ensure_ascii=False)


def ykey(k):
    return k if re.fullmatch(r"[A-Za-zü][\w -]*", k) else json.dumps(k, ensure_ascii=False)


def ytext(seed, t, ind=0, flow=False, at=(), notes=False, loose=(), lr=None):
    """styles depend on the seed and the place only, so that a change elsewhere leaves them alone;
    loose: places whose values are laid out anyhow"""
    r = lr if any(at[:len(p)] == p for p in loose) else random.Random("%s|%s" % (seed, at))
    if t[0] in ("num", "lit"):
        return t[1]
    if t[0] == "str":
        return ystr(r, t[1], flow, ind)
    if not t[1]:
        return "{}" if t[0] == "obj" else "[]"
    if flow or (at and r.random() < .2):
        sp = r.choice(["", "", " "])
        if t[0] == "obj":
            return "{" + sp + ", ".join("%s: %s" % (ykey(k), ytext(seed, v, 0, True, at + (k,), loose=loose, lr=lr)) for k, v in t[1]) + sp + "}"
        return "[" + sp + ", ".join(ytext(seed, v, 0, True, at + (i,), loose=loose, lr=lr) for i, v in enumerate(t[1])) + sp + "]"
    out = []
    pad = " " * ind
    items = t[1] if t[0] == "obj" else list(enumerate(t[1]))
    for k, v in items:
        q = at + (k,)
        free = any(q[:len(p)] == p for p in loose)
        r = lr if free else random.Random("%s|%s|item" % (seed, q))
        note = notes and r.random() < .3
        step = 2 if t[0] == "arr" else r.choice([2, 2, 2, 4]) if v[0] != "arr" else r.choice([2, 2, 0, 4])
        x = ytext(seed, v, ind + step, False, q, notes, loose, lr)
        block = v[0] in ("obj", "arr") and v[1] and "\n" in x or (v[0] in ("obj", "arr") and v[1] and not x.startswith(("{", "[")))
        head = pad + (ykey(k) + ":" if t[0] == "obj" else "-")
        if notes and random.Random("%s|%s|about" % (seed, q)).random() < .15 and not any(q[:len(p)] == p and q != p for p in loose):
            out.append(pad + "# about " + "it: [x")
        own = note and not any(p[:len(q)] == q or q[:len(p)] == p for p in loose)
        if block:
            if t[0] == "arr" and not x.lstrip().startswith("#"):
                out.append(head + " " * (step - 1) + x[ind + step:])     # first line beside the dash
            else:
                out.append(head + (" # here" if own and t[0] == "obj" and not x.lstrip().startswith("#") else "") + "\n" + x)
        else:
            out.append(head + (" " if r.random() < .9 else "   ") + x + (" # there" if own and "\n" not in x else ""))
    return "\n".join(out)


def yshow(seed, t, end, notes=False, loose=(), lr=None):
    return ytext(seed, t, notes=notes, loose=tuple(tuple(int(s) if k == "idx" else s for k, s in p) for p in loose), lr=lr) + end


# ------------------------------------------------------------------ matchers

JT = {"str": "string", "num": "float64", "obj": "map", "arr": "slice"}


def typ_of(node, yaml):
    k, v = node
    if k == "lit":
        return None if v == "null" else "bool"
    if k == "num" and yaml:
        return None if v.startswith("-") and "." not in v else "float64" if "." in v or "e" in v.lower() else "uint64"
    return JT[k]


def missing(r, t, yaml):
    """a path the document does not have"""
    ps = paths(t)
    base = r.choice([((), t)] + ps)
    at, node = base
    if node[0] == "arr":
        return at + (r.choice([("idx", str(len(node[1]))), ("idx", "7"), ("key", "nope")]),)
    if node[0] == "obj":
        return at + (r.choice([("key", "nope"), ("key", "nope"), ("idx", "0")] if not any(k == "0" for k, _ in node[1]) else [("key", "nope")]),)
    return at + (("key", "nope"),)


PHS = ["x", "<id>", "two\nlines", "a: b", "---", "", "é", "q\"t", "{\"a\":1}", "1", "true", "null", "- x", "# c", "/-/-/-/"]


def matcher(r, at, node, yaml, kind=None, good=True, miss=None, blocks=.2):
    kind = kind or r.choice(["any", "any", "type", "custom"])
    t = typ_of(node, yaml) if node else "string"
    if kind == "type" and t is None:
        kind = "any"
    m = {"kind": kind, "paths": [ypath(at) if yaml else jpath(at)], "segs": [segs(at, yaml)], "miss": bool(miss)}
    if kind == "type":
        m["typ"] = t if good else r.choice([x for x in ["string", "float64", "bool", "map", "slice", "uint64", "int"] if x != t])
    elif kind == "any":
        k = r.random()
        if k < .3:
            m["ph"] = vstr(r.choice(PHS))
        elif k < .5:
            m["ph"] = vgo(r.choice([0, 5, 6, 10, 2, 12, 16, 15]))
        elif k < .5 + blocks:
            m["ph"] = r.choice([vgo(2), vgo(12), vgo(3), vgo(13), vstr("two\nlines"), vstr("a\n\nb\n")])
    else:
        m["cb"] = r.choice(["err", "err", "errval", "erremb"]) if not good else r.choice(["const", "id", "fmt", "wrap", "const", "fold", "trim"])
        if m["cb"] == "const" and r.random() < .7:
            m["ph"] = vstr(r.choice(PHS)) if r.random() < .5 else vgo(r.choice([0, 5, 6, 10, 2, 12]))
    return m


def listed(r, yaml):
    """a document with a list of objects, and a path to a member of every element that has it"""
    keys, strs, nums = (YKEYS, YSTRS, YNUMS) if yaml else (JKEYS, STRS, SMALL)
    own = r.sample(["n", "id", "name", "k1"], 3)
    leaf = lambda d: tree(r, d, keys, strs, nums, False)
    rows = [("obj", [(k, leaf(r.choice([0, 0, 1]))) for k in r.sample(own, r.choice([1, 2, 3]))]) for _ in range(r.choice([1, 2, 3, 6, 12]))]
    at = (("key", r.choice([k for x in rows for k, _ in x[1]])),)
    if r.random() < .3:      # one level deeper
        k0 = "in"
        rows = [("obj", [(k0, x)]) for x in rows]
        at = (("key", k0),) + at
    t, pre = ("arr", rows), ()
    if yaml and r.random() < .3:
        rows2 = [leaf(0) for _ in range(r.choice([1, 3]))]
        t, at = ("arr", rows2), ()
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice(["list", "items", "rows"])
        m = [(k, t), ("other", leaf(1)), ("z", leaf(0))]
        r.shuffle(m)
        t, pre = ("obj", m), (("key", k),) + pre
    if not pre and (yaml or r.random() < .5):
        t, pre = ("obj", [("list", t), ("after", leaf(1))]), (("key", "list"),)
    return t, pre + (("all", "*" if yaml else "#"),) + at


def expand(t, at):
    """the places a path with "all" stands for"""
    if not at:
        return [()]
    (k, s), rest = at[0], at[1:]
    if k == "all":
        return [(("idx", str(i)),) + q for i, x in enumerate(t[1]) for q in expand(x, rest)] if t[0] == "arr" else []
    for i, (n, x) in enumerate(t[1]) if t[0] == "obj" else enumerate((str(i), x) for i, x in enumerate(t[1])) if t[0] == "arr" else []:
        if n == s and (k == "idx") == (t[0] == "arr"):
            return [(at[0],) + q for q in expand(x, rest)]
    return []


def apart(t, at, cov):
    """places that neither contain nor lie in those the path stands for, and that are not the elements themselves"""
    np = [k for k, _ in at].index("all")
    return [(q, x) for q, x in paths(t) if not any(q[:len(p)] == p or p[:len(q)] == q for p in cov) and not (len(q) < len(at) and q[:np] == at[:np])]


def oddpath(r, t):
    """a JSON path that gjson answers and that is no place in the document"""
    if t[0] == "obj" and t[1]:
        k, v = r.choice(t[1])
        k = jpath((("key", k),))
        return (("odd", r.choice(["@this", "@this." + k, k + "|@this", k + ".@this", "{" + k + "}", "[" + k + "]", "!true", "@values", "@keys", "@this|" + k, "@pretty", k + ".#"] if v[0] == "arr" else
                                 ["@this", "@this." + k, k + "|@this", k + ".@this", "!true", "@values", "@keys", "@this|" + k, "@valid"])),)
    return (("odd", r.choice(["@this", "#" if t[0] == "arr" else "@pretty", "!0"])),)


def both(m, n):
    """two matchers of one kind and one setting as one matcher with two paths"""
    return dict(m, paths=m["paths"] + n["paths"], segs=m["segs"] + n["segs"])


def doc(r, yaml, custom=True, big=.03):
    if yaml:
        t = tree(r, r.choice([1, 2, 3]), YKEYS, YSTRS, YNUMS)
    else:
        t = tree(r, r.choice([1, 2, 3]), JKEYS, STRS, SMALL if custom else NUMS)
    return grown(r, t) if r.random() < big else t


def grown(r, t):
    """the same document with something large in it"""
    x = r.choice([("str", "x" * 5000), ("str", "word " * 900 + "."), ("str", "y" * 70000), ("arr", [("num", str(i)) for i in range(r.choice([12, 60, 130]))]), ("arr", [("str", "item %d" % i) for i in range(40)]),
                  ("obj", [("key%d" % i, ("str", "v")) for i in range(30)]), ("arr", [("obj", [("k", ("num", "1"))])] * 12), nest(r.choice([8, 25]))])
    k = r.random()
    if t[0] == "obj":
        i = r.randrange(len(t[1]) + 1)
        return ("obj", t[1][:i] + [("big", x)] + t[1][i:])
    if t[0] == "arr":
        i = r.randrange(len(t[1]) + 1)
        return ("arr", t[1][:i] + [x] + t[1][i:])
    return ("obj", [("v", t), ("big", x)])


def nest(d):
    return ("num", "1") if d == 0 else ("obj", [("a", nest(d - 1))]) if d % 3 else ("arr", [nest(d - 1), ("num", "0")])


def show(r, t, yaml, seed=None, end=None, notes=None, loose=()):
    if yaml:
        return yshow(seed or r.random(), t, r.choice(["", "\n"]) if end is None else end, r.random() < .3 if notes is None else notes, loose, r)
    return jtext(r, t, shuffle=False, ws=r.random() < .4)


def dcall(r, api, cfg, text, ms=(), fam=None, form=None):
    form = form or r.choice(["str", "bytes"])
    return call(api, cfg, (vstr if form == "str" else vbytes)(text), m=list(ms), want={"k": "bad"}, fam=fam or "f%d" % r.randrange(1 << 40))


def covered(at, ps):
    return any(at[:len(p)] == p for p in ps)
