"""C18: output is deterministic across processes and independent of history.

One plan is run on several simulated hosts: interpreter processes with their own hash
seed, flags and locale, whose clock, random sources, process id, object identities,
working directory, earlier history, order of work and interleaving are decided by the
plan.  Every construction must give the same bytes, dependency order and head_content
names on all of them; names and contents of head_content must correspond one to one.
"""

from __future__ import annotations

import builtins
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import unicodedata

import htmltools
from htmltools import HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, consolidate_attrs, css, head_content

from .. import gen, kernel
from ..build import Env, attr_dicts, build, build_dep, value
from ..kernel import HarnessError, setup_failed
from . import c20

MANY = [f"dep{i}" for i in range(12)] + gen.DEP_NAMES + ["\u00e9", "Z", "lib-a", "lib-b"]
CLASSES = ["a", "b", "c", "btn", "btn-primary", "x y", " z ", "card", "d e f g"]
NZ = 4


# -------------------------------------------------------------- generation
def gen_tree(r, refs, jsx=0.0):
    g = gen.TreeGen(r, tfy=0.6, dep_w=2.5, reprs=0.6, html=1, refs=refs, lists=0.5, both=0.2, cached=0, hostile=r.random() < 0.3, jsx=jsx, meta=0.3)
    names = r.sample(MANY, r.choice([3, 8, 14]))
    ns = [g.node(g.depth) for _ in range(r.choice([1, 2, 3, 5]))]
    for _ in range(r.choice([0, 3, 6, 10])):
        d = gen.dep(r, names=names)
        if d["src"] is not None and "subdir" in d["src"]:
            d["src"] = None if r.random() < 0.5 else d["src"]
        ns.insert(r.randint(0, len(ns)), {"t": "dep", "d": d})
    for _ in range(r.choice([0, 0, 1, 2])):
        ns.insert(r.randint(0, len(ns)), {"t": "headc", "c": gen_head(r)})
    return ns


def gen_head(r):
    return [gen.simple_node(r) for _ in range(r.choice([1, 1, 2, 3]))]


def mk(r):
    return f"MK{r.randrange(10**8)}Q"


ODD = ["\u00e9", "\u00e8", "\u20ac", "\u65e5", "\u672c", "\U0001f600", "\U0001f601", "\u200b", "\u200d", "\u00a0", "\x00", "\x01", "\ufffd", "\u0301", "\ufeff", "\u2028", "\x85"]


def near(r, c):
    """A content that is nearly, or exactly, the same."""
    c = json.loads(json.dumps(c))
    k = r.choice(["same", "same", "list", "rendered", "char", "space", "newline", "case", "norm", "drop", "swap", "tail", "split", "ws", "escape", "uni", "uni", "near", "near", "quote", "punct", "attr", "attrname", "name"])
    if k == "list":
        return [{"t": "list", "k": r.choice(["list", "tuple", "taglist"]), "c": c}]
    if k == "rendered":
        return [{"t": "rendered", "c": c}]
    texts, tags = [], []

    def walk(n):
        if n["t"] in ("text", "html"):
            texts.append(n)
        if n["t"] == "tag":
            tags.append(n)
        for x in n.get("c", []):
            walk(x)

    for n in c:
        walk(n)
    if k == "drop" and len(c) > 1:
        c.pop(r.randrange(len(c)))
        return c
    if k == "swap":
        r.shuffle(c)
        return c
    if k in ("attr", "attrname", "name") and tags:
        t = r.choice(tags)
        if k == "name":
            t["n"] = r.choice(["b", "B", "i", "em", "my-el", "my-El"])
        elif k == "attr" or not t["a"]:
            t["a"] = t["a"] + [["data_n", {r.choice("sh"): r.choice(ODD) + r.choice("ab")}]]
        else:
            a = r.choice(t["a"])
            a[0] = r.choice([a[0].upper(), a[0] + "x", "data-" + a[0]])
        return c
    if not texts:
        return c
    t = r.choice(texts)
    s = t["s"]
    if k in ("uni", "quote", "punct"):
        i = r.randint(0, len(s))
        t["s"] = s[:i] + r.choice({"uni": ODD, "quote": "\"'`", "punct": ".,;:-_<>&/ \t\n"}[k]) + s[i + r.choice([0, 0, 1]) :]
    elif k == "char" and s:
        i = r.randrange(len(s))
        t["s"] = s[:i] + r.choice("xyz019 ") + s[i + 1 :]
    elif k == "space":
        t["s"] = r.choice([s + " ", " " + s, s.replace(" ", "  "), s.strip()])
    elif k == "newline":
        t["s"] = r.choice([s + "\n", "\n" + s, s.replace("\n", "\r\n"), s + "\t"])
    elif k == "case":
        t["s"] = r.choice([s.upper(), s.lower(), s.swapcase()])
    elif k == "norm":
        t["s"] = unicodedata.normalize(r.choice(["NFC", "NFD", "NFKC"]), s + r.choice(["", "", "\u00e9"]))
    elif k == "near" and s:
        t["s"] = gen.near(r, s)
    elif k == "tail":
        t["s"] = s + r.choice("abcxyz09")
    elif k == "escape":
        t["t"] = "html" if t["t"] == "text" else "text"
    elif k == "split" and len(c) > 1:
        a, b = c[0], c[1]
        if a["t"] == b["t"] == "text":
            x = a["s"] + b["s"]
            i = r.randint(0, len(x))
            a["s"], b["s"] = x[:i], x[i:]
    elif k == "ws":
        for n in c:
            if n["t"] == "tag":
                n["w"] = not n["w"]
    return c


def gen_contents(r):
    out = []
    for _ in range(r.choice([1, 1, 2])):
        c = gen_head(r)
        m = mk(r)
        long = r.random() < 0.3
        body = m + ("".join(r.choice(gen.WORDS + [" ", "x=1;", "\n", "\u00e9"]) for _ in range(r.choice([20, 200, 1500]))) if long else r.choice(["", "a", "e\u0301", "A b", "\u00e9", "o\u0308\u00e4", "\ufb01", "\u00df"]))
        c.insert(r.randint(0, len(c)), {"t": "tag", "n": r.choice(["title", "style", "script", "b"]), "w": False, "a": [], "c": [{"t": r.choice(["text", "html"]), "s": body}]})
        out.append({"c": c, "m": m})
        for _ in range(r.choice([1, 2, 3])):
            b = r.choice(out)
            out.append({"c": near(r, b["c"]), "m": b["m"]})
    return out


def strings(x, out):
    """All pieces of text in a specification."""
    if isinstance(x, dict):
        if x.get("t") in ("text", "html", "repr") and isinstance(x.get("s"), str):
            out.append(x["s"])
        for k, v in x.items():
            if k in ("a", "kw"):
                for y in v.values() if isinstance(v, dict) else [p[1] for p in v]:
                    if isinstance(y, dict):
                        out += [z for z in y.values() if isinstance(z, str)]
            strings(v, out)
    elif isinstance(x, list):
        for y in x:
            strings(y, out)
    return out


def stir(r, x, words, rate):
    """Move texts around: other places, plain for trusted, value for child."""
    if isinstance(x, dict):
        if x.get("t") in ("text", "html") and isinstance(x.get("s"), str):
            if r.random() < rate:
                x["s"] = r.choice(words)
            if r.random() < rate / 2:
                x["t"] = r.choice(["text", "html"])
        elif x.get("t") == "repr" and r.random() < rate:
            x["s"] = r.choice(words)
        elif x.get("t") == "tag":
            if r.random() < rate:
                x["a"] = x["a"] + [[r.choice(gen.ATTR_NAMES), {r.choice("sh"): r.choice(words)}]]
        for k, v in x.items():
            if k in ("a", "kw"):
                for y in v.values() if isinstance(v, dict) else [p[1] for p in v]:
                    if isinstance(y, dict) and (set(y) == {"s"} or set(y) == {"h"}) and r.random() < rate:
                        y.clear()
                        y[r.choice("ssh")] = r.choice(words)
            stir(r, v, words, rate)
    elif isinstance(x, list):
        for y in x:
            stir(r, y, words, rate)


def numtwin(r, v):
    """A number that equals v and is written differently."""
    try:
        if isinstance(v, float) and v == int(v):
            return r.choice([int(v), -v if v == 0 else v, v == 1 if v in (0, 1) else int(v)])
        if isinstance(v, int):
            return r.choice([float(v), bool(v) if v in (0, 1) else float(v), int(v)])
    except (OverflowError, ValueError):
        pass
    return v


def renumber(r, x, rate, small):
    """Numbers become their twins (or small ones, of which many are equal)."""
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if k in ("v", "n", "b") and isinstance(v, (int, float)) and (x.get("t") == "num" or len(x) == 1) and r.random() < rate:
                v = r.choice([0, 1, 1.0, True, False, 2, 2.0, 10, 10.0]) if small else numtwin(r, v)
                if x.get("t") == "num":
                    x["v"] = v
                else:
                    x.clear()
                    x["b" if isinstance(v, bool) else "n"] = v
            elif k == "kw" and isinstance(v, dict):
                for n, y in v.items():
                    if isinstance(y, (int, float)) and r.random() < rate:
                        v[n] = r.choice([0, 1, 1.0, True, False, 2, 2.0, 10, 10.0]) if small else numtwin(r, y)
                renumber(r, v, rate, small)
            else:
                renumber(r, v, rate, small)
    elif isinstance(x, list):
        for y in x:
            renumber(r, y, rate, small)


def echo(r, it):
    """Another construction with much in common: the same names, texts, versions in
    other roles, so that whatever is remembered by too little of its input collides."""
    it = json.loads(json.dumps(it))
    words = strings(it, []) or ["x"]
    if r.random() < 0.8:
        stir(r, it, words, r.choice([0.1, 0.5, 1.0]))

    def walk(x):
        if isinstance(x, dict):
            if x.get("t") == "tag":
                if r.random() < 0.2:
                    x["w"] = not x["w"]
                if r.random() < 0.1:
                    x["c"] = x["c"][::-1]
                if r.random() < 0.1:
                    x["n"] = r.choice(["div", "span", "script", "br", x["n"]])
            if "ver" in x and "script" in x and "css" in x:
                d = gen.dep(r)
                for k in r.sample(["src", "script", "css", "meta", "all", "single", "head", "ver"], r.choice([0, 1, 2, 5])):
                    x[k] = d[k]
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(it)
    renumber(r, it, r.choice([0, 0.5, 1.0]), r.random() < 0.3)
    if "lib" in it and r.random() < 0.6:
        it["lib"], it["ver"] = r.choice(["lib", None, "", "a/b"]), r.random() < 0.5
    if it["k"] == "heads" and r.random() < 0.5:
        it["cs"] = [{"c": near(r, c["c"]), "m": c["m"]} for c in it["cs"]]
    return it


def gen_item(r, refs):
    it = gen_item0(r, refs)
    if it["k"] in ("tree", "doc", "attrs", "save") and r.random() < 0.3:
        stir(r, it, [gen.text(r) for _ in range(r.choice([1, 2, 4]))], r.choice([0.5, 1.0]))
    renumber(r, it, r.choice([0, 0, 0.5, 1.0]), True)
    return it


def gen_item0(r, refs):
    x = r.random()
    kw = {"lib": r.choice(["lib", None, "", "a/b"]), "ver": r.random() < 0.6}
    if x < 0.22:
        return {"k": "tree", "c": gen_tree(r, refs, r.choice([0, 0.5])), "as": r.choice(["list", "tag", "str"])}
    if x < 0.42:
        return {"k": "doc", "c": gen_tree(r, refs, r.choice([0, 0, 0.5])), "a": gen.attrs(r, 2), "html": r.random() < 0.2, **kw}
    if x < 0.54:
        ds = [gen.dep(r, names=r.sample(MANY, 8), hostile=r.random() < 0.3) for _ in range(r.choice([2, 4, 8]))]
        return {"k": "text", "deps": ds, "order": [r.randrange(len(ds)) for _ in range(r.choice([2, 6, 12]))], "own": r.sample(range(len(ds)), r.choice([0, 1])), **kw}
    if x < 0.64:
        return {"k": "jsx", "s": c20.gen_comp(r)}
    if x < 0.78:
        ops = []
        for _ in range(r.choice([1, 2, 4, 7])):
            ops.append([r.choice(["add_class", "add_class", "remove_class", "add_style", "set"]), r.choice(CLASSES), r.random() < 0.3])
        return {"k": "attrs", "ops": ops, "a": gen.attrs(r, 4), "kw": {n: gen.attr_value(r) for n in r.sample(gen.ATTR_NAMES, 4)}}
    if x < 0.83:
        return {"k": "css", "kw": {n: r.choice(["1px", "red", 0, None, 2.5]) for n in r.sample(["font_size", "backgroundColor", "color", "margin_top", "Zoom", "x"], 4)}}
    if x < 0.95:
        cs = gen_contents(r)
        return {"k": "heads", "cs": cs, "use": [r.randrange(len(cs)) for _ in range(r.choice([2, 4, 8]))], "at": r.choice(["doc", "deep", "list"])}
    return {"k": "save", "c": [gen.simple_node(r) for _ in range(2)], "heads": [gen_head(r) for _ in range(2)], "f": r.choice(["i.html", "a b.html"])}


def generate(r, tier):
    pool = []
    for i in range(r.choice([0, 0, 1, 3])):
        pool.append(r.choice([lambda: {"t": "dep", "d": gen.dep(r, names=MANY)}, lambda: gen.TreeGen(r, depth=1, refs=i, cached=0, both=0).tag(1), lambda: {"t": "headc", "c": gen_head(r)}])())
    items = [gen_item(r, len(pool)) for _ in range(r.choice([1, 2, 4, 6]))]
    if r.random() < 0.02:
        items.append({"k": "bulk", "n": 1500, "s": r.randrange(10**9)})
    n = len(items)
    hosts = [{"z": 0}]
    for _ in range(r.choice([2, 2, 3, 4])):
        order = list(range(n))
        r.shuffle(order)
        nt = r.choice([1, 1, 2, 3])
        noise = [echo(r, r.choice(items)) if r.random() < 0.65 else gen_item(r, len(pool)) for _ in range(r.choice([0, 1, 3, 4]))]
        again = [r.randrange(n) for _ in range(r.choice([0, 0, 1, 2]))]
        faults = {str(i): gen.op_faults(r, {}, 0.5, 0.5, scale=r.choice([20, 200, 1000])) for i in range(n) if r.random() < 0.25}
        hosts.append(
            {
                "z": r.randrange(NZ),
                "order": order,
                "nt": nt,
                "sched": gen.schedule(r, nt) if nt > 1 else [],
                "before": noise if r.random() < 0.6 else [],
                "before_json": r.random() < 0.2,
                "before_with": r.random() < 0.2,
                "among": noise if nt > 1 else [],
                "again": again,
                "faults": faults,
                "clock": [r.choice([0.0, 1e9, 4e9, 1.7e9]), r.choice([0.0, 1e-6, 1.0, -5.0, 3600.0])],
                "ids": r.choice([None, 1, 2]) and r.randrange(1, 1 << 30),
                "rand": r.randrange(1 << 30),
                "pid": r.choice([None, 1, 4242, 99999]),
                "junk": r.choice([0, 10, 1000]),
                "cwd": r.choice(["", "x", "d/e f"]),
                "env": r.random() < 0.3,
            }
        )
    return {"pool": pool, "items": items, "hosts": hosts}


# ------------------------------------------------------------ inside a host
def build_c(cs, env):
    """Build child specs, with {"t": "rendered"} = the markup of its children."""
    out = []
    for c in cs:
        if c["t"] == "rendered":
            out.append(HTML(str(TagList(*build_c(c["c"], env)).get_html_string())))
        else:
            out.append(build(c, env))
    return out


def dep_list(ds):
    return [[d.name, str(d.version)] for d in ds]


def run_item(it, env, scratch):
    """-> list of JSON-able observations."""
    k = it["k"]
    if k == "tree":
        c = [build(x, env) for x in it["c"]]
        x = Tag("div", *c) if it["as"] == "tag" else TagList(*c)
        if it["as"] == "str":
            return [str(x), str(x), dep_list(x.tagify().get_dependencies())]
        v = x.render()
        return [v["html"], dep_list(v["dependencies"])]
    if k == "doc":
        c = [build(x, env) for x in it["c"]]
        if it["html"]:
            c = [Tag("html", Tag("head", Tag("title", "t")), Tag("body", *c))]
        d = HTMLDocument(*c, *([] if it["html"] else attr_dicts([])), **{n.replace("-", "_"): value(v) for n, v in dict(map(tuple, it["a"])).items()})
        v = d.render(lib_prefix=it["lib"], include_version=it["ver"])
        return [v["html"], dep_list(v["dependencies"])]
    if k == "text":
        ds = [build_dep(d, env) for d in it["deps"]]
        t = "<html><head>@@</head><body>" + "\n".join(ds[i % len(ds)].serialize_to_script_json().get_html_string() for i in it["order"]) + "</body></html>"
        v = HTMLTextDocument(t, [ds[i % len(ds)] for i in it["own"]], "@@").render(lib_prefix=it["lib"], include_version=it["ver"])
        return [str(t), v["html"], dep_list(v["dependencies"])]
    if k == "jsx":
        x = build(it["s"], env)
        return [str(x), dep_list(x.tagify().get_dependencies())]
    if k == "attrs":
        t = Tag("p", *attr_dicts(it["a"]), **{n: value(v) for n, v in it["kw"].items()})
        for op, s, pre in it["ops"]:
            if op == "add_class":
                t.add_class(s, prepend=pre)
            elif op == "remove_class":
                t.remove_class(s.split()[0])
            elif op == "add_style":
                t.add_style("--" + s.strip().replace(" ", "-") + ": 1;", prepend=pre)
            else:
                t.attrs["data-" + s.strip().replace(" ", "-")] = s
        at, _ = consolidate_attrs(*attr_dicts(it["a"]), **{n: value(v) for n, v in it["kw"].items()})
        return [str(t), [[a, str(b)] for a, b in at.items()]]
    if k == "css":
        return [css(**it["kw"]), css(collapse_="\n", **it["kw"])]
    if k == "heads":
        hs = [head_content(*build_c(c["c"], env)) for c in it["cs"]]
        texts = [str(TagList(*build_c(c["c"], env)).get_html_string()) for c in it["cs"]]
        use = [hs[i % len(hs)] if n % 2 else head_content(*build_c(it["cs"][i % len(hs)]["c"], env)) for n, i in enumerate(it["use"])]
        body = [Tag("div", Tag("p", use[0], *use[1:2]), use[2:])] if it["at"] == "deep" else [TagList(*use)] if it["at"] == "list" else use
        v = HTMLDocument(*body).render()
        return [[h.name for h in hs], texts, v["html"], [[d.name, str(d.version), str(d.head.get_html_string())] for d in v["dependencies"]]]
    if k == "bulk":
        r = random.Random(it["s"])
        seen = {}
        for i in range(it["n"]):
            c = f"<meta name='{r.randrange(10**6)}' content='{i}'/>"
            seen.setdefault(head_content(HTML(c)).name, []).append(c)
        h = hashlib.sha1("\n".join(seen).encode()).hexdigest()
        return [len(seen), h]
    if k == "save":
        d = os.path.join(scratch, "out")
        os.makedirs(d, exist_ok=True)
        f = tempfile.mkdtemp(dir=d)
        doc = HTMLDocument(*[build(x, env) for x in it["c"]], *[head_content(*build_c(h, env)) for h in it["heads"]])
        p = doc.save_html(os.path.join(f, it["f"]))
        with open(p, "rb") as fh:
            return [fh.read().decode("utf-8", "replace"), os.path.relpath(p, f)]
    raise HarnessError(f"bad item {k}")


class FakeIds:
    """Object identities as a permutation chosen by the host."""

    def __init__(self, key):
        self.real = builtins.id
        self.key = key
        self.m = {}

    def __call__(self, x):
        i = self.real(x)
        e = self.m.get(i)
        if e is None:
            n = len(self.m) + 1
            e = self.m[i] = (x, ((n * 2654435761 + self.key) * 16) & ((1 << 46) - 1))
        return e[1]


def setup_host(cfg, scratch):
    r = random.Random(cfg["rand"])
    if cfg.get("cwd"):
        os.makedirs(os.path.join(scratch, cfg["cwd"]), exist_ok=True)
    os.chdir(os.path.join(scratch, cfg.get("cwd", "")))
    now = list(cfg["clock"])

    def clock():
        now[0] += now[1]
        return now[0]

    time.time = time.monotonic = time.perf_counter = time.process_time = clock
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(clock() * 1e9)
    random.seed(cfg["rand"])
    os.urandom = lambda n: r.randbytes(n)
    if cfg["pid"]:
        os.getpid = lambda: cfg["pid"]
    if cfg["env"]:
        os.environ.update(TZ="Asia/Tokyo", LANG="de_DE.UTF-8", HOME="/nonexistent", USER="u", PYTHONIOENCODING="latin-1", NO_COLOR="1")
    if cfg["ids"]:
        builtins.id = FakeIds(cfg["ids"])
    return [object() for _ in range(cfg["junk"])], [{str(i): i} for i in range(cfg["junk"] // 10)]


def run_host(cfg, plan):
    scratch = tempfile.mkdtemp(prefix="h-", dir=os.environ.get("VSIM_SCRATCH"))
    sim = kernel.Sim({})
    try:
        return _run_host(sim, cfg, plan, scratch)
    except kernel.Stop:
        return {"results": {}, "steps": 0, "switches": 0, "sig": "", "fired": {}, "violations": sim.violations}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def apart(fn):
    """The result of fn in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(wr, data) :]
        except BaseException:  # noqa: BLE001
            os._exit(3)
        os._exit(0)
    os.close(wr)
    data = b""
    while True:
        b = os.read(rd, 1 << 20)
        if not b:
            break
        data += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if st:
        raise HarnessError("an item's process died")
    return json.loads(data)


def _run_host(sim, cfg, plan, scratch):
    ref = "order" not in cfg
    keep = None
    if ref:
        os.chdir(scratch)
    else:
        keep = setup_host(cfg, scratch)
    env = Env()
    for p in plan["pool"]:
        o = sim.call(lambda: build(p, env))
        if not o.ok:
            setup_failed(sim, o)
        env.pool.append(o.value)
    results = {}
    items = plan["items"]

    def attempt(it, op):
        o = sim.call(lambda: run_item(it, env, scratch), op=op)
        if o.kind == "fault":
            o = sim.call(lambda: run_item(it, env, scratch))
        return ["ok", o.value] if o.ok else ["exc", type(o.exc).__name__]

    def exec_op(t, op):
        i = op.get("i")
        if i is None:
            attempt(op["noise"], None)
            return
        res = attempt(items[i], op)
        results.setdefault(i, []).append(res)

    if ref:
        # every item in a process of its own that has built nothing else
        for i in range(len(items)):
            results[i] = [apart(lambda: attempt(items[i], None))]
        ops, sched = [], []
    else:
        if cfg["before_json"]:
            htmltools.html_dependency_render_mode = "json"
            for it in (items[:1] + cfg["before"])[:2]:
                attempt(it, None)
            htmltools.html_dependency_render_mode = "invisible"
        if cfg["before_with"]:
            hook = sys.displayhook
            sys.displayhook = lambda x: None
            try:
                for it in items[:2]:
                    if "c" in it and it["k"] in ("tree", "doc"):
                        t = Tag("div", id="w")
                        with t:
                            for x in it["c"][:3]:
                                try:
                                    sys.displayhook(build(x, env))
                                except Exception:
                                    pass
                        sim.call(lambda: str(t))
            finally:
                sys.displayhook = hook
        for it in cfg["before"]:
            attempt(it, None)
        nt = cfg["nt"]
        work = [i % len(items) for i in cfg["order"]] + [i % len(items) for i in cfg["again"]]
        ops = [[] for _ in range(nt)]
        for n, i in enumerate(work):
            ops[n % nt].append({"i": i, **cfg["faults"].get(str(i), {})})
        for n, it in enumerate(cfg["among"]):
            ops[(n + 1) % nt].insert(n, {"noise": it})
        sched = cfg["sched"]
    if ops:
        sim.run_tasks(ops, sched, exec_op)
    del keep
    return {
        "results": {str(i): v for i, v in results.items()},
        "steps": sim.steps,
        "switches": sim.switches,
        "sig": sim.sig.hexdigest() if sim.switches else "",
        "fired": dict(sim.fired),
        "violations": sim.violations,
        "hash": hash("htmltools"),
    }


# -------------------------------------------------------------- coordinator
class Zygote:
    n = 0

    def __init__(self, seed, flags, env):
        e = dict(os.environ)
        e.update(PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1", **env)
        self.p = subprocess.Popen(
            [sys.executable, *flags, "-m", "sim.host"],
            cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
            env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        )
        self.buf = b""

    def ask(self, ident, cfg, plan):
        data = (json.dumps({"id": ident, "cfg": cfg, "plan": plan}) + "\n").encode()
        fd = self.p.stdin.fileno()
        off = 0
        while off < len(data):
            off += os.write(fd, data[off : off + 65536])
        while True:
            while b"\n" not in self.buf:
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    raise HarnessError("a host interpreter died")
                self.buf += b
            line, self.buf = self.buf.split(b"\n", 1)
            m = json.loads(line)
            if m["id"] == ident:
                return m["result"]


zygotes: list = []


def prepare():
    """Start the host interpreters of this worker."""
    base = int(os.environ.get("PYTHONHASHSEED") or 0) if (os.environ.get("PYTHONHASHSEED") or "0").isdigit() else 0
    seeds = [0] + [int(hashlib.sha1(f"{base}/{i}".encode()).hexdigest()[:7], 16) for i in range(1, NZ)]
    cfgs = [
        ([], {}),
        (["-O"], {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
        ([], {"TZ": "America/New_York"}),
        (["-OO", "-X", "utf8"], {}),
    ]
    for s, (f, e) in zip(seeds, cfgs):
        zygotes.append(Zygote(s, f, e))


FEATURES = ("before", "before_json", "before_with", "among", "again", "ids", "pid", "env", "cwd", "junk")


def execute(sim, plan):
    items = plan["items"]
    outs = []
    for h, cfg in enumerate(plan["hosts"]):
        ident = f"{os.getpid()}.{h}"
        res = zygotes[cfg["z"] % NZ].ask(ident, cfg, {"pool": plan["pool"], "items": items})
        if res.get("error"):
            raise HarnessError(f"host {h}: {res['error']}")
        for v in res["violations"]:
            sim.violate(v["cls"], f"host {h}: {v['msg']}")
        outs.append(res)
        sim.steps += res["steps"]
        sim.switches += res["switches"]
        sim.sig.update(res["sig"].encode())
        sim.fired.update(res["fired"])
        sim.ev("host", h, cfg["z"], hashlib.sha1(json.dumps(res["results"], sort_keys=True).encode()).hexdigest())
        if h:
            if cfg["z"] % NZ:
                sim.fired["host:other-interpreter"] += 1
            for f in FEATURES:
                if cfg.get(f):
                    sim.fired["host:" + f] += 1
            if cfg["order"] != sorted(cfg["order"]):
                sim.fired["host:order"] += 1
            if cfg["clock"][1] < 0:
                sim.fired["host:clock-runs-backwards"] += 1
            if res["switches"]:
                sim.fired["host:interleaved"] += 1
    sim.probe("hosts", len(outs))
    if any(o["violations"] for o in outs):
        return

    ref = outs[0]["results"]
    names, contents = {}, {}
    for h, res in enumerate(outs):
        for i, it in enumerate(items):
            for n, got in enumerate(res["results"].get(str(i), [])):
                want = ref[str(i)][0]
                if h or n:
                    sim.expect(got == want, "output-differs-between-hosts", lambda: f"item {i} ({it['k']}) on host {h}: {first_diff(want, got)}; host {plan['hosts'][h]!r}"[:1900])
                    sim.probe("compared:" + it["k"])
                if got[0] == "exc":
                    sim.probe("item-raised")
                    continue
                if it["k"] == "heads":
                    check_heads(sim, it, got[1], names, contents, f"item {i} on host {h}")
                elif it["k"] == "bulk":
                    sim.expect(got[1][0] == it["n"], "different-content-merged", lambda: f"item {i} on host {h}: {got[1][0]} names for {it['n']} contents")


def first_diff(a, b):
    a, b = json.dumps(a, ensure_ascii=False), json.dumps(b, ensure_ascii=False)
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{a[max(0, n - 60) : n + 120]!r} != {b[max(0, n - 60) : n + 120]!r}"


def check_heads(sim, it, v, names, contents, where):
    hn, texts, html, deps = v
    for a, c in zip(hn, texts):
        if names.setdefault(a, c) != c:
            sim.violate("different-content-merged", f"{where}: name {a!r} for {c[:300]!r} and {names[a][:300]!r}")
        if contents.setdefault(c, a) != a:
            sim.violate("equal-content-named-differently", f"{where}: {a!r} and {contents[c]!r} for {c[:300]!r}")
    used = [texts[i % len(texts)] for i in it["use"]]
    distinct = list(dict.fromkeys(used))
    sim.expect([d[2] for d in deps] == distinct, "head-content-not-once-each", lambda: f"{where}: {[d[2][:80] for d in deps]}, expected {[d[:80] for d in distinct]}")
    for m in {c["m"] for c in it["cs"]}:
        n = sum(c.count(m) for c in distinct)
        sim.expect(html.count(m) == n, "head-content-not-once-each", lambda: f"{where}: {m} occurs {html.count(m)} times, expected {n}")
    sim.probe("head-contents", len(texts))
    if len(set(texts)) < len(texts):
        sim.probe("equal-contents")
    if len(used) > len(distinct):
        sim.probe("content-used-repeatedly")
