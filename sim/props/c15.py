"""C15: attribute names and values are normalised and merged in argument order.

Histories of construction, update, item assignment and consolidation on the tags
of each task; the argument maps are shared by all tasks (and some are foreign code
that yields or fails).  After every operation the attributes are compared with an
ordered-map model.
"""

from __future__ import annotations

from collections.abc import Mapping

import htmltools as ht
from htmltools import HTML, Tag, TagList, consolidate_attrs
from htmltools._core import TagAttrDict

from .. import gen
from ..build import SimRepr, foreign
from ..kernel import HarnessError

NAMES = gen.ATTR_NAMES + ["class", "class_", "class", "style", "a__b", "__", "_", "x___", "data-x_", "Data_X", "xml:lang", "id_", "é_x"]
INVALID = ["list", "dict", "object", "bytes", "tuple", "complex", "tag", "taglist", "set"]


# ---------------------------------------------------------------- generation
def gen_v(r, bad):
    if bad and r.random() < 0.06:
        return {"x": r.choice(INVALID)}
    x = r.random()
    if x < 0.05:
        return {"i": r.randint(-9, 9)}
    if x < 0.09:
        return {"ss": gen.text(r, 2)}
    if x < 0.12:
        return {"n": r.choice(["inf", "nan", 1.0, 3])}
    return gen.attr_value(r, html=0.2)


def gen_map(r, names, bad, foreign_ok=False):
    n = gen.count(r, [0, 1, 1, 2, 3, 5])
    if n > 8 and r.random() < 0.7:
        names = names + ["n%d" % i for i in range(n)]
    kind = r.choice(["dict", "dict", "dict", "dictsub", "attrdict"] + (["foreign", "foreign"] if foreign_ok else []))
    return {"k": kind, "p": [[r.choice(names), gen_v(r, bad and kind != "attrdict")] for _ in range(n)]}


def gen_arg(r, names, bad, npool):
    x = r.random()
    if x < 0.45:
        return {"m": gen_map(r, names, bad)}
    if x < 0.6 and npool:
        return {"pool": r.randrange(npool)}
    if x < 0.67:
        return {"attrs_of": r.randrange(4)}
    return {"child": r.choice(["text", "tag", "list", "none", "num", "html", "repr", "taglist", "nested", "dep"])}


def gen_op(r, names, bad, npool):
    k = r.choice(["new", "new", "new", "fn", "attrdict", "update", "update", "update", "set", "set", "set", "consolidate", "consolidate", "consolidate", "argmut"])
    op = {"k": k, "o": r.randrange(4)}
    kw = [[n, gen_v(r, bad)] for n in dict.fromkeys(r.choice(names) for _ in range(gen.count(r, [0, 0, 1, 2, 4], most=40)))]
    if k in ("new", "fn", "consolidate"):
        op["args"] = [gen_arg(r, names, bad, npool) for _ in range(gen.count(r, [0, 1, 2, 3, 4], most=40))]
        op["kw"] = kw
    elif k in ("update", "attrdict"):
        op["args"] = []
        for _ in range(gen.count(r, [0, 1, 1, 2, 3], most=40)):
            x = r.random()
            op["args"].append({"pool": r.randrange(npool)} if x < 0.25 and npool else {"attrs_of": r.randrange(4)} if x < 0.35 else {"m": gen_map(r, names, bad, True)})
        op["kw"] = kw
    elif k == "set":
        op["n"] = r.choice(names)
        op["v"] = gen_v(r, bad)
    return gen.op_faults(r, op, 0.1, 0.06, scale=r.choice([3, 12, 40]))


def generate(r, tier):
    names = NAMES if r.random() < 0.4 else r.sample(NAMES, r.choice([2, 3, 4]))
    if r.random() < 0.25:
        # any names, and names that are nearly the same
        names = names[: r.choice([1, 2])] + [gen.text(r, 3) or "q" for _ in range(r.choice([0, 1, 2]))]
        names = names + [gen.near(r, r.choice(names)) for _ in range(r.choice([1, 2, 4]))]
    if r.random() < 0.03:
        names = names + ["n%d" % i for i in range(r.choice([12, 20, 40]))]
    bad = r.random() < 0.4
    npool = r.choice([0, 1, 2, 3])
    pool = [gen_map(r, names, False) for _ in range(npool)]
    nt = r.choice([1, 1, 2, 3])
    return {
        "pool": pool,
        "tasks": [[gen_op(r, names, bad, npool) for _ in range(r.choice([2, 4, 8, 14]))] for _ in range(nt)],
        "sched": gen.schedule(r, nt) if nt > 1 else [],
        "opcode": nt > 1 and r.random() < 0.3,
    }


# -------------------------------------------------------------------- values
class NumSub(int):
    def __str__(self):
        foreign("str")
        return "n" + int.__repr__(self)


class StrSub(str):
    pass


class DictSub(dict):
    pass


class SimMap(Mapping):
    """A mapping that is foreign code."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        foreign("getitem")
        return self.d[k]

    def __iter__(self):
        foreign("iter")
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def items(self):
        for k, v in self.d.items():
            foreign("items")
            yield k, v


def real_value(v):
    if "x" in v:
        return {
            "list": lambda: ["a"],
            "dict": lambda: {"a": 1},
            "object": object,
            "bytes": lambda: b"a",
            "tuple": lambda: ("a",),
            "complex": lambda: 1j,
            "tag": lambda: Tag("b"),
            "taglist": lambda: TagList("a"),
            "set": lambda: {"a"},
        }[v["x"]]()
    if "i" in v:
        return NumSub(v["i"])
    if "ss" in v:
        return StrSub(v["ss"])
    if "n" in v:
        return float(v["n"]) if isinstance(v["n"], str) else v["n"]
    if "s" in v:
        return v["s"]
    if "h" in v:
        return HTML(v["h"])
    if "b" in v:
        return v["b"]
    return None


class Bad(Exception):
    pass


def norm_name(n):
    if n.endswith("_"):
        n = n[:-1]
    return n.replace("_", "-")


def norm_value(v):
    """None (dropped) or ('s'|'h', text)."""
    if v is None or v is False:
        return None
    if v is True:
        return ("s", "")
    if isinstance(v, HTML):
        return ("h", v.as_string())
    if isinstance(v, str):
        return ("s", str.__str__(v))
    if isinstance(v, NumSub):
        return ("s", "n" + int.__repr__(v))
    if isinstance(v, (int, float)):
        return ("s", str(v))
    raise Bad(type(v).__name__)


TEXT = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
ATTR = {**TEXT, '"': "&quot;", "'": "&apos;", "\r": "&#13;", "\n": "&#10;"}


def esc(s, table):
    return "".join(table.get(c, c) for c in s)


def accepted(parts):
    """(kind, set of accepted texts) for the values given for one name."""
    kinds = {k for k, _ in parts}
    if kinds == {"s"}:
        return "s", {" ".join(t for _, t in parts)}
    if kinds == {"h"}:
        return "h", {" ".join(t for _, t in parts)}
    return "h", {" ".join(t if k == "h" else esc(t, tb) for k, t in parts) for tb in (TEXT, ATTR)}


def merge(pairs):
    """Ordered map for one call: name -> accepted(...)."""
    out = {}
    for n, v in pairs:
        nv = norm_value(v)
        if nv is None:
            continue
        out.setdefault(norm_name(n), []).append(nv)
    return {n: accepted(p) for n, p in out.items()}


def match(acc, val):
    kind, texts = acc
    if kind == "h":
        return isinstance(val, HTML) and val.as_string() in texts
    return isinstance(val, str) and str.__str__(val) in texts


def show(d):
    return [(k, type(v).__name__, str.__str__(v) if isinstance(v, str) else str(v)) for k, v in d.items()]


def execute(sim, plan):
    def make_map(m):
        d = {}
        for n, v in m["p"]:
            d[n] = real_value(v)
        if m["k"] == "attrdict":
            try:
                merge(d.items())
            except Bad:
                return d
            return TagAttrDict(d)
        if m["k"] == "dictsub":
            return DictSub(d)
        if m["k"] == "foreign":
            return SimMap(d)
        return d

    def shape(m):
        d = m.d if isinstance(m, SimMap) else m
        return [(k, id(v)) for k, v in dict.items(d)]

    pool = [make_map(m) for m in plan["pool"]]
    pool_before = [shape(m) for m in pool]
    pool_keep = [list(dict.values(m)) for m in pool]
    child_objs = {
        "text": "txt",
        "tag": Tag("b", "x"),
        "list": ["a", ["b", None]],
        "none": None,
        "num": 5,
        "html": HTML("<i>"),
        "repr": SimRepr("<r>"),
        "taglist": TagList("p", Tag("q")),
        "nested": (1, ("two", Tag("u"))),
        "dep": ht.HTMLDependency("d", "1.0"),
    }

    class Handle:
        def __init__(self, attrs, model, tag=None):
            self.attrs, self.model, self.tag = attrs, model, tag

    def check(h, where):
        a = h.tag.attrs if h.tag is not None else h.attrs
        good = list(a.keys()) == list(h.model.keys()) and all(match(h.model[k], v) for k, v in a.items())
        sim.expect(
            good, "attributes-differ", lambda: f"{where}: expected {list(h.model.items())!r}, got {show(a)!r}"[:1500]
        )
        if not good:
            resync(h)
        return good

    def resync(h):
        a = h.tag.attrs if h.tag is not None else h.attrs
        h.model = {k: ("h", {v.as_string()}) if isinstance(v, HTML) else ("s", {str(v)}) for k, v in a.items()}

    def replace(model, new):
        m = dict(model)
        m.update(new)
        return m

    def exec_op(t, op):
        own = t.local.setdefault("own", [])
        if not own:
            tag = Tag("div")
            own.append(Handle(None, {}, tag))
        h = own[op["o"] % len(own)]
        k = op["k"]

        def arg(a):
            if "m" in a:
                return make_map(a["m"])
            if "pool" in a:
                return pool[a["pool"] % len(pool)] if pool else {}
            if "attrs_of" in a:
                g = own[a["attrs_of"] % len(own)]
                return g.tag.attrs if g.tag is not None else g.attrs
            return child_objs[a["child"]]

        if k == "argmut":
            d = t.local.get("lastmap")
            if d is not None:
                dict.__setitem__(d, "later", "mutated")
                sim.probe("argument-mutated-later")
                for g in own:
                    check(g, "after an argument map was changed by its owner")
            return
        args = [arg(a) for a in op.get("args", [])]
        kw = {n: real_value(v) for n, v in op.get("kw", [])}
        maps = [a for a in args if isinstance(a, (dict, SimMap))]
        before = [shape(m) for m in maps]
        pairs = []
        for m in maps:
            pairs += list((m.d if isinstance(m, SimMap) else dict(dict.items(m))).items())
        pairs += list(kw.items())
        kids = [a for a in args if not isinstance(a, dict)]
        bad = False
        new = {}
        try:
            if k == "set":
                new = merge([(op["n"], real_value(op["v"]))])
            else:
                new = merge(pairs)
        except Bad:
            bad = True
        if len(new) < len([p for p in pairs if p[1] is not None and p[1] is not False]):
            sim.probe("values-merged")
        if any(len(a[1]) > 1 or a[0] == "h" for a in new.values()):
            sim.probe("html-values")
        res = None
        tgt = (h.tag.attrs if h.tag is not None else h.attrs)
        if k == "new":
            o = sim.call(lambda: Tag("div", *args, **kw), op=op)
        elif k == "fn":
            fn = ht.div if op["o"] % 2 else ht.span
            o = sim.call(lambda: fn(*args, **kw), op=op)
        elif k == "attrdict":
            o = sim.call(lambda: TagAttrDict(*args, **kw), op=op)
        elif k == "update":
            o = sim.call(lambda: tgt.update(*args, **kw), op=op)
        elif k == "set":
            v = real_value(op["v"])

            def go():
                tgt[op["n"]] = v

            o = sim.call(go, op=op)
        elif k == "consolidate":
            o = sim.call(lambda: consolidate_attrs(*args, **kw), op=op)
        else:
            raise HarnessError(k)
        where = f"{k} {[(n, v) for n, v in pairs]!r:.300}" if k != "set" else f"set {op['n']!r}={op['v']!r}"
        sim.ev(k, o.kind, bad, sorted(new) if not bad else "")
        sim.expect([shape(m) for m in maps] == before or k in ("update", "set") and any(m is tgt for m in maps), "argument-map-changed", where)
        if o.kind == "fault" or (o.kind == "exc" and bad):
            if o.kind == "exc":
                sim.probe("invalid-value")
                sim.expect(isinstance(o.exc, TypeError), "wrong-exception", lambda: f"{where}: {o.exc!r}")
            # every attribute still has its old or its new value
            for n, v in tgt.items():
                olds = [m for m in (h.model.get(n), new.get(n)) if m]
                if not bad and not any(match(m, v) for m in olds):
                    sim.violate("interrupted-update-corrupts", f"{where}: {n}={v!r}, expected one of {olds!r}"[:800])
            missing = [n for n in h.model if n not in tgt]
            if missing:
                sim.violate("interrupted-update-corrupts", f"{where}: lost {missing}")
            resync(h)
            return
        if bad:
            if k in ("update", "set", "new", "fn", "attrdict", "consolidate"):
                sim.violate("invalid-value-accepted", where)
            resync(h)
            return
        if o.kind == "exc":
            sim.violate("valid-call-rejected", f"{where}: {o.exc!r}")
            return
        if k in ("update", "set"):
            h.model = replace(h.model, new)
        elif k in ("new", "fn"):
            g = Handle(None, new, o.value)
            if check(g, where) and len(own) < 6:
                own.append(g)
        elif k == "attrdict":
            g = Handle(o.value, new)
            if check(g, where) and len(own) < 6:
                own.append(g)
        elif k == "consolidate":
            sim.probe("consolidated")
            a, c = o.value
            sim.expect(isinstance(a, dict), "consolidate-not-a-dict", where)
            if check(Handle(a, new), where + " (consolidate_attrs)"):
                sim.expect(
                    len(c) == len(kids) and all(x is y for x, y in zip(c, kids)),
                    "consolidate-children-differ",
                    lambda: f"{where}: {kids!r} -> {c!r}"[:600],
                )
                o2 = sim.call(lambda: (Tag("div", a, *c), Tag("div", *args, **kw)))
                if o2.ok:
                    x, y = o2.value
                    check(Handle(None, new, x), where + " (rebuilt)")
                    sim.expect(
                        show(x.attrs) == show(y.attrs) and [id(q) if not isinstance(q, (str, HTML)) else str(q) for q in x.children]
                        == [id(q) if not isinstance(q, (str, HTML)) else str(q) for q in y.children],
                        "rebuilt-tag-differs",
                        lambda: f"{where}: {show(x.attrs)} vs {show(y.attrs)}",
                    )
                    sim.expect(x == y, "rebuilt-tag-differs", where)
                else:
                    sim.violate("rebuild-raised", f"{where}: {o2.exc!r}")
        for m in maps:
            if type(m) is dict and not any(m is p for p in pool):
                t.local["lastmap"] = m
        for g in own:
            check(g, where)
        sim.probe("operations-checked")

    sim.run_tasks(plan["tasks"], plan["sched"], exec_op)
    sim.expect([shape(m) for m in pool] == pool_before, "argument-map-changed", "a shared argument map was altered")
    del pool_keep
