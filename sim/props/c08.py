"""C08: rendering and tagify are pure and consistent; tagify is independent.

One object graph shared by several tasks.  Phase 1: read-only operations under
arbitrary preemption, with foreign code raising and interrupts.  Phase 2: every
read-only operation once more, sequentially.  Phase 3: mutation of a tagified
copy (or of the original) and comparison of the other.  Phase 4: equality.
"""

from __future__ import annotations

import copy
import json
import random
import os

import htmltools as ht
from htmltools import HTML, HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList

from .. import fs, gen
from ..build import Env, SimMeta, SimRepr, SimTfy, build, diff, own_nodes, sha, snap, value

READ = ["render", "render", "render", "str", "strs", "html_string", "deps", "deps_all", "tagify", "tagify", "tagify", "copy", "repr_html"]
DOC = ["doc_render", "doc_render", "doc_render", "doc_copy_render", "doc_save"]
DEPO = ["dep_tags", "dep_dict", "dep_map", "dep_json", "dep_str", "dep_tagify", "copy"]


# ---------------------------------------------------------------- generation
def gen_doc(r, g, npool):
    x = r.random()
    at = [[k, v] for k, v in gen.attrs(r, 2) if k not in ("class_", "_x")]
    if x < 0.4:
        c = g.nodes(1)
    elif x < 0.6:
        c = [g.tag(2, "body")]
    else:
        kids = g.nodes(1)
        if r.random() < 0.7:
            kids.insert(r.randint(0, len(kids)), g.tag(2, "head"))
        if r.random() < 0.6:
            kids.append(g.tag(2, "body"))
        c = [{"t": "tag", "n": "html", "w": True, "a": gen.attrs(r), "c": kids}]
        if r.random() < 0.25:
            c = [{"t": "tfy", "k": r.choice(["fresh", "cached"]), "r": c[0], "s": ""}]
    if npool and r.random() < 0.4:
        c = [{"t": "ref", "i": r.randrange(npool)}]
    return {"t": "doc", "c": c, "a": at}


def put_metadata_in_heads(r, x):
    """Metadata nodes within the head markup of dependencies."""
    if isinstance(x, dict):
        c = x.get("head", {}).get("c") if isinstance(x.get("head"), dict) else None
        if c is not None and r.random() < 0.3:
            m = {"t": "meta", "p": "m"} if r.random() < 0.5 else {"t": "dep", "d": gen.dep(r, head=False)}
            at = next((n["c"] for n in c if n["t"] == "tag"), c) if r.random() < 0.5 else c
            at.insert(r.randint(0, len(at)), m)
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            put_metadata_in_heads(r, y)


def generate(r, tier):
    n = r.choice([1, 2, 2, 3, 4])
    pool = []
    tfy = r.choice([0, 0.5, 1])
    for i in range(n):
        g = gen.TreeGen(r, tfy=tfy, refs=i, hostile=r.random() < 0.3, cached=0.3)
        x = r.random()
        if x < 0.5:
            pool.append(g.tag(g.depth, r.choice([None, None, "html", "body", "head"])))
        elif x < 0.7:
            pool.append({"t": "list", "k": "taglist", "c": g.nodes(g.depth, 1)})
        elif x < 0.88:
            pool.append(gen_doc(r, g, i))
        else:
            pool.append({"t": "dep", "d": gen.dep(r, hostile=r.random() < 0.3)})
    if r.random() < 0.5:
        put_metadata_in_heads(r, pool)
    ntasks = r.choice([1, 1, 2, 2, 3])
    tasks = []
    for _ in range(ntasks):
        ops = []
        for _ in range(r.randint(1, 5)):
            ops.append(gen_op(r, pool))
        tasks.append(ops)
    muts = []
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        muts.append(gen_mut(r))
    return {
        "pool": pool,
        "tasks": tasks,
        "sched": gen.schedule(r, ntasks) if ntasks > 1 else [],
        "opcode": r.random() < 0.25 and ntasks > 1,
        "muts": muts,
        "mut_rounds": r.choice([1, 1, 2]),
        "twins": [gen_twin(r) for _ in range(r.choice([0, 1, 2]))],
        "ctx": r.choice([1, 2]) if r.random() < 0.2 else 0,
    }


def gen_op(r, pool):
    o = r.randrange(len(pool))
    t = pool[o]["t"]
    k = r.choice(DOC if t == "doc" else DEPO if t == "dep" else READ)
    op = {"k": k, "o": o}
    if k == "html_string":
        op["indent"] = r.choice([0, 0, 1, 3])
        op["eol"] = r.choice(["\n", "\n", "\r\n", ""])
    if k.startswith("doc") or k.startswith("dep_"):
        op["lib"] = r.choice(["lib", "lib", None, "a/b", ""])
        op["ver"] = r.random() < 0.7
        op["indent"] = r.choice([None, 2])
    return gen.op_faults(r, op, 0.15, 0.15)


def gen_mut(r):
    return {
        "w": r.randrange(1000),
        "k": r.choice(
            ["append", "insert", "extend", "setattr", "popattr", "addclass", "rmclass", "addstyle", "pop", "clear",
             "setchild", "name", "ws", "iadd", "attrclear", "dep", "dep", "dep", "dep", "meta"]
        ),
        "i": r.randrange(10),
        "side": r.choice(["copy", "copy", "orig"]),
    }


def gen_twin(r):
    return {"o": r.randrange(10), "w": r.randrange(1000), "k": r.choice(
        ["same", "same", "name", "ws", "attr+", "attr-", "attrv", "text", "child+", "child-", "wrap", "split", "dep", "dep", "kind", "near", "near", "near"]
    ), "i": r.randrange(10)}


# --------------------------------------------------------------- graph build
class Doc:
    def __init__(self, doc, content):
        self.doc = doc
        self.content = content


def build_pool(specs):
    env = Env([], share=False)
    objs = []
    for sp in specs:
        if sp["t"] == "doc":
            c = [build(x, env) for x in sp["c"]]
            kw = {}
            for k, v in sp["a"]:
                kw[k] = value(v)
            d = Doc(HTMLDocument(*c, **kw), c)
            objs.append(d)
            env.pool.append(c[0] if c else "empty")
        else:
            x = build(sp, env)
            objs.append(x)
            env.pool.append(x)
    return objs, env


def snap_obj(x):
    if isinstance(x, Doc):
        return ("Doc", snap(x.content))
    return snap(x)


def rsnap(d):
    return (d["html"], tuple(snap(x) for x in d["dependencies"]))


def perform(op, x, n):
    """One read-only operation; returns a comparable value (library code)."""
    k = op["k"]
    if k == "render":
        return x.render()
    if k == "str":
        return str(x)
    if k == "repr_html":
        return x._repr_html_()
    if k == "strs":
        return [str(x), repr(x), x._repr_html_(), x.render()["html"]]
    if k == "html_string":
        return x.get_html_string(op["indent"], op["eol"])
    if k == "deps":
        return x.get_dependencies()
    if k == "deps_all":
        return x.get_dependencies(dedup=False)
    if k == "tagify":
        return x.tagify()
    if k == "copy":
        return copy.copy(x)
    if k == "doc_render":
        return x.doc.render(lib_prefix=op["lib"], include_version=op["ver"])
    if k == "doc_copy_render":
        return copy.copy(x.doc).render(lib_prefix=op["lib"], include_version=op["ver"])
    if k == "doc_save":
        d = os.path.join(os.getcwd(), f"save{n}")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "index.html")
        with fs.op_active():
            got = x.doc.save_html(f, libdir=op["lib"], include_version=op["ver"])
        if got != f:
            return "returned " + repr(got)
        with open(f) as fh:
            return fh.read()
    if k == "dep_tags":
        return x.as_html_tags(lib_prefix=op["lib"], include_version=op["ver"])
    if k == "dep_dict":
        return x.as_dict(lib_prefix=op["lib"], include_version=op["ver"])
    if k == "dep_map":
        return x.source_path_map(lib_prefix=op["lib"], include_version=op["ver"])
    if k == "dep_json":
        return x.serialize_to_script_json(indent=op["indent"])
    if k == "dep_str":
        return [str(x), repr(x)]
    if k == "dep_tagify":
        return TagList(x).tagify()
    raise AssertionError(k)


def norm(op, v):
    k = op["k"]
    if k in ("render", "doc_render", "doc_copy_render"):
        return rsnap(v)
    if k in ("tagify", "copy", "dep_tags", "dep_json", "dep_tagify"):
        return snap(v)
    if k in ("deps", "deps_all"):
        return tuple(snap(d) for d in v)
    if k == "dep_dict":
        return snap({**v, "meta": list(v["meta"])})
    return snap(v)


def opkey(op):
    return json.dumps({k: v for k, v in op.items() if k not in ("int", "cbf")}, sort_keys=True)


# ------------------------------------------------------------ equality model
def meq(a, b):
    """True / False / None (unspecified)."""
    if a is b:
        return True

    def kind(x):
        if isinstance(x, Tag):
            return "Tag"
        if isinstance(x, TagList):
            return "TagList"
        if isinstance(x, HTMLDependency):
            return "Dep"
        if isinstance(x, SimMeta):
            return "Meta"
        if isinstance(x, (str, HTML)):
            return "text"
        if isinstance(x, list):
            return "list"
        return "foreign"

    ka, kb = kind(a), kind(b)
    if ka != kb:
        return False
    if ka == "text":
        if str(a) != str(b):
            return False
        return True if isinstance(a, HTML) == isinstance(b, HTML) else None
    if ka == "foreign":
        return None

    def all_(xs):
        res = True
        for x in xs:
            if x is False:
                return False
            if x is None:
                res = None
        return res

    if ka in ("TagList", "list"):
        if len(a) != len(b):
            return False
        return all_(meq(x, y) for x, y in zip(a, b))
    if ka == "Meta":
        return a.p == b.p
    if ka == "Tag":
        if a.name != b.name or a.add_ws != b.add_ws or set(a.attrs) != set(b.attrs):
            return False
        v = all_(meq(a.attrs[k], b.attrs[k]) for k in a.attrs)
        return False if v is False else all_([v, meq(a.children, b.children)])
    # dependency
    if a.name != b.name or a.version != b.version:
        return False
    if (a.source, a.script, a.stylesheet, a.meta, a.all_files) != (b.source, b.script, b.stylesheet, b.meta, b.all_files):
        return False
    if (a.head is None) != (b.head is None):
        return False
    h = True if a.head is None else meq(a.head, b.head)
    return h if str(a.version) == str(b.version) else (None if h is not False else False)


def check_eq(sim, a, b, where):
    want = meq(a, b)
    for x, y in ((a, b), (b, a)):
        o = sim.call(lambda: x == y)
        if not o.ok:
            sim.violate("equality-raised", f"{where}: {o.exc!r}")
            continue
        if want is not None:
            sim.expect(
                o.value is want,
                "equality-wrong",
                lambda: f"{where}: == gave {o.value!r}, expected {want} for {snap(a)!r:.300} and {snap(b)!r:.300}",
            )
    return want


def has_expansion(x):
    if isinstance(x, Tag):
        return has_expansion(x.children)
    if isinstance(x, TagList):
        return any(has_expansion(c) for c in x)
    return hasattr(type(x), "tagify")


# ------------------------------------------------------------------- execute
def execute(sim, plan):
    d = fs.enter_scratch()
    try:
        _execute(sim, plan)
    finally:
        fs.leave_scratch(d)
    for e in fs.G.escapes:
        sim.violate("file-system-escape", str(e))


def _execute(sim, plan):
    objs, env = build_pool(plan["pool"])
    npool = len(objs)
    saves = [0]

    def fix(op):
        """Fit an operation to the object it names (objects change on shrinking)."""
        o = op["o"] % npool
        x = objs[o]
        k = op["k"]
        fam = DOC if isinstance(x, Doc) else DEPO if isinstance(x, HTMLDependency) else READ
        if k not in fam:
            k = fam[0]
        base = {"lib": "lib", "ver": True, "indent": 0, "eol": "\n"}
        return {**base, **op, "k": k, "o": o}

    base = {}

    def baseline(op):
        key = opkey(op)
        if key not in base:
            o2, _ = build_pool(plan["pool"])
            saves[0] += 1
            o = sim.call(perform, op, o2[op["o"]], f"b{saves[0]}")
            base[key] = ("ok", norm(op, o.value)) if o.ok else ("exc", type(o.exc).__name__)
        return base[key]

    tasks = [[fix(op) for op in ops] for ops in plan["tasks"]]
    for ops in tasks:
        for op in ops:
            baseline(op)
    before = [snap_obj(x) for x in objs]
    conc = len([t for t in tasks if t]) > 1

    def check_unchanged(where):
        for i, x in enumerate(objs):
            now = snap_obj(x)
            if now != before[i]:
                sim.violate("object-changed", lambda_msg(where, i, before[i], now))
                before[i] = now
        for t in env.tfys:
            if t._cache is not None:
                s = snap(t._cache)
                old = getattr(t, "_cache_snap", None)
                if old is None:
                    t._cache_snap = s
                elif old != s:
                    sim.violate("object-changed", f"{where}: cached expansion: {diff(old, s)}")
                    t._cache_snap = s

    def lambda_msg(where, i, a, b):
        return f"{where}: pool object {i}: {diff(a, b)}"

    copies = []

    def after(op, x, o):
        """Checks on the result of one operation (harness code)."""
        if o.kind == "fault":
            sim.ev("op", op["k"], "fault")
            return
        if o.kind == "exc":
            got = ("exc", type(o.exc).__name__)
        else:
            got = ("ok", norm(op, o.value))
        want = baseline_of[opkey(op)]
        sim.ev("op", op["k"], op["o"], got[0], sha(repr(got[1]).replace(os.getcwd(), "$")))
        sim.expect(
            got == want,
            "result-differs",
            lambda: f"{op['k']} on object {op['o']} differs from the same call on a fresh identical object: {diff(want, got)}",
        )
        if o.kind != "ok":
            # markup of un-expanded objects, and files that do not exist, are refused
            if op["k"] not in ("html_string", "doc_save"):
                sim.violate("read-only-operation-raised", f"{op['k']} on object {op['o']}: {o.exc!r}"[:600])
            return
        v = o.value
        if op["k"] == "strs":
            sim.expect(len(set(map(str, v))) == 1 and all(type(s) is str for s in v), "string-forms-differ", lambda: repr(v)[:600])
        if op["k"] == "dep_str":
            pass
        if op["k"] == "tagify":
            mine, theirs = own_nodes(x), own_nodes(v)
            both = set(mine) & set(theirs)
            sim.expect(not both, "copy-shares-objects", lambda: "tagify() shares " + ", ".join(sorted({mine[i][0] for i in both})))
            copies.append((x, v))
            sim.probe("tagified")
            if not has_expansion_nodes(x):
                sim.probe("tagified-nothing-to-expand")
                sim.expect(snap(x) == snap(v), "tagify-not-identity", lambda: diff(snap(x), snap(v)))
                sim.expect(meq(x, v) is not False, "tagify-not-identity", "model inequality")

    def has_expansion_nodes(x):
        kids = x.children if isinstance(x, Tag) else x
        return any(
            has_expansion_nodes(c) if isinstance(c, (Tag, TagList)) else hasattr(type(c), "tagify") for c in kids
        )

    baseline_of = base

    def exec_op(t, op):
        x = objs[op["o"]]
        saves[0] += 1
        o = sim.call(perform, op, x, f"t{saves[0]}", op=op)
        after(op, x, o)
        check_unchanged(f"after {op['k']} of object {op['o']} ({o.kind})")

    sim.run_tasks(tasks, plan["sched"], exec_op)
    check_unchanged("after the concurrent phase")

    # ---- phase 2: everything once more, sequentially, without faults
    for ops in tasks:
        for op in ops:
            x = objs[op["o"]]
            saves[0] += 1
            o = sim.call(perform, op, x, f"s{saves[0]}")
            after({**op}, x, o)
    check_unchanged("after repetition")

    # ---- optional: one tag is used as a context manager in between
    if plan.get("ctx"):
        t0 = next((x for x in objs if isinstance(x, Tag)), None)
        if t0 is not None:
            import sys

            class Hook:
                # like the hook of an interactive shell: not something to copy
                def __call__(self, v):
                    pass

                def __reduce_ex__(self, protocol):
                    raise TypeError("a display hook cannot be copied")

            saved = sys.displayhook
            sys.displayhook = Hook() if plan["ctx"] == 2 else lambda v: None
            try:
                twin = build_pool(plan["pool"])[0][[i for i, x in enumerate(objs) if x is t0][0]]

                def use():
                    with t0:
                        pass

                o = sim.call(use)
                if o.ok:
                    check_unchanged("after use as a context manager")
                    check_eq(sim, t0, twin, "tag used as a context manager against its twin")
                    o = sim.call(lambda: t0.tagify())
                    sim.expect(
                        o.kind != "exc" or sim.call(lambda: twin.tagify()).kind == "exc",
                        "operation-raised",
                        lambda: f"tagify() of a tag that was used as a context manager raised {o.exc!r}",
                    )
                    c = o.value
                    if c is not None and not has_expansion_nodes(t0):
                        check_eq(sim, t0, c, "tag used as a context manager against its copy")
                    sim.probe("context-manager-used")
            finally:
                sys.displayhook = saved

    # ---- phase 3: independence of tagified copies under mutation
    trees = [x for x in objs if isinstance(x, (Tag, TagList))]
    for x in trees:
        o = sim.call(lambda: x.tagify())
        if not o.ok:
            continue
        t = o.value
        o2 = sim.call(lambda: t.tagify())
        if o2.ok:
            sim.expect(
                snap(o2.value) == snap(t),
                "tagify-not-a-fixed-point",
                lambda: diff(snap(t), snap(o2.value)),
            )
            check_eq(sim, t, o2.value, "tagified tree against its own tagified copy")
        else:
            sim.violate("tagify-not-a-fixed-point", repr(o2.exc))
        if not has_expansion_nodes(x):
            want = check_eq(sim, x, t, "tree against its tagified copy")
        for rnd in range(plan["mut_rounds"]):
            for m in plan["muts"]:
                a, b = (t, x) if m["side"] == "copy" else (x, t)
                sb = snap(b)
                what = mutate(sim, a, m)
                if what is None:
                    continue
                sim.probe("mutations")
                sim.expect(
                    snap(b) == sb,
                    "copy-not-independent",
                    lambda: f"{what} on the {m['side']} changed the other: {diff(sb, snap(b))}",
                )
            o = sim.call(lambda: x.tagify())
            if not o.ok:
                break
            t = o.value

    # ---- phase 4: equality of near twins
    for tw in plan["twins"]:
        i = tw["o"] % npool
        if isinstance(objs[i], Doc):
            continue
        spec = plan["pool"][i]
        other = perturb(json.loads(json.dumps(spec)), tw)
        if other is None:
            continue
        e1, e2 = Env(list(env.pool), False), Env(list(env.pool), False)
        a, b = build(spec, e1), build(other, e2)
        w = check_eq(sim, a, b, f"twin with {tw['k']}")
        sim.probe(f"twin-{w}")


# -------------------------------------------------------------------- mutate
def walk(x, out):
    if isinstance(x, Tag):
        out.append(x)
        walk(x.children, out)
    elif isinstance(x, TagList):
        out.append(x)
        for c in x:
            walk(c, out)
    elif isinstance(x, MetadataNode):
        out.append(x)
        if isinstance(x, HTMLDependency) and x.head is not None:
            walk(x.head, out)


def mutate(sim, root, m):
    nodes = []
    walk(root, nodes)
    k = m["k"]
    want = HTMLDependency if k == "dep" else SimMeta if k == "meta" else Tag if k in (
        "setattr", "popattr", "addclass", "rmclass", "addstyle", "name", "ws", "attrclear"
    ) else (Tag, TagList)
    nodes = [n for n in nodes if isinstance(n, want)]
    if not nodes:
        return None
    x = nodes[m["w"] % len(nodes)]
    kids = x.children if isinstance(x, Tag) else x
    n = len(kids) if isinstance(kids, TagList) else 0
    i = m["i"]

    def go():
        if k == "append":
            x.append("mutated", None, 5)
        elif k == "insert":
            x.insert(i % (n + 1), "mutated")
        elif k == "extend":
            x.extend(["mutated", HTML("<m>")])
        elif k == "setattr":
            x.attrs["data_mut"] = "m"
            for key in list(x.attrs):
                x.attrs[key] = "changed"
                break
        elif k == "popattr":
            if x.attrs:
                x.attrs.pop(list(x.attrs)[i % len(x.attrs)])
        elif k == "addclass":
            x.add_class("mutated")
        elif k == "rmclass":
            c = x.attrs.get("class")
            if c and str(c).split():
                x.remove_class(str(c).split()[0])
        elif k == "addstyle":
            x.add_style("mutated:1;")
        elif k == "pop":
            if n:
                kids.pop(i % n)
        elif k == "clear":
            kids.clear()
        elif k == "setchild":
            if n:
                kids[i % n] = "mutated"
        elif k == "iadd":
            k2 = kids
            k2 += ["mutated"]
        elif k == "name":
            x.name = "mutated"
        elif k == "ws":
            x.add_ws = not x.add_ws
        elif k == "attrclear":
            x.attrs.clear()
        elif k == "meta":
            x.p.append("mutated")
        elif k == "dep":
            w = i % 7
            if w == 0:
                x.script.append({"src": "mutated.js"})
            elif w == 1:
                x.stylesheet.append({"href": "mutated.css"})
            elif w == 2:
                x.meta.append({"name": "m", "content": "m"})
            elif w == 3 and x.script:
                x.script[0]["src"] = "mutated.js"
            elif w == 4 and x.stylesheet:
                x.stylesheet[0]["media"] = "mutated"
            elif w == 5 and x.head is not None:
                x.head.append("mutated")
            elif w == 6 and x.source is not None:
                x.source["subdir"] = "mutated"
            else:
                x.name = x.name + "m"

    o = sim.call(go)
    if not o.ok:
        sim.violate("mutation-raised", f"{k} on {type(x).__name__}: {o.exc!r}")
        return None
    return f"{k} on a {type(x).__name__}"


# ------------------------------------------------------------------- perturb
def spec_nodes(n, out):
    out.append(n)
    for c in n.get("c", []):
        if isinstance(c, dict):
            spec_nodes(c, out)
    return out


def perturb(spec, tw):
    k = tw["k"]
    nodes = spec_nodes(spec, [])
    tags = [n for n in nodes if n["t"] == "tag"]
    i = tw["i"]
    if k == "same":
        return spec
    if k == "near":
        places = []

        def strings(x):
            for key in list(x) if isinstance(x, dict) else range(len(x)):
                v = x[key]
                if isinstance(v, str) and v and key not in ("t", "k", "ver", "package", "v"):
                    places.append((x, key))
                elif isinstance(v, (dict, list)):
                    strings(v)

        strings(spec)
        if not places:
            return None
        x, key = places[tw["w"] % len(places)]
        x[key] = gen.near(random.Random(tw["w"] * 10 + i), x[key]) or "x"
        return spec
    if k == "kind":
        if spec["t"] == "tag":
            return {"t": "list", "k": "taglist", "c": spec["c"]}
        if spec["t"] == "list":
            return {"t": "tag", "n": "div", "w": True, "a": [], "c": spec["c"]}
        return {"t": "list", "k": "taglist", "c": [spec]}
    if k in ("name", "ws", "attr+", "attr-", "attrv"):
        if not tags:
            return None
        t = tags[tw["w"] % len(tags)]
        if k == "name":
            t["n"] = "zz" if i % 2 else t["n"].upper()
        elif k == "ws":
            t["w"] = not t["w"]
        elif k == "attr+":
            t["a"] = t["a"] + [["data_new", {"s": ["", "x"][i % 2]}]]
        elif k == "attr-":
            if not t["a"]:
                return None
            t["a"].pop(i % len(t["a"]))
        else:
            if not t["a"]:
                return None
            t["a"][i % len(t["a"])][1] = {"s": ["other", "", "Other "][i % 3]}
        return spec
    if k == "dep":
        deps = [n for n in nodes if n["t"] == "dep"]
        if not deps:
            return None
        d = deps[tw["w"] % len(deps)]["d"]
        w = i % 8
        if w == 0:
            d["name"] += "x"
        elif w == 1:
            d["ver"] = "77.0"
        elif w == 2:
            d["all"] = not d["all"]
        elif w == 3:
            d["script"] = d["script"] + [{"src": "new.js"}]
        elif w == 4:
            d["css"] = d["css"] + [{"href": "new.css"}]
        elif w == 5:
            d["meta"] = d["meta"] + [{"name": "new", "content": "c"}]
        elif w == 6:
            d["head"] = {"s": "<new>"}
        else:
            d["src"] = {"href": "https://new"}
        return spec
    texts = [n for n in nodes if n["t"] in ("text", "html")]
    if k == "text":
        if not texts:
            return None
        t = texts[tw["w"] % len(texts)]
        t["s"] = t["s"] + ["x", " ", "\n"][i % 3]
        return spec
    if k == "split":
        # one text child against two: different structure
        par = [n for n in nodes if n["t"] in ("tag", "list") and any(c["t"] == "text" and len(c["s"]) > 1 for c in n["c"])]
        if not par:
            return None
        p = par[tw["w"] % len(par)]
        j = next(j for j, c in enumerate(p["c"]) if c["t"] == "text" and len(c["s"]) > 1)
        s = p["c"][j]["s"]
        p["c"][j : j + 1] = [{"t": "text", "s": s[:1]}, {"t": "text", "s": s[1:]}]
        return spec
    par = [n for n in nodes if n["t"] == "tag" or (n["t"] == "list" and n["k"] == "taglist")]
    if not par:
        return None
    p = par[tw["w"] % len(par)]
    if k == "child+":
        p["c"].insert(i % (len(p["c"]) + 1), {"t": "text", "s": ["", "x"][i % 2]})
    elif k == "child-":
        if not p["c"]:
            return None
        p["c"].pop(i % len(p["c"]))
    elif k == "wrap":
        if not p["c"]:
            return None
        j = i % len(p["c"])
        p["c"][j] = {"t": "tag", "n": "span", "w": False, "a": [], "c": [p["c"][j]]}
    return spec
