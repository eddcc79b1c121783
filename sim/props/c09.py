"""C09: Tagifiable objects render as their expansion, spliced in place.

Differential: a tree with foreign expanding components against the same tree with
the expansions substituted by hand (at the level of the specification, so that no
library code takes part in the substitution).
"""

from __future__ import annotations

import json
import os

import htmltools as ht
from htmltools import HTMLDocument, Tag, TagList

from .. import fs, gen
from ..build import Env, SimTfyMeta, SimTfyStr, SimTfyTag, build, diff, sha, snap, value

OPS = ["render", "render", "render", "str", "doc", "doc", "doc_append", "doc_save", "save", "tagify", "unexpanded", "unexpanded",
       "unexpanded_part", "headc", "strs", "wrap_render", "deps_after"]


# ---------------------------------------------------------------- generation
def generate(r, tier):
    npool = r.choice([0, 0, 1, 2])
    pool = []
    for i in range(npool):
        g = gen.TreeGen(r, tfy=1.5, refs=i, depth=r.choice([0, 1, 2]), dep_head=False)
        pool.append(g.tfy(2))
    g = gen.TreeGen(r, tfy=r.choice([1.0, 2.5]), refs=npool, hostile=r.random() < 0.2, dep_head=r.random() < 0.5, both=r.choice([0, 0.3]), cached=r.choice([0, 0.3]))
    g.dep_head = False
    roots = []
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        if x < 0.35:
            roots.append({"t": "list", "k": "taglist", "c": g.nodes(g.depth, 1)})
        elif x < 0.6:
            roots.append(g.tag(g.depth))
        elif x < 0.8:
            # an object that expands to a whole document or to its body
            nm = r.choice(["html", "body", "head", "html"])
            kids = g.nodes(1)
            if nm == "html":
                if r.random() < 0.6:
                    kids = [x for x in [g.tag(1, "head"), g.tag(2, "body")] if r.random() < 0.8]
                kids = [x for x in kids if x["t"] != "ref"]
            e = {"t": "tag", "n": nm, "w": True, "a": gen.attrs(r), "c": kids}
            k = r.choice(["fresh", "cached", "both"])
            t = {"t": "tfy", "k": k, "r": e, "s": "<self/>"}
            if r.random() < 0.4:
                t = {"t": "tfy", "k": "fresh", "r": {"t": "list", "k": "taglist", "c": [t]}, "s": ""}
            roots.append({"t": "list", "k": "taglist", "c": [t]})
        else:
            kids = [g.tag(2, "head")] if r.random() < 0.6 else []
            kids.append(g.tag(2, "body"))
            if r.random() < 0.5:
                j = r.randrange(len(kids))
                kids[j] = {"t": "tfy", "k": "fresh", "r": kids[j], "s": ""}
            if r.random() < 0.3:
                kids.insert(r.randint(0, len(kids)), g.tfy(1))
            roots.append({"t": "tag", "n": "html", "w": True, "a": gen.attrs(r), "c": kids})
    ntasks = r.choice([1, 1, 2, 3])
    tasks = []
    for _ in range(ntasks):
        ops = []
        for _ in range(r.randint(1, 4)):
            op = {"k": r.choice(OPS), "o": r.randrange(len(roots)), "lib": r.choice(["lib", None, "a/b"]), "ver": r.random() < 0.7,
                  "a": [["lang", {"s": "en"}]] if r.random() < 0.3 else []}
            ops.append(gen.op_faults(r, op, 0.15, 0.08))
        tasks.append(ops)
    if r.random() < 0.3:
        disguise(r, [pool, roots], r.choice([0.1, 0.5]))
    return {"pool": pool, "roots": roots, "tasks": tasks, "sched": gen.schedule(r, ntasks) if ntasks > 1 else [],
            "opcode": ntasks > 1 and r.random() < 0.2}


def disguise(r, x, rate):
    """Some expanding objects are metadata nodes, strings or tags as well."""
    if isinstance(x, dict):
        if x.get("t") == "tfy" and x["k"] == "fresh" and r.random() < rate:
            x["as"] = r.choice(["meta", "str", "tag"])
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            disguise(r, y, rate)


# -------------------------------------------------------------- substitution
def subst(n, pool):
    """The specification with every expanding object replaced by its expansion."""
    t = n["t"]
    if t == "ref":
        return subst(pool[n["i"] % len(pool)], pool[: n["i"] % len(pool)]) if pool else {"t": "text", "s": "ref"}
    if t == "tfy":
        return subst(n["r"], pool)
    if "c" in n:
        return {**n, "c": [subst(c, pool) for c in n["c"]]}
    return n


def unexpanded(x):
    """(has an un-expanded object that cannot render itself, has one that can)."""
    a = b = False
    if isinstance(x, SimTfyTag):
        return a, True
    kids = x.children if isinstance(x, Tag) else x
    for c in kids:
        if isinstance(c, (Tag, TagList)):
            p, q = unexpanded(c)
            if p is None:
                return None, None
            a, b = a or p, b or q
        elif isinstance(c, (SimTfyMeta, SimTfyStr)):
            a = b = None  # (whether it is a node that is not rendered, or text, is not judged)
            return a, b
        elif hasattr(type(c), "tagify"):
            if hasattr(type(c), "_repr_html_"):
                b = True
            else:
                a = True
    return a, b


def rsnap(d):
    return (d["html"], tuple(snap(x) for x in d["dependencies"]))


def perform(op, x, n):
    k = op["k"]
    kw = {a: value(v) for a, v in op["a"]}
    if k == "render":
        return rsnap(x.render())
    if k == "wrap_render":
        return rsnap(Tag("section", x, "tail").render())
    if k == "str":
        return str(x)
    if k == "strs":
        return (str(x), repr(x), x._repr_html_())
    if k == "tagify":
        t = x.tagify()
        return (t.get_html_string(), tuple(snap(d) for d in t.get_dependencies()))
    if k == "deps_after":
        return tuple(snap(d) for d in x.tagify().get_dependencies(dedup=False))
    if k == "doc":
        return rsnap(HTMLDocument(x, **kw).render(lib_prefix=op["lib"], include_version=op["ver"]))
    if k == "doc_append":
        d = HTMLDocument(**kw)
        d.append(x)
        return rsnap(d.render(lib_prefix=op["lib"], include_version=op["ver"]))
    if k in ("doc_save", "save"):
        d = os.path.join(os.getcwd(), f"save{n}")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "index.html")
        with fs.op_active():
            (HTMLDocument(x) if k == "doc_save" else x).save_html(f, libdir=op["lib"], include_version=op["ver"])
        with open(f) as fh:
            return fh.read()
    raise AssertionError(k)


def execute(sim, plan):
    d = fs.enter_scratch()
    try:
        _execute(sim, plan)
    finally:
        fs.leave_scratch(d)
    for e in fs.G.escapes:
        sim.violate("file-system-escape", str(e))


def _execute(sim, plan):
    env = Env([])
    for s in plan["pool"]:
        env.pool.append(build(s, env))
    objs = [build(s, env) for s in plan["roots"]]
    refs = [subst(s, plan["pool"]) for s in plan["roots"]]
    counter = [0]
    base = {}

    def reference(op):
        key = json.dumps({k: v for k, v in op.items() if k not in ("int", "cbf")}, sort_keys=True)
        if key not in base:
            x = build(refs[op["o"]], Env([], share=False))
            counter[0] += 1
            o = sim.call(perform, op, x, f"b{counter[0]}")
            base[key] = ("ok", o.value) if o.ok else ("exc", type(o.exc).__name__)
        return base[key]

    def fix(op):
        return {**op, "o": op["o"] % len(objs)}

    tasks = [[fix(op) for op in ops] for ops in plan["tasks"]]
    for ops in tasks:
        for op in ops:
            if op["k"] not in ("unexpanded", "unexpanded_part", "headc"):
                reference(op)

    def parts(x, out):
        """Subtrees of x in which something is left to expand."""
        if isinstance(x, (Tag, TagList)):
            a, b = unexpanded(x)
            if a or b or a is None:
                out.append(x)
            for c in x.children if isinstance(x, Tag) else x:
                parts(c, out)
        return out

    def exec_op(t, op, faults=True):
        x = objs[op["o"]]
        k = op["k"]
        f = op if faults else None
        if k in ("unexpanded", "unexpanded_part", "headc"):
            targets = parts(x, []) if k == "unexpanded_part" else [x]
            for y in targets[:6]:
                hard, soft = unexpanded(y)
                if hard is None:
                    continue
                if k == "headc":
                    o = sim.call(lambda: ht.head_content(y), op=f)
                else:
                    o = sim.call(lambda: y.get_html_string(), op=f)
                sim.ev("unexpanded", hard, soft, o.kind)
                if o.kind == "fault":
                    continue
                if hard:
                    sim.probe("unexpanded-asked-for-markup")
                    sim.expect(
                        o.kind == "exc" and isinstance(o.exc, Exception),
                        "unexpanded-object-did-not-raise",
                        lambda: f"{k}: a tree with an un-expanded object gave {o!r}"[:600],
                    )
                else:
                    if soft:
                        sim.probe("self-rendering-unexpanded")
                    sim.expect(o.ok, "markup-refused", lambda: f"{k}: {o.exc!r}")
            return
        want = reference(op)
        counter[0] += 1
        o = sim.call(perform, op, x, f"t{counter[0]}", op=f)
        sim.ev("op", k, op["o"], o.kind, sha(repr(o.value)))
        if o.kind == "fault":
            return
        got = ("ok", o.value) if o.ok else ("exc", type(o.exc).__name__)
        sim.expect(
            got == want,
            "expansion-differs",
            lambda: f"{k} (lib={op['lib']!r}): expanding objects gave\n{got}\nsubstitution by hand gives\n{want}"
            + (f"\n{o.exc!r}" if not o.ok else ""),
        )
        if env.tfys:
            sim.probe("compared-with-substitution")

    sim.run_tasks(tasks, plan["sched"], exec_op)
    for ops in tasks:
        for op in ops:
            exec_op(None, op, faults=False)
