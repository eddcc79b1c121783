"""C11: HTMLDocument builds one head/body and hoists every dependency into head.

Long-lived documents: phases of changes to their content, each followed by
concurrent renders with different settings, compared with a document model.
"""

from __future__ import annotations

import copy
import json
import os
import posixpath
from urllib.parse import quote

import htmltools as ht
from htmltools import HTMLDependency, HTMLDocument, Tag, TagList
from packaging.version import Version

from .. import fs, gen
from ..build import Env, build, diff, sha, snap, value
from .c09 import subst


# ---------------------------------------------------------------- generation
class Gen(gen.TreeGen):
    def node(self, depth):
        r = self.r
        if r.random() < 0.12:
            return {"t": "headc", "c": [gen.simple_node(r) if r.random() < 0.5 else {"t": "tag", "n": "title", "w": True, "a": [], "c": [{"t": "text", "s": r.choice(["T1", "T2"])}]}]}
        if r.random() < 0.12:
            return {"t": "dep", "d": self.dep()}
        return super().node(depth)

    def dep(self):
        r = self.r
        d = gen.dep(r, names=["a", "b", "c", "jquery", "zlib", "A", "jQuery", "e\u0301", "\u00e9", "b-1.0"])
        for s in d["script"]:
            s["src"] = r.choice(["a.js", "b.js", "js/x.js"])
        for s in d["css"]:
            s["href"] = r.choice(["a.css", "css/b.css"])
        return d

    def pick(self, leaf):
        k = super().pick(leaf)
        return "text" if k == "dep" else k


def meta_node(r, g):
    k = r.random()
    if k < 0.6:
        return {"t": "dep", "d": g.dep()}
    if k < 0.8:
        return {"t": "headc", "c": [{"t": "tag", "n": "title", "w": True, "a": [], "c": [{"t": "text", "s": r.choice(["T1", "T2"])}]}]}
    return {"t": "meta", "p": "m"}


def beside(r, g, c):
    """The sole tag of a document, sometimes with metadata nodes around it."""
    out = [c]
    while r.random() < 0.25:
        out.insert(r.randint(0, len(out)), meta_node(r, g))
    return out


def head(r, g):
    """A <head> as users write it."""
    if r.random() < 0.3:
        return g.tag(2, "head")
    T = lambda n, a=(), c=(): {"t": "tag", "n": n, "w": r.random() < 0.9, "a": [list(x) for x in a], "c": list(c)}
    S = lambda s: {"s": s}
    kids = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.14:
            kids.append(T("meta", [("charset", S(r.choice(["utf-8", "UTF-8", "latin1", ""])))]))
        elif k < 0.2:
            kids.append(T("meta", [("http-equiv", S("Content-Type")), ("content", S("text/html; charset=utf-8"))]))
        elif k < 0.3:
            kids.append(T("meta", [("name", S(r.choice(["viewport", "description"]))), ("content", S(gen.text(r, 2)))]))
        elif k < 0.42:
            kids.append(T("title", (), [{"t": "text", "s": gen.text(r, 2)}]))
        elif k < 0.5:
            kids.append(T("script", [("type", S("application/html-dependencies"))], [{"t": "text", "s": r.choice(["", "a[1.0]", "zz[2]"])}]))
        elif k < 0.58:
            kids.append(T("script", [("src", S(r.choice(["lib/a-1.0/a.js", "a.js"])))]))
        elif k < 0.66:
            kids.append(T("link", [("href", S(r.choice(["a.css", "lib/b-1.0/a.css"]))), ("rel", S("stylesheet"))]))
        elif k < 0.72:
            kids.append(T("base", [("href", S("/x/"))]))
        elif k < 0.84:
            kids.append(meta_node(r, g))
        elif k < 0.88:
            kids.append({"t": "html", "s": r.choice(["<!-- c -->", "<title>h</title>", "<meta charset=\"utf-8\"/>", "</head>"])})
        else:
            kids.append(g.node(1))
    return T("head", [(k, v) for k, v in gen.attrs(r, 1)], kids)


def content(r, g):
    x = r.random()
    if x < 0.35:
        return g.nodes(g.depth)
    if x < 0.5:
        return beside(r, g, g.tag(2, "body"))
    if x < 0.9:
        kids = g.nodes(1)
        if r.random() < 0.75:
            kids.insert(r.randint(0, len(kids)), head(r, g))
        if r.random() < 0.75:
            kids.append(g.tag(2, "body"))
        c = {"t": "tag", "n": "html", "w": r.random() < 0.8, "a": gen.attrs(r), "c": kids}
        if r.random() < 0.2:
            c = {"t": "tfy", "k": r.choice(["fresh", "cached"]), "r": c, "s": ""}
        elif r.random() < 0.1:
            c = {"t": "list", "k": r.choice(["list", "taglist"]), "c": [c, {"t": "none"}]}
        return beside(r, g, c)
    return [g.tag(1, r.choice(["head", "div", "html"])), g.tag(1)]


def kwattrs(r):
    out = {}
    for k, v in gen.attrs(r, 3):
        if k not in ("_x",):
            out[k] = v
    return [[k, v] for k, v in out.items()]


def generate(r, tier):
    npool = r.choice([0, 0, 1, 3])
    g = Gen(r, tfy=r.choice([0, 0.5, 1]), refs=npool, dep_w=0)
    pool = [{"t": "dep", "d": g.dep()} for _ in range(npool)]
    docs = [{"c": content(r, g), "a": kwattrs(r)} for _ in range(r.choice([1, 1, 2]))]
    phases = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        changes = []
        if phases:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                x = r.random()
                if x < 0.5:
                    changes.append({"k": "append", "o": r.randrange(2), "c": g.nodes(1, 1)})
                elif x < 0.85:
                    changes.append({"k": "grow", "o": r.randrange(2), "w": r.randrange(50), "c": g.nodes(1, 1)})
                else:
                    changes.append({"k": "attr", "o": r.randrange(2), "w": r.randrange(50), "a": ["data_ch", {"s": gen.text(r, 2)}]})
        nt = r.choice([1, 1, 2, 3])
        tasks = []
        for _ in range(nt):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                op = {"k": r.choice(["render", "render", "render", "copy_render", "save"]), "o": r.randrange(2),
                      "lib": r.choice(["lib", "lib", None, "", "a/b", "/abs", "lib/"]), "ver": r.random() < 0.6}
                ops.append(gen.op_faults(r, op, 0.1, 0.1))
            tasks.append(ops)
        phases.append({"changes": changes, "tasks": tasks, "sched": gen.schedule(r, nt) if nt > 1 else [], "mode": "json" if r.random() < 0.1 else "default"})
    return {"pool": pool, "docs": docs, "phases": phases, "opcode": r.random() < 0.15}


# --------------------------------------------------------------------- model
def collect(x, out):
    if isinstance(x, Tag):
        collect(x.children, out)
    elif isinstance(x, TagList):
        for c in x:
            collect(c, out)
    elif isinstance(x, HTMLDependency):
        out.append(x)
    return out


def resolve(deps):
    best, order = {}, []
    for d in deps:
        if d.name not in best:
            best[d.name] = d
            order.append(d.name)
        elif Version(str(d.version)) > Version(str(best[d.name].version)):
            best[d.name] = d
    return [best[n] for n in order]


def base_url(d, lib, ver):
    src = d.source
    if src is None:
        return ""
    if "href" in src:
        return src["href"]
    nm = d.name + ("-" + str(d.version) if ver else "")
    return posixpath.join(lib, nm) if lib else nm


def dep_markup(d, lib, ver):
    b = base_url(d, lib, ver)
    out = []
    for m in d.meta:
        out.append(Tag("meta", dict(m)))
    for s in d.stylesheet:
        out.append(Tag("link", {k: (posixpath.join(b, quote(v)) if k == "href" else v) for k, v in s.items()}))
    for s in d.script:
        out.append(Tag("script", {k: (posixpath.join(b, quote(v)) if k == "src" else v) for k, v in s.items()}))
    if d.head is not None:
        out += list(d.head)
    return out


class Model:
    """The document described by a specification, as the statement has it.

    If metadata stands beside an only <html> or <body>, then the statement leaves open
    whether that tag is the sole content: `alone` tells what to take it for."""

    def __init__(self, spec, pool, alone=False):
        kw = {k: value(v) for k, v in spec["a"]}
        env = Env([], share=False)
        nodes = list(TagList(*[build(subst(c, pool), env) for c in spec["c"]]))
        every = TagList(*nodes)
        seen = [n for n in nodes if not isinstance(n, ht.MetadataNode)]
        self.unclear = len(seen) == 1 and len(nodes) > 1 and isinstance(seen[0], Tag) and seen[0].name in ("html", "body")
        if self.unclear and alone:
            nodes = seen
        if len(nodes) == 1 and isinstance(nodes[0], Tag) and nodes[0].name == "html":
            html = nodes[0]
            html.attrs.update(kw)
        elif len(nodes) == 1 and isinstance(nodes[0], Tag) and nodes[0].name == "body":
            html = Tag("html", Tag("head"), nodes[0], kw)
        else:
            html = Tag("html", Tag("head"), Tag("body", *nodes), kw)
        heads = [c for c in html.children if isinstance(c, Tag) and c.name == "head"]
        self.ok = len(heads) < 2  # there cannot be exactly one
        if not heads:
            html.children[0:0] = [Tag("head")]
            heads = [html.children[0]]
        self.html = html
        self.deps = resolve(collect(every, []))
        self.head = heads[0]
        self.user = list(self.head.children)

    def render(self, lib, ver):
        listing = []
        if self.deps:
            listing = [Tag("script", ";".join(f"{d.name}[{d.version}]" for d in self.deps), type="application/html-dependencies")]
        kids = [Tag("meta", charset="utf-8"), *self.user, *listing]
        for d in self.deps:
            kids += dep_markup(d, lib, ver)
        self.head.children[:] = kids
        s = "<!DOCTYPE html>\n" + self.html.get_html_string()
        self.head.children[:] = self.user
        return s, tuple(snap(d) for d in self.deps)


# ------------------------------------------------------------------- execute
def spec_tags(c, out):
    """Tags of a specification that also exist as an object of the content."""
    if c["t"] == "tag":
        out.append(c)
        for x in c["c"]:
            spec_tags(x, out)
    elif c["t"] == "list":
        for x in c["c"]:
            spec_tags(x, out)
    return out


def obj_tags(x, out):
    if isinstance(x, Tag):
        out.append(x)
        for c in x.children:
            obj_tags(c, out)
    elif isinstance(x, (TagList, list, tuple)):
        for c in x:
            obj_tags(c, out)
    return out


def execute(sim, plan):
    d = fs.enter_scratch()
    try:
        _execute(sim, plan)
    finally:
        fs.leave_scratch(d)
    for e in fs.G.escapes:
        sim.violate("file-system-escape", str(e))


def _execute(sim, plan):
    pool = plan["pool"]
    env = Env([], share=False)
    for s in pool:
        env.pool.append(build(s, env))
    specs = json.loads(json.dumps(plan["docs"]))
    docs, contents = [], []
    for sp in specs:
        c = [build(x, env) for x in sp["c"]]
        docs.append(HTMLDocument(*c, **{k: value(v) for k, v in sp["a"]}))
        contents.append(c)
    saves = [0]

    def perform(op, doc, n):
        kw = {"include_version": op["ver"]}
        if op["k"] == "render":
            return doc.render(lib_prefix=op["lib"], **kw)
        if op["k"] == "copy_render" or str(op["lib"]).startswith("/"):
            return copy.copy(doc).render(lib_prefix=op["lib"], **kw)
        d = os.path.join(os.getcwd(), f"save{n}")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "index.html")
        with fs.op_active():
            doc.save_html(f, libdir=op["lib"], **kw)
        with open(f, newline="") as fh:
            return {"html": fh.read(), "dependencies": None}

    for pi, ph in enumerate(plan["phases"]):
        for ch in ph["changes"]:
            i = ch["o"] % len(docs)
            if ch["k"] == "append":
                objs = [build(c, env) for c in ch["c"]]
                o = sim.call(lambda: docs[i].append(*objs))
                if not o.ok:
                    sim.violate("append-failed", repr(o.exc))
                    continue
                specs[i]["c"] = specs[i]["c"] + json.loads(json.dumps(ch["c"]))
                contents[i] += objs
                sim.probe("appended")
            else:
                st = [t for c in specs[i]["c"] for t in spec_tags(c, [])]
                ot = [t for c in contents[i] for t in obj_tags(c, [])]
                if not st or len(st) != len(ot):
                    continue
                w = ch["w"] % len(st)
                if ch["k"] == "grow":
                    if st[w]["n"] in ("script", "style"):
                        continue
                    objs = [build(c, env) for c in ch["c"]]
                    ot[w].append(*objs)
                    st[w]["c"] = st[w]["c"] + json.loads(json.dumps(ch["c"]))
                else:
                    nm, v = "data_changed", ch["a"][1]
                    ot[w].attrs[nm] = value(v)
                    same = [a for a in st[w]["a"] if a[0] == nm]
                    if same:
                        same[0][1] = v
                    else:
                        st[w]["a"] = st[w]["a"] + [[nm, v]]
                sim.probe("content-mutated-between-renders")
        models = [Model(s, pool) for s in specs]
        others = [Model(s, pool, alone=True) if m.unclear else None for s, m in zip(specs, models)]
        bases = {}

        def want(op):
            key = (op["o"] % len(docs), op["lib"], op["ver"])
            if key not in bases:
                h, deps = models[key[0]].render(op["lib"], op["ver"])
                hs = [h]
                if others[key[0]]:
                    hs.append(others[key[0]].render(op["lib"], op["ver"])[0])
                bases[key] = (hs, deps)
            return bases[key]

        for ops in ph["tasks"]:
            for op in ops:
                want(op)

        def exec_op(t, op, faults=True):
            i = op["o"] % len(docs)
            m = models[i]
            saves[0] += 1
            o = sim.call(perform, op, docs[i], saves[0], op=op if faults else None)
            sim.ev("render", i, op["lib"], op["ver"], o.kind, sha(o.value["html"]) if o.ok else "")
            if o.kind == "fault":
                return
            ok = m.ok and (others[i] is None or others[i].ok)
            if op["k"] == "save":
                if o.kind == "exc":
                    return  # sources may be missing on purpose; C12 decides saving
                sim.expect(
                    not ok or o.value["html"] in want(op)[0],
                    "saved-document-differs",
                    lambda: f"lib={op['lib']!r} version={op['ver']}\ngot\n{o.value['html']}\nwant\n{want(op)[0][0]}",
                )
                return
            if o.kind == "exc":
                sim.violate("render-raised", repr(o.exc))
                return
            hs, deps = want(op)
            got = tuple(snap(d) for d in o.value["dependencies"])
            if len(deps) > 1:
                sim.probe("several-dependencies")
            if m.user:
                sim.probe("user-head-content")
            if m.unclear:
                sim.probe("metadata-beside-sole-tag")
            sim.expect(
                not ok or o.value["html"] in hs,
                "document-differs",
                lambda: f"lib={op['lib']!r} version={op['ver']}\ngot\n{o.value['html']}\nwant\n{hs[0]}",
            )
            sim.expect(got == deps, "dependency-list-differs", lambda: diff(deps, got))

        ht.html_dependency_render_mode = ph["mode"]
        try:
            sim.run_tasks(ph["tasks"], ph["sched"], exec_op)
            for ops in ph["tasks"]:
                for op in ops:
                    exec_op(None, op, faults=False)
        finally:
            ht.html_dependency_render_mode = "default"
