"""C13: serialised dependencies round-trip through HTML text.

A simulated publishing pipeline.  Producer tasks serialise dependencies and render
trees in JSON mode; their texts travel over a channel that duplicates, reorders and
drops messages and mixes them with other text; consumer tasks post-process the
assembled documents with HTMLTextDocument, are interrupted and restarted, and share
the caller's dependency lists.  Everything is compared with rendering directly.
"""

from __future__ import annotations

import copy
import json
import re

import htmltools
from htmltools import HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList

from .. import gen
from ..build import Env, build, build_dep, diff, snap
from ..kernel import HarnessError, setup_failed

OPEN = '<script type="application/json" data-html-dependency="">'
CLOSE = "</script>"
HOSTILE = gen.CHUNKS + [
    "</script>", "</SCRIPT>", "</Script >", "</script\n>", "</sCrIpT/", "<script>", "<!--", "-->", "<!-- <script>", "]]>",
    "\\", "\\\\", "\\/", "<\\/script>", '"', '\\"', "\n", "\r\n", "\u2028", "\u2029", "\u00e9", "\U0001f600", "\x00", "\x7f", "@@HEAD@@",
    '<meta data-foo="">', OPEN[:20], "$1", "{}", "[", "null", "</scr", "ipt>", "&lt;/script&gt;", "\\u003c/script>", "</ſcript>", "</script\x0b",
]
# Not the empty string: "the first occurrence" of nothing is no promise anyone relies on.
PLACEHOLDERS = ["@@HEAD@@", '<meta data-foo="">', "$1", "\\g<0>", "(.*)", "<!-- HEAD -->", "{{ head }}", "%s", "\n\n\n", "x", "[", "\\", "</head>"]
PLAIN_TEXT = [
    "<html><head>", "</head><body>", "</body></html>", "<p>text</p>", "\n", "\r\n", " ", "a < b & c", "<script>var x = 1;</script>",
    '<script type="application/json">{"a": 1}</script>', '<script type="application/json" data-html-dependency="x">{}</script>',
    "</script>", "<!-- c -->", "\\1", "\\g<0>", "$&", "\u00e9\u65e5", "@@HEAD", "HEAD@@", "<meta data-foo=''>", "\x00", "x", "",
    '<script data-html-dependency="" type="application/json">{}</script>', "%s", "{{ head }}", "(.*)", "\t",
]


def hostile(r):
    k = r.random()
    if k < 0.15:
        return r.choice(gen.WORDS)
    if k < 0.155:
        return (r.choice(HOSTILE) + r.choice(HOSTILE + gen.WORDS)) * gen.count(r, [20], p=0.8, big=(50, 200, 600, 1100)) + r.choice(HOSTILE)
    return "".join(r.choice(HOSTILE) for _ in range(r.randint(1, 4)))


def gen_dep(r, names):
    s = lambda: hostile(r)
    d = {"name": r.choice(names) if r.random() < 0.8 else s(), "ver": r.choice(gen.VERSIONS + ["1.0+local.1", "2!1.0", "1.0.dev3"])}
    x = r.random()
    if x < 0.35:
        d["src"] = {"subdir": s().replace("\x00", "")}
    elif x < 0.5:
        d["src"] = {"package": "htmltools", "subdir": "lib/" + r.choice(gen.WORDS)}
    elif x < 0.6:
        d["src"] = {"package": None, "subdir": s().replace("\x00", "")}
    elif x < 0.85:
        d["src"] = {"href": r.choice(["https://e.com", "https://e.com/x/", s()])}
    else:
        d["src"] = None
    extra = lambda ks: {r.choice(ks): s()} if r.random() < 0.35 else {}
    d["script"] = [{"src": s(), **extra(["async", "defer", "type", "integrity", "data-x", "crossorigin"])} for _ in range(gen.count(r, [0, 0, 1, 1, 2], most=25))]
    d["css"] = [{"href": s(), **extra(["media", "title", "rel", "data-y"])} for _ in range(gen.count(r, [0, 0, 1, 2], most=25))]
    d["meta"] = [{"name": s(), "content": s(), **extra(["charset", "http-equiv"])} for _ in range(r.choice([0, 0, 1, 2]))]
    d["all"] = r.random() < 0.3
    d["single"] = r.random() < 0.4
    d["head"] = None
    x = r.random()
    if x < 0.3:
        d["head"] = {"s": s()}
    elif x < 0.5:
        d["head"] = {"c": [head_node(r) for _ in range(r.choice([0, 1, 1, 2, 2, 5]))]}
    return d


def head_node(r):
    x = r.random()
    if x < 0.25:
        return {"t": "text", "s": hostile(r)}
    if x < 0.5:
        return {"t": "html", "s": hostile(r)}
    return {
        "t": "tag",
        "n": r.choice(["title", "meta", "link", "script", "style", "b", "div"]),
        "w": r.random() < 0.5,
        "a": [[r.choice(["id", "name", "data_x"]), {"s": hostile(r)}]] if r.random() < 0.5 else [],
        "c": [{"t": r.choice(["text", "html"]), "s": hostile(r)} for _ in range(r.choice([0, 1, 2]))],
    }


def gen_parts(r, nd, nt):
    """The text of one document as it arrives over the channel."""
    msgs = []
    for _ in range(gen.count(r, [0, 1, 2, 3, 5, 8], most=65)):
        x = r.random()
        if x < 0.6:
            msgs.append({"dep": r.randrange(nd), "indent": r.choice([None, None, 0, 1, 2, 4])})
        elif nt:
            msgs.append({"tree": r.randrange(nt)})
    net = []
    for m in msgs:
        x = r.random()
        if x < 0.12:
            continue  # lost
        net.append(m)
        while r.random() < 0.2:
            net.append(dict(m))  # delivered again
    if r.random() < 0.4:
        r.shuffle(net)
    parts = []
    for m in net:
        for _ in range(r.choice([0, 0, 1, 2])):
            parts.append({"text": r.choice(PLAIN_TEXT)})
        parts.append(m)
    for _ in range(r.choice([0, 1, 2])):
        parts.append({"text": r.choice(PLAIN_TEXT)})
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        parts.insert(r.randint(0, len(parts)), {"ph": 1})
    return parts


def generate(r, tier):
    names = r.sample(["a", "b", "c", "dep-d", "x.y", "jquery", "\u00e9"], r.choice([1, 3, 7]))
    nd = r.choice([1, 2, 3, 5])
    deps = [gen_dep(r, names) for _ in range(nd)]
    ntree = r.choice([0, 0, 1, 2])
    trees = []
    for _ in range(ntree):
        g = gen.TreeGen(r, tfy=0.4, dep_w=1.5, reprs=0.5, html=1, refs=nd, lists=0.4, both=0, cached=0, dep_head=True, hostile=True)
        trees.append({"c": [g.node(g.depth) for _ in range(r.choice([1, 2, 3]))], "as": r.choice(["tag", "list", "div"])})
    ndoc = r.choice([1, 1, 2, 3])
    docs = [
        {
            "parts": gen_parts(r, nd, ntree),
            "ph": r.choice(PLACEHOLDERS),
            "deps": r.choice([None, None, 0, 0, 1]),
        }
        for _ in range(ndoc)
    ]
    nt = r.choice([1, 1, 2, 3])
    ops = lambda: [
        gen.op_faults(
            r,
            {
                "k": r.choice(["doc", "doc", "doc", "serial", "again", "again", "mutate"]),
                "d": r.randrange(ndoc),
                "i": r.randrange(nd),
                "indent": r.choice([None, None, 0, 2, 7]),
                "lib": r.choice(["lib", "lib", None, "", "a/b", "x y"]),
                "ver": r.random() < 0.6,
                "default": r.random() < 0.2,
            },
            0.05,
            0.2,
            scale=r.choice([5, 30, 100, 400]),
        )
        for _ in range(r.choice([1, 2, 4, 6]))
    ]
    return {
        "deps": deps,
        "trees": trees,
        "docs": docs,
        "lists": [[r.randrange(nd) for _ in range(r.choice([0, 1, 2]))] for _ in range(2)],
        "produce": [[gen.op_faults(r, {"tree": r.randrange(ntree)}, 0.1, 0.15) for _ in range(r.choice([1, 2]))] if ntree else [] for _ in range(nt)],
        "psched": gen.schedule(r, nt) if nt > 1 else [],
        "tasks": [ops() for _ in range(nt)],
        "sched": gen.schedule(r, nt) if nt > 1 else [],
        "opcode": nt > 1 and r.random() < 0.15,
    }


# --------------------------------------------------------------------- model
def scan(text):
    """[(kind, piece)]: kind 'text' or 'dep' (inner text), by a plain scanner."""
    out = []
    pos = 0
    while True:
        i = text.find(OPEN, pos)
        j = text.find(CLOSE, i) if i >= 0 else -1
        if i < 0 or j < 0:
            out.append(("text", text[pos:]))
            return out
        out.append(("text", text[pos:i]))
        out.append(("dep", text[i + len(OPEN) : j]))
        pos = j + len(CLOSE)


def head_markup(d):
    """No head and an empty head are the same markup."""
    return None if d.head is None else TagList(d.head).get_html_string() or None


def fields(d):
    return {
        "name": d.name,
        "version": str(d.version),
        "source": copy.deepcopy(d.source),
        "script": copy.deepcopy(d.script),
        "stylesheet": copy.deepcopy(d.stylesheet),
        "meta": copy.deepcopy(d.meta),
        "all_files": d.all_files,
        "head": head_markup(d),
    }


def lines(s):
    return [x.strip() for x in s.replace("\r\n", "\n").split("\n") if x.strip()]


def squeeze(ls):
    return re.sub(r"\s+", "", "".join(ls))


def execute(sim, plan):
    env = Env()
    o = sim.call(lambda: [build_dep(d, env) for d in plan["deps"]])
    if not o.ok:
        setup_failed(sim, o)
    deps = o.value
    env.pool.extend(deps)
    want_fields = [fields(d) for d in deps]
    deps_before = [snap(d) for d in deps]
    lists = [[deps[i % len(deps)] for i in x] for x in plan["lists"]]
    lists_before = [list(x) for x in lists]

    def make_tree(s):
        c = [build(x, env) for x in s["c"]]
        return TagList(*c) if s["as"] == "list" else Tag("div" if s["as"] == "div" else "span", *c, _add_ws=s["as"] == "div")

    trees = []
    direct = []  # (html, dependency fields) rendered without JSON mode
    for s in plan["trees"]:
        o = sim.call(lambda: make_tree(s))
        if not o.ok:
            setup_failed(sim, o)
        trees.append(o.value)
        o = sim.call(lambda: make_tree(s).render())
        if not o.ok:
            setup_failed(sim, o)
        direct.append((o.value["html"], [fields(d) for d in o.value["dependencies"]], o.value["dependencies"]))

    # ---- producers: JSON mode ---------------------------------------------
    sent = {}

    def judge_json(i, text, where):
        html, fs_, _ = direct[i]
        if not sim.expect(text.startswith(html), "json-mode-html-differs", lambda: f"{where}: {text[:400]!r}, expected it to start with {html[:400]!r}"):
            return
        pieces = scan(text[len(html) :])
        rest = "".join(p for k, p in pieces if k == "text")
        sim.expect(rest.strip() == "", "json-mode-extra-text", lambda: f"{where}: {rest!r}")
        found = [p for k, p in pieces if k == "dep"]
        got = []
        for p in found:
            try:
                got.append(json.loads(p))
            except ValueError as e:
                sim.violate("serialisation-is-not-json", f"{where}: {e}: {p[:300]!r}")
                return
        sim.expect([g.get("name") for g in got] == [f["name"] for f in fs_], "json-mode-dependencies-differ", lambda: f"{where}: {[g.get('name') for g in got]}, expected {[f['name'] for f in fs_]}")
        sim.probe("json-mode-rendering")
        if got:
            sim.probe("json-mode-with-dependencies")

    def produce(t, op):
        i = op["tree"] % len(trees)
        o = sim.call(lambda: str(trees[i]), op=op)
        sim.ev("produce", i, o.kind)
        if o.kind == "fault":
            o = sim.call(lambda: str(trees[i]))
        if not o.ok:
            sim.violate("rendering-raised", f"JSON mode: {o.exc!r}")
            return
        judge_json(i, o.value, "str() in JSON mode")
        sent[i] = o.value
        # documents never contain serialised dependencies
        o = sim.call(lambda: (HTMLDocument(trees[i]).render()["html"]))
        if o.ok and i not in docs_direct:
            docs_direct[i] = o.value

    docs_direct = {}
    base_docs = {}
    for i, tr in enumerate(trees):
        o = sim.call(lambda: HTMLDocument(make_tree(plan["trees"][i])).render()["html"])
        if o.ok:
            base_docs[i] = o.value
    htmltools.html_dependency_render_mode = "json"
    try:
        sim.run_tasks(plan["produce"], plan["psched"], produce)
        for i, tr in enumerate(trees):
            if i not in sent:
                o = sim.call(lambda: str(tr))
                if not o.ok:
                    sim.violate("rendering-raised", f"JSON mode: {o.exc!r}")
                    return
                judge_json(i, o.value, "str() in JSON mode")
                sent[i] = o.value
    finally:
        htmltools.html_dependency_render_mode = "invisible"
    for i, x in docs_direct.items():
        sim.expect(x == base_docs.get(i, x), "document-differs-in-json-mode", f"tree {i}")

    # ---- serialisation -----------------------------------------------------
    cache = {}

    def serial(i, indent, op=None):
        o = sim.call(lambda: deps[i].serialize_to_script_json(**({} if indent is None else {"indent": indent})).get_html_string(), op=op)
        if o.kind == "fault":
            o = sim.call(lambda: deps[i].serialize_to_script_json(indent=indent).get_html_string())
        if not o.ok:
            sim.violate("serialisation-raised", f"{o.exc!r}")
            return None
        s = o.value
        where = f"serialize_to_script_json(indent={indent})"
        if not sim.expect(s.startswith(OPEN) and s.endswith(CLOSE), "serialised-element-differs", lambda: f"{where}: {s[:300]!r}"):
            return None
        inner = s[len(OPEN) : -len(CLOSE)]
        bad = re.search("</script", inner, re.I)
        sim.expect(not bad, "end-tag-inside-serialisation", lambda: f"{where}: {inner[max(0, bad.start() - 40) : bad.end() + 40]!r}")
        try:
            got = json.loads(inner)
        except ValueError as e:
            sim.violate("serialisation-is-not-json", f"{where}: {e}")
            return None
        w = want_fields[i]
        got["head"] = got.get("head") or None
        sim.expect(all(got.get(k) == w[k] for k in w), "serialisation-differs", lambda: f"{where}: {[(k, got.get(k), w[k]) for k in w if got.get(k) != w[k]]!r}"[:1200])
        if (i, indent) in cache:
            sim.expect(cache[i, indent] == s, "serialisation-changes", where)
        cache[i, indent] = s
        sim.probe("serialised")
        return s

    # ---- documents ---------------------------------------------------------
    def assemble(doc):
        """-> (text, expected remaining text pieces, [expected inner text -> fields])"""
        text, pieces, found = "", [], []
        for p in doc["parts"]:
            if "text" in p:
                text += p["text"]
                pieces.append(p["text"])
            elif "ph" in p:
                text += doc["ph"]
                pieces.append(doc["ph"])
            elif "dep" in p:
                i = p["dep"] % len(deps)
                s = serial(i, p["indent"])
                if s is None:
                    return None
                text += s
                pieces.append(None)
                found.append((s, want_fields[i], plan["deps"][i]))
            elif trees:
                i = p["tree"] % len(trees)
                s = sent[i]
                text += s
                html, fs_, _ = direct[i]
                if not s.startswith(html):
                    return None
                pieces.append(html)
                n = 0
                for k, q in scan(s[len(html) :]):
                    if k == "text":
                        pieces.append(q)
                    else:
                        pieces.append(None)
                        if n < len(fs_):
                            found.append((OPEN + q + CLOSE, fs_[n], None))
                        n += 1
        # text pieces that happen to form a serialised element are not judged
        if [p for k, p in scan(text) if k == "dep"] != [f[0][len(OPEN) : -len(CLOSE)] for f in found]:
            return None
        uniq = []
        seen = set()
        for s, w, spec in found:
            if s not in seen:
                seen.add(s)
                uniq.append((w, spec))
        return text, pieces, uniq, len(found)

    def one_head(dep, lib, ver):
        """What HTMLDocument puts in <head> for one dependency, without the listing."""
        h = HTMLDocument(Tag("html", Tag("head"), Tag("body", dep))).render(lib_prefix=lib, include_version=ver)["html"]
        h = h[h.index("<head>") + 6 : h.rindex("</head>")]
        li = f'<script type="application/html-dependencies">{dep.name}[{dep.version}]</script>'
        i = h.find(li)
        return None if i < 0 else lines(h[i + len(li) :])

    def all_head(ds, lib, ver):
        h = HTMLDocument(Tag("html", Tag("head"), Tag("body", *ds))).render(lib_prefix=lib, include_version=ver)["html"]
        h = h[h.index("<head>") + 6 : h.rindex("</head>")]
        return lines(h[h.index("/>") + 2 :])

    def rebuilt(w):
        return HTMLDependency(
            w["name"], w["version"], source=copy.deepcopy(w["source"]), script=copy.deepcopy(w["script"]),
            stylesheet=copy.deepcopy(w["stylesheet"]), meta=copy.deepcopy(w["meta"]), all_files=w["all_files"], head=w["head"],
        )

    def check_render(doc, o, asm, own, lib, ver, where):
        text, pieces, uniq, nfound = asm
        got = o.value
        gd = got["dependencies"]
        want = [fields(d) for d in own] + [w for w, _ in uniq]
        have = [fields(d) for d in gd]
        if not sim.expect(
            len(have) == len(want) and all(h == w for h, w in zip(have, want)),
            "recovered-dependencies-differ",
            lambda: f"{where}: {[h['name'] for h in have]} for {[w['name'] for w in want]}; "
            + str([(k, h[k], w[k]) for h, w in zip(have, want) for k in w if h[k] != w[k]][:3])[:1200],
        ):
            return
        if nfound > len(uniq):
            sim.probe("duplicates-in-text")
        if uniq:
            sim.probe("recovered")
        for d, (_, spec) in zip(gd[len(own) :], uniq):
            if spec is not None and (spec["head"] is None or spec["head"].get("s")):
                o2 = sim.call(lambda: build_dep(spec, env))
                if o2.ok:
                    sim.expect(d == o2.value and o2.value == d, "recovered-dependency-not-equal", lambda: f"{where}: {d.name!r}")
        # the text
        stripped = "".join(p for p in pieces if p is not None)
        ph = doc["ph"]
        i = stripped.find(ph)
        raw = "\0".join(p if p is not None else "\1" for p in pieces)
        html = got["html"]
        if i < 0:
            sim.expect(html == stripped, "text-differs", lambda: f"{where}, no placeholder: {html[:500]!r}, expected {stripped[:500]!r}")
            sim.probe("no-placeholder")
            return
        # a placeholder that only appears because elements were removed is not judged
        j, n = 0, 0
        for p in pieces:
            if p is None:
                if n > i and n < i + len(ph):
                    return
                continue
            n += len(p)
        del raw, j
        tail = stripped[i + len(ph) :]
        if not sim.expect(html.startswith(stripped[:i]) and html.endswith(tail) and len(html) >= i + len(tail), "text-differs", lambda: f"{where}: {html[:600]!r}, expected {stripped[:i]!r} ... {tail!r}"[:1500]):
            return
        ins = html[i : len(html) - len(tail)]
        if stripped.count(ph) > 1:
            sim.probe("several-placeholders")
        o2 = sim.call(lambda: [one_head(d if w is None else rebuilt(w), lib, ver) for d, w in [(d, None) for d in own] + [(None, w) for w, _ in uniq]])
        if not o2.ok:
            sim.violate("rendering-raised", f"HTMLDocument with the dependency: {o2.exc!r}")
            return
        if None in o2.value:
            return
        listing = []
        if want:
            listing = lines('<script type="application/html-dependencies">' + ";".join(f"{w['name']}[{w['version']}]" for w in want) + "</script>")
        exp = listing + [x for h in o2.value for x in h]
        # adjacent pieces may or may not be on lines of their own
        sim.expect(squeeze(lines(ins)) == squeeze(exp), "inserted-markup-differs", lambda: f"{where}: {lines(ins)!r}, expected {exp!r}"[:1800])
        sim.probe("placeholder-replaced")
        nm = [w["name"] for w in want]
        if want and len(set(nm)) == len(nm):
            o3 = sim.call(lambda: all_head([*own, *[rebuilt(w) for w, _ in uniq]], lib, ver))
            if o3.ok:
                sim.expect(lines(ins) == o3.value, "differs-from-direct-rendering", lambda: f"{where}: {lines(ins)!r}, HTMLDocument: {o3.value!r}"[:1800])
                sim.probe("compared-with-document")

    def exec_op(t, op):
        k = op["k"]
        if k == "serial":
            serial(op["i"] % len(deps), op["indent"], op)
            sim.ev("serial")
            return
        made = t.local.setdefault("made", {})
        i = op["d"] % len(plan["docs"])
        doc = plan["docs"][i]
        lib, ver = ("lib", True) if op["default"] else (op["lib"], op["ver"])
        kw = {} if op["default"] else {"lib_prefix": lib, "include_version": ver}
        if k == "mutate":
            # the caller changes what it got back
            r = t.local.get("last")
            if r:
                for d in r["dependencies"]:
                    d.script.append({"src": "evil.js"})
                    d.meta.clear()
                    d.name = "evil"
                    if d.head is not None:
                        d.head.append("evil")
                r["dependencies"].clear()
                sim.probe("returned-value-mutated")
            return
        if k == "again" and i in made:
            o = sim.call(lambda: made[i][0].render(**kw), op=op)
            where = "second render()"
        else:
            asm = assemble(doc)
            if asm is None:
                sim.ev("not-judged")
                return
            own = [] if doc["deps"] is None else lists_before[doc["deps"]]
            arg = None if doc["deps"] is None else lists[doc["deps"]]

            def fn():
                x = HTMLTextDocument(asm[0], deps_replace_pattern=doc["ph"]) if arg is None else HTMLTextDocument(asm[0], arg, doc["ph"])
                made[i] = (x, asm, own)
                return x.render(**kw)

            o = sim.call(fn, op=op)
            where = "render()"
        sim.ev(k, i, o.kind)
        if o.kind == "fault" and i in made:
            # restart
            sim.probe("restarted-after-a-failure")
            o = sim.call(lambda: made[i][0].render(**kw))
        if o.kind == "fault":
            return
        if o.kind == "exc":
            sim.violate("rendering-raised", f"{where}: {o.exc!r}; text {plan['docs'][i]['parts']!r}"[:1200])
            return
        x, asm, own = made[i]
        check_render(doc, o, asm, own, lib, ver, where + f" of document {i}")
        t.local["last"] = o.value
        sim.probe("documents-rendered")

    sim.run_tasks(plan["tasks"], plan["sched"], exec_op)
    for a, b in zip(deps_before, deps):
        s = snap(b)
        sim.expect(a == s, "dependency-changed", lambda: diff(a, s))
    for a, b in zip(lists_before, lists):
        sim.expect(len(a) == len(b) and all(x is y for x, y in zip(a, b)), "caller-list-changed", lambda: f"{[d.name for d in a]} -> {[d.name for d in b]}")
