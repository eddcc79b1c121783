"""C04: trusted markup is verbatim, everything else is escaped exactly once.

Histories of concatenation over shared fragments (+, +=, reflected +, any grouping,
aliases, operands whose str() yields or fails), placed into trees in every position
and rendered on every path, concurrently.  Every piece of text carries a unique
marker at both ends, so the oracle does not depend on layout: each piece has to
occur between its markers verbatim (trusted) or escaped once (plain), in document
order, as often as it was placed.
"""

from __future__ import annotations

import copy as _copy
import os
import pickle
import re

import htmltools as ht
from htmltools import HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, wrap_displayhook_handler

from .. import fs, gen
from ..build import foreign
from ..kernel import HarnessError, setup_failed

TABLE = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}


def esc(s):
    return "".join(TABLE.get(c, c) for c in s)


# ---------------------------------------------------------------- generation
class G:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def body(self, raw):
        return gen.markup(self.r) if raw else gen.text(self.r, 4)

    def leaf(self, kinds=("s", "h"), bare=0.15):
        """An operand, mostly marked; k: s plain, h HTML, n number-like with its own str()."""
        k = self.r.choice(kinds)
        self.n += 1
        if self.r.random() < bare:
            return {"k": k, "x": bare_body(self.r, k), "i": self.n}
        return {"k": k, "x": f"@{k}{self.n}({self.body(k == 'h')}){k}{self.n}@"}


EDGES = ["", " ", "  ", "\n", "\t", "\r\n", "    ", "\n\n  ", "\u00a0", "\ufeff", "\x00", "\x0c"]


def bare_body(r, k):
    """Text without markers: the library sees its true start, end and size."""
    s = gen.markup(r) if k in ("h", "hh", "repr") else gen.text(r, 4)
    if r.random() < 0.3:
        s = r.choice(EDGES) + s
    if r.random() < 0.3:
        s = s + r.choice(EDGES)
    if r.random() < 0.1:
        s = s * 2
    return s


def gen_twin(g):
    """A tree of unmarked pieces, to be rendered beside its twin of plain words."""
    r = g.r

    def bare(n):
        if "l" in n:
            n["l"]["x"] = bare_body(r, n["l"]["k"])
            n["l"].setdefault("i", 0)
            g.n += 1
            n["l"]["i"] = g.n
            if n["t"] == "dep":
                n["id"] = g.n
        for a in n.get("a", ()):
            g.n += 1
            a["l"].update(x=bare_body(r, "h"), i=g.n)
        for c in list(n.get("c", ())) + (n["r"] if n["t"] == "tfy" else []):
            bare(c)
        return n

    return [bare(gen_node(g, r.choice([1, 2, 3]), 0, r.random() < 0.3)) for _ in range(r.choice([1, 1, 2, 3]))]


def gen_src(g, npool, nacc):
    r = g.r
    x = r.random()
    if x < 0.4 and nacc:
        return {"acc": r.randrange(nacc)}
    if x < 0.65 and npool:
        return {"pool": r.randrange(npool)}
    return {"leaf": g.leaf(("s", "s", "h", "h", "n", "ss", "hh"))}


def gen_nodes(g, depth, npool, tfy, usual):
    n = gen.count(g.r, usual, most=100)
    return [gen_node(g, depth if n < 9 or g.r.random() < 0.1 else 0, npool, tfy) for _ in range(n)]


def gen_node(g, depth, npool, tfy):
    r = g.r
    x = r.random()
    if depth > 0 and x < 0.4:
        return {
            "t": "tag",
            "n": r.choice(["div", "span", "p", "b", "pre", "textarea", "my-el", "br"]),
            "w": r.random() < 0.5,
            "a": gen_attrs(g),
            "c": gen_nodes(g, depth - 1, npool, tfy, [0, 1, 1, 2, 3, 4]),
        }
    if x < 0.5:
        return {
            "t": "tag",
            "n": r.choice(["script", "style"]),
            "w": r.random() < 0.8,
            "a": gen_attrs(g),
            "c": [gen_script(g, npool, tfy, 2) for _ in range(gen.count(r, [1, 1, 2, 3], most=40))],
        }
    if x < 0.58 and depth > 0:
        return {"t": "list", "k": r.choice(["list", "tuple", "taglist"]), "c": gen_nodes(g, depth - 1, npool, tfy, [1, 2, 3])}
    if x < 0.66 and depth > 0 and tfy:
        return {"t": "tfy", "r": gen_nodes(g, depth - 1, npool, tfy, [0, 1, 1, 2])}
    if x < 0.7:
        return {"t": "none"}
    if x < 0.78 and npool:
        return {"t": "pool", "i": r.randrange(npool)}
    if x < 0.79:
        return {"t": "meta"}
    if x < 0.82:
        return {"t": "dep", "l": g.leaf(("s",)), "id": g.n, "as": r.choice(["str", "html", "tags"])}
    return {"t": "leaf", "l": g.leaf(("s", "s", "h", "h", "n", "repr", "ss", "hh"))}


def gen_script(g, npool, tfy, depth):
    """A child of <script>/<style>: text, and what leaves no element there."""
    r = g.r
    x = r.random()
    if depth and x < 0.15:
        return {"t": "list", "k": r.choice(["list", "tuple", "taglist"]), "c": [gen_script(g, npool, tfy, depth - 1) for _ in range(r.choice([0, 1, 1, 2]))]}
    if depth and tfy and x < 0.25:
        return {"t": "tfy", "r": [gen_script(g, npool, tfy, depth - 1) for _ in range(r.choice([0, 1, 1, 2]))]}
    if x < 0.3:
        return {"t": "none"}
    if x < 0.37:
        return {"t": "dep", "l": g.leaf(("s",)), "id": g.n, "as": r.choice(["str", "html", "tags"])}
    if x < 0.4:
        return {"t": "meta"}
    if x < 0.45 and npool:
        return {"t": "pool", "i": r.randrange(npool)}
    return {"t": "leaf", "l": g.leaf(("s", "s", "h", "n", "repr"))}


def gen_attrs(g):
    r = g.r
    out = []
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        out.append({"n": r.choice(["title", "class", "style", "data_x", "on_click"]), "l": g.leaf(("h", "h", "hh"))})
    return out


PATHS = ["str", "render", "html", "indent", "repr", "document", "docrender", "save", "text", "list", "copy", "html_args", "nested"]


def gen_op(g, npool, nacc):
    r = g.r
    k = r.choice(["cat", "cat", "cat", "cat", "cmp", "cmp", "put", "put", "render", "render", "shared", "shared", "reb", "attr", "twin", "twin"])
    op = {"k": k}
    if k == "cat":
        op.update(dst=r.randrange(nacc), l=gen_src(g, npool, nacc), r=gen_src(g, npool, nacc), how=r.choice(["add", "add", "iadd", "radd"]))
    elif k == "cmp":
        op.update(acc=r.randrange(nacc), w=r.random() < 0.3)
    elif k == "put":
        op.update(src=gen_src(g, npool, nacc), how=r.choice(["append", "insert", "extend", "iadd", "display", "new", "nest", "sum"]), at=r.randrange(4))
    elif k in ("render", "shared"):
        op.update(path=r.choice(PATHS))
    elif k == "twin":
        op.update(path=r.choice(PATHS), c=gen_twin(g), w=r.random() < 0.5, n=r.choice(["div", "div", "span", "p"]))
    elif k == "reb":
        op.update(acc=r.randrange(nacc), how=r.choice(["copy", "deepcopy", "pickle", "slice", "mul", "HTML", "zero"]), by=gen.count(r, [2], p=0.3))
    elif k == "attr":
        op.update(src=gen_src(g, npool, nacc), how=r.choice(["set", "update", "add_class", "add_style", "kw", "doc", "dochtml", "docsame", "consolidate", "copied"]), n=r.choice(["title", "class", "style"]))
    return gen.op_faults(r, op, 0.12, 0.1)


def generate(r, tier):
    g = G(r)
    npool = r.choice([0, 2, 4])
    pool = [g.leaf(("s", "h", "h", "n", "hh")) for _ in range(npool)]
    nacc = r.choice([1, 2, 3])
    tfy = r.random() < 0.4
    depth = r.choice([1, 2, 3, 4])
    shared = [gen_node(g, depth, npool, tfy) for _ in range(r.choice([1, 2, 3]))]
    nt = r.choice([1, 1, 2, 3])
    return {
        "pool": pool,
        "nacc": nacc,
        "shared": shared,
        "own": [[gen_node(g, 2, npool, tfy) for _ in range(r.choice([0, 1, 2]))] for _ in range(nt)],
        "tasks": [[gen_op(g, npool, nacc) for _ in range(r.choice([3, 6, 10, 16]))] for _ in range(nt)],
        "sched": gen.schedule(r, nt) if nt > 1 else [],
        "opcode": nt > 1 and r.random() < 0.2,
    }


# ------------------------------------------------------------------- objects
class Num(int):
    """A number with its own text (valid as a child and as an operand)."""

    def __new__(cls, s):
        x = super().__new__(cls, 7)
        x.s = s
        return x

    def __add__(self, other):
        return NotImplemented

    __radd__ = __add__

    def __str__(self):
        foreign("str")
        return self.s


class StrSub(str):
    pass


class HtmlSub(HTML):
    pass


class Repr:
    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        foreign("repr_html")
        return self.s


class Tfy:
    def __init__(self, make):
        self.make = make

    def tagify(self):
        foreign("tagify")
        x = TagList(*self.make()).tagify()
        foreign("tagify-end")
        return x


class V:
    """A value with its model: the operands it was built from."""

    __slots__ = ("obj", "html", "text", "parts")

    def __init__(self, obj, html, text, parts):
        self.obj = obj  # the real str / HTML / number
        self.html = html  # is it trusted markup?
        self.text = text  # raw text if plain, markup if trusted
        self.parts = parts  # operands, as objects that can be children

    def out(self):
        return self.text if self.html else esc(self.text)


def mk(leaf, twin=None, raw=False):
    k, x = leaf["k"], leaf["x"]
    if twin is not None:
        raw = raw or k in ("h", "hh", "repr")
        word = f"Zq{len(twin)}qZ"
        twin.append((word, x if raw else esc(x), x, "body"))
        x = word
    if k == "s":
        o = x
    elif k == "ss":
        o = StrSub(x)
    elif k == "h":
        o = HTML(x)
    elif k == "hh":
        o = HtmlSub(x)
    elif k == "n":
        o = Num(x)
    elif k == "repr":
        o = Repr(x)
    else:
        raise HarnessError(k)
    return V(o, k in ("h", "hh", "repr"), x, [o])


MARK = re.compile(r"@[a-z]+\d+\(|\)[a-z]+\d+@")


def execute(sim, plan):
    pool = [mk(x) for x in plan["pool"]]
    pool_before = [(type(v.obj), str.__str__(v.obj) if isinstance(v.obj, str) else v.obj.data if isinstance(v.obj, HTML) else v.obj.s) for v in pool]

    # building returns (object, [(place, expected text)...])
    def build(n, twin=None, raw=False):
        """raw: directly inside <script>/<style>, where text is verbatim."""
        t = n["t"]
        if t == "leaf":
            v = mk(n["l"], twin, raw)
            return v.obj, [("body", v.text if raw else v.out())]
        if t == "pool":
            v = pool[n["i"] % len(pool)] if pool else mk({"k": "s", "x": "@s0(x)s0@"})
            return v.obj, [("body", v.text if raw else v.out())]
        if t == "none":
            return None, []
        if t == "meta":
            return ht.MetadataNode(), []
        if t == "dep":
            x = n["l"]["x"]
            if twin is not None:
                word = f"Zq{len(twin)}qZ"
                twin.append((word, esc(x) if n["as"] == "tags" else x, x, "head"))
                x = word
            if n["as"] == "str":
                head, out = x, x
            elif n["as"] == "html":
                head, out = HTML(x), x
            else:
                head, out = Tag("title", x), esc(x)
            return HTMLDependency(f"d{n['id']}", "1.0", head=head), [("head", out)]
        if t == "list":
            objs, chunks = build_all(n["c"], twin, raw)
            o = objs if n["k"] == "list" else tuple(objs) if n["k"] == "tuple" else TagList(*objs)
            return o, chunks
        if t == "tfy":
            if twin is not None:
                # the same words each time it is expanded
                made = build_all(n["r"], twin, raw)[0]
                return Tfy(lambda: made), []
            _, chunks = build_all(n["r"], None, raw)
            return Tfy(lambda: build_all(n["r"])[0]), chunks
        if t == "tag":
            objs, chunks = build_all(n["c"], twin, n["n"] in ("script", "style"))
            ats = [({a["n"]: mk(a["l"], twin).obj}, a) for a in n["a"]]
            tag = Tag(n["n"], *[d for d, _ in ats], *objs, _add_ws=n["w"])
            order = {}
            for a in n["a"]:
                order.setdefault(a["n"].replace("_", "-"), []).append(a["l"]["x"])
            return tag, [("body", x) for xs in order.values() for x in xs] + chunks
        raise HarnessError(t)

    def build_all(ns, twin=None, raw=False):
        objs, chunks = [], []
        for n in ns:
            o, ch = build(n, twin, raw)
            objs.append(o)
            chunks += ch
        return objs, chunks

    class Tree:
        def __init__(self, objs, chunks, root=None):
            self.objs = objs  # children of the root
            self.chunks = chunks
            self.root = root if root is not None else Tag("div", *objs)

    o = sim.call(lambda: build_all(plan["shared"]))
    if not o.ok:
        setup_failed(sim, o)
    shared = Tree(*o.value)

    def verify(out, chunks, where, places=("body",)):
        """Every piece verbatim / escaped once, in order, and no other marker."""
        want = [x for p in places for q, x in chunks if q == p]
        pos = 0
        for x in want:
            i = out.find(x, pos)
            if i < 0:
                m = MARK.search(x)
                around = ""
                if m:
                    j = out.find(m.group(0), pos)
                    if j < 0:
                        j = out.find(m.group(0))
                    around = out[max(0, j) : j + len(x) + 40] if j >= 0 else "(marker not in the output)"
                sim.violate("not-verbatim-or-not-escaped-once", f"{where}: expected {x!r}, found {around!r}"[:1500])
                return False
            pos = i + len(x)
        have = sorted(MARK.findall(out))
        need = sorted(m for x in want for m in MARK.findall(x))
        return sim.expect(have == need, "piece-count-differs", lambda: f"{where}: {have} instead of {need}"[:1500])

    def path_fn(t, root, path):
        places = ("body",)
        if path == "str":
            fn = lambda: str(root)
        elif path == "render":
            fn = lambda: root.render()["html"]
        elif path == "html":
            fn = lambda: root.tagify().get_html_string()
        elif path == "indent":
            fn = lambda: root.tagify().get_html_string(3, "\r\n")
        elif path == "repr":
            fn = lambda: root._repr_html_()
        elif path == "list":
            fn = lambda: TagList("a", root, Tag("b")).render()["html"]
        elif path == "copy":
            fn = lambda: str(_copy.copy(root).tagify().tagify())
        elif path == "nested":
            fn = lambda: str(Tag("section", [root], HTML(" ")))
        elif path == "html_args":
            fn = lambda: str(TagList(*root.children))
        elif path == "document":
            places = ("head", "body")
            fn = lambda: HTMLDocument(root, lang="en").render()["html"]
        elif path == "docrender":
            places = ("head", "body")
            fn = lambda: HTMLDocument(Tag("html", Tag("head"), Tag("body", root))).render(lib_prefix=None)["html"]
        elif path == "text":
            places = ("head", "body")

            def fn():
                r = root.render()
                return HTMLTextDocument("<html><head>%%</head>" + r["html"], deps=r["dependencies"], deps_replace_pattern="%%").render()["html"]

        elif path == "save":
            places = ("head", "body")
            f = os.path.join(scratch, f"f{t.index}.html")

            def fn():
                with fs.op_active():
                    root.save_html(f)
                with open(f, newline="", encoding="utf-8") as h:
                    return h.read()

        else:
            raise HarnessError(path)
        return fn, places

    def exactly(got, want, words, where):
        """got is want with every word replaced by its piece.

        Layout is not this property's business: white space that is not part of a
        piece may differ, but none of a piece's own may be missing."""
        table = {w: x for w, x, _, _ in words}
        full, rx = [], []
        for i, s in enumerate(re.split(r"(Zq\d+qZ)", want)):
            if i % 2:
                if s not in table:
                    raise HarnessError(s)
                full.append(table[s])
                rx.append(re.escape(table[s]))
            else:
                full.append(s)
                rx.append(r"\s*".join(re.escape(y) for y in re.split(r"\s+", s)))
        full = "".join(full)
        if got == full:
            return True
        if len(got) >= len(full) and re.fullmatch("".join(rx), got):
            sim.probe("layout-differs")
            return True
        j = next((j for j, (a, b) in enumerate(zip(got, full)) if a != b), min(len(got), len(full)))
        sim.violate("piece-not-exact", f"{where}: ...{got[max(0, j - 60):j + 60]!r} instead of ...{full[max(0, j - 60):j + 60]!r}")

    def twin_op(t, op):
        words = []
        o = sim.call(lambda: (Tag(op["n"], *build_all(op["c"])[0], _add_ws=op["w"]), Tag(op["n"], *build_all(op["c"], words)[0], _add_ws=op["w"])))
        if not o.ok:
            setup_failed(sim, o)
        real, plain = o.value
        outs = []
        for root in (real, plain):
            fn, places = path_fn(t, root, op["path"])
            o = sim.call(fn, op=op if root is real else None)
            if o.kind == "fault":
                o = sim.call(fn)
            if not o.ok:
                sim.violate("rendering-raised", f"{op['path']}: {o.exc!r}")
                return
            outs.append(o.value)
        sim.ev("twin", op["path"], len(words))
        words = [w for w in words if w[3] in places]
        if words:
            sim.probe("compared-with-twin")
        if all(w[0] in outs[1] for w in words):
            exactly(*outs, words, op["path"])
        else:
            missing = [w[2] for w in words if w[0] not in outs[1]]
            sim.violate("piece-count-differs", f"{op['path']}: words in place of {missing[:5]!r} do not appear")

    def render(t, tree, path, op):
        root = tree.root
        fn, places = path_fn(t, root, path)
        o = sim.call(fn, op=op)
        sim.ev("render", path, o.kind)
        if o.kind == "exc":
            sim.violate("rendering-raised", f"{path}: {o.exc!r}")
            return
        if not o.ok:
            o = sim.call(fn)  # failures have stopped
            if not o.ok:
                sim.violate("rendering-raised", f"{path} after a failure: {o.exc!r}")
                return
        if path == "html_args":
            # children only: no attributes of the root
            chunks = tree.chunks[len(getattr(tree, "own_attrs", [])) :]
        else:
            chunks = tree.chunks
        verify(o.value, chunks, f"{path} of {'the shared' if tree is shared else 'an own'} tree", places)
        sim.probe("rendered:" + path)

    uses_save = any(op.get("path") == "save" for ops in plan["tasks"] for op in ops)
    scratch = fs.enter_scratch() if uses_save else None

    def exec_op(t, op):
        accs = t.local.get("accs")
        if accs is None:
            accs = t.local["accs"] = [V(HTML(""), True, "", []) for _ in range(plan["nacc"])]
            t.local["old"] = []
            o = sim.call(lambda: build_all(plan["own"][t.index % len(plan["own"])]))
            if not o.ok:
                setup_failed(sim, o)
            t.local["tree"] = Tree(*o.value)
            t.local["tree"].own_attrs = []
        tree = t.local["tree"]
        old = t.local["old"]
        k = op["k"]

        def src(s):
            if "acc" in s:
                return accs[s["acc"] % len(accs)]
            if "pool" in s and pool:
                return pool[s["pool"] % len(pool)]
            return mk(s.get("leaf") or {"k": "s", "x": "@s0(x)s0@"})

        def joined(a, b, obj):
            if a.html or b.html:
                return V(obj, True, a.out() + b.out(), a.parts + b.parts)
            return V(obj, False, a.text + b.text, [a.text + b.text])

        def same_value(v, where, cls):
            x = v.obj
            if v.html:
                good = isinstance(x, HTML) and x.as_string() == v.text and str(x) == v.text
            elif isinstance(x, str):
                good = str.__str__(x) == v.text
            else:
                good = True
            return sim.expect(good, cls, lambda: f"{where}: {type(x).__name__} {str.__repr__(str(x))[:600]}, expected {'HTML' if v.html else 'str'} {v.text!r:.600}")

        if k == "cat":
            a, b = src(op["l"]), src(op["r"])
            plainish = lambda v: not v.html and not isinstance(v.obj, str)
            if not a.html and not b.html and (plainish(a) or plainish(b)):
                b = mk({"k": "h", "x": "@h0()h0@"})  # no HTML involved: not htmltools' business
            if len(a.text) + len(b.text) > 16000:
                return
            if op["how"] == "iadd":

                def fn():
                    x = a.obj
                    x += b.obj
                    return x

            elif op["how"] == "radd" and b.html:
                fn = lambda: b.obj.__radd__(a.obj) if not a.html else a.obj + b.obj
            else:
                fn = lambda: a.obj + b.obj
            o = sim.call(fn, op=op)
            sim.ev("cat", o.kind, a.html, b.html)
            where = f"{type(a.obj).__name__} {op['how']} {type(b.obj).__name__}"
            if o.kind == "exc":
                sim.violate("concatenation-raised", f"{where}: {o.exc!r}")
                return
            if o.ok:
                v = joined(a, b, o.value)
                if same_value(v, where, "concatenation-differs"):
                    i = op["dst"] % len(accs)
                    old.append(accs[i])
                    del old[:-6]
                    accs[i] = v
                    sim.probe("concatenated")
                    if len(v.parts) >= 5:
                        sim.probe("chain-of-5+")
            for v in (a, b):
                same_value(v, where + " (operand afterwards)", "operand-changed")
        elif k == "cmp":
            v = accs[op["acc"] % len(accs)]
            if not v.parts or len(v.parts) > 200:
                return
            if v.html:
                def one():
                    return (
                        Tag("span", v.obj, _add_ws=False).get_html_string(),
                        TagList(v.obj).get_html_string(),
                        str(Tag("div", Tag("i", v.obj, _add_ws=False))),
                        Tag("p", Tag("b", "x"), v.obj, Tag("i"), _add_ws=False).get_html_string(2),
                    )

                def many():
                    return (
                        Tag("span", *v.parts, _add_ws=False).get_html_string(),
                        TagList(*v.parts).get_html_string(),
                        str(Tag("div", Tag("i", v.parts, _add_ws=False))),
                        Tag("p", Tag("b", "x"), v.parts, Tag("i"), _add_ws=False).get_html_string(2),
                    )

                x, y = sim.call(one, op=op), sim.call(many)
                if x.kind == "fault":
                    x = sim.call(one)
                sim.ev("cmp", x.kind, y.kind, len(v.parts))
                if not x.ok or not y.ok:
                    sim.violate("rendering-raised", f"comparison: {x.exc!r} {y.exc!r}")
                else:
                    sim.probe("compared-with-adjacent-children")
                    sim.expect(x.value == y.value, "sum-differs-from-adjacent-children", lambda: f"{[type(p).__name__ for p in v.parts]}: {x.value!r} != {y.value!r}"[:1800])
                    sim.expect(x.value[1] == v.out(), "sum-differs-from-model", lambda: f"{x.value[1]!r}, expected {v.out()!r}"[:1500])
        elif k == "put":
            v = src(op["src"])
            kids = tree.root.children
            how = op["how"]
            whole = tree.chunks
            na = len(getattr(tree, "own_attrs", []))
            tail = whole + [("body", v.out())]
            if how == "insert":
                fn, new = (lambda: tree.root.insert(0, v.obj)), whole[:na] + [("body", v.out())] + whole[na:]
            elif how == "extend":
                fn, new = (lambda: tree.root.extend([v.obj])), tail
            elif how == "iadd":
                def fn():
                    tree.root.children += [v.obj]
                new = tail
            elif how == "display":
                if not v.html or isinstance(v.obj, HtmlSub):
                    fn, new = (lambda: tree.root.append(v.obj)), tail
                else:
                    fn, new = (lambda: wrap_displayhook_handler(tree.root.append)(v.obj)), tail
            elif how == "nest":
                fn, new = (lambda: tree.root.append([(None, v.obj), []])), tail
            elif how == "sum":
                def fn():
                    tree.root.children = tree.root.children + (v.obj if isinstance(v.obj, (str, HTML)) else [v.obj])
                new = tail
            elif how == "new":
                def fn():
                    return tree.root.append(Tag("p", v.obj))
                new = tail
            else:
                fn, new = (lambda: tree.root.append(v.obj)), tail
            n0 = len(kids)
            o = sim.call(fn, op=op)
            sim.ev("put", how, o.kind)
            if o.kind == "exc":
                sim.violate("placing-raised", f"{how} {type(v.obj).__name__}: {o.exc!r}")
            elif o.ok or len(tree.root.children) > n0:
                tree.chunks = new
        elif k == "attr":
            v = src(op["src"])
            if not v.html or "add" in op["how"] and not v.text:
                return
            how, n = op["how"], op["n"]
            val = v.obj
            attrs = tree.root.attrs
            if how == "add_style":
                n = "style"
                val = v.obj + HTML(";")
            elif how == "add_class":
                n = "class"
            cur = getattr(tree, "attr_model", {})
            keep = dict(cur)
            if how == "set":
                fn = lambda: attrs.__setitem__(n, val)
                keep[n] = [v.text]
            elif how == "update":
                fn = lambda: attrs.update({n: val}, {n: HTML("@h0()h0@")})
                keep[n] = [v.text + " @h0()h0@"]
            elif how == "add_class":
                fn = lambda: tree.root.add_class(val)
                keep[n] = cur.get(n, []) + [v.text]
            elif how == "add_style":
                fn = lambda: tree.root.add_style(val)
                keep[n] = cur.get(n, []) + [v.text + ";"]
            else:
                # a fresh tag, or document
                fn, form = {
                    "kw": (lambda: str(Tag("br", **{n: val})), "<br{}/>"),
                    "copied": (lambda: str(_copy.copy(Tag("br", {n: val})).tagify()), "<br{}/>"),
                    "consolidate": (lambda: str(Tag("br", ht.consolidate_attrs({n: val}, "x")[0])), "<br{}/>"),
                    "doc": (lambda: HTMLDocument("x", **{n: val}).render()["html"], "<html{}>"),
                    "dochtml": (lambda: HTMLDocument(Tag("html", Tag("body")), **{n: val}).render()["html"], "<html{}>"),
                    "docsame": (lambda: HTMLDocument(Tag("html", {n: HTML("@h0(&)h0@")}), **{n: val}).render()["html"], "<html{}>"),
                }[how]
                form = form.format(f' {n}="{v.text}"')
                o = sim.call(fn, op=op)
                if o.ok:
                    sim.probe("attribute-placed-by-" + how)
                    sim.expect(form in o.value if "html" in form else form == o.value, "attribute-not-verbatim", lambda: f"{o.value!r}, expected value {v.text!r}"[:1200])
                elif o.kind == "exc":
                    sim.violate("placing-raised", f"attribute: {o.exc!r}")
                return
            o = sim.call(fn, op=op)
            sim.ev("attr", how, o.kind)
            if o.kind == "exc":
                sim.violate("placing-raised", f"attribute {how}: {o.exc!r}")
                return
            if not o.ok:
                # either the old or the new value
                now = attrs.get(n)
                txt = now.as_string() if isinstance(now, HTML) else now
                if txt == " ".join(keep[n]):
                    pass
                else:
                    keep = cur
            body = tree.chunks[len(getattr(tree, "own_attrs", [])) :]
            tree.attr_model = keep
            # attributes are written in the order of their first assignment
            tree.own_attrs = [("body", f'{a}="{" ".join(x)}"') for a, x in keep.items()]
            tree.chunks = tree.own_attrs + body
            sim.probe("attribute-placed")
        elif k == "twin":
            twin_op(t, op)
        elif k in ("render", "shared"):
            tr = shared if k == "shared" else tree
            if len(tr.chunks) <= 400:
                render(t, tr, op["path"], op)
        elif k == "reb":
            i = op["acc"] % len(accs)
            v = accs[i]
            if not v.html:
                return
            how = op["how"]
            fn, mul = {
                "copy": (lambda: _copy.copy(v.obj), 1),
                "deepcopy": (lambda: _copy.deepcopy(v.obj), 1),
                "pickle": (lambda: pickle.loads(pickle.dumps(v.obj)), 1),
                "slice": (lambda: v.obj[:], 1),
                "mul": (lambda: v.obj * op.get("by", 2), op.get("by", 2)),
                "HTML": (lambda: HTML(v.obj), 1),
                "zero": (lambda: "" + v.obj + "", 1),
            }[how]
            if mul > 1 and len(v.text) * mul > 12000:
                return
            o = sim.call(fn, op=op)
            sim.ev("reb", how, o.kind)
            if o.kind == "exc":
                sim.violate("rebuild-raised", f"{how}: {o.exc!r}")
            elif o.ok:
                w = V(o.value, True, v.text * mul, v.parts * mul)
                if same_value(w, how, "rebuilt-markup-differs"):
                    accs[i] = w
        else:
            raise HarnessError(k)
        # what was built before is what it was
        for v in old + accs:
            if not same_value(v, f"after {k} {op.get('how', '')}", "earlier-result-changed"):
                v.text = v.obj.as_string() if isinstance(v.obj, HTML) else str(v.obj)
                v.html = isinstance(v.obj, HTML)

    try:
        sim.run_tasks(plan["tasks"], plan["sched"], exec_op)
        now = [(type(v.obj), str.__str__(v.obj) if isinstance(v.obj, str) else v.obj.data if isinstance(v.obj, HTML) else v.obj.s) for v in pool]
        sim.expect(now == pool_before, "shared-fragment-changed", "a fragment shared by the tasks changed")
        sim.expect(not fs.G.escapes, "escape", repr(fs.G.escapes))
        # every schedule and failure leaves the shared tree rendering correctly
        o = sim.call(lambda: str(shared.root))
        if o.ok:
            verify(o.value, shared.chunks, "final rendering of the shared tree")
        else:
            sim.violate("rendering-raised", f"final: {o.exc!r}")
    finally:
        if scratch:
            fs.leave_scratch(scratch)
