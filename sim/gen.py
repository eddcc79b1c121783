"""Seeded generators of JSON specs, and builders from specs to real objects.

Node specs are dicts with key "t":
  tag  n(name) w(add_ws) a([[key, value]...]) c([nodes])
  text s | html s | num v | none | repr s | list k(list|tuple|taglist) c
  tfy  k(fresh|cached|both) r(node)       foreign object with tagify()
  dep  d{...} | meta p | ref i            i-th object of the shared pool
  jsx  ... (see props/c20)
Values: {"s":str} {"h":str} {"b":bool} {"n":number} {"z":0}
"""

from __future__ import annotations

import json
import unicodedata

HTML_NAMES = (
    "a abbr address area article aside audio b base bdi bdo blockquote body br button "
    "canvas caption cite code col colgroup command data datalist dd del details dfn "
    "dialog div dl dt em embed fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 "
    "head header hgroup hr html i iframe img input ins kbd keygen label legend li link "
    "main map mark meta meter nav noscript object ol optgroup option output p param "
    "picture pre progress q rp rt ruby s samp script section select slot small source "
    "span strong style sub summary sup table tbody td template textarea tfoot th thead "
    "time title tr track u ul var video wbr svg path g rect circle text tspan "
    "linearGradient foreignObject"
).split()
VOID = set(
    "area base br col command embed hr img input keygen link meta param source track wbr".split()
)
PLAIN_NAMES = [
    n
    for n in HTML_NAMES
    if n not in VOID and n not in ("script", "style", "html", "head", "body")
]
CUSTOM = ["my-elem", "x-foo", "bslib-card", "Foo.Bar", "svg:rect"]

CHUNKS = [
    "&", "<", ">", '"', "'", "\r", "\n", "\r\n", "\t", " ", "  ", "&amp;", "&lt;", "&#60;",
    "&#x3c;", "&nbsp;", "</script>", "</SCRIPT", "<!--", "-->", "<b>", "</b>", "]]>", "\\",
    "\\n", "\\u003c", "\u00e9", "\u65e5\u672c", "\U0001f600", "\u2028", "\u00a0", "\x0b",
    "\x1c", ";", ":", "{", "}", "%", "%20", "a", "b", "foo", "bar-x", "_", "0", "12", "/",
    "//", "=", "a<b", "x&y", "None", "...", "<a&b>", "&copy", "&copy;", "\x85", "$1", "\\1",
    "\\g<0>", "{0}", "%s",
]
WORDS = ["a", "b", "foo", "bar", "baz", "hello", "x1", "lorem ipsum"]


def text(r, maxn=5, chunks=CHUNKS):
    k = r.random()
    if k < 0.06:
        return ""
    if k < 0.35:
        return r.choice(WORDS)
    if k < 0.89:
        return "".join(r.choice(chunks) for _ in range(r.randint(1, maxn)))
    if k < 0.95:
        return r.choice(EDGES) + r.choice(chunks + WORDS) + r.choice(EDGES)
    if k < 0.985:
        return "".join(
            chr(r.choice([r.randrange(0x20, 0x3000), r.randrange(0x20, 0xD800), r.randrange(0x10000, 0x10FFFF)]))
            for _ in range(r.randint(1, 4))
        )
    return (r.choice(chunks) + r.choice(WORDS)) * r.randint(20, 120)


def number(r):
    """An int or a float, of any magnitude and with any number of digits."""
    k = r.random()
    if k < 0.35:
        return r.choice([0, 1, -1, 2, 7, 10, 100, -3, 2.5, 0.5, 0.1, 1.0, 0.0, -0.0, 100.0, 1e100, 1e21, 1e16, 1e15, 1e-5, 1e-4, 1e-7, 10**20, 10**30, 2**53 + 1, float("inf"), float("-inf")])
    if k < 0.5:
        return r.randint(-1000, 10000)
    if k < 0.58:
        return r.randint(-(10 ** r.randint(5, 40)), 10 ** r.randint(5, 40))
    if k < 0.75:
        return r.uniform(-1, 1) * 10 ** r.randint(-20, 25)
    if k < 0.85:
        return round(r.uniform(-1000, 1000), r.randint(0, 8))
    if k < 0.95:
        return r.random()
    return float(r.randint(-(10**6), 10 ** r.choice([3, 9, 17, 25])))


def near(r, s):
    """A string that is not s, but that someone could take for the same."""
    out = []
    for f in (
        lambda: s.swapcase(), lambda: s.upper(), lambda: s.lower(), lambda: s.title(),
        lambda: unicodedata.normalize("NFC", s), lambda: unicodedata.normalize("NFD", s), lambda: unicodedata.normalize("NFKC", s),
        lambda: s + " ", lambda: " " + s, lambda: s.strip(), lambda: s.replace("-", "_"), lambda: s.replace("_", "-"),
        lambda: s.replace("\r\n", "\n"), lambda: s.replace("\n", "\r\n"), lambda: s.replace("  ", " "), lambda: s.replace(" ", "  "),
        lambda: s[:-1], lambda: s[1:], lambda: s + s[-1:], lambda: s + "\u200b", lambda: s.replace("&", "&amp;"), lambda: s.replace("&amp;", "&"),
        lambda: s + "?v=1", lambda: s.split("?")[0], lambda: s + "#x", lambda: s.split("#")[0], lambda: s + ".0", lambda: s + "\u0301",
        lambda: s + "\u00e9", lambda: s.replace("'", '"'), lambda: s.replace('"', "'"), lambda: s.replace(";", ""), lambda: s.replace("/", "//"),
        lambda: s.encode("ascii", "ignore").decode(), lambda: s.replace(" ", "\u00a0"), lambda: s.casefold(), lambda: s[::-1],
    ):
        x = f()
        if x != s:
            out.append(x)
    return r.choice(out)


def filename(r):
    """A relative path whose parts are any names the file system allows."""
    part = lambda: "".join(r.choice(FNAME) for _ in range(r.randint(1, 6))) + r.choice(["", "", ".js", ".css", ".min.js", ".JS"])
    s = "/".join(part() for _ in range(r.choice([1, 1, 1, 2, 3])))
    return s if all(p.strip(".") and len(p.encode()) < 200 for p in s.split("/")) else "x" + s.replace("/", "")


FNAME = ["a", "b", "C", "0", "-", "_", ".", " ", "%", "%2F", "%00", "#", "?", "&", "=", "+", ";", ":", ",", "@", "!", "$", "'", '"', "(", ")", "*",
         "<", ">", "[", "]", "{", "}", "|", "^", "`", "~", "\\", "\u00e9", "e\u0301", "\u00df", "\u65e5", "\U0001f600", "\u2126", "\ufb01", "\n", "\t", "\x7f", "\u00a0", "&lt;"]
EDGES = ["", " ", "  ", "\n", "\t", "\r\n", "    ", "\n\n  ", "\u00a0", "\ufeff", "\x0c"]


def markup(r):
    k = r.random()
    if k < 0.5:
        return r.choice(
            ["<b>x</b>", "<i class=\"q\">&amp;</i>", "a &lt; b", "<br/>", "&", "<a&b>", "\n<p>x</p>\n",
             "<!-- c -->", "</div>", "&copy;", "<script>1 && 2</script>", ""]
        )
    return text(r)


ATTR_NAMES = [
    "class", "class_", "id", "style", "href", "data_x", "data-x", "data_x_", "x", "x_", "x__",
    "aria_label", "for_", "_x", "title", "onClick", "a_b", "a-b", "a_b_", "hidden",
    "data_fooBar", "data_Foo_bar", "viewBox", "xlink:href", "@click", "x-on:click.prevent", "ARIA_Label", "aria-Label_", "ID", "Class", "dataX", "data_", "é",
]


BIG = 0.015


def count(r, usual, big=(9, 11, 13, 17, 21, 25, 33, 40, 65, 70, 100, 130), p=BIG, most=130):
    """How many of something: usually one of `usual`, now and then far more."""
    if r.random() < p:
        return r.choice([b for b in big if b <= most])
    return r.choice(usual)


def attr_value(r, html=0.2):
    k = r.random()
    if k < html:
        return {"h": markup(r)}
    if k < 0.62:
        return {"s": text(r, 3)}
    if k < 0.72:
        return {"b": True}
    if k < 0.79:
        return {"b": False}
    if k < 0.86:
        return {"z": 0}
    return {"n": number(r)}


def attrs(r, maxn=3):
    n = count(r, [0, 0, 0, 1, 1, 2, maxn], most=40, p=0.006)
    if n >= 9:
        return [["a%d" % i, attr_value(r)] for i in range(n)]
    return [[r.choice(ATTR_NAMES), attr_value(r)] for _ in range(n)]


DEP_NAMES = ["a", "b", "c", "dep-d", "jquery", "zlib", "x.y", "A", "Jquery", "\u00e9", "e\u0301", "dep_d", "DEP-D", "a-1.0"]
VERSIONS = ["1.0", "1.0.0", "1.9", "1.10", "1.10.0", "2.0", "2.0.1", "10.0", "1.0rc1", "0.9", "1.2.3.4", "3"]


def dep(r, *, hostile=False, head=True, names=DEP_NAMES):
    s = (lambda: text(r, 3)) if hostile else (lambda: r.choice(WORDS))
    d = {"name": r.choice(names), "ver": r.choice(VERSIONS)}
    k = r.random()
    if k < 0.45:
        d["src"] = {"subdir": r.choice(["foo", "lib/x", "d e"])}
    elif k < 0.55:
        d["src"] = {"package": "htmltools", "subdir": "libtest/testdep"}
    elif k < 0.65:
        d["src"] = {"package": None, "subdir": "foo"}
    elif k < 0.85:
        d["src"] = {"href": r.choice(["https://e.com", "https://e.com/x/", "//cdn/y"])}
    else:
        d["src"] = None
    fn = lambda ext: r.choice(["a", "b", "js/foo bar", "x%y", "\u00e9", "q#1", "m?2", "n&m"]) + ext
    d["script"] = [
        {"src": fn(".js"), **({r.choice(["async", "defer", "type", "integrity"]): s()} if r.random() < 0.3 else {})}
        for _ in range(count(r, [0, 0, 1, 1, 2, 3], most=33))
    ]
    d["css"] = [
        {"href": fn(".css"), **({r.choice(["media", "title", "type"]): s()} if r.random() < 0.3 else {})}
        for _ in range(count(r, [0, 0, 1, 2], most=33))
    ]
    d["meta"] = [
        {"name": s(), "content": s()} for _ in range(count(r, [0, 0, 0, 1, 2], most=33))
    ]
    d["all"] = r.random() < 0.2
    d["single"] = r.random() < 0.4
    d["head"] = None
    if head and r.random() < 0.35:
        if r.random() < 0.5:
            d["head"] = {"s": markup(r)}
        else:
            d["head"] = {"c": [simple_node(r) for _ in range(count(r, [1, 1, 2, 2, 3, 5], most=33))]}
    return d


def simple_node(r, nested=True):
    k = r.random()
    if k < 0.3:
        return {"t": "text", "s": text(r)}
    if k < 0.5:
        return {"t": "html", "s": markup(r)}
    return {
        "t": "tag",
        "n": r.choice(["title", "meta", "link", "script", "style", "b", "div"]),
        "w": r.random() < 0.5,
        "a": attrs(r, 2),
        "c": [simple_node(r, False) if nested and r.random() < 0.3 else {"t": "text", "s": text(r)} for _ in range(r.choice([0, 0, 1, 1, 2 if nested else 1]))],
    }


class TreeGen:
    """Random trees with a given mix; weights are varied per run (swarm)."""

    def __init__(self, r, *, tfy=1.0, dep_w=1.0, reprs=1.0, html=1.0, refs=0, jsx=0, meta=1.0,
                 depth=None, hostile=False, lists=0.6, both=0.3, cached=0.2, dep_head=True, script=True):
        self.r = r
        self.script = script
        self.w = {
            "text": 3.0,
            "tag": 4.0,
            "html": html * r.choice([0, 1, 1]),
            "num": r.choice([0, 0.4]),
            "none": r.choice([0, 0.3]),
            "repr": reprs * r.choice([0, 0.7, 1.2]),
            "tfy": tfy * r.choice([0.5, 1.2, 2.5]),
            "dep": dep_w * r.choice([0.3, 1, 2]),
            "meta": meta * r.choice([0, 0.5]),
            "list": lists * r.choice([0, 1]),
            "ref": 1.0 if refs else 0,
            "jsx": jsx,
        }
        self.refs = refs
        self.depth = depth if depth is not None else r.choice([1, 2, 2, 3, 3, 4])
        self.fan = r.choice([1, 2, 3, 3, 5])
        self.hostile = hostile
        self.both = both
        self.cached = cached
        self.scripts = r.random() < 0.15
        self.twice = r.random() < 0.2
        self.block = r.choice([0.2, 0.5, 0.8])
        self.dep_head = dep_head
        self.budget = r.choice([8, 20, 40, 80])
        self.wide = r.random() < 0.06  # one list of very many nodes
        self.deep = r.random() < 0.02  # one long chain of tags

    def pick(self, leaf):
        items = [(k, w) for k, w in self.w.items() if w and not (leaf and k in ("tag", "list", "tfy") and self.r.random() < 0.8)]
        x = self.r.random() * sum(w for _, w in items)
        for k, w in items:
            x -= w
            if x <= 0:
                return k
        return "text"

    def nodes(self, depth, lo=0):
        r = self.r
        n = r.randint(lo, self.fan)
        if self.wide and r.random() < 0.3:
            self.wide, n = False, r.choice([10, 17, 24, 33, 51, 66, 101, 130])
            w, self.w = self.w, {**self.w, "ref": 0}  # what is shared may be large itself
            out = [self.node(depth if r.random() < 0.1 else 0) for _ in range(n)]
            self.w = w
        else:
            out = [self.node(depth) for _ in range(n)]
        if self.deep and r.random() < 0.3:
            self.deep = False
            x = self.tag(0)
            for _ in range(r.choice([6, 9, 12, 18, 25, 36])):
                x = {"t": "tag", "n": r.choice(PLAIN_NAMES), "w": r.random() < self.block, "a": attrs(r), "c": [x]}
            out.append(x)
        if self.twice and out and r.random() < 0.4:
            # the same object at several places, next to each other or not
            i = r.randrange(len(out))
            if out[i]["t"] not in ("none", "list", "num", "ref"):
                out[i]["one"] = 1
                same = json.dumps(out[i])
                for _ in range(r.choice([1, 1, 2])):
                    at = i + 1 if r.random() < 0.6 else r.randint(0, len(out))
                    out.insert(at, json.loads(same))
        return out

    def name(self):
        r = self.r
        k = r.random()
        if self.script and self.scripts and r.random() < 0.3:
            return r.choice(["script", "style"])
        if k < 0.5:
            return r.choice(["div", "span", "p", "b", "a", "ul", "li", "section"])
        if k < 0.62:
            return r.choice(sorted(VOID))
        if k < 0.67 and self.script:
            return r.choice(["script", "style"])
        if k < 0.72:
            return r.choice(CUSTOM)
        return r.choice(PLAIN_NAMES)

    def tag(self, depth, name=None):
        r = self.r
        name = name or self.name()
        kids = [] if depth <= 0 else self.nodes(depth - 1)
        if name in VOID and r.random() < 0.7:
            kids = []
        if name in ("script", "style"):
            kids = [self.script_child(2) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        return {"t": "tag", "n": name, "w": r.random() < self.block, "a": attrs(r), "c": kids}

    def script_child(self, depth):
        """What is directly in <script>/<style>: text, and nodes that leave no element."""
        r = self.r
        k = self.pick(True) if r.random() < 0.4 else "text"
        if k == "list" and depth:
            return {"t": "list", "k": r.choice(["list", "tuple", "taglist"]), "c": [self.script_child(depth - 1) for _ in range(r.choice([0, 1, 2]))]}
        if k == "dep":
            return {"t": "dep", "d": dep(r, hostile=self.hostile, head=self.dep_head)}
        if k == "meta":
            return {"t": "meta", "p": r.choice(WORDS)}
        if k == "none":
            return {"t": "none"}
        if k == "tfy" and depth:
            res = self.script_child(depth - 1)
            if res["t"] not in ("text", "html", "dep", "tfy") or r.random() < 0.5:
                res = {"t": "list", "k": "taglist", "c": [res] if r.random() < 0.7 else []}
            kind = "both" if r.random() < self.both else "fresh"
            return {"t": "tfy", "k": kind, "r": res, "s": markup(r) if kind == "both" else ""}
        return {"t": r.choice(["text", "html"]), "s": text(r)}

    def node(self, depth):
        r = self.r
        self.budget -= 1
        k = self.pick(depth <= 0 or self.budget <= 0)
        if k == "text":
            return {"t": "text", "s": text(r)}
        if k == "html":
            return {"t": "html", "s": markup(r)}
        if k == "num":
            return {"t": "num", "v": number(r)}
        if k == "none":
            return {"t": "none"}
        if k == "repr":
            return {"t": "repr", "s": markup(r)}
        if k == "dep":
            return {"t": "dep", "d": dep(r, hostile=self.hostile, head=self.dep_head)}
        if k == "meta":
            return {"t": "meta", "p": r.choice(WORDS)}
        if k == "ref":
            return {"t": "ref", "i": r.randrange(self.refs)}
        if k == "list":
            return {
                "t": "list",
                "k": r.choice(["list", "tuple", "taglist"]),
                "c": self.nodes(depth - 1 if depth > 0 else 0),
            }
        if k == "tfy":
            return self.tfy(depth)
        if k == "jsx":
            return self.jsx(depth)
        return self.tag(depth)

    def tfy(self, depth):
        r = self.r
        x = r.random()
        kind = "both" if x < self.both else ("cached" if x < self.both + self.cached else "fresh")
        y = r.random()
        d = max(0, depth - 1)
        if y < 0.5:
            res = {"t": "list", "k": "taglist", "c": self.nodes(d)}
        elif y < 0.8:
            res = self.tag(d)
        elif y < 0.87:
            res = {"t": "text", "s": text(r)}
        elif y < 0.92:
            res = {"t": "html", "s": markup(r)}
        elif y < 0.96:
            res = {"t": "dep", "d": dep(r, hostile=self.hostile, head=self.dep_head)}
        else:
            res = self.tfy(d) if depth > 0 else {"t": "text", "s": "t"}
        return {"t": "tfy", "k": kind, "r": res, "s": markup(r) if kind == "both" else ""}

    def jsx(self, depth):
        from .props import c20

        return c20.gen_comp(self.r, min(depth, 2))


def schedule(r, ntasks):
    """A list of (task, quantum) segments; PCT-like: few, at varied scales."""
    n = r.choice([0, 1, 2, 3, 5, 8, 16, 30])
    scale = r.choice([3, 15, 60, 250, 1000])
    return [[r.randrange(ntasks), 1 + int(r.expovariate(1.0 / scale))] for _ in range(n)]


CB_EXC = ["RuntimeError", "ValueError", "KeyError", "TypeError", "AttributeError", "IndexError",
          "MemoryError", "KeyboardInterrupt", "StopIteration", "NotImplementedError", "RecursionError", "OSError"]
INT_EXC = ["KeyboardInterrupt", "MemoryError", "RecursionError", "RuntimeError"]


def op_faults(r, op, p_cb=0.15, p_int=0.15, scale=None):
    """Attach faults to an operation (foreign-code raise / interrupt at a line)."""
    if p_cb and r.random() < p_cb:
        op["cbf"] = {"at": 1 + int(r.expovariate(0.5)), "exc": r.choice(CB_EXC)}
    elif p_int and r.random() < p_int:
        s = scale or r.choice([5, 30, 100, 400])
        op["int"] = {"at": 1 + int(r.expovariate(1.0 / s)), "exc": r.choice(INT_EXC)}
    return op
