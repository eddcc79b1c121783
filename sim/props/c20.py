"""C20: JSX components convert purely and surface all dependencies.

Component graphs are shared between tasks, converted repeatedly under preemption
while tagifiable descendants and foreign prop values yield, fail and are interrupted;
other tasks build components step by step.  Every conversion is compared with a model:
the generated React.createElement expression is read back by a parser and compared with
the specification, the metadata nodes with those in the specification, and the component
with its snapshot (values and identities) from before.
"""

from __future__ import annotations

import os
import re

import htmltools
from htmltools import HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList
from htmltools._jsx import JSXTag, jsx, jsx_tag_create

from .. import gen
from ..build import Env, SimTfyRaw, attr_dicts, build, diff, foreign, sha, snap
from ..kernel import HarnessError, setup_failed

NAMES = ["Foo", "Bar", "Baz", "My.Comp", "ns.Inner", "A", "a.b.C", "My.Comp.Sub.Item", "FOO", "Foo_bar", "Foo1", "ns.inner.Inner", "$X", "_Y.Z", "\u00c9t\u00e9"]
REACTISH = ["react", "react-dom", "react-router", "reactstrap", "React", "react-dom-x", "script", "react.is"]
PROPS = ["id", "data_x", "class_", "onClick", "a_b_", "x", "aria_label", "for_", "items", "value", "x__", "children_", "_y", "data-z", "htmlFor", "aria_a_b", "data_x_y_", "a_b_c_d_e_f_g_", "ID", "Id", "on_Click", "classname", "className", "data_fooBar", "DATA_X", "key", "ref", "name", "props", "_name_", "self_", "allowedProps_"]
CH = [c for c in gen.CHUNKS if "\\" not in c and not re.search("[\r\n\u2028\u2029]", c)] + ["'", '""', "${x}", "`", "//", "/*", "React.createElement(", "null", "{", ")", "],", "\x7f"]
WILD = gen.CHUNKS
CSS_NAMES = ["color", "margin-top", "--v", "background", "content", "filter", "marginTop", "Color", "margin_top", "-webkit-x"]
CSS_VALUES = ["red", "1px", "url(http://e.com/x.png)", "url(//e:80/a)", '"x"', "'a:b'", "progid:X(a=1)", "var(--a)", "a b  c", "1", ""]


class SimStr:
    """A foreign prop value that only has a text."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        foreign("str")
        return self.s


# ------------------------------------------------------------- generation
class G:
    def __init__(self, r, wild, refs):
        self.r = r
        self.ch = WILD if wild else CH
        self.refs = refs
        self.budget = r.choice([10, 25, 50])
        self.nj = 0
        w = lambda *a: r.choice(a)
        self.w = {
            "text": 2.0, "tag": 3.0, "jsx": 2.5, "tfy": w(0.5, 1.5, 3), "dep": w(0.3, 1, 2), "meta": w(0, 0.5),
            "num": w(0, 0.4), "none": w(0, 0.3), "list": w(0, 0.6), "jsxe": w(0, 0.4), "ref": 1.0 if refs else 0,
        }

    def s(self):
        return gen.text(self.r, 4, self.ch).replace("\\", "") if self.ch is CH else gen.text(self.r, 4, self.ch)

    def clean(self, s):
        return re.sub("[\\\\\r\n\u2028\u2029]", "", s) if self.ch is CH else s

    def txt(self):
        return self.clean(self.s())

    def j(self):
        self.nj += 1
        return f"J{self.r.randrange(10**6)}$" + self.r.choice(["", ".x", "(1, [2])", "((a) => { return a; })", " + 1", "(\"q, }\")", "\n.then(x)"])

    def style(self, tag=False):
        r = self.r
        k = r.random()
        if k < 0.65:
            sep = r.choice([";", "; ", " ; "])
            x = sep.join(f"{n}{r.choice([':', ': '])}{r.choice(CSS_VALUES)}" for n in (CSS_NAMES + [f"--v{i}" for i in range(30)] if r.random() < 0.02 else r.sample(CSS_NAMES, r.choice([0, 1, 1, 2, 3]))))
            return {"s": x + r.choice(["", ";"])}
        if tag:
            return {"z": 0}
        if k < 0.8:
            return {"d": [[n, {"s": r.choice(CSS_VALUES)}] for n in r.sample(CSS_NAMES, r.choice([0, 1, 2]))]}
        if k < 0.9:
            return {"j": self.j()}
        return {"z": 0}

    def pv(self, depth, top=True):
        r = self.r
        self.budget -= 1
        k = r.random()
        if depth <= 0 or self.budget < 0:
            k *= 0.5
        if k < 0.05:
            return {"z": 0}
        if k < 0.13:
            return {"b": r.random() < 0.5}
        if k < 0.22:
            return {"n": gen.number(r) if r.random() < 0.9 else r.choice([float("inf"), float("-inf"), float("nan")])}
        if k < 0.38:
            return {"s": self.txt()}
        if k < 0.46:
            return {"j": self.j()}
        if k < 0.5:
            return {"x": self.txt()}
        if k < 0.62:
            n = gen.count(r, [0, 1, 2, 3], p=0.02)
            return {"l": [self.pv(depth - 1 if n < 9 or r.random() < 0.2 else 0, False) for _ in range(n)], "tup": r.random() < 0.4}
        if k < 0.72:
            ks = r.sample(["a", "b", "c-d", "e_f", "g h", "\u00e9", "1", "class", "", 'a"b', '"', "it's", "a: b", self.txt()], r.choice([0, 1, 2, 3]))
            if r.random() < 0.02:
                ks += ["k%d" % i for i in range(r.choice([9, 13, 30]))]
            return {"d": [[x, self.pv(depth - 1, False)] for x in dict.fromkeys(ks)]}
        if k < 0.84:
            return {"node": self.tag(depth - 1)}
        if k < 0.93:
            return {"node": self.comp(depth - 1)}
        if k < 0.98:
            return {"node": self.tfy(depth - 1, prop=True)}
        return {"node": self.dep() if r.random() < 0.7 else {"t": "meta", "p": r.choice(gen.WORDS)}}

    def dep(self):
        return {"t": "dep", "d": gen.dep(self.r, names=REACTISH if self.r.random() < 0.3 else gen.DEP_NAMES)}

    def attrs(self):
        r = self.r
        out = []
        for k, v in gen.attrs(r):
            if k == "style":
                if any(q[0] == k for q in out):
                    continue
                v = self.style(True)
            elif "h" in v:
                v = {"s": self.txt()}
            elif "s" in v:
                v = {"s": self.clean(v["s"])}
            out.append([k, v])
        return out

    def tag(self, depth, plain=False):
        return {
            "t": "tag",
            "n": self.r.choice(["div", "span", "p", "ul", "br", "img", "my-el", "button"]),
            "w": self.r.random() < 0.5,
            "a": self.attrs(),
            "c": self.nodes(depth, plain),
        }

    def comp(self, depth):
        r = self.r
        ps = []
        n = gen.count(r, [0, 0, 1, 1, 2, 3], most=40)
        for i in range(n):
            ps.append([r.choice(PROPS) if n < 9 else "p%d" % i, self.pv(depth if n < 9 else min(depth, 1))])
        if r.random() < 0.25:
            ps.append(["style", self.style()])
        ps = list({k: [k, v] for k, v in ps}.values())
        return {"t": "jsx", "n": r.choice(NAMES), "p": ps, "c": self.nodes(depth), "via": r.choice(["class", "factory", "factory", "append", "extend", "attrs"])}

    def tfy(self, depth, prop=False, plain=False):
        """k: fresh/cached expand what they return; raw/stored return it as it is."""
        r = self.r
        kind = r.choice(["fresh", "cached"] if plain else ["fresh", "cached", "raw", "raw", "stored", "stored"])
        p = plain or kind in ("fresh", "cached")
        y = r.random()
        d = max(0, depth - 1)
        if y < 0.35:
            res = {"t": "list", "k": "taglist", "c": self.nodes(d, p, lists=False)}
        elif y < 0.65:
            res = self.tag(d, p)
        elif y < 0.8:
            res = self.comp(d) if not p else self.tag(d, p)
        elif y < 0.9:
            res = {"t": "text", "s": self.txt()}
        else:
            res = self.dep()
        return {"t": "tfy", "k": kind, "r": res, "s": ""}

    def nodes(self, depth, plain=False, lists=True):
        if depth < 0:
            return []
        n = gen.count(self.r, [0, 1, 1, 2, 3])
        if n < 9:
            return [self.node(depth, plain, lists) for _ in range(n)]
        w, self.w = self.w, {**self.w, "ref": 0}  # what is shared may be large itself
        out = [self.node(depth if self.r.random() < 0.1 else 0, plain, lists) for _ in range(n)]
        self.w = w
        return out

    def node(self, depth, plain=False, lists=True):
        r = self.r
        self.budget -= 1
        leaf = depth <= 0 or self.budget < 0
        ws = [
            (k, w) for k, w in self.w.items()
            if w and not (leaf and k in ("tag", "jsx", "tfy", "list")) and not (plain and k in ("jsx", "jsxe", "ref")) and not (k == "list" and not lists)
        ]
        x = r.random() * sum(w for _, w in ws)
        for k, w in ws:
            x -= w
            if x <= 0:
                break
        if k == "text":
            return {"t": "text", "s": self.txt()}
        if k == "num":
            return {"t": "num", "v": gen.number(r)}
        if k == "none":
            return {"t": "none"}
        if k == "meta":
            return {"t": "meta", "p": r.choice(gen.WORDS)}
        if k == "dep":
            return self.dep()
        if k == "jsxe":
            return {"t": "jsxe", "j": self.j()}
        if k == "ref":
            return {"t": "ref", "i": r.randrange(self.refs)}
        if k == "list":
            return {"t": "list", "k": r.choice(["list", "tuple", "taglist"]), "c": self.nodes(depth - 1, plain)}
        if k == "tfy":
            return self.tfy(depth, plain=plain)
        if k == "jsx":
            return self.comp(depth - 1)
        return self.tag(depth - 1, plain)


def gen_comp(r, depth=3):
    """A component specification for other properties."""
    g = G(r, False, 0)
    return g.comp(depth)


def generate(r, tier):
    wild = r.random() < 0.12
    npool = r.choice([0, 0, 1, 2, 3])
    depth = r.choice([1, 2, 3, 3, 4])
    pool = []
    for i in range(npool):
        g = G(r, wild, i)
        pool.append(g.comp(1) if r.random() < 0.5 else g.tag(1))
    g = lambda: G(r, wild, npool)
    shared = [g().comp(depth) for _ in range(r.choice([1, 1, 2]))]
    nt = r.choice([1, 1, 2, 3])

    def op():
        x = r.random()
        if x < 0.55:
            return {"k": r.choice(["tagify", "tagify", "str", "repr", "html", "doc", "in_tag", "in_list", "render"]), "i": r.randrange(len(shared))}
        if x < 0.62:
            al = r.choice([None, [], ["id"], ["id", "x"], ["class_", "class", "value"], ["onClick", "data-z", "items"]])
            return {"k": "allow", "n": r.choice(NAMES), "al": al, "ps": r.sample(["id", "x", "value", "class_", "items", "onClick", "y"], r.choice([0, 1, 2, 3]))}
        if x < 0.72:
            return {"k": "new", "s": g().comp(r.choice([0, 1]))}
        if x < 0.86:
            c = G(r, wild, npool)
            return {"k": r.choice(["append", "extend", "insert", "append"]), "c": [c.node(2) for _ in range(r.choice([1, 1, 2]))]}
        if x < 0.94:
            return {"k": "setprop", "p": r.choice(PROPS), "v": g().pv(2), "how": r.choice(["item", "update", "updatekw"])}
        return {"k": "own", "how": r.choice(["tagify", "str", "doc"])}

    tasks = [
        [gen.op_faults(r, op(), 0.15, 0.15, scale=r.choice([5, 40, 200, 800])) for _ in range(r.choice([1, 3, 5, 8]))] for _ in range(nt)
    ]
    return {
        "wild": wild, "pool": pool, "shared": shared, "tasks": tasks,
        "sched": gen.schedule(r, nt) if nt > 1 else [], "opcode": nt > 1 and r.random() < 0.15,
    }


# --------------------------------------------------------------- building
def build_pv(v, env):
    if "l" in v:
        x = [build_pv(y, env) for y in v["l"]]
        return tuple(x) if v["tup"] else x
    if "d" in v:
        return {k: build_pv(y, env) for k, y in v["d"]}
    if "j" in v:
        return jsx(v["j"])
    if "x" in v:
        return SimStr(v["x"])
    if "node" in v:
        return build(v["node"], env)
    return v["s"] if "s" in v else v["b"] if "b" in v else v["n"] if "n" in v else None


def build_jsx(n, env):
    if n["t"] == "jsxe":
        return jsx(n["j"])
    ps = {k: build_pv(v, env) for k, v in n["p"]}
    cs = [build(c, env) for c in n["c"]]
    via = n["via"]
    if via == "class":
        return JSXTag(n["n"], *cs, **ps)
    f = jsx_tag_create(n["n"])
    if via == "factory":
        return f(*cs, **ps)
    if via == "attrs":
        x = f(*cs)
        for k, v in ps.items():
            x.attrs[k] = v
        return x
    x = f(**ps)
    if via == "append":
        for c in cs:
            x.append(c)
    else:
        x.extend(cs)
    return x


# ------------------------------------------------------------------ model
def norm(k):
    k = k[:-1] if k.endswith("_") else k
    return k.replace("_", "-")


class Model:
    """What a specification must be converted to."""

    def __init__(self, pool, env):
        self.pool = pool
        self.env = env
        self.meta = []

    def kids(self, ns):
        return [m for n in ns for m in self.node(n)]

    def node(self, n):
        t = n["t"]
        if t == "text":
            return [("str", n["s"])]
        if t == "num":
            return [("str", str(n["v"]))]
        if t == "none":
            return []
        if t == "jsxe":
            return [("jsx", n["j"])]
        if t == "list":
            return self.kids(n["c"])
        if t == "ref":
            return self.node(self.pool[n["i"] % len(self.pool)]) if self.pool else [("str", "ref")]
        if t == "tfy":
            return self.node(n["r"])
        if t in ("dep", "meta"):
            self.meta.append(snap(build(n, self.env)))
            return []
        if t == "tag":
            at = Tag(n["n"], *attr_dicts(n["a"])).attrs
            return [("el", "'" + n["n"] + "'", {k: self.style({"s": str(v)}) if k == "style" else ("str", str(v)) for k, v in at.items()}, self.kids(n["c"]))]
        if t == "jsx":
            ps = {}
            for k, v in n["p"]:
                ps[norm(k)] = v
            ps = {k: self.style(v) if k == "style" else self.pv(v) for k, v in ps.items()}
            return [("el", n["n"], ps, self.kids(n["c"]))]
        raise HarnessError(f"bad node {n}")

    def style(self, v):
        if "s" in v:
            d = {}
            for x in v["s"].split(";"):
                if ":" in x:
                    a, b = x.split(":", 1)
                    d[a.strip()] = ("css", b.strip())
            return ("style", d)
        if "z" in v:
            return ("style", {})
        return self.pv(v)

    def pv(self, v):
        if "z" in v:
            return ("null",)
        if "b" in v:
            return ("bool", v["b"])
        if "n" in v:
            return ("num", v["n"]) if v["n"] == v["n"] else ("nan",)
        if "s" in v:
            return ("str", v["s"])
        if "x" in v:
            return ("any",)
        if "j" in v:
            return ("jsx", v["j"])
        if "l" in v:
            return ("arr", [self.pv(x) for x in v["l"]])
        if "d" in v:
            return ("obj", {k: self.pv(x) for k, x in v["d"]})
        n = v["node"]
        m = self.node(n)
        res = n
        while res["t"] == "tfy":
            res = res["r"]
        if res["t"] in ("tag", "jsx", "text"):
            return m[0]
        return ("any",)


def jsx_texts(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("j"), str):
            out.add(x["j"])
        for v in x.values():
            jsx_texts(v, out)
    elif isinstance(x, list):
        for v in x:
            jsx_texts(v, out)
    return out


class ParseError(Exception):
    pass


NUM = re.compile(r"-?\d+(\.\d+)?([eE][+-]?\d+)?")
IDENT = re.compile(r"[^\W\d][\w$]*(\.[^\W\d][\w$]*)*|[\w$]+(\.[\w$]+)*")


class Parser:
    """Reads the subset of JavaScript expressions that conversion may produce."""

    def __init__(self, s, known):
        self.s = s
        self.i = 0
        self.known = sorted(known, key=len, reverse=True)

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t\r\n":
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if not self.peek(t):
            raise ParseError(f"expected {t!r} at {self.s[self.i : self.i + 60]!r}")
        self.i += len(t)

    def string(self):
        self.ws()
        q = self.s[self.i]
        if q not in "\"'":
            raise ParseError(f"expected a string at {self.s[self.i : self.i + 60]!r}")
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.s):
                raise ParseError("unterminated string")
            c = self.s[self.i]
            self.i += 1
            if c == q:
                return "".join(out)
            if c == "\\":
                c = self.s[self.i : self.i + 1]
                self.i += 1
                if c == "u":
                    c = chr(int(self.s[self.i : self.i + 4], 16))
                    self.i += 4
                elif c == "x":
                    c = chr(int(self.s[self.i : self.i + 2], 16))
                    self.i += 2
                else:
                    c = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0", "\n": ""}.get(c, c)
            out.append(c)

    def seq(self, end, item):
        out = []
        if self.peek(end):
            self.eat(end)
            return out
        while True:
            out.append(item())
            if self.peek(","):
                self.eat(",")
                if self.peek(end):
                    self.eat(end)
                    return out
                continue
            self.eat(end)
            return out

    def prop(self):
        self.ws()
        if self.s[self.i : self.i + 1] in "\"'" and self.i < len(self.s):
            k = self.string()
        else:
            m = re.compile(r"[\w$]+").match(self.s, self.i)
            if not m:
                raise ParseError(f"expected a name at {self.s[self.i : self.i + 60]!r}")
            k = m.group()
            self.i = m.end()
        self.eat(":")
        return k, self.value()

    def obj(self):
        self.eat("{")
        d = {}
        for k, v in self.seq("}", self.prop):
            if k in d:
                raise ParseError(f"property {k!r} occurs twice")
            d[k] = v
        return d

    def value(self):
        self.ws()
        for k in self.known:
            if self.s.startswith(k, self.i) and re.match(r"\s*([,)\]}]|$)", self.s[self.i + len(k) :]):
                self.i += len(k)
                return ("jsx", k)
        c = self.s[self.i : self.i + 1]
        if c == '"':
            return ("str", self.string())
        if c == "[":
            self.eat("[")
            return ("arr", self.seq("]", self.value))
        if c == "{":
            return ("obj", self.obj())
        if self.peek("React.createElement("):
            return self.element()
        m = NUM.match(self.s, self.i)
        if m:
            self.i = m.end()
            t = m.group()
            return ("num", int(t) if re.fullmatch(r"-?\d+", t) else float(t))
        for t, v in (("null", ("null",)), ("NaN", ("nan",)), ("Infinity", ("num", float("inf"))), ("-Infinity", ("num", float("-inf"))), ("true", ("bool", True)), ("false", ("bool", False))):
            if self.peek(t):
                self.eat(t)
                return v
        raise ParseError(f"not an expression: {self.s[self.i : self.i + 60]!r}")

    def element(self):
        self.eat("React.createElement(")
        self.ws()
        if self.s[self.i : self.i + 1] in "\"'":
            nm = "'" + self.string() + "'"
        else:
            m = IDENT.match(self.s, self.i)
            if not m:
                raise ParseError(f"expected a component at {self.s[self.i : self.i + 60]!r}")
            nm = m.group()
            self.i = m.end()
        if self.peek(")"):
            self.eat(")")
            return ("el", nm, {}, [])
        self.eat(",")
        if self.peek("null"):
            self.eat("null")
            ps = {}
        else:
            ps = self.obj()
        if self.peek(")"):
            self.eat(")")
            return ("el", nm, ps, [])
        self.eat(",")
        return ("el", nm, ps, self.seq(")", self.value))


def compare(got, want, path="expression"):
    """None, or the first difference."""
    w = want[0]
    if w == "any":
        return None
    if w == "jsx":
        # as a child, a jsx() expression may be written as a text
        if got[0] in ("jsx", "str") and got[1] == want[1]:
            return None if got[0] == "jsx" or "[" in path.rsplit("/", 1)[-1] else f"{path}: jsx() expression written as text {got[1]!r}"
        return f"{path}: {got!r}, expected {want!r}"
    if w == "style":
        # white space around the names and values of declarations is not judged
        if got[0] != "obj":
            return f"{path}: {got!r}, expected an object"
        return cmp_map({k.strip(): v for k, v in got[1].items()}, want[1], path)
    if w == "css":
        return None if got[0] == "str" and got[1].strip() == want[1] else f"{path}: {got!r}, expected {want!r}"
    if got[0] != w:
        return f"{path}: {str(got)[:200]}, expected {str(want)[:200]}"
    if w == "el":
        if got[1] != want[1]:
            return f"{path}: element {got[1]!r}, expected {want[1]!r}"
        d = cmp_map(got[2], want[2], f"{path}/{want[1]}.props")
        if d:
            return d
        if len(got[3]) != len(want[3]):
            return f"{path}/{want[1]}: {len(got[3])} children, expected {len(want[3])}: {str(got[3])[:300]}, expected {str(want[3])[:300]}"
        for i, (a, b) in enumerate(zip(got[3], want[3])):
            d = compare(a, b, f"{path}/{want[1]}[{i}]")
            if d:
                return d
        return None
    if w == "obj":
        return cmp_map(got[1], want[1], path)
    if w == "arr":
        if len(got[1]) != len(want[1]):
            return f"{path}: {str(got)[:200]}, expected {str(want)[:200]}"
        for i, (a, b) in enumerate(zip(got[1], want[1])):
            d = compare(a, b, f"{path}/item{i}")
            if d:
                return d
        return None
    return None if got == want else f"{path}: {got!r}, expected {want!r}"


def cmp_map(got, want, path):
    if set(got) != set(want):
        return f"{path}: {sorted(got)}, expected {sorted(want)}"
    for k in want:
        d = compare(got[k], want[k], f"{path}/{k!r}")
        if d:
            return d
    return None


def idents(x, out, seen=None):
    """Identities of everything reachable, in a fixed order."""
    seen = set() if seen is None else seen
    out.append(id(x))
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, (Tag, JSXTag)):
        out += [id(x.attrs), id(x.children)]
        for v in x.attrs.values():
            idents(v, out, seen)
        for c in x.children:
            idents(c, out, seen)
    elif isinstance(x, dict):
        for v in x.values():
            idents(v, out, seen)
    elif isinstance(x, (list, tuple, TagList)):
        for v in x:
            idents(v, out, seen)
    elif isinstance(x, HTMLDependency):
        for v in (x.script, x.stylesheet, x.meta, x.head):
            idents(v, out, seen)
    elif isinstance(x, SimTfyRaw) and x.stored is not None:
        idents(x.stored, out, seen)
    return out


# ---------------------------------------------------------------- execution
def execute(sim, plan):
    env = Env()
    for p in plan["pool"]:
        o = sim.call(lambda: build(p, env))
        if not o.ok:
            setup_failed(sim, o)
        env.pool.append(o.value)
    known = jsx_texts(plan, set())
    comps = []
    for s in plan["shared"]:
        o = sim.call(lambda: build(s, env))
        if not o.ok:
            setup_failed(sim, o)
        comps.append(o.value)
    before = [snap(c) for c in comps]
    ids = [idents(c, []) for c in comps]
    pool_before = [snap(c) for c in env.pool]

    def model(spec):
        m = Model(plan["pool"], Env(env.pool))
        return m.node(spec)[0], m.meta

    def check_script(text, want, where):
        if not sim.expect(text.startswith("<script") and text.endswith("</script>"), "not-one-script", lambda: f"{where}: {text[:200]!r} ... {text[-80:]!r}"):
            return
        if plan["wild"]:
            return
        inner = text[text.index(">") + 1 : -len("</script>")]
        i = inner.find("React.createElement(")
        if not sim.expect(i >= 0, "expression-missing", lambda: f"{where}: {inner[:300]!r}"):
            return
        p = Parser(inner, known)
        p.i = i
        try:
            got = p.value()
        except (ParseError, IndexError, ValueError) as e:
            sim.violate("expression-malformed", f"{where}: {e}; {inner[i : i + 800]!r}")
            return
        d = compare(got, want)
        sim.expect(d is None, "expression-differs", lambda: f"{where}: {d}; {inner[i : i + 700]!r}")
        sim.probe("expression-compared")

    def check_meta(nodes, meta, where):
        have = [snap(x) for x in nodes]
        names = [x.name for x in nodes if isinstance(x, HTMLDependency)]
        for lib in ("react", "react-dom"):
            # (the user may bring another one)
            ds = [x for x, h in zip(nodes, have) if isinstance(x, HTMLDependency) and x.name == lib and h not in meta]
            if not sim.expect(ds, "react-missing", lambda: f"{where}: {lib} not in {names}"):
                return
            for d in ds:
                src = d.source_path_map()["source"]
                files = [os.path.join(src, x["src"]) for x in d.script]
                sim.expect(files and all(os.path.isfile(f) for f in files), "react-file-missing", lambda: f"{where}: {files}")
        for m in meta:
            sim.expect(m in have, "metadata-missing", lambda: f"{where}: {str(m)[:300]} not among {names}")
        rest = [h for h, x in zip(have, nodes) if h not in meta and not (isinstance(x, HTMLDependency) and x.name in ("react", "react-dom"))]
        sim.expect(not rest, "metadata-unknown", lambda: f"{where}: {str(rest)[:400]}")
        if meta:
            sim.probe("metadata-carried", len(meta))

    def metas(t):
        return [c for c in t.children if isinstance(c, MetadataNode)]

    def convert(how, x, spec, op, where, own):
        """Convert x in one way; judge the result; retry without faults if one fired."""

        def fn():
            if how == "tagify":
                return x.tagify()
            if how == "str":
                return str(x)
            if how == "repr":
                return repr(x)
            if how == "html":
                return x._repr_html_()
            if how == "doc":
                return HTMLDocument(x).render()
            if how == "render":
                return Tag("div", x).render()
            if how == "in_tag":
                return Tag("div", "a", x, "b").tagify()
            return TagList("a", x).tagify()

        o = sim.call(fn, op=op)
        sim.ev(how, o.kind)
        pure(where, own)
        if o.kind == "fault":
            sim.probe("converted-again-after-a-failure")
            o = sim.call(fn)
            pure(where, own)
        if o.kind == "exc":
            sim.violate("conversion-raised", f"{where} {how}: {o.exc!r}")
            return
        want, meta = model(spec)
        v = o.value
        where = f"{where} {how}"
        sim.probe("converted-by-" + how)
        deps = {m[1] for m in meta if m[0] == "Dep"} | {"react", "react-dom"}
        if how in ("tagify", "in_tag", "in_list"):
            t = v
            if how != "tagify":
                ch = list(v.children) if how == "in_tag" else list(v)
                if not sim.expect(len(ch) == (3 if how == "in_tag" else 2) and isinstance(ch[1], Tag), "not-one-script", lambda: f"{where}: {ch!r}"[:500]):
                    return
                t = ch[1]
            if not sim.expect(isinstance(t, Tag) and t.name == "script", "not-one-script", lambda: f"{where}: {t!r}"[:500]):
                return
            check_meta(metas(t), meta, where)
            got = {d.name for d in t.get_dependencies()}
            sim.expect(got == deps, "dependencies-differ", lambda: f"{where}: {sorted(got)}, expected {sorted(deps)}")
            h = sim.call(lambda: t.get_html_string())
            if not h.ok:
                sim.violate("conversion-raised", f"{where}: {h.exc!r}")
                return
            check_script(str(h.value), want, where)
        elif how in ("str", "repr", "html"):
            check_script(v, want, where)
        else:
            got = {d.name for d in v["dependencies"]}
            sim.expect(got == deps, "dependencies-differ", lambda: f"{where}: {sorted(got)}, expected {sorted(deps)}")
            h = v["html"]
            a, b = h.find("<script", h.find("<body") if how == "doc" else 0), h.rfind("</script>")
            if sim.expect(0 <= a < b, "not-one-script", lambda: f"{where}: {h[:300]!r}"):
                check_script(h[a : b + 9], want, where)

    def pure(where, own=None):
        for k, c in enumerate(comps):
            s = snap(c)
            sim.expect(s == before[k], "component-changed", lambda: f"{where}, component {k}: {diff(before[k], s)}")
            sim.expect(idents(c, []) == ids[k], "component-parts-replaced", lambda: f"{where}: component {k} now refers to other objects")
        for k, c in enumerate(env.pool):
            s = snap(c)
            sim.expect(s == pool_before[k], "component-changed", lambda: f"{where}, shared node {k}: {diff(pool_before[k], s)}")
        if own is not None:
            x, s0, i0 = own
            s = snap(x)
            sim.expect(s == s0, "component-changed", lambda: f"{where}: {diff(s0, s)}")
            sim.expect(idents(x, []) == i0, "component-parts-replaced", lambda: f"{where}: the component now refers to other objects")

    def exec_op(t, op):
        k = op["k"]
        if k == "allow":
            al = op["al"]
            o = sim.call(lambda: jsx_tag_create(op["n"], al)(**{p: 1 for p in op["ps"]}) if al is not None else jsx_tag_create(op["n"])(**{p: 1 for p in op["ps"]}))
            sim.ev("allow", o.kind)
            if al is None:
                sim.expect(o.ok, "prop-rejected", lambda: f"no allow-list, {op['ps']}: {o.exc!r}")
                return
            nal = [norm(a) for a in al]
            bad = [p for p in op["ps"] if p not in al and norm(p) not in nal]
            fine = all(p in al and norm(p) in nal for p in op["ps"])
            if bad:
                sim.expect(o.kind == "exc", "prop-not-rejected", lambda: f"allow-list {al}, props {op['ps']}")
                sim.probe("prop-rejected")
            elif fine:
                sim.expect(o.ok, "prop-rejected", lambda: f"allow-list {al}, props {op['ps']}: {o.exc!r}")
                sim.probe("prop-accepted")
            return
        if k in ("new", "append", "extend", "insert", "setprop", "own"):
            st = t.local.get("own")
            if st is None or k == "new":
                spec = op["s"] if k == "new" else {"t": "jsx", "n": "Own", "p": [], "c": [], "via": "class"}
                o = sim.call(lambda: build(spec, env))
                if not o.ok:
                    setup_failed(sim, o)
                st = t.local["own"] = {"x": o.value, "spec": {**spec, "p": list(spec["p"]), "c": list(spec["c"])}}
            x, spec = st["x"], st["spec"]
            if k in ("append", "extend", "insert"):
                cs = [build(c, env) for c in op["c"]]
                if k == "append":
                    x.append(*cs)
                elif k == "extend":
                    x.extend(cs)
                else:
                    x.children.insert(0, cs)
                spec["c"] = op["c"] + spec["c"] if k == "insert" else spec["c"] + op["c"]
                sim.probe("children-added-later")
            elif k == "setprop":
                v = build_pv(op["v"], env)
                if op["how"] == "item":
                    x.attrs[op["p"]] = v
                elif op["how"] == "update":
                    x.attrs.update({op["p"]: v})
                else:
                    x.attrs.update(**{op["p"]: v})
                spec["p"] = [q for q in spec["p"] if norm(q[0]) != norm(op["p"])] + [[op["p"], op["v"]]]
                sim.probe("prop-set-later")
            convert(op.get("how") if k == "own" else "tagify", x, spec, op, "own component", (x, snap(x), idents(x, [])))
            return
        i = op["i"] % len(comps)
        convert(k, comps[i], plan["shared"][i], op, f"component {i}", None)

    pure("before any conversion")
    sim.run_tasks(plan["tasks"], plan["sched"], exec_op)
    pure("at the end")
    # once more, without faults or other tasks
    for i, c in enumerate(comps):
        convert("tagify", c, plan["shared"][i], None, f"component {i} (last)", None)
