"""Builders: JSON specs -> real htmltools objects, foreign classes, snapshots."""

from __future__ import annotations

import json
from copy import copy

import htmltools as ht
from htmltools import HTML, HTMLDependency, MetadataNode, Tag, TagList

from . import kernel


def foreign(kind, ident=""):
    sim = kernel._current
    if sim is not None:
        sim.foreign(kind, ident)


# ------------------------------------------------------------------ foreign
class SimRepr:
    """Self-rendering foreign object."""

    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        foreign("repr_html")
        return self.s

    def __repr__(self):
        return "<SimRepr>"


class SimTfy:
    """Foreign expanding component: a fresh expansion for every call."""

    def __init__(self, spec, env, cached=False):
        self.spec = spec
        self.env = env
        self.cached = cached
        self._cache = None
        self._key = None
        self.calls = 0

    def tagify(self):
        foreign("tagify")
        self.calls += 1
        if self.cached and self._cache is not None:
            return self._cache
        x = build(self.spec, self.env)
        if hasattr(x, "tagify"):
            x = x.tagify()
        elif isinstance(x, MetadataNode):
            x = copy(x)
        foreign("tagify-end")
        if self.cached:
            self._cache = x
        return x

    def __repr__(self):
        return "<SimTfy>"


class SimTfyRepr(SimTfy):
    """Expanding and self-rendering."""

    def __init__(self, spec, env, s):
        super().__init__(spec, env)
        self.s = s

    def _repr_html_(self):
        foreign("repr_html")
        return self.s


class SimTfyMeta(SimTfy, MetadataNode):
    """Expanding, although it is a metadata node."""


class SimTfyStr(SimTfy, str):
    """Expanding, although it is a string."""

    def __new__(cls, *args):
        return str.__new__(cls, "un<expanded>")


class SimTfyTag(SimTfy, Tag):
    """A kind of tag with an expansion of its own."""

    def __init__(self, spec, env):
        SimTfy.__init__(self, spec, env)
        Tag.__init__(self, "x-own", "un<expanded>", id="own")


AS = {"meta": SimTfyMeta, "str": SimTfyStr, "tag": SimTfyTag}


class SimTfyRaw:
    """An expanding component that returns what it holds as it is, not expanded further.

    stored: the same objects every time."""

    def __init__(self, spec, env, stored):
        self.spec = spec
        self.env = env
        self.stored = build(spec, env) if stored else None
        self._key = sha(json.dumps(spec, sort_keys=True))

    def tagify(self):
        foreign("tagify")
        x = self.stored if self.stored is not None else build(self.spec, self.env)
        foreign("tagify-end")
        return x

    def __repr__(self):
        return "<SimTfyRaw>"


class SimMeta(MetadataNode):
    """A custom metadata node compared by value."""

    def __init__(self, p):
        self.p = [p]

    def __copy__(self):
        x = SimMeta(None)
        x.p = list(self.p)
        return x

    def __eq__(self, other):
        return isinstance(other, SimMeta) and self.p == other.p

    def __repr__(self):
        return "<SimMeta>"


class Env:
    def __init__(self, pool=None, share=True):
        self.pool = pool if pool is not None else []
        self.share = share
        self.tfys = []
        self.ones = {}


def value(v):
    if "s" in v:
        return v["s"]
    if "h" in v:
        return HTML(v["h"])
    if "b" in v:
        return v["b"]
    if "n" in v:
        return v["n"]
    return None


def attr_dicts(pairs):
    """[[k, v]...] -> list of dicts, one per pair (keeps repeated names)."""
    return [{k: value(v)} for k, v in pairs]


def build_dep(d, env):
    def items(x):
        x = [dict(i) for i in x]
        return x[0] if d.get("single") and len(x) == 1 else x

    head = d.get("head")
    if head is not None:
        head = head["s"] if "s" in head else [build(c, env) for c in head["c"]]
    kw = {}
    if d.get("script"):
        kw["script"] = items(d["script"])
    if d.get("css"):
        kw["stylesheet"] = items(d["css"])
    if d.get("meta"):
        kw["meta"] = items(d["meta"])
    src = d.get("src")
    return HTMLDependency(
        d["name"],
        d["ver"],
        source=dict(src) if src is not None else None,
        all_files=bool(d.get("all")),
        head=head,
        **kw,
    )


def build(n, env):
    if "one" in n and env.share:
        # one object for all nodes with this mark (if they still are the same)
        key = json.dumps(n, sort_keys=True)
        if key not in env.ones:
            env.ones[key] = build_node(n, env)
        return env.ones[key]
    return build_node(n, env)


def build_node(n, env):
    t = n["t"]
    if t == "tag":
        return Tag(
            n["n"],
            *attr_dicts(n.get("a", [])),
            *[build(c, env) for c in n["c"]],
            _add_ws=n["w"],
        )
    if t == "text":
        return n["s"]
    if t == "html":
        return HTML(n["s"])
    if t == "num":
        return n["v"]
    if t == "none":
        return None
    if t == "repr":
        return SimRepr(n["s"])
    if t == "list":
        c = [build(x, env) for x in n["c"]]
        return c if n["k"] == "list" else tuple(c) if n["k"] == "tuple" else TagList(*c)
    if t == "tfy":
        if n["k"] == "both":
            x = SimTfyRepr(n["r"], env, n["s"])
        elif n["k"] in ("raw", "stored"):
            x = SimTfyRaw(n["r"], env, n["k"] == "stored")
        else:
            x = AS[n["as"]](n["r"], env) if "as" in n else SimTfy(n["r"], env, cached=n["k"] == "cached")
        env.tfys.append(x)
        return x
    if t == "dep":
        return build_dep(n["d"], env)
    if t == "headc":
        return ht.head_content(*[build(c, env) for c in n["c"]])
    if t == "meta":
        return SimMeta(n["p"])
    if t == "ref":
        return env.pool[n["i"] % len(env.pool)] if env.pool else "ref"
    if t in ("jsx", "jsxe"):
        from .props import c20

        return c20.build_jsx(n, env)
    raise kernel.HarnessError(f"bad node {n!r}")


# ---------------------------------------------------------------- snapshots
def snap(x, depth=0):
    """Structural value of everything reachable (no identities, no addresses)."""
    if depth > 300:
        return "deep"
    d = depth + 1
    if isinstance(x, Tag):
        return (
            "Tag",
            x.name,
            x.add_ws,
            tuple((k, snap(v, d)) for k, v in x.attrs.items()),
            tuple(snap(c, d) for c in x.children),
        )
    if isinstance(x, TagList):
        return ("TagList",) + tuple(snap(c, d) for c in x)
    if isinstance(x, HTML):
        return ("HTML", x.as_string())
    if isinstance(x, HTMLDependency):
        return (
            "Dep",
            x.name,
            str(x.version),
            snap(x.source, d),
            snap(x.script, d),
            snap(x.stylesheet, d),
            snap(x.meta, d),
            x.all_files,
            snap(x.head, d),
        )
    if isinstance(x, SimMeta):
        return ("Meta", tuple(x.p))
    if isinstance(x, SimTfyRepr):
        return ("TfyRepr", x.s)
    if isinstance(x, SimTfy):
        if x._key is None:
            x._key = sha(json.dumps(x.spec, sort_keys=True))
        return ("Tfy", x._key)
    if isinstance(x, SimTfyRaw):
        return ("TfyRaw", x._key, None if x.stored is None else snap(x.stored, d))
    if isinstance(x, SimRepr):
        return ("Repr", x.s)
    if isinstance(x, str):
        return (type(x).__name__, str.__str__(x))
    if isinstance(x, dict):
        return ("dict",) + tuple((k, snap(v, d)) for k, v in x.items())
    if isinstance(x, list):
        return ("list",) + tuple(snap(v, d) for v in x)
    if isinstance(x, tuple):
        return ("tuple",) + tuple(snap(v, d) for v in x)
    if type(x).__name__ == "JSXTag":
        return (
            "JSX",
            x.name,
            tuple((k, snap(v, d)) for k, v in x.attrs.items()),
            tuple(snap(c, d) for c in x.children),
        )
    return (type(x).__name__, repr(x) if isinstance(x, (int, float, bool, type(None))) else "obj")


def diff(a, b, path="root"):
    """First difference between two snapshots, for messages."""
    if a == b:
        return "no difference"
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}: {str(a)[:200]} != {str(b)[:200]}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}.{i}")
    return f"{path}: {str(a)[:200]!r} != {str(b)[:200]!r}"


def own_nodes(x, out=None, dep_parts=True):
    """Tags, child lists, attribute maps and metadata nodes of a tree."""
    if out is None:
        out = {}
    if isinstance(x, Tag):
        if id(x) in out:
            return out
        out[id(x)] = ("tag " + x.name, x)
        out[id(x.attrs)] = ("attrs of " + x.name, x.attrs)
        own_nodes(x.children, out, dep_parts)
    elif isinstance(x, TagList):
        if id(x) in out:
            return out
        out[id(x)] = ("child list", x)
        out[id(x.data)] = ("child list data", x.data)
        for c in x:
            own_nodes(c, out, dep_parts)
    elif isinstance(x, MetadataNode):
        out[id(x)] = ("metadata node", x)
        if dep_parts and isinstance(x, HTMLDependency):
            for nm in ("script", "stylesheet", "meta"):
                v = getattr(x, nm)
                out[id(v)] = (f"dependency {nm} list", v)
                for item in v:
                    if isinstance(item, dict):
                        out[id(item)] = (f"dependency {nm} item", item)
            if x.head is not None:
                own_nodes(x.head, out, dep_parts)
    elif isinstance(x, list):
        for c in x:
            own_nodes(c, out, dep_parts)
    return out


def sha(s):
    import hashlib

    return hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:16]
