"""C16: class and style helpers, and css(), act as a token set / declaration algebra.

Histories of add_class / remove_class / has_class / add_style / css() mixed with
direct attribute changes and copies, on the tags of each task; a further tag and
the css() values are shared by all tasks for reading.  After every operation every
tag's rendered class and style attributes are decoded by an independent parser and
compared with a model (list of tokens, list of declaration strings).
"""

from __future__ import annotations

import copy as _copy
import html as _html
from html.parser import HTMLParser

from htmltools import HTML, Tag, css

from .. import gen
from ..build import foreign
from ..kernel import HarnessError, setup_failed

PLAIN = [
    "foo", "foobar", "foo-x", "fo", "o", "a", "b", "ab", "FOO", "a&b", "a&amp;b", "[&>p]:mt-0", "md:w-1/2",
    'q"x', "it's", "\u00e9", "\u65e5\u672c", "x<y", "&copy", "&#10;", "a;b", "-", "_", "0", "None", "foo.bar", "\\d", "$",
]
RAW = ["foo", "a", "b", "r1", "foo-x", "m&amp;n", "p&lt;q", "u&#43;v"]
WS = [" ", " ", " ", "  ", "\t", "\n", "\r\n", "\f"]
STYLES = [
    "color:red;", "color: blue;", "a:b;c:d;", "content:\"x\";", "background:url('a?b&c');", ";", "--x:{&};", "font-family:\u00e9;",
    "a:b;\n;", "x:1 ;",
]
BADSTYLES = ["color:red", "", " ", "a:b; ", "a:b;\n", ";x", "a:b;c:d", "\u037e"]
RAWSTYLES = ["color:red;", "m:&quot;x&quot;;", "n:&amp;;"]
CSSNAMES = [
    "color", "font_size", "fontSize", "backgroundColor", "background_color", "margin_top", "x", "_x", "a__b", "x_",
    "WebkitTransition", "aB", "borderTopLeftRadius", "z1", "gridArea", "line_height", "a1B2", "--y",
]


# ---------------------------------------------------------------- generation
def gen_class(r, toks):
    """Text of a class attribute or argument: tokens and white space."""
    n = gen.count(r, [0, 1, 1, 2, 3, 5])
    s = "".join(r.choice(toks) + r.choice(WS) for _ in range(n))
    if r.random() < 0.6:
        s = s.strip()
    if r.random() < 0.2:
        s = r.choice(WS) + s
    return s


def gen_arg(r, toks, raws, html):
    """One token, sometimes with white space around it, sometimes HTML()."""
    h = r.random() < html
    s = r.choice(raws if h else toks)
    if r.random() < 0.1:
        s = r.choice(WS) + s + r.choice(WS)
    return {"h": s} if h else {"s": s}


def gen_css_v(r):
    k = r.random()
    if k < 0.2:
        return {"z": 0}
    if k < 0.5:
        return {"s": r.choice(["12px", "red", "", "a b", "url(\"x\")", "&", "\u00e9", ";", " ", "x;", "\n", "A_B"])}
    if k < 0.7:
        return {"n": gen.number(r)}
    if k < 0.76:
        return {"b": r.random() < 0.5}
    if k < 0.9:
        return {"l": [r.choice(["a", "b", "0 auto", ""]) for _ in range(gen.count(r, [0, 1, 2, 3], most=40))]}
    return {"f": r.choice(["7em", "blue", ""])}


def css_word(r):
    """Any mixture of the ways to write a name."""
    n = "".join(r.choice(["a", "b", "bc", "x1", "9", "A", "Z", "BC", "_", "_", "Top"]) for _ in range(gen.count(r, [1, 2, 3, 5, 8])))
    return n if n not in ("collapse_", "_collapse") else "x"


def gen_css(r):
    names = list(dict.fromkeys(r.choice(CSSNAMES) if r.random() < 0.6 else css_word(r) for _ in range(gen.count(r, [0, 1, 2, 3, 6], most=40))))
    return {"kw": [[n, gen_css_v(r)] for n in names]}


def gen_op(r, toks, raws, html):
    k = r.choice(["add", "add", "add", "rm", "rm", "rm", "has", "style", "style", "css", "addcss", "attr", "copy", "shared", "new"])
    op = {"k": k, "o": r.randrange(4)}
    if k in ("add", "rm", "has", "shared"):
        op["v"] = gen_arg(r, toks, raws, html)
        if k == "add" and r.random() < 0.12:
            op["v"] = {"s": gen_class(r, toks)}
        if k == "rm" and r.random() < 0.06:
            op["v"] = {"s": r.choice(["", "a b", "foo foo", " "])}
    if k in ("add", "style", "addcss"):
        op["pre"] = r.random() < 0.4
    if k == "style":
        x = r.random()
        op["v"] = {"h": r.choice(RAWSTYLES)} if x < html else {"s": r.choice(BADSTYLES)} if x < 0.45 else {"s": "".join(r.choice(STYLES) for _ in range(gen.count(r, [1], p=0.03)))}
        if r.random() < 0.06:
            op["v"] = {"h": r.choice(["color:red", "", ";a"])}
    if k in ("css", "addcss"):
        op["css"] = gen_css(r)
        op["col"] = r.choice([None, None, "", "\n", " ", ";;"]) if k == "css" else None
    if k == "attr":
        op["n"] = r.choice(["class", "class_", "style", "id"])
        op["how"] = r.choice(["set", "update", "del", "pop"])
        op["v"] = gen_value(r, op["n"], toks, raws, html)
    if k == "new":
        op["init"] = gen_init(r, toks, raws, html)
    return gen.op_faults(r, op, 0.08, 0.1, scale=r.choice([2, 5, 12, 40]))


def gen_value(r, name, toks, raws, html):
    if name == "style":
        return {"h": r.choice(RAWSTYLES)} if r.random() < html else {"s": r.choice(STYLES + ["color:red", "", " x "])}
    if name == "id":
        return {"s": r.choice(["i", "foo", "a b"])}
    if r.random() < html:
        return {"h": gen_class(r, raws)}
    return {"s": gen_class(r, toks)}


def gen_init(r, toks, raws, html):
    out = []
    if r.random() < 0.3:
        out.append(["id", {"s": "i"}])
    for _ in range(r.choice([0, 1, 1, 2])):
        out.append(["class", gen_value(r, "class", toks, raws, html)])
    for _ in range(r.choice([0, 0, 1, 2])):
        out.append(["style", gen_value(r, "style", toks, raws, html)])
    if r.random() < 0.3:
        out.append(["data-x", {"s": "foo foobar"}])
    return out


def generate(r, tier):
    toks = PLAIN if r.random() < 0.35 else r.sample(PLAIN, r.choice([2, 3, 5]))
    if r.random() < 0.5:
        toks = list(dict.fromkeys(["foo", "foobar"] + toks))
    raws = RAW if r.random() < 0.5 else r.sample(RAW, 3)
    if r.random() < 0.03:
        toks = toks + ["t%d" % i for i in range(r.choice([12, 30, 80]))]
    html = r.choice([0, 0, 0.1, 0.3])
    nt = r.choice([1, 1, 2, 3])
    return {
        "shared": gen_init(r, toks, raws, html),
        "init": [gen_init(r, toks, raws, html) for _ in range(nt)],
        "tasks": [[gen_op(r, toks, raws, html) for _ in range(r.choice([3, 6, 12, 20]))] for _ in range(nt)],
        "sched": gen.schedule(r, nt) if nt > 1 else [],
        "opcode": nt > 1 and r.random() < 0.25,
    }


# --------------------------------------------------------------------- model
class SimVal:
    """A css() value that is foreign code."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        foreign("str")
        return self.s


def arg(v):
    return HTML(v["h"]) if "h" in v else v["s"]


def toks_of(v):
    return [("h", t) for t in v["h"].split()] if "h" in v else [("s", t) for t in v["s"].split()]


def decoded(tok):
    return _html.unescape(tok[1]) if tok[0] == "h" else tok[1]


def css_value(v):
    if "s" in v:
        return v["s"]
    if "n" in v:
        return v["n"]
    if "b" in v:
        return v["b"]
    if "l" in v:
        return list(v["l"])
    if "f" in v:
        return SimVal(v["f"])
    return None


def css_text(v):
    if "s" in v:
        return v["s"]
    if "n" in v:
        return str(v["n"])
    if "b" in v:
        return str(v["b"])
    if "l" in v:
        return " ".join(v["l"])
    if "f" in v:
        return v["f"]
    return None


def css_name(n):
    out = ""
    for c in n:
        if c == "_":
            out += "-"
        elif "A" <= c <= "Z":
            out += "-" + c.lower()
        else:
            out += c
    return out


class P(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, attrs))


def parse(s):
    p = P()
    p.feed(s)
    p.close()
    return p.tags


class M:
    """cls: list of tokens or None; style: list of decoded strings or None."""

    def __init__(self):
        self.cls = None
        self.style = None
        self.other = {}

    def clone(self):
        m = M()
        m.cls = None if self.cls is None else list(self.cls)
        m.style = None if self.style is None else list(self.style)
        m.other = dict(self.other)
        return m

    def put(self, name, v):
        if name in ("class", "class_"):
            self.cls = toks_of(v)
        elif name == "style":
            self.style = [_html.unescape(v["h"]) if "h" in v else v["s"]]
        else:
            self.other[name] = v["s"]

    def merged(self, pairs):
        for n, v in pairs:
            if n == "class" and self.cls is not None:
                self.cls = self.cls + toks_of(v)
            elif n == "style" and self.style is not None:
                self.style.append(_html.unescape(v["h"]) if "h" in v else v["s"])
            else:
                self.put(n, v)
        return self


def execute(sim, plan):
    kids = ["text", Tag("b", "x")]

    class H:
        def __init__(self, tag, model):
            self.tag, self.m = tag, model

    def make(pairs):
        o = sim.call(lambda: Tag("div", *[{n: arg(v)} for n, v in pairs], *kids))
        if not o.ok:
            setup_failed(sim, o)
        return H(o.value, M().merged(pairs))

    def observe(h):
        """(class tokens | None, style text | None, other attributes) as a parser sees them."""
        s = h.tag.get_html_string()
        tags = parse(s)
        if not tags or tags[0][0] != "div":
            return None
        d = {}
        for k, v in tags[0][1]:
            if k in d:
                return None
            d[k] = v or ""
        c = d.pop("class", None)
        st = d.pop("style", None)
        return (None if c is None else c.split(), st, d)

    def matches(m, got):
        if got is None:
            return "the start tag does not parse"
        c, st, other = got
        if m.cls:
            if c != [decoded(t) for t in m.cls]:
                return f"class tokens {c!r}, expected {[decoded(t) for t in m.cls]!r}"
        elif m.cls is None:
            if c:
                return f"class tokens {c!r}, expected no class attribute"
        elif c:
            return f"class tokens {c!r}, expected none"
        if m.style is None:
            if st:
                return f"style {st!r}, expected none"
        elif (st or "").replace("\r\n", "\n") != " ".join(m.style).replace("\r\n", "\n"):
            return f"style {st!r}, expected {' '.join(m.style)!r}"
        if other != m.other:
            return f"other attributes {other!r}, expected {m.other!r}"
        return None

    def resync(h):
        a = h.tag.attrs
        m = M()
        for k, v in a.items():
            m.put(k, {"h": v.as_string()} if isinstance(v, HTML) else {"s": str(v)})
        h.m = m

    def check(h, where, cls="class-or-style-differs"):
        why = matches(h.m, observe(h))
        if why is not None:
            sim.violate(cls, f"{where}: {why}; attrs {dict(h.tag.attrs)!r}"[:1500])
            resync(h)
            return False
        k = h.tag.children
        if not sim.expect(len(k) == 2 and k[0] == "text" and k[1] is kids[1] and h.tag.name == "div", "tag-disturbed", lambda: f"{where}: {list(k)!r}"):
            return False
        return True

    shared = make(plan["shared"])
    shared_before = dict(shared.tag.attrs)

    def expect_has(m, v):
        """True / False / None (not judged)."""
        a = v.get("h", v.get("s"))
        if a != a.strip() or not a:
            return None
        for t in m.cls or []:
            if t == ("s", a) and "s" in v or decoded(t) == a == t[1]:
                return True
        for t in m.cls or []:
            if a in (t[1], decoded(t)) or _html.unescape(a) in (t[1], decoded(t)):
                return None
        return False

    def has(h, v, op, where):
        o = sim.call(h.tag.has_class, arg(v), op=op)
        if o.kind == "exc":
            sim.violate("has-class-raised", f"{where}: {o.exc!r}")
        elif o.ok:
            want = expect_has(h.m, v)
            sim.ev("has", bool(o.value))
            if want is not None:
                sim.expect(o.value is want, "has-class-differs", lambda: f"{where}: {o.value!r}, expected {want}; attrs {dict(h.tag.attrs)!r}")
                sim.probe(f"has-{want}")

    def finish(t, h, new, o, where):
        """new: the model after the operation."""
        sim.ev(where, o.kind)
        if o.kind == "exc":
            sim.violate("valid-call-rejected", f"{where}: {o.exc!r}; attrs {dict(h.tag.attrs)!r}")
            return False
        if o.kind == "fault":
            got = observe(h)
            if matches(h.m, got) is not None and matches(new, got) is not None:
                sim.violate("interrupted-call-corrupts", f"{where}: {matches(h.m, got)}; attrs {dict(h.tag.attrs)!r}"[:1500])
                resync(h)
            elif matches(h.m, got) is not None:
                h.m = new
            return False
        h.m = new
        return True

    def exec_op(t, op):
        own = t.local.get("own")
        if own is None:
            own = t.local["own"] = [make(plan["init"][t.index % len(plan["init"])])]
            check(own[0], "construction")
        h = own[op["o"] % len(own)]
        k = op["k"]
        if k == "new":
            g = make(op["init"])
            if check(g, f"construction {op['init']!r}"):
                own.append(g)
                del own[:-4]
            return
        if k == "copy":
            o = sim.call(lambda: _copy.copy(h.tag), op=op)
            if o.ok:
                sim.probe("copied")
                own.append(H(o.value, h.m.clone()))
                del own[:-4]
            elif o.kind == "exc":
                sim.violate("copy-raised", repr(o.exc))
        elif k == "shared":
            has(shared, op["v"], op, f"has_class({op['v']}) on the shared tag")
        elif k == "has":
            has(h, op["v"], op, f"has_class({op['v']})")
        elif k == "add":
            a = arg(op["v"])
            new = h.m.clone()
            add = toks_of(op["v"])
            new.cls = add + (new.cls or []) if op["pre"] else (new.cls or []) + add
            where = f"add_class({a!r}, prepend={op['pre']})"
            kw = {"prepend": True} if op["pre"] else {}
            o = sim.call(lambda: h.tag.add_class(a, **kw), op=op)
            if finish(t, h, new, o, where):
                sim.expect(o.value is h.tag, "returns-another-tag", where)
                if len(add) == 1:
                    o2 = sim.call(h.tag.has_class, add[0][1])
                    sim.expect(
                        o2.ok and (o2.value is True or (add[0][0] == "h" and "&" in add[0][1])),
                        "added-class-not-found",
                        lambda: f"{where}: has_class -> {o2!r}; attrs {dict(h.tag.attrs)!r}",
                    )
        elif k == "rm":
            a = arg(op["v"])
            raw = op["v"].get("h", op["v"].get("s")).strip()
            new = h.m.clone()
            if new.cls is not None:
                new.cls = [x for x in new.cls if not ((decoded(x) == raw if "s" in op["v"] else x[1] == raw or decoded(x) == raw))]
                if len(h.m.cls or []) > len(new.cls):
                    sim.probe("removed")
                    if len(h.m.cls) - len(new.cls) > 1:
                        sim.probe("removed-several-occurrences")
                    if not new.cls:
                        sim.probe("removed-the-last-token")
            where = f"remove_class({a!r})"
            emptied = bool(h.m.cls) and not new.cls
            before = dict(h.tag.attrs)
            o = sim.call(h.tag.remove_class, a, op=op)
            if finish(t, h, new, o, where):
                sim.expect(o.value is h.tag, "returns-another-tag", where)
                if emptied:
                    sim.expect("class" not in h.tag.attrs, "empty-class-attribute-kept", lambda: f"{where}: {dict(h.tag.attrs)!r}")
                    new.cls = None
                elif before.get("class") is not None and new.cls:
                    sim.expect("class" in h.tag.attrs, "class-attribute-lost", where)
        elif k in ("style", "addcss"):
            if k == "addcss":
                a, txt, bad = do_css(op, None)
                if a is NotImplemented:
                    return
                v = {"s": a} if a is not None else {"z": 0}
                op = {}
                sim.probe("css-to-add_style")
                pre = plan_pre = None
                pre = t.ops[t.op_index].get("pre")
            else:
                a, v, pre = arg(op["v"]), op["v"], op["pre"]
                bad = not (v.get("h", v.get("s"))).endswith(";")
            new = h.m.clone()
            where = f"add_style({a!r}, prepend={pre})"
            if a is not None and not bad:
                one = [_html.unescape(v["h"]) if "h" in v else v["s"]]
                new.style = one + (new.style or []) if pre else (new.style or []) + one
            kw = {"prepend": True} if pre else {}
            before = dict(h.tag.attrs)
            o = sim.call(lambda: h.tag.add_style(a, **kw), op=op)
            if bad:
                sim.probe("style-without-semicolon")
                sim.expect(o.kind == "fault" or (o.kind == "exc" and isinstance(o.exc, ValueError)), "bad-style-accepted", lambda: f"{where}: {o!r}")
                sim.expect(dict(h.tag.attrs) == before, "rejected-style-modifies", lambda: f"{where}: {before!r} -> {dict(h.tag.attrs)!r}")
                sim.ev(where, o.kind)
            elif finish(t, h, new, o, where):
                sim.expect(o.value is h.tag, "returns-another-tag", where)
        elif k == "css":
            do_css(op, op["col"])
        elif k == "attr":
            n, v, how = op["n"], op["v"], op["how"]
            new = h.m.clone()
            nn = n.rstrip("_")
            if how in ("del", "pop"):
                if nn not in h.tag.attrs:
                    return
                h.tag.attrs.pop(nn) if how == "pop" else h.tag.attrs.__delitem__(nn)
                if nn == "class":
                    new.cls = None
                elif nn == "style":
                    new.style = None
                else:
                    new.other.pop(nn, None)
                o = sim.call(lambda: None)
            else:
                new.put(nn, v)
                fn = (lambda: h.tag.attrs.__setitem__(n, arg(v))) if how == "set" else (lambda: h.tag.attrs.update({n: arg(v)}))
                o = sim.call(fn, op=op)
            finish(t, h, new, o, f"attrs {how} {n}={v}")
        else:
            raise HarnessError(k)
        for g in own:
            if not check(g, f"after {k} {op.get('v', '')}"):
                break
        sim.probe("operations-checked")

    def do_css(op, col):
        """-> (result, its text, False) or (NotImplemented, ...) after a fault."""
        kw = {n: css_value(v) for n, v in op["css"]["kw"]}
        c = col or ""
        want = "".join(f"{css_name(n)}:{css_text(v)};{c}" for n, v in op["css"]["kw"] if css_text(v) is not None)
        lists = [list(v) for v in kw.values() if isinstance(v, list)]
        o = sim.call(lambda: css(**kw) if col is None else css(col, **kw), op=op)
        where = f"css({op['css']['kw']!r}, collapse_={col!r})"
        sim.ev("css", o.kind, want)
        if o.kind == "exc":
            sim.violate("css-raised", f"{where}: {o.exc!r}")
            return NotImplemented, None, None
        if not o.ok:
            return NotImplemented, None, None
        none = all(css_text(v) is None for _, v in op["css"]["kw"])
        if none:
            sim.probe("css-none")
            sim.expect(o.value is None, "css-differs", lambda: f"{where} -> {o.value!r}, expected None")
        else:
            sim.expect(o.value == want, "css-differs", lambda: f"{where} -> {o.value!r}, expected {want!r}")
        sim.expect(lists == [v for v in kw.values() if isinstance(v, list)], "css-changes-argument", where)
        v = o.value
        return v, v, False

    sim.run_tasks(plan["tasks"], plan["sched"], exec_op)
    sim.expect(dict(shared.tag.attrs) == shared_before, "shared-tag-changed", "a tag that was only read changed")
