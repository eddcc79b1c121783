"""Re-entrancy: what foreign code does with the library while the library calls it.

A component's tagify(), an object's _repr_html_() or __str__, an argument iterator or
a display hook may build and render things of its own.  These operations run inside
callbacks of the operation under test, are preempted and interrupted like it, and must
have the same result every time, and once more after everything else is over.
"""

from __future__ import annotations

import copy


def _dep(ht, name="n", ver="1.0", **kw):
    return ht.HTMLDependency(name, ver, source={"href": "https://e.com/x"}, script={"src": "a b.js"}, head="<z>", **kw)


def _str(ht):
    t = ht.Tag("div", ht.Tag("b", "<x>", {"class": "a b"}), ht.HTML("&amp;"), [1, None, "\u00e9", ht.Tag("i", ht.Tag("u"), _add_ws=False)], id="i", data_x=True)
    return str(t) + repr(ht.TagList("a", t, ht.Tag("script", "1 < 2"))) + t.get_html_string(2, "\r\n")


def _doc(ht):
    r = ht.HTMLDocument(ht.Tag("p", "x", _dep(ht)), _dep(ht, "m"), ht.head_content(ht.Tag("title", "t&")), _dep(ht, "n", "1.1"), lang="en").render()
    return r["html"], [(d.name, str(d.version)) for d in r["dependencies"]]


def _deps(ht):
    t = ht.TagList(ht.Tag("p", *[_dep(ht, n, v) for n, v in (("b", "1.10"), ("a", "1"), ("b", "1.9"), ("c", "2"))]), _dep(ht, "a", "1.0.1"))
    return [(d.name, str(d.version)) for d in t.get_dependencies()], len(t.get_dependencies(dedup=False))


def _html(ht):
    x = "<" + ht.HTML("<b>") + "&" + ht.HTML("&")
    x += ">"
    return str(x), type(x).__name__, str(ht.Tag("p", x, "&", title=x))


def _list(ht):
    x = ht.TagList("a", [1, (2.5, None)], ht.TagList("b"))
    x.append("c", ["d"])
    x.insert(1, ["e", 3])
    x = ["f"] + x + ("g", None)
    x += [["h"]]
    return [(type(i).__name__, str(i)) for i in x[1:] * 2]


def _attrs(ht):
    t = ht.Tag("p", {"class": "a", "x_y_": 1}, {"class_": "b", "z": None}, class_="c", for_=True)
    t.attrs.update({"x-y": 2.5}, {"x_y": ht.HTML("&")})
    a, c = ht.consolidate_attrs({"class": "a"}, "k", class_="b", q=False)
    return list(t.attrs.items()).__repr__(), repr(a), repr(c)


def _css(ht):
    t = ht.Tag("p", class_="foo bar").add_class("baz").add_class("a&b", prepend=True).remove_class("foo").add_style("a:b;")
    s = ht.css(font_size="1px", backgroundColor=None, margin_top=0)
    return str(t.add_style(s, prepend=True)), s, t.has_class("bar"), t.has_class("ba")


def _text(ht):
    d = _dep(ht, "q</script>")
    x = "<a>" + str(d.serialize_to_script_json()) + "@@x@@"
    r = ht.HTMLTextDocument(x, [_dep(ht)], deps_replace_pattern="@@").render()
    return r["html"], [i.name for i in r["dependencies"]]


def _dict(ht):
    d = _dep(ht, meta={"name": "m", "content": "c"}, stylesheet=[{"href": "\u00e9.css"}])
    e = ht.HTMLDependency("l", "2", source={"subdir": "x"}, script={"src": "a#b.js"})
    return repr(d.as_dict()), repr(e.as_dict(lib_prefix="li b", include_version=False)), str(e.as_html_tags())


def _jsx(ht):
    from htmltools._jsx import JSXTag, jsx

    x = JSXTag("My.Foo", "a'", ht.Tag("b", "<", class_="k"), _dep(ht), JSXTag("In", 1), class_="x", on_x=jsx("() => 1"), data_a={"b": [1, True, None]})
    t = x.tagify()
    return t.get_html_string(), [d.name for d in t.get_dependencies()], x == x, len(x.children)


def _head(ht):
    return ht.head_content("x", ht.Tag("b", "y")).name, ht.head_content("x", ht.Tag("b", "z")).name


def _copy(ht):
    t = ht.Tag("p", ht.TagList("a", _dep(ht)), ht.Tag("i"), x=1)
    a, b = copy.copy(t), t.tagify()
    b.append("z")
    a.attrs["x"] = "2"
    return a == t, b == t, t == copy.copy(t), t == t.tagify().tagify(), t.get_html_string()


DO = {"str": _str, "doc": _doc, "deps": _deps, "html": _html, "list": _list, "attrs": _attrs, "css": _css, "text": _text, "dict": _dict, "jsx": _jsx, "head": _head, "copy": _copy}
JUDGED = {
    "C04": ["str", "html", "doc"], "C08": ["str", "doc", "deps", "dict", "copy", "text", "head"], "C09": ["str", "doc", "copy"], "C11": ["doc", "deps"], "C12": ["dict"],
    "C13": ["text"], "C14": ["list"], "C15": ["attrs"], "C16": ["css"], "C17": [], "C18": sorted(DO), "C20": ["jsx"],
}


def choose(r, prop):
    """What the foreign code of one run does, or nothing."""
    if r.random() >= 0.25:
        return None
    own = JUDGED[prop] or sorted(DO)
    return {"every": r.choice([1, 1, 2, 3, 5]), "k": [r.choice(own) if r.random() < 0.7 else r.choice(sorted(DO)) for _ in range(r.choice([1, 1, 2, 3]))]}


def do(kind):
    import htmltools as ht

    return repr(DO[kind](ht))
