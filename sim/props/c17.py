"""C17: nested `with tag:` blocks, exceptions anywhere, process-global hook."""

from __future__ import annotations

import copy
import math
import sys
from collections import UserList

from .. import gen
from ..kernel import EXC, Injected, is_injected


# ------------------------------------------------------------------ generate
BAD = ["set", "dict", "object", "bytes", "complex", "module", "badlist", "deepbad", "frozenset", "gen",
       "eqtrue", "eqraise", "eqarray", "badafter", "dictlist", "range", "ellist"]
GOODV = ["text", "tag", "num", "list", "html", "repr", "tfy", "dep", "none", "ellipsis", "taglist",
         "both", "jsx", "bool", "nan", "eqrepr", "withrepr", "emptylist", "empty", "userlist", "activetag"]


def gen_value(r, allow_bad, shown=False):
    if allow_bad and r.random() < 0.15:
        return {"k": r.choice(BAD)}
    k = r.choice(GOODV)
    if k == "withrepr" and not shown:
        k = "repr"
    v = {"k": k}
    if k in ("text", "html", "repr", "both", "eqrepr", "withrepr"):
        v["s"] = gen.text(r, 2)
    if k == "withrepr":
        v["how"] = r.choice(["block", "block", "nested", "raise", "display", "reenter"])
    elif k == "num":
        v["v"] = gen.number(r)
    elif k in ("list", "taglist"):
        g = gen.TreeGen(r, depth=1)
        v["c"] = [g.node(1) for _ in range(r.randint(0, 3))]
    elif k == "tag":
        v["n"] = gen.TreeGen(r, depth=1).tag(1)
    elif k == "dep":
        v["d"] = gen.dep(r)
    elif k == "bool":
        v["v"] = r.random() < 0.5
    return v


def gen_body(r, cfg, depth):
    out = []
    n = r.randint(0 if depth < cfg["depth"] else 2, cfg["len"])
    if r.random() < 0.015:
        # a block with very many displayed values
        out += [{"k": "disp", "v": gen_value(r, False, True)} for _ in range(r.choice([9, 11, 17, 33, 66, 101]))]
    for _ in range(n):
        x = r.random()
        if x < 0.38:
            st = {"k": "disp", "v": gen_value(r, cfg["faulty"], True)}
            if cfg["faulty"]:
                gen.op_faults(r, st, 0.06, 0.08, r.choice([3, 10, 25]))
            out.append(st)
        elif x < 0.72 and depth > 0 and cfg["budget"] > 0:
            cfg["budget"] -= 1
            out.append(
                {
                    "k": "with",
                    "tag": r.randrange(cfg["tags"]) if r.random() < cfg["reuse"] else -1,
                    "name": r.choice(["div", "span", "b", "script", "br"]),
                    # a copy of one of the tags, whether its block is active or not
                    "copy": r.choice(["copy", "tagify"]) if r.random() < 0.08 else "",
                    "up": r.randint(-2, 2),
                    "pre": [gen_value(r, False)] if r.random() < 0.2 else [],
                    "body": gen_body(r, cfg, depth - 1),
                    "catch": r.random() < 0.55,
                }
            )
        elif x < 0.78 and cfg["faulty"]:
            out.append({"k": "raise", "exc": r.choice(sorted(EXC))})
        elif x < 0.84:
            st = {"k": "sethook", "raise": r.choice([0, 0, 0, 1, 2]) if cfg["faulty"] else 0}
            if st["raise"]:
                st.update(exc=r.choice(["RuntimeError", "TypeError", r.choice(sorted(EXC))]), down=r.random() < 0.3)
            out.append(st)
        elif x < 0.90:
            out.append({"k": "mutate", "v": gen_value(r, False), "up": r.randint(0, 2),
                        "how": r.choice(["append", "append", "extend", "insert", "replace", "replace", "clear", "pop", "iadd", "attrs", "name"])})
        elif x < 0.94:
            out.append({"k": "render", "up": r.randint(0, 2)})
        else:
            out.append({"k": "reenter", "up": r.randint(0, 3)})
    return out


def generate(r, tier):
    faulty = r.random() < 0.7
    cfg = {
        "len": r.choice([2, 3, 4, 6, 8]),
        "faulty": faulty,
        "budget": r.choice([3, 6, 12, 25]),
        "tags": r.choice([1, 2, 4]),
        "reuse": r.choice([0, 0.2, 0.6]),
    }
    depth = cfg["depth"] = r.choice([1, 2, 3, 4, 6, 10])
    return {
        "prog": gen_body(r, cfg, depth),
        "hook": r.choice(["rec", "rec", "wrap", "bound", "callable"]),
        "hookraise": r.choice([0, 0, 0, 1, 2, 4]) if faulty else 0,
        "hookexc": r.choice(["RuntimeError", "TypeError", r.choice(sorted(EXC))]),
        "hookdown": r.random() < 0.3,  # keeps failing
        "tags": cfg["tags"],
        "opcode": r.random() < 0.2,
    }


# ------------------------------------------------------------------- execute
class EqTrue:
    def __eq__(self, o):
        return True

    __hash__ = object.__hash__


class EqRaise:
    def __eq__(self, o):
        raise ZeroDivisionError("== is not defined for this object")

    __hash__ = object.__hash__


class _Arr:
    def __bool__(self):
        raise ValueError("truth value of an array is ambiguous")


class EqArray:
    """Element-wise ==, like numpy arrays."""

    def __eq__(self, o):
        return _Arr()

    __hash__ = object.__hash__


class Stop(Exception):
    """Raised by `raise` statements that carry no library exception."""


def execute(sim, plan):
    import htmltools as ht
    from htmltools import HTML, Tag, TagList

    from ..build import Env, SimMeta, SimRepr, SimTfy, SimTfyRepr, build, foreign

    class WithRepr(SimRepr):
        """Builds with blocks of its own while it is rendered."""

        def __init__(self, s, how):
            super().__init__(s)
            self.how = how
            self.calls = []  # the expected children that one call hands over

        def _repr_html_(self):
            if self.how == "display":
                sys.displayhook("shown by a repr")
                self.calls.append("shown by a repr")
            elif self.how == "reenter":
                if active:
                    try:
                        with active[-1]:
                            sim.violate("active-tag-entered-twice", "from a _repr_html_ method")
                    except Exception:
                        pass
            else:
                before = sys.displayhook
                t = Tag("u", "x")
                keep.append(t)
                model_kids[id(t)] = [Atom("x", "str"), Atom("in", "str")]
                try:
                    with t:
                        sys.displayhook("in")
                        if self.how == "nested":
                            with (i := Tag("i")):
                                sys.displayhook(None)
                            keep.append(i)
                            model_kids[id(i)] = []
                            model_kids[id(t)].append(Atom(i, "same"))
                        if self.how == "raise":
                            raise Stop()
                except Stop:
                    pass
                self.calls.append(t)
                sim.expect(sys.displayhook is before, "hook-not-restored", "after a block inside a _repr_html_ method")
            return super()._repr_html_()

    class EqRepr(SimRepr):
        def __eq__(self, o):
            return True

        __hash__ = object.__hash__

    env = Env()
    mk = lambda s: {"t": "text", "s": s}

    # ---- hooks --------------------------------------------------------------
    class Recorder:
        def __init__(self, name, raise_at=0, exc="RuntimeError", forever=False):
            self.name = name
            self.exc = exc
            self.forever = forever
            self.got = []
            self.raise_at = raise_at
            self.calls = 0

        def __call__(self, value):
            self.got.append(value)
            self.calls += 1
            if self.calls == self.raise_at or (self.forever and 0 < self.raise_at < self.calls):
                sim.fired["hook-raise:" + self.exc] += 1
                sim.fired["hook-raise"] += 1
                raise EXC[self.exc]("injected in display hook")

        def method(self, value):
            self(value)

    rec = Recorder("outer", plan["hookraise"], plan["hookexc"], plan["hookdown"])
    if plan["hook"] == "rec":
        hook0 = rec
    elif plan["hook"] == "wrap":
        hook0 = ht.wrap_displayhook_handler(rec)
    elif plan["hook"] == "bound":
        hook0 = rec.method
    else:
        hook0 = lambda v: rec(v)
    saved = sys.displayhook

    # model: stack of sinks; a sink is ("rec", recorder, model list, drops) or
    # ("tag", tag, model children)
    class Sink:
        def __init__(self, kind, obj, model, filters):
            self.kind, self.obj, self.model, self.filters = kind, obj, model, filters

    base = Sink("rec", rec, [], plan["hook"] == "wrap")
    hook_sink = [base]  # the sink behind the currently installed hook
    active = []  # tags whose block is active, innermost last
    pool = [Tag(["div", "span", "p", "b"][i % 4]) for i in range(plan["tags"])]
    model_kids = {}  # id(tag) -> list of expected children

    class Atom:
        """Expected child: same object, or equal text of the same kind."""

        def __init__(self, x, kind):
            self.x, self.kind = x, kind

        def ok(self, y):
            if self.kind == "same":
                return self.x is y
            if self.kind == "str":
                return type(y) is str and y == self.x
            return isinstance(y, HTML) and y.as_string() == self.x

        def __repr__(self):
            return f"{self.kind}:{type(self.x).__name__}:{str(self.x)[:40] if isinstance(self.x, str) else ''}"

    INVALID = object()

    def flat(x):
        """Expected nodes for one argument of append(); INVALID if rejected."""
        out = []
        if isinstance(x, (list, tuple, TagList)):
            for y in x:
                f = flat(y)
                if f is INVALID:
                    return INVALID
                out += f
            return out
        if x is None:
            return []
        if isinstance(x, (int, float)):
            return [Atom(str(x), "str")]
        if isinstance(x, str):
            return [Atom(x, "str")]
        if isinstance(x, HTML):
            return [Atom(x.as_string(), "html")]
        if isinstance(x, (Tag, ht.MetadataNode, SimRepr, SimTfy)) or hasattr(type(x), "tagify"):
            return [Atom(x, "same")]
        return INVALID

    def flat_display(x):
        if x is None or x is ...:
            return []
        if isinstance(x, (Tag, TagList)) or hasattr(type(x), "tagify"):
            return flat(x)
        if isinstance(x, SimRepr):
            return [Atom(x.s, "html")]
        return flat(x)

    def make(v):
        k = v["k"]
        if k in ("text",):
            return v["s"]
        if k == "empty":
            return ""
        if k == "html":
            return HTML(v["s"])
        if k == "repr":
            return SimRepr(v["s"])
        if k == "eqrepr":
            return EqRepr(v["s"])
        if k == "withrepr":
            return WithRepr(v["s"], v["how"])
        if k == "both":
            return SimTfyRepr(mk("e"), env, v["s"])
        if k == "tfy":
            return SimTfy(mk("e"), env)
        if k in ("num", "bool"):
            return v["v"]
        if k == "nan":
            return math.inf
        if k == "list":
            return [build(c, env) for c in v["c"]]
        if k == "taglist":
            return TagList(*[build(c, env) for c in v["c"]])
        if k == "userlist":
            return TagList("a", None, 1)
        if k == "tag":
            return build(v["n"], env)
        if k == "activetag":
            return Tag("i", "x")
        if k == "dep":
            return build({"t": "dep", "d": v["d"]}, env)
        if k == "none":
            return None
        if k == "ellipsis":
            return ...
        if k == "emptylist":
            return []
        if k == "jsx":
            from htmltools._jsx import JSXTag

            return JSXTag("Foo", "x")
        bad = {
            "set": lambda: {1, 2},
            "dict": lambda: {"class": "x"},
            "object": object,
            "bytes": lambda: b"x",
            "complex": lambda: 1j,
            "module": lambda: math,
            "badlist": lambda: ["ok", {"class": "x"}],
            "deepbad": lambda: ["ok", [1, ("x", [object()])], "tail"],
            "frozenset": lambda: frozenset([1]),
            "gen": lambda: (x for x in "ab"),
            "eqtrue": EqTrue,
            "eqraise": EqRaise,
            "eqarray": EqArray,
            "badafter": lambda: [TagList("a", Tag("b")), "x", object()],
            "dictlist": lambda: [{}],
            "range": lambda: range(3),
            "ellist": lambda: ["a", ...],
        }
        return bad[k]()

    def check_kids(tag, where):
        want = model_kids.get(id(tag), [])
        got = list(tag.children)
        good = len(want) == len(got) and all(a.ok(b) for a, b in zip(want, got))
        return sim.expect(
            good,
            "children-differ",
            lambda: f"{where}: expected children {want!r}, got {[type(x).__name__ for x in got]!r}",
        )

    def check_sink(s, where):
        if s.kind == "tag":
            return check_kids(s.obj, where)
        got, want = s.obj.got, s.model
        return sim.expect(
            len(got) == len(want) and all(a.ok(b) for a, b in zip(want, got)),
            "hook-deliveries-differ",
            lambda: f"{where}: hook {s.obj.name} expected {want!r} got {[type(x).__name__ for x in got]!r}",
        )

    def sync(tag):
        """Re-read a tag's children into the model after a relaxed operation."""
        model_kids[id(tag)] = [
            Atom(c, "str") if type(c) is str else Atom(c.as_string(), "html") if isinstance(c, HTML) else Atom(c, "same")
            for c in tag.children
        ]

    def do_display(v, st):
        s = hook_sink[0]
        # expected effect on the current sink
        if s.kind == "tag" or s.filters:
            exp = flat_display(v) if s.kind == "tag" else None
        else:
            exp = None
        if s.kind == "rec":
            if s.filters:
                if v is None or v is ...:
                    add = []
                elif isinstance(v, SimRepr):
                    add = [Atom(v.s, "html")]
                elif isinstance(v, HTML):
                    add = [Atom(v.as_string(), "html")]
                else:
                    add = [Atom(v, "same")]
            else:
                add = [Atom(v, "same")]
        before = sys.displayhook
        if isinstance(v, WithRepr):
            st = {k: x for k, x in st.items() if k != "int"}
        o = sim.call(before, v, op=st)
        if isinstance(v, WithRepr) and (s.kind == "tag" or s.filters):
            sim.probe("block-inside-repr")
            shown = [Atom(x, "str" if isinstance(x, str) and s.kind == "tag" else "same") for x in v.calls]
            if s.kind == "tag":
                exp = shown + exp
            else:
                add = shown + add
        sim.ev("disp", st["v"]["k"], o.kind)
        sim.expect(
            sys.displayhook is before, "hook-changed-by-display", "displaying a value replaced sys.displayhook"
        )
        if s.kind == "tag":
            kids = model_kids[id(s.obj)]
            if o.kind == "fault":
                # relaxed: a prefix of the value may have been stored
                got = list(s.obj.children)
                full = kids + (exp if exp is not INVALID else [])
                ok = len(kids) <= len(got) <= len(full) and all(a.ok(b) for a, b in zip(full, got))
                if sim.expect(ok, "interrupted-display-corrupts-children", lambda: f"{kids} {got}"):
                    sync(s.obj)
            elif exp is INVALID:
                sim.probe("invalid-value-displayed")
                sim.expect(
                    o.kind == "exc" and isinstance(o.exc, TypeError),
                    "invalid-value-not-rejected",
                    lambda: f"displaying {type(v).__name__} ended as {o!r}",
                )
                check_kids(s.obj, "after rejected value")
            else:
                if o.kind == "exc":
                    sim.violate("valid-value-rejected", f"{st['v']}: {o.exc!r}")
                else:
                    kids += exp
                    check_kids(s.obj, "after display of " + st["v"]["k"])
        else:
            if o.kind == "exc":
                if not s.filters:
                    raise o.exc
                sim.violate("valid-value-rejected", f"wrapped hook, {st['v']}: {o.exc!r}")
            elif o.kind == "fault" and ("int" in st or "cbf" in st or isinstance(v, WithRepr)):
                s.model[:] = [Atom(x, "same") for x in s.obj.got]
            else:
                s.model += add
                check_sink(s, "after display")
        if o.exc is not None:
            raise o.exc

    def do_enter_active(tag, where):
        """Entering an active tag must raise and change nothing."""
        before = sys.displayhook
        entered = False
        raised = None
        sim.probe("re-entered-active-tag")
        try:
            with tag:
                entered = True
                raise Stop()
        except Stop as e:
            raised = e
        except BaseException as e:
            raised = e
        sim.ev("reenter", entered, type(raised).__name__)
        sim.expect(not entered, "active-tag-entered-twice", where)
        sim.expect(
            sys.displayhook is before,
            "hook-chain-broken-by-reentry",
            "sys.displayhook differs after a rejected re-entry",
        )
        check_sink(hook_sink[0], "after re-entry")
        if not entered:
            raise raised

    def do_with(st):
        i = st["tag"]
        tag = pool[i % len(pool)] if i >= 0 else Tag(st["name"])
        if st.get("copy"):
            # A copy has not been entered, even if the block of the original is active
            up = st["up"]
            src = tag if up < 0 or not active else active[-1 - up % len(active)]
            o = sim.call((lambda: copy.copy(src)) if st["copy"] == "copy" else (lambda: src.tagify()))
            if not o.ok:
                return
            tag, i = o.value, -1
            keep.append(tag)
            sync(tag)
            check_kids(src, "after it was copied")
            sim.probe("copy-entered" if any(t is src for t in active) else "copy-of-inactive-entered")
        if any(t is tag for t in active):
            do_enter_active(tag, "with on an active tag")
            return
        used = getattr(tag, "_sim_used", False) if False else id(tag) in used_tags
        model_kids.setdefault(id(tag), [])
        for v in st.get("pre", []) if not st.get("copy") else []:
            if id(tag) in used_tags or i >= 0:
                break
            x = make(v)
            f = flat(x)
            if f is INVALID:
                continue
            tag.append(x)
            model_kids[id(tag)] += f
        keep.append(tag)
        before = sys.displayhook
        outer = hook_sink[0]
        entered = False
        exc = None
        body_exc = None
        try:
            with tag:
                entered = True
                used_tags.add(id(tag))
                active.append(tag)
                sim.probe("blocks-entered")
                if len(active) >= 4:
                    sim.probe("nesting-depth-4+")
                hook_sink[0] = Sink("tag", tag, None, False)
                try:
                    run(st["body"])
                except BaseException as e:
                    body_exc = e
                    raise
                finally:
                    active.pop()
                    hook_sink[0] = outer
        except BaseException as e:
            exc = e
        if not entered:
            # only legal for a tag that had been entered (and left) before
            sim.ev("enter-rejected")
            sim.expect(
                used and isinstance(exc, Exception) and not isinstance(exc, Stop),
                "fresh-tag-rejected",
                lambda: f"entering an inactive, never used tag raised {exc!r}",
            )
            sim.expect(
                sys.displayhook is before, "hook-chain-broken-by-reentry", "after a rejected second use"
            )
            check_sink(outer, "after rejected second use")
            if not st["catch"]:
                raise exc
            return
        sim.ev("exit", type(exc).__name__ if exc else None)
        if body_exc is not None:
            sim.probe("block-left-by-exception")
            sim.fired["exception-in-block"] += 1
        if not sim.expect(
            sys.displayhook is before,
            "hook-not-restored",
            lambda: f"after the block exits ({'exception ' + type(body_exc).__name__ if body_exc else 'normal'}) sys.displayhook is {sys.displayhook!r}",
        ):
            sys.displayhook = before
        if outer.kind == "tag":
            model_kids[id(outer.obj)].append(Atom(tag, "same"))
        else:
            outer.model.append(Atom(tag, "same"))
        check_sink(outer, "delivery on exit")
        check_kids(tag, "children after the block")
        if body_exc is not None:
            sim.expect(
                exc is not None and (exc is body_exc or is_injected(exc)),
                "exception-lost",
                lambda: f"block raised {body_exc!r}, with statement ended with {exc!r}",
            )
        elif exc is not None and not isinstance(exc, Injected):
            sim.violate("exit-raised", repr(exc))
        if exc is not None and not st["catch"]:
            raise exc

    used_tags = set()
    keep = []
    hooks_made = []

    def run(stmts):
        for st in stmts:
            k = st["k"]
            if k == "disp":
                do_display(make(st["v"]), st)
            elif k == "with":
                do_with(st)
            elif k == "raise":
                sim.fired["raise:" + st["exc"]] += 1
                raise EXC[st["exc"]]("injected in block")
            elif k == "sethook":
                r2 = Recorder("inner%d" % len(hooks_made), st.get("raise", 0), st.get("exc", "RuntimeError"), st.get("down", False))
                hooks_made.append(Sink("rec", r2, [], False))
                if active:
                    # the user's own hook, until this block exits
                    sys.displayhook = r2
                    hook_sink[0] = hooks_made[-1]
                    sim.probe("hook-replaced-inside-block")
            elif k == "mutate":
                if active:
                    t = active[-1 - st["up"] % len(active)]
                    x = make(st["v"])
                    f = flat(x)
                    kids = model_kids[id(t)]
                    how = st.get("how", "append")
                    if f is INVALID:
                        pass
                    elif how == "append":
                        t.append(x)
                        kids += f
                    elif how == "extend":
                        t.extend([x])
                        kids += f
                    elif how == "insert":
                        t.insert(0, x)
                        kids[:0] = f
                    elif how == "replace":
                        # another list object takes the place of the old one
                        t.children = TagList(*t.children, x)
                        kids += f
                    elif how == "iadd":
                        t.children += [x]
                        kids += f
                    elif how == "clear":
                        t.children.clear()
                        del kids[:]
                    elif how == "pop":
                        if kids:
                            t.children.pop(0)
                            del kids[0]
                    elif how == "attrs":
                        t.attrs = type(t.attrs)(id="x")
                    elif how == "name":
                        t.name = "section"
                    sim.probe("changed-in-block-by-" + how)
                    check_kids(t, "after a direct change")
            elif k == "render":
                if active:
                    t = active[-1 - st["up"] % len(active)]
                    before = sys.displayhook
                    sim.call(lambda: t.render())
                    sim.call(lambda: t.tagify())
                    sim.expect(sys.displayhook is before, "hook-changed-by-render", "")
                    check_kids(t, "after render in block")
            elif k == "reenter":
                if active:
                    t = active[-1 - st["up"] % len(active)]
                    try:
                        do_enter_active(t, "re-entering an active tag")
                    except Exception:
                        pass

    try:
        sys.displayhook = hook0
        end = None
        try:
            run(plan["prog"])
        except BaseException as e:
            end = e
        sim.ev("end", type(end).__name__ if end else None)
        if end is not None and not isinstance(end, (Injected, Stop, TypeError, RuntimeError, ValueError, ZeroDivisionError)):
            raise end
        if end is not None and not isinstance(end, Injected):
            from ..kernel import in_library

            if not in_library(end):
                raise end
        sim.expect(
            sys.displayhook is hook0, "hook-not-restored", "at the end of the program the original hook is not installed"
        )
        check_sink(base, "end of program")
        for t in keep:
            check_kids(t, "end of program")
        for h in hooks_made:
            check_sink(h, "end of program")
    finally:
        sys.displayhook = saved
