"""C14: child lists hold only normalised nodes after any sequence of operations.

Each task owns lists and tags and applies a history of child operations to them;
argument objects (nested lists, shared nodes, foreign iterables) are shared by all
tasks.  After every operation every list of the task is compared with a model.
"""

from __future__ import annotations

import math
from collections import UserList, UserString, deque
from decimal import Decimal

import htmltools as ht
from htmltools import HTML, Tag, TagList, is_tag_child, is_tag_node

from .. import gen
from ..build import Env, SimRepr, SimTfy, build, foreign
from ..kernel import HarnessError

OPS = ["append", "append", "append*", "extend", "extend", "insert", "insert", "add", "add", "radd", "radd", "iadd", "iadd", "slice", "mul",
       "rmul", "imul", "new", "newtag", "copy", "argmut"]
INVALID = ["set", "dict", "object", "bytes", "complex", "module", "ellipsis", "gen", "range", "userlist", "userstring", "decimal",
           "bytearray", "func", "deque", "dictkeys", "frozenset", "emptydict", "emptyset"]


# ---------------------------------------------------------------- generation
def gen_val(r, depth, npool, nown, bad):
    x = r.random()
    if depth > 1 and x < 0.015:
        v = gen_val(r, 1, npool, nown, bad)
        for _ in range(r.choice([4, 8, 20, 60])):
            side = [gen_val(r, 0, npool, nown, False)] if r.random() < 0.3 else []
            v = {"v": r.choice(["list", "tuple", "taglist"]), "c": side + [v] if r.random() < 0.5 else [v] + side}
        return v
    if depth > 0 and x < 0.28:
        return {"v": r.choice(["list", "list", "tuple", "taglist", "listsub", "ntuple"]),
                "c": gen_vals(r, depth - 1, npool, nown, bad)}
    if x < 0.34:
        return {"v": "none"}
    if x < 0.48:
        return {"v": "num", "n": r.choice([True, False, "inf", "nan"]) if r.random() < 0.25 else gen.number(r)}
    if x < 0.53:
        return {"v": "intsub", "n": r.randint(-5, 5)}
    if x < 0.68:
        return {"v": "str", "s": gen.text(r, 3)}
    if x < 0.72:
        return {"v": r.choice(["strsub", "jsx"]), "s": gen.text(r, 2)}
    if x < 0.80:
        return {"v": "html", "s": gen.markup(r)}
    if x < 0.86:
        return {"v": r.choice(["tag", "repr", "tfy", "dep", "meta", "jsxtag"])}
    if x < 0.92 and npool:
        return {"v": "pool", "i": r.randrange(npool)}
    if x < 0.96 and nown:
        return {"v": "own", "i": r.randrange(4)}
    if bad and x < 0.985:
        return {"v": "bad", "k": r.choice(INVALID)}
    return {"v": "str", "s": ""}


def gen_vals(r, depth, npool, nown, bad, usual=(0, 1, 2, 3)):
    n = gen.count(r, usual)
    if n > 8:
        depth, bad = 0, bad and r.random() < 0.3
    return [gen_val(r, depth, npool, nown, bad) for _ in range(n)]


def gen_iter(r, npool, bad):
    """The argument of extend / + / += : an iterable."""
    x = r.random()
    if x < 0.12:
        return {"v": "str", "s": gen.text(r, 3)}
    if x < 0.2:
        return {"v": "html", "s": gen.markup(r)}
    if x < 0.5:
        return {"v": r.choice(["list", "list", "tuple", "taglist"]), "c": gen_vals(r, 2, npool, True, bad)}
    if x < 0.62:
        return {"v": "own", "i": r.randrange(4)}
    if x < 0.8:
        return {"v": r.choice(["iter", "iterable"]), "c": gen_vals(r, 1, npool, True, bad, (0, 1, 2, 4))}
    if npool:
        return {"v": "pool", "i": r.randrange(npool)}
    return {"v": "list", "c": []}


def gen_op(r, npool, bad):
    k = r.choice(OPS)
    op = {"k": k, "o": r.randrange(4)}
    if k in ("extend", "add", "radd", "iadd"):
        op["x"] = gen_iter(r, npool, bad)
        if k == "radd" and op["x"]["v"] in ("html", "taglist", "own"):
            op["x"]["v"] = "list" if "c" in op["x"] else "str"
            op["x"].setdefault("s", "q")
    elif k in ("append*", "new", "newtag"):
        op["x"] = {"v": "list", "c": gen_vals(r, 2, npool, True, bad, (1, 2, 3, 4) if k == "append*" else (0, 1, 2, 3))}
    elif k in ("append", "insert", "argmut"):
        op["x"] = gen_val(r, 2, npool, True, bad)
    if k == "insert":
        op["i"] = r.choice([0, 0, 1, 2, 5, 100, -1, -2, -100])
        op["idx"] = r.random() < 0.1
    if k == "slice":
        op["s"] = [r.choice([None, 0, 1, 2, -1, -2]), r.choice([None, 0, 1, 3, -1]), r.choice([None, None, 1, 2, -1])]
    if k in ("mul", "rmul", "imul"):
        op["n"] = r.choice([0, 1, 2, 3, -1])
    op["keep"] = r.random() < 0.7
    gen.op_faults(r, op, 0.08, 0.06, scale=r.choice([3, 12, 40]))
    if op.get("cbf", {}).get("exc") == "StopIteration":
        op["cbf"]["exc"] = "RuntimeError"  # from an iterator this would be its normal end
    return op


def generate(r, tier):
    bad = r.random() < 0.6
    npool = r.choice([0, 1, 2, 4])
    pool = []
    for _ in range(npool):
        pool.append({"v": r.choice(["list", "list", "tuple"]), "c": gen_vals(r, 2, 0, False, False, (0, 1, 2, 4))})
    nt = r.choice([1, 1, 2, 3])
    tasks = [[gen_op(r, npool, bad) for _ in range(r.choice([2, 4, 8, 14]))] for _ in range(nt)]
    return {"pool": pool, "tasks": tasks, "sched": gen.schedule(r, nt) if nt > 1 else [], "opcode": nt > 1 and r.random() < 0.3}


# -------------------------------------------------------------------- values
class SimInt(int):
    """A number with its own text (foreign code)."""

    def __str__(self):
        foreign("str")
        return "n" + int.__repr__(self)


class StrSub(str):
    pass


class ListSub(list):
    pass


class NTuple(tuple):
    pass


class Index:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        foreign("index")
        return self.i


class SimIterable:
    """An iterable (not a list) that is foreign code."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return SimIter(self.items)


class SimIter:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        foreign("next")
        return next(self.it)


def bad_value(k):
    return {
        "set": lambda: {"a", "b"},
        "dict": lambda: {"class": "x"},
        "emptydict": dict,
        "emptyset": set,
        "object": object,
        "bytes": lambda: b"x",
        "bytearray": lambda: bytearray(b"x"),
        "complex": lambda: 1j,
        "module": lambda: math,
        "ellipsis": lambda: ...,
        "gen": lambda: (x for x in "ab"),
        "range": lambda: range(2),
        "userlist": lambda: UserList(["a"]),
        "userstring": lambda: UserString("a"),
        "decimal": lambda: Decimal(1),
        "func": lambda: len,
        "deque": lambda: deque(["a"]),
        "dictkeys": lambda: {"a": 1}.keys(),
        "frozenset": lambda: frozenset(["a"]),
    }[k]()


class Same:
    def __init__(self, x):
        self.x = x

    def ok(self, y):
        return self.x is y

    def __repr__(self):
        return f"same:{type(self.x).__name__}"


class Text:
    def __init__(self, s, typ=str):
        self.s, self.typ = s, typ

    def ok(self, y):
        if self.typ is str:
            return type(y) is str and y == self.s
        return isinstance(y, self.typ) and str.__str__(y) == self.s if issubclass(self.typ, str) else isinstance(y, HTML) and y.as_string() == self.s

    def __repr__(self):
        return f"{self.typ.__name__}:{self.s!r}"


class Bad(Exception):
    pass


def num_text(x):
    return "n" + int.__repr__(x) if isinstance(x, SimInt) else str(x)


def flat(x):
    """The nodes that one child argument stands for; raises Bad."""
    if isinstance(x, (list, tuple, TagList)):
        out = []
        for y in list(x):
            out += flat(y)
        return out
    if x is None:
        return []
    if isinstance(x, (int, float)):
        return [Text(num_text(x))]
    if isinstance(x, str):
        return [Text(str.__str__(x), type(x))]
    if isinstance(x, HTML):
        return [Text(x.as_string(), HTML)]
    if isinstance(x, (Tag, ht.MetadataNode)) or hasattr(type(x), "tagify") or hasattr(type(x), "_repr_html_"):
        return [Same(x)]
    raise Bad(type(x).__name__)


def execute(sim, plan):
    shared_nodes = {}

    def make(v, own):
        k = v["v"]
        if k in ("list", "tuple", "taglist", "listsub", "ntuple", "iter", "iterable"):
            c = [make(x, own) for x in v["c"]]
            if k == "list":
                return c
            if k == "listsub":
                return ListSub(c)
            if k == "tuple":
                return tuple(c)
            if k == "ntuple":
                return NTuple(c)
            if k == "iterable":
                return SimIterable(c)
            if k == "iter":
                return SimIter(c)
            try:
                for y in c:
                    flat(y)
            except Bad:
                return c  # a TagList of invalid items cannot exist
            return TagList(*c)
        if k == "none":
            return None
        if k == "num":
            n = v["n"]
            return float(n) if isinstance(n, str) else n
        if k == "intsub":
            return SimInt(v["n"])
        if k == "str":
            return v["s"]
        if k == "strsub":
            return StrSub(v["s"])
        if k == "jsx":
            from htmltools._jsx import jsx

            return jsx(v["s"])
        if k == "html":
            return HTML(v["s"])
        if k == "tag":
            return Tag("b", "x", {"class": "k"})
        if k == "repr":
            return SimRepr("<r>")
        if k == "tfy":
            return SimTfy({"t": "text", "s": "t"}, Env([]))
        if k == "dep":
            return ht.HTMLDependency("d", "1.0")
        if k == "meta":
            from ..build import SimMeta

            return SimMeta("m")
        if k == "jsxtag":
            from htmltools._jsx import JSXTag

            return JSXTag("Foo", "x")
        if k == "pool":
            return pool[v["i"] % len(pool)] if pool else []
        if k == "own":
            if not own:
                return []
            h = own[v["i"] % len(own)]
            return h.lst()
        if k == "bad":
            return bad_value(v["k"])
        raise HarnessError(k)

    pool = []
    for s in plan["pool"]:
        pool.append(make(s, []))

    def pool_shape(x):
        return [pool_shape(y) if isinstance(y, (list, tuple)) else id(y) for y in x]

    pool_before = [pool_shape(p) for p in pool]

    class Handle:
        def __init__(self, obj, model):
            self.obj, self.model = obj, model
            self.ident = obj

        def lst(self):
            return self.obj.children if isinstance(self.obj, Tag) else self.obj

    def check(h, where):
        got = list(h.lst())
        good = len(got) == len(h.model) and all(a.ok(b) for a, b in zip(h.model, got))
        sim.expect(
            good,
            "children-differ",
            lambda: f"{where}: expected {h.model!r}, got {[(type(x).__name__, str(x)[:30] if isinstance(x, (str, HTML)) else '') for x in got]!r}"[:1500],
        )
        sim.expect(isinstance(h.lst(), TagList), "not-a-taglist", lambda: f"{where}: {type(h.lst()).__name__}")
        for x in got:
            if not is_tag_node(x):
                sim.violate("stored-non-node", f"{where}: is_tag_node is false for a stored {type(x).__name__}")
                break
        if not good:
            h.model = [resync(x) for x in got]
        return good

    def resync(x):
        if isinstance(x, str):
            return Text(str.__str__(x), type(x))
        if isinstance(x, HTML):
            return Text(x.as_string(), HTML)
        return Same(x)

    def accept_check(vals, where):
        """is_tag_child must hold for everything that was accepted."""
        todo = list(vals)
        n = 0
        while todo and n < 200:
            x = todo.pop()
            n += 1
            if not is_tag_child(x):
                sim.violate("accepted-but-not-tag-child", f"{where}: is_tag_child({type(x).__name__}) is false, but it was accepted")
                return
            if isinstance(x, (list, tuple)):
                todo += list(x)

    def exec_op(t, op):
        own = t.local.setdefault("own", [])
        if not own:
            own.append(Handle(TagList(), []))
            own.append(Handle(Tag("div"), []))
        h = own[op["o"] % len(own)]
        k = op["k"]
        L = h.lst()
        n = len(h.model)
        x = make(op["x"], own) if "x" in op else None
        arg_shape = pool_shape(x) if isinstance(x, (list, tuple)) else None

        # what the operation should add
        bad = False
        add = []
        try:
            if k in ("append", "insert"):
                add = flat(x)
            elif k in ("append*", "new", "newtag"):
                items = [y for y in x if not isinstance(y, dict)] if k == "newtag" else x
                add = flat(list(items))
            elif k in ("extend", "add", "radd", "iadd"):
                if isinstance(x, (SimIter, SimIterable)):
                    src = make(op["x"], own)
                    items = list(src.items) if isinstance(src, SimIterable) else list(src.it)
                    # nodes are compared by identity: use the very same objects
                    items = list(x.items) if isinstance(x, SimIterable) else items
                    if isinstance(x, SimIter):
                        x = SimIter(items)
                    add = flat(items)
                else:
                    add = flat(x)
        except Bad:
            bad = True

        res = None
        tgt = h.obj
        if k == "append":
            o = sim.call(lambda: tgt.append(x), op=op)
        elif k == "append*":
            o = sim.call(lambda: tgt.append(*x), op=op)
        elif k == "extend":
            o = sim.call(lambda: tgt.extend(x), op=op)
        elif k == "insert":
            i = Index(op["i"]) if op.get("idx") else op["i"]
            o = sim.call(lambda: tgt.insert(i, x), op=op)
        elif k == "add":
            o = sim.call(lambda: L + x, op=op)
        elif k == "radd":
            o = sim.call(lambda: x + L, op=op)
        elif k == "iadd":
            if isinstance(tgt, Tag):

                def go():
                    tgt.children += x

            else:

                def go():
                    y = tgt
                    y += x
                    h.obj = y

            o = sim.call(go, op=op)
            if not isinstance(h.lst(), TagList):
                sim.violate("not-a-taglist", f"+= with {op.get('x')!r:.200} left {type(h.lst()).__name__}")
                h.obj = TagList()
                return
        elif k == "slice":
            s = slice(*op["s"])
            o = sim.call(lambda: L[s], op=op)
        elif k == "mul":
            o = sim.call(lambda: L * op["n"], op=op)
        elif k == "rmul":
            o = sim.call(lambda: op["n"] * L, op=op)
        elif k == "imul":
            if n > 200:
                return

            def go2():
                y = L
                y *= op["n"]
                if isinstance(tgt, Tag):
                    tgt.children = y
                else:
                    h.obj = y

            o = sim.call(go2, op=op)
        elif k == "new":
            o = sim.call(lambda: TagList(*x), op=op)
        elif k == "newtag":
            o = sim.call(lambda: Tag("div", *x), op=op)
        elif k == "copy":
            o = sim.call(lambda: L.copy(), op=op)
        elif k == "argmut":
            # a list that was used as an argument is changed by its owner later
            own_args = t.local.setdefault("args", [])
            if own_args:
                own_args[-1].append("later")
                sim.probe("argument-mutated-later")
            for hh in own:
                check(hh, "after an argument list was changed by its owner")
            return
        else:
            raise HarnessError(k)

        where = f"{k} with {op.get('x')!r:.200}"
        sim.ev(k, o.kind, bad, len(add))
        if o.kind == "fault":
            # the operation may have been cut off, but nothing else may have happened
            got = list(h.lst())
            if k in ("append", "append*", "extend", "iadd", "insert", "imul"):
                pos = n if k != "insert" else slice(op["i"], op["i"]).indices(n)[0]
                m = h.model
                full = m[:pos] + add + m[pos:] if k != "imul" else m * max(0, op["n"])
                good = False
                if not bad:
                    for j in {0, len(add), *range(len(add))} if k != "imul" else [0]:
                        cand = m[:pos] + add[:j] + m[pos:]
                        if len(cand) == len(got) and all(a.ok(b) for a, b in zip(cand, got)):
                            good = True
                            break
                good = good or (len(m) == len(got) and all(a.ok(b) for a, b in zip(m, got)))
                good = good or (not bad and len(full) == len(got) and all(a.ok(b) for a, b in zip(full, got)))
                sim.expect(good, "interrupted-operation-corrupts", lambda: f"{where}: {m!r} -> {got!r}"[:1200])
                if not all(is_tag_node(y) for y in got):
                    sim.violate("stored-non-node", f"{where} interrupted")
                h.model = [resync(y) for y in got]
            for hh in own:
                check(hh, where + " interrupted")
            return
        if bad:
            sim.probe("invalid-argument")
            sim.expect(
                o.kind == "exc" and isinstance(o.exc, TypeError),
                "invalid-argument-accepted",
                lambda: f"{where}: an argument of unsupported type ended as {o!r}"[:800],
            )
            for hh in own:
                check(hh, where + " rejected")
            return
        if o.kind == "exc":
            sim.violate("valid-argument-rejected", f"{where}: {o.exc!r}")
            for hh in own:
                check(hh, where + " raised")
            return
        m = h.model
        new = None
        if k in ("append", "append*", "extend", "iadd"):
            h.model = m + add
        elif k == "insert":
            i = op["i"]
            h.model = list(m)
            h.model[i:i] = add
        elif k == "add":
            new = (o.value, m + add)
        elif k == "radd":
            new = (o.value, add + m)
        elif k == "slice":
            new = (o.value, m[slice(*op["s"])])
        elif k in ("mul", "rmul"):
            new = (o.value, m * op["n"])
        elif k == "imul":
            h.model = m * op["n"]
        elif k in ("new", "newtag"):
            new = (o.value, add)
        elif k == "copy":
            new = (o.value, list(m))
        if arg_shape is not None:
            sim.expect(pool_shape(x) == arg_shape, "argument-changed", where)
            if isinstance(x, list) and not any(x is p for p in pool):
                t.local.setdefault("args", []).append(x)
        if k in ("append", "insert"):
            accept_check([x], where)
        elif k in ("append*", "new"):
            accept_check(x, where)
        elif k == "extend" and isinstance(x, (list, tuple)):
            accept_check(x, where)
        if new is not None:
            obj, model = new
            if not isinstance(obj, (Tag, TagList)):
                sim.violate("not-a-taglist", f"{where} returned {type(obj).__name__}")
            else:
                hn = Handle(obj, model)
                if any((obj is hh.obj) or (obj is hh.lst()) for hh in own):
                    sim.violate("result-not-new", f"{where} returned an operand")
                elif check(hn, where) and op.get("keep") and len(own) < 8 and len(model) < 300:
                    own.append(hn)
        for hh in own:
            check(hh, where)
        sim.probe("operations-checked")

    sim.run_tasks(plan["tasks"], plan["sched"], exec_op)
    sim.expect([pool_shape(p) for p in pool] == pool_before, "argument-changed", "a shared argument list was altered")
