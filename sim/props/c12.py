"""C12: dependency URLs and copied files agree.

A simulated host (scratch file system, unprivileged process) on which documents are
saved again and again: sources are edited, removed and restored, destinations start
in any state, calls fail with OSErrors, torn or short writes, or the process dies at
any file-system call and is restarted with only the disk surviving.  After every
save that returns, the written file is parsed by an independent parser, its URLs are
resolved and percent-decoded like a browser does, and the disk is compared with a
model of what has to be there.
"""

from __future__ import annotations

import os
import posixpath
import re
import shutil
import sys
import urllib.parse
from html.parser import HTMLParser

from htmltools import HTMLDependency, HTMLDocument, Tag, TagList
from packaging.version import Version

from .. import fs, gen, kernel
from ..build import foreign
from ..kernel import HarnessError, setup_failed

FILES = [
    "a.js", "b.js", "main.min.js", "js/a.js", "js/deep/er/x.js", "foo bar.js", "x%y.js", "x%20y.js", "q#1.js", "m?2.js",
    "n&m.js", "\u00e9.js", "\u65e5\u672c/\u8a9e.js", "a+b.js", "a;b.js", "a:b.js", "a=b,c.js", "it's.js", 'q"t.js', "<x>.js",
    "~t.js", "a@b.js", "[1].js", "{v}.js", "..a.js", ".hidden.js", "js/.h/x.js", "a\\b.js", "%2e%2e.js", "a&amp;b.js", "&copy.js",
    "sp ace/in dir/f.js", "\U0001f600.js", "e\u0301.js", "a|b^c`d.js", "noext", "A.JS", "a.js.map", "x%.js", "%zz.js", "$&.js", "\\1.js",
]
CSS = ["a.css", "css/a.css", "foo bar.css", "x%y.css", "\u00e9.css", "q#1.css", "m?2.css", "css/sub dir/%41.css", "a.js", "js/a.js"]
NAMES = ["a", "b", "jquery", "dep-d", "x.y", "a-1.0", "lib", "A", "zlib", "n_1", "\u00e9", "e\u0301", "n-1", "b b"]
LIBDIRS = ["lib", "lib", "lib", None, None, "", "a/b", "lib/", "./lib", "a//b", "..", "../up", "libs/v 1", "li\u00e9", "a", "lib/a-1.0"]
PREFIXES = ["lib", None, "", "a/b", "lib/", "/abs/x", "https://cdn.example/x", "https://cdn.example/x/", "..", "li\u00e9"]
URLS = ["https://e.com", "https://e.com/x", "https://e.com/x/", "//cdn/y", "/abs", "rel/dir", "https://e.com/a%20b"]
HTMLFILES = ["index.html", "page two.html", "sub/x.html", "sub/deeper/y.html", "index.html", "\u00e9.html"]


# ---------------------------------------------------------------- generation
def gen_dep(r, i, nsrc):
    d = {"name": r.choice(NAMES), "ver": r.choice(gen.VERSIONS)}
    x = r.random()
    if x < 0.78:
        d["src"] = {"k": r.choice(["dir", "dir", "abs", "pkg", "pkg", "subpkg", "slash", "link"]), "i": r.randrange(nsrc)}
    elif x < 0.92:
        d["src"] = {"k": "url", "u": r.choice(URLS)}
        if r.random() < 0.15:
            d["src"]["also"] = r.choice([{"subdir": "x"}, {"package": "htmltools", "subdir": "lib"}, {"package": None}])
    else:
        d["src"] = None
    local = d["src"] and d["src"]["k"] != "url"
    d["script"] = [r.choice(FILES) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
    d["css"] = [r.choice(CSS) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    d["all"] = bool(local and r.random() < 0.3)
    d["single"] = r.random() < 0.4
    d["head"] = r.choice([None, None, None, "<title>t</title>", "<!-- \u00e9 -->"])
    d["attr"] = r.random() < 0.3
    if local and r.random() < 0.04:
        # a dependency of very many files, some of them many directories down
        many = gen.count(r, [12], p=0.9, most=100)
        deep = "/".join("d%d" % j for j in range(r.choice([0, 0, 1, 4, 9])))
        l = d[r.choice(["script", "css"])]
        l[:0] = ["%sf%d.js" % (deep + "/" if deep and j % 2 else "", j) for j in range(many)]
        d["many"] = True
    return d


def gen_fault(r):
    k = r.choice(["errno", "errno", "crash", "crash", "torn", "short"])
    if k == "errno":
        return {"kind": k, "at": 1 + int(r.expovariate(1 / 8)), "errno": r.choice(sorted(fs.ERRNO))}
    if k == "crash":
        return {"kind": k, "at": 1 + int(r.expovariate(1 / 8))}
    if k == "torn":
        return {"kind": k, "at": 1 + int(r.expovariate(1 / 2)), "bytes": r.choice([0, 1, 5, 100, 1000]), "die": r.random() < 0.3}
    return {"kind": k, "bytes": r.choice([7, 64, 500])}


def gen_content(r, ndep):
    n = r.choice([1, 1, 2, 2, 3, 4])
    return [
        {"d": r.randrange(ndep), "in": r.choice(["top", "tag", "deep", "list", "tfy", "tfytag"])} for _ in range(n)
    ] + ([{"text": gen.text(r, 3)}] if r.random() < 0.5 else [])


def gen_op(r, ndep, ncont, faults):
    k = r.choice(["save", "save", "save", "save", "save", "copy", "copy", "dict", "src", "src", "stale", "stale"])
    op = {"k": k}
    if k in ("save", "stale", "copy"):
        op.update(
            c=r.randrange(ncont), file=r.choice(HTMLFILES), form=r.choice(["abs", "abs", "rel", "rel", "rel", "dot", "dotdot", "slashes", "bare", "bare"]), lib=r.choice(LIBDIRS), ver=r.random() < 0.6,
            via=r.choice(["doc", "doc", "docpos", "tag", "list"]), default=r.random() < 0.1, d=r.randrange(ndep),
        )
    if k == "dict":
        op.update(d=r.randrange(ndep), lib=r.choice(PREFIXES), ver=r.random() < 0.6, default=r.random() < 0.1)
    if k == "src":
        op.update(act=r.choice(["edit", "edit", "del", "del", "add", "restore", "deldir"]), i=r.randrange(3), f=r.randrange(64), s=r.randrange(1000))
    if k == "stale":
        op.update(what=r.choice(["file", "file", "same", "same", "dirforfile", "tree", "hidden", "empty", "readonly", "html"]))
    if r.random() < 0.04:
        # a source directory that is, contains or is part of the directory to copy to
        f = gen.filename(r) if r.random() < 0.3 else r.choice(FILES)
        return {
            "k": "inplace", "how": r.choice(["same", "same", "same", "up", "upup", "inside"]), "name": r.choice(NAMES), "v": r.choice(gen.VERSIONS),
            "ver": r.random() < 0.5, "src": r.choice(["rel", "abs", "link", "dots"]), "script": [f if safe_name(f) else "a.js"] + r.choice([[], ["js/z.js"]]),
            "css": r.choice([[], ["z.css"]]), "all": r.random() < 0.4, "lib": r.choice([None, None, "", "lib", "a/b"]), "abslib": r.random() < 0.2,
            "via": r.choice(["doc", "tag", "list", "copy"]), "file": r.choice(HTMLFILES[:2]), "lost": r.random() < 0.15, "times": r.choice([1, 1, 2]), "relpage": r.random() < 0.5,
        }
    if k in ("save", "copy") and faults:
        x = r.random()
        if x < 0.35:
            op["fs"] = gen_fault(r)
        elif x < 0.5:
            gen.op_faults(r, op, 0.4, 0.6, scale=r.choice([20, 100, 400]))
        op["retry"] = r.random() < 0.5
    return op


def safe_name(f):
    return f.strip("/") == f and all(p.strip(".") and len(p.encode()) < 200 and "\0" not in p for p in f.split("/"))


def generate(r, tier):
    nsrc = r.choice([1, 2, 3])
    ndep = r.choice([1, 2, 3, 4])
    ncont = r.choice([1, 2, 3])
    files = FILES if r.random() < 0.5 else r.sample(FILES, 4)
    nt = 2 if r.random() < 0.2 else 1
    faults = nt == 1 and r.random() < 0.6
    deps = [gen_dep(r, i, nsrc) for i in range(ndep)]
    for d in deps:
        d["script"] = [f if f in files or "many" in d else r.choice(files) for f in d["script"]]
    extra = [[r.choice(FILES + CSS) for _ in range(r.choice([0, 1, 2]))] for _ in range(nsrc)]
    if r.random() < 0.5:
        # any file names, and names that are nearly the same as others
        for d in deps:
            for l in (d["script"], d["css"]):
                if len(l) > 8:
                    continue
                for j, f in enumerate(list(l)):
                    x = r.random()
                    g = gen.filename(r) if x < 0.4 else gen.near(r, f) if x < 0.7 else f
                    if safe_name(g):
                        l[j] = g
                        if r.random() < 0.3:
                            l.insert(r.randint(0, len(l)), f)
                        h = gen.near(r, g)
                        if d["src"] and "i" in d["src"] and r.random() < 0.4 and safe_name(h):
                            extra[d["src"]["i"]].append(h)
    tasks = []
    for _ in range(nt):
        ops = [gen_op(r, ndep, ncont, faults) for _ in range(r.choice([1, 2, 3, 5, 8]))]
        if nt > 1:
            ops = [o for o in ops if o["k"] != "src"]
        tasks.append(ops)
    return {
        "nsrc": nsrc,
        "onepkg": r.random() < 0.4,
        "extra": extra,
        "links": [[r.randrange(nsrc), r.choice(["l.js", "js/l.js", "js/deep/l.js", "ld", "js/ld", "css/ld", "a.js", "js/a.js"]), r.choice(["f", "f", "d"])] for _ in range(r.choice([0, 0, 1, 2]))],
        "deps": deps,
        "contents": [gen_content(r, ndep) for _ in range(ncont)],
        "tasks": tasks,
        "sched": gen.schedule(r, nt) if nt > 1 else [],
        "order": r.choice([0, r.randrange(1, 1000)]),
        "enc": r.choice([None, None, None, "iso-8859-1", "ascii", "cp1252"]),
        "big": r.choice([0, 0, 0, 0, 0, 3000, 3000, 70000 if r.random() < 0.5 else 300000]),
    }


# --------------------------------------------------------------------- model
SAFE = re.compile(r"^[A-Za-z0-9\-._~!$&'()*+,;=:@/%]*$")


class Collect(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.urls = []
        self.ended = False

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script" and "src" in a:
            self.urls.append(("script", a["src"]))
        elif tag == "link" and "href" in a:
            self.urls.append(("css", a["href"]))

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        if tag == "html":
            self.ended = True


class Tfy:
    def __init__(self, make):
        self.make = make

    def tagify(self):
        foreign("tagify")
        x = self.make()
        foreign("tagify-end")
        return x.tagify()


def content_bytes(i, name, n, big):
    if n % 5 == 4 or len(name) % 7 == 6:
        return b""
    return (f"/* {i} {name} {n} */\r\n\xff\x00\n".encode("latin-1", "backslashreplace")) * (1 + big // 20)


def execute(sim, plan):
    real_tmp = fs.enter_scratch(plan["order"], plan["enc"])
    try:
        run(sim, plan, real_tmp)
    finally:
        fs.leave_scratch(real_tmp)
        for m in [m for m in sys.modules if m.startswith("simpkg")]:
            del sys.modules[m]
    for e in fs.G.escapes:
        sim.violate("outside-scratch", f"library tried {e[0]} outside its directories")


def run(sim, plan, root):
    J = lambda *p: os.path.join(root, *p)
    mask = lambda x: str(x).replace(root, "<root>")

    def write(p, data):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    # ---- sources -----------------------------------------------------------
    os.mkdir(J("src"))
    os.mkdir(J("links"))
    os.mkdir(J("pkgs"))
    srcdirs = []
    pkg_of = lambda i: f"simpkg{0 if plan['onepkg'] else i}"
    leaf_of = lambda i: f"st atic{i}" if plan["onepkg"] else "st atic"
    for i in range(plan["nsrc"]):
        # every source lives in a package, and is reachable as a directory as well
        base = J("pkgs", pkg_of(i))
        os.makedirs(os.path.join(base, "sub"), exist_ok=True)
        write(os.path.join(base, "__init__.py"), b"")
        write(os.path.join(base, "sub", "__init__.py"), b"")
        srcdirs.append(os.path.join(base, "sub", leaf_of(i)))
        os.mkdir(srcdirs[-1])
        os.symlink(srcdirs[-1], J("links", f"l{i}"))
    sys.path.insert(0, J("pkgs"))

    def source_of(d):
        s = d["src"]
        if s is None:
            return None
        if s["k"] == "url":
            return {**s.get("also", {}), "href": s["u"]}
        i = s["i"] % plan["nsrc"]
        rel = os.path.relpath(srcdirs[i], root)
        return {
            "dir": {"subdir": rel},
            "abs": {"subdir": srcdirs[i]},
            "pkg": {"package": pkg_of(i), "subdir": "sub/" + leaf_of(i)},
            "subpkg": {"package": pkg_of(i) + ".sub", "subdir": leaf_of(i)},
            "slash": {"package": None, "subdir": rel + "/"},
            "link": {"subdir": os.path.join("links", f"l{i}")},
        }[s["k"]]

    def srcdir(d):
        return srcdirs[d["src"]["i"] % plan["nsrc"]] if d["src"] and d["src"]["k"] != "url" else None

    def listed(d):
        return list(dict.fromkeys(d["script"] + d["css"]))

    wanted = [set(x) for x in plan["extra"]] + [set() for _ in range(plan["nsrc"])]
    for d in plan["deps"]:
        if srcdir(d):
            wanted[d["src"]["i"] % plan["nsrc"]].update(listed(d))

    def populate(i, s):
        for f in sorted(wanted[i]):
            p = os.path.join(srcdirs[i], f)
            if not os.path.exists(p):
                try:
                    write(p, content_bytes(i, f, s, plan["big"]))
                except OSError:  # a file where a directory is needed
                    pass

    # relative symbolic links to what is outside of the sources
    for i, name, kind in plan["links"]:
        i %= plan["nsrc"]
        p = os.path.join(srcdirs[i], name)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            write(J("shared", "f.js"), b"shared")
            write(J("shared", "dir", "g.js"), b"shared, too")
            os.symlink(os.path.relpath(J("shared", "f.js" if kind == "f" else "dir"), os.path.dirname(p)), p)
            sim.probe("symlink-in-source")
        except OSError:
            pass
    for i in range(plan["nsrc"]):
        populate(i, 0)
    if plan["nsrc"] and plan["order"] % 3 == 0:
        os.makedirs(os.path.join(srcdirs[0], "empty dir", "inner"), exist_ok=True)

    # ---- dependencies and contents ----------------------------------------
    def mkdep(d):
        one = lambda x: x[0] if d["single"] and len(x) == 1 else x
        kw = {}
        if d["script"]:
            kw["script"] = one([{"src": f, **({"defer": ""} if d["attr"] else {})} for f in d["script"]])
        if d["css"]:
            kw["stylesheet"] = one([{"href": f, **({"media": "print"} if d["attr"] else {})} for f in d["css"]])
        return HTMLDependency(d["name"], d["ver"], source=source_of(d), all_files=d["all"], head=d["head"], **kw)

    deps = []
    for d in plan["deps"]:
        o = sim.call(lambda: mkdep(d))
        if not o.ok:
            setup_failed(sim, o)
        deps.append(o.value)

    def mknode(n):
        if "text" in n:
            return n["text"]
        d = deps[n["d"] % len(deps)]
        w = n["in"]
        if w == "tag":
            return Tag("p", "x", d)
        if w == "deep":
            return Tag("div", Tag("b", Tag("i", "y", d), "z"), {"class": "c"})
        if w == "list":
            return [None, [d]]
        if w == "tfy":
            return Tfy(lambda: TagList("e", d))
        if w == "tfytag":
            return Tfy(lambda: Tag("u", d, "e"))
        return d

    def resolved(c):
        """Dependencies of a content: highest version, position of first occurrence."""
        best = {}
        for n in plan["contents"][c]:
            if "text" in n:
                continue
            d = plan["deps"][n["d"] % len(deps)]
            cur = best.get(d["name"])
            if cur is None or Version(d["ver"]) > Version(cur["ver"]):
                best[d["name"]] = d
        return list(best.values())

    def dirname(d, ver):
        return d["name"] + ("-" + str(Version(d["ver"])) if ver else "")

    def expected_tree(d):
        """{relative path: bytes or None} that has to be in the target directory."""
        sd = srcdir(d)
        if d["all"]:
            return fs.tree(sd)
        out = {}
        for f in listed(d):
            p = os.path.join(sd, f)
            if os.path.isdir(p):
                out[os.path.normpath(f)] = None
                out.update({os.path.join(os.path.normpath(f), q): b for q, b in fs.tree(p).items()})
                continue
            with open(p, "rb") as h:
                out[os.path.normpath(f)] = h.read()
        return out

    def missing(d):
        sd = srcdir(d)
        return [] if sd is None or d["all"] else [f for f in listed(d) if not os.path.exists(os.path.join(sd, f))]

    def dangling(d):
        """Listed files that are directories, or do not exist although all_files copies the directory."""
        sd = srcdir(d)
        return sd is not None and any(not os.path.isfile(os.path.join(sd, f)) for f in listed(d))

    def check_urls(d, prefix, ver, got, where):
        """got: [(kind, url)] of this dependency, in its own order."""
        want = [("css", f) for f in d["css"]] + [("script", f) for f in d["script"]]
        if not sim.expect([k for k, _ in got] == [k for k, _ in want], "urls-differ", lambda: f"{where}: {got!r} for {want!r}"):
            return
        for (_, url), (_, f) in zip(got, want):
            if d["src"] is None:
                continue
            if d["src"]["k"] == "url":
                h = d["src"]["u"]
                h = h if h.endswith("/") else h + "/"
                ok = url in (h + f, h + urllib.parse.quote(f), h + urllib.parse.quote(f, safe="/~!*'()"))
                sim.probe("url-source-checked")
                sim.expect(ok, "url-differs", lambda: f"{where}: {url!r}, expected {h + f!r}, possibly percent-encoded")
                continue
            head = dirname(d, ver) + "/"
            if prefix:
                head = (prefix if prefix.endswith("/") else prefix + "/") + head
            ok = url.startswith(head) and SAFE.match(url[len(head) :]) and urllib.parse.unquote(url[len(head) :], errors="strict") == f
            sim.probe("local-url-checked")
            sim.expect(ok, "url-differs", lambda: f"{where}: {url!r}, expected {head!r} + percent-encoded {f!r}")

    def check_target(d, target, where):
        want = expected_tree(d)
        if not want:
            return
        if not os.path.isdir(target):
            sim.violate("not-copied", f"{where}: target directory of {d['name']} is missing")
            return
        have = fs.tree(target)
        for p, b in want.items():
            if p not in have:
                sim.violate("not-copied", f"{where}: {d['name']}: {p!r} was not copied")
            elif have[p] != b:
                sim.violate("copy-differs", f"{where}: {d['name']}: {p!r} differs from its source")
        keep = set(want)
        for p in want:
            while os.path.dirname(p):
                p = os.path.dirname(p)
                keep.add(p)
        stale = [p for p in have if p not in keep]
        sim.expect(not stale, "stale-contents", lambda: f"{where}: {d['name']}: {stale!r} left in the target directory")
        sim.probe("target-checked")

    def check_saved(path, lib, ver, c, where):
        try:
            with open(path, "rb") as h:
                text = h.read().decode("utf-8", "replace")
        except OSError as e:
            sim.violate("file-not-written", f"{where}: {mask(e)}")
            return
        p = Collect()
        p.feed(text)
        p.close()
        sim.expect(p.ended and text.rstrip().endswith("</html>"), "file-incomplete", where)
        left = list(p.urls)
        base = "file://" + urllib.parse.quote(os.path.dirname(os.path.realpath(path))) + "/"
        for d in resolved(c):
            n = len(d["script"]) + len(d["css"])
            got, left = left[:n], left[n:]
            check_urls(d, lib, ver, got, where)
            if srcdir(d) is None:
                continue
            sd = srcdir(d)
            if not dangling(d):
                for (_, url), f in zip(got, d["css"] + d["script"]):
                    # what a browser would open
                    full = urllib.parse.urljoin(base, url)
                    p = urllib.parse.unquote(urllib.parse.urlsplit(full).path)
                    good = os.path.isfile(p)
                    if good:
                        with open(p, "rb") as h, open(os.path.join(sd, f), "rb") as g:
                            good = h.read() == g.read()
                    sim.expect(good, "url-does-not-name-the-copied-file", lambda: f"{where}: {url!r} -> {mask(p)!r} (exists: {os.path.isfile(p)})")
                    sim.probe("url-resolved")
            if not dangling(d):
                check_target(d, target_of(path, lib, ver, d), where)
        sim.expect(not left, "urls-differ", lambda: f"{where}: unexpected URLs {left!r}")

    def target_of(path, lib, ver, d):
        return os.path.normpath(os.path.join(os.path.dirname(os.path.realpath(path)), lib or "", dirname(d, ver)))

    # ---- operations --------------------------------------------------------
    def out_path(t, op):
        return J(f"out{t.index}", "w", op["file"])

    def spelling(path, form, todo):
        """The file name as it is given, and the directory to be in (None: the root)."""
        rel = os.path.relpath(path, root)
        head, tail = os.path.split(rel)
        if form == "abs":
            return path, None
        if form == "dot":
            return "./" + rel, None
        if form == "dotdot":
            return os.path.join(head, "..", os.path.basename(head), tail), None
        if form == "slashes":
            return rel.replace("/", "//"), None
        if form == "bare" and len(plan["tasks"]) == 1 and not any(d["src"] and d["src"]["k"] in ("dir", "slash", "link") for d in todo):
            # (relative sources would be looked up there as well)
            return tail, os.path.dirname(path)
        return rel, None

    def saver(c, via, op):
        nodes = [mknode(n) for n in plan["contents"][c]]
        if via in ("doc", "docpos"):
            x = HTMLDocument(*nodes, lang="en")
        elif via == "tag":
            x = Tag("div", *nodes)
        else:
            x = TagList(*nodes)

        def fn(path):
            if op.get("default"):
                return x.save_html(path)
            if via == "docpos":
                return x.save_html(path, op["lib"], op["ver"])
            return x.save_html(path, libdir=op["lib"], include_version=op["ver"])

        return fn

    def overlap(dirs):
        """Do two dependencies write into each other's directory, or over a path on the way?"""
        for i, a in enumerate(dirs):
            for b in dirs[i + 1 :]:
                if a == b or a.startswith(b + os.sep) or b.startswith(a + os.sep):
                    return True
        return False

    if plan["enc"]:
        sim.probe("host-without-utf8-locale")

    def inplace(t, op):
        """The page is saved where its dependency already lies."""
        sim.ids = getattr(sim, "ids", 0) + 1
        site = J(f"out{t.index}", f"in{sim.ids}", "site")
        path = os.path.join(site, op["file"])
        base = os.path.join(site, op["lib"] or "")
        target = os.path.join(base, op["name"] + ("-" + str(Version(op["v"])) if op["ver"] else ""))
        how, whole = op["how"], op["all"]
        src = {"same": target, "up": os.path.join(target, "x"), "upup": os.path.join(target, "x", "y"), "inside": os.path.dirname(os.path.normpath(target))}[how]
        if how == "inside":
            whole = False  # (a directory has no copy of all of itself in itself)
        names = [f for f in dict.fromkeys(op["script"] + op["css"]) if how != "inside" or f.split("/")[0] not in (os.path.basename(target), op["file"])]
        os.makedirs(src, exist_ok=True)
        for j, f in enumerate(names):
            try:
                write(os.path.join(src, f), b"in place %d" % j)
            except OSError:
                return
        write(os.path.join(src, "not listed.txt"), b"too")
        if op["lost"] and names and not whole:
            os.remove(os.path.join(src, names[-1]))
        where_ = {"rel": os.path.relpath(src, root), "abs": src, "link": os.path.join(root, "links", f"in{t.index}-{sim.ids}"), "dots": os.path.join(os.path.relpath(src, root), "..", os.path.basename(src))}[op["src"]]
        if op["src"] == "link":
            os.symlink(src, where_)
        css = [f for f in op["css"] if f in names]
        js = [f for f in op["script"] if f in names]
        lib = base if op["abslib"] else op["lib"]
        arg = os.path.relpath(path, root) if op["relpage"] else path
        scope = os.path.dirname(site)
        o = sim.call(lambda: HTMLDependency(op["name"], op["v"], source={"subdir": where_}, script=[{"src": f} for f in js], stylesheet=[{"href": f} for f in css], all_files=whole))
        if not o.ok:
            setup_failed(sim, o)
        dep = o.value
        first = fs.tree(src)

        def go():
            if op["via"] == "copy":
                return dep.copy_to(os.path.relpath(base, root) if op["relpage"] else base, op["ver"])
            x = {"doc": HTMLDocument, "tag": lambda d: Tag("p", d), "list": TagList}[op["via"]](dep)
            return x.save_html(arg, libdir=lib, include_version=op["ver"])

        for _ in range(op["times"]):
            where = f"{op['via']} to {mask(path)!r} (libdir={mask(lib)!r}, include_version={op['ver']}) of a dependency with source {mask(where_)!r}"
            before = fs.tree(scope)

            def body():
                with fs.op_active(None):
                    return go()

            o = sim.call(body)
            sim.ev("inplace", how, o.kind)
            sim.probe("in-place:" + how)
            after = fs.tree(scope)
            page = os.path.relpath(path, scope)
            diff = [p for p in sorted(set(before) | set(after)) if before.get(p, 0) != after.get(p, 0) and p != page]
            if op["lost"] and names and not whole:
                sim.expect(o.kind == "exc", "missing-file-not-reported", where)
                sim.expect(not diff, "target-touched-although-a-file-is-missing", lambda: f"{where}: {diff!r}")
                continue
            if o.kind != "ok":
                # only a directory that would have to be removed with the source in it may be refused
                sim.expect(how in ("up", "upup"), "save-raised", lambda: f"{where}: {mask(repr(o.exc))}")
                sim.expect(not diff, "unrelated-files-changed", lambda: f"{where}: refused, but {diff!r}")
                continue
            if how in ("same", "inside"):
                now = fs.tree(src)
                sim.expect(all(now.get(p, 0) == b for p, b in first.items()), "source-changed", lambda: f"{where}: {sorted(p for p, b in first.items() if now.get(p, 0) != b)!r}")
            if op["via"] == "copy":
                files = [os.path.join(target, f) for f in css + js]
            else:
                p = Collect()
                with open(path, "rb") as h:
                    p.feed(h.read().decode("utf-8", "replace"))
                p.close()
                at = "file://" + urllib.parse.quote(os.path.dirname(os.path.realpath(path))) + "/"
                files = [urllib.parse.unquote(urllib.parse.urlsplit(urllib.parse.urljoin(at, u)).path) for _, u in p.urls]
            if not sim.expect(len(files) == len(css + js), "urls-differ", lambda: f"{where}: {[mask(f) for f in files]!r}"):
                continue
            for f, p in zip(css + js, files):
                good = os.path.isfile(p)
                if good:
                    with open(p, "rb") as h:
                        good = h.read() == first[os.path.normpath(f)]
                sim.expect(good, "url-does-not-name-the-copied-file", lambda: f"{where}: {mask(p)!r} (exists: {os.path.isfile(p)})")

    def exec_op(t, op):
        k = op["k"]
        if k == "inplace":
            return inplace(t, op)
        if k == "dict":
            i = op["d"] % len(deps)
            d, dep = plan["deps"][i], deps[i]
            lib, ver = ("lib", True) if op["default"] else (op["lib"], op["ver"])
            kw = {} if op["default"] else {"lib_prefix": lib, "include_version": ver}
            o = sim.call(lambda: (dep.as_dict(**kw), str(dep.as_html_tags(**kw))), op=op)
            sim.ev("dict", o.kind)
            if o.kind == "exc":
                sim.violate("as-dict-raised", mask(repr(o.exc)))
            elif o.ok:
                dd, tags = o.value
                got = [("css", s["href"]) for s in dd["stylesheet"]] + [("script", s["src"]) for s in dd["script"]]
                check_urls(d, lib, ver, got, f"as_dict(lib_prefix={lib!r}, include_version={ver})")
                p = Collect()
                p.feed(tags)
                p.close()
                check_urls(d, lib, ver, p.urls, f"as_html_tags(lib_prefix={lib!r}, include_version={ver})")
            return
        if k == "src":
            i = op["i"] % plan["nsrc"]
            fs_ = sorted(wanted[i])
            if op["act"] == "restore":
                populate(i, op["s"])
            elif op["act"] == "add":
                try:
                    write(os.path.join(srcdirs[i], f"new{op['f']}", "n.txt"), b"new")
                except OSError:
                    pass
            elif fs_:
                f = os.path.join(srcdirs[i], fs_[op["f"] % len(fs_)])
                if op["act"] == "edit" and os.path.isfile(f):
                    write(f, content_bytes(i, "edited", op["s"], plan["big"]))
                elif op["act"] == "del" and os.path.isfile(f):
                    os.remove(f)
                    sim.probe("source-file-removed")
                elif op["act"] == "deldir":
                    p = os.path.dirname(f)
                    if p != srcdirs[i]:
                        shutil.rmtree(p, ignore_errors=True)
            sim.ev("src", op["act"])
            return
        c = op["c"] % len(plan["contents"])
        path = out_path(t, op)
        lib, ver = ("lib", True) if op["default"] and k == "save" else (op["lib"], op["ver"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if k == "stale":
            d = plan["deps"][op["d"] % len(deps)]
            target = target_of(path, lib, ver, d)
            what = op["what"]
            try:
                if what == "file":
                    write(os.path.join(target, "stale dir", "old.js"), b"old")
                elif what == "same":
                    for f in listed(d):
                        write(os.path.join(target, f), b"stale bytes, longer than most of the sources are " * 9)
                elif what == "dirforfile" and listed(d):
                    write(os.path.join(target, listed(d)[0], "x"), b"x")
                elif what == "tree":
                    for j in range(3):
                        write(os.path.join(target, "n" * (j + 1), "deep", f"{j}.txt"), b"t")
                elif what == "hidden":
                    write(os.path.join(target, ".git", "config"), b"h")
                elif what == "readonly":
                    write(os.path.join(target, "ro.txt"), b"r")
                    os.chmod(os.path.join(target, "ro.txt"), 0o444)
                elif what == "html":
                    write(path, b"<script src='old.js'></script>" * 300)
                else:
                    os.makedirs(target, exist_ok=True)
            except OSError:
                pass
            sim.ev("stale", what)
            sim.probe("destination-prepared")
            return

        if k == "save":
            todo = resolved(c)
            targets = [target_of(path, lib, ver, d) for d in todo if srcdir(d)]
            if overlap(targets + ([] if not targets else [os.path.realpath(path)])):
                sim.ev("overlap")
                return
            fn = saver(c, op["via"], op)
            arg, cwd = spelling(path, op["form"], todo)
            if cwd:
                sim.probe("bare-file-name")

                def call():
                    os.chdir(cwd)
                    try:
                        x = fn(arg)
                        return x if os.path.isabs(x) else os.path.join(cwd, x)
                    finally:
                        os.chdir(root)

            else:
                call = lambda: fn(arg)
            where = f"save_html({mask(arg)!r}, libdir={lib!r}, include_version={ver}) of a {op['via']}"
        else:
            i = op["d"] % len(deps)
            todo = [plan["deps"][i]]
            base = os.path.normpath(os.path.join(os.path.dirname(path), lib or ""))
            targets = [os.path.join(base, dirname(todo[0], ver))] if srcdir(todo[0]) else []
            call = lambda: deps[i].copy_to(base, include_version=ver)
            where = f"copy_to({mask(base)!r}, include_version={ver})"
        if any(srcdir(d) and not d["all"] and any(os.path.isdir(os.path.join(srcdir(d), f)) for f in listed(d)) for d in todo):
            sim.ev("a directory is listed as a file")
            return
        lost = [d for d in todo if missing(d)]
        scope = J(f"out{t.index}") if len(plan["tasks"]) > 1 else root
        before = fs.tree(scope)

        def go(fault, faults):
            def body():
                with fs.op_active(fault):
                    return call()

            return sim.call(body, op=faults)

        crashed = False
        if fault_dies(op.get("fs")):
            crashed, o = crash_run(sim, lambda: go(op["fs"], None))
        else:
            o = go(op.get("fs"), op)
            if o.kind == "exc" and fs.G.fired and fs.G.fired[0] != "short":
                # shutil.Error keeps only the text of the injected error
                o = kernel.Outcome("fault", exc=o.exc)
        sim.ev(k, o.kind if not crashed else "crash", [x for x in fs.G.log] if not crashed and len(plan["tasks"]) == 1 and o.kind != "fault" else "")
        if fs.G.fired:
            sim.probe("fault-at:" + fs.G.fired[1])
        judge(o, crashed, op, k, todo, targets, lost, before, scope, path, lib, ver, c, where, arg if k == "save" else None)
        if (crashed or o.kind != "ok") and not lost and op.get("retry", True):
            # the failure is over: the same call now has to work
            before = fs.tree(scope)
            o = go(None, None)
            sim.ev("retry", o.kind)
            sim.probe("retried-after-a-failure")
            judge(o, False, {}, k, todo, targets, lost, before, scope, path, lib, ver, c, "retried " + where, arg if k == "save" else None)

    def judge(o, crashed, op, k, todo, targets, lost, before, scope, path, lib, ver, c, where, arg):
        after = fs.tree(scope)
        rel = lambda p: os.path.relpath(p, scope)
        mine = [rel(x) for x in targets] + ([rel(path)] if k == "save" else [])

        def touched(p, roots):
            return any(p == m or p.startswith(m + os.sep) for m in roots)

        parents = set()
        for m in mine:
            while os.path.dirname(m):
                m = os.path.dirname(m)
                parents.add(m)
        diff = [p for p in sorted(set(before) | set(after)) if before.get(p, 0) != after.get(p, 0)]
        other = [p for p in diff if not touched(p, mine) and not (p in parents and before.get(p, 0) == 0 and after.get(p) is None)]
        other = [p for p in other if not p.startswith("tmp") and "__pycache__" not in p]
        sim.expect(not other, "unrelated-files-changed", lambda: f"{where}: {other!r}")
        if lost:
            sim.probe("listed-file-missing")
            for d in lost:
                tg = rel(target_of(path, lib, ver, d))
                ch = [p for p in diff if touched(p, [tg])]
                sim.expect(not ch, "target-touched-although-a-file-is-missing", lambda: f"{where}: {d['name']}: {ch!r}")
            if o.ok and not crashed:
                sim.violate("missing-file-not-reported", f"{where}: {[missing(d) for d in lost]!r}")
            return
        if crashed or o.kind == "fault":
            return
        if o.kind == "exc":
            sim.violate("save-raised", f"{where}: {mask(repr(o.exc))}")
            return
        if op.get("fs") and fs.G.fired:
            sim.probe("returned-in-spite-of-a-fault")
        if k == "save":
            r = o.value
            good = isinstance(r, (str, os.PathLike)) and os.path.realpath(os.path.join(scope if len(plan["tasks"]) == 1 else root, os.fspath(r))) == os.path.realpath(path)
            sim.expect(good, "wrong-return-value", lambda: f"{where}: {mask(repr(r))}")
            check_saved(path, lib, ver, c, where)
            sim.probe("saved")
            sim.probe("saved-via-" + op.get("via", "retry"))
        elif targets and not dangling(todo[0]):
            check_target(todo[0], targets[0], where)
        if not targets and k == "copy":
            sim.probe("nothing-to-copy")
            sim.expect(not diff, "copied-although-not-local", lambda: f"{where}: {diff!r}")

    for i, _ in enumerate(plan["tasks"]):
        os.makedirs(J(f"out{i}", "w"))
    sim.run_tasks(plan["tasks"], plan["sched"], exec_op)


def fault_dies(f):
    return bool(f) and (f["kind"] == "crash" or f.get("die"))


def crash_run(sim, go):
    """Run in a process that may die; only the disk survives.  -> (died, outcome)."""
    fs.G.crash_exit = lambda: os._exit(77)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            o = go()
            code = {"ok": 0, "fault": 1, "exc": 2}[o.kind]
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    fs.G.crash_exit = None
    fs.G.log, fs.G.fired = [], None
    code = os.waitstatus_to_exitcode(st)
    if code == 77:
        sim.fired["fs:crash"] += 1
        return True, kernel.Outcome("fault")
    if code == 0:
        # it finished before the crash point; its result died with it
        sim.probe("finished-before-the-crash-point")
        return True, kernel.Outcome("fault")
    if code == 1:
        return False, kernel.Outcome("fault")
    return False, kernel.Outcome("exc", exc=RuntimeError("exception in the process that was to be killed"))
