From d3291cf1a7e25185a467ac235b496ac71194e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:29 +0000
Subject: [PATCH 01/23] fix: displayhook wrapper must not use == to recognise
 None and Ellipsis

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..c79a47f 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1028,7 +1028,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From c2d5f986500550f39f94151585585f22935a9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 02/23] fix: a copied HTMLDependency must not share its lists
 with the original

---
 htmltools/_core.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index c79a47f..636da28 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1800,6 +1800,19 @@ class HTMLDependency(MetadataNode):
                     + f"{self.name}-{self.version}"
                 )
 
+    # As for any MetadataNode, a copy must be completely independent of the original.
+    def __copy__(self) -> "HTMLDependency":
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        cp.__dict__.update(self.__dict__)
+        cp.source = copy(self.source)
+        cp.script = deepcopy(self.script)
+        cp.stylesheet = deepcopy(self.stylesheet)
+        cp.meta = deepcopy(self.meta)
+        if self.head is not None:
+            cp.head = _copy_nodes(self.head)
+        return cp
+
     def __repr__(self):
         return f'<HTMLDependency "{self.name}-{self.version}">'
 
@@ -1810,6 +1823,19 @@ class HTMLDependency(MetadataNode):
         return _equals_impl(self, other)
 
 
+# Copy a tree of tags without expanding any Tagifiable objects in it.
+def _copy_nodes(x: TagList) -> TagList:
+    cp = copy(x)
+    for i, child in enumerate(cp):
+        if isinstance(child, Tag):
+            child = copy(child)
+            child.children = _copy_nodes(child.children)
+            cp[i] = child
+        elif isinstance(child, MetadataNode):
+            cp[i] = copy(child)
+    return cp
+
+
 def _resolve_dependencies(deps: list[HTMLDependency]) -> list[HTMLDependency]:
     map: dict[str, HTMLDependency] = {}
     for dep in deps:
-- 
2.43.0


From cbf717e7b32cd9cb6fa9b3fe64c4b319334e9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 03/23] fix: using a tag as a context manager must not change
 what it is equal to

---
 htmltools/_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 636da28..c7d257b 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -2021,6 +2021,10 @@ def _equals_impl(x: Any, y: Any) -> bool:
     if not isinstance(y, type(x)):
         return False
     for key in x.__dict__.keys():
+        # The display hook that a Tag saves while it is used as a context manager is not
+        # part of its structure.
+        if key == "prev_displayhook":
+            continue
         if getattr(x, key, None) != getattr(y, key, None):
             return False
     return True
-- 
2.43.0


From 78c24f7b30243f5b52ab4f5287ea1482791246aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 04/23] fix: rendering an HTMLDocument must not alter the
 user's <html> tag

---
 htmltools/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index c7d257b..31f2615 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1148,8 +1148,9 @@ class HTMLDocument:
             and cast(Tag, content[0]).name == "html"
         ):
             html = cast(Tag, content[0])
-            html.attrs.update(**self._html_attr_args)
+            # tagify() makes a copy, so that the user's own tag isn't altered.
             html = html.tagify()
+            html.attrs.update(**self._html_attr_args)
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
-- 
2.43.0


From eacaed4b6cb9d9d18e7508a705c7326ccebc4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 05/23] fix: HTMLDocument must recognise an <html> or <body>
 that a Tagifiable object expands to

---
 htmltools/_core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 31f2615..28b161a 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1138,7 +1138,9 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Expand first, because the <html> or <body> may come from a Tagifiable object.
+        # tagify() also makes a copy, so the user's own tags aren't altered.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1147,9 +1149,8 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
-            # tagify() makes a copy, so that the user's own tag isn't altered.
-            html = html.tagify()
+            # The tag may be one that a Tagifiable object keeps, so don't alter it either.
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
@@ -1163,8 +1164,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 4f67caa4fcda94d3955e0df9b5f0e3d05c2ec7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 06/23] fix: is_tag_child() must accept integers

---
 htmltools/_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 28b161a..9a26006 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -208,6 +208,8 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
             # TagNode, # Handled above
             TagList,
             float,
+            # In type annotations, float also stands for int; isinstance() needs both
+            int,
             # None, # Handled above
             Sequence,
         ),
-- 
2.43.0


From de1e01ce1ce718f1b847e9a5b2737ae11d74efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 07/23] fix: TagList += must normalise its argument like the
 other operations

---
 htmltools/_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9a26006..008e6e9 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -322,6 +322,14 @@ class TagList(UserList[TagNode]):
 
         return TagList(*item, self)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Extend the children in place by adding an iterable of children.
+        """
+
+        self.extend(item)
+        return self
+
     def tagify(self) -> "TagList":
         """
         Convert any tagifiable children to Tag/TagList objects.
-- 
2.43.0


From b1cfbfdc190fe74962a9f5a41197c16526edb892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 08/23] fix: TagList operations must keep an HTML() string
 whole

---
 htmltools/_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 008e6e9..5abd01d 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -273,11 +273,11 @@ class TagList(UserList[TagNode]):
     <div id="foo" class="bar"></div>
     """
 
-    def _should_not_expand(self, x: object) -> TypeIs[str]:
+    def _should_not_expand(self, x: object) -> TypeIs[str | HTML]:
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -1961,7 +1961,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From bdad879dd81f6e5ad8b16c3ad13ec2038a5d0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 09/23] fix: plain attribute values merged with HTML() ones
 need attribute escaping

---
 htmltools/_core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 5abd01d..b10e663 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -565,12 +565,22 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    val = self._join_attr_values(attrz[nm], val)
 
                 attrz[nm] = val
 
         super().update(attrz)
 
+    @staticmethod
+    def _join_attr_values(x: str | HTML, y: str | HTML) -> str | HTML:
+        # If only one of them is HTML, then the result is HTML, and the other one needs
+        # the escaping that it would get on its own as the value of an attribute.
+        if isinstance(x, HTML) and not isinstance(y, HTML):
+            y = HTML(html_escape(y, attr=True))
+        elif isinstance(y, HTML) and not isinstance(x, HTML):
+            x = HTML(html_escape(x, attr=True))
+        return x + " " + y
+
     @staticmethod
     def _normalize_attr_name(x: str) -> str:
         # e.g., foo_Bar_ -> foo-Bar
-- 
2.43.0


From 32f7e925cf71918d03d404fe00a9acc7c56d0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 10/23] fix: class helpers must treat the classes of an HTML()
 value as markup

---
 htmltools/_core.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index b10e663..b903601 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -13,6 +13,7 @@ import urllib.parse
 import webbrowser
 from collections import UserList, UserString
 from copy import copy, deepcopy
+from html import unescape as html_unescape
 from pathlib import Path
 from typing import (
     Any,
@@ -794,14 +795,16 @@ class Tag:
             return self
 
         # Coerce and clean
-        class_ = str(class_).strip()
+        class_ = _class_text(class_).strip()
 
         # Remove the class value from the ordered set of class values
-        # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        new_classes = [
+            cls_val for cls_val in _split_class(cls) if _class_text(cls_val) != class_
+        ]
         if len(new_classes) > 0:
-            # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            # Store the new class value; if it was HTML, then what is left still is
+            new_cls = " ".join([str(x) for x in new_classes])
+            self.attrs.update({"class": HTML(new_cls) if isinstance(cls, HTML) else new_cls})
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -823,7 +826,8 @@ class Tag:
         """
         cls = self.attrs.get("class")
         if cls:
-            return class_ in cls.split()
+            class_ = _class_text(class_)
+            return class_ in [_class_text(cls_val) for cls_val in _split_class(cls)]
         else:
             return False
 
@@ -989,6 +993,20 @@ class Tag:
         return str(self)
 
 
+# Split the value of a class attribute into its class values.
+# Note: .split() splits on any whitespace and removes empty strings
+def _split_class(cls: str | HTML) -> Sequence[str | HTML]:
+    if isinstance(cls, HTML):
+        # Line breaks in plain text that was merged into the HTML value are escaped
+        return [HTML(x) for x in re.sub("&#1[03];", " ", cls.as_string()).split()]
+    return cls.split()
+
+
+# The text that a class value stands for; if it is HTML, then it may contain escapes.
+def _class_text(x: str | HTML) -> str:
+    return html_unescape(x.as_string()) if isinstance(x, HTML) else str(x)
+
+
 # Tags that have the form <tagname />
 _VOID_TAG_NAMES = {
     "area",
-- 
2.43.0


From 5c201a957ccf6215e8a483ef413f91a8c9d59008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 11/23] fix: save_html() must write the character set that the
 document declares

---
 htmltools/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index b903601..ec2be1a 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1164,7 +1164,8 @@ class HTMLDocument:
         for dep in rendered["dependencies"]:
             dep.copy_to(destdir, include_version=include_version)
 
-        with open(file, "w") as f:
+        # The document declares its own character set, <meta charset="utf-8"/>
+        with open(file, "w", encoding="utf-8") as f:
             f.write(rendered["html"])
         return file
 
-- 
2.43.0


From d50d1333ed404ee7b9ab5b5c7d7391abc6b2b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 12/23] fix: an unreadable source directory must not be copied
 as an empty one

---
 htmltools/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index ec2be1a..c8dd957 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1789,8 +1789,8 @@ class HTMLDependency(MetadataNode):
 
         # Collect all the source files
         if self.all_files:
-            path_src = Path(paths["source"])
-            src_files = [str(x.relative_to(path_src)) for x in path_src.glob("*")]
+            # Note: unlike Path.glob(), this doesn't ignore errors
+            src_files = os.listdir(paths["source"])
         else:
             src_files = [
                 *[s["src"] for s in self.script],
-- 
2.43.0


From b943d7276c748bb5f929f25f7b02e7f910cbeacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 13/23] fix: serialised dependencies must escape </script in
 any letter case

---
 htmltools/_core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index c8dd957..2d45f32 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1728,8 +1728,13 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" in a script tag, in any letter case, must be escaped
+            re.sub(
+                r"</(script)",
+                r"<\\/\1",
+                json.dumps(res, indent=indent),
+                flags=re.IGNORECASE,
+            ),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From 164207d29514a6ee2dabbf75e4292fa707730b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 14/23] fix: HTMLTextDocument must not add to the caller's list
 of dependencies

---
 htmltools/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 2d45f32..7232148 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1306,7 +1306,8 @@ class HTMLTextDocument:
         self._html = html
         if deps is None:
             deps = []
-        self._deps = deps
+        # A copy, because the dependencies found in the text are added to it
+        self._deps = list(deps)
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From 42088d885cb263c5205b5869d1a338fbe3ff6962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 15/23] fix: converting a JSX component must not change the
 component

---
 htmltools/_jsx.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..408ba94 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -121,20 +121,19 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
-                x = copy.copy(x)
+            # Always work on a copy: what .tagify() returned may belong to the object
+            x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
@@ -173,6 +172,14 @@ class JSXTag:
             *metadata_nodes,
         )
 
+    def __copy__(self) -> "JSXTag":
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        cp.__dict__.update(self.__dict__)
+        cp.attrs = copy.copy(self.attrs)
+        cp.children = copy.copy(self.children)
+        return cp
+
     def __str__(self) -> str:
         return str(self.tagify())
 
-- 
2.43.0


From f5d27b81ce25a6c22d43c34ce336f6160e0ca6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 16/23] fix: JSX components must expand descendants in lists,
 dicts and TagLists

---
 htmltools/_jsx.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 408ba94..2c9a7cf 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -194,20 +194,30 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
-    elif isinstance(x, Tagifiable):
-        # Don't do anything here?
-        pass
+        x.children = _walk_children(x.children, fn)
+    elif isinstance(x, TagList):
+        x = _walk_children(x, fn)
+    elif isinstance(x, (list, tuple)):
+        x = [_walk_attrs_and_children(y, fn) for y in cast(Iterable[Any], x)]
+    elif isinstance(x, dict):
+        x1: dict[Any, Any] = x  # make pyright happy
+        x = {key: _walk_attrs_and_children(value, fn) for key, value in x1.items()}
 
     return x
 
 
+# A child that expands to a TagList is replaced by the items of that TagList.
+def _walk_children(x: TagList, fn: Callable[[Any], Any]) -> TagList:
+    res = TagList()
+    for child in x:
+        res.append(_walk_attrs_and_children(child, fn))
+    return res
+
+
 # Return a string representing the rendered HTML for the given JSXTag object. The
 # metadata_nodes object collects MetadataNode objects in the tree, and is altered by
 # reference as a side-effect of this function.
@@ -264,7 +274,7 @@ def _serialize_attr(x: object) -> str:
         return "null"
     if isinstance(x, Tag) or isinstance(x, JSXTag):
         return _render_react_js(x, 0, "\n")
-    if isinstance(x, (list, tuple)):
+    if isinstance(x, (list, tuple, TagList)):
         return (
             "[" + ", ".join([_serialize_attr(y) for y in cast(Iterable[Any], x)]) + "]"
         )
-- 
2.43.0


From 6ab71659bcf9ddef8b263bfa22c53257e7f82ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 17/23] fix: an empty list of allowed JSX props must reject all
 props

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 2c9a7cf..ef4a01b 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -94,7 +94,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From a30ae12c2e712165109dceba05acc7789592da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 18/23] fix: JSX style props must accept jsx() expressions and
 values with a colon

---
 htmltools/_jsx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index ef4a01b..899daeb 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -291,11 +291,13 @@ def _serialize_attr(x: object) -> str:
 def _serialize_style_attr(x: object) -> str:
     if x is None:
         return "{}"
+    if isinstance(x, jsx):
+        return str(x)
     # Parse CSS strings into a dict (because React requires it)
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From fad83959c39efda51931865c09b854ef2ed8d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 19/23] fix: a metadata node in a JSX prop must not be written
 as text

---
 htmltools/_jsx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 899daeb..a9709c7 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -270,7 +270,8 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
 # Unfortunately we can't use json.dumps() here because I don't know how to
 # avoid quoting jsx(), jsx_tag(), tag(), etc.
 def _serialize_attr(x: object) -> str:
-    if x is None:
+    # Like among children, a metadata node has no representation of its own
+    if x is None or isinstance(x, MetadataNode):
         return "null"
     if isinstance(x, Tag) or isinstance(x, JSXTag):
         return _render_react_js(x, 0, "\n")
-- 
2.43.0


From a44ee6720be3579df7f109bd6a581495139e62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 20/23] fix: a copy of a tag does not take over (and copy) the
 display hook saved by its context manager

---
 htmltools/_core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 7232148..48ffe0a 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -706,8 +706,14 @@ class Tag:
         cp = cls.__new__(cls)
         # Any instance fields (like .children, and _attrs for the tag subclass) are
         # shallow-copied.
-        new_dict = {key: copy(value) for key, value in self.__dict__.items()}
+        new_dict = {
+            key: copy(value)
+            for key, value in self.__dict__.items()
+            if key != "prev_displayhook"
+        }
         cp.__dict__.update(new_dict)
+        # The display hook isn't part of the tag, and the copy has not been entered.
+        cp.prev_displayhook = None
         return cp
 
     def __enter__(self) -> None:
-- 
2.43.0


From eb0bc76c39104513ccfda59f009e1079b81735c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 21/23] fix: write the keys of dict props in JSX as string
 literals

---
 htmltools/_jsx.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index a9709c7..64f9acd 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -227,7 +227,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     if isinstance(x, MetadataNode):
         return ""
     elif isinstance(x, str):
-        return indent_str + '"' + x.replace('"', '\\"') + '"'
+        return indent_str + _quote_js(x)
 
     if isinstance(x, JSXTag):
         nm = x.name
@@ -253,7 +253,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
             v = _serialize_style_attr(v)
         else:
             v = _serialize_attr(v)
-        res += f'"{k}": {v}'
+        res += f"{_quote_js(k)}: {v}"
     res += "}"
 
     if len(x.children) == 0:
@@ -281,12 +281,20 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        return (
+            "{"
+            + ", ".join([_quote_js(str(y)) + ": " + _serialize_attr(x1[y]) for y in x1])
+            + "}"
+        )
     if isinstance(x, bool):
         return str(x).lower()
     if isinstance(x, (jsx, int, float)):
         return str(x)
-    return '"' + str(x).replace('"', '\\"') + '"'
+    return _quote_js(str(x))
+
+
+def _quote_js(x: str) -> str:
+    return '"' + x.replace('"', '\\"') + '"'
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0


From 1922d2b5fc3bc0a74ce58d1ecf712bf48106a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 22/23] fix: write infinite and NaN numbers in JSX props as
 JavaScript

---
 htmltools/_jsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 64f9acd..8337f8e 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import math
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -288,6 +289,8 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, bool):
         return str(x).lower()
+    if isinstance(x, float) and not math.isfinite(x):
+        return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
     return _quote_js(str(x))
-- 
2.43.0


From befa01bad8bb6ed10d9dce07a8c8da1b003a129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 23/23] fix: saving next to a dependency's own source directory
 does not delete it

copy_to() cleared the target directory before copying; when that is the source
directory itself, or contains it, the files to copy were deleted.
---
 htmltools/_core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 48ffe0a..5773539 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1820,6 +1820,16 @@ class HTMLDependency(MetadataNode):
 
         # Set up the target directory.
         target_dir = Path(os.path.join(path, paths["href"])).resolve()
+        source_dir = Path(paths["source"]).resolve()
+        if target_dir == source_dir:
+            # The files already are where they are needed
+            return None
+        if target_dir in source_dir.parents:
+            # Clearing the target directory would delete the files to copy
+            raise Exception(
+                f"Failed to copy HTML dependency {self.name}-{str(self.version)} "
+                + f"because its source directory is inside of {target_dir}."
+            )
         if os.path.exists(target_dir):
             shutil.rmtree(target_dir)
         target_dir.mkdir(parents=True, exist_ok=True)
-- 
2.43.0

