From 35137bcb81e03e3123010de281686ea976fbc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 01/31] fix: never rewrite a user asset that already lives in
 static/

---
 rsm/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsm/builder.py b/rsm/builder.py
index 3c8552f..7034e7e 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -129,4 +129,7 @@ class FullBuilder(SingleFileBuilder):
         source = open_fs(str(Path().resolve()))
 
         for fn in self.required_assets:
+            target = Path("static") / fn.name
+            if fn.resolve() == target.resolve() and target.is_file():
+                continue  # already in place: never rewrite the user's own file
             copy_file(source, str(fn), self.web, f"static/{fn.name}")
-- 
2.43.0


From e52d8df3cb9ff7548f85bcd20f403173a4c0d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 02/31] fix: FullBuildApp and make() honour handrails,
 run_linter and log_lineno

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From 7b2093f2b7e6718ea15fda1c4517c52e0d7c7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 03/31] fix: RSMFormatter handles records without an end point
 and honours log_lineno

---
 rsm/rsmlogger.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..63372a0 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -48,7 +48,9 @@ class RSMFormatter(logging.Formatter):
     time = grey + "%(asctime)s " + reset
     name = blue + "%(name)s " + reset
     msgformat = "%(levelname)-3s | %(message)s" + reset
-    point = " | (%(start_row)d, %(start_col)d) - (%(end_row)d, %(end_col)d) | " + reset
+    start = " | (%(start_row)d, %(start_col)d)"
+    end = " - (%(end_row)d, %(end_col)d)"
+    point = start + end + " | " + reset
     suffix = grey + " (%(filename)s:%(lineno)d)" + reset
 
     COLORS = {
@@ -70,12 +72,20 @@ class RSMFormatter(logging.Formatter):
             + self.name
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
-            + (self.point if hasattr(record, "start_row") else "")
-            + self.suffix
+            + self._point(record)
+            + (self.suffix if self.log_lineno else "")
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
 
+    def _point(self, record: logging.LogRecord) -> str:
+        # not every record that knows where it starts also knows where it ends
+        if not hasattr(record, "start_row"):
+            return ""
+        if not hasattr(record, "end_row"):
+            return self.start + " | " + self.reset
+        return self.point
+
 
 class JSONFormatter(logging.Formatter):
     def __init__(self, log_time: bool = True, log_lineno: bool = True, *args: Any, **kwargs: Any) -> None:
-- 
2.43.0


From 0910a3362dc297d9b0e37367aa205b4f9b98a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 04/31] fix: read sources as UTF-8 whatever the locale

---
 rsm/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/reader.py b/rsm/reader.py
index 0c16b0f..7f805e0 100644
--- a/rsm/reader.py
+++ b/rsm/reader.py
@@ -43,6 +43,6 @@ class Reader:
         if not path:
             raise TypeError("Expected path, got None")
         self.path = Path(path)
-        with open(path) as file:
+        with open(path, encoding="utf-8") as file:
             self.src = file.read()
         return self.src
-- 
2.43.0


From 54f601d41e6090a81bd7f9cf7e8adf5dafc30f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 05/31] fix: HandrailsTranslator no longer eats text of the
 tree it translates

---
 rsm/translator.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..8fd6e83 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1784,12 +1784,22 @@ class HandrailsTranslator(Translator):
         batch = AppendBatch(batch.items)
         return batch
 
+    def _is_followed_by_dot(self, node: nodes.Node | None) -> bool:
+        if not isinstance(node, nodes.Math):
+            return False
+        sib = node.next_sibling()
+        return isinstance(sib, nodes.Text) and sib.text.startswith(".")
+
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        # The dot was already placed by leave_math().  Do not remove it from the tree
+        # itself, otherwise the same tree cannot be translated more than once.
+        if node.text.startswith(".") and self._is_followed_by_dot(node.prev_sibling()):
+            return AppendText(node.text[1:])
+        return super().visit_text(node)
+
     def visit_math(self, node: nodes.Math) -> EditCommand:
         batch = super().visit_math(node)
-        sib = node.next_sibling()
-        if not isinstance(sib, nodes.Text):
-            return batch
-        if not sib.text.startswith("."):
+        if not self._is_followed_by_dot(node):
             return batch
 
         # We reach this branch only if the Math node is immediately followed by Text
@@ -1797,7 +1807,6 @@ class HandrailsTranslator(Translator):
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
         # way to fix it is to wrap the math and the dot in a span, and remove the dot
         # from the subsequent text.  The span is then dealt with using CSS.
-        node._followed_by_dot = True
         batch.items.insert(
             0,
             AppendOpenTagManualClose(
@@ -1806,12 +1815,11 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
-        if not getattr(node, "_followed_by_dot", False):
+        if not self._is_followed_by_dot(node):
             return batch
         batch.items.extend([AppendText("<span>.</span>"), AppendText("</span>")])
         return batch
-- 
2.43.0


From 175ddf0d852a1fa14c1943dbc9f086a2b62fc896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:57 +0000
Subject: [PATCH 06/31] fix: Transformer forgets the labels of the previous
 manuscript

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..51f861d 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -135,6 +135,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From 5585c9bb51700ea3eaa1282d3fd07878fabdee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 07/31] fix: rejected node edits leave the tree as it was,
 prepend never duplicates a child

---
 rsm/nodes.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..5cc51b5 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -389,17 +389,16 @@ class Node:
 
     @parent.setter
     def parent(self, node: Optional["NodeWithChildren"]) -> None:
-        if node is None:
-            self._parent = None
-        elif not self.__class__.possible_parents:
-            self._parent = node
-        else:
-            possible_parents = self.__class__.possible_parents
-            if possible_parents and type(node) not in possible_parents:
-                raise RSMNodeError(
-                    f"Node of type {type(self)} cannot have parent of type {type(node)}"
-                )
-            self._parent = node
+        if node is not None:
+            self._check_possible_parent(node)
+        self._parent = node
+
+    def _check_possible_parent(self, node: "NodeWithChildren") -> None:
+        possible_parents = self.__class__.possible_parents
+        if possible_parents and type(node) not in possible_parents:
+            raise RSMNodeError(
+                f"Node of type {type(self)} cannot have parent of type {type(node)}"
+            )
 
     @property
     def children(self) -> tuple:
@@ -759,7 +758,8 @@ class Node:
         Raises
         ------
         RSMNodeError
-            If this Node's parent is None.
+            If this Node's parent is None, or if a replacement cannot take its place; in
+            either case the tree is left as it was.
 
         See Also
         --------
@@ -811,14 +811,15 @@ class Node:
         ids = [id(c) for c in self.parent.children]
         index = ids.index(id(self))
         parent = self.parent
+        reps = [replacement] if isinstance(replacement, Node) else list(replacement)
+        for rep in reps:
+            if rep.parent is not None and rep is not self:
+                raise RSMNodeError("Attempting to replace with a node with a parent")
+            rep._check_possible_parent(parent)
         self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        for idx, rep in enumerate(reps):
+            parent._children.insert(index + idx, rep)
+            rep.parent = parent
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -940,8 +941,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
+            child.parent = self  # raises before the child is added
             self._children.append(child)
-            child.parent = self
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
@@ -962,8 +963,10 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
+            if child.parent is self:
+                self.remove(child)
+            child.parent = self  # raises before the child is added
             self._children.insert(0, child)
-            child.parent = self
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From 6ef1e292a8fe8a69bf33a399683e08bfe47e0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 08/31] fix: rsm-make --serve rebuilds sources whose path has
 spaces or quotes

---
 rsm/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/cli.py b/rsm/cli.py
index f3a68df..0708bc6 100644
--- a/rsm/cli.py
+++ b/rsm/cli.py
@@ -123,8 +123,7 @@ def make() -> int:
     args = parser.parse_args()
 
     if args.serve:
-        other_args = [a for a in sys.argv if a != "--serve"]
-        cmd = " ".join(other_args)
+        cmd = [a for a in sys.argv if a != "--serve"]
         server = livereload.Server()
         server.watch(args.src, livereload.shell(cmd))
         main(parser, app.make, args)
-- 
2.43.0


From 860a050c326655a1924ffcd9c10e873bc28ca761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 09/31] fix: a translator can be used again after a translation
 that failed

---
 rsm/translator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 8fd6e83..013fcae 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -554,6 +554,7 @@ class Translator:
             logger.info("Translating...")
         if new:
             self.body = ""
+            self.deferred = []  # may be left over from a translation that failed
         self.tree = tree
 
         if self.deferred:
-- 
2.43.0


From 1c14af11620347a4299d157ae0d439f2f95dc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 10/31] fix: build in directories whose path has URL or
 variable characters

---
 rsm/builder.py | 6 +++---
 rsm/writer.py  | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 7034e7e..6a86c3e 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -7,8 +7,8 @@ from pathlib import Path
 from textwrap import dedent
 from typing import Optional
 
-from fs import open_fs
 from fs.copy import copy_file
+from fs.osfs import OSFS
 from icecream import ic
 
 from .manuscript import WebManuscript
@@ -117,7 +117,7 @@ class FullBuilder(SingleFileBuilder):
     def mount_static(self) -> None:
         working_path = Path(__file__).parent.absolute()
         source_path = (working_path / "static").resolve()
-        source = open_fs(str(source_path))
+        source = OSFS(str(source_path), expand_vars=False)
 
         self.web.makedir("static")
         for fn in [
@@ -126,7 +126,7 @@ class FullBuilder(SingleFileBuilder):
             copy_file(source, fn, self.web, f"static/{fn}")
 
     def mount_required_assets(self) -> None:
-        source = open_fs(str(Path().resolve()))
+        source = OSFS(str(Path().resolve()), expand_vars=False)
 
         for fn in self.required_assets:
             target = Path("static") / fn.name
diff --git a/rsm/writer.py b/rsm/writer.py
index 6b53ff3..965b399 100644
--- a/rsm/writer.py
+++ b/rsm/writer.py
@@ -5,6 +5,7 @@ from pathlib import Path
 from typing import Optional
 
 from fs.copy import copy_fs
+from fs.osfs import OSFS
 
 from .manuscript import WebManuscript
 
@@ -20,4 +21,6 @@ class Writer:
 
     def write(self, web: WebManuscript) -> None:
         self.web = web
-        copy_fs(web, "./")
+        # a plain directory, not an URL: the path may contain characters such as % or $
+        with OSFS("./", expand_vars=False) as dst:
+            copy_fs(web, dst)
-- 
2.43.0


From 544520847b6b168a2692a98b109eb2f5c4a2facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 11/31] fix: a handrail's collapse icon is its own, not a
 nested one's

---
 rsm/static/handrails.js | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8b584ff..a1b80b5 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -71,7 +71,7 @@ function openHandrail(hr) {
   hr.classList.remove("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.remove("hide"); });
-  const icon = hr.querySelector("& .icon.expand");
+  const icon = getOwnIcon(hr, "expand");
   if (!icon) return;
   icon.classList.remove("expand");
   icon.classList.add("collapse");
@@ -89,7 +89,7 @@ function closeHandrail(hr) {
   hr.classList.add("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.add("hide"); });
-  const icon = hr.querySelector("& .icon.collapse");
+  const icon = getOwnIcon(hr, "collapse");
   if (!icon) return;
   icon.classList.remove("collapse");
   icon.classList.add("expand");
@@ -103,6 +103,15 @@ function closeHandrail(hr) {
 }
 
 
+// Handrails can be nested: only consider icons in the handrail's own zones.
+function getOwnIcon(hr, name) {
+  return hr.querySelector(`
+      & > .hr-collapse-zone > .hr-collapse > .icon.${name},
+      & > .hr-menu-zone > .hr-menu > .hr-menu-item > .icon.${name}
+  `);
+}
+
+
 function getRest(hr) {
   let rest;
   if (hr.classList.contains("hr-labeled")) {
-- 
2.43.0


From 1d8c674740f6b5a98017f0cabf80e13b145142a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 12/31] fix: collapse all uses the menu item of the handrail it
 was invoked on

---
 rsm/static/handrails.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index a1b80b5..125eeb4 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -134,7 +134,7 @@ export function collapseAll(target, withinSubproof = true) {
   }
 
   const hr = target.closest(".hr");
-  const ex_icon = hr.querySelector("& .icon.expand-all");
+  const ex_icon = getOwnIcon(hr, "expand-all");
   if (ex_icon) {
     hr.querySelectorAll(qry).forEach(st => openHandrail(st));
     ex_icon.classList.remove("expand-all");
@@ -151,7 +151,7 @@ export function collapseAll(target, withinSubproof = true) {
     return;
   }
 
-  const co_icon = hr.querySelector("& .icon.collapse-all");
+  const co_icon = getOwnIcon(hr, "collapse-all");
   if (co_icon) {
     hr.querySelectorAll(qry).forEach(st => closeHandrail(st));
     co_icon.classList.remove("collapse-all");
-- 
2.43.0


From 40c6dbbe1fe26df37a452173f319555c091796b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 13/31] fix: keyboard.js finds handrails.js wherever the static
 files are served

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b669d10..ca84aa9 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll } from '/static/handrails.js';
+import { toggleHandrail, collapseAll } from './handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
-- 
2.43.0


From c38b2b43fe3a3a7b81ec3b4c857db89cab3f5911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 14/31] fix: H, and h or l with nothing focused, focus the top
 element

---
 rsm/static/keyboard.js | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index ca84aa9..ceac511 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -25,7 +25,7 @@ export function setup(root) {
 
   // Navigation: back to top
   root.addEventListener('keydown', (event) => {
-    if (event.key == "H") { event.stopPropagation(); focusTop(); };
+    if (event.key == "H") { event.stopPropagation(); focusTop(root); };
   });
 
   // Basic actions on the currently focused element
@@ -78,9 +78,10 @@ export function setup(root) {
 
 
 function focusTop(root) {
-  const focusable = getFocusableElements(root);
-  focusable[0].focus();
-  scrollToMiddle(focusable[0], "up");
+  const top = getFocusableElements(root).find(isFocusable);
+  if (!top) return;
+  top.focus();
+  scrollToMiddle(top);
 }
 
 
@@ -151,7 +152,7 @@ function focusUpOrDown(direction, root) {
 
   // If not focused on anything, just focus the top element.
   if (index == -1) {
-    maybeScrollToMiddle(focusableElements[0], direction);
+    focusTop(root);
     return;
   }
 
-- 
2.43.0


From fd9b8812a766d69b1a32abae93f2a853895a5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 15/31] fix: j and k never get stuck on a collapsed handrail
 that is itself hidden

---
 rsm/static/keyboard.js | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index ceac511..6787f6a 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -216,16 +216,17 @@ function focusUpOrDown(direction, root) {
 
 
 function focusPrevOrNext(direction, root) {
-  const focusableElements = getFocusableElements(root);
+  const focusableElements = getFocusableElements(root).filter(
+    el => el === document.activeElement || isFocusable(el)
+  );
+  if (!focusableElements.length) return;
   let index = focusableElements.indexOf(document.activeElement);
   console.log('index of current focused element:', index);
   if (index !== -1) {
     if (direction == "next") {
-      do { index = (index + 1) % focusableElements.length; }
-      while (!isFocusable(focusableElements[index]));
+      index = (index + 1) % focusableElements.length;
     } else if (direction == "prev") {
-      do { index = (index - 1 + focusableElements.length) % focusableElements.length; }
-      while (!isFocusable(focusableElements[index]));
+      index = (index - 1 + focusableElements.length) % focusableElements.length;
     } else {
       console.log(`unknown direction ${direction}`);
     }
@@ -285,9 +286,8 @@ function toggleMenu(el) {
 
 
 function isFocusable(el) {
-  if (el.classList.contains("hr-collapsed") && !el.classList.contains("hide")) return true;
-  if (el.closest(".hr-collapsed") || el.closest(".hide")) return false;
-  return true;
+  // A collapsed handrail can itself be focused, as opposed to whatever is inside it.
+  return !el.closest(".hide") && !el.parentElement.closest(".hr-collapsed");
 }
 
 
-- 
2.43.0


From 5f32b1bb8cee017aa0badc3b202e9f064280514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 16/31] fix: the ; key does not execute a disabled collapse-all
 item

---
 rsm/static/keyboard.js | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 6787f6a..fc500f0 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -263,10 +263,7 @@ function toggleCollapse(el) {
 
 function toggleCollapseAll(el) {
   if (!el.classList.contains("hr")) return;
-  const collAll = el.querySelector(`
-        & > .hr-menu-zone .collapse-all:not(.disabled),
-        & > .hr-menu-zone .expand-all:not(.disabled)
-    `);
+  const collAll = el.querySelector("& > .hr-menu-zone .collapse-steps:not(.disabled)");
   const withinSubproof = el.classList.contains("step");
   if (collAll) collapseAll(el, withinSubproof);
 }
-- 
2.43.0


From 58da6cbb8cad1199816bb2901008df76c105584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 17/31] fix: arrow keys only move within an open menu, with a
 single active item

---
 rsm/static/keyboard.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index fc500f0..1dde3a6 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -119,7 +119,7 @@ function executeActiveMenuItem(el) {
 
 function menuUpOrDown(el, direction) {
   const menu = el.querySelector("& > .hr-menu-zone");
-  if (!getComputedStyle(menu).display == "none") return;
+  if (!menu || getComputedStyle(menu).display == "none") return;
 
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
@@ -140,7 +140,7 @@ function menuUpOrDown(el, direction) {
   } else if (direction == "up") {
     index = (index - 1 + allItems.length) % allItems.length;
   }
-  if (currentItem) currentItem.classList.remove("active");
+  allItems.forEach(it => it.classList.remove("active"));
   allItems[index].classList.add("active");
 }
 
-- 
2.43.0


From ddea7f9bb7f3fff8e92b59a261143f305def77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 18/31] fix: Enter on a menu item does what clicking it does

---
 rsm/static/handrails.js | 2 +-
 rsm/static/keyboard.js  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 125eeb4..ad5c019 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -169,7 +169,7 @@ export function collapseAll(target, withinSubproof = true) {
 
 };
 
-async function copyLink(target) {
+export async function copyLink(target) {
   const url = document.location.href.split('#')[0];
   const hr = target.closest(".hr")
   let needs_anchor = true;
diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 1dde3a6..d45ac7c 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll } from './handrails.js';
+import { toggleHandrail, collapseAll, copyLink } from './handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
@@ -109,7 +109,10 @@ function executeActiveMenuItem(el) {
       toggleHandrail(el);
       break;
     case "collapse-steps":
-      collapseAll(el);
+      collapseAll(el, el.classList.contains("step"));
+      break;
+    case "link":
+      copyLink(el);
       break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
-- 
2.43.0


From 2fbd5dc3e23f006c61d0c8b25226b5ed35614565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 19/31] fix: the minimap works without a table of contents and
 with any section label

---
 rsm/static/minimap.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 491963e..05c36f8 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -20,7 +20,8 @@ export function setup() {
   window.addEventListener('scroll', () => {
     const toc_mm = document.querySelector(".toc-wrapper > .minimap");
     const float_mm = document.querySelector(".float-minimap-wrapper > .minimap");
-    if (withinView(toc_mm, false)) {
+    if (!float_mm) return;
+    if (toc_mm && withinView(toc_mm, false)) {
       float_mm.classList.add("hide");
     } else {
       float_mm.classList.remove("hide");
@@ -36,7 +37,7 @@ export function setup() {
     if (isHidden) return;
 
     const lastInViewport = sections.findLast(sec => withinView(sec, true));
-    const circle = document.querySelector(`#mm-${lastInViewport?.id}`)
+    const circle = lastInViewport?.id && document.getElementById(`mm-${lastInViewport.id}`);
     let percent;
     if (circle) {
       const circle_rect = circle.getBoundingClientRect();
@@ -63,6 +64,6 @@ function withinView(el, top = true) {
 
 
 function highlightMinimap(percent, name) {
-  document.getElementById(`stop-follow-${name}-1`).setAttribute("offset", `${percent}%`);
-  document.getElementById(`stop-follow-${name}-2`).setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-1`)?.setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-2`)?.setAttribute("offset", `${percent}%`);
 }
-- 
2.43.0


From a6c469f2fea379e77f376718e6f5eb7ba853cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 20/31] fix: the page is set up even if libraries.js cannot be
 loaded

---
 rsm/static/onload.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 5c6071a..9a929c0 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -8,7 +8,12 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
   console.log("onload root:", root);
 
   try {
-    const libs = await import(`${path}libraries.js`);
+    let libs;
+    try {
+      libs = await import(`${path}libraries.js`);
+    } catch (err) {
+      console.error("Loading libraries.js FAILED!", err);
+    }
 
     // Icons
     try {
-- 
2.43.0


From 2d8cdd083c5571ff601c220796a80ba1b20d00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 21/31] fix: render every algorithm in the page, not only the
 first

---
 rsm/static/onload.js | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 9a929c0..a3b08f6 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -53,12 +53,16 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       await libs.loadPseudocode();
 
       const elements = document.querySelectorAll("pre.pseudocode");
-      if (elements.length) {
-        pseudocode.renderElement(elements[0], {
-          lineNumber: true,
-          noEnd: true,
-        });
-      }
+      elements.forEach(el => {
+        try {
+          pseudocode.renderElement(el, {
+            lineNumber: true,
+            noEnd: true,
+          });
+        } catch (err) {
+          console.error("Rendering pseudocode FAILED!", err);
+        }
+      });
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
     }
-- 
2.43.0


From 49dff53ed5fc6114d0ad4afd7d490280de627e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:57 +0000
Subject: [PATCH 22/31] fix: the link of an abstract's heading leads to the
 abstract

---
 rsm/static/handrails.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index ad5c019..317c1e5 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -178,7 +178,7 @@ export async function copyLink(target) {
   if (!hr.classList.contains("heading")) {
     anchor = hr.id;
   } else {
-    const section = hr.closest("section");
+    const section = hr.parentElement.closest(".abstract, section");
     if (!section.classList.contains("level-1")) {
       anchor = section.id;
     } else {
-- 
2.43.0


From d3c4adddaf71100e2c9ce386a4037c515c6a01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 23/31] fix: no label or URL of one reference disables the
 tooltips of the others

---
 rsm/static/tooltips.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b63294b..4e5acfe 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -27,10 +27,8 @@ export function createTooltips() {
       }
       let content = "";
 
-      // escape '.' since it gets confused with a class
-      target = target.replaceAll(".", "\\.");
-      // escape ':' since it gets confused with the protocol
-      target = target.replaceAll(":", "\\:");
+      // only references within the page have something to show
+      if (!target.startsWith("#")) return;
       if (target == "#") {
         content = '<span class="error">target node has no label</span>';
         setTooltipContent(instance, content);
@@ -38,6 +36,9 @@ export function createTooltips() {
         return;
       };
 
+      // labels may contain characters that are special in selectors
+      target = "#" + $.escapeSelector(target.slice(1));
+
       let tag = $(target).prop('tagName');
 
       if (!$(target)[0]) {
-- 
2.43.0


From 3691606cf898eda4be40df2f9a3159c7a1d55c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 24/31] fix: references to lemmas, definitions, proofs and the
 like have a tooltip

---
 rsm/static/tooltips.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index 4e5acfe..3d82686 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -83,7 +83,10 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem"].includes(cls)).length > 0:
+          case Array.from(classes).filter(cls => [
+            "paragraph", "mathblock", "bibitem", "abstract", "proof", "sketch",
+            "theorem", "lemma", "corollary", "example", "exercise", "proposition", "problem", "porism", "remark", "definition",
+          ].includes(cls)).length > 0:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
-- 
2.43.0


From efc0991154e9ae20e1e1c0e21c6af530e3a1c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 25/31] fix: moving to an element taller than the window never
 scrolls it off the screen

---
 rsm/static/keyboard.js | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index d45ac7c..ab8b31b 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -317,13 +317,10 @@ function maybeScrollToMiddle(element, direction) {
   let scrollAmount;
   if (elementHeight > viewportHeight) {
     // element taller than viewport: just align its top with the top of the viewport
-    scrollAmount = -elementTop;
+    scrollAmount = elementTop;
   } else {
-    // If scrolling would push the element's top above the viewport,
-    // limit the scroll to align the top of the element with the top of the viewport
-    if (elementTop + offset < 0) scrollAmount = -elementTop;
     // Otherwise, scroll to center the element (if far enough from center)
-    else if (farEnoughFromCenter) scrollAmount = offset;
+    if (farEnoughFromCenter) scrollAmount = offset;
     else return;
   }
 
-- 
2.43.0


From 576446a3cb8c130cb89ae4c2946e75ac215fe766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 26/31] fix: the i key on a reference inside an open tooltip
 does not raise an error

---
 rsm/static/keyboard.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index ab8b31b..f11abb0 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -86,7 +86,8 @@ function focusTop(root) {
 
 
 function toggleTooltip(el) {
-  if (!el.classList.contains("tooltipstered")) return;
+  // references copied into an open tooltip have the class but no tooltip of their own
+  if (!el.classList.contains("tooltipstered") || !$.tooltipster.instances(el).length) return;
   if ($(el).tooltipster("status").open) {
     $(el).tooltipster("close");
   } else {
-- 
2.43.0


From 4b25c0af779a66763ad4e411c3abd65cadecd9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:51 +0000
Subject: [PATCH 27/31] fix: examples in the documentation look for RSM's files
 where Sphinx puts them

The script passed the static path as onload's first argument, which is the
root element: nothing of the embedded manuscripts was set up, and the files
were looked for under /static/. Keys stay off, since the pages belong to the
documentation's theme, whose search field needs them.
---
 docs/source/rsm_directive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/source/rsm_directive.py b/docs/source/rsm_directive.py
index cdd6ecf..cc17e26 100644
--- a/docs/source/rsm_directive.py
+++ b/docs/source/rsm_directive.py
@@ -88,9 +88,9 @@ def add_rsm_static_files(app):
         type="module",
         body="""\
         import { onload } from '../_static/onload.js';
-        window.addEventListener('load', (ev)=>{onload('"""
+        window.addEventListener('load', (ev)=>{onload(null, {path: '"""
         + (cfg.rsm_static_path_prod if cfg.rsm_build_prod else cfg.rsm_static_path_dev)
-        + "')});\n",
+        + "', keys: false})});\n",
     )
 
 
-- 
2.43.0


From f9dd8284c39e2bd264cd3a9b337ff6b1705eda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:35 +0000
Subject: [PATCH 28/31] fix: a rebuild under an abbreviated --serve does not
 start another server

---
 rsm/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsm/cli.py b/rsm/cli.py
index 0708bc6..c492df2 100644
--- a/rsm/cli.py
+++ b/rsm/cli.py
@@ -123,7 +123,10 @@ def make() -> int:
     args = parser.parse_args()
 
     if args.serve:
-        cmd = [a for a in sys.argv if a != "--serve"]
+        # argparse also accepts --serve abbreviated, down to --se
+        cmd = [
+            a for a in sys.argv if not (a.startswith("--se") and "--serve".startswith(a))
+        ]
         server = livereload.Server()
         server.watch(args.src, livereload.shell(cmd))
         main(parser, app.make, args)
-- 
2.43.0


From 9eae204e083b5d055e64804b4902e741345eebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:03 +0000
Subject: [PATCH 29/31] fix: a node cannot be put below itself

---
 rsm/nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 5cc51b5..0b2ae1c 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -399,6 +399,11 @@ class Node:
             raise RSMNodeError(
                 f"Node of type {type(self)} cannot have parent of type {type(node)}"
             )
+        ancestor: Optional[Node] = node
+        while ancestor is not None:
+            if ancestor is self:
+                raise RSMNodeError("Cannot put a node below itself")
+            ancestor = ancestor.parent
 
     @property
     def children(self) -> tuple:
-- 
2.43.0


From cd04484861acadce053d59403e7801f1510a7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:11 +0000
Subject: [PATCH 30/31] fix: referenced assets may lie above the working
 directory

---
 rsm/builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 6a86c3e..4b73369 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -126,10 +126,14 @@ class FullBuilder(SingleFileBuilder):
             copy_file(source, fn, self.web, f"static/{fn}")
 
     def mount_required_assets(self) -> None:
-        source = OSFS(str(Path().resolve()), expand_vars=False)
+        # assets are relative to the working directory, but need not lie below it
+        cwd = Path().resolve()
+        source = OSFS(cwd.anchor, expand_vars=False)
 
         for fn in self.required_assets:
-            target = Path("static") / fn.name
+            path = cwd / str(fn).lstrip("/")  # in a page, / is the root of the site
+            target = cwd / "static" / fn.name
             if fn.resolve() == target.resolve() and target.is_file():
                 continue  # already in place: never rewrite the user's own file
+            fn = path.relative_to(cwd.anchor)
             copy_file(source, str(fn), self.web, f"static/{fn.name}")
-- 
2.43.0


From fd5d5513196503df86079c9463a6d49a59aa9204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:11 +0000
Subject: [PATCH 31/31] fix: an asset given as /static/name is not overwritten
 with itself

---
 rsm/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 4b73369..bd1ae81 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -133,7 +133,7 @@ class FullBuilder(SingleFileBuilder):
         for fn in self.required_assets:
             path = cwd / str(fn).lstrip("/")  # in a page, / is the root of the site
             target = cwd / "static" / fn.name
-            if fn.resolve() == target.resolve() and target.is_file():
+            if path.resolve() == target.resolve() and target.is_file():
                 continue  # already in place: never rewrite the user's own file
             fn = path.relative_to(cwd.anchor)
             copy_file(source, str(fn), self.web, f"static/{fn.name}")
-- 
2.43.0

