From 6a84920a81b9967ecf17f54b6db1c1cef153973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 01/66] fix: imports guarded by except* are optional

---
 modulegraph2/_ast_tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..028371a 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -10,6 +10,12 @@ from typing import Deque
 
 from ._importinfo import ImportInfo, create_importinfo
 
+#: AST nodes for try statements, "except*" has its own node type
+#: in Python 3.11 and later.
+TRY_NODES: tuple[type[ast.AST], ...] = (ast.Try,)
+if hasattr(ast, "TryStar"):
+    TRY_NODES += (ast.TryStar,)
+
 
 def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
     """
@@ -61,7 +67,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, TRY_NODES):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From 5ec2339426bddf1d2233843fa25934005f48885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 02/66] fix: relative imports in scripts are always invalid

---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..690391a 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -514,6 +515,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # Scripts are not in a package (and their name is a filesystem path)
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From 0c2a8a31c3a05b9bc7a3ebb91f4ba01016bccc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 03/66] fix: keep all 'as' names when a from-import lists a
 name more than once

---
 modulegraph2/_ast_tools.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 028371a..c5cda29 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -50,14 +50,25 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
                 )
 
         elif isinstance(node, ast.ImportFrom):
-            yield create_importinfo(
-                (node.module or "", None),
-                {(nm.name, nm.asname) for nm in node.names},
-                node.level,
-                in_def,
-                in_if,
-                in_tryexcept,
-            )
+            # A name can be imported more than once with different "as" clauses,
+            # names in a single ImportInfo are unique.
+            groups: list[dict[str, str | None]] = [{}]
+            for nm in node.names:
+                for group in groups:
+                    if group.setdefault(nm.name, nm.asname) == nm.asname:
+                        break
+                else:
+                    groups.append({nm.name: nm.asname})
+
+            for group in groups:
+                yield create_importinfo(
+                    (node.module or "", None),
+                    group.items(),
+                    node.level,
+                    in_def,
+                    in_if,
+                    in_tryexcept,
+                )
 
         elif isinstance(node, ast.If):
             for child in ast.iter_child_nodes(node):
-- 
2.43.0


From d98f0b29d5e639b17ecb01ad04aeee5f9ddf1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 04/66] fix: names declared global in a class body are global
 names

---
 modulegraph2/_bytecode_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..4e52eca 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -130,7 +130,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
+            if (is_class_code or is_function_code) and inst.opname == "STORE_NAME":
                 continue
 
             const_offset = inst.arg
-- 
2.43.0


From 01b3dcac1d6c9b8a2f80231507ce0d30cf13dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 05/66] fix: submodules of packages raising ModuleNotFoundError
 are not missing

---
 modulegraph2/_modulegraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..e847db7 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -606,9 +606,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 return node
 
         except Exception as exc:
-            if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
-                exc
-            ):
+            if not isinstance(
+                exc, ModuleNotFoundError
+            ) or "__path__ attribute not found" not in str(exc):
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
-- 
2.43.0


From 44c4d261a91b6567d12cc135709e1babfd6b78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 06/66] fix: submodules of nodes that cannot be imported are
 missing modules

---
 modulegraph2/_modulegraph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index e847db7..b9d18f8 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -622,8 +622,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 parent = module_name.rpartition(".")[0]
                 assert parent not in sys.modules
 
-                spec = importlib.util.find_spec(parent)
-                assert spec is not None
+                try:
+                    spec = importlib.util.find_spec(parent)
+                except ModuleNotFoundError:
+                    spec = None
+                if spec is None:
+                    # The parent is in the graph, but cannot be imported
+                    # (aliases, virtual modules, nodes added by hooks)
+                    return self._create_missing_module(importing_module, module_name)
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
                 if loader.is_package(spec.name):
-- 
2.43.0


From 371d5c6e94f5dceaacd71e71e4c62d5c353fe227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 07/66] fix: packages that exit when imported do not stop the
 analysis

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b9d18f8..3c184b6 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -605,7 +605,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             if not isinstance(
                 exc, ModuleNotFoundError
             ) or "__path__ attribute not found" not in str(exc):
-- 
2.43.0


From 5f3bab1180d8245e82a3eb74722b17c9e26269f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 08/66] fix: errors importing explicit namespace packages do
 not stop the analysis

---
 modulegraph2/_graphbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 690391a..b2ca0c8 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -477,7 +477,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except (Exception, SystemExit):
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
-- 
2.43.0


From 0533d361a35520c300a27fe070230182ce634530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 09/66] fix: corrupt bytecode files are invalid modules

---
 modulegraph2/_graphbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index b2ca0c8..a30db4c 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -285,7 +285,8 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        except (SyntaxError, ImportError, EOFError, ValueError, TypeError):
+            # Invalid source code, or a corrupt bytecode file
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
-- 
2.43.0


From c6406bdaf0e7f55b9c8f9e0758c4e4545466c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 10/66] fix: source code that cannot be decoded is invalid code

---
 modulegraph2/_graphbuilder.py | 13 +++++++++++--
 modulegraph2/_modulegraph.py  |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index a30db4c..f0d5767 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -233,8 +233,17 @@ def node_for_spec(
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
         try:
-            source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
+            try:
+                source_code = inspect_loader.get_source(spec.name)
+            except UnicodeDecodeError:
+                if not isinstance(loader, zipimport.zipimporter):
+                    raise
+
+                # zipimporter.get_source ignores PEP 263 encoding declarations
+                source_code = importlib.util.decode_source(
+                    loader.get_data(loader.get_filename(spec.name))
+                )
+        except (SyntaxError, UnicodeDecodeError):
             node = InvalidModule(
                 name=spec.name,
                 loader=loader,
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 3c184b6..9cd236d 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -707,7 +707,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         with open(script_path, "rb") as fp:
             source_bytes = fp.read()
 
-        source_code = importlib.util.decode_source(source_bytes)
+        try:
+            source_code = importlib.util.decode_source(source_bytes)
+        except UnicodeDecodeError as exc:
+            raise SyntaxError(f"(unicode error) {exc}") from exc
         ast_node = compile(
             source_code,
             os.fspath(script_path),
-- 
2.43.0


From f9abba58cb882a9a472d2a710aeaa09fd3da201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 11/66] fix: packages whose __init__ cannot be decoded are
 packages

---
 modulegraph2/_graphbuilder.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f0d5767..09fc0bf 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -232,6 +232,9 @@ def node_for_spec(
         # Likewise for _frozen_importlib_external._NamespaceLoader
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
+        ast_imports: Iterable[ImportInfo] | None
+        node_type: type[Module] | None = None
+
         try:
             try:
                 source_code = inspect_loader.get_source(spec.name)
@@ -244,30 +247,7 @@ def node_for_spec(
                     loader.get_data(loader.get_filename(spec.name))
                 )
         except (SyntaxError, UnicodeDecodeError):
-            node = InvalidModule(
-                name=spec.name,
-                loader=loader,
-                distribution=(
-                    distribution_for_file(spec.origin, path)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                extension_attributes={},
-                filename=(
-                    pathlib.Path(spec.origin)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                globals_written=set(),
-                globals_read=set(),
-                code=None,
-            )
-            return node, []
-
-        ast_imports: Iterable[ImportInfo] | None
-        node_type: type[Module] | None = None
+            node_type = InvalidModule
 
         if source_code is not None:
             filename = spec.origin
-- 
2.43.0


From 3533bc0b8546e6e5d5f16ccf0d6bd9986b4a5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 12/66] fix: modules in a zip file with syntax errors are
 invalid modules

---
 modulegraph2/_modulegraph.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9cd236d..1f59a7c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -27,6 +27,7 @@ from ._nodes import (
     AliasNode,
     BaseNode,
     ExcludedModule,
+    InvalidModule,
     InvalidRelativeImport,
     MissingModule,
     Module,
@@ -620,11 +621,29 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # hence we know that find_spec will be successfull and
                 # will find a pacakge with an __init__.py.
                 parent = module_name.rpartition(".")[0]
+                if isinstance(exc, SyntaxError) and (
+                    not parent or parent in sys.modules
+                ):
+                    # zipimport compiles source code while locating a module
+                    node = InvalidModule(
+                        name=module_name,
+                        loader=None,
+                        distribution=None,
+                        extension_attributes={},
+                        filename=pathlib.Path(exc.filename) if exc.filename else None,
+                        globals_written=set(),
+                        globals_read=set(),
+                        code=None,
+                    )
+                    self.add_node(node)
+                    self._process_import_list(node, ())
+                    return node
+
                 assert parent not in sys.modules
 
                 try:
                     spec = importlib.util.find_spec(parent)
-                except ModuleNotFoundError:
+                except (ModuleNotFoundError, SyntaxError):
                     spec = None
                 if spec is None:
                     # The parent is in the graph, but cannot be imported
-- 
2.43.0


From 3b3b5b5784729579010a3cdbb9dadab1bfb6f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 13/66] fix: look for package data in all subdirectories

---
 modulegraph2/_graphbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 09fc0bf..adb2825 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -118,7 +118,8 @@ def _contains_datafiles(directory: pathlib.Path):
                 continue
 
             elif p.is_dir():
-                return _contains_datafiles(p)
+                if _contains_datafiles(p):
+                    return True
 
             else:
                 return True
-- 
2.43.0


From 3617c90f5bfd0ee226161326159a44c1a42e30bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 14/66] fix: incomplete dist-info directories do not hide other
 distributions

---
 modulegraph2/_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..984fd95 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -152,7 +152,11 @@ def all_distributions(
                     dist = _cached_distributions[dist_name]
 
                 except KeyError:
-                    dist = create_distribution(dist_name)
+                    try:
+                        dist = create_distribution(dist_name)
+                    except OSError:
+                        # Incomplete dist-info directory
+                        continue
                     _cached_distributions[dist_name] = dist
 
                 yield dist
-- 
2.43.0


From 460a83eaa8e62a3feed99510798b4ecc7cb9e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 15/66] fix: files outside of the search path entry are not
 importable names

---
 modulegraph2/_distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 984fd95..8a641af 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -106,6 +106,10 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
             if "/__pycache__/" in relpath or relpath.startswith("__pycache__/"):
                 continue
 
+            if relpath.startswith("/") or ".." in relpath.split("/"):
+                # Outside of the search path entry, not importable
+                continue
+
             for suffix in all_suffixes:
                 if not relpath.endswith(suffix):
                     continue
-- 
2.43.0


From 79de6e33a9362a198888abf993827bb40b5ccf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 16/66] fix: handle all EXTENDED_ARG prefixes when scanning
 bytecode

---
 modulegraph2/_bytecode_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 4e52eca..1bb22c1 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -58,7 +58,11 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
 
       is_class_code: True if this is the code object for a class
     """
-    instructions = list(dis.get_instructions(code))
+    # The prefix instructions for large arguments are already included in the
+    # *arg* of the instruction they prefix (and there can be several of them).
+    instructions = [
+        inst for inst in dis.get_instructions(code) if inst.opname != "EXTENDED_ARG"
+    ]
 
     imports: list[ImportInfo] = []
     globals_written: set[str] = set()
-- 
2.43.0


From dde67182c97025b55f44a152aa4f88f400c05adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 17/66] fix: import_package does not add the bytecode cache as
 a package

---
 modulegraph2/_modulegraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 1f59a7c..7f24e7a 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -345,7 +345,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 )
 
             for fn in path.iterdir():
-                if fn.is_dir() and fn.name.isidentifier():
+                if (
+                    fn.is_dir()
+                    and fn.name.isidentifier()
+                    and fn.name != "__pycache__"
+                ):
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
                     )
-- 
2.43.0


From a99ba903aa7a94deed677348f35af127e56735f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 18/66] fix: escape names in the HTML export

---
 modulegraph2/_htmlbuilder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 2caf3c7..86d5702 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -7,6 +7,7 @@ Support code for generating HTML output from a module graph
     package, with modulegraph2 specific functionality in this module.
 """
 
+import html
 import operator
 import textwrap
 from typing import TextIO
@@ -52,7 +53,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             continue
 
         print(
-            f'<a name="{node.identifier}"><h2>{type(node).__name__} {node.name}</h2></a>',  # noqa:E501, B950
+            f'<a name="{html.escape(node.identifier)}"><h2>{type(node).__name__} {html.escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
         outgoing = list(graph.outgoing(node))
@@ -60,7 +61,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Depends on:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{target.identifier}">{target.name}</a>'
+                    f'<a href="#{html.escape(target.identifier)}">{html.escape(target.name)}</a>'  # noqa:E501, B950
                     for _, target in outgoing
                 ),
                 file=file,
@@ -71,7 +72,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Used by:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{source.identifier}">{source.name}</a>'
+                    f'<a href="#{html.escape(source.identifier)}">{html.escape(source.name)}</a>'  # noqa:E501, B950
                     for _, source in incoming
                     if source.identifier in reachable
                 ),
-- 
2.43.0


From c294a61cf6e976338c3516fd5ba7c64faea237df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 19/66] fix: links in the HTML export always lead to a section
 of the document

---
 modulegraph2/_htmlbuilder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 86d5702..d125bba 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -56,7 +56,9 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             f'<a name="{html.escape(node.identifier)}"><h2>{type(node).__name__} {html.escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
-        outgoing = list(graph.outgoing(node))
+        outgoing = [
+            item for item in graph.outgoing(node) if isinstance(item[1], BaseNode)
+        ]
         if outgoing:
             print("<p>Depends on:", file=file)
             print(
@@ -67,14 +69,17 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
                 file=file,
             )
 
-        incoming = list(graph.incoming(node))
+        incoming = [
+            item
+            for item in graph.incoming(node)
+            if isinstance(item[1], BaseNode) and item[1].identifier in reachable
+        ]
         if incoming:
             print("<p>Used by:", file=file)
             print(
                 ", ".join(
                     f'<a href="#{html.escape(source.identifier)}">{html.escape(source.name)}</a>'  # noqa:E501, B950
                     for _, source in incoming
-                    if source.identifier in reachable
                 ),
                 file=file,
             )
-- 
2.43.0


From 52c78fe4bac983351c1758ca3160de08be3e05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 20/66] fix: quote names in the Graphviz export

---
 modulegraph2/_dotbuilder.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index e8605ad..27657d6 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -31,6 +31,14 @@ def format_attributes(callable, *args):
         return f" [{', '.join(parts)}]"
 
 
+def quote(name: str) -> str:
+    """
+    Return *name* in the Graphviz syntax for quoted strings
+    """
+    name = name.replace('"', '\\"')
+    return f'"{name}"'
+
+
 def export_to_dot(
     file: TextIO,
     graph: ModuleGraph,
@@ -53,22 +61,22 @@ def export_to_dot(
 
     for source in graph.iter_graph():
         print(
-            f'    "{source.identifier}"{format_attributes(format_node, source)}',
+            f'    {quote(source.identifier)}{format_attributes(format_node, source)}',
             file=file,
         )
         for edge, target in graph.outgoing(source):
             print(
-                f'    "{source.identifier}" -> "{target.identifier}"{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
+                f'    {quote(source.identifier)} -> {quote(target.identifier)}{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
                 file=file,
             )
 
     for idx, (group_name, group_icon, group_items) in enumerate(group_nodes(graph)):
         print(f"subgraph cluster_{idx} {{", file=file)
-        print(f'   label = "{group_name}"', file=file)
+        print(f'   label = {quote(group_name)}', file=file)
         print(f"   shape = {group_icon}", file=file)
         print("   style=filled; color=lightgray", file=file)
         for node in group_items:
-            print(f'   "{node.identifier}"', file=file)
+            print(f'   {quote(node.identifier)}', file=file)
 
         print("}", file=file)
         print(file=file)
-- 
2.43.0


From 5ffe06078b37e48ab0cf6c75f502c5f83eb4de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 21/66] fix: add_dependencies_for_source does not resolve
 relative imports

---
 modulegraph2/_modulegraph.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7f24e7a..4c52a31 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -204,6 +204,17 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
+            if info.import_level:
+                # The code is not in a package
+                invalid_name = "." * info.import_level + info.import_module
+                if self._find_module(invalid_name) is None:
+                    invalid_node = InvalidRelativeImport(invalid_name)
+                    self.add_node(invalid_node)
+                    self._process_import_list(invalid_node, ())
+                self.add_root(invalid_name)
+                self._run_stack()
+                continue
+
             self.add_module(info.import_module)
             for name in info.import_names:
                 self.add_module(f"{info.import_module}.{name}")
-- 
2.43.0


From cc71ffbd9953ff05e9786d42cce6d4c2c18cab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 22/66] fix: add_dependencies_for_source does not add globals
 as missing modules

---
 modulegraph2/_modulegraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 4c52a31..cf3a645 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -215,9 +215,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 self._run_stack()
                 continue
 
-            self.add_module(info.import_module)
-            for name in info.import_names:
-                self.add_module(f"{info.import_module}.{name}")
+            node: BaseNode | None = self.add_module(info.import_module)
+            if isinstance(node, AliasNode):
+                node = self._find_module(node.actual_module)
+
+            if isinstance(node, (Package, NamespacePackage)):
+                for name in info.import_names:
+                    if name not in node.globals_written:
+                        self.add_module(f"{node.identifier}.{name}")
 
     def add_distribution(
         self, distribution: PyPIDistribution | str
-- 
2.43.0


From 5356dbc1e3cea58ca40ac1bedde12984a71954f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 23/66] fix: star imports from an alias pass on the names of
 the actual module

---
 modulegraph2/_modulegraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index cf3a645..850888b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -989,6 +989,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         assert isinstance(importing_module, (Module, Package, Script))
         if import_info.star_import:
+            if isinstance(imported_module, AliasNode):
+                actual_module = self._find_module(imported_module.actual_module)
+                assert actual_module is not None
+                imported_module = actual_module
+
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
 
-- 
2.43.0


From a4e3ae53241727174b20273b335ff760592c71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 24/66] fix: decode source code like the compiler does

---
 modulegraph2/_graphbuilder.py | 27 ++++++++++++---------------
 modulegraph2/_modulegraph.py  |  8 ++------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index adb2825..6ce673a 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -236,33 +236,30 @@ def node_for_spec(
         ast_imports: Iterable[ImportInfo] | None
         node_type: type[Module] | None = None
 
+        source: str | bytes | None
         try:
-            try:
-                source_code = inspect_loader.get_source(spec.name)
-            except UnicodeDecodeError:
-                if not isinstance(loader, zipimport.zipimporter):
-                    raise
-
-                # zipimporter.get_source ignores PEP 263 encoding declarations
-                source_code = importlib.util.decode_source(
-                    loader.get_data(loader.get_filename(spec.name))
-                )
+            source = source_code = inspect_loader.get_source(spec.name)
         except (SyntaxError, UnicodeDecodeError):
-            node_type = InvalidModule
-
-        if source_code is not None:
+            # The compiler can decode source that get_source cannot decode:
+            # zipimporter.get_source ignores PEP 263 encoding declarations and
+            # decode_source doesn't see them with CR line endings.
+            source_loader = cast(importlib.machinery.SourceFileLoader, loader)
+            source = source_loader.get_data(source_loader.get_filename(spec.name))
+            source_code = source.decode("latin-1")
+
+        if source is not None:
             filename = spec.origin
             assert filename is not None
 
             try:
                 ast_node = compile(
-                    source_code,
+                    source,
                     filename,
                     "exec",
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except (SyntaxError, ValueError):
                 node_type = InvalidModule
                 ast_imports = None
 
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 850888b..6936925 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -746,12 +746,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         with open(script_path, "rb") as fp:
             source_bytes = fp.read()
 
-        try:
-            source_code = importlib.util.decode_source(source_bytes)
-        except UnicodeDecodeError as exc:
-            raise SyntaxError(f"(unicode error) {exc}") from exc
         ast_node = compile(
-            source_code,
+            source_bytes,
             os.fspath(script_path),
             "exec",
             flags=ast.PyCF_ONLY_AST,
@@ -760,7 +756,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         imports = extract_ast_info(ast_node)
 
         code = compile(
-            source_code,
+            source_bytes,
             os.fspath(script_path),
             "exec",
             dont_inherit=True,
-- 
2.43.0


From ee6d459a01bf561cddcc9fdf25676cf2e0c08afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 25/66] fix: namespace packages in a package that cannot be
 imported

---
 modulegraph2/_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 3683de5..4849be6 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -66,6 +66,7 @@ class FakePackage:
            path: The search path for sub modules
         """
         self.__path__ = path
+        self.__spec__ = None
 
 
 def stdlib_module_names() -> list[str]:
-- 
2.43.0


From 808ee34d3baed9355d79d07f0d9453272bb2315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 26/66] fix: namespace packages imported by a package that
 cannot be imported

---
 modulegraph2/_modulegraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 6936925..b14c89f 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -626,6 +626,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
+            if spec.submodule_search_locations is not None:
+                # The search path of a namespace package is calculated using
+                # its parent package, which is not available when importing
+                # the parent failed after it imported the namespace package.
+                list(spec.submodule_search_locations)
+
         except (Exception, SystemExit) as exc:
             if not isinstance(
                 exc, ModuleNotFoundError
-- 
2.43.0


From 655a9f56ef18e76e873d4184d3e2712376a53e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 27/66] fix: only 'import name' binds the name of an imported
 module

---
 modulegraph2/_modulegraph.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b14c89f..ff2d8d8 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -66,6 +66,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
     _missing_hook: FirstNotNone[MissingCallback]
     _work_stack: list[tuple[Callable, tuple]]
     _global_lazy_nodes: dict[str, ImpliesValueType]
+    _plain_imports: set[tuple[str, str]]
 
     def __init__(
         self, *, use_stdlib_implies: bool = True, use_builtin_hooks: bool = True
@@ -78,6 +79,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         self._global_lazy_nodes = {}
 
+        # (module, imported name) for all 'import name' statements
+        self._plain_imports = set()
+
         # Reference to __main__ cannot be valid when multiple scripts
         # are added to the graph, just ignore this module for now.
         self._global_lazy_nodes["__main__"] = None
@@ -962,6 +966,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             node,
             from_importinfo(import_info, False, import_info.import_module.asname),
         )
+        if not (
+            import_info.import_names
+            or import_info.star_import
+            or import_info.import_module.asname
+        ):
+            self._plain_imports.add((importing_module.identifier, absolute_name))
 
         self._work_stack.insert(
             offset, (self._process_namelist, (importing_module, node, import_info))
@@ -1021,9 +1031,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         # it is either a global or an imported module.
                         found_imported = False
                         for ed_set, tgt in self.outgoing(imported_module):
-                            if (
-                                any(nm == ed.imported_as for ed in ed_set)
-                                or tgt.identifier == nm
+                            if any(nm == ed.imported_as for ed in ed_set) or (
+                                tgt.identifier == nm
+                                and (imported_module.identifier, nm)
+                                in self._plain_imports
                             ):
                                 self.add_edge(
                                     importing_module,
-- 
2.43.0


From a28cf0480a1b872e9905fd69f4f3bf68d29fb5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 28/66] fix: the order of names in a from-import does not
 affect the graph

---
 modulegraph2/_modulegraph.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index ff2d8d8..d84bc85 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -4,6 +4,7 @@ This module contains the definition of the ModuleGraph class.
 
 import ast
 import contextlib
+import dataclasses
 import importlib
 import operator
 import os
@@ -1025,6 +1026,22 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         return
 
                 importing_module.globals_written.update(import_info.import_names)
+                if len(import_info.import_names) > 1:
+                    # Process names one by one, and completely process the
+                    # modules loaded for a name before looking at the next one.
+                    for nm in sorted(import_info.import_names, reverse=True):
+                        self._work_stack.append(
+                            (
+                                self._process_namelist,
+                                (
+                                    importing_module,
+                                    imported_module,
+                                    dataclasses.replace(import_info, import_names={nm}),
+                                ),
+                            )
+                        )
+                    return
+
                 for nm in import_info.import_names:
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
-- 
2.43.0


From 8fdbaff91bbd0b3a4cf444dd3b9ad676f5fece6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 29/66] fix: the order of modules in a distribution does not
 affect the graph

---
 modulegraph2/_modulegraph.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index d84bc85..e3a3046 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -257,13 +257,25 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         self.add_node(distribution)
         self.add_root(distribution)
 
-        for module_name in distribution.import_names:
-            node = self._find_or_load_module(None, module_name)
-            self.add_edge(distribution, node, DEFAULT_DEPENDENCY)
+        # Completely process a module before looking at the next one, and do
+        # this in an order that doesn't depend on the hash seed.
+        for module_name in sorted(distribution.import_names, reverse=True):
+            self._work_stack.append(
+                (self._add_distribution_module, (distribution, module_name))
+            )
 
         self._run_stack()
         return distribution
 
+    def _add_distribution_module(
+        self, distribution: PyPIDistribution, module_name: str
+    ) -> None:
+        """
+        Add *module_name* to the graph as a dependency of *distribution*.
+        """
+        node = self._find_or_load_module(None, module_name)
+        self.add_edge(distribution, node, DEFAULT_DEPENDENCY)
+
     #
     # Hooks
     #
-- 
2.43.0


From fa852b55a138324eae07bf20f229e2a746b7a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 30/66] fix: submodules of aliases in a package that cannot be
 imported

---
 modulegraph2/_modulegraph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index e3a3046..19cee2a 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -610,6 +610,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         if node is not None:
             return node
 
+        parent_imported = module_name.rpartition(".")[0] in sys.modules
+
         try:
             try:
                 spec = importlib.util.find_spec(module_name)
@@ -682,11 +684,16 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     self._process_import_list(node, ())
                     return node
 
-                assert parent not in sys.modules
+                if parent in sys.modules:
+                    # The parent is an alias or virtual module in the graph, and
+                    # importing one of its parents fails.
+                    if not parent_imported:
+                        return self._load_module(importing_module, module_name)
+                    return self._create_missing_module(importing_module, module_name)
 
                 try:
                     spec = importlib.util.find_spec(parent)
-                except (ModuleNotFoundError, SyntaxError):
+                except (Exception, SystemExit):
                     spec = None
                 if spec is None:
                     # The parent is in the graph, but cannot be imported
-- 
2.43.0


From b2c3012bbd77edb57d0c08ba065a8113d9d0f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:28 +0000
Subject: [PATCH 31/66] fix: import_package for packages that cannot be
 imported

---
 modulegraph2/_modulegraph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 19cee2a..5d67493 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -357,10 +357,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
+        for path in node.search_path:
             for fn in path.glob("*.py"):
                 module = fn.stem
                 if not module.isidentifier():
-- 
2.43.0


From 62a0313658791b0b64c4de9cf456875f3e5c12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 32/66] fix: import_package for packages that are not in the
 filesystem

---
 modulegraph2/_modulegraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5d67493..35538b7 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -358,6 +358,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         #
 
         for path in node.search_path:
+            if not path.is_dir():
+                # Not in the filesystem, for example in a zip file.
+                continue
+
             for fn in path.glob("*.py"):
                 module = fn.stem
                 if not module.isidentifier():
-- 
2.43.0


From 9b3f1153eedf5c0ad659b11e706ac4db8ff9e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 33/66] fix: source code in a zip file can start with a byte
 order mark

---
 modulegraph2/_graphbuilder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 6ce673a..64a78f2 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -239,6 +239,9 @@ def node_for_spec(
         source: str | bytes | None
         try:
             source = source_code = inspect_loader.get_source(spec.name)
+            if source is not None:
+                # zipimporter.get_source keeps the byte order mark
+                source = source.removeprefix("\ufeff")
         except (SyntaxError, UnicodeDecodeError):
             # The compiler can decode source that get_source cannot decode:
             # zipimporter.get_source ignores PEP 263 encoding declarations and
-- 
2.43.0


From 63de8534e13cdbb31425347d5dc384bdb9a360fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 34/66] fix: source code that is too complex to compile is
 invalid code

---
 modulegraph2/_graphbuilder.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 64a78f2..d6eb2bd 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -262,7 +262,7 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except (SyntaxError, ValueError):
+            except (SyntaxError, ValueError, MemoryError, RecursionError):
                 node_type = InvalidModule
                 ast_imports = None
 
@@ -275,8 +275,17 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except (SyntaxError, ImportError, EOFError, ValueError, TypeError):
-            # Invalid source code, or a corrupt bytecode file
+        except (
+            SyntaxError,
+            ImportError,
+            EOFError,
+            ValueError,
+            TypeError,
+            MemoryError,
+            RecursionError,
+        ):
+            # Invalid source code (possibly because it is too complex to
+            # compile), or a corrupt bytecode file
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
-- 
2.43.0


From f83d5203707af9f441893cfcc77b994989761268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 35/66] fix: packages that use find_spec on a submodule of a
 module are not missing

---
 modulegraph2/_modulegraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 35538b7..9caf4a6 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -653,9 +653,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 list(spec.submodule_search_locations)
 
         except (Exception, SystemExit) as exc:
-            if not isinstance(
-                exc, ModuleNotFoundError
-            ) or "__path__ attribute not found" not in str(exc):
+            if (
+                not isinstance(exc, ModuleNotFoundError)
+                or exc.name != module_name
+                or "__path__ attribute not found" not in str(exc)
+            ):
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
-- 
2.43.0


From 0e168a7b7d5c70587dc3b46b9e8d72f0a30ff984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 36/66] fix: from-imports in functions and classes do not bind
 global names

---
 modulegraph2/_modulegraph.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9caf4a6..aa62d12 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1000,6 +1000,30 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             offset, (self._process_namelist, (importing_module, node, import_info))
         )
 
+    def _bind_import_names(
+        self, importing_module: Module | Package | Script, import_info: ImportInfo
+    ) -> None:
+        """
+        Add the names in the name list of an import statement to the global
+        names written by *importing_module*.
+
+        Args:
+          importing_module: The module containing the import statement
+
+          import_info: Information about the import
+        """
+        module = importing_module
+        if isinstance(module, Package):
+            module = module.init_module
+
+        if isinstance(module, Module) and module.code is not None:
+            # The bytecode scanner has already found the global names, name
+            # lists in functions and classes don't affect globals.
+            return
+
+        if import_info.is_global:
+            importing_module.globals_written.update(import_info.import_names)
+
     def _process_namelist(
         self,
         importing_module: Module | Package,
@@ -1036,8 +1060,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             if import_info.import_names and isinstance(
                 imported_module, (Package, NamespacePackage, AliasNode, Module)
             ):
+                self._bind_import_names(importing_module, import_info)
+
                 if isinstance(imported_module, AliasNode):
-                    importing_module.globals_written.update(import_info.import_names)
                     node = self._find_module(imported_module.actual_module)
                     assert node is not None
 
@@ -1047,7 +1072,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     ):
                         return
 
-                importing_module.globals_written.update(import_info.import_names)
                 if len(import_info.import_names) > 1:
                     # Process names one by one, and completely process the
                     # modules loaded for a name before looking at the next one.
-- 
2.43.0


From 4fd2308c06c1f8b7ba5a101524defd891b7e160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 37/66] fix: classes with closures or type parameters are not
 functions in bytecode

---
 modulegraph2/_bytecode_tools.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 1bb22c1..64dab86 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -6,6 +6,7 @@ and the use of global names.
 
 import collections
 import dis
+import inspect
 import sys
 import types
 from collections.abc import Iterator
@@ -163,28 +164,12 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
                 const_offset = instructions[offset - 2].arg
             assert const_offset is not None
 
-            if sys.version_info[:2] >= (3, 11):
-                if (
-                    offset >= 2
-                    and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                elif (
-                    offset >= 3
-                    and instructions[offset - 2].opname == "PUSH_NULL"
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
-            else:
-                if (
-                    offset >= 3
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
+            child_code = code.co_consts[const_offset]
+            if not child_code.co_flags & inspect.CO_OPTIMIZED:
+                # Only the locals of a class are a real dictionary
+                class_codes.add(child_code)
+            elif not child_code.co_name.startswith("<generic parameters of "):
+                func_codes.add(child_code)
 
     return imports, globals_written, globals_read, func_codes, class_codes
 
-- 
2.43.0


From aabd28c494a4862c7f8454ef5b92d84f1e879979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 38/66] fix: a missing submodule is linked to its parent
 whatever import found it first

---
 modulegraph2/_modulegraph.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index aa62d12..d1d24ab 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -875,10 +875,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         parent_node: BaseNode | None
 
         node = self._find_module(module_name)
+        containing_package, _ = split_package(module_name)
         if node is not None:
+            if (
+                link_missing_to_parent
+                and containing_package is not None
+                and isinstance(node, MissingModule)
+            ):
+                # The node may have been created for the name list of a
+                # 'from' import, without a link to the parent.
+                parent_node = self._find_module(containing_package)
+                if parent_node is not None:
+                    self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
             return node
 
-        containing_package, _ = split_package(module_name)
         if containing_package is not None:
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
-- 
2.43.0


From fa8311f58f3a9e5ca772fa9197da7fae32840a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 39/66] fix: the spec decides if a module is a package (import
 of 'package.__init__')

---
 modulegraph2/_graphbuilder.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index d6eb2bd..48524a6 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -459,9 +459,7 @@ def node_for_spec(
             f"Don't known how to handle {loader!r} for {spec.name!r}"
         )  # pragma: nocover
 
-    loader = cast(importlib.abc.InspectLoader, loader)
-
-    if loader.is_package(spec.name):
+    if spec.submodule_search_locations is not None:
         node_file = node.filename
         if node_file is not None:
             node_file = node_file.parent
@@ -488,7 +486,6 @@ def node_for_spec(
                 assert "pkgutil" in source_code
                 namespace_type = "pkgutil"
 
-        assert spec.submodule_search_locations is not None
         node_class: type[Package]
         if loader == importlib.machinery.FrozenImporter:
             node_class = FrozenPackage
-- 
2.43.0


From 877a44ac97fe9879faf32e9ebf2d5e7eb17d9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 40/66] fix: a .git directory does not contain package data

---
 modulegraph2/_graphbuilder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 48524a6..f10d9ab 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -114,7 +114,7 @@ def _contains_datafiles(directory: pathlib.Path):
                 # Python module is not a data file
                 continue
 
-            elif p.name in ("__pycache__", ".hg", ".svn", ".hg"):
+            elif p.name in ("__pycache__", ".git", ".hg", ".svn"):
                 continue
 
             elif p.is_dir():
@@ -139,7 +139,7 @@ def _contains_datafiles(directory: pathlib.Path):
             for nm in zf.namelist():
                 if nm.startswith(path):
                     if any(
-                        part in ("__pycache__", ".hg", ".svn", ".hg")
+                        part in ("__pycache__", ".git", ".hg", ".svn")
                         for part in nm.split("/")
                     ):
                         continue
-- 
2.43.0


From 0473440742db041412648db616450eac2b5a3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 41/66] fix: directories named like a module can contain
 package data

---
 modulegraph2/_graphbuilder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f10d9ab..3b12240 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -110,17 +110,19 @@ def _contains_datafiles(directory: pathlib.Path):
     """
     try:
         for p in directory.iterdir():
-            if any(p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()):
-                # Python module is not a data file
-                continue
-
-            elif p.name in ("__pycache__", ".git", ".hg", ".svn"):
+            if p.name in ("__pycache__", ".git", ".hg", ".svn"):
                 continue
 
             elif p.is_dir():
                 if _contains_datafiles(p):
                     return True
 
+            elif any(
+                p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()
+            ):
+                # Python module is not a data file
+                continue
+
             else:
                 return True
 
@@ -140,7 +142,7 @@ def _contains_datafiles(directory: pathlib.Path):
                 if nm.startswith(path):
                     if any(
                         part in ("__pycache__", ".git", ".hg", ".svn")
-                        for part in nm.split("/")
+                        for part in nm[len(path) :].split("/")  # noqa: E203
                     ):
                         continue
 
-- 
2.43.0


From f26f0be51f7551bbb7a0f5109b025c19bc7c60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 42/66] fix: files whose path cannot be a module name are not
 importable names of a distribution

---
 modulegraph2/_distributions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 8a641af..39048dc 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -114,13 +114,12 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                 if not relpath.endswith(suffix):
                     continue
 
-                if relpath.endswith("/__init__" + suffix):
-                    import_names.append(
-                        relpath[: -len("/__init__") + -len(suffix)].replace("/", ".")
-                    )
+                module_path = relpath[: -len(suffix)]
+                if module_path.endswith("/__init__"):
+                    module_path = module_path[: -len("/__init__")]
 
-                else:
-                    import_names.append(relpath[: -len(suffix)].replace("/", "."))
+                if all(nm and "." not in nm for nm in module_path.split("/")):
+                    import_names.append(module_path.replace("/", "."))
 
                 break
 
-- 
2.43.0


From 2d3cff421c1350b1d45fcfcb87d3ce515289e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 43/66] fix: the RECORD file is in UTF-8, whatever the locale

---
 modulegraph2/_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 39048dc..777eed1 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -83,7 +83,11 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
     version = info["Version"]
     assert isinstance(version, str)
 
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(
+        os.path.join(distribution_file, "RECORD"),
+        encoding="utf-8",
+        errors="surrogateescape",
+    ) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
-- 
2.43.0


From 42ed0d11572ecb5cff2b0f80c2bdc8029d4a3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 44/66] fix: line ends and empty lines of the RECORD file are
 not file names

---
 modulegraph2/_distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 777eed1..8465cda 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -98,6 +98,10 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
             #
             # This code works for all filenames, except those containing
             # line seperators.
+            ln = ln.rstrip("\n")
+            if not ln:
+                continue
+
             relpath = ln.rsplit(",", 2)[0]
 
             if relpath.startswith('"') and relpath.endswith('"'):
-- 
2.43.0


From a0d80ed9ff2e9c9508cc78be8f502d3d5380d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 45/66] fix: distributions in relative and not normalised
 search path entries

---
 modulegraph2/_distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 8465cda..5e77f36 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -57,7 +57,7 @@ class PyPIDistribution:
         Returns:
            True if *filename* is part of this distribution, otherwise False.
         """
-        return os.fspath(filename) in self.files
+        return os.path.abspath(filename) in self.files
 
 
 def create_distribution(distribution_file: str) -> PyPIDistribution:
@@ -73,7 +73,7 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
     files: list[str] = []
     import_names: list[str] = []
 
-    distribution_dir = os.path.dirname(distribution_file)
+    distribution_dir = os.path.dirname(os.path.abspath(distribution_file))
 
     with open(os.path.join(distribution_file, "METADATA"), "rb") as meta_fp:
         info = BytesParser().parse(meta_fp)
@@ -153,6 +153,9 @@ def all_distributions(
 
     for entry in path:
         try:
+            # Entries can be relative to the current directory ("" is the
+            # current directory itself), paths of modules are absolute.
+            entry = os.path.abspath(entry)
             for fname in os.listdir(entry):
                 if not fname.endswith(".dist-info"):
                     continue
-- 
2.43.0


From 391cec6b703a8a4ed7aac7119721c648946190a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 46/66] fix: loader and spec decide if a module is a package
 (six is a plain module)

---
 modulegraph2/_graphbuilder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 3b12240..d28876d 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -461,7 +461,12 @@ def node_for_spec(
             f"Don't known how to handle {loader!r} for {spec.name!r}"
         )  # pragma: nocover
 
-    if spec.submodule_search_locations is not None:
+    loader = cast(importlib.abc.InspectLoader, loader)
+
+    # Both tests are needed: an extension module that is imported as
+    # "package.__init__" is a package for the loader only, and six adds a
+    # search path to the spec of a plain module.
+    if loader.is_package(spec.name) and spec.submodule_search_locations is not None:
         node_file = node.filename
         if node_file is not None:
             node_file = node_file.parent
-- 
2.43.0


From 94b83b2690fd452e5f38cffd4d455431e7a39b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 47/66] fix: distribution metadata is in UTF-8

---
 modulegraph2/_distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 5e77f36..444ba7d 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -8,7 +8,7 @@ import dataclasses
 import os
 import sys
 from collections.abc import Iterable, Iterator
-from email.parser import BytesParser
+from email.parser import Parser
 from importlib.machinery import EXTENSION_SUFFIXES
 
 
@@ -75,8 +75,10 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
 
     distribution_dir = os.path.dirname(os.path.abspath(distribution_file))
 
-    with open(os.path.join(distribution_file, "METADATA"), "rb") as meta_fp:
-        info = BytesParser().parse(meta_fp)
+    with open(
+        os.path.join(distribution_file, "METADATA"), encoding="utf-8", errors="replace"
+    ) as meta_fp:
+        info = Parser().parse(meta_fp)
 
     name = info["Name"]
     assert isinstance(name, str)
-- 
2.43.0


From 193e612b7c2b7b337844389f5ff1cc2327e62e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 48/66] fix: metadata without name or version does not stop the
 analysis

---
 modulegraph2/_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 444ba7d..c3ce9c7 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -81,9 +81,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = Parser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
-    assert isinstance(version, str)
+    if name is None or version is None:
+        raise ValueError(f"No name or version in the metadata of {distribution_file}")
 
     with open(
         os.path.join(distribution_file, "RECORD"),
@@ -170,7 +170,7 @@ def all_distributions(
                 except KeyError:
                     try:
                         dist = create_distribution(dist_name)
-                    except OSError:
+                    except (OSError, ValueError):
                         # Incomplete dist-info directory
                         continue
                     _cached_distributions[dist_name] = dist
-- 
2.43.0


From 0ef6f18415d84f691a95b20cce91d2040418e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 49/66] fix: adding a hook from a hook does not call hooks more
 than once for a node

---
 modulegraph2/_callback_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_callback_list.py b/modulegraph2/_callback_list.py
index 2bd7cd5..1e65241 100644
--- a/modulegraph2/_callback_list.py
+++ b/modulegraph2/_callback_list.py
@@ -64,7 +64,8 @@ class CallbackList(Generic[T]):
           args: Positional arguments for the function
           kwds: Keyword arguments for the function
         """
-        for function in self._callbacks:
+        # A callback can add other callbacks
+        for function in list(self._callbacks):
             function(*args, **kwds)
 
 
@@ -113,7 +114,8 @@ class FirstNotNone(Generic[T]):
         Returns:
           The first not :data:`None` result or :data:`None`
         """
-        for function in self._callbacks:
+        # A callback can add other callbacks
+        for function in list(self._callbacks):
             result = function(*args, **kwds)
             if result is not None:
                 return result
-- 
2.43.0


From 73dc28b191f134e45f0191c6efdcb66ebfd11116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 50/66] fix: the distribution of a file doesn't depend on the
 order of directory listings

---
 modulegraph2/_distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index c3ce9c7..642bd3c 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -158,7 +158,9 @@ def all_distributions(
             # Entries can be relative to the current directory ("" is the
             # current directory itself), paths of modules are absolute.
             entry = os.path.abspath(entry)
-            for fname in os.listdir(entry):
+            # The order must not depend on the filesystem, files can be listed by
+            # more than one distribution.
+            for fname in sorted(os.listdir(entry)):
                 if not fname.endswith(".dist-info"):
                     continue
 
-- 
2.43.0


From 5482e957dd78f12d98c24b8d03afce36f483ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 51/66] fix: import_package processes modules in an order that
 doesn't depend on the filesystem

---
 modulegraph2/_modulegraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index d1d24ab..3d86cea 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -362,7 +362,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # Not in the filesystem, for example in a zip file.
                 continue
 
-            for fn in path.glob("*.py"):
+            # The processing order must not depend on the filesystem.
+            for fn in sorted(path.glob("*.py")):
                 module = fn.stem
                 if not module.isidentifier():
                     continue
@@ -378,7 +379,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     (self.import_package, (node, f"{package_name}.{module}"))
                 )
 
-            for fn in path.iterdir():
+            for fn in sorted(path.iterdir()):
                 if (
                     fn.is_dir()
                     and fn.name.isidentifier()
-- 
2.43.0


From 590099b4e955e395bd5d97e6aac7664240dd1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 52/66] fix: exceptions raised by missing hooks reach the
 caller

---
 modulegraph2/_modulegraph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 3d86cea..ecd5f4e 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -643,11 +643,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-            if spec is None:
-                node = self._create_missing_module(importing_module, module_name)
-                return node
-
-            if spec.submodule_search_locations is not None:
+            if spec is not None and spec.submodule_search_locations is not None:
                 # The search path of a namespace package is calculated using
                 # its parent package, which is not available when importing
                 # the parent failed after it imported the namespace package.
@@ -720,6 +716,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
+        if spec is None:
+            # Not in the 'try' above, missing hooks can raise exceptions
+            return self._create_missing_module(importing_module, module_name)
+
         node, imports = node_for_spec(spec, sys.path)
 
         if node.name != module_name:
-- 
2.43.0


From dfcb21de58bd61aaf471ac11f608ef4528300266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 53/66] fix: a failure while loading the target of an alias
 doesn't break later imports from the alias

---
 modulegraph2/_modulegraph.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index ecd5f4e..c93be83 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1060,9 +1060,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         assert isinstance(importing_module, (Module, Package, Script))
         if import_info.star_import:
             if isinstance(imported_module, AliasNode):
-                actual_module = self._find_module(imported_module.actual_module)
-                assert actual_module is not None
-                imported_module = actual_module
+                # The target is not in the graph when a hook raised an exception
+                imported_module = self.import_module(
+                    imported_module, imported_module.actual_module
+                )
 
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
@@ -1074,10 +1075,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 self._bind_import_names(importing_module, import_info)
 
                 if isinstance(imported_module, AliasNode):
-                    node = self._find_module(imported_module.actual_module)
-                    assert node is not None
-
-                    imported_module = node
+                    imported_module = self.import_module(
+                        imported_module, imported_module.actual_module
+                    )
                     if not isinstance(
                         imported_module, (Package, NamespacePackage, Module)
                     ):
-- 
2.43.0


From 60831d3817296dd13189a9ad780a64d87812afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 54/66] fix: names with backslashes give valid Graphviz output
 that shows the name

---
 modulegraph2/_dotbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index 27657d6..50a4a53 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -35,7 +35,7 @@ def quote(name: str) -> str:
     """
     Return *name* in the Graphviz syntax for quoted strings
     """
-    name = name.replace('"', '\\"')
+    name = name.replace("\\", "\\\\").replace('"', '\\"')
     return f'"{name}"'
 
 
-- 
2.43.0


From cf3a525508c84887efc3bcabddbb75fa86533062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 55/66] fix: six.moves names of submodules of a missing package
 are missing modules

---
 modulegraph2/_graphbuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index d28876d..3cf83f9 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -372,7 +372,11 @@ def node_for_spec(
             except KeyError:
                 return MissingModule(spec.name), ()
 
-            moved_spec = importlib.util.find_spec(actual_name)
+            try:
+                moved_spec = importlib.util.find_spec(actual_name)
+            except ModuleNotFoundError:
+                # The package that contains the moved-to name doesn't exist
+                moved_spec = None
             if moved_spec is None:
                 # The moved-to name doesn't actually exist. This
                 # can happen on systems where parts of the stdlib
-- 
2.43.0


From a2bc1dacb86f8c8aead174ddca3accd4255afe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 56/66] fix: builtin functions imported from six.moves are not
 missing modules

---
 modulegraph2/_modulegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c93be83..cdf0603 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1160,7 +1160,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, dep_node, DEFAULT_DEPENDENCY
                                 )
                                 continue
-                        elif (
+
+                        if (
                             isinstance(imported_module, Package)
                             and nm in imported_module.globals_written
                         ):
-- 
2.43.0


From 57f5dce16bcc80449c8506f462af11c8d023f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 57/66] fix: names in six.moves lead to the modules that six
 uses for them

---
 modulegraph2/_graphbuilder.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 3cf83f9..e0e29a5 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -42,11 +42,14 @@ SIX_MOVES_TO = {
     "copyreg": "copyreg",
     "cPickle": "pickle",
     "cStringIO": "io",
+    "collections_abc": "collections.abc",
     "dbm_gnu": "dbm.gnu",
-    "_dummy_thread": "_dummy_thread",
+    "dbm_ndbm": "dbm.ndbm",
+    "_dummy_thread": "_thread",
     "email_mime_multipart": "email.mime.multipart",
     "email_mime_nonmultipart": "email.mime.nonmultipart",
     "email_mime_text": "email.mime.text",
+    "email_mime_image": "email.mime.image",
     "email_mime_base": "email.mime.base",
     "http_cookiejar": "http.cookiejar",
     "http_cookies": "http.cookies",
@@ -63,7 +66,7 @@ SIX_MOVES_TO = {
     "_thread": "_thread",
     "tkinter": "tkinter",
     "tkinter_dialog": "tkinter.dialog",
-    "tkinter_filedialog": "tkinter.FileDialog",
+    "tkinter_filedialog": "tkinter.filedialog",
     "tkinter_scrolledtext": "tkinter.scrolledtext",
     "tkinter_simpledialog": "tkinter.simpledialog",
     "tkinter_ttk": "tkinter.ttk",
@@ -82,10 +85,14 @@ SIX_MOVES_TO = {
     "urllib.request": "urllib.request",
     "urllib.response": "urllib.response",
     "urllib.robotparser": "urllib.robotparser",
+    "urllib_parse": "urllib.parse",
+    "urllib_error": "urllib.error",
+    "urllib_request": "urllib.request",
+    "urllib_response": "urllib.response",
     "urllib_robotparser": "urllib.robotparser",
-    "UserDict": "collections.UserDict",
-    "UserList": "collections.UserList",
-    "UserString": "collections.UserString",
+    "UserDict": "collections",
+    "UserList": "collections",
+    "UserString": "collections",
     "winreg": "winreg",
     "xmlrpc_client": "xmlrpc.client",
     "xmlrpc_server": "xmlrpc.server",
@@ -94,9 +101,11 @@ SIX_MOVES_TO = {
     "filterfalse": "itertools",
     "getcwd": "os",
     "getcwdb": "os",
+    "getoutput": "subprocess",
     "intern": "sys",
     "reduce": "functools",
     "reload_module": "importlib",
+    "StringIO": "io",
     "zip_longest": "itertools",
 }
 
-- 
2.43.0


From 3f3ffc6638c05d1e8ee6cd20a3811738c3726ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 58/66] fix: SWIG extensions are located without importing the
 package

Importing the package could fail, and top-level modules are not in a package.
---
 modulegraph2/_swig_support.py | 57 ++++++++++++-----------------------
 1 file changed, 19 insertions(+), 38 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..f6a0888 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -2,17 +2,15 @@
 Support code that deals with SWIG.
 """
 
-import importlib.util
+import importlib.machinery
 import os
 import sys
-from types import ModuleType
-from typing import cast
 
 import modulegraph2
 
+from ._distributions import PyPIDistribution
 from ._graphbuilder import node_for_spec
-from ._nodes import BaseNode, ExtensionModule, Module, Package
-from ._utilities import FakePackage
+from ._nodes import BaseNode, ExtensionModule, Module, NamespacePackage, Package
 
 # SWIG uses an absolute import to find an extension
 # module located in a package (basically a Python 2
@@ -61,40 +59,24 @@ def swig_missing_hook(
     # If the importing_module is a package the relative import should
     # be done relative to that package, otherwise use the parent
     # package.
+    #
+    # This uses the search path in the graph instead of importing the
+    # package because that import likely fails due to the import of the
+    # extension module.
+    package: BaseNode | PyPIDistribution | None
     if isinstance(importing_module, Package):
-        to_import = importing_module.name
+        package = importing_module
     else:
-        to_import = importing_module.name.rpartition(".")[0]
-
-    try:
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
-        # Loading the package may fail if there's and error. This
-        # code assumes that's due to the invalid import by swig and
-        # adjusts sys.modules for that before retrying.
-        #
-        # The fake entry in sys.modules is removed as soon as possible
-        # because the assumption is not generally true and leaving the
-        # fake module might cause problems in the generic code dealing
-        # with simular problems.
-        sp = importlib.util.find_spec(to_import)
-
-        # By this time it must be possible to locate the spec,
-        # as we were already passed as proper module node.
-        #
-        # The origin should be set as well, the ImportError shouldn't
-        # happen for implicit namespace packages (which don't have
-        # an __init__.py and no origin)
-        assert sp is not None
-        assert sp.origin is not None
-
-        sys.modules[to_import] = cast(
-            ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
-        )
-
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-
-        del sys.modules[to_import]
+        package = graph.find_node(importing_module.name.rpartition(".")[0])
+
+    if not isinstance(package, (Package, NamespacePackage)):
+        # Not in a package
+        return None
+
+    spec = importlib.machinery.PathFinder.find_spec(
+        missing_name,
+        [os.fspath(path) for path in package.search_path],
+    )
 
     if spec is not None:
         node, imports = node_for_spec(spec, sys.path)
@@ -104,7 +86,6 @@ def swig_missing_hook(
 
         assert imports == (), "Extension modules shouldn't have an import list"
 
-        node.name = missing_name
         node.loader = None
         graph.add_node(node)
         return node
-- 
2.43.0


From 49770ba9ebac59dde328e63d20456b2d73568ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 59/66] fix: the mypyc helper of a distribution with several of
 them doesn't depend on hashing

---
 modulegraph2/_mypyc_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..4a33489 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -67,7 +67,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     #
     # The name check can be made stricter if needed
     # by looking at the prefix as well.
-    for nm in node.distribution.import_names:
+    for nm in sorted(node.distribution.import_names):
         if nm.endswith("__mypyc"):
             # Distribution is mypyc compiled
             helper_module = nm
-- 
2.43.0


From 723321b38c331bc3f6df5a904f3dcfc6425ae9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 60/66] fix: names outside of the locale's encoding in output
 files

---
 modulegraph2/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/__main__.py b/modulegraph2/__main__.py
index aca8f81..6d6e17c 100644
--- a/modulegraph2/__main__.py
+++ b/modulegraph2/__main__.py
@@ -319,7 +319,9 @@ def format_graph(args: argparse.Namespace, mg: ModuleGraph) -> None:
         print_graph(sys.stdout, args.output_format, mg)
     else:
         try:
-            with open(args.output_file, "w") as fp:  # pragma: no branch
+            with open(  # pragma: no branch
+                args.output_file, "w", encoding="utf-8", errors="surrogateescape"
+            ) as fp:
                 print_graph(fp, args.output_format, mg)
 
         except OSError as exc:
-- 
2.43.0


From 1102db9f64f28ecb4cb1109ee7235c1aec33d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 61/66] fix: functions imported from six.moves by a source
 string are not missing modules

---
 modulegraph2/_modulegraph.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index cdf0603..2200e6a 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -226,8 +226,21 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
             if isinstance(node, (Package, NamespacePackage)):
                 for name in info.import_names:
-                    if name not in node.globals_written:
-                        self.add_module(f"{node.identifier}.{name}")
+                    if name in node.globals_written:
+                        continue
+
+                    sub_name = f"{node.identifier}.{name}"
+                    if (
+                        isinstance(node, Package)
+                        and node.init_module.name == "@@SIX_MOVES@@"
+                        and name in SIX_MOVES_TO
+                        and isinstance(
+                            self._find_or_load_module(None, sub_name), MissingModule
+                        )
+                    ):
+                        # The name of a function in another module
+                        sub_name = SIX_MOVES_TO[name]
+                    self.add_module(sub_name)
 
     def add_distribution(
         self, distribution: PyPIDistribution | str
-- 
2.43.0


From 28b840a6135157ebb8c647998697639276e55d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 62/66] fix: modules that a package adds to sys.modules are not
 missing modules

---
 modulegraph2/_modulegraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 2200e6a..864cfa5 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -630,6 +630,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         try:
             try:
                 spec = importlib.util.find_spec(module_name)
+                if spec is None and module_name in sys.modules:
+                    # Importing the parent package, by find_spec, has added
+                    # the module to sys.modules.
+                    spec = importlib.util.find_spec(module_name)
 
             except ValueError as exc:
                 assert "__spec__" in exc.args[0]
-- 
2.43.0


From e935aafebbfdd2612c257594fbee02068b8bea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 63/66] fix: names in setuptools.extern that are not vendored
 lead to the installed module

---
 modulegraph2/_graphbuilder.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index e0e29a5..0ce18bd 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -434,16 +434,19 @@ def node_for_spec(
 
         relative_name = spec.name[len(root_name) + 1 :]  # noqa: E203
 
-        try:
-            moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
-            if moved_spec is not None and moved_spec.name == spec.name:
-                # In pkg_resources the *vendor_pkg* points to the *root_name*
-                # in sys.path. Below is a crude hack to work arount that...
-                del sys.modules[f"{vendor_pkg}.{relative_name}"]
-                importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
-        except ModuleNotFoundError:
-            moved_spec = importlib.util.find_spec(relative_name)
+        for moved_name in (f"{vendor_pkg}.{relative_name}", relative_name):
+            try:
+                moved_spec = importlib.util.find_spec(moved_name)
+                if moved_spec is not None and moved_spec.name == spec.name:
+                    # In pkg_resources the *vendor_pkg* points to the *root_name*
+                    # in sys.path. Below is a crude hack to work arount that...
+                    del sys.modules[moved_name]
+                    importlib.invalidate_caches()
+                    moved_spec = importlib.util.find_spec(moved_name)
+            except ModuleNotFoundError:
+                moved_spec = None
+            if moved_spec is not None:
+                break
 
         if moved_spec is None:
             return MissingModule(f"{vendor_pkg}.{relative_name}"), ()
-- 
2.43.0


From b437b6c01e428d78fc36573c3ad1355e9564a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 64/66] fix: submodules of redirected packages that cannot be
 imported are missing modules

---
 modulegraph2/_modulegraph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 864cfa5..51cd657 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -712,12 +712,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     spec = importlib.util.find_spec(parent)
                 except (Exception, SystemExit):
                     spec = None
-                if spec is None:
+                loader = spec.loader if spec is not None else None
+                if spec is None or not isinstance(loader, importlib.abc.InspectLoader):
                     # The parent is in the graph, but cannot be imported
-                    # (aliases, virtual modules, nodes added by hooks)
+                    # (aliases, virtual modules, nodes added by hooks, names
+                    # redirected by an importer such as setuptools.extern)
                     return self._create_missing_module(importing_module, module_name)
-                loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
                 if loader.is_package(spec.name):
                     path = spec.origin
                     assert path is not None
-- 
2.43.0


From 228a33d893e5027f293b955d2e883260115d61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 65/66] fix: the data module of sysconfig is not found on
 Debian and Ubuntu

---
 modulegraph2/_implies.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_implies.py b/modulegraph2/_implies.py
index 4b3768a..e7072d4 100644
--- a/modulegraph2/_implies.py
+++ b/modulegraph2/_implies.py
@@ -7,6 +7,7 @@ inspection of the stdlib sources for CPython.
 
 import os
 import sys
+import sysconfig
 from collections.abc import Sequence
 
 
@@ -84,13 +85,8 @@ STDLIB_IMPLIES: dict[str, ImpliesValueType] = {
     "xml.parsers.expat.model": Alias("pyexpat"),
     "xml.parsers.expat.errors": Alias("pyexpat"),
     # sysconfig users __import__ to load platform specific data
-    "sysconfig": (
-        "_sysconfigdata_{abi}_{platform}_{multiarch}".format(
-            abi=getattr(sys, "abiflags", ""),
-            platform=sys.platform,
-            multiarch=getattr(sys.implementation, "_multiarch", ""),
-        ),
-    ),
+    # (the name is not the same in all distributions of Python)
+    "sysconfig": (sysconfig._get_sysconfigdata_name(),),  # type: ignore
     # turtledemo uses __import__ to load the actual demos
     "turtledemo": (
         "turtledemo.colormixer",
-- 
2.43.0


From 0d0f46eec51b6aee943bb01aabd8c3a1d6714037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 66/66] fix: Connection.iterdump of sqlite3 needs sqlite3.dump

---
 modulegraph2/_implies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_implies.py b/modulegraph2/_implies.py
index e7072d4..14c2ea2 100644
--- a/modulegraph2/_implies.py
+++ b/modulegraph2/_implies.py
@@ -64,6 +64,7 @@ STDLIB_IMPLIES: dict[str, ImpliesValueType] = {
     "_operator": ("functools",),
     "_pickle": ("copyreg", "_compat_pickle", "codecs", "functools"),
     "_posixsubprocess": ("gc",),
+    "_sqlite3": ("sqlite3.dump",),
     "_ssl": ("_socket",),
     "_overlapped": ("_socket",),
     "parser": ("copyreg",),
-- 
2.43.0

