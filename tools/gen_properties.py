"""Writes /verif/properties.jsonl (kept as code so the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["modulegraph2/"+f for f in files],
                  "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                  "mechanism": [{"name": n, "where": "modulegraph2/"+w} for n, w in mech],
                  "observe_at": observe or ["ModuleGraph public API: nodes reachable from the roots, edges and their attributes"],
                  "hook_needed": None}})
MG="_modulegraph.py"; GB="_graphbuilder.py"; AST="_ast_tools.py"; BC="_bytecode_tools.py"; II="_importinfo.py"
SMALL="The suite analyses a few dozen hand-written files"

p("C01","Modules that a program really imports are in its graph",
  "When a script, module or package built from import statements is run by the interpreter, every module loaded by one of its import statements is reachable from the corresponding root of the graph built for it with the same search path. Such a module is never reported as missing, invalid or excluded, and it is connected to a root by edges, not merely present in the graph. Modules loaded by dynamic calls such as __import__() are outside the property.",
  ["programs"],"For every program (any mix of import forms, packages, namespace packages, nesting, cycles, guarded imports) and every execution of it.",
  SMALL+" and compares them with expectations written by hand; no test runs the analysed program and compares what was really imported.",
  [MG,GB,AST],[("import statement processing","_modulegraph.py:_process_import"),("name list processing","_modulegraph.py:_process_namelist"),("node loading","_modulegraph.py:_load_module")])

p("C02","Every import statement is found, wherever it stands in the source",
  "Each import statement in an analysed source module or script contributes its dependency edges regardless of the statement's position: any nesting of functions, classes, conditionals, loops, with, match and try blocks (including handlers, else, finally and except*), decorators and one-line bodies, and any source encoding or line ending. Text that only looks like an import (strings, comments, docstrings) contributes nothing.",
  ["programs","inputs"],"For every source text the interpreter accepts.",
  SMALL+" with a handful of nestings; the space of nestings, statement forms and encodings is unbounded.",
  [AST,MG,GB],[("iterative AST walk","_ast_tools.py:extract_ast_info"),("source decoding and script loading","_modulegraph.py:_load_script")])

p("C03","Edge attributes describe the import statement that caused the edge",
  "The attributes on the edges between two modules are exactly those of the import statements between them: optional if and only if the statement is inside a function, an if statement or the guarded, handler or else part of a try statement; global if and only if it is not inside a function; marked as from-list if the target was named in the from-list; and carrying the 'as' name of exactly that import. Structural edges (child to parent package, implied dependency, alias) are never optional, always global, not from-list and carry no 'as' name.",
  ["programs","inputs"],"For every nesting of statements and every combination of aliases, including several imports of the same target.",
  "Tests check single statements in a few contexts; combinations of contexts, several aliases of one name and merging of several edges are not covered.",
  [AST,II,"_depinfo.py",MG],[("context flags carried through the walk","_ast_tools.py:extract_ast_info"),("attribute creation","_depinfo.py:from_importinfo"),("is_optional / is_global","_importinfo.py:ImportInfo")])

p("C04","Bytecode-only modules give the same dependencies as their source",
  "Removing the source of a module and leaving only its compiled file changes neither which modules it depends on, nor the in-function (global) attribute and from-list attribute of those dependencies, nor the global names recorded for it. Only the node kind, 'as' names and the optional attribute of statements that are conditional but not in a function may differ.",
  ["programs","inputs"],"For every module, at every size (more than 255 names or constants included) and nesting.",
  "Tests scan a handful of code objects; wide operands, nested classes in functions and other code shapes do not occur.",
  [BC,GB],[("bytecode scan","_bytecode_tools.py:extract_bytecode_info"),("function/class classification","_bytecode_tools.py:_extract_single")])

p("C05","Recorded global names are exactly those the module binds and reads",
  "For an analysed module the set of global names it writes consists of exactly the names bound at module level or through 'global' declarations anywhere in it (imports, assignments, definitions, loops and so on, and names passed on by star imports of analysed modules), and never of function-local or class-level names. Names listed in a from-import count as bound under the listed name as well as under their 'as' name. The set of names it reads contains exactly the names that module-level or function code looks up as globals or builtins, so that the uses_dunder_import and uses_dunder_file flags are right.",
  ["programs","inputs"],"For every source or bytecode module and package; names listed in from-imports inside functions and classes, and names looked up only by class bodies, may or may not be included. Scripts are outside the property.",
  "Tests inspect the sets for a few snippets; scoping has many interacting cases (nested functions, classes, comprehensions, global and nonlocal declarations, large modules).",
  [BC,GB,MG,"_nodes.py"],[("global name scan","_bytecode_tools.py:_extract_single"),("name propagation","_modulegraph.py:_process_namelist")],
  [("globals_written / globals_read","names a module binds and looks up","modulegraph2/_nodes.py:Module")])

p("C06","Relative imports resolve to the module the interpreter would import",
  "A relative import of any level, in a package __init__, a module, or a submodule of a namespace package, leads to the module that the interpreter would import for it. A relative import that the interpreter must reject because it leaves the top-level package (including any relative import in a top-level module or in a script) leads to an invalid-relative-import node named by the dots and name as written, and to nothing else; it is never confused with a top-level module of that name.",
  ["programs","inputs"],"For every level, package depth, importer kind and target kind.",
  "The tests use a few fixed package trees with one or two levels.",
  [GB,MG],[("relative name computation","_graphbuilder.py:relative_package"),("invalid relative imports","_modulegraph.py:_process_import")])

p("C07","From-import names become module edges exactly when they denote modules",
  "For 'from X import name' with X a package the graph contains a from-list edge to the module that X itself imported under that name ('import name', or an import with 'as name'), if there is none to the submodule X.name if it exists, and otherwise no edge and no reachable missing module if X binds the name (a namespace package binds none), and a from-list edge to a missing module X.name if it does not. With X a plain module the name gives a from-list edge if X imported a module under that name and nothing otherwise. All names of one statement are treated this way, and names of missing or excluded modules add nothing.",
  ["programs","inputs"],"For every package shape, name and chain of re-exports.",
  "Tests cover selected name collisions; the interaction of globals, re-exported modules, submodules, aliases and namespace packages is combinatorial.",
  [MG],[("name list processing","_modulegraph.py:_process_namelist")])

p("C08","Star imports pass on exactly the imported module's global names",
  "After 'from m import *' the names that the analysed module or package m binds count as bound in the importing module or package, transitively through chains of star imports, so that importing such a name from it does not produce a missing module. A star import adds no other names, never adds a node called '*', and adds the edge to m itself and no edge to other modules.",
  ["programs","inputs"],"For every chain and fan-in of star imports without import cycles.",
  "Tests contain short star chains in a fixed tree only.",
  [MG,II],[("star handling","_modulegraph.py:_process_namelist"),("work ordering so that m is complete before its names are used","_modulegraph.py:_process_import")])

p("C09","Every submodule in the graph is linked to its chain of parent packages",
  "Whenever a dotted module is in the graph as something that exists, every one of its parent packages is in the graph too and each level has an edge to the level above. Importing a.b.c therefore makes a, a.b and their own dependencies reachable, however the submodule entered the graph: root, import, from-import name, relative import, implied dependency, alias, distribution or hook.",
  ["programs","histories"],"For every way of entering the graph and every depth.",
  "Tests assert parents for specific trees and entry points.",
  [MG],[("parent loading and linking","_modulegraph.py:_find_or_load_module")])

p("C10","The graph holds nothing that no root, import or implication explains",
  "Every reachable module node is a root or is reached by an edge that a concrete import statement, parent package, implied dependency, alias, virtual module or distribution accounts for, and every reachable edge has such an explanation in its source node. Every non-missing node denotes a module that exists on the search path or is built in, each name appears once, and edges connect only nodes of the graph.",
  ["programs","inputs"],"For every program and configuration, in particular unusual names that are prefixes or suffixes of one another.",
  "Tests assert the presence of expected nodes far more often than the absence of everything else.",
  [MG,GB],[("edge and node creation","_modulegraph.py:_process_import"),("edge and node creation for name lists","_modulegraph.py:_process_namelist")])

p("C11","Each node has the kind, file and search path the import system would use",
  "For every module found, the node's class says what the import system would load for the name (source, bytecode-only, extension, built-in or frozen module, regular package, namespace package, or invalid when its source or bytecode cannot be decoded or compiled), its file is the file the import system would load, packages have their directory and search path and the node of their own __init__, and its code object is the module's code. Earlier entries of the search path win over later ones, packages over modules, and extension over source over bytecode files, as in the import system.",
  ["configurations","inputs"],"For every layout of directories and zip files on the search path, including shadowing.",
  "The suite checks each node kind on one example and never varies precedence and shadowing systematically.",
  [GB,"_nodes.py"],[("node creation","_graphbuilder.py:node_for_spec")])

p("C12","Packages report data files exactly when they contain some",
  "A regular package is flagged as having data files if and only if there is at least one file in or below its directory (on disk or in a zip file) that is neither a Python source, bytecode or extension module nor inside a __pycache__ or version-control (.git, .hg, .svn) directory. Empty directories and the order in which a directory is listed make no difference.",
  ["inputs","configurations"],"For every directory tree below a package.",
  "Three fixed trees are tested; the result must not depend on directory order or on how deep a data file is.",
  [GB],[("recursive scan","_graphbuilder.py:_contains_datafiles")])

p("C13","Names that cannot be found become missing modules, never exceptions",
  "Importing or adding a name that does not exist yields a missing-module node with that name, connected to each importer, while the existing part of a dotted name stays as it is and all other imports of the importer are still processed. Missing-ness is consistent: everything below a missing name or below a plain module is missing, a name that exists is never reported missing, and adding the same missing name again gives the same node.",
  ["inputs","programs"],"For every non-existing dotted name, including names below modules, extension modules, namespace packages and built-in modules.",
  "Tests look at a few fixed missing names.",
  [MG],[("missing nodes","_modulegraph.py:_create_missing_module"),("spec lookup and error handling","_modulegraph.py:_load_module")])

p("C14","A broken module never stops or distorts the analysis of the rest",
  "Source with syntax errors, undecodable bytes or null bytes, corrupt bytecode files, and packages whose __init__ raises an exception or exits when it is imported never make adding a root fail. The broken module itself is in the graph (as invalid module, or with its imports if its source is valid), and all other modules, including submodules of a package whose __init__ cannot be imported, are analysed exactly as if the broken one were sound.",
  ["fault_sequences","programs"],"For every kind of breakage at every module of a program, singly and in combination.",
  "The suite has a few broken files, each analysed on its own.",
  [GB,MG,"_utilities.py"],[("syntax error handling","_graphbuilder.py:node_for_spec"),("stand-in for packages that cannot be imported","_modulegraph.py:_load_module"),("FakePackage","_utilities.py:FakePackage")])

p("C15","Excluded modules and everything below them stay out of the graph",
  "A name that was excluded before it is first needed appears in the graph at most as an excluded node without dependencies other than its parent (below a missing name: as a missing module), the same holds for every name below it, and nothing is reachable only through the excluded code. Exclusion wins over implied actions for that name whichever was configured first, applies however the name is reached (absolute, relative, from-import, root, alias target, implied dependency, distribution, hook), and affects only exactly that name and its submodules.",
  ["configurations","programs"],"For every set of excludes, program and order of configuration.",
  "Tests exclude one or two names from fixed graphs.",
  [MG],[("excludes","_modulegraph.py:add_excludes"),("lookup","_modulegraph.py:_implied_references"),("submodules of excluded modules","_modulegraph.py:_find_or_load_module")])

p("C16","Implied dependencies, aliases and virtual modules act as configured",
  "A list of implied dependencies adds an edge from the named module to each listed name in addition to the module's own imports; an alias becomes an alias node whose only dependency is the named target; a virtual module becomes a virtual node whose only dependency is its provider, whether or not a real module of that name exists. Implications take effect when the name is first added by any route, chain through other implications, do nothing for names that are never used, and a later configuration for a not yet used name replaces an earlier one.",
  ["configurations","programs"],"For every implication table (chains, cycles between list implications, submodule names) and program.",
  "Tests configure one implication at a time.",
  [MG,"_implies.py"],[("implied actions","_modulegraph.py:_implied_references"),("configuration","_modulegraph.py:add_implies"),("standard library table","_implies.py:STDLIB_IMPLIES")])

p("C17","Installed distributions are read completely and correctly",
  "Every dist-info directory with metadata and a record file on the given search path is reported once per entry with its name, version, the normalised absolute paths of exactly the files in its record, and the importable names of exactly its modules and packages (never of cached bytecode, data files or files outside the search path entry). Missing search path entries and dist-info directories without metadata or record file are skipped without hiding others, and looking up a name returns the first distribution with exactly that name in path order.",
  ["inputs","configurations"],"For every record content (quoting, commas, nested packages, extension suffixes, scripts outside the tree) and search path.",
  "Tests look at one or two wheels installed by pip.",
  ["_distributions.py"],[("record and metadata parsing","_distributions.py:create_distribution"),("enumeration","_distributions.py:all_distributions")],None,
  ["all_distributions() and distribution_named()"])

p("C18","Modules are attributed to the distribution that installed them",
  "A module's distribution is the one on the search path whose record lists the module's file, and none for modules that no distribution lists, whatever their names. Listing the distributions used in a graph yields each distribution of a reachable (or, on request, any) module exactly once and no others.",
  ["configurations","programs"],"For every assignment of files to distributions, including namespace packages shared by distributions and modules in zip files.",
  "Tests check one installed distribution.",
  ["_distributions.py",GB,MG],[("file to distribution lookup","_distributions.py:distribution_for_file"),("use in graph","_modulegraph.py:distributions")])

p("C19","Adding a distribution adds exactly its importable modules",
  "Adding a distribution, by name or object, makes it a root of the graph with an edge to the node of every importable name it contains, and everything those modules import becomes reachable. Adding it again returns the same node and changes nothing, and an unknown name is rejected without changing the graph.",
  ["configurations","histories"],"For every distribution content and every order of additions.",
  "One real distribution is added in the suite.",
  [MG,"_distributions.py"],[("add_distribution","_modulegraph.py:add_distribution")])

p("C20","Post-processing hooks run once per node, after its imports are known",
  "Each post-processing hook is called exactly once for every module node that the graph itself creates (found, missing, excluded, alias, virtual, invalid, scripts), and for one node hooks run in reverse order of registration. When a hook is called for a node, the node is in the graph and all edges for the import statements of that node have been added; nodes created by work that a hook requests get their calls as well.",
  ["histories","programs"],"For every program and every sequence of graph operations and hook-requested imports.",
  "Tests count calls on small graphs without cycles, hook re-entry or repeated operations.",
  [MG,"_callback_list.py"],[("scheduling","_modulegraph.py:_process_import_list"),("call order","_callback_list.py:CallbackList"),("work stack","_modulegraph.py:_run_stack")])

p("C21","Missing hooks are consulted properly before a module is declared missing",
  "For every name that turns out to be missing the missing hooks are called in reverse order of registration with the graph, the importing node (none for roots) and the full name, until one returns a node; that node is then used for the import, otherwise a missing module is created. Hooks are never called for names that exist, are excluded, aliased or virtual, nor again for a name that already has a node.",
  ["histories","programs"],"For every program, set of missing names and hook behaviour.",
  "Tests register one or two hooks for a single name.",
  [MG,"_callback_list.py"],[("missing node creation","_modulegraph.py:_create_missing_module"),("first result wins","_callback_list.py:FirstNotNone")])

p("C22","Imports requested by hooks are processed like any other import",
  "Importing a module from a hook (or inside a hook context) adds a plain dependency edge from the given node and, once the operation that triggered the hook or the hook context is complete, everything the module depends on. Importing a package adds, on top of that, all source modules and regular subpackages below it found in the file system, at every depth; for missing names and plain modules it adds just the edge. Leaving a hook context, normally or by an exception, leaves no unprocessed work behind.",
  ["histories","programs"],"For every package tree, requesting node and nesting of requests.",
  "Tests call these APIs on one fixed tree.",
  [MG],[("import_module","_modulegraph.py:import_module"),("import_package","_modulegraph.py:import_package"),("hook_context","_modulegraph.py:hook_context")])

p("C23","The graph does not depend on the order or repetition of operations",
  "Adding the same modules and scripts in any order gives graphs with the same reachable nodes and edges; adding a root that is already in the graph changes nothing but the set of roots; and later additions never remove or change nodes or edges that were there. What is reachable from one root is the same whether or not other roots were added first.",
  ["histories"],"For every set of roots and every sequence of additions (configuration fixed beforehand, no cyclic star imports).",
  "Tests build each graph in one fixed order.",
  [MG],[("node reuse","_modulegraph.py:_find_or_load_module"),("roots","_modulegraph.py:add_module")])

p("C24","The same input gives the same graph in every process",
  "Building a graph for the same files and configuration in different interpreter processes gives the same nodes, kinds, attributes and edges, whatever the string hash seed, the order in which the file system lists directories, or the presence of cached bytecode for the analysed files.",
  ["configurations","schedules"],"For every program, hash seed, listing order and bytecode cache state.",
  "The suite runs under one fixed hash seed and one directory order.",
  [AST,MG,II,GB,"_distributions.py"],[("from-list represented as a set","_importinfo.py:create_importinfo"),("directory scans","_modulegraph.py:import_package")])

p("C25","A failed operation leaves the graph usable and loses no other work",
  "Adding a script that cannot be read or compiled, the same script twice, or an unknown distribution raises the documented exception and leaves nodes, edges and roots as they were. When a hook raises, the exception reaches the caller, and after the next operation on the graph everything is there that would be there without the failure, except for what the failing hook call itself or the single import being resolved would have added.",
  ["fault_sequences","histories"],"For every position at which a hook raises and every kind of invalid argument, at any point of a history.",
  "Tests check that the exception is raised, not the state of the graph afterwards.",
  [MG],[("script loading","_modulegraph.py:_load_script"),("work stack survives exceptions","_modulegraph.py:_run_stack")])

p("C26","Analysing code leaves the process and the analysed files alone",
  "Building a graph never runs the code of an analysed script or of any module other than packages (or modules that an import uses like one) whose submodules are looked up and whatever those import themselves. It leaves the module search path, working directory, standard streams and import hooks of the process unchanged, and creates, changes or removes no file apart from the interpreter's own bytecode cache.",
  ["programs","inputs"],"For every program, including ones with side effects at module level.",
  "No test observes whether analysed code runs or files change.",
  [MG,GB,"_utilities.py"],[("locating without importing","_modulegraph.py:_load_module"),("search path restore","_utilities.py:saved_sys_path")])

p("C27","The text report lists exactly the reachable modules",
  "The printed report has one line for every module node reachable from the roots and no other line after the heading, sorted by name, giving the class, the full name and the file of that node, and is written to the requested stream only.",
  ["programs","inputs"],"For every graph, including ones with unreachable nodes, distributions and unusual names.",
  "One graph is reported on in the tests.",
  [MG],[("report","_modulegraph.py:report")],None,["ModuleGraph.report()"])

p("C28","The HTML export describes exactly the reachable graph",
  "The HTML output has one section for every reachable module node, in order of name, with its class and name; each section links to exactly the targets of its outgoing edges and to exactly the reachable sources of its incoming edges among modules, and every link leads to a section of the document. Any name or path is shown literally: text of the analysed program never becomes markup.",
  ["programs","inputs"],"For every graph, including script paths with special characters, distributions and unreachable nodes.",
  "Tests compare a few substrings of the output for one graph.",
  ["_htmlbuilder.py"],[("export","_htmlbuilder.py:export_to_html")],None,["HTML written by the command line interface"])

p("C29","The Graphviz export describes exactly the reachable graph",
  "The Graphviz output is accepted by Graphviz and declares exactly the reachable nodes, each with the shape of its kind and roots highlighted, and exactly the edges between them, dashed if and only if every import behind the edge is optional; modules of one distribution are grouped in one cluster. Names with special characters survive unchanged.",
  ["programs","inputs"],"For every graph.",
  "Tests use mock callbacks and a small fixed graph and never run Graphviz.",
  ["_dotbuilder.py","__main__.py"],[("export","_dotbuilder.py:export_to_dot"),("formatting","__main__.py:format_node")],None,["DOT written by the command line interface"])

p("C30","The command line builds and prints the graph its options describe",
  "The command line output describes the same graph that the library builds for the same names, as modules, scripts or distributions, with the given excludes (including the whole standard library on request) and the given extra search paths placed in order before the existing ones. It goes to standard output or exactly to the requested file in the requested format; a file that cannot be written is reported on standard error with exit status 1, and invalid usage exits with status 2.",
  ["configurations","inputs"],"For every combination of options.",
  "Tests parse options and build mock graphs separately; end-to-end runs over option combinations are missing.",
  ["__main__.py","_utilities.py"],[("option parsing","__main__.py:parse_arguments"),("graph construction","__main__.py:make_graph"),("output","__main__.py:format_graph")],None,["python -m modulegraph2"])

p("C31","Long import chains and deep nesting are analysed without recursion",
  "Building a graph needs a bounded amount of call stack: chains, cycles and fans of thousands of modules that import each other, and source and bytecode with the deepest nesting the compiler accepts, are analysed completely under a recursion limit that is far smaller than the length of the chain.",
  ["programs"],"For every chain length and nesting depth (dotted-name depth and chains of aliases and implications excepted).",
  "No test builds a graph deeper than a few modules.",
  [MG,AST,BC],[("explicit work stack","_modulegraph.py:_run_stack"),("iterative AST walk","_ast_tools.py:extract_ast_info"),("iterative code walk","_bytecode_tools.py:_all_code_objects")])

p("C32","How a package is laid out on the search path does not change its graph",
  "Moving modules between a directory and a zip file on the search path, or splitting a namespace package over several search path entries, leaves the nodes' kinds, dependencies, edge attributes and global names unchanged. Only files, loaders and search paths differ, and they follow the move.",
  ["configurations"],"For every program and every way of packing it.",
  "Tests analyse one fixed tree in a directory and one in a zip file.",
  [GB,MG],[("loader independent node creation","_graphbuilder.py:node_for_spec")])

p("C33","SWIG-style helper extensions are found as the interpreter's global module",
  "When a module or package contains a SWIG import helper and imports the extension named after itself with a leading underscore by its bare name, and that extension file is in the same package, the graph has an extension module node with that bare name reached from the importer. If the helper function or the extension file is absent, the name differs, the extension is not an extension module, or the built-in hooks are off, the name is reported missing, and the process is left as it was.",
  ["configurations","programs"],"For every package layout and variation of the pattern, including packages whose import fails.",
  "The suite has a few fixed SWIG trees.",
  ["_swig_support.py",MG],[("missing hook","_swig_support.py:swig_missing_hook")])

p("C34","Modules compiled with mypyc get the imports of their source",
  "For an extension module (or a package whose __init__ is one) that belongs to a distribution containing a mypyc helper module and that has its Python source next to it, the graph has edges for all import statements of that source with the attributes they would have in a source module, plus an edge to the helper module. Without the helper, the source, the distribution or the built-in hooks, the extension has no dependencies apart from its parent package.",
  ["configurations","programs"],"For every distribution layout and source content.",
  "The suite compiles one example package.",
  ["_mypyc_support.py",MG],[("post-processing hook","_mypyc_support.py:mypyc_post_processing_hook")])

p("C35","Legacy namespace packages and six.moves lead to the real modules",
  "A package whose __init__ declares it a namespace with pkgutil or pkg_resources is marked as such, depends on that module, and the portions in all search path entries are found. Names imported through six.moves, in every import form, lead to the standard library module they stand for and never show up as missing when that module exists.",
  ["configurations","programs"],"For every split of portions over the search path and every six.moves name and import form.",
  "One split and a few names are tested.",
  [GB,MG],[("explicit namespace packages","_graphbuilder.py:node_for_spec"),("six.moves table","_graphbuilder.py:SIX_MOVES_TO")])

p("C36","Independent graphs do not influence one another",
  "The graph that a sequence of operations builds does not depend on other graph objects in the same process: building it first, later, again, interleaved step by step with other graphs, or from within a hook of another graph gives the same nodes, edges, roots and hook calls. Configuration, hooks and excludes of one graph never take effect in another.",
  ["histories","schedules"],"For every interleaving of operations on several graph objects over the same files.",
  "Tests use one graph at a time.",
  [MG,"_distributions.py","_callback_list.py"],[("per-graph state","_modulegraph.py:ModuleGraph.__init__"),("shared distribution cache","_distributions.py:all_distributions")])

p("C37","Dependencies of a source string become roots of the graph",
  "Adding the dependencies of a piece of source code makes every module that its absolute import statements name (at any nesting level), and every module or missing submodule named in a from-list of a package, unless the package itself binds that name, a root of the graph with all its dependencies, without running the code and without adding a node for the code itself. Relative imports become invalid-relative-import roots. Source that cannot be parsed raises a syntax error and leaves the graph unchanged.",
  ["inputs","programs"],"For every source text and world of modules.",
  "Two short strings are tested.",
  [MG,AST],[("add_dependencies_for_source","_modulegraph.py:add_dependencies_for_source")])

p("C38","Names redirected by setuptools' import hooks lead to the real modules",
  "A name that an import hook of setuptools redirects (a name below setuptools.extern or pkg_resources.extern: the vendored copy if there is one, otherwise the installed module of that name; distutils: the copy inside setuptools) is an alias of the module that the interpreter loads for it, and the dependencies of that module are reachable from the importer. Submodules of redirected names lead to the files that the interpreter loads for them. A redirected name behind which there is no module leads to a missing module and does not stop the analysis.",
  ["configurations","programs"],"For every set of vendored, installed and absent names, import form and order of imports.",
  "The suite has two tests for this, which are skipped or trivial with current versions of setuptools.",
  [GB,MG],[("redirecting loaders","_graphbuilder.py:node_for_spec")])
p("C39","Modules the standard library loads without import statements are in graphs",
  "With the default settings the graph of a program contains the standard library modules that a run of it loads although no import statement names them: those that C modules import (datetime, time, pickle, json, operator, ElementTree, asyncio, os, ssl, sqlite3), the data module of sysconfig, the implementations of dbm. os.path and the xml.parsers.expat modules are aliases of the modules behind them. With built-in implications switched off none of these extra edges is there.",
  ["programs","configurations"],"For every program that uses these features, in any combination and import form, on the platform the analysis runs on.",
  "The suite checks how implications are processed, with made-up tables; nothing compares the built-in table with what the interpreter really loads.",
  ["_implies.py",MG],[("built-in implications","_implies.py:STDLIB_IMPLIES"),("processing of implications","_modulegraph.py:_load_module")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as fp:
    for x in P: fp.write(json.dumps(x)+"\n")
print(len(P))
