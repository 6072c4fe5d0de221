P("C15", "Imports resolve to the first existing candidate, over the current roots",
  "An import resolves to an existing file: the candidate next to the importing file when it exists, else the candidate in the earliest current root folder where it exists, and otherwise it does not resolve. The root folders are exactly the initial ones changed by every folder added or removed since, and a file belongs to the innermost folder that contains it as a whole path component.",
  ["histories", "configurations"], "all sequences of folder additions/removals and file creations/deletions, all import strings and importing URIs",
  "The crate's tests resolve one import in one root.",
  ["projects/oak-resolver/src/lib.rs", "projects/oak-lsp/src/workspace.rs"], [("StandardResolver::resolve", "projects/oak-resolver/src/lib.rs"), ("WorkspaceManager", "projects/oak-lsp/src/workspace.rs")], ["ModuleResolver::resolve", "WorkspaceManager::find_root"])

P("C16", "Editor requests answer from the current files and the symbols they define",
  "After any sequence of changes to the files, each request reports exactly what the current files contain: the symbols extracted from a file are the definitions of its tree with their names, enclosing definition and range, in order; the document symbols are those of that file, the workspace symbols those of all files that match the query, the listing of files those that exist; the definition of a name used in a file is a definition of that name (or the module it names), its references every use of it at its range. Every range lies inside its file, and nothing of an earlier version of a file is reported.",
  ["histories", "inputs"], "all sequences of file changes and requests",
  "The service traits are exercised by fixture servers only.",
  ["projects/oak-lsp/src/service.rs", "projects/oak-navigation/src/lib.rs", "projects/oak-symbols/src/lib.rs"], [("LanguageService default methods", "projects/oak-lsp/src/service.rs")], ["LanguageService methods"])

P("C17", "The tool server answers every request exactly once, in protocol form",
  "For any sequence of input lines, delivered in any pieces, the tool-protocol server writes exactly one well-formed response line for every request, in the order of the requests, carrying the request's identifier unchanged, and has flushed it before it waits for more input; notifications, responses and blank lines are not answered. Unknown methods, unknown tools and missing arguments are answered with errors; lines that are not JSON or not a message are answered with an error too, and the server keeps serving afterwards until the input ends, an unfinished last line included. Every advertised tool is served: it reaches the language service (or the searcher) with the arguments of the call.",
  ["histories", "inputs"], "all sequences of requests, notifications and malformed lines",
  "There are no tests of the server loop.",
  ["projects/oak-mcp/src/lib.rs"], [("McpServer::run", "projects/oak-mcp/src/lib.rs")], ["bytes written by the server"])

P("C18", "The document printer lays groups out flat exactly when they fit",
  "For every document (texts without line breaks), width and indentation, printing writes the document's texts in order and resolves its line breaks group by group: the breaks directly inside a group are all laid out flat exactly when the group contains no hard line and its flat form, from the column where it starts, fits in the maximum width counted in characters, and otherwise all become line breaks; outside all groups they are flat; hard lines always break. After each line break stands the indentation of the enclosing indents, trailing blanks are trimmed before it when asked for, and the final line break is added when asked for. The formatter turns a tree into a document by its rules in order of priority (first added first among equals), the first applicable rule that yields a document deciding, conflicting rules being refused; without own rules it changes nothing but blanks and line breaks. Rules are handed the source and know the configuration and the nodes they are in.",
  ["inputs", "configurations"], "all documents and widths",
  "Tests render a few documents.",
  ["projects/oak-pretty-print/src/document/mod.rs"], [("Document::render", "projects/oak-pretty-print/src/document")], ["Document::render"])

P("C20", "Highlighting covers the source text exactly",
  "For every source text of every language, concatenating the text of the highlighted segments gives back the source text unchanged, and the segments are in order and do not overlap. A segment has the style its theme gives to the most specific scope it knows of the segment's token. Exporting (HTML with inline styles or classes, ANSI, JSON, CSS) escapes but never drops, duplicates or reorders text, closes what it opens, and shows each segment in its own style.",
  ["inputs", "configurations"], "all texts, all segmentations, all themes, all exporters, all languages",
  "Tests look for substrings in output for one snippet.",
  ["projects/oak-highlight/src/lib.rs", "projects/oak-highlight/src/highlighter/mod.rs", "projects/oak-highlight/src/exporters"], [("OakHighlighter, HighlightVisitor", "projects/oak-highlight/src/highlighter"), ("exporters", "projects/oak-highlight/src/exporters")], ["HighlightResult", "exporter output"])

P("C22", "The line editor's buffer holds exactly what the edits describe",
  "After any sequence of insertions, deletions and cursor movements in the interactive shell's line buffer, the text is exactly what those edits describe and the cursor is at a valid character position; nothing panics on any text.",
  ["histories", "inputs"], "all sequences of editing operations over multibyte text",
  "The repl crate has no tests.",
  ["projects/oak-repl/src/lib.rs"], [("LineBuffer", "projects/oak-repl/src/lib.rs")], ["LineBuffer methods"])

P("C23", "Diagnostics say what went wrong, at the place and source of the error",
  "Every parse or lexical error carries the offset and source it was created with through all conversions, and every diagnostic rendered from it points at the line and column of that offset in that source. Every rendering says the severity, the code, the message (translated where a translation is given), the texts of labels and the help, and markup in any of them stays text.",
  ["inputs"], "all error kinds, all texts and offsets, all messages",
  "Tests render two errors in ASCII sources.",
  [CORE + "errors/mod.rs", "projects/oak-diagnostic/src/lib.rs"], [("OakError::with_source_id / to_diagnostic", CORE + "errors/mod.rs")], ["Diagnostic labels, emitted text"])

P("C27", "The disk file system view identifies files consistently",
  "Files seen through the disk-backed file system have the contents, existence, kind, length and directory entries of the files on disk at that moment, through relative and absolute URIs and whether the root is relative or absolute; writes through it make missing directories and are visible to later reads, and change nothing else. A file that was read or written through it has an identifier, which its source carries, which leads back to that URI, stays the same until the file is removed through it, and is never another file's.",
  ["histories"], "all sequences of file operations on a directory tree, through the view and behind its back",
  "Tests never use the disk-backed file system.",
  ["projects/oak-vfs/src/lib.rs", "projects/oak-vfs/src/vfs/disk.rs"], [("DiskVfs", "projects/oak-vfs/src/vfs/disk.rs")], ["Vfs / WritableVfs methods"])

P("C28", "Syntax trees hold every token once, in order",
  "For every text that a language's parser makes into a tree, the leaves of the tree are the tokens of the language's lexer, each once and in order, so that the text can be read back from the tree; parsing comes to an end and does not panic.",
  ["inputs", "programs"], "all texts, through the lexers and parsers of all languages of the repository",
  "Fixture tests compare the trees of a few well-formed files with recorded ones, which repeat what the parser did.",
  [CORE + "parser/state.rs", CORE + "parser/pratt.rs", "examples"], [("ParserState", CORE + "parser/state.rs")], ["leaves of the green tree of each parser"])

P("C24", "Fixture runs succeed only if the records are what the language gives",
  "A run of the lexer, parser or builder tester over a directory compares, for every file below it that has a requested extension and is not a record, what the language gives for the text with what is recorded for it: the non-ignored tokens with their kinds, texts and places; the shape, kinds, lengths and leaf counts of the tree; the built value; success and errors. A run that succeeds means each of these records says exactly that. A record that differs, is no record, or a file that is not text, or a language that takes longer than allowed makes the run fail and name the reason; without being asked to regenerate, a run changes no existing record (it only renames one recorded under the former name); missing records, and with regeneration all of them, become what the language gives. Nothing else in the directory changes.",
  ["histories", "inputs"], "all histories of edits of fixtures and records and of tester runs, over all languages",
  "The testers are what the tests run on; a tester that accepts too much makes every fixture test pass, and nothing tests the testers.",
  ["projects/oak-testing/src/lexing.rs", "projects/oak-testing/src/parsing.rs", "projects/oak-testing/src/building.rs"], [("ParserTester::test_single_file", "projects/oak-testing/src/parsing.rs")], ["results of run_tests", "files left in the directory"])

P("C29", "Drawings show every node and edge once, in order, without overlap",
  "Graph queries answer for the edges as given: neighbours and degree (both ways without directions), connected exactly if every node is reached from every other over edges taken either way, cycles found exactly if there are any (going back over one undirected edge is none), each list found running around a cycle; edges to unknown nodes count nowhere else. Node, leaf and depth counts of trees, also those made of syntax trees, are those of the tree. A layout holds every node once with its size, label and type, every edge between known nodes once with its label and a line between the middles of its nodes, and tight bounds. Layered and compact tree layouts and the grid, layered and hierarchical graph layouts overlap no nodes; children stand below their parent, siblings (in layers: all nodes of a level) from left to right; hierarchical layouts of acyclic graphs follow their direction. SVG and HTML are well-formed for any label and show the same boxes, labels and lines, styled as set; JSON says the same.",
  ["inputs"], "all trees and graphs, layout algorithms, configurations, labels and styles",
  "Whoever looks at the picture of a tree or graph relies on nothing being missing, hidden or misplaced; the tests count nodes of a few small drawings.",
  ["projects/oak-visualize/src/graph/mod.rs", "projects/oak-visualize/src/tree/mod.rs", "projects/oak-visualize/src/layout/mod.rs", "projects/oak-visualize/src/render/mod.rs", "projects/oak-visualize/src/geometry/mod.rs"],
  [("Graph::find_cycles", "projects/oak-visualize/src/graph/mod.rs"), ("TreeLayout::layout_tree", "projects/oak-visualize/src/tree/mod.rs"), ("SvgRenderer::render_layout", "projects/oak-visualize/src/render/mod.rs")],
  ["answers of graph queries", "layouts", "rendered SVG, HTML and JSON"])

P("C30", "doc!, define_rules!, json! and derived documents mean what they spell",
  "A document spelled in doc! is the one its words, lists, groups, indentation and joins name, wherever a part is spelled as an expression of any form (a reference, an operation, a conditional, a block, a call, another doc!) standing for the value it has; text, options, boxes, lists and references convert to the documents of what they hold. A derived conversion of a struct or enum gives the document its attribute spells, that of its only field, or nothing. Rules spelled in define_rules! have their priority and format exactly the nodes and tokens of their condition as their body says. A value spelled in json! is that value, fields and elements in order.",
  ["inputs"], "all terms of the notations, in all forms a program can spell them, all values",
  "Formatters are written in this notation; a term that quietly means something else (or a part converted wrongly) spoils every formatted file, and the tests spell two trivial documents.",
  ["projects/oak-macros/src/doc.rs", "projects/oak-macros/src/to_doc.rs", "projects/oak-macros/src/define_rules.rs", "projects/oak-macros/src/json.rs", "projects/oak-pretty-print/src/to_doc.rs", "projects/oak-pretty-print/src/document/mod.rs"],
  [("doc! / DocExpr", "projects/oak-macros/src/doc.rs"), ("derive(AsDocument)", "projects/oak-macros/src/to_doc.rs"), ("Document::join", "projects/oak-pretty-print/src/document/mod.rs")],
  ["documents and their layout", "formatted text", "JSON values"])

P("C31", "Comments keep their words, markers and places when they are formatted",
  "Formatting a comment keeps its kind, its markers, its words and their order: a line or documentation comment becomes its marker, a blank and its text; a block comment of one line is padded by one blank; one of several lines gets one line of text per line, each behind a margin of one star at the indentation asked for, without blank lines at either end and without stars or blanks its margin already had; a comment of nothing but blanks stays as it is. Formatting a formatted comment that has text again, at whatever indentation, gives what formatting the original there gives. A comment that is not to be formatted is written as it was, with its markers; comments that are not to be preserved are not written; the settings of the formatter decide both wherever comments are written: one by one, before a place on lines of their own, or as the first trailing comment after it. A collector of comments answers which comments lie in a range, before or after a place or trail, in the order they were added, or by place (stably) once sorted; clearing forgets them.",
  ["inputs", "histories"], "all comments of every kind, all collections, settings and places",
  "A formatter that drops, damages or piles up stars on comments at every run destroys what people wrote; no test of the repository formats one.",
  ["projects/oak-pretty-print/src/comment/mod.rs", "projects/oak-pretty-print/src/formatter/mod.rs"],
  [("Comment::formatted_text", "projects/oak-pretty-print/src/comment/mod.rs"), ("CommentCollector", "projects/oak-pretty-print/src/comment/mod.rs"), ("CommentProcessor", "projects/oak-pretty-print/src/comment/mod.rs"), ("FormatContext::new", "projects/oak-pretty-print/src/formatter/mod.rs")],
  ["text of comments", "collected comments and their places", "settings"])

P("C32", "A watcher of files reports every change below what it watches, and nothing else",
  "While a path is watched, every file and directory that appears at or below it (created, or moved there) is reported as created, every one that disappears (removed, alone or with the directory it is in, or moved away) as removed, and every file written to as changed, under the path it has at that moment; directories that appear later are watched, too, and a moved directory is reported as one. Nothing is reported that did not happen: no removal of what is there, no creation of what is not, no path outside what is watched. Watching a path that does not exist is refused and changes nothing; after a path is no longer watched, or all of them at once, nothing of it is reported any more, and watching it again works.",
  ["histories"], "all histories of changes to the tree and to what is watched",
  "Editors and build tools refresh from these events; one that is missed, misnamed or never ends leaves stale files behind, and no test of the repository watches a file.",
  ["projects/oak-vfs/src/vfs/watch.rs"],
  [("DiskWatcher", "projects/oak-vfs/src/vfs/watch.rs"), ("VfsEvent", "projects/oak-vfs/src/vfs/watch.rs")],
  ["directory tree", "watched paths", "reported events"])
