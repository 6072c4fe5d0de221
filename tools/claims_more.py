CLAIMS["C15"] = (T_REPLAY, "every history of folder and file changes to depth 3 (4 thorough) from four start configurations, plus long simulated ones, on a real scratch directory; every import x importing URI queried after each step")

CLAIMS["C01"] = (T_REPLAY, "every batch of up to 2 (3 thorough) disjoint edits on every text of up to 3 letters, and simulated sequences of up to 6 batches of up to 4 edits with blocks longer than a storage chunk, on contiguous and rope text at storage boundaries")
CLAIMS["C02"] = (T_REPLAY, "every operation on every 3-letter text with every placement of pieces, every pair of operations over a 2-letter alphabet, simulated walks of 25 operations; seven source types, pieces of 1 to 4096 bytes")
CLAIMS["C03"] = (T_REPLAY, "every text of up to 5 (7 thorough) letters over line ends, one- to four-byte characters, every offset and position; simulated longer texts; four source types")
CLAIMS["C07"] = (T_REPLAY, "every sequence of builder operations to depth 4 (5 thorough) over short token streams plus long simulated ones, with nested checkpoints, fallible sections and wrapping")
CLAIMS["C09"] = (T_REPLAY, "every token string to length 5 (6 thorough) over operators of several levels, both associativities, prefix and postfix, plus long simulated expressions, against the reference grammar")
CLAIMS["C12"] = (T_REPLAY, "every tree of the bounded shapes, every position and every traversal; simulated larger trees")

CLAIMS["C05"] = (T_REPLAY, "a model language covering lookahead, unterminated and nested constructs: every edit of every text of up to 4 (5 thorough) letters, simulated histories of batches; and edit histories of token fragments through eight real lexers; assumes a token depends on its text and at most two characters after it")
CLAIMS["C08"] = (T_REPLAY, "a model grammar with reusable nested nodes: every edit of bounded texts, of larger seed programs, and simulated histories of edit batches; and edit histories of fragments through the JSON, Rust, Mojo, Python, VON and RBQ parsers; assumes one token of lookahead and context-free nodes")
CLAIMS["C10"] = (T_REPLAY, "every sequence of session operations (parse succeeding, failing, panicking before or after preparing; preparation; lexing) to depth 4 (6 thorough) plus long simulated ones, the offered tree read back completely after each")
CLAIMS["C11"] = (T_REPLAY, "every sequence of allocations by size class around the chunk boundaries, resets, drops and moves to depth 6 (8 thorough) plus simulated ones over several arenas and threads, contents, alignment, disjointness and given-back memory checked after each")

CLAIMS["C17"] = (T_REPLAY, "every single line and every script of two (three thorough) kinds of line, cut at every place, plus long simulated scripts, with a working, failing or absent searcher; the server fed piece by piece over an in-memory stream")
CLAIMS["C18"] = (T_REPLAY, "every document of up to 6 construction steps over texts, breaks, groups and indents, and simulated ones of 26 steps, at several widths, indentations, line endings; every small tree with a rule of every priority and simulated trees with up to four rules; texts contain no line breaks")
CLAIMS["C22"] = (T_REPLAY, "every sequence of 5 (6 thorough) keys over one- and two-byte characters and brackets, and simulated sequences of 40 keys, typed into the real shell over a pseudo terminal; the text given to the language and the screen compared after each key")
CLAIMS["C23"] = (T_REPLAY, "every kind of error at every place of bounded texts, through every conversion and copy; every label over bounded multi-line multibyte texts through the console, plain, HTML and language-server renderings")

CLAIMS["C06"] = (T_TRACE, "110 languages, every text of up to two (three thorough) of 50 fragments and simulated ones of up to 14; each different record of tokens judged piece by piece; known defects of example lexers are listed by language, fault and character")
CLAIMS["C20"] = (T_REPLAY + "; " + T_TRACE, "every text of up to three letters, every look, every small theme, simulated ones of 24 steps, through the visitor, the highlighter over seven shapes of tree, and every exporter; the segments of 110 real languages over fragment texts judged piece by piece")
CLAIMS["C27"] = (T_REPLAY, "every sequence of 3 (4 thorough) operations over bounded paths, contents and URI styles and simulated ones of 14, on real directories with relative and absolute roots; everything that can be asked is compared after each operation")
CLAIMS["C28"] = (T_TRACE, "110 languages, every text of up to two (three thorough) of 50 fragments and simulated ones of up to 14; the leaves of each tree judged against the tokens; known defects of example parsers are listed by language, fault and character")

CLAIMS["C04"] = (T_REPLAY, "every text of up to 4 to 6 letters over the classes of each family of helpers, every helper configuration at every position, simulated texts of up to 15 letters, and simulated sequences of helper calls; contiguous and rope text")
CLAIMS["C16"] = (T_REPLAY, "every file of up to 4 (5 thorough) items over definitions, blocks, names and references, every position and query asked; simulated histories of edits, removals and renames of several files through the index, the navigators and the language service")
CLAIMS["C24"] = (T_TRACE, "every history of 4 steps (quick: a sample of them) of editing, spoiling, renaming records and running one of the three testers over one fixture, and simulated ones of 16 steps over four fixtures, with a language in three versions (accepting, rejecting, too slow); each run must be explained by visiting the fixtures in some order; a language that never ends is not exercised")
CLAIMS["C29"] = (T_TRACE, "every graph of up to 3 nodes and 3 edges (4 and 4 thorough), known and unknown ends, every tree of up to 4 (5) nodes in four sizes (quick: a sample of them), simulated ones of 7 and 12 nodes, all layouts; drawings are judged box by box and line by line, from the layout and again from the exported JSON, SVG or HTML; nodes no taller than the distance between levels; radial, balloon, circular and force-directed layouts may overlap")

CLAIMS["C30"] = (T_REPLAY, "terms of up to 2 parts in every form a program can hold them and of 3 parts in some (quick: a sample), simulated ones of 14; every spelled program is compiled and its document laid out at seven widths; spelled rules run on trees; a spelled program that does not compile counts as a violation; an operand of json! that begins with a literal is that literal alone")

CLAIMS["C31"] = (T_REPLAY, "all texts of up to 6 words, blanks, stars and line breaks (thorough: 8) in each kind of comment, at two indentations; all histories of 3 (thorough: 4) operations on a collector and its settings with up to 3 comments at 3 places, simulated ones of 12; markers are those of the comment's kind, inside block comments a closing marker does not occur")

CLAIMS["C32"] = (T_REPLAY, "all histories of 3 operations (create, write, remove, move, watch, unwatch, unwatch all) on trees of depth 2 (thorough: also 3) with and without a watched path at first, simulated ones of 14; reports are awaited by a later change elsewhere that is reported, too; the events of one change are compared as a set per path")
