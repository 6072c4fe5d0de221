#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the statements is here, one call per property)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    for f in files:
        assert os.path.exists("/repo/" + f), f
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CORE = "projects/oak-core/src/"

P("C01", "Applying edits yields the spliced text and reports the affected range",
  "Applying any batch of non-overlapping text edits (in any order, at character boundaries) to a source text or a rope produces exactly the text obtained by splicing each replacement over its original span, and leaves everything outside the spans untouched. The reported start offset (or affected range) never lies after the first byte that changed, and the reported end covers the last one; copies and snapshots taken earlier keep their text.",
  ["inputs", "histories"], "all texts, all batches of disjoint edits including insertions, deletions and edits at both ends, all sequences of batches",
  "The edit tests apply one or two hand-written ASCII edits; nothing samples batches, chunk boundaries of ropes, multibyte text, or sequences.",
  [CORE + "source/text.rs", CORE + "source/rope.rs", CORE + "source/mod.rs", CORE + "source/streaming.rs"],
  [("SourceText::apply_edits*, Rope edits", CORE + "source/text.rs")], ["SourceText::apply_edits_range", "RopeBuffer::apply_edits", "Source::get_text_in"])

P("C02", "Text stored in chunks reads exactly like contiguous text",
  "Reading a source that stores its text in chunks (rope, streaming or growable buffer) through any sequence of source reads and cursor movements gives the same characters, strings, matches and positions as reading the same text stored contiguously. Where the chunk boundaries fall is never observable.",
  ["inputs", "histories"], "all texts with multibyte characters, all placements of chunk boundaries, all sequences of cursor operations",
  "Unit tests use texts smaller than one chunk, so no operation ever crosses a boundary.",
  [CORE + "source/cursor.rs", CORE + "source/rope.rs", CORE + "source/mod.rs", CORE + "source/streaming.rs", CORE + "source/buffer.rs"],
  [("SourceCursor chunk refill", CORE + "source/cursor.rs"), ("RopeBuffer::chunk_at", CORE + "source/rope.rs")], ["SourceCursor::*", "Source::chunk_at/get_char_at/get_text_in"])

P("C03", "Offsets and line/column positions convert consistently",
  "For every text the line map splits it at exactly its line terminators, and converting a byte offset to a line/column pair counts exactly the UTF-16 units between the line start and that offset. Converting such a pair back returns the original offset for every offset at a character boundary.",
  ["inputs"], "all texts over multibyte, surrogate-pair and line-break characters, all offsets and positions including past-the-end ones",
  "Tests convert a few offsets in short ASCII text.",
  ["projects/oak-vfs/src/line_map.rs"], [("LineMap", "projects/oak-vfs/src/line_map.rs")], ["LineMap methods"])

P("C04", "Scanning helpers consume exactly the text their rule describes",
  "Every shared scanning helper of the lexer state (white space, line comments, block and nesting comments, strings with quotes and escapes, identifiers, runs of digits, of word characters and of characters of a class, taking while or until a condition holds, expecting a character or a word, and the byte scanners that find the next byte of a set or the end of a run) either consumes exactly the piece of text its configuration describes (the longest run of its class; a comment or string up to its end mark, or up to the end of the text when that is missing) and, where it records a token, records one of the configured kind covering precisely that piece, or declines and leaves the position and the tokens as they were. (Assumed: a string's escape is not one of its quotes, the start and end marks of a nesting comment differ, and an end mark is not empty.)",
  ["inputs", "configurations"], "all texts over the relevant character classes and all helper configurations (nesting, escapes, delimiters), at every start position",
  "Helpers are only exercised through the language lexers' fixed fixtures.",
  [CORE + "lexer/mod.rs", CORE + "lexer/scan_comment.rs", CORE + "lexer/scan_string.rs", CORE + "lexer/scan_white_space.rs", CORE + "lexer/scan_identifier.rs", CORE + "source/simd.rs"],
  [("LexerState helpers", CORE + "lexer/mod.rs")], ["tokens returned by LexerState::finish", "LexerState::get_position"])

P("C05", "Lexing again after edits with cached tokens equals lexing from scratch",
  "After any sequence of edits, the tokens obtained by re-lexing with the previous token cache and the reported edit position are the same tokens, with the same spans, as lexing the new text from scratch, for every lexer that decides a token from its text and at most two characters after it.",
  ["inputs", "histories"], "all old texts, edits and edit sequences for languages whose lexer supports resuming",
  "Tests compare counts for one or two edits.",
  [CORE + "lexer/mod.rs", CORE + "parser/session.rs"], [("LexerState::new_with_cache", CORE + "lexer/mod.rs")], ["Lexer::lex with a cache"])

P("C06", "Tokens tile the source and end with one end-of-file token",
  "For every input, the tokens a language's lexer returns cover the text from the first to the last byte without gaps or overlaps, each on character boundaries and none empty, followed by an empty end-of-file token at the end of the text.",
  ["inputs", "programs"], "all texts, through the lexers of all languages of the repository",
  "Fixture tests pin down the tokens of a few well-formed files.",
  [CORE + "lexer/mod.rs", "examples"], [("LexerState::add_token / add_eof", CORE + "lexer/mod.rs")], ["LexOutput::result of each lexer"])

P("C07", "Backtracking restores the parser exactly and the tree keeps every token once",
  "Whatever sequence of checkpoints, advances, node completions, restores and speculative parses a parser performs, restoring a checkpoint brings back the token position and the pending tree exactly as they were, and the finished tree contains each consumed token exactly once, in order, nested as the completed nodes say.",
  ["histories", "inputs"], "all sequences of parser-state operations over all token streams with trivia",
  "Tests run whole grammars over fixtures; few grammars backtrack.",
  [CORE + "parser/state.rs", CORE + "builder/mod.rs"] , [("ParserState checkpoint/restore/finish_at", CORE + "parser/state.rs")], ["green tree from ParserState::finish"])

P("C08", "Incremental parsing gives the same tree as parsing from scratch",
  "Parsing an edited text with the previous tree and tokens available for reuse yields a tree with the same structure, kinds and lengths as parsing the edited text from scratch, for every edit and any sequence of edits, for every parser that decides a construct from its tokens and the one token after it.",
  ["inputs", "histories"], "all texts, edits, edit sequences and grammars that reuse nodes",
  "Tests reparse a handful of edited snippets and compare lengths.",
  [CORE + "parser/state.rs", CORE + "parser/session.rs", CORE + "parser/mod.rs"], [("ParserState::try_reuse / incremental_node", CORE + "parser/state.rs")], ["green tree"])

P("C09", "Operator-precedence parsing nests by binding power and associativity",
  "For every operator table and token sequence, the tree built by the operator-precedence parser groups operands by binding power, left- or right-associatively as declared, with prefix and postfix operators binding as declared, and consumes exactly the longest expression admitted by the minimum precedence.",
  ["inputs", "configurations"], "all operator tables (left, right, none, prefix, postfix) and all token sequences",
  "Languages' tests exercise one fixed table on short expressions.",
  [CORE + "parser/pratt.rs"], [("PrattParser::parse_expr", CORE + "parser/pratt.rs")], ["green tree shape"])

P("C10", "A parse session always offers its most recent successful tree",
  "After any sequence of successful and failed parses in one session, the session offers for incremental parsing exactly the tree its last parse produced if it produced one; after a parse that produced none it offers either no tree or the most recent tree it produced, intact. The tokens it offers are those of its last lexing. Whatever tree a session offers stays readable and unchanged until its next parse.",
  ["histories"], "all sequences of parse outcomes and edits in a session",
  "Tests parse two or three times, always successfully.",
  [CORE + "parser/session.rs", CORE + "memory/arena.rs"], [("ParseSession generations", CORE + "parser/session.rs")], ["ParseCache methods"])

P("C11", "Arena allocations stay intact, aligned and disjoint",
  "Every value allocated from the tree arena keeps its content until the arena is reset or dropped, is aligned for its type and overlaps no other live allocation, for any sequence of allocations of any size; the memory of dropped arenas is given back, except for a bounded pool per running thread.",
  ["histories", "inputs"], "all sequences of allocations, sizes around the chunk size, resets and chunk recycling",
  "Tests allocate a few small nodes.",
  [CORE + "memory/arena.rs"], [("SyntaxArena::alloc*", CORE + "memory/arena.rs")], ["returned references"])

P("C12", "Tree navigation agrees with the tree",
  "For every syntax tree, child, sibling, ancestor and offset lookups, cursor movements and visitor traversals return exactly the nodes and tokens the tree contains at those places, and every element's span is the concatenation of its children's spans.",
  ["inputs", "histories"], "all trees (including empty nodes and tokens), all offsets, all sequences of cursor movements",
  "Tests navigate one small tree.",
  [CORE + "tree/red_tree.rs", CORE + "tree/cursor.rs", CORE + "tree/green_tree.rs", CORE + "visitor/mod.rs"], [("RedNode", CORE + "tree/red_tree.rs"), ("TreeCursor", CORE + "tree/cursor.rs")], ["RedNode/TreeCursor/Visitor public API"])

P("C13", "The in-memory file system behaves like one atomic map from URI to text",
  "Any sequence of writes, creations, renames and removals through the in-memory file system leaves exactly the files and directories those operations describe: existence, contents, metadata, file and directory kinds, listings, walks, line maps, and identifiers all agree with them. Operations issued concurrently by several threads take effect one at a time in some order consistent with real time.",
  ["histories", "schedules"], "all operation sequences over nested, prefix-sharing and percent-encoded URIs; all interleavings of concurrent callers",
  "The crate has no concurrency tests and its unit tests run one create/read sequence.",
  ["projects/oak-vfs/src/lib.rs"] + [f for f in ["projects/oak-vfs/src/memory.rs", "projects/oak-vfs/src/vfs.rs"] if os.path.exists("/repo/" + f)],
  [("MemoryVfs", "projects/oak-vfs/src")], ["Vfs / WritableVfs methods"])

P("C14", "The workspace symbol index answers from exactly what files now define",
  "After any sequence of file updates and removals, looking up a qualified name returns every symbol the files currently define under it and nothing else, and searches, per-file listings and whole-index listings agree with that. Concurrent updates and queries behave as if executed one at a time in some order consistent with real time.",
  ["histories", "schedules"], "all sequences of file updates/clears over files sharing names; all interleavings",
  "Unit tests register one file at a time and never share a name between files or threads.",
  ["projects/oak-resolver/src/lib.rs"], [("GlobalSymbolTable", "projects/oak-resolver/src/lib.rs")], ["GlobalSymbolTable methods"])

json_path = os.path.join(ROOT, "properties.jsonl")
exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None
with open(json_path, "w") as f:
    for x in L:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(L), "properties")
