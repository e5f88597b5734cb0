#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Parsing and scanning always return, with a result or an ordinary error",
 """For every input byte sequence (up to 64 KiB) and every combination of parser mode flags, parsing it as a
 file, parsing it as a standalone expression, and scanning it to end-of-file all return after a bounded amount of
 work: no panic, no endless loop, and no more tokens, nodes and errors than a small multiple of the input's length. Truncated, unterminated, deeply nested or binary
 input yields an ordinary error value instead. Extracting authors from, resolving and rendering whatever tree was
 produced likewise returns a value or an error and never panics.""",
 ["inputs"], "every byte sequence up to 64 KiB x every combination of mode flags x every entry point",
 """The tests parse a few dozen short, mostly valid strings; totality is a claim about all inputs, in particular every
 truncation point of every construct (a string cut in the middle made the parser loop or panic).""",
 ["scanner/scanner.go", "parser/parser.go", "parser/interface.go", "author.go", "render/render.go", "ast/walk.go"],
 [("always make progress on a token", "scanner.Scanner.Scan"), ("EOF ends a string", "scanner.Scanner.scanInString"),
  ("advance/sync limits", "parser.parser.advance"), ("bailout recovery", "parser.ParseFile, parser.ParseExpr")],
 [("scan position", "how much of the source has been consumed", "scanner.Scanner.offset/rdOffset"),
  ("string state", "which string, if any, the scanner is inside", "scanner.Scanner.endQuoteCh/braceDepth")],
 ["parser.ParseFile", "parser.ParseExpr", "scanner.Scanner.Scan", "bibtex.Biber.Parse/Resolve/Render"])

prop("C02", "The token stream is exactly the source text",
 """Scanning any source yields, up to the first lexical error, tokens that lie in the source in order without
 overlap, whose kind (and the classes it belongs to) follows the lexical grammar for that position (outside or inside a string), and whose literal is
 exactly the token's source text (delimiters, and the backslash of a named macro, excluded). Only whitespace and one
 leading byte order mark are skipped between tokens; the stream ends with end-of-file after the whole source was
 consumed. Every lexical error reaches the error handler and the error count, and a scanner that is initialised again
 behaves like a new one.""",
 ["inputs", "histories"], "every source text, both string modes, and every earlier use of the same scanner value",
 """Scanner tests check about sixty hand-written token lists; whether no character is lost, scanned twice or given the wrong
 kind depends on every character class in every scanner state (normal, brace string, quoted string at each depth).""",
 ["scanner/scanner.go", "token/token.go", "token/accent.go"],
 [("top-level token switch", "scanner.Scanner.Scan"), ("in-string token switch", "scanner.Scanner.scanInString"),
  ("escapes, accents, macros, math", "scanner.Scanner.scanStringEscape/scanSpecialCharStringAccent/scanStringMath"),
  ("brace counting", "scanner.Scanner.scanBraceString/scanString"), ("re-initialisation", "scanner.Scanner.Init")],
 [("prev", "previous token: decides whether '{' opens a string", "scanner.Scanner.prev"),
  ("endQuoteCh, braceDepth", "inside which string and how deep", "scanner.Scanner")],
 ["scanner.Scanner.Scan", "scanner.Scanner.ErrorCount", "scanner.ErrorHandler", "token.Token predicates"])

prop("C03", "Declarations, cite keys and fields survive parsing exactly",
 """For every well-formed document, parsing succeeds and yields exactly its declarations in source order: each entry
 with its lower-cased type, its cite key (none if the entry has none), its additional keys, and its fields in source
 order under their lower-cased names and their names as written. Nothing is dropped, duplicated, merged, reordered or
 invented, for any number of entries and fields, any legal name characters, keys that are or begin with digits, optional
 trailing commas, and either kind of entry delimiter; a key is a key only if written as one, so field names never become keys.""",
 ["inputs"], "every well-formed document, both string modes",
 """Tests compare the first entry of about twenty one-entry documents and never look at additional keys; the property needs every
 combination of keys, fields, commas, delimiters and name characters.""",
 ["parser/parser.go", "scanner/scanner.go"],
 [("entry loop", "parser.parser.parseBibDecl"), ("declaration dispatch", "parser.parser.parseDecl/parseFile"),
  ("string and preamble declarations", "parser.parser.parseAbbrevDecl/parsePreambleDecl/parseTagStmt"),
  ("names", "scanner.IsName, scanner.Scanner.scanIdent/scanNumber/scanCommand")],
 [("Entries", "declarations of the file", "ast.File.Entries"), ("Key, ExtraKeys, Tags", "content of an entry", "ast.BibDecl")],
 ["parser.ParseFile", "bibtex.Biber.Parse"])

prop("C04", "Without string parsing, field values are verbatim source text",
 """With string parsing off, the value of every field, abbreviation and preamble of a well-formed document is the exact
 source text between its delimiters, with the kind of delimiter recorded: nested (also empty) braces, quotes inside braces,
 newlines, backslashes and non-ASCII text included. Numbers and abbreviation names come through exactly as written. A
 concatenation of n operands, delimited by any mix of quotes and braces, yields all n in order, nested to the right.""",
 ["inputs"], "every well-formed document parsed with string parsing off",
 """The tests use values such as foo or {f}oo; brace matching over all nestings (an empty nested group was scanned wrongly)
 and all operand mixes is out of their reach, and the large corpus file is only checked for absence of an error.""",
 ["scanner/scanner.go", "parser/parser.go"],
 [("delimited strings", "scanner.Scanner.scanString/scanBraceString"), ("brace heuristic", "scanner.Scanner.Scan"),
  ("expressions", "parser.parser.parseExpr/parseBasicLit")],
 [("UnparsedText, Number, Ident, ConcatExpr", "value nodes", "ast")], ["parser.ParseFile"])

prop("C05", "Parsed strings mirror their source text",
 """With string parsing on, every string of a well-formed document becomes a tree whose pieces account, in order, for every
 character between the delimiters: text, whitespace runs, commas, ties, math, escaped characters, accents, macros and nested
 groups, with the right delimiter kind and nesting depth. Characters are special only where the grammar says so: a double
 quote ends a string only at brace depth 0 of a quoted string, an escaped character or math content never opens or closes
 anything, and a concatenation keeps all operands in order. The argument of \\url and \\href, and a plain http url in a url field,
 keep ties and commas as literal characters.""",
 ["inputs"], "every well-formed document parsed with string parsing on",
 """Tests cover some thirty strings; the grammar of pieces is context dependent (depth, delimiter, field name, macro name), so the
 property is about every sequence of pieces at every depth.""",
 ["scanner/scanner.go", "parser/parser.go"],
 [("string tokens", "scanner.Scanner.scanInString"), ("text tree", "parser.parser.parseText/parseStringLiteral"),
  ("url rules", "parser.parser.parseMacroURL/parseURLStringLiteral, parser.fixUpFields"), ("accents", "parser.parser.parseStringAccent")],
 [("ParsedText", "tree of pieces", "ast.ParsedText.Values/Depth/Delim")], ["parser.ParseFile", "parser.ParseExpr"])

prop("C06", "Malformed input is never silently accepted",
 """If a document has an unterminated or mismatched entry or string, a missing '=' or value, an entry field name that does not
 start with a letter, unterminated math, an invalid accent or macro escape, a NUL, invalid UTF-8 or misplaced byte order
 mark, or stray text between declarations, parsing reports a non-empty error list sorted by source position, with or without
 string parsing wherever the construct is recognised. Conversely, when parsing reports no error the tree contains no placeholder
 (bad) or missing nodes and describes the whole input. An expression or file that fails to parse is never handed out as if it were
 complete by the convenience entry points (they return the error and no tree).""",
 ["inputs"], "every input text, both string modes, ParseFile, ParseExpr and Biber.Parse",
 """Four invalid inputs are tested. Acceptance is a property of the whole language: every truncation, deletion and substitution of every
 valid document must be classified.""",
 ["parser/parser.go", "parser/interface.go", "scanner/scanner.go", "bibtex.go"],
 [("expect*/errorExpected", "parser.parser"), ("scanner errors are recorded", "parser.parser.init (error handler)"),
  ("error result", "parser.ParseFile, parser.ParseExpr, bibtex.Biber.Parse")],
 [("errors", "recorded errors", "parser.parser.errors")], ["error results of ParseFile, ParseExpr, Biber.Parse"])

prop("C07", "A syntax error leaves the declarations before it intact",
 """When a document is malformed, the partial tree starts with every declaration completed before the malformed one, in order
 and identical to what parsing that prefix alone yields, no matter how many errors follow. The first reported error is located
 at or after the end of the last such declaration. The partial tree has placeholder (bad) nodes instead of nil
 nodes, so walking it visits only proper nodes.""",
 ["inputs", "fault_sequences"], "every valid prefix followed by every malformed continuation, with any number of errors, in every mode",
 """The tests for invalid input only check that some error is returned; they never look at the partial tree.""",
 ["parser/parser.go", "parser/interface.go"],
 [("declaration list", "parser.parser.parseFile"), ("error limit and bailout", "parser.parser.error, parser.ParseFile"),
  ("bad nodes", "parser.parser.parseText/parseExpr/parseDecl"), ("resynchronisation", "parser.parser.advance")],
 [("Entries", "declarations of the partial tree", "ast.File.Entries")], ["ParseFile result and error list", "ast.Walk over the partial tree"])

prop("C08", "Comments are kept, grouped and attached to what they precede",
 """Every %-comment outside strings of a well-formed document is recorded exactly once, in source order, with its position and exact
 text up to the end of its line, in groups separated by blank lines or by other tokens; a comment behind a token on that token's line is a
 group of its own. A group that ends on the line directly before a
 declaration or a field of an entry is that node's documentation; no other group is. A comment may stand between any two tokens without
 changing declarations, keys or values, and a % inside a string is ordinary text.""",
 ["inputs"], "every well-formed document with comments at any token boundary",
 """No test parses a comment at all.""",
 ["parser/parser.go", "scanner/scanner.go", "ast/ast.go"],
 [("comment collection", "parser.parser.next/consumeCommentGroup/consumeComment"), ("doc capture", "parser.parser.parseBibDecl/parseTagStmt/parse*Decl"),
  ("comment token", "scanner.Scanner.scanTexComment")],
 [("Comments, Doc", "comment groups and attachments", "ast.File, ast.BibDecl, ast.TagStmt, ast.AbbrevDecl, ast.PreambleDecl")],
 ["ast.File.Comments", "Doc fields"])

prop("C09", "Recorded positions point at the construct they describe",
 """For every well-formed document, the start position of each declaration, key, field, value and piece of a parsed string (other than
 the inner text of accents and url arguments) is the byte offset of its first source character. The position recorded for a closing delimiter
 is that of the actual closer of the construct, and an operator position that of its '#'. All positions resolve through the file set to
 the right line and column.""",
 ["inputs"], "every well-formed document, both string modes, any earlier content of the file set",
 """Parser tests ignore positions altogether (the comparers drop them); scanner tests check offsets for a few token lists.""",
 ["parser/parser.go", "scanner/scanner.go", "ast/ast.go"],
 [("token positions", "scanner.Scanner.Scan/scanInString"), ("line table", "scanner.Scanner.next"), ("node positions", "parser.parser.parse*")],
 [("Pos", "positions of AST nodes", "ast.*")], ["Node.Pos and position fields", "FileSet.Position"])

prop("C10", "Layout, comments and non-semantic flags do not change the parse",
 """Two well-formed documents that differ only in whitespace, line ends or comments between tokens, in the letter case of entry types, commands
 or field names (apart from the recorded raw name), in braces versus parentheses around a declaration, or in optional trailing commas,
 parse to the same declarations apart from positions and comments. The comment, tracing, declaration-error and all-errors flags
 never change the tree or whether a document is accepted. Switching string parsing on or off never changes types, keys or field names of a document both
 modes accept and whose strings end at the same places in both (escaped braces and braces in math count only without string parsing).""",
 ["inputs", "configurations"], "every pair of layouts of every well-formed document x every combination of mode flags",
 """A relation between two runs over all documents and all 32 flag combinations; the tests use one fixed layout and three flag values.""",
 ["parser/parser.go", "scanner/scanner.go", "parser/interface.go"],
 [("whitespace and comments", "scanner.Scanner.skipWhitespace, parser.parser.next"), ("case folding", "scanner.Scanner.Scan, parser.parser.parseBibDecl"),
  ("delimiters", "parser.parser.expectOne/expectCloser"), ("modes", "parser.parser.init")],
 [("mode", "flag set", "parser.Mode")], ["parser.ParseFile"])

prop("C11", "Resolving yields one faithful entry per bibliographic declaration",
 """Resolving a parsed file, or a single entry declaration, yields exactly one entry per bibliographic entry, in source order, with its type,
 its cite key (empty if it has none) and a field map holding, for each distinct lower-cased field name, the last value given for it and nothing else.
 Abbreviation and preamble declarations produce no entry. Resolving a package yields the entries of all its files, each file's entries in source
 order, and resolving any other kind of node is an error.""",
 ["inputs"], "every parsed document, package and declaration",
 """Tests resolve single-entry documents with distinct fields and a key only.""",
 ["bibtex.go"], [("entry construction", "bibtex.Biber.Resolve/resolveEntry")],
 [("Entry", "Type, Key, Tags", "bibtex.Entry")], ["bibtex.Biber.Resolve"])

prop("C12", "Author fields are split into people and name parts by the BibTeX rules",
 """A parsed author list yields one author per part between top-level words 'and', in order, and an error if any part is empty; 'and' or commas inside braces
 or as a piece of a longer word never split, and 'and others' gives the others marker. Without commas the last whitespace- or tie-separated word is always family name; the given name is the leading
 words up to the first later lower-case word, then lower-case words form the prefix, and everything after is family name. With commas it is
 'prefix last, first' or 'prefix last, suffix, first' (names with more commas are left open); every word ends up in exactly one part, separated by white
 space as in the source up to its amount, words are never cut apart at accents or braces, and accents come out as the accented letter.""",
 ["inputs"], "every author list built from words (plain, braced, accented), ties, commas and 'and'",
 """About twenty names are tested; the rules depend on every combination of word case, word structure (accents and braces inside words),
 number of commas and position.""",
 ["author.go", "render/accent.go"],
 [("splitting", "bibtex.ExtractAuthors/extractAuthor"), ("no commas", "bibtex.resolveAuthor0"), ("commas", "bibtex.resolveAuthorN"), ("pieces", "bibtex.parseDefault")],
 [("Author", "First, Prefix, Last, Suffix", "ast.Author")], ["bibtex.ExtractAuthors", "bibtex.AuthorResolver"])

prop("C13", "Text rendering flattens a field to exactly its readable text",
 """Rendering a parsed string to text yields, in order and each exactly once, its text, one space per whitespace run or tie, commas, the character behind each escape,
 math with its dollar signs, macro arguments without the macro name, and the precomposed letter for each accent, with all braces and quotes dropped. A letter the accent cannot
 apply to is an error, never a wrong or missing letter, and so is a writer that fails: what it accepted is a beginning of the text. The rendering resolver replaces every
 parsed string that is the whole value of a field or abbreviation by that text and touches nothing else; the escape resolver replaces exactly the escaped pieces, at every depth of the node or document it is given.""",
 ["inputs"], "every parsed string tree and every document",
 """A handful of trees are tested and the escape resolver only on bare strings, never on a document; the accent table is tested for four of its sixty letters.""",
 ["render/render.go", "render/accent.go", "resolver.go"],
 [("text renderer", "render.TextRenderer.Render"), ("accents", "render.RenderAccent"), ("resolvers", "bibtex.RenderParsedTextResolver, bibtex.SimplifyEscapedTextResolver")],
 [("accentMap", "base letter x accent -> letter", "render.accentMap")], ["TextRenderer.Render", "RenderAccent", "resolver results"])

prop("C14", "Tree walks visit every node once, in order, and obey the walker",
 """Walking any tree enters every node reachable through entries, fields, values, string pieces, concatenation operands, macro arguments, authors and name parts
 exactly once, in source order, and leaves it exactly once after all its children. When the walker answers skip-children on entering, exactly that node's
 descendants are left out and the node is still left; when it answers stop or returns an error, no further call is made
 and the error is returned unchanged.""",
 ["inputs", "histories"], "every tree x every sequence of walker answers",
 """Three hand-written walks are tested; skip and error answers, and walks below fields and abbreviations, are not.""",
 ["ast/walk.go", "ast/ast.go"], [("recursion", "ast.walkHelper")],
 [("walk status", "continue, skip, stop", "ast.WalkStatus")], ["sequence of walker calls", "error result of ast.Walk"])

prop("C15", "Default rendering writes each piece once in source order",
 """Rendering any string tree with the default renderers writes, for each node in tree order, its delimiters and its content exactly once: text, whitespace, commas, math,
 escapes and nested groups come out in source form (a tie as a space, an accent as its letter), so nothing is lost, doubled or panics. Replacing the renderer of one node kind
 changes only the output for nodes of that kind, in that instance, and sees exactly the enter and leave calls of the walk; a node without a renderer, a renderer's error or a failing writer is
 reported as an error, and nothing is rendered after it.""",
 ["inputs", "configurations"], "every tree x every renderer replacement",
 """Nothing tests rendering through the configurable renderer; it panicked on plain text.""",
 ["bibtex.go", "render/render.go"], [("renderer table", "render.Defaults"), ("render walk", "bibtex.Biber.Render"), ("replacement", "bibtex.WithRenderer")],
 [("renderers", "renderer per node kind", "bibtex.Biber.renderers")], ["bibtex.Biber.Render output and error"])

prop("C16", "Calls are isolated: no history, sharing or concurrency effects",
 """The result of a parse, resolve or render call depends only on its own arguments and the options of the instance it is made on: earlier calls, other instances, and calls running at the same time on the same or other
 instances never change it, and there is no data race. Options given to one instance never
 affect another. The source bytes handed in are never modified, and trees from different calls share no mutable node.""",
 ["schedules", "histories"], "every interleaving of calls of several clients on shared and separate instances, every history of earlier calls (including failed ones)",
 """All tests run one call on a fresh instance, sequentially; interleavings and histories are not exercised.""",
 ["bibtex.go", "parser/interface.go", "parser/parser.go", "resolver.go", "render/render.go", "scanner/scanner.go"],
 [("per-call parser and scanner", "parser.ParseFile"), ("per-instance tables", "bibtex.New, render.Defaults"), ("read-only package tables", "parser.stmtStart, render.accentMap")],
 [("package variables", "must stay read-only", "parser, render, ast")], ["results of concurrent and repeated calls", "race detector"])

prop("C17", "Every kind of source gives the same parse; packages hold every good file",
 """The same bytes handed in as a string, byte slice, buffer, any reader (however it chunks its data) or file give the same tree and errors, with the given
 name recorded in the tree and in error positions; an unreadable or unsupported source gives its error and no tree. Parsing a list of files yields a package that holds, under
 its path, the tree of exactly every file that parses without error, together with the first error in list order, if
 any; one bad file never prevents the others from being loaded.""",
 ["inputs", "fault_sequences", "configurations"], "every source kind x content x read failure point; every list of good, bad and missing files",
 """Tests only pass strings and one file name; package parsing, which crashed on the first good file, is not tested.""",
 ["parser/interface.go", "bibtex.go"], [("source reading", "parser.readSource"), ("packages", "parser.ParsePackage")],
 [("Files", "trees by path", "ast.Package.Files")], ["parser.ParseFile", "parser.ParsePackage", "bibtex.Biber.Parse"])

prop("C18", "Configured resolvers run in order, once each, and a failure aborts",
 """Options apply in the order given: a parser mode replaces the earlier one, resolvers are appended, a renderer replaces the earlier one for its kind. Resolve runs every
 configured resolver exactly once per call, in configuration order, each on the tree left by the one before, before any entry is built. If a resolver fails no later resolver
 runs, no entries are returned, and the error identifies the failing position and wraps the cause.""",
 ["configurations", "fault_sequences"], "every option list x every resolver sequence x every failing resolver",
 """One fixed list of three succeeding resolvers is tested.""",
 ["bibtex.go", "resolver.go"], [("options", "bibtex.WithParserMode/WithResolvers/WithRenderer/New"), ("pipeline", "bibtex.Biber.Resolve")],
 [("resolvers", "configured pipeline", "bibtex.Biber.resolvers")], ["bibtex.New", "bibtex.Biber.Resolve"])

prop("C19", "Scopes never overwrite a declaration",
 """Inserting an object into a scope succeeds exactly when no object of that name is in it; otherwise the scope is unchanged and the existing object is returned. Lookup
 returns exactly the object inserted first under that name in that very scope, never one of an outer or sibling scope. Objects
 report the position of the entry key that declares them, and no position otherwise.""",
 ["histories"], "every sequence of insert and lookup operations on nested scopes",
 """No test touches scopes.""",
 ["ast/scope.go"], [("insert, lookup", "ast.Scope.Insert/Lookup"), ("position", "ast.Object.Pos")],
 [("Objects", "name -> object", "ast.Scope.Objects")], ["ast.Scope.Insert/Lookup", "ast.Object.Pos"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
