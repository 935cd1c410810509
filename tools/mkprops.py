#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

PARSE = "BeancountParser::parse() result"
p("C01", "Reading and parsing never panics, aborts or hangs, whatever the text",
  "For every input text (any Unicode, any nesting, any length, any set of included files, readable or not), loading the sources, parsing them, resolving the resulting spans and writing the error and warning reports all return normally: no panic, no stack overflow, no endless loop. Parsing returns failure exactly when it reports at least one error; whatever cannot be represented (impossible dates, division by zero, numbers out of range, non-ASCII digits or currencies) is reported as an error.",
  ["inputs"], "every finite file tree of UTF-8 (or unreadable) texts",
  "The tests feed a few hundred well-chosen ledgers; they never feed arbitrary token soups, overflowing arithmetic, thousands of consecutive pragmas or multi-byte text at span ends.",
  ["src/lib.rs", "src/lexer.rs", "src/parsers.rs", "src/types.rs", "src/sources.rs", "src/trim.rs"],
  [("error tokens instead of lexer failure", "src/lexer.rs attempt_recovery"), ("checked evaluation of expressions", "src/parsers.rs expr_value, src/types.rs Expr::evaluate"), ("iterative pragma processing", "src/lib.rs PragmaProcessor"), ("spans clipped and trimmed at character boundaries", "src/sources.rs trimmed_span, src/trim.rs")],
  [PARSE, "process exit status", "BeancountSources::write_errors_or_warnings"])
p("C02", "Directives come back in stable date order, opens then balances first",
  "On success the directives are ordered by date; among directives of the same date all opens come first, then all balances, then all others. Within each of these groups directives keep the order in which they occur in the include-expanded ledger.",
  ["inputs"], "every ledger, any number of files, dates and directive kinds in any order",
  "The tests check a handful of fixed sequences; stability over ties, kinds and include boundaries is quantified over all permutations.",
  ["src/lib.rs", "src/sort.rs"], [("stable bucket sort on (date, rank)", "src/lib.rs parse, src/sort.rs Sort::new")], [PARSE + ": directives"])
p("C03", "Every directive of every included file appears exactly once",
  "On success the returned directives are exactly those written in the root file and in the files reachable from it by includes, each exactly once, however many times and on however many paths a file is included. An include is expanded in place: an included file's directives and pragmas take effect at the position of the (first) include, depth first.",
  ["inputs"], "every finite include graph (trees, diamonds, repeated includes, globs) over any contents",
  "Tests use two or three fixed include layouts; loss or duplication shows only for particular graph shapes and positions.",
  ["src/lib.rs", "src/sources.rs"], [("include stack and remaining-files map", "src/lib.rs PragmaProcessor::next"), ("load work-list with canonical-path set", "src/sources.rs read_with_includes")], [PARSE + ": directives, plugins"],
  [("stacked", "suspended including files", "src/lib.rs PragmaProcessor"), ("remaining", "parsed files not yet spliced in", "src/lib.rs PragmaProcessor")])
p("C04", "pushtag/poptag tag exactly the directives in between, across includes",
  "A directive carries a tag exactly when the tag is written on it or when, at its position in the include-expanded ledger, there have been more pushtags than poptags of that tag; a directive's own tag is not duplicated. A poptag without an outstanding pushtag and a pushtag left open at the end of the ledger are each reported as an error at that pragma.",
  ["inputs", "histories"], "every interleaving of pushtag, poptag, include and directives over any set of tags",
  "Push/pop bracketing with repeats, interleavings and includes is a history property; tests contain a few short histories.",
  ["src/lib.rs", "src/parsers.rs"], [("per-tag push stack", "src/lib.rs PragmaProcessor (Pushtag/Poptag)"), ("augment_tags", "src/parsers.rs Metadata::augment_tags")], [PARSE + ": directive metadata tags", PARSE + ": errors"],
  [("tags", "outstanding pushed tags", "src/lib.rs PragmaProcessor")])
p("C05", "pushmeta/popmeta give the innermost pushed value, own metadata wins",
  "A directive carries a metadata key exactly when the key is written on it or a pushmeta of that key is outstanding at its position in the include-expanded ledger; its value is the one written on the directive if any, otherwise that of the most recent outstanding pushmeta. A popmeta without an outstanding pushmeta and a key left pushed at the end are reported as errors at those pragmas.",
  ["inputs", "histories"], "every interleaving of pushmeta, popmeta, include and directives over any keys and values",
  "Nested pushes of the same key, pops out of order and the precedence of own metadata are history properties that fixed examples cannot cover.",
  ["src/lib.rs", "src/parsers.rs"], [("per-key value stack", "src/lib.rs PragmaProcessor (Pushmeta/Popmeta)"), ("augment_key_values", "src/parsers.rs Metadata::augment_key_values")], [PARSE + ": directive metadata key/values", PARSE + ": errors"],
  [("meta_key_values", "outstanding pushed metadata", "src/lib.rs PragmaProcessor")])
p("C06", "Includes resolve relative to the including file and globs match exactly",
  "An include path is resolved against the directory of the file containing the include (absolute paths stand as they are), for the root and at any depth; a pattern with wildcards includes exactly the existing files it matches, where a wildcard neither crosses a directory separator nor matches a leading dot. A path or pattern matching nothing, a malformed pattern, and a file which cannot be read as UTF-8 text are each reported as an error at that include's path, and the other includes are still processed.",
  ["inputs", "configurations"], "every directory layout, include path, glob and root path form (absolute, relative, inline)",
  "The tests include at most one level from the test directory; nested relative paths, globs and unreadable files are a configuration space.",
  ["src/sources.rs", "src/lib.rs"], [("resolve_included_path", "src/sources.rs"), ("glob options", "src/sources.rs read_with_includes"), ("include error reporting", "src/lib.rs PragmaProcessor (Include)")], [PARSE, "BeancountSources::resolve_span file names"])
p("C07", "Repeated includes: harmless in the same context, an error in another",
  "Including a file again is silently ignored when the pushed tags and metadata in force equal those in force at its first include, and is reported as an error at the repeated include otherwise; this does not depend on how the path is spelled. Including the root file again is reported as an error, and cyclic includes never loop.",
  ["inputs", "histories"], "every include graph with repetitions and cycles and every push/pop history around the includes",
  "Needs at least two includes of one file combined with a push/pop history and path spellings; tests have two such cases.",
  ["src/lib.rs", "src/sources.rs"], [("include context recorded per canonical path", "src/lib.rs PragmaProcessor (Include)"), ("canonical-path set while loading", "src/sources.rs")], [PARSE + ": errors", PARSE + ": directives"],
  [("include_by_canonical_path", "context of first include per file", "src/lib.rs")])
p("C08", "Options are returned as written; unknown, bad or duplicate ones are errors",
  "On success every option accessor returns the value written in the ledger (in whichever file), or nothing if the option was not given; options that may be given several times accumulate all their distinct values, and the documents option is resolved against the directory of its file. An unknown option name is an error at the name, an unacceptable value an error at the value, a repeated single-valued option an error at the repeated name and a repeated value of a multi-valued option an error at the repeated value.",
  ["inputs", "configurations"], "every sequence of option pragmas over all supported options and values, spread over any files",
  "There are about twenty options with value grammars of their own; tests check a few values of some of them.",
  ["src/options.rs", "src/parsers.rs"], [("BeancountOption::parse", "src/options.rs"), ("Options::assimilate", "src/options.rs")], [PARSE + ": options", PARSE + ": errors"])
p("C09", "Accounts are classified by the account type names in force",
  "Every account in the result has the account type whose configured name (default or set by the most recent name option read before it) is its first component, and an account whose first component is no current type name is rejected at that place. The root file is read before included files, which are read in the order in which they were discovered, so a renaming in the root applies to all included files; a name already in use by another type is rejected at the option value.",
  ["inputs", "histories"], "every history of renaming options and account uses over one or several files",
  "Renaming chains (swaps, reuse of freed names, renames in included files) are histories; the tests rename once.",
  ["src/parsers.rs", "src/options.rs", "src/types.rs", "src/lib.rs"], [("AccountTypeNames::update/get", "src/types.rs"), ("parser state threaded through all files", "src/lib.rs parse_declarations")], [PARSE + ": account_type of every account", "Options::account_type_name"],
  [("account_type_names", "current name/type bijection", "src/options.rs ParserOptions")])
p("C10", "Number expressions have their exact arithmetic value and scale",
  "An arithmetic expression of numbers, parentheses, unary signs and + - * / is grouped with the usual precedence and left associativity, and its value is the exact rational result rounded half away from zero to the largest number of decimal places of any number in it (intermediate quotients that do not terminate being carried to 28 significant digits). An expression that cannot be evaluated, by division by zero or overflow, is an error. A plain number keeps exactly the digits and decimal places it was written with.",
  ["inputs"], "every expression over any decimal numbers, in every position that accepts one",
  "Tests evaluate about a dozen expressions; associativity, precedence and rounding bugs show only for particular operator sequences and scales.",
  ["src/parsers.rs", "src/types.rs"], [("precedence-climbing folds", "src/parsers.rs expr"), ("evaluate and rescale", "src/types.rs Expr::evaluate, ExprValue::from")], [PARSE + ": amounts, prices, costs, metadata and custom values"])
p("C11", "Postings keep flag, account, amount, cost and price as written",
  "A transaction has one posting per posting line, in the order written, each with precisely the optional flag, account, number, currency, cost and price annotation written on that line. A cost keeps its per-unit number, total number, currency, date, label and merge marker in whatever order they are written, a field given twice is an error; a price annotation keeps whether it is per-unit or total and its number and currency, where each may be absent.",
  ["inputs"], "every combination and order of the optional parts of a posting, its cost and its price",
  "The combinations of optional parts number in the thousands; tests contain some dozens.",
  ["src/parsers.rs", "src/types.rs"], [("posting, cost_spec, cost_comp, compound_amount, price_annotation", "src/parsers.rs"), ("CostSpecBuilder", "src/types.rs")], [PARSE + ": postings"])
p("C12", "Each kind of directive keeps every field in its place",
  "Each directive written as date, keyword and its arguments comes back as that kind of directive with each argument in its own field and the date as written, for all twelve kinds, including optional currencies and booking method of open, tolerance of balance, any sequence of values of custom, and flag, payee and narration of transactions (a single string is the narration, empty strings count as absent, txn means the * flag). A line which does not fit the syntax of its kind is an error, never a different or partial directive.",
  ["inputs"], "every directive of every kind with every combination of optional arguments, and every token sequence that is not one",
  "The argument combinations and near-miss lines are unbounded; tests have a few per kind.",
  ["src/parsers.rs", "src/types.rs"], [("one parser per directive kind", "src/parsers.rs")], [PARSE + ": directives", PARSE + ": errors"])
p("C13", "Metadata, tags and links attach to their own directive or posting",
  "Indented key/value, tag and link lines following a directive's first line belong to that directive, those following a posting to that posting, and tags and links on the first line belong to the directive; values keep their type (string, currency, account, tag, link, date, boolean, null, number or amount, absent counting as null) and the lookup by key finds exactly the written keys. A key, tag or link given twice on one directive or posting is an error at one of the places.",
  ["inputs"], "every sequence of header tags/links, metadata lines and postings with any values",
  "Attachment depends on the interleaving of lines; the tests have few interleavings and not all value types in all places.",
  ["src/parsers.rs", "src/types.rs", "src/lexer.rs"], [("metadata, metadatum_line, tags_links, merge_tags, merge_links", "src/parsers.rs"), ("keyword followed by colon is a key", "src/lexer.rs KeywordThenColonToKey"), ("Metadata accessors", "src/types.rs")], [PARSE + ": metadata of directives and postings"])
p("C14", "Layout does not change meaning",
  "Blank and whitespace-only lines, comments after content or on lines of their own at any indentation, CRLF instead of LF line ends, the width and kind of indentation and of the space between words, a missing final newline, lines beginning with one of * ! & # ? % : and indented lines beginning with a colon never change which directives, options, plugins and errors result. This holds at the start of a file, in the middle of a directive and at the end of a file alike.",
  ["inputs"], "every ledger and every way of laying it out",
  "Equivalence of all layouts of all ledgers; each test fixes one layout.",
  ["src/lexer.rs"], [("end-of-line tokens absorb ignored lines", "src/lexer.rs Token::Eol/EolThenIndent"), ("EolIndentHandler", "src/lexer.rs")], [PARSE + " with locations projected away"])
p("C15", "Every element's span covers exactly its own text in the right file",
  "The location of every returned element (directive, date, flag, account, number, amount, currency, string, tag, link, key, value, posting, cost, price, option value, plugin) names the file it was written in and covers exactly its text there, so that the resolved content is that text and the line numbers are its lines. A directive's location starts at its date and ends after its last line, before the next one; elements contributed by a push pragma are located at that pragma (the most recent one outstanding).",
  ["inputs"], "every ledger, any Unicode, any number of files, any element",
  "Tests hardly look at locations; offsets go wrong only with multi-byte text, several files, or trailing trivia.",
  ["src/parsers.rs", "src/lexer.rs", "src/sources.rs", "src/lib.rs"], [("spans attached by map_with", "src/parsers.rs"), ("source id per file", "src/lib.rs lex_with_source")], [PARSE + ": spans", "BeancountSources::resolve_span"])
p("C16", "Resolving a span gives its trimmed text and line range for any span",
  "For every text and every start and end offset, resolving the span returns the file name (none for inline text), the covered text without trailing whitespace (unless it is nothing but whitespace), and the 1-based numbers of the lines on which that text starts and ends. Offsets that are out of range, reversed or inside a character, or an unknown source, yield empty text and never a failure; the source text of an error agrees with its resolved span.",
  ["inputs"], "every text over characters of every UTF-8 width and every pair of offsets, valid or not",
  "Quantified over all texts and all offset pairs; the only test trims five fixed strings.",
  ["src/sources.rs", "src/trim.rs"], [("trimmed_span, byte_to_rune, resolve_span", "src/sources.rs"), ("trim_trailing_whitespace", "src/trim.rs")], ["BeancountSources::resolve_span", "BeancountSources::error_source_text"])
p("C17", "Synthetic spans resolve to exactly the fragment they were created from",
  "A synthetic span always resolves to the very fragment it was created with (without trailing whitespace), under the source name given, at the line at which it lies in that source's accumulated content, regardless of how many fragments are added before or after it under the same or other names. Spans of the real sources resolve exactly as they do without synthetic sources, and reports on synthetic spans name their source.",
  ["inputs", "histories"], "every sequence of span creations over any names and fragments, interleaved with resolutions",
  "A history property over an accumulating store; tests create one or two ASCII fragments.",
  ["src/sources.rs"], [("create_synthetic_span", "src/sources.rs SyntheticSources"), ("get_adjusted_source", "src/sources.rs SyntheticSources")], ["SyntheticSources::create_synthetic_span/resolve_span/write_errors_or_warnings"],
  [("content", "accumulated text per synthetic source", "src/sources.rs SyntheticSources")])
p("C18", "A malformed entry is reported in place and does not disturb its neighbours",
  "Every malformed entry (an unindented line with its indented lines) that follows a well-formed one or the start of the file gives at least one error located in that entry, and errors are located only in malformed entries or at the offending element of a well-formed one; this holds in every file of the ledger. In particular one malformed entry never hides the errors of later entries that are separated from it by a well-formed entry without errors of its own, and never causes errors in well-formed entries.",
  ["inputs"], "every mixture of well-formed and malformed entries in any files",
  "Recovery depends on what surrounds the malformed text; tests have one malformed entry at a time.",
  ["src/parsers.rs", "src/lib.rs", "src/lexer.rs"], [("skip-then-retry recovery per declaration", "src/parsers.rs declaration"), ("errors of all phases are concatenated", "src/lib.rs parse")], [PARSE + ": errors' spans"])
p("C19", "Parsing is deterministic and repeatable",
  "Parsing the same sources again, in the same process, in another thread or in another process, gives the same result: the same directives in the same order with the same contents, types and locations, the same options, the same plugins in the same order, and the same errors and warnings in the same order with the same texts and locations. In particular nothing depends on the iteration order of hash tables, nor on what has become of the files since they were read.",
  ["inputs", "schedules"], "every ledger and every hash seed, thread and process",
  "Hash seeds differ per process and thread; a test run samples one of them and no test compares two runs.",
  ["src/lib.rs", "src/sources.rs"], [("files parsed in discovery order", "src/lib.rs parse_declarations"), ("tokens indexed by source id", "src/lib.rs BeancountParser::new")], [PARSE])
p("C20", "Identifier types accept exactly their documented languages",
  "Constructing a currency, tag, link, metadata key, account type name, account name, subaccount or flag letter from text succeeds exactly for the texts of the documented form and preserves the text, and fails without panicking for all other texts (empty, wrong first, middle or last character, non-ASCII). A currency consists of A-Z, digits and ' . _ - after a first A-Z or /, has at least one letter and ends in A-Z or a digit; tags and links consist of letters, digits and - _ / . ; a key is a-z followed by letters, digits, - and _; a type name is A-Z followed by letters, digits and -; an account name starts with A-Z, a digit or a non-ASCII letter and goes on with letters, digits and -, and a subaccount is account names joined by colons; a flag letter is one of A-Z.",
  ["inputs"], "every string over all character classes that the forms distinguish",
  "Languages are infinite sets; tests sample a few members and no boundary systematically.",
  ["src/types.rs", "src/lexer.rs"], [("TryFrom implementations", "src/types.rs"), ("token patterns", "src/lexer.rs")], ["TryFrom<&str>/TryFrom<char> of the identifier types", PARSE])
p("C21", "The printed form of a directive parses back to the same directive",
  "Printing any parsed directive yields text which is itself a valid ledger entry and parses to an equal directive: same date, kind, fields, flags, numbers with their scale, currencies, costs, per-unit or total prices, tolerances, strings with any characters, tags, links and metadata. The printed form of a plugin likewise parses back to the same plugin.",
  ["inputs"], "every directive that any ledger can produce",
  "Quantified over all directives; tests never re-parse printed output.",
  ["src/types.rs", "src/format.rs"], [("Display implementations", "src/types.rs")], ["Display of Directive and Plugin", PARSE])
p("C22", "Strings are decoded faithfully and over-long ones give one warning each",
  "A string literal's value is the text between the quotes with exactly the backslash escapes replaced, including embedded newlines, quotes, comment characters and any Unicode; an invalid escape is an error. A string of more lines than the limit in force (64, or the most recent long_string_maxlines option read before it) gives exactly one warning located at that string, other strings give none, and warnings never make parsing fail.",
  ["inputs", "histories"], "every string content in every position that takes a string, and every history of the limit option",
  "Contents and limit histories are unbounded; tests cover a few escapes and one warning.",
  ["src/lexer.rs", "src/parsers.rs"], [("unescape_string_literal", "src/lexer.rs"), ("string", "src/parsers.rs")], [PARSE + ": strings, warnings"])
p("C23", "Dates, numbers and booleans are read exactly or rejected",
  "A date written with four, two and two digits separated by - or / is accepted exactly when it exists in the Gregorian calendar and is returned unchanged; a number with optional grouping commas and decimals is returned with exactly its digits and decimal places; TRUE, FALSE and NULL are recognised exactly. Anything else in their place is an error, never a different value.",
  ["inputs"], "every digit string, date triple and separator; every position that takes a scalar",
  "All calendar days and digit groupings; tests sample a few.",
  ["src/lexer.rs"], [("parse_date, parse_number", "src/lexer.rs")], [PARSE])
p("C24", "Reports show message, reason and the true source position",
  "Written reports of parser errors and warnings and of those made by applications on parsed elements show the message, naming the kind of element, and the reason, the name of the file the element is in, and the line and column at which it starts, followed by the annotation if there is one; related and context elements keep their own locations, in the order added. An error or warning made on an element carries that element's location and a source text equal to the element's text.",
  ["inputs"], "every element of every ledger, any Unicode before it, any number of related elements and contexts",
  "Tests never inspect written reports except for fixed ASCII snippets.",
  ["src/sources.rs", "src/types.rs"], [("write_report", "src/sources.rs"), ("ErrorOrWarning builders", "src/types.rs")], ["BeancountSources::write_errors_or_warnings", "Report trait", "error_source_text"])
p("C25", "Plugins are returned in include-expanded order with their configuration",
  "On success the plugins are exactly the plugin pragmas of the ledger, in the order in which they occur in the include-expanded ledger, each with its module name and its configuration string if and only if one was written. Repeating a plugin keeps both occurrences.",
  ["inputs"], "every placement of plugin pragmas in any include tree",
  "Order across includes needs multi-file histories; the tests have one plugin in one file.",
  ["src/lib.rs", "src/parsers.rs"], [("plugins collected during pragma processing", "src/lib.rs PragmaProcessor")], [PARSE + ": plugins"])

p("C26", "Errors also point at the earlier element they conflict with",
  "The error for a repeated single-valued option is also related to the name of that option's first occurrence, for a repeated value to the first occurrence of that value, and the error for including a file again in another context to the include by which the file came in first, in whichever files these are. The warning for an over-long string states its number of lines and is related to the value of the long_string_maxlines option in force, and to nothing if there is none. The contexts of a syntax error begin in the file of the error and no later than it, the innermost first.",
  ["inputs", "histories"], "every ledger with conflicting options, includes or strings over any files, and every malformed ledger",
  "The related places are those of the first of several occurrences across files, a history property; no test looks at them.",
  ["src/options.rs", "src/lib.rs", "src/parsers.rs", "src/types.rs"], [("first source kept with each option value", "src/options.rs Options::assimilate"), ("include context with span", "src/lib.rs IncludeContext"), ("warning related to the option value", "src/parsers.rs string")], ["Report::related, Report::contexts, Report::reason of errors and warnings"])
p("C27", "Returned elements are equal exactly when they say the same",
  "Two returned directives, postings or plugins compare equal exactly when they have the same kind and the same contents, numbers by value and as written in terms of operators, and tags, links, metadata and currencies of an account in any order, irrespective of the places, files and layouts in which they were written; clones equal their originals. Tags, links and keys of equal text are one element of a hash set, wherever they were written.",
  ["inputs"], "every pair of entries in any ledger",
  "Quantified over pairs of directives that are equal or differ in one detail; tests compare only whole expected values.",
  ["src/types.rs"], [("Spanned compares and hashes its item only", "src/types.rs Spanned"), ("derived equality of the element types", "src/types.rs")], ["PartialEq and Hash of the returned elements"])

with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
