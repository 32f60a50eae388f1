#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})

# ---------------------------------------------------------------- build: parser/printer
p("C01", "Formatting without rewrites preserves the program",
  "For every Starlark file the parser accepts, of every file type, the layout-only formatter prints text that parses again to the same program: same statements, arguments, operators, names, numbers and string values in the same order, differing only in whitespace, comment placement, redundant parentheses and the quote style of strings.",
  ["inputs", "programs"], "all source files accepted by the parser, for the BUILD, WORKSPACE, MODULE.bazel, .bzl and default file types",
  "The golden files in build/testdata are about a hundred hand-written inputs; layout, nesting, operators and comments interact combinatorially and any unseen combination may be printed as a different program.",
  ["build/print.go", "build/parse.y", "build/lex.go", "build/syntax.go"],
  [("printer", "build/print.go"), ("grammar", "build/parse.y"), ("lexer and comment assignment", "build/lex.go")],
  ["build.FormatWithoutRewriting", "build.Parse*"])

p("C02", "Formatting is idempotent",
  "For every accepted file of every type, formatting the formatter's own output changes nothing: both the layout-only formatter and the full formatter with its rewrites return their own output byte for byte when run on it again.",
  ["inputs", "programs"], "all accepted source files and all file types, with and without rewrites",
  "Tests compare one output per input and re-format only the golden outputs; stability has to hold for every layout, comment placement and combination of rewrites.",
  ["build/print.go", "build/rewrite.go", "build/lex.go"],
  [("layout decisions from recorded positions", "build/print.go"), ("rewrite order", "build/rewrite.go"), ("comment assignment", "build/lex.go")],
  ["build.Format", "build.FormatWithoutRewriting"])

p("C03", "No comment is lost, duplicated or altered by formatting",
  "Every comment in an accepted file appears exactly once in the layout-only formatter's output with its text intact apart from surrounding whitespace. With rewrites enabled the same holds, except that the end-of-line comment of a list element or loaded symbol that is removed as an exact duplicate may disappear together with it.",
  ["inputs", "programs"], "all placements of whole-line and end-of-line comments in all accepted programs",
  "Tests place comments in a few dozen hand-picked spots; a comment may sit between any two tokens of any construct.",
  ["build/lex.go", "build/print.go", "build/rewrite.go"],
  [("assigning comments to syntax", "build/lex.go"), ("printing of Before/Suffix/After comments", "build/print.go"), ("comment merging in rewrites", "build/rewrite.go")],
  ["build.Format", "build.FormatWithoutRewriting"])

p("C04", "Parsing and formatting are total: no crash, no hang, located errors",
  "For any byte sequence and any file type the parser returns either a file or an error and never panics, loops or changes bytes it was not given to write; a parse error names the given file and a line and column that lie inside the input. Every file it accepts can be formatted, walked and re-parsed without a panic.",
  ["inputs"], "all byte strings (valid, truncated, mutated, arbitrary bytes and encodings)",
  "Tests feed a handful of malformed snippets; robustness is a statement about every byte string.",
  ["build/lex.go", "build/parse.y", "build/print.go", "build/quote.go"],
  [("lexer error recovery by panic/recover", "build/lex.go"), ("yacc tables", "build/parse.y.go"), ("unquote", "build/quote.go")],
  ["build.Parse", "build.ParseBuild", "build.ParseBzl", "build.ParseDefault", "build.ParseModule", "build.ParseWorkspace"])

p("C05", "String literals keep their value",
  "The value the parser assigns to a string literal is the value the Starlark language gives it, and printing a string (parsed or constructed, any content, single- or triple-quoted) yields a literal with exactly that value. Escapes that are not valid are kept as the characters written.",
  ["inputs"], "all string contents, all literal forms (quote characters, triple quotes, raw strings, escapes, line continuations, non-ASCII)",
  "quote_test has about fifty literals; contents, quote styles and escapes combine without bound.",
  ["build/quote.go", "build/print.go", "build/lex.go"],
  [("Unquote/quote", "build/quote.go"), ("token reuse rule in the printer", "build/print.go")],
  ["build.Unquote", "build.FormatString", "StringExpr.Value"])

p("C06", "Any constructed expression tree prints to text with that meaning",
  "Printing any expression tree assembled by a tool (without explicit parenthesis nodes) produces text that parses back to the same tree: the printer adds parentheses wherever operator precedence or associativity would otherwise regroup the operands.",
  ["programs"], "all trees of expressions: unary, binary, conditional, lambda, call, index, slice, attribute, tuple, list, dict, set, comprehension, in every operand position",
  "Tests only print trees that came from text, where the source parentheses are already nodes of the tree.",
  ["build/print.go", "build/parse.y"],
  [("precedence table and addParen", "build/print.go"), ("grammar precedences", "build/parse.y")],
  ["build.FormatString"])

# ---------------------------------------------------------------- build: rewrites
p("C07", "Sorting a string list only reorders it and drops exact duplicates",
  "When the formatter sorts a list of strings, the result holds exactly the distinct strings of each run (a run ends at a non-string element or at an element preceded by a comment line), in the documented order: plain names, then ':' labels, then '//' labels, then '@' labels, each compared by components. Only attributes listed as sortable, or lists marked 'keep sorted', are reordered; a list marked 'do not sort' and lists with comment lines keep their order. In MODULE.bazel the repository names of a use_repo call are sorted the same way, unless a 'do not sort' comment is on the call, its first argument or its first repository name; the other arguments keep their places.",
  ["inputs", "configurations"], "all lists, concatenations, selects, comments and markers, in every attribute and file type",
  "Golden files exercise a few lists per attribute; order and duplicate handling depend on the whole content of the list.",
  ["build/rewrite.go", "tables/tables.go"],
  [("sortStringLists/SortStringList", "build/rewrite.go"), ("sortable tables", "tables/tables.go")],
  ["build.Format", "build.SortStringList"])

p("C08", "Label shortening never changes which target a label names",
  "For BUILD-like files, rewriting a label inside a label attribute gives a label that resolves, relative to the file's package, to the same repository, package and target as the original; adjacent label pieces joined with '+' denote their concatenation; strings outside label attributes, in denied attributes or under a leave-alone marker are not changed.",
  ["inputs", "configurations"], "all label strings and label-like strings, all attributes, with default label options",
  "A few labels appear in golden files; the label grammar (repositories, packages with dots, targets with slashes) is unbounded.",
  ["build/rewrite.go", "labels/labels.go", "tables/tables.go"],
  [("fixLabels", "build/rewrite.go"), ("label attribute tables", "tables/tables.go")],
  ["build.Format"])

p("C09", "Rewriting load statements preserves what is loaded",
  "After formatting, the file binds exactly the same local names to the same symbols of the same files as before; outside WORKSPACE files all loads precede the first other statement; each module is loaded once and modules and symbols appear in the documented order. The opt-out comments for load placement, merging and ordering are honoured, and every other statement keeps its relative order.",
  ["inputs", "programs"], "all sequences of load and other statements with aliases, duplicates, comments and opt-out markers, for every file type",
  "Tests use at most a handful of loads each; merging, sorting, de-duplication and moving interact.",
  ["build/rewrite.go"],
  [("moveLoadOnTop", "build/rewrite.go"), ("compressSameOriginLoads", "build/rewrite.go"), ("sortLoadStatements/SortLoadArgs", "build/rewrite.go")],
  ["build.Format", "build.SortLoadArgs"])

p("C10", "Reordering call arguments keeps every argument and its value",
  "The formatter's argument reordering is a permutation of each call's arguments: every argument keeps its value and kind, positional arguments keep their order, and keyword arguments that end a call in BUILD-like files are ordered by the documented priority and then by name. Calls under a leave-alone marker keep their keyword order, and .bzl and plain Starlark files keep keyword order as written.",
  ["inputs", "programs"], "all calls: any mix of positional, keyword, *args and **kwargs arguments, nested calls, any file type",
  "Tests reorder a few fixed calls; correctness is over all argument sets and priorities.",
  ["build/rewrite.go", "tables/tables.go"],
  [("sortCallArgs", "build/rewrite.go"), ("reorderArguments", "build/rewrite.go"), ("NamePriority", "tables/tables.go")],
  ["build.Format"])

p("C11", "Number and docstring rewrites keep values",
  "Rewriting a numeric literal (octal prefix, leading zero, exponent form) yields a literal of the same kind denoting the same number. Re-indenting a docstring changes only leading indentation and trailing spaces of its lines, never its words or its number of lines.",
  ["inputs"], "all integer and float spellings; all docstrings, indents and nesting depths",
  "Only a few literals and docstrings are in the golden files.",
  ["build/rewrite.go"],
  [("editOctals/editFloats", "build/rewrite.go"), ("formatDocstrings", "build/rewrite.go")],
  ["build.Format"])

p("C12", "Rewrites stay within their configured scope",
  "A full format of a file changes nothing but what its enabled rewrites document: with all rewrites disabled, or an empty rewrite set, the result equals layout-only formatting; each rewrite disabled by name has no effect; BUILD-only rewrites never touch .bzl or default files. The program after a full format equals the program before, up to the documented rewrites.",
  ["inputs", "configurations"], "all programs x all subsets of rewrites x all file types",
  "Tests run the default rewrite set on fixed files; the subset lattice and interactions are not explored.",
  ["build/rewrite.go", "build/print.go"],
  [("rewrites table with scopes", "build/rewrite.go"), ("DisableRewrites / Rewriter.RewriteSet", "build/rewrite.go")],
  ["build.Format", "build.FormatWithRewriter", "build.DisableRewrites"])

p("C13", "Label parsing, formatting, comparing and shortening obey label laws",
  "Formatting a parsed label gives a label that parses to the same repository, package and target; shortening a label relative to a package gives one that resolves to the same target in that package, is never longer, and is stable; two labels compare equal relative to a package exactly when they resolve to the same target.",
  ["inputs"], "all label strings and packages",
  "Tests list about forty labels; the laws quantify over all labels and packages.",
  ["labels/labels.go"],
  [("Parse/ParseRelative/Format", "labels/labels.go"), ("Shorten/Equal", "labels/labels.go")],
  ["labels.Parse", "labels.ParseRelative", "labels.Label.Format", "labels.Shorten", "labels.Equal"])

p("C14", "Source positions locate exactly the text of each construct",
  "For every construct of a parsed file its reported span lies inside the file, line, column and byte offset agree with each other, the spans of its parts lie within its own, siblings do not overlap and appear in source order, and the text covered by an expression's span parses back to that same expression.",
  ["inputs", "programs"], "all accepted programs, including multi-byte characters, comments, continuation lines and nested blocks",
  "Span tests cover a few fixed expressions; warnings, editor tools and line-addressed commands use positions of every construct.",
  ["build/syntax.go", "build/lex.go", "build/parse.y"],
  [("Span methods", "build/syntax.go"), ("position tracking", "build/lex.go")],
  ["Expr.Span"])

p("C15", "Tree traversals visit every construct once and edits hit only their target",
  "Walking a file visits every expression and statement in it exactly once, with the stack of its true ancestors, parents before children; a callback that asks to stop skips exactly what lies below that construct; a rewriting traversal that returns its argument leaves the tree unchanged, and one that replaces a chosen construct changes that construct and nothing else.",
  ["programs"], "all syntax trees and all choices of node to replace or stop at",
  "walk_test checks one small file.",
  ["build/walk.go"],
  [("Walk/WalkPointers/WalkInterruptable/WalkOnce", "build/walk.go"), ("Edit/EditChildren", "build/walk.go")],
  ["build.Walk", "build.WalkPointers", "build.WalkInterruptable", "build.WalkOnce", "build.WalkStatements", "build.Edit"])

p("C16", "Rule accessors behave as a name-to-value map over a call",
  "Reading, setting and deleting attributes of a rule behave as on a map from names to values with stable order: a set is visible to the next read, deletes remove exactly one attribute, other attributes, positional arguments and comments are untouched; listing, finding and deleting rules of a file by kind, name or line select exactly the matching calls.",
  ["histories", "inputs"], "all sequences of accessor calls on all BUILD files",
  "rule_test covers fixed files and single calls.",
  ["build/rule.go"],
  [("Rule.Attr/SetAttr/DelAttr/...", "build/rule.go"), ("File.Rules/DelRules/RuleAt/RuleNamed", "build/rule.go")],
  ["build.Rule", "build.File"])

# ---------------------------------------------------------------- buildozer
p("C17", "List-editing commands act as set operations on the attribute",
  "After buildozer add, remove, move, replace, substitute and set on a list attribute, the attribute's value under every configuration (plain list plus the chosen branch of each select) equals the documented set operation applied to its previous value, up to order and duplicates, comparing labels relative to the package; an attribute whose last element is removed disappears.",
  ["inputs", "histories"], "all attribute shapes (lists, concatenations, selects, variables, globs), all sequences of list commands and values",
  "The shell tests run each command on a few attributes; select handling and command sequences are combinatorial.",
  ["edit/buildozer.go", "edit/edit.go"],
  [("cmdAdd/cmdRemove/cmdMove/cmdReplace/cmdSubstitute/cmdSet", "edit/buildozer.go"), ("AddValueToList/ListDelete/ResolveAttr", "edit/edit.go")],
  ["buildozer command line", "edit.Buildozer"])

p("C18", "Buildozer changes only what the command targets",
  "A buildozer command leaves every rule and statement it does not target, every attribute it does not name, and all their comments exactly as plain formatting of the file would leave them; a command that finds nothing to do leaves the file byte for byte equal to its formatted form or untouched.",
  ["inputs", "histories"], "all BUILD files, all commands, all targets",
  "Shell tests compare whole files but tiny ones; collateral damage needs unrelated content of every shape next to the target.",
  ["edit/buildozer.go", "edit/edit.go", "edit/fix.go"],
  [("rewrite()", "edit/buildozer.go"), ("RemoveEmptyPackage", "edit/edit.go")],
  ["buildozer command line", "edit.Buildozer"])

p("C19", "Attribute and dictionary commands match a key-value model",
  "buildozer set, set_if_absent, rename, copy, copy_no_overwrite, remove_if_equal, remove, dict_add, dict_set, dict_remove, dict_replace_if_equal, dict_list_add and set_select change attributes as the documented map operations do: the named key gets the given value, existing values are kept or overwritten as documented, and every other key of the dictionary survives in order.",
  ["inputs", "histories"], "all rules, dictionaries (with any key kinds) and sequences of commands",
  "Shell tests run one command each on one dictionary.",
  ["edit/buildozer.go", "edit/edit.go"],
  [("cmdDict*", "edit/buildozer.go"), ("Dictionary*", "edit/edit.go")],
  ["buildozer command line", "edit.Buildozer"])

p("C20", "Load commands leave the requested symbols loaded and nothing else lost",
  "After new_load, each requested local name is loaded from the given file unless it was already; after replace_load, each requested local name is loaded exactly once, from the given file, and every other loaded name is still loaded from where it was; after substitute_load, exactly the matching module paths are substituted.",
  ["inputs", "histories"], "all sets of existing loads and requested symbols with aliases",
  "Tests use two or three loads; the order and adjacency of symbols matter.",
  ["edit/edit.go", "edit/buildozer.go"],
  [("InsertLoad/ReplaceLoad/AppendToLoad", "edit/edit.go"), ("cmdSubstituteLoad", "edit/buildozer.go")],
  ["buildozer command line", "edit.InsertLoad", "edit.ReplaceLoad"])

p("C21", "Creating, deleting and commenting rules match a model of the file",
  "buildozer new adds exactly one rule of the given kind and name at the requested place and refuses a name already taken; delete removes exactly the targeted rules; comment attaches exactly the given text to the addressed rule, attribute or value, print_comment reads it back, and remove_comment removes it and nothing else.",
  ["histories", "inputs"], "all files, names, positions and command sequences",
  "Each command has a few shell tests on tiny files.",
  ["edit/buildozer.go", "edit/edit.go"],
  [("cmdNew/cmdDelete/cmdComment/cmdRemoveComment/cmdPrintComment", "edit/buildozer.go")],
  ["buildozer command line", "edit.Buildozer"])

p("C22", "Target patterns select exactly the documented rules",
  "A buildozer target selects the rule with that name, else the exported file, the rules of a kind for %kind, the rule starting at a line for %line, all rules for '*' or 'all', the package declaration for __pkg__, and every BUILD file below a directory for '...'; the -types filter keeps exactly the listed kinds, and no other rule is printed or changed.",
  ["inputs", "configurations"], "all files, rule names, implicit names and patterns",
  "Shell tests try each pattern once.",
  ["edit/buildozer.go", "edit/edit.go", "build/rule.go"],
  [("expandTargets/filterRules", "edit/buildozer.go"), ("InterpretLabelForWorkspaceLocation", "edit/edit.go"), ("implicit names", "build/rule.go")],
  ["buildozer command line"])

p("C23", "Printing is accurate, read-only and the same in every output format",
  "buildozer print reports for each selected rule exactly the values present in the file (kind, name, label, lines, attributes, lists, missing markers), changes no file and exits 0; text, JSON and protobuf outputs carry the same records in file order.",
  ["inputs"], "all rules, attribute values and field lists",
  "Tests print a few attributes of simple rules.",
  ["edit/buildozer.go"],
  [("cmdPrint", "edit/buildozer.go"), ("printRecord", "edit/buildozer.go")],
  ["buildozer command line"])

p("C24", "Buildozer failures never write files, and exit codes tell the outcome",
  "If any command on a file fails and -k is off, that file is left untouched; with -k the other commands still apply. With -stdout or stdin input no file is written. The exit code is 0 when a file changed or only printing was asked, 1 for usage errors, 2 when a command failed, and 3 when nothing changed, and a file is rewritten only if its content differs.",
  ["fault_sequences", "histories"], "all command sequences with failing members at any position, all files including malformed or missing ones",
  "The shell tests fail single commands; failure after partial success in memory, over several files, is not explored.",
  ["edit/buildozer.go", "buildozer/main.go", "file/file.go"],
  [("rewrite()", "edit/buildozer.go"), ("Buildozer() exit code", "edit/buildozer.go")],
  ["buildozer command line: exit status, files on disk"])

p("C25", "Multi-file buildozer runs equal one run per file",
  "Running commands on many files at once, with any number of workers, and giving the commands on the command line, in a commands file or on stdin, yields the same file contents, records and exit status class as running them file by file in order; commands for one file apply in the order given.",
  ["schedules", "histories"], "all partitions of commands over files, worker counts and command sources",
  "Tests use one or two files and the default worker count.",
  ["edit/buildozer.go"],
  [("worker pool in Buildozer()", "edit/buildozer.go"), ("appendCommandsFromReader", "edit/buildozer.go")],
  ["buildozer command line"])

p("C26", "use_repo commands edit exactly the requested repositories",
  "use_repo_add makes each requested repository imported from the addressed extension exactly once, use_repo_remove removes exactly the requested ones, both keep other repositories, other extensions, dev/non-dev usages and other statements as they were, and addressing by extension or by proxy variable agrees.",
  ["histories", "inputs"], "all MODULE.bazel files with several extensions, proxies, dev and isolated usages and sequences of commands",
  "A few fixed MODULE files are tested.",
  ["edit/bzlmod/bzlmod.go", "edit/buildozer.go"],
  [("Proxies/UseRepos/AddRepoUsages/RemoveRepoUsages", "edit/bzlmod/bzlmod.go"), ("cmdImplUseRepo", "edit/buildozer.go")],
  ["buildozer command line", "edit/bzlmod"])

p("C27", "buildozer fix keeps the meaning of a BUILD file",
  "Each documented fix changes the file only as its name says: unused loads are removed and used ones kept, label and unsorted fixes keep the same targets, the merge and move fixes keep every value, and applying all fixes to a clean file changes nothing; applying the fixes twice equals applying them once.",
  ["inputs"], "all BUILD files and fix subsets",
  "fix_test has one file per fix.",
  ["edit/fix.go"],
  [("AllRuleFixes / FileLevelFixes", "edit/fix.go")],
  ["edit.FixFile", "edit.FixRule", "buildozer command line"])

# ---------------------------------------------------------------- buildifier CLI
p("C28", "Buildifier's modes agree with each other",
  "For every set of files and every file type, check reports (exit 4 and file list or JSON) exactly the files that fix would change; fix writes exactly the bytes that formatting stdin prints; diff is empty exactly when nothing would change; print_if_changed prints exactly the new content of changed files; and fixing twice writes nothing the second time.",
  ["inputs", "configurations"], "all file contents, file types, modes and flag combinations",
  "The integration script checks a few files per mode.",
  ["buildifier/buildifier.go", "buildifier/utils/utils.go", "buildifier/utils/diagnostics.go"],
  [("processFile", "buildifier/buildifier.go"), ("diagnostics", "buildifier/utils/diagnostics.go")],
  ["buildifier command line: stdout, exit status, files"])

p("C29", "A file buildifier cannot process is never damaged and never hides others",
  "Buildifier never modifies a file it cannot read or parse, nor any file in check, diff, print or dry modes; one bad file among many does not change the result, output bytes or reporting of the others, whatever their order, and the exit status still signals the failure.",
  ["fault_sequences", "inputs"], "all sets and orders of good, needing-format, malformed, missing and unreadable files",
  "Integration tests use one malformed file.",
  ["buildifier/buildifier.go", "buildifier/utils/tempfile.go", "file/file.go"],
  [("processFiles", "buildifier/buildifier.go"), ("exit codes", "buildifier/buildifier.go")],
  ["buildifier command line"])

p("C30", "Buildifier configuration layers and warning lists resolve as documented",
  "Command-line flags override the configuration file, which overrides defaults; the warning list syntax (all, default, +name, -name, explicit lists) selects exactly the documented categories in order; invalid modes, types, formats and warnings are rejected before any file is touched; the default configuration round-trips through JSON.",
  ["configurations"], "all combinations of config file, environment, flags and warning-list strings",
  "config_test covers a few combinations.",
  ["buildifier/config/config.go", "config/config.go"],
  [("Config.LoadFile/FlagSet/Validate", "buildifier/config/config.go")],
  ["buildifier command line", "buildifier/config"])

p("C31", "File kind and workspace location are resolved from the path",
  "The file type chosen for a path (or from -type/-path) follows the documented name rules, and package, label and workspace root derived for any file agree with the nearest enclosing workspace marker; recursive mode visits exactly the files with recognised names below the directory.",
  ["inputs", "configurations"], "all file names and directory trees",
  "Tests list a few names and one tree.",
  ["build/lex.go", "wspace/workspace.go", "buildifier/utils/utils.go"],
  [("getFileType/ParseXxx", "build/lex.go"), ("FindWorkspaceRoot/SplitFilePath", "wspace/workspace.go"), ("ExpandDirectories", "buildifier/utils/utils.go")],
  ["build.Parse", "wspace.SplitFilePath", "buildifier command line"])

# ---------------------------------------------------------------- linter
p("C32", "Lint fixes yield valid files that are stable and keep meaning",
  "Applying any set of automatic lint fixes to an accepted file yields a file that still parses, on which the same fixes change nothing further, in which no reported finding with a fix remains unfixed without cause, and whose program differs only by the documented transformation of the categories involved.",
  ["inputs", "configurations"], "all accepted programs, all subsets of fixable warning categories, all file types",
  "Each warning has a few fixed before/after pairs; interactions between fixes and unusual shapes are untested.",
  ["warn/warn.go", "warn/warn_bazel.go", "warn/warn_bazel_api.go", "warn/warn_operation.go", "warn/warn_cosmetic.go"],
  [("FixWarnings/FixWarningsWithVersion", "warn/warn.go"), ("per-category replacements", "warn/*.go")],
  ["warn.FixWarnings", "buildifier --lint=fix"])

p("C33", "Reporting lint findings never changes the file",
  "Running the linter in warn mode leaves the parsed file, and hence the formatted output, exactly as it would be without linting, for every set of categories; suggested replacements are rolled back completely.",
  ["inputs", "configurations"], "all accepted programs and category subsets",
  "Tests compare findings, not the tree left behind after linting.",
  ["warn/warn.go"],
  [("runWarningsFunction and fix rollback", "warn/warn.go")],
  ["warn.FileWarnings", "buildifier --lint=warn --mode=fix"])

p("C34", "The linter is total, deterministic and reports real positions",
  "For every accepted file and any categories, linting returns without a panic, returns the same findings every time, sorted by position, each with a known category name and a start and end inside the file; findings of one category do not depend on which other categories run.",
  ["inputs", "configurations"], "all accepted programs x category subsets",
  "Warning tests check expected findings for fixed snippets one category at a time.",
  ["warn/warn.go", "warn/types.go"],
  [("FileWarnings", "warn/warn.go"), ("warning function maps", "warn/warn.go")],
  ["warn.FileWarnings"])

p("C35", "Suppression comments silence exactly the named finding",
  "A 'buildifier: disable=CATEGORY' (or 'buildozer:') comment attached to a statement or expression removes exactly the findings of that category located in what it is attached to, and no finding elsewhere or of another category; it also prevents the corresponding automatic fix there.",
  ["inputs", "configurations"], "all findings in all programs and all attachment points of the comment",
  "A few suppressions are tested for one category.",
  ["warn/warn.go"],
  [("DisabledWarning / hasDisablingComment", "warn/warn.go")],
  ["warn.FileWarnings", "warn.FixWarnings"])

p("C36", "Control-flow findings agree with the language's control flow",
  "The unreachable-statement, missing-return, uninitialized-variable and unused-variable findings agree with a path-based reading of the function: a statement no path can reach is reported, one that executes is not; a variable assigned on all paths is never reported as uninitialized; a used name is never reported unused.",
  ["programs"], "all function bodies built from if/for/return/fail/break/continue/pass/assignments and nested functions",
  "Fixed snippets only; the flow graph space is unbounded.",
  ["warn/warn_control_flow.go", "bzlenv/bzlenv.go"],
  [("unreachableStatementWarning, uninitializedVariableWarning, missingReturnValueWarning, unusedVariableWarning", "warn/warn_control_flow.go")],
  ["warn.FileWarnings"])

p("C37", "Unused-load detection never removes a symbol in use",
  "A loaded symbol is reported as unused, and removed by the fix, exactly when no expression, annotation or re-export in the file refers to it; removal keeps all other loaded symbols and comments.",
  ["programs"], "all programs with loads, aliases, shadowing and usage positions",
  "Few usage positions are tested.",
  ["warn/warn_bazel.go", "edit/edit.go", "edit/fix.go"],
  [("unusedLoadWarning", "warn/warn_bazel.go"), ("UsedSymbols/UsedTypes", "edit/edit.go")],
  ["warn.FileWarnings", "warn.FixWarnings"])

# ---------------------------------------------------------------- others
p("C38", "Custom tables merge or replace exactly as configured",
  "Loading a tables file in merge mode adds exactly its entries to the defaults and in replace mode uses exactly its entries; later formatting decisions (label attributes, sortable lists, name priorities, deny and allow lists) follow the resulting tables.",
  ["configurations"], "all table files and both modes",
  "One test file is loaded and its maps compared.",
  ["tables/tables.go", "tables/jsonparser.go"],
  [("OverrideTables/MergeTables", "tables/tables.go")],
  ["tables.ParseAndUpdateJSONDefinitions", "buildifier -tables/-add_tables"])

p("C39", "Conversion from the Starlark-Go tree preserves the program",
  "Converting the Starlark-Go syntax tree of any accepted program to a buildtools tree and printing it yields a program with the same Starlark-Go syntax tree (up to positions and redundant parentheses), which buildtools reads like the original, with all the comments that the tree has; the argument isn't changed.",
  ["programs"], "all programs accepted by Starlark-Go, with and without comments",
  "The package has no tests at all.",
  ["convertast/convert_ast.go"],
  [("ConvFile", "convertast/convert_ast.go")],
  ["convertast.ConvFile"])

p("C40", "unused_deps suggests removing exactly the unused direct dependencies",
  "For every target found, unused_deps prints commands that remove (or, with a runtime comment, move) a label in the unconditional lists of its deps exactly when a jar passed to the compiler as a direct dependency has that target's label and none of its jars was used explicitly; first adding what it exports. Labels resolve to the same target anywhere, missing or damaged information about a target or jar yields no suggestion and affects nothing else, and nothing is edited or left behind.",
  ["inputs", "fault_sequences"], "all dependency protos, parameter files, jar manifests and BUILD files, in the main and in external repositories, any of them missing or damaged",
  "Only the search for line breaks in a manifest is unit-tested.",
  ["unused_deps/unused_deps.go", "unused_deps/jar_manifest.go"],
  [("unusedDeps / directDepParams / printCommands", "unused_deps/unused_deps.go"), ("jarManifestValue", "unused_deps/jar_manifest.go")],
  ["unused_deps command line with a stand-in build tool"])

p("C41", "Formatting ignores horizontal whitespace and yields a canonical layout",
  "The formatted result depends only on a file's tokens, comments and line breaks: the same program with any other spaces or tabs between tokens, any other indentation width or alignment inside brackets formats to the same bytes. The result has no trailing whitespace, no tabs in its indentation, exactly one newline at its end, at most two blank lines in a row and statements indented by four spaces per level.",
  ["inputs"], "all valid files of every type and all horizontal whitespace between their tokens",
  "Golden files fix a few spacings each; none varies the whitespace of arbitrary code, comments and nested blocks.",
  ["build/lex.go", "build/print.go"],
  [("input.Lex", "build/lex.go"), ("printer.newline / margin / breakline", "build/print.go")],
  ["build.Format", "buildifier"])

p("C42", "Lint checks report exactly the constructs they document",
  "Each syntactic lint check reports a construct precisely when the file contains it as documented, for the kinds of files it is documented for, at the construct's position and once per construct, wherever it's nested; code that only looks similar (shadowed or loaded names, other receivers, other argument names, other types) isn't reported.",
  ["inputs"], "all programs of every file type combining the constructs of some 75 checks, near misses, nesting, scopes, shadowing and inferred types",
  "Unit tests show each check a few short snippets; they don't combine checks, nesting, scopes and inferred types.",
  ["warn/warn_bazel_api.go", "warn/warn_bazel.go", "warn/warn_operation.go", "warn/types.go", "warn/warn_docstring.go", "bzlenv/bzlenv.go"],
  [("FileWarningMap / RuleWarningMap", "warn/warn.go"), ("DetectTypes", "warn/types.go")],
  ["warn.FileWarnings", "buildifier -lint"])

p("C43", "Cross-file lint checks follow loads, aliases and calls exactly",
  "unnamed-macro reports exactly the public functions of a .bzl file that have no parameter called name (nor **kwargs) and from which a rule can be reached by calls, through local functions, aliases, native and symbols loaded under any name from readable files of the main repository; the call it gives as the reason is such a call. deprecated-function reports exactly the loaded symbols that are functions with a Deprecated section in their docstring. Unreadable files and other repositories contribute nothing, and neither sharing nor the order of linting changes the findings.",
  ["inputs"], "all acyclic load graphs of .bzl files with rules, aliases, functions and near misses",
  "Unit tests use a few two- and three-file chains; the analysis is lazy, cached and order dependent.",
  ["warn/warn_macro.go", "warn/warn_deprecated.go", "warn/multifile.go"],
  [("macroAnalyzer.IsMacro", "warn/warn_macro.go"), ("deprecatedFunctionWarning", "warn/warn_deprecated.go"), ("FileReader.GetFile", "warn/multifile.go")],
  ["warn.FileWarnings", "buildifier -lint=warn"])

p("C44", "Buildozer handles every valid file and never spills over its target",
  "For every valid BUILD or MODULE.bazel file, however unusual its shape (selects, globs, loads, package, licenses, exports_files, use_repo and use_extension calls with missing or odd arguments, rules without a plain string as name, star arguments, calls of calls, rules nested in other statements), every command with a legal number of arguments and every target, buildozer ends with exit code 0, 2 or 3 and without crashing; it leaves the file alone unless it succeeds, writes a valid file, keeps every statement the command isn't about, and repeating a command that sets, adds or removes something changes nothing more.",
  ["inputs"], "all valid files, commands, targets and options, in particular shapes that BUILD files rarely have",
  "Unit tests run each command on a well-formed rule; the accessors below assume shapes that a valid file need not have.",
  ["edit/buildozer.go", "edit/edit.go", "edit/fix.go", "edit/bzlmod/bzlmod.go", "build/rule.go"],
  [("rewrite / executeCommandsInFile", "edit/buildozer.go"), ("SelectListsIntersection / ResolveAttr", "edit/edit.go"), ("File.Rules", "build/rule.go")],
  ["edit.Buildozer", "buildozer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
