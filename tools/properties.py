"""Writes properties.jsonl."""
import json, os

SYN, FND, CLI = "crates/syntax/src/", "crates/foundry/src/", "crates/bulloak/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

STDOUT = "stdout, stderr and exit status of `bulloak scaffold` / `bulloak check`"
DISK = "the files on disk before and after a command"

prop("C01", "Every command ends cleanly, whatever it is given",
 "For any .tree text, any Solidity source next to it, any combination of flags and any state of the files involved, `bulloak scaffold` and `bulloak check` (with or without --fix) terminate with exit status 0 or 1 and never panic. When the exit status is 1, stderr says why.",
 ["inputs", "configurations", "histories"],
 "All texts (including empty, blank, comment-only, CRLF, multi-byte, malformed drawings), all Solidity sources bulloak can parse (interfaces, constructors, unnamed functions, missing contracts), all flags, missing/unreadable files and directories.",
 "The tests feed some thirty well-behaved files; panics hide behind expect()/unwrap()/unreachable!()/slice indices reached only by unusual texts and unusual Solidity.",
 [CLI+"check.rs", CLI+"scaffold.rs", SYN+"tokenizer.rs", SYN+"parser.rs", SYN+"splitter.rs", FND+"check/violation.rs", FND+"check/utils.rs", FND+"sol/fmt.rs", FND+"hir/combiner.rs"],
 [("errors are returned, not unwrapped", FND+"scaffold/mod.rs, "+FND+"hir/mod.rs"), ("violations instead of panics", FND+"check/context.rs")], [STDOUT])

prop("C02", "Nesting in the drawing decides which condition a branch belongs to",
 "Every branch of a tree belongs to the nearest branch above it that starts further to the left, however wide the indentation, whatever strokes draw it and whichever connectors are mixed, and a description line belongs to the action above it. The tests, their modifiers and their comments that come out are exactly those of that nesting: nothing is attached to another branch, lost or repeated.",
 ["inputs"],
 "All accepted drawings of any depth and width, including irregular indentation, siblings at different columns, dedents over several levels and descriptions at any depth.",
 "The tests use regular indentation of two or three levels; the parent of a branch depends on the whole history of open branches.",
 [SYN+"parser.rs", SYN+"tokenizer.rs", FND+"hir/translator.rs"],
 [("recursive descent on the column of the connector", SYN+"parser.rs"), ("modifier stack", FND+"scaffold/modifiers.rs, "+FND+"hir/translator.rs")],
 ["functions, modifiers and comments in the output of `bulloak scaffold`"])

prop("C03", "Exactly the well-formed trees are accepted; others get the right diagnosis",
 "A text is rejected, by scaffold and by check alike, exactly when it has no root, an unexpected word or keyword, a connector with nothing after it, a condition without title or children, an invalid character in a condition's title, a wrong last/non-last top-level connector, no rules, a name used by two conditions or top-level actions, or trees that cannot be combined. The error names the first such problem (or, for empty conditions and repeated names, all of them), and nothing is emitted for a rejected text.",
 ["inputs"],
 "All texts; the verdict and the diagnosis are compared for each text given.",
 "Each error has one or two hand-written inputs in the tests; over-acceptance and mis-diagnosis in other contexts (depth, position, second tree of a file, combination of errors) are not sampled.",
 [SYN+"parser.rs", SYN+"tokenizer.rs", SYN+"semantics.rs", FND+"hir/combiner.rs", FND+"check/violation.rs"],
 [("tokenizer/parser/semantic errors", SYN+"{tokenizer,parser,semantics}.rs"), ("format_frontend_error", FND+"check/violation.rs")], [STDOUT])

prop("C04", "Diagnostics quote the right line, column and text of the .tree file",
 "A diagnostic about a .tree file that carries a location gives the line and column, relative to the file the user wrote, of the offending token, quotes that very line, and underlines exactly the offending text. This holds for every tree of a multi-tree file, after blank lines and comments, with multi-byte characters and with CRLF line endings.",
 ["inputs"],
 "All rejected texts, all positions of the offending text (first/last line, any tree of the file), all widths of characters.",
 "Tests check a handful of spans on ASCII one-tree inputs, most of them inside unit tests of one stage, not through the file as the user sees it.",
 [SYN+"error.rs", SYN+"span.rs", SYN+"tokenizer.rs", SYN+"splitter.rs", FND+"hir/mod.rs"],
 [("positions kept by the tokenizer", SYN+"tokenizer.rs"), ("notated diagnostics", SYN+"error.rs")], ["stderr of `bulloak scaffold`"])

prop("C05", "Comments, spacing, strokes and line endings do not change the meaning",
 "Adding or removing comment lines, comments at the end of a line, trailing spaces and tabs, lines holding only strokes or spaces within a tree, blank lines between trees or around the file, horizontal strokes, or converting LF to CRLF, does not change the Solidity code that is generated. What follows a `//` that starts a word, up to the end of the line, is never part of a title.",
 ["inputs"],
 "All accepted texts and all sequences of such edits.",
 "Metamorphic: it relates the output for two different texts; no test compares two texts.",
 [SYN+"tokenizer.rs", SYN+"splitter.rs", SYN+"lib.rs"],
 [("comment mode of the tokenizer", SYN+"tokenizer.rs"), ("splitting on empty lines", SYN+"splitter.rs")], [STDOUT])

prop("C06", "One test per group of actions, in the order of the tree",
 "An accepted tree yields exactly one test function for every condition that has actions and one for every top-level action, and no other function. Tests and modifiers are emitted in the order in which their branches are drawn (a condition's modifier and own test come before those of its children), and in the order of the trees in a multi-tree file.",
 ["inputs"],
 "All accepted files: any mixture and order of actions and conditions under one parent.",
 "The fixtures cover a few shapes; losing, merging or reordering tests depends on the shape of the whole tree.",
 [FND+"hir/translator.rs", FND+"hir/combiner.rs", FND+"sol/translator.rs", FND+"scaffold/emitter.rs"],
 [("visit_condition", FND+"hir/translator.rs"), ("combine", FND+"hir/combiner.rs")], ["functions of the output of `bulloak scaffold`"])

prop("C07", "Names follow the documented rule",
 "The test of a condition is called `test_` plus the words of its title capitalised and joined, or `test_Revert<Keyword>_<Rest>` when its first action is \"It should revert\" (in any case, a final period or other punctuation aside); the test of a top-level action is `test_` plus its words without the leading \"it\"; a modifier is the camel-cased title. Hyphens become underscores and characters that cannot be in an identifier disappear; in multi-tree files the name of the function under test goes right after `test_`.",
 ["inputs"],
 "All titles over the whole alphabet: any words, case, punctuation, digits, underscores, hyphens and non-ASCII letters.",
 "The tests use plain lower-case English titles; collisions between sanitisation, capitalisation and splitting into words are not sampled.",
 [FND+"hir/translator.rs", FND+"scaffold/modifiers.rs", FND+"hir/combiner.rs", SYN+"utils.rs"],
 [("sanitize, to_pascal_case, upper_first_letter, lower_first_letter", SYN+"utils.rs"), ("function_name / modifier names", FND+"hir/translator.rs")], ["names in the output of `bulloak scaffold`"])

prop("C08", "Each modifier is defined once, before use, and applied from root to leaf",
 "A modifier is defined exactly once for every condition that has nested conditions (once per name across the trees of a file), before any test that uses it. The test of a condition applies the modifiers of all the conditions it is nested in, from the outermost to the innermost, followed by its own when it has one; no other modifier is applied, and top-level actions apply none.",
 ["inputs"],
 "All accepted files, any depth, conditions repeated across trees, branches after deep nesting.",
 "Modifier application depends on the path to the branch and on what was visited before; the fixtures have few dedents and at most three levels.",
 [FND+"hir/translator.rs", FND+"scaffold/modifiers.rs", FND+"hir/combiner.rs"],
 [("modifier_stack", FND+"hir/translator.rs"), ("collected modifiers", FND+"hir/combiner.rs")], ["modifiers in the output of `bulloak scaffold`"])

prop("C09", "Test bodies list the actions and descriptions, verbatim and in order",
 "The body of a generated test consists of comments only (plus `vm.skip(true);` when asked): for each action of its branch its full title, followed by its descriptions indented below it as in the drawing, in the order they are drawn, with words intact (only runs of white space become one space). Bodies of modifiers are `_;` and nothing else.",
 ["inputs"],
 "All accepted files, any characters in actions and descriptions (punctuation, slashes in a word, quotes, braces, multi-byte).",
 "Fixtures have one or two descriptions, in plain English; dropping, merging or re-indenting lines elsewhere is not sampled.",
 [FND+"hir/translator.rs", FND+"scaffold/emitter.rs", FND+"sol/translator.rs", FND+"sol/fmt.rs"],
 [("comments of an action", FND+"hir/translator.rs"), ("statement comments", FND+"sol/translator.rs, "+FND+"sol/fmt.rs")], ["function bodies in the output of `bulloak scaffold`"])

prop("C10", "The trees of a file become one contract holding all their tests",
 "A file with several trees, separated by empty lines, yields one contract named by the part of the roots before `::`, which holds the tests of every tree in order, each name prefixed with its tree's function, and each shared modifier once. Trees whose roots disagree on the contract, lack the separator or the contract name, or that yield two tests of one name, are rejected with an error that says which; no test is ever silently dropped or overwritten.",
 ["inputs"],
 "All numbers of trees, all orders, repeated roots, repeated conditions between trees, comment-only chunks, CRLF.",
 "Fixtures have two or three well-behaved trees.",
 [FND+"hir/combiner.rs", FND+"hir/mod.rs", SYN+"splitter.rs"],
 [("HirCombiner::combine", FND+"hir/combiner.rs"), ("split_trees", SYN+"splitter.rs")], [STDOUT])

prop("C11", "What scaffold prints is valid, self-contained Solidity",
 "Whenever scaffold succeeds, its output parses as Solidity and consists of the SPDX line, one pragma with the requested version, an import only with --vm-skip, and exactly one contract named as the root says. All of its tests are external, take and return nothing and have distinct names; every modifier they apply is defined in the contract (unless modifiers are skipped).",
 ["inputs", "configurations"],
 "All accepted texts, including titles with quotes, comment markers, braces, keywords, digits or non-ASCII letters, and all flags.",
 "Tests compare a few outputs to fixtures; validity for every title is not decided by examples.",
 [FND+"scaffold/emitter.rs", FND+"sol/translator.rs", FND+"sol/fmt.rs", FND+"scaffold/mod.rs", CLI+"scaffold.rs"],
 [("sol::Translator, sol::Formatter", FND+"sol/"), ("sanitize", SYN+"utils.rs")], ["stdout of `bulloak scaffold`"])

prop("C12", "Scaffold flags change what they document and nothing else",
 "-m removes the modifier definitions and nothing else; -S adds the forge-std import, the `Test` base and a leading `vm.skip(true);` in every test (never in modifiers) and nothing else; -s changes only the version in the pragma, which defaults to 0.8.0. The flags are independent of each other, of the command's output mode and of the other files given.",
 ["inputs", "configurations"],
 "All accepted files times all combinations of flags.",
 "The tests cover each flag alone on a fixture or two, never combinations.",
 [CLI+"cli.rs", CLI+"scaffold.rs", FND+"config.rs", FND+"sol/translator.rs", FND+"sol/fmt.rs"],
 [("Config from Cli", CLI+"cli.rs"), ("emit_vm_skip / skip_modifiers", FND+"sol/translator.rs")], ["stdout of `bulloak scaffold`"])

prop("C13", "Scaffold never overwrites a file unless forced, and writes what it prints",
 "With -w, each accepted x.tree results in x.t.sol next to it holding exactly what would have been printed; an existing x.t.sol stays byte for byte as it was unless -f is given, and the user is told it was skipped. Without -w no file is created or changed, a rejected tree never creates or changes a file, and no other file is ever touched.",
 ["inputs", "histories", "configurations"],
 "All sequences of commands over a set of files and all flags, with any prior state of the target files.",
 "No test runs scaffold on a directory with prior state, nor two commands in a row.",
 [CLI+"scaffold.rs"],
 [("write_file", CLI+"scaffold.rs")], [DISK], [("files", "path -> contents", "the working directory")])

prop("C14", "One bad file does not affect the others, and the exit status tells",
 "When several files are scaffolded, each one is handled as if it were alone: a file that is missing, unreadable, malformed or unwritable leaves the output and the files of the others unchanged. The command exits with 0 exactly when every file was handled, otherwise with 1 after naming each file that failed, why, and how many there are.",
 ["inputs", "histories", "fault_sequences"],
 "All lists of files with any mix of good and bad ones, in any order, printed or written.",
 "One test passes several files, all of them good or one bad kind.",
 [CLI+"scaffold.rs"],
 [("run / report_errors", CLI+"scaffold.rs")], [STDOUT, DISK])

prop("C15", "Check reports every missing test and modifier, and only those",
 "`bulloak check` reports a modifier or test as missing exactly when the contract has no modifier or function, respectively, of exactly that name; modifiers are not reported when -m is given. Whatever else the contract holds (other functions, overloads, variables, constructors, bodies, attributes) makes no difference.",
 ["programs", "inputs", "configurations"],
 "All accepted trees and all Solidity files bulloak can parse.",
 "Nine fixtures; the two must be compared as a whole and in all combinations of kinds and names.",
 [FND+"check/rules/structural_match.rs", FND+"sol/mod.rs"],
 [("check_fns_structure", FND+"check/rules/structural_match.rs"), ("find_matching_fn", FND+"sol/mod.rs")], ["stderr and exit status of `bulloak check`"])

prop("C16", "Check reports exactly the functions that are out of order",
 "`bulloak check` reports a function or modifier as misplaced exactly when it is in the contract and stands after one which it should precede according to the tree; each once. Functions and other constructs the tree does not mention, and missing ones, do not affect the order.",
 ["programs", "inputs"],
 "All permutations of the specified functions, with any subset missing and any foreign parts in between.",
 "Two fixtures out of n! orders.",
 [FND+"check/rules/structural_match.rs"],
 [("inversions", FND+"check/rules/structural_match.rs")], ["stderr of `bulloak check`"])

prop("C17", "Check reports file and contract problems, each of the right kind",
 "For each .tree file check reports exactly one problem if the tree cannot be read or is rejected, if there is no .t.sol file of the same name, or if that cannot be read or parsed, and it says which of these it is. Otherwise it reports a missing contract when the file has none, or a wrong name when the first contract is not called as the root says, and then still compares its functions.",
 ["inputs", "programs", "fault_sequences"],
 "All combinations of unreadable/missing/malformed/empty files and of contracts, interfaces and libraries in them.",
 "A fixture per rule; not combined, and not for every error of a tree.",
 [FND+"check/context.rs", FND+"check/rules/structural_match.rs", FND+"check/violation.rs"],
 [("Context::new", FND+"check/context.rs"), ("check_contract_names", FND+"check/rules/structural_match.rs")], ["stderr of `bulloak check`"])

prop("C18", "What scaffold writes, check accepts",
 "For every tree that scaffold accepts, `bulloak check` finds no issue in the file that `bulloak scaffold -w` has just written, whatever -S and -s were; with scaffold -m, check -m finds none, and check without -m finds exactly the modifiers missing.",
 ["inputs", "configurations", "histories"],
 "All accepted trees and all flag combinations.",
 "No test runs the two commands one after the other.",
 [FND+"hir/mod.rs", FND+"sol/translator.rs", FND+"check/rules/structural_match.rs"],
 [("both go through hir::translate", FND+"hir/mod.rs")], [STDOUT, DISK])

prop("C19", "check --fix repairs everything it counts, and a second run changes nothing",
 "After `bulloak check --fix`, `bulloak check` with the same flags finds no issue in any file whose tree and Solidity source could be read, and the number of issues reported as fixed is the number of fixable issues check reported before. Running --fix again fixes 0 issues and leaves the files byte for byte as they are.",
 ["programs", "inputs", "histories"],
 "All accepted trees with all Solidity files that parse: any subset missing, any order, wrong or missing contract, foreign parts anywhere.",
 "Tests fix four fixtures once; convergence relates three successive commands.",
 [CLI+"check.rs", FND+"check/violation.rs", FND+"check/context.rs"],
 [("fix", FND+"check/violation.rs"), ("fix_order", FND+"check/violation.rs")], [STDOUT, DISK])

prop("C20", "check --fix keeps the user's code",
 "`bulloak check --fix` keeps every contract, function with its body, variable, event, import, pragma, directive and comment of the Solidity file: it only adds the missing contract, modifiers and tests (with the bodies scaffold would emit), renames the first contract, moves specified functions, adds its separator comment, and formats. A file with nothing to fix is only formatted.",
 ["programs", "inputs"],
 "All accepted trees with all Solidity files that parse.",
 "Two fixtures with extra code in convenient places.",
 [FND+"check/violation.rs", FND+"check/context.rs", CLI+"check.rs"],
 [("insert_function_at", FND+"check/context.rs"), ("scratch buffer of fix_order", FND+"check/violation.rs")], [DISK])

prop("C21", "Check writes only with --fix, and then only the matching Solidity files",
 "`bulloak check` without --fix, and with --fix --stdout, creates and changes no file. With --fix it changes no file other than the .t.sol files of the trees given, never creates one, never touches one whose tree or source could not be read, and with --stdout it prints exactly what it would have written, each under its path.",
 ["histories", "inputs", "configurations"],
 "All sequences of commands over a set of files and all flags.",
 "No test looks at the file system after a command.",
 [CLI+"check.rs"],
 [("Check::write", CLI+"check.rs")], [DISK, STDOUT])

prop("C22", "Results depend only on the files and flags given",
 "Running the same command twice on the same files gives the same output, errors and exit status, byte for byte, including the order in which several problems are listed. The results for a file do not depend on commands run before on others or on the directory it is in.",
 ["schedules", "histories", "inputs"],
 "All inputs, all repetitions (hash seeds differ between runs), all places of the files.",
 "A test runs each command once, and unordered collections give the same order by luck.",
 [SYN+"semantics.rs", FND+"hir/combiner.rs", FND+"scaffold/modifiers.rs", FND+"check/rules/structural_match.rs"],
 [("ordered collections", SYN+"semantics.rs, "+FND+"scaffold/modifiers.rs")], [STDOUT])

prop("C23", "Check covers all the files given, and its totals and status are right",
 "`bulloak check` on several files reports the problems of every one of them as if each were checked alone. It exits with 0 and a success message exactly when there is none; otherwise with 1, stating how many checks failed and how many of them --fix would repair, and --fix likewise exits with 1 when some file could not be processed.",
 ["inputs", "histories", "fault_sequences"],
 "All lists of files with any mix of problems, in any order.",
 "Each test checks one file.",
 [CLI+"check.rs", FND+"check/violation.rs"],
 [("exit", CLI+"check.rs")], ["stderr, stdout and exit status of `bulloak check`"])

prop("C24", "Violations point at the right place",
 "A missing test or modifier is located at the line of the .tree file where its branch is drawn; a misplaced function or wrongly named contract at the line of the .t.sol file where it starts; problems of whole files at the path of the file concerned. The fix hint names the .tree file of that very violation.",
 ["programs", "inputs"],
 "All trees and Solidity sources, including multi-tree files, comments, blank lines, CRLF and multi-byte characters before the place.",
 "Fixtures are ASCII, single-tree and short; lines go wrong with multi-byte text or later trees only.",
 [FND+"check/location.rs", FND+"check/utils.rs", FND+"check/rules/structural_match.rs", SYN+"tokenizer.rs"],
 [("offset_to_line", FND+"check/utils.rs"), ("Location", FND+"check/location.rs"), ("span of a HIR function", FND+"hir/hir.rs")], ["stderr of `bulloak check`"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
