#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after editing; the
results are committed."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__)) + "/.."

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    files = list(dict.fromkeys(files))
    for f in files + [w for _, w in mech]: assert os.path.exists("/repo/" + f), f
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK = "Command::verif_unexpanded and Rule::verif_rule_type (cfg hastur_verif): the text of recipe commands and the kind of a rule have no public accessor"

prop("C01", "References expand to what the makefile language says",
  "Expanding any value or command yields exactly the text GNU make's rules prescribe: $(X), ${X} and $X give the value of X, references nest and their names may be computed, $$ is a dollar sign, undefined variables are empty, and all other text stands for itself. A recursively expanded variable is expanded anew with each use, so it follows later changes of what it refers to.",
  ["inputs", "programs"], "every makefile and every expression over its variables, nested to any depth, including non-ASCII text",
  "the unit tests expand a dozen fixed expressions; the combinations of nesting, computed names, neighbouring text and flavours are unbounded",
  ["src/ast/mod.rs", "src/ast/mod.rs", "src/parsers/ast/mod.rs", "src/parsers/variable/mod.rs", "src/lib.rs"],
  [("AstNode::eval", "src/ast/mod.rs"), ("parse of advances and references", "src/parsers/ast/mod.rs")],
  observe=["Variable::ast().eval / Variable::expand", "recipe commands"], hook=HOOK)
prop("C02", "Assignments follow their flavour over any history",
  "After any sequence of =, :=, ::=, ?= and += (and their define forms) every variable has the value the language prescribes: = stores the text unexpanded, := and ::= store the expansion at that moment, ?= assigns only if the variable is not yet set, and += appends after a space (none if the old value is empty), expanding at once if the variable is a simple one and later if it is recursive. A later change to another variable affects a recursive variable and never a simple one.",
  ["histories", "programs"], "every history of assignments over any set of variables",
  "tests perform one or two assignments; what matters is the interplay of flavours, order and later changes",
  ["src/parsers/mod.rs", "src/parsers/variable/mod.rs", "src/lib.rs"],
  [("handling of variable assignment lines", "src/parsers/mod.rs"), ("Database::set_variable / append_to_variable", "src/lib.rs")])
prop("C03", "Conditionals let exactly the chosen branch take effect",
  "For every nesting of ifeq, ifneq, else and endif, exactly the lines of the branches whose conditions hold (with their operands expanded at that point) take effect. The lines of the other branches have no effect at all: no variables, rules, recipe lines, included files or expansions of their text.",
  ["programs", "inputs"], "every tree of conditionals, every operand, every kind of line inside",
  "tests have two or three conditionals of depth at most two",
  ["src/parsers/conditional/mod.rs", "src/parsers/mod.rs", "src/ast/mod.rs"],
  [("conditional stack", "src/parsers/conditional/mod.rs")])
prop("C04", "The rule database holds what the makefile declares",
  "After reading, there is exactly one rule per target name that some rule line declared, with the kind, prerequisites (in order, expanded when the line was read) and commands the rule lines for it add up to: a line with several targets declares the same for each, a rule without recipe adds its prerequisites to an existing rule, one with recipe replaces it. Looking up a target by name and iterating over all rules agree.",
  ["programs", "histories"], "every sequence of rule lines over any set of targets",
  "tests declare single rules; merging, overwriting and several targets interact over histories",
  ["src/parsers/targets/mod.rs", "src/parsers/recipe_line.rs", "src/parsers/mod.rs", "src/lib.rs"],
  [("rule closing and merging", "src/parsers/mod.rs"), ("Database::add_rule", "src/lib.rs")], hook=HOOK)
prop("C05", "Meaningless layout does not change the meaning",
  "A makefile means the same when it is laid out differently in ways the language gives no meaning to: comments and blank lines between statements, blanks around operators and names, long lines continued with a backslash, a byte order mark, CRLF line ends, or a missing line end after the last line.",
  ["inputs", "programs"], "every makefile and every combination of such layouts",
  "tests fix one layout per feature",
  ["src/parsers/mod.rs", "src/parsers/mod.rs", "src/parsers/comment.rs", "src/parsers/mod.rs"],
  [("logical lines", "src/parsers/mod.rs"), ("comment and blank handling", "src/parsers/mod.rs")])
prop("C06", "Quoted separators stay inside names of targets and prerequisites",
  "In the lists of targets and prerequisites of a rule, a blank or colon preceded by an odd number of backslashes belongs to the name and its quoting backslash is dropped, an even number stands for half as many backslashes in front of a separator, and backslashes in front of anything else are kept. No name is lost, split or joined otherwise.",
  ["inputs"], "every list of names with any number of backslashes in front of any character, written literally or through variables",
  "tests try single backslashes at a few places",
  ["src/parsers/targets/mod.rs", "src/parsers/comment.rs"],
  [("splitting of targets and words with escapes", "src/parsers/targets/mod.rs")])
prop("C07", "Every piece of text is traced to where it stands in the source",
  "Each segment of any expanded variable, target, prerequisite or command, and each constant in an unexpanded value, that carries a source location (file, line, column) stands in that file at exactly that place. Only the separators the evaluator inserts itself (a blank, line end or semicolon) carry no location.",
  ["programs", "inputs"], "every makefile, every value and every segment, through references, substitutions, continuations, quoting, evals and includes",
  "tests compare the locations of few constants on one line of ASCII",
  ["src/source_location.rs", "src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/evaluated/nodes.rs", "src/parsers/mod.rs"],
  [("LocatedString::slice / advance", "src/source_location.rs"), ("segments()", "src/evaluated/block_span.rs")], hook=HOOK)
prop("C08", "Expansions report all variables they depend on",
  "The sensitivity set of any expansion contains every variable whose value was looked up during it, directly or through nested, computed or substitution references, including undefined ones and ones that expanded to nothing. Consequently giving a new value to a variable that is not in the set never changes the expansion.",
  ["programs", "inputs"], "every makefile, every expansion, every variable",
  "tests look at one or two references",
  ["src/ast/mod.rs", "src/evaluated/mod.rs", "src/evaluated/mod.rs", "src/evaluated/block_span.rs"],
  [("sensitivity merging in Block construction", "src/evaluated/mod.rs")], hook=HOOK)
prop("C09", "Evaluated text acts as if it stood in the makefile",
  "$(eval TEXT) expands to nothing and reading goes on as if the expanded TEXT had been read at that very moment: assignments and rules in it take effect exactly once and are visible to everything expanded afterwards, even later on the same line. Evaluating in a recipe has no effect until the recipe is expanded.",
  ["programs", "histories"], "every program with evals of any text anywhere an expansion happens, nested evals included",
  "tests evaluate one assignment",
  ["src/ast/mod.rs", "src/ast/mod.rs", "src/parsers/mod.rs"], [("AstNode eval of the eval function", "src/ast/mod.rs")])
prop("C10", "Included files act as if their text stood in place",
  "An include directive reads the files its expanded names denote, in order, relative to the engine's working directory, each with the effect its text would have in that place, nested includes and repeated ones alike. A missing file is an error that names it, except for -include and sinclude, which skip it and go on.",
  ["programs", "fault_sequences"], "every set of files and every way they include each other, present or missing",
  "no test includes files from disk in more than one way",
  ["src/lib.rs", "src/parsers/directives/mod.rs", "src/parsers/mod.rs"], [("Engine::include", "src/lib.rs")])
prop("C11", "Database snapshots are immutable",
  "Operations on a variable and rule database (set, append, set for a target, add a rule, read a makefile with an engine that shares it) never change any database value obtained before: every clone keeps exactly the variables and rules it had, whatever happens to databases derived from it. Each operation yields a database that differs from its source in just the named variable or rule.",
  ["histories"], "every tree of operations over any number of snapshots",
  "tests check single operations on fresh databases",
  ["src/lib.rs"], [("persistent maps with copy on write", "src/lib.rs")], hook="VariableParameters::verif_new (cfg hastur_verif): variables for the public database operations cannot be made outside of the crate")
prop("C12", "No input crashes or hangs the reader",
  "Reading any bytes as a makefile, and expanding any variable of the result, ends within reasonable time with success or a reported error. It does not panic, overflow, abort or loop, with the exception of the constructs documented as not implemented.",
  ["inputs", "programs"], "every byte sequence", "tests read well formed text only; the proptest suites generate what the tests' own generators know about",
  ["src/parsers", "src/evaluated", "src/ast/mod.rs", "src/parsers/mod.rs", "src/lib.rs"], [("error reporting of the parsers", "src/parsers/mod.rs")])
prop("C13", "Errors are reported as what they are and stop the reading there",
  "A line that is not valid (no separator, unterminated reference, unattached or doubled else, unattached endif, trailing text after else, endif or endef, missing include, recipe without a rule) makes reading fail with the error kind for that mistake. Everything before the line has taken effect and nothing after it; a reader that fails or delivers invalid UTF-8 is reported as an I/O error and leaves the state as it was.",
  ["inputs", "fault_sequences"], "every makefile with a mistake at any place, every point at which a reader can fail",
  "tests provoke two error kinds in one line inputs",
  ["src/parsers/mod.rs", "src/parsers/conditional/mod.rs", "src/parsers/mod.rs", "src/lib.rs", "src/parsers/mod.rs"],
  [("ParseErrorKind propagation", "src/parsers/mod.rs")])
prop("C14", "Reading is deterministic and engines are isolated",
  "The same input read by a fresh engine always leads to the same state, values, locations and error, whatever was interned before, however the reader hands out its bytes, and whatever other engines do at the same time in other threads. Engines share nothing observable, and values may be handed between threads.",
  ["schedules", "histories", "configurations"], "every input, every chunking of the reader, every prior content of the name cache, every interleaving of engines on threads",
  "tests are single threaded and use fresh caches",
  ["src/lib.rs", "src/evaluated/mod.rs", "src/evaluated/nodes.rs", "src/parsers/mod.rs"], [("Engine and NameCache own all state; lazily initialised constants are immutable", "src/lib.rs")])
prop("C15", "Interned names are a bijection",
  "Interning a file name and resolving the result gives the same text back, and looking up a variable or file name finds what was interned; two names get the same identifier if and only if they are equal as text; identifiers stay valid and unchanged whatever is interned later. Variable and file names live in separate name spaces, and looking a name up never interns it.",
  ["histories", "inputs"], "every sequence of interning, lookup and resolution over any names",
  "tests intern one or two names",
  ["src/lib.rs"], [("NameCache / string interner", "src/lib.rs")])
prop("C16", "Evaluated text behaves like the string it stands for",
  "However a piece of evaluated text was built from constants, concatenations, references, substitutions and slices of other pieces, its length, characters, character indices, segments, slices, copies and concatenations agree with the plain string it denotes. Slicing and copying never change the text, its order or its locations, and copies keep the sensitivity.",
  ["inputs", "histories"], "every sequence of construction and slicing operations at every character boundary",
  "tests use a few ASCII blocks of depth one or two",
  ["src/evaluated/mod.rs", "src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/evaluated/nodes.rs", "src/evaluated/mod.rs"],
  [("BlockSpan slicing", "src/evaluated/nom/mod.rs"), ("ContentReference iteration", "src/evaluated/content_reference.rs")])
prop("C17", "Parsing primitives on evaluated text agree with those on strings",
  "Every nom input operation on evaluated text (taking, splitting at positions, comparing with and without case, finding substrings and tokens, offsets, length, slicing) gives the result the same operation gives on the plain string, whatever pieces the text consists of. In particular no result depends on where one piece ends and the next begins.",
  ["inputs"], "every text, every division of it into pieces, every operation and argument",
  "tests use few fixed divisions",
  ["src/evaluated/nom/mod.rs"], [("nom trait implementations", "src/evaluated/nom/mod.rs")])
prop("C18", "Locations advance with the text and compare in source order",
  "Advancing a location over text moves it one line per line end and one column per character, and slicing located text at a character boundary gives the location of that character. Locations of one file compare by line and column in a consistent partial order; locations of different files or of different kinds are never ordered.",
  ["inputs"], "every text, every split point, every pair and triple of locations",
  "tests advance over one ASCII line",
  ["src/source_location.rs"], [("Location::advance, PartialOrd, LocatedString::slice", "src/source_location.rs")])
prop("C19", "Visitors see every node of a value exactly once",
  "Walking any value with a visitor calls the method for a node's kind exactly once for each node, parents before children and children in source order; the mutable visitor does likewise and leaves the value unchanged unless its methods change it. Constructors and accessors of nodes give back what was put in, and adjacent concatenations collapse without changing what the value expands to.",
  ["programs"], "every tree of nodes of every kind", "tests walk no deep trees",
  ["src/ast/mod.rs", "src/ast/visit.rs", "src/ast/visit.rs"], [("Visitor / MutVisitor walk functions", "src/ast/visit.rs")])
prop("C20", "Memory safety and freedom from data races",
  "No safe use of the library causes undefined behaviour: no invalid, misaligned or uninitialised access, no use after free, no leak of what is dropped, and no data race when values, databases and engines are used or shared across threads.",
  ["schedules", "inputs", "programs"], "every use of the API on every input, every interleaving of threads",
  "ordinary test runs do not notice undefined behaviour that happens to give the right result",
  ["src/lib.rs", "src/evaluated", "src/source_location.rs", "src/parsers", "src/ast/mod.rs"], [("safe Rust; Arc-shared immutable nodes; lazily initialised statics", "src/evaluated/mod.rs")])
prop("C21", "Multi line definitions keep their body verbatim",
  "define NAME ... endef gives NAME the text between the two lines, line by line, without expanding it, acting on it or dropping comments in it, up to the matching endef (definitions nest). The operator after the name (=, ?=, +=) has the meaning it has in an assignment.",
  ["inputs", "programs"], "every body, every nesting, every operator", "tests define one or two lines",
  ["src/parsers/variable/mod.rs", "src/parsers/mod.rs", "src/parsers/mod.rs"], [("define state of the reader", "src/parsers/variable/mod.rs")])
prop("C22", "Substitution references rewrite exactly the matching words",
  "$(V:a=b) replaces the suffix a by b in each word of V's value that ends in a, and with a % in a it replaces each whole word that matches by the replacement, with % standing for the matched stem. Words that do not match stay unchanged, and the number and order of words is kept.",
  ["inputs"], "every value, pattern and replacement", "tests try few patterns",
  ["src/ast/text_functions.rs", "src/ast/mod.rs"], [("do_subref", "src/ast/text_functions.rs")])
prop("C23", "Recipes are kept line by line and expanded only when asked",
  "Each recipe line (after a semicolon on the rule line, or starting with the engine's recipe prefix) becomes one command of the rules it follows, in order, continued lines joined to one, blank lines and comments between them skipped. Commands are not expanded while reading: their expansion sees the variables as they are when it is asked for.",
  ["programs", "histories", "configurations"], "every program with recipes, every recipe prefix, every later change of variables",
  "tests have one line recipes that are never expanded",
  ["src/parsers/recipe_line.rs", "src/parsers/targets/mod.rs", "src/parsers/mod.rs", "src/lib.rs"], [("recipe collection", "src/parsers/recipe_line.rs")], hook=HOOK)
prop("C24", "Reading in parts equals reading the whole",
  "Reading a makefile in several parts, cut between top level statements, one after the other with the same engine leads to the same variables, rules and values as reading it in one piece. No state of one read leaks into the next.",
  ["histories"], "every program and every set of cuts between its statements", "tests read one text per engine",
  ["src/lib.rs", "src/parsers/mod.rs"], [("Engine::read_makefile", "src/lib.rs")])
prop("C25", "The expansion history tells how each character came about",
  "For every character of an expansion, the history (the chain of variable and substitution references it came through, with their names, patterns and replacements) is the one the expansion actually took. Simple variables keep the history they had when they were assigned.",
  ["programs"], "every makefile, every expansion, every character", "tests look at the history of one reference",
  ["src/ast/mod.rs", "src/evaluated/nodes.rs", "src/evaluated/mod.rs"], [("EvaluatedNode history", "src/evaluated/nodes.rs")],
  hook="ContentReference::verif_node and VariableReference::verif_value (cfg hastur_verif): the nodes of the history have no public accessor")
prop("C26", "The cost of an expansion grows with its size, not its depth",
  "Expanding and reading out a value takes time and memory in proportion to the text it yields and the references it follows: chains of references, substitutions, appends and nested copies of one another do not multiply the cost at each level, and long lines, lists and files are handled in about linear, at most quadratic, time.",
  ["inputs", "programs"], "every chain and nesting of references and every size of input", "tests are tiny",
  ["src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/evaluated/nodes.rs", "src/ast/mod.rs", "src/parsers"], [("shared nodes, entered at an offset", "src/evaluated/nodes.rs")])

prop("C27", "Unexpanded text is kept as the syntax tree it spells",
  "The unexpanded value of a variable or command is the syntax tree its text spells: constants, $$, references with the (possibly computed) name between their matching brackets, and calls of eval, strip, words and word with exactly their arguments, split at the commas outside of brackets and without the blanks in front of them. Names that merely look like functions are references. Each node and character is located where it was written, whatever pieces the text was put together from. A call with too few or too many arguments, or an open bracket, is an error of just that kind wherever it stands.",
  ["inputs", "programs"], "every expression, wherever it stands and whatever it is put together from",
  "the unit tests parse a dozen fixed expressions; nesting, neighbours, brackets and borders of pieces combine without bound, and functions that cannot be expanded yet are only visible as trees",
  ["src/parsers/ast/mod.rs", "src/ast/mod.rs", "src/parsers/variable/mod.rs", "src/parsers/recipe_line.rs", "src/parsers/targets/mod.rs"],
  [("parse_ast, function_call, function_argument", "src/parsers/ast/mod.rs"), ("constructors and collapsing_concat", "src/ast/mod.rs")],
  observe=["Variable::ast().children() and location()", "recipe commands"], hook=HOOK)

prop("C28", "What is read depends on the text, not on how it is put together",
  "Processing a block of evaluated text has exactly the effect reading the same characters as a file has - the same outcome or error, variables, trees, rules, prerequisites, commands, and the same place for each character - however the block is composed: of constants, slices, values of references and substitutions, copies, shared nodes and empty pieces, cut anywhere, even inside of keywords, operators, quotes, references and line ends.",
  ["programs", "configurations"], "every makefile and every way to compose its text",
  "the unit tests parse text that is one piece; evaluated text never is, and each parser may look across any border",
  ["src/lib.rs", "src/parsers", "src/evaluated"],
  [("Engine::process_block", "src/lib.rs"), ("BlockSpan", "src/evaluated/block_span.rs"), ("nom traits", "src/evaluated/nom/mod.rs")],
  hook="LocatedString::verif_new (cfg hastur_verif): pieces with a place of their own have no public constructor")
prop("C29", "Reading touches only the files it includes, and only reads them",
  "While a makefile is read, the only files opened are those its effective include directives name, each once for each time it is included, in that order, and as they are at that moment (nothing is kept from earlier reads); skipped branches, comments, definitions, recipes, prerequisites and unexpanded values open nothing. Nothing is ever created, changed or removed. Expanding variables and commands touches no file.",
  ["programs", "histories"], "every makefile, every set of files, every change to them between reads",
  "tests include one file and see only its effect, not what else was opened",
  ["src/parsers/directives/mod.rs", "src/parsers/file_sequence.rs", "src/lib.rs"], [("handle_include", "src/parsers/directives/mod.rs")],
  observe=["file system events"])

TECH = {
 "C28": "differential runs over compositions of the same text; trace comparison",
 "C29": "online monitor of file system events (inotify) against a reference interpreter",
 "C27": "trace checker of syntax trees against trees generated with their text",
 "C12": "hostile and mutated inputs under a panic, crash and hang monitor",
 "C14": "differential runs over chunkings, caches and threads; trace comparison",
 "C11": "history monitor over database snapshots against a map model",
 "C15": "history monitor against a map model",
 "C16": "operation histories with a String shadow as oracle",
 "C17": "operation histories with &str as oracle",
 "C18": "operation histories with a line and column counter as oracle",
 "C19": "trace checker over visitor calls",
 "C20": "Miri, AddressSanitizer, LeakSanitizer and ThreadSanitizer over monitored workloads with varied schedules",
 "C07": "online checker of locations against the source text",
 "C08": "dependency monitor: reference model and perturbation of unreported variables",
 "C25": "offline checker of expansion histories against an independent trace",
 "C26": "processor time and memory monitor over growing inputs",
}
DEF = "runtime monitoring of generated programs against a reference interpreter"
NOTE = "Exploration by seeded random workloads; every case runs the real code and is decided by an oracle that does not share code with it. Holds for what was generated (counts in the evidence file); trusts the oracle, which was compared with GNU make 4.3 where it concerns the language."

known = subprocess.run([here + "/target/release/hv", "list"], capture_output=True, text=True).stdout.split()
if os.path.exists(here + "/san.py"): known.append("C20")
known = set(known)
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hooks.splitlines() if "hastur_verif" in l or "for verification" in l]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in known:
        cmd = "bash check.sh " + i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
          "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEF), "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "bash build.sh",
  "hooks": {"guard": "cfg(hastur_verif)", "enable": "RUSTFLAGS='--cfg hastur_verif' (build.sh sets it; falls back to a build without hooks if they do not compile)", "source_commits": commits},
  "checks": checks, "not_applicable": na,
  "notes": "bash check.sh ID builds from /repo and decides one property (C20: san.py, with three sanitizer builds of its own); VERIF_SEED chooses the workload; target/release/hv replay FILE runs a replay file again."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
with open(here + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na], commits)
