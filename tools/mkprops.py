#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the list stays reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: anchors["observe_at"] = observe
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors))

NOUNIT = ("The stable tests only check exit codes of the command-line tool on a few bundled inputs; "
          "the numeric unit tests are not part of the build, so ")

prop("C01", "Minimal cut sets of coherent fault trees are exact for every algorithm",
     "For every coherent fault tree (AND, OR, at-least, pass-through gates, shared gates, house events and constants), the "
     "sum of products reported with BDD, ZBDD or MOCUS is exactly the set of minimal cut sets of the top event's Boolean "
     "function: nothing missing, nothing non-minimal, no duplicates. A constant-true top event yields the single empty "
     "product and a constant-false one yields none, each flagged by the report's warning.",
     ["inputs", "configurations"],
     "over every coherent fault tree and each of the three qualitative algorithms (order limit not binding)",
     NOUNIT + "a wrong cut set is noticed by nothing; and no finite list of trees covers the preprocessing rewrites that fire on structure.",
     ["src/preprocessor.cc", "src/pdag.cc", "src/mocus.cc", "src/bdd.cc", "src/zbdd.cc", "src/fault_tree_analysis.cc", "src/reporter.cc"],
     [("graph preprocessing and rewriting", "src/preprocessor.cc"), ("ZBDD minimisation and subsume", "src/zbdd.cc"),
      ("MOCUS expansion", "src/mocus.cc"), ("product container", "src/fault_tree_analysis.cc")],
     ["report: sum-of-products"])
prop("C02", "Non-coherent fault trees: minimal cut sets agree with the function",
     "For every fault tree using NOT, XOR, NAND, NOR, IFF, IMPLY, cardinality or complemented arguments, the reported minimal "
     "cut sets are exactly the minimal sets of basic events whose occurrence alone (every other event not occurring) can be extended by no "
     "removal: the minimal elements of the sets that make the top event true. BDD, ZBDD and MOCUS report the same sets.",
     ["inputs", "configurations"],
     "over every non-coherent fault tree and each qualitative algorithm (prime implicants off)",
     NOUNIT + "and the treatment of complements is spread over normalisation, propagation and three algorithms.",
     ["src/preprocessor.cc", "src/pdag.cc", "src/mocus.cc", "src/bdd.cc", "src/zbdd.cc"],
     [("gate normalisation / complement propagation", "src/preprocessor.cc"), ("truncation of complements", "src/zbdd.cc"),
      ("MOCUS on NNF", "src/mocus.cc")], ["report: sum-of-products"])
prop("C03", "Prime implicants are exact",
     "With prime implicants requested, the reported products (with complemented literals) are exactly all prime implicants "
     "of the top event's Boolean function. Their reported probability is the product of p or 1-p of the literals.",
     ["inputs"], "over every fault tree, coherent or not, analysed with --bdd --prime-implicants",
     NOUNIT + "no test checks a prime implicant at all.",
     ["src/bdd.cc", "src/zbdd.cc", "src/fault_tree_analysis.cc"],
     [("consensus of BDD vertices", "src/bdd.cc"), ("prime implicant ZBDD conversion", "src/zbdd.cc")],
     ["report: sum-of-products with <not>"])
prop("C04", "The exact top-event probability is exact",
     "With BDD and no approximation, the reported top-event probability equals the probability of the top event's Boolean "
     "function under independent basic events, for coherent and non-coherent trees. Removing or reordering redundant structure never changes it.",
     ["inputs"], "over every fault tree and every assignment of basic event probabilities",
     NOUNIT + "a wrong probability changes no exit code.",
     ["src/probability_analysis.cc", "src/bdd.cc", "src/preprocessor.cc", "src/pdag.cc"],
     [("BDD probability with complement edges and modules", "src/probability_analysis.cc"), ("BDD construction", "src/bdd.cc")],
     ["report: sum-of-products/@probability"])
prop("C05", "Approximate probabilities and product figures follow their definitions",
     "With the rare-event approximation the reported total is min(1, sum of product probabilities) and with MCUB it is "
     "1 - prod(1 - p), over the reported products. Each product's order, probability and contribution, the number of products, the number of "
     "distinct product events and the order distribution are those of the listed products.",
     ["inputs", "configurations"], "over every fault tree, algorithm and approximation",
     NOUNIT + "the arithmetic of the report is untested.",
     ["src/probability_analysis.cc", "src/fault_tree_analysis.cc", "src/reporter.cc"],
     [("rare-event and MCUB calculators", "src/probability_analysis.cc"), ("product probability/order", "src/fault_tree_analysis.cc"),
      ("sum-of-products output", "src/reporter.cc")], ["report: sum-of-products"])
prop("C06", "Importance factors follow their definitions",
     "For every basic event appearing in the products, the report lists exactly once its occurrence count (number of products containing it), "
     "probability, MIF (difference of the top probability with the event certain and impossible), CIF, DIF, RAW and RRW as defined from MIF, the event "
     "and the total probability, computed with the probability calculator in force (exact, rare-event or MCUB). Events in no product are absent, and every factor is zero when the total probability is zero.",
     ["inputs", "configurations"], "over every fault tree, probability assignment and probability calculator",
     NOUNIT + "importance numbers are never compared.",
     ["src/importance_analysis.cc", "src/probability_analysis.cc", "src/reporter.cc"],
     [("MIF from BDD / from re-evaluated approximations", "src/importance_analysis.cc"), ("factor formulas", "src/importance_analysis.cc")],
     ["report: importance"])
prop("C07", "Common-cause groups expand to the declared parametric model",
     "With CCF analysis on, each member of a CCF group behaves as the OR of the group's common-cause events containing it, whose probabilities are those of the "
     "beta-factor, MGL, alpha-factor or phi-factor model for the group's distribution and factors; products, probability and importance are those of the "
     "expanded tree. With CCF analysis off the members are independent with the group's total probability.",
     ["inputs", "configurations"], "over every group size, model, factor vector (with gaps in levels where allowed) and fault tree using the members",
     NOUNIT + "CCF numbers are never compared.",
     ["src/ccf_group.cc", "src/pdag.cc", "src/event.h", "src/initializer.cc", "src/reporter.cc"],
     [("ApplyModel and CalculateProbabilities per model", "src/ccf_group.cc"), ("CCF gate substitution", "src/pdag.cc")],
     ["report: ccf-event products"])
prop("C08", "Uncertainty results are faithful statistics of the sampled model",
     "With uncertainty analysis, the reported mean, standard deviation, confidence range, error factor, quantiles and histogram describe the distribution "
     "of the top-event probability when every parameter distribution is sampled once per trial (shared parameters sampled consistently), within sampling error; quantiles "
     "are monotone with the requested count, the histogram has the requested bins and total mass one, and a model without random deviates has zero deviation at the point value.",
     ["inputs", "configurations"], "over every model with random parameters, every distribution, number of trials, quantiles, bins and seed",
     NOUNIT + "statistics are never compared.",
     ["src/uncertainty_analysis.cc", "src/expression.h", "src/expression/random_deviate.cc", "src/reporter.cc"],
     [("Monte Carlo sampling with per-trial reset", "src/uncertainty_analysis.cc"), ("statistics", "src/uncertainty_analysis.cc")],
     ["report: measure"])
prop("C09", "Probability curves and SIL metrics follow from p(t)",
     "With a time step, the reported curve gives the top probability at 0, step, 2*step, ... and at mission time, where time-dependent expressions are evaluated at that time. "
     "With SIL the averages PFD and PFH are the time averages of that curve, and the reported fractions partition the mission time (sum to one) according to the SIL bands.",
     ["inputs", "configurations"], "over every time-dependent model, mission time and time step",
     NOUNIT + "curves are never compared.",
     ["src/probability_analysis.cc", "src/parameter.h", "src/expression/exponential.cc", "src/reporter.cc"],
     [("p over time evaluation", "src/probability_analysis.cc"), ("SIL computation", "src/probability_analysis.cc")],
     ["report: curve, safety-integrity-levels"])
prop("C10", "Event-tree sequences accumulate exactly their paths",
     "For every initiating event, each sequence's result is the disjunction over all paths ending in it of the conjunction of collected formulas (or the sum of products of collected "
     "expressions), with path states of functional events, house-event settings, rules, conditionals, branches, and links applied in path order, and nothing leaking between paths.",
     ["inputs"], "over every event tree: forks, named branches, links, rules, blocks, if-then-else and house-event instructions",
     NOUNIT + "only that bundled event trees run is checked.",
     ["src/event_tree_analysis.cc", "src/event_tree.cc", "src/instruction.h", "src/initializer.cc", "src/expression/test_event.cc"],
     [("sequence collector", "src/event_tree_analysis.cc"), ("cloning with set house events", "src/event_tree_analysis.cc")],
     ["report: initiating-event, sum-of-products per sequence"])
prop("C11", "Expressions evaluate to their mathematical meaning",
     "Every deterministic expression - constants, parameters, arithmetic, comparison, logic, conditional, trigonometric, statistical built-ins and the "
     "exponential, GLM, Weibull and periodic-test time laws - evaluates to its mathematical value at the given mission time, parameters being transparent. "
     "The mean value of each random deviate is its documented mean.",
     ["inputs"], "over every well-formed expression tree and mission time",
     NOUNIT + "expression values are never compared.",
     ["src/expression.h", "src/expression/numerical.h", "src/expression/numerical.cc", "src/expression/exponential.cc", "src/expression/conditional.cc",
      "src/expression/boolean.h", "src/expression/random_deviate.cc", "src/initializer.cc", "src/parameter.cc"],
     [("value() of each expression", "src/expression/"), ("expression extractors", "src/initializer.cc")], ["probe: parameter values"])
prop("C12", "Random deviates sample their distribution and respect bounds",
     "Every random deviate draws samples whose distribution is the declared one; a value sampled once in a trial is reused until the trial ends, and resampled on the next. "
     "Values and samples of any expression lie within the interval the tool computes for validation, apart from the unbounded tails the intervals truncate by design.",
     ["inputs", "histories"], "over every distribution, parameter set, nesting and sequence of reset/sample calls",
     NOUNIT + "no test looks at a sample.",
     ["src/expression/random_deviate.cc", "src/expression/random_deviate.h", "src/expression.cc", "src/expression/numerical.h"],
     [("DoSample and interval", "src/expression/random_deviate.cc"), ("sample caching", "src/expression.cc")], ["probe: samples and intervals"])
prop("C13", "Invalid models are rejected before any analysis",
     "A model with an undefined reference, a duplicate definition, a cyclic definition, a wrong number of arguments, an out-of-domain parameter or probability, an inconsistent CCF group, "
     "alignment, substitution or event tree is rejected: the tool exits with status 1, prints a diagnostic and writes no report. A valid model is never rejected.",
     ["inputs"], "over every model obtained from a valid one by one such fault, at any place and in any declaration order",
     "The command-line tests reject a handful of files; they cannot cover every construct, position and declaration order.",
     ["src/initializer.cc", "src/cycle.h", "src/event.cc", "src/ccf_group.cc", "src/expression.cc", "src/model.cc", "src/substitution.cc", "src/alignment.cc"],
     [("two-phase registration and definition", "src/initializer.cc"), ("cycle detection", "src/cycle.h"), ("validity checks", "src/*.cc Validate functions")],
     ["exit status, stderr, output file"])
prop("C14", "Reports are well-formed, schema-valid and self-consistent",
     "Every report written for a successful analysis is well-formed UTF-8 XML valid against the published report schema, with every name and label properly escaped. "
     "Its model-feature counts, analysis settings and result sections are exactly those of the model and the requested analyses, each result once.",
     ["inputs", "configurations"], "over every model and combination of analysis options",
     "Tests check the exit code only; the report content depends on the product of model features and options.",
     ["src/reporter.cc", "src/xml_stream.h", "share/report.rng"],
     [("streaming XML writer", "src/xml_stream.h"), ("reporter", "src/reporter.cc")], ["report file"])
prop("C15", "Serialised models load back to the same model",
     "Serialising a fault-tree model and loading the result gives a model with the same names, labels, attributes, formulas, house states and basic event expressions, and the same analysis results; serialising again reproduces the same definitions.",
     ["inputs"], "over every model within the serialiser's supported constructs",
     "Unit tests for serialisation are not built; the GUI relies on it for every save.",
     ["src/serialization.cc", "src/initializer.cc", "src/xml_stream.h"],
     [("serializers per construct", "src/serialization.cc")], ["scram --serialize output, reports"])
prop("C16", "Results are reproducible",
     "Running the same analysis with the same inputs, options and seed yields the same report apart from time stamps and durations, whatever the process's memory layout, verbosity, indentation or output destination.",
     ["inputs", "configurations", "schedules"], "over every model, option set and process execution",
     "Tests run each command once; address-dependent ordering shows only across processes.",
     ["src/risk_analysis.cc", "src/expression/random_deviate.cc", "src/preprocessor.cc", "src/reporter.cc", "src/scram.cc"],
     [("seeded PRNG", "src/risk_analysis.cc"), ("index-ordered graph algorithms", "src/pdag.cc")], ["report file"])
prop("C17", "Settings from project files and command line are honoured",
     "A project file's options have the same effect as the equivalent command-line options; explicit command-line options override the project's, other project options stay in force, and input file paths are resolved relative to the project file. "
     "Contradictory, unknown or out-of-range settings are rejected with status 1 and no report.",
     ["configurations"], "over every combination of project options and command-line options",
     "Tests exercise two project files; the combinations are many and interact.",
     ["src/project.cc", "src/settings.cc", "src/scram.cc"],
     [("ConstructSettings", "src/scram.cc"), ("settings invariants", "src/settings.cc"), ("project options", "src/project.cc")],
     ["report: calculated quantities and results"])
prop("C18", "Alignment phases are analysed independently",
     "With an alignment, every phase is analysed as the model with that phase's house-event states and its fraction of the mission time, and reported under its alignment and phase name; "
     "no phase's settings leak into another phase, alignment or later analysis.",
     ["inputs", "histories"], "over every set of alignments, phases, time fractions and house-event instructions",
     NOUNIT + "only the exit status of a bundled alignment is checked.",
     ["src/risk_analysis.cc", "src/alignment.cc", "src/model.h"],
     [("scoped mission time and house events", "src/risk_analysis.cc")], ["report: @alignment/@phase"])
prop("C19", "Substitutions act as declared on every product",
     "Declarative substitutions (delete-terms, recovery-rule, exchange-event without source) constrain the analysed function exactly as their hypothesis-to-target implication says, and non-declarative exchanges replace the source events of every "
     "product satisfying the hypothesis by the target; malformed or conflicting substitutions are rejected.",
     ["inputs"], "over every fault tree and set of substitutions",
     NOUNIT + "substitution effects are never compared.",
     ["src/substitution.cc", "src/pdag.cc", "src/fault_tree_analysis.cc", "src/initializer.cc"],
     [("substitution graph construction", "src/pdag.cc"), ("substitution validation", "src/substitution.cc")], ["report: sum-of-products"])
prop("C20", "The product order limit cuts exactly the higher orders",
     "With limit-order k, the reported products are exactly those of the unlimited analysis having at most k literals, for every algorithm and for prime implicants; with the exact calculator the total probability is unaffected by the limit.",
     ["inputs", "configurations"], "over every fault tree, algorithm and limit (0 and above)",
     NOUNIT + "truncation is implemented separately in each algorithm and across module boundaries.",
     ["src/zbdd.cc", "src/mocus.cc", "src/bdd.cc", "src/fault_tree_analysis.cc"],
     [("cut-off order propagation through modules", "src/zbdd.cc"), ("MOCUS cut-off", "src/mocus.cc")], ["report: sum-of-products"])
prop("C21", "Large structured trees: all algorithms agree with an independent engine",
     "On fault trees far beyond exhaustive enumeration (tens to hundreds of events, deep sharing, modules, k-of-n votes, and the bundled benchmark models), the number and identity of the minimal cut sets agree between BDD, ZBDD and MOCUS and with an "
     "independent engine, and the exact probability agrees with an independent decision diagram; so do importance factors, order-limited products and prime implicants where the independent engine can afford them.",
     ["inputs", "configurations"], "over large generated trees and the bundled benchmarks",
     NOUNIT + "module detection, common-node propagation and variable ordering only engage on large graphs.",
     ["src/preprocessor.cc", "src/bdd.cc", "src/zbdd.cc", "src/mocus.cc", "input/"],
     [("module detection, factoring, boolean optimisation", "src/preprocessor.cc"), ("ITE and cache", "src/bdd.cc")], ["report: sum-of-products"])
prop("C22", "Hostile inputs never crash the tool or corrupt memory",
     "For any bytes given as input, project file or command-line arguments, the tool terminates with status 0 or 1 - never a signal, assertion failure, sanitizer report (memory error or undefined behaviour) or unexplained exit - and a failure comes with a diagnostic.",
     ["inputs", "configurations"], "over arbitrary, malformed, mutated and oversized inputs and arguments",
     "Tests feed a few curated files, and without sanitizers.",
     ["src/xml.cc", "src/xml.h", "src/initializer.cc", "src/project.cc", "src/scram.cc", "src/element.cc", "src/expression/"],
     [("schema validation before extraction", "src/initializer.cc"), ("exception to exit status mapping", "src/scram.cc")], ["exit status, sanitizer output"])
prop("C23", "GUI editing is faithfully undoable and redoable",
     "After any sequence of GUI editing commands (add, remove, rename, relabel, retype, change expression, flavor, state or formula, fault trees, model name), undoing restores the exact previous model and redoing the exact later one; the proxy model, "
     "the core model and the emitted change notifications stay in agreement throughout.",
     ["histories"], "over every sequence of commands interleaved with undo and redo",
     "The Qt tests run one command at a time on one element.",
     ["gui/model.h", "gui/model.cpp", "gui/command.h", "src/model.cc", "src/fault_tree.cc", "src/event.cc", "src/element.cc"],
     [("command objects with redo/undo swaps", "gui/model.h"), ("element tables", "src/model.h")], ["core model dump, signals"])
prop("C24", "GUI tables show the model they are attached to",
     "The element, product and importance tables always present exactly the rows and cell values of the underlying model or analysis results, updating rows and announcing changes through every command, undo and redo; sorting and filtering are permutations and subsets of those rows.",
     ["histories", "inputs"], "over every command history and analysis result",
     "No existing test instantiates the table models.",
     ["gui/elementcontainermodel.cpp", "gui/producttablemodel.cpp", "gui/importancetablemodel.cpp", "gui/modeltree.cpp", "gui/reporttree.cpp"],
     [("row insertion and swap-removal", "gui/elementcontainermodel.cpp")], ["QAbstractItemModel interface"])
prop("C25", "GUI main window edits reach the model and the saved file",
     "What the user enters in the event dialog and main window - new elements of every type, edits, deletions, renames - is what the model contains, what an analysis uses and what a saved file reloads to; invalid entries cannot be accepted, and input is never lost or altered by saving (labels are stored with collapsed white space; changing the type of an event replaces it by a new element).",
     ["histories", "inputs"], "over every sequence of dialog interactions with valid and invalid data",
     "No existing test opens the main window or the event dialog.",
     ["gui/mainwindow.cpp", "gui/eventdialog.cpp", "gui/validator.cpp"],
     [("dialog data extraction", "gui/mainwindow.cpp"), ("dialog validation", "gui/eventdialog.cpp")], ["saved MEF file"])
prop("C26", "Generated fault trees are valid and as requested",
     "For every accepted set of factors and seed (with legal names that do not look like the generated ones), the fault tree generator emits a document that scram accepts and that has the requested names, number of basic events, house events and CCF groups, probability bounds and gate types; its summary matches the document, the same seed gives the same tree, the Aralia output denotes "
     "the same tree, and unacceptable factors are refused.",
     ["configurations"], "over all generator options and seeds",
     "The pytest suite checks factor setters and a few runs, not that the output has the requested meaning.",
     ["scripts/fault_tree_generator.py", "scripts/fault_tree.py"],
     [("generation with constraints", "scripts/fault_tree_generator.py"), ("XML and Aralia printers", "scripts/fault_tree.py")], ["generated files"])
prop("C27", "Results do not depend on how the model is written down",
     "Permuting declarations, splitting the model over several files, reordering those files, renaming elements consistently, adding unused elements, moving elements into components with equivalent references, or rewriting arguments in another order leaves every analysis result unchanged. "
     "Public and private names resolve as the exchange format prescribes: innermost scope first, otherwise public or full path.",
     ["inputs"], "over every model and every such rewriting of it",
     "Tests load each model in one written form.",
     ["src/initializer.cc", "src/model.cc", "src/fault_tree.cc", "src/element.cc"],
     [("deferred definition after registration", "src/initializer.cc"), ("path and id tables", "src/model.h")], ["reports of the two forms"])
prop("C28", "Output failures are reported",
     "If the report, or the serialised model, cannot be written completely - destination missing, not writable, a directory, or the device full at any point - the tool says so and exits with status 1; it never exits 0 leaving a missing or truncated report, and never alters its input files (other than an input file that is itself named as the destination).",
     ["fault_sequences", "crash_points"], "over every failing system call position while writing the output, and every bad destination",
     "One test covers a missing directory; write errors at later points cannot be sampled by it.",
     ["src/reporter.cc", "src/xml_stream.h", "src/serialization.cc", "src/scram.cc"],
     [("stream error check", "src/xml_stream.h")], ["exit status vs. file content"])
prop("C29", "External code runs only when explicitly allowed",
     "A model naming external libraries or functions is rejected without loading anything unless external libraries are explicitly allowed on the command line; when allowed, declared signatures are called with the given arguments in order and their results used, and undefined libraries, symbols or mismatched arguments are rejected.",
     ["inputs", "configurations"], "over every model with external constructs, signature and argument list",
     "Tests check the refusal on one file; a library loaded before the refusal would go unnoticed.",
     ["src/expression/extern.cc", "src/expression/extern.h", "src/initializer.cc"],
     [("allow-extern guard", "src/initializer.cc"), ("typed function table", "src/initializer.cc")], ["side effects of a canary library, report"])
prop("C30", "Analyses in one process do not influence each other",
     "Running any sequence of loads and analyses with varying settings in one process gives, for each, the same results as running it alone in a fresh process; analysing a model leaves the model itself unchanged.",
     ["histories"], "over every sequence of models and settings analysed in one process (as the GUI does)",
     "Every command-line test is a single analysis in a fresh process.",
     ["src/risk_analysis.cc", "src/event_tree_analysis.cc", "src/settings.h", "src/expression/random_deviate.cc", "src/pdag.cc", "gui/mainwindow.cpp"],
     [("scoped state restoration", "src/risk_analysis.cc"), ("static caches", "src/initializer.cc")], ["in-process reports vs. fresh reports"])
prop("C31", "GUI validators accept exactly the valid entries",
     "The GUI's name, percentage, probability and non-negative-number validators accept exactly the entries the model accepts: legal identifiers (a letter followed by letters, numbers, underscores and single inner dashes, in any script, as far as XML names allow the characters), positive integer percentages, numbers in [0,1] and non-negative finite numbers.",
     ["inputs"], "over all strings",
     "The existing Qt data rows sample some dozens of strings.",
     ["gui/validator.cpp"], [("regular expressions and double validators", "gui/validator.cpp")], ["QValidator::validate result"])
prop("C32", "GUI fault tree diagrams picture the model",
     "An open fault tree diagram always pictures the current model below its gate: every event with its identifier and label under the symbol of its kind, every gate with the symbol of its connective (and its vote) linked to its arguments from left to right without overlaps; a gate used several times is drawn once, marked as "
     "transferred, and shown as a transfer elsewhere. It follows every edit, undo and redo, is empty once its gate is removed, and a double click activates exactly the event clicked; exported pictures show the same, and zoom levels never fall below the minimum.",
     ["histories", "inputs"], "over every fault tree of the connectives the GUI offers and every history of edits",
     "No existing test draws a diagram.",
     ["gui/diagram.cpp", "gui/diagramview.cpp", "gui/zoomableview.cpp", "gui/model.h"],
     [("recursive drawing with a transfer map", "gui/diagram.cpp"), ("redrawing upon formula and flavor changes", "gui/diagram.cpp")], ["QGraphicsScene items, signals, exported SVG"])
prop("C33", "GUI sessions keep recent files, preferences and searches",
     "The recent-files menu and start page list the files opened last, each once, newest first, at most five, open what they name, survive into the next session and can be cleared; files that could not be opened are not added. The preferences dialog shows the preferences chosen; the auto-save interval is in force at once, the undo limit as soon as "
     "the undo history is empty (then only that many commands can be undone), the language in the next session (or the system's language if none was chosen), and all survive. Auto save writes a modified model with exactly one file to that file, and otherwise touches no file. The search bar shows, for each table of its own, exactly the rows whose name matches.",
     ["histories", "inputs"], "over every history of sessions and every order of user actions in them",
     "No existing test starts the main window or its preferences.",
     ["gui/main.cpp", "gui/mainwindow.cpp", "gui/preferencesdialog.cpp", "gui/language.cpp", "gui/translations"],
     [("list of recent files", "gui/mainwindow.cpp"), ("auto save and undo limit", "gui/preferencesdialog.cpp"), ("installing translators", "gui/main.cpp")], ["menus, dialogs and tables of the running program", "user settings and files after each session"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
