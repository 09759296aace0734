#!/usr/bin/env python3
"""Writes known_findings.json (run by hand when a finding is added; no check writes it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C01", "0d28874", "2-of-{x, x, z} simplified to x lost the cut set x.z's duplicate handling: wrong minimal cut sets"),
 ("C02", "aea101a", "assertion abort in preprocessing: NULL gates left over by filtering merge candidates"),
 ("C02", "8a67df3", "assertion abort in Boolean optimization: constants cleared while detached gates were alive"),
 ("C02", "c295358", "assertion abort in decomposition at a gate without timing information"),
 ("C02", "42ede37", "assertion abort: replaced root gate not marked as a module"),
 ("C02", "3a4d351", "assertion abort in multiple-definition processing: constants cleared with replaced gates alive"),
 ("C02", "ed30e8e", "assertion abort in BDD: proxy made for a constant module"),
 ("C02", "754a305", "assertion abort: NULL gate not registered again as a state-destination argument"),
 ("C02", "0bcad51", "assertion abort in merging common arguments: constants cleared with candidates alive"),
 ("C02", "c2e26bd", "assertion abort in ZBDD/MOCUS: root no longer a module after pulling up its only argument"),
 ("C06", "1088b98", "MIF, CIF, RAW, DIF, RRW had the wrong sign when the BDD root is complemented"),
 ("C20", "93f2026", "non-coherent modules lost products at the product order limit"),
 ("C20", "6bf5b28", "assertion abort / limit ignored with --limit-order 0 on a single-variable ZBDD"),
 ("C12", "70d1ae9", "valid beta and gamma deviates rejected as probabilities because of an overestimated interval"),
 ("C09", "4e66594", "a constant probability equal to a SIL bound counted in two bands (fractions summed to 2)"),
]
F += [("C11","2d06214","the complete periodic test aborted on rounding errors in the availability"),("C11","0c2d47b","NaN or aborts of periodic tests at extreme rates"),("C11","d4646e7","integer overflow of the number of test periods")]
F += [('C13', '6c9ffc6', 'crash (integer division by zero, escaping exception) when an invalid parameter was evaluated by the validation of an expression declared earlier')]
F += [('C12', 'b7878a5', 'abs, cosh, tan, mod and pow had domains not containing their own values')]
F += [('C12', '82b29b0', 'not, and, or, eq and df had domains not containing their own values')]
F += [('C22', 'e5c7353', 'std::terminate on a gamma deviate with denormal shape')]
F += [('C22', '9a4808e', 'undefined behaviour (and SIGFPE) on modulo of values outside int')]
F += [('C10', '46ef25e', 'event-tree paths that collect no formula were dropped from the disjunction of their sequence')]
F += [('C18', '13e6de9', 'product and event probabilities of a phase were reported at the full mission time'), ('C18', '420fc1a', 'a house event set twice in one phase leaked into the following phases')]
F += [('C19', 'bec0cff', 'non-declarative substitutions were not applied with MOCUS when the tree simplifies to a single event')]
F += [('C27', '71a8791', 'a basic event defined as a CCF-group member could not be referenced by its local or full path (the only references possible in a private scope)')]
F += [('C10', 'cc37d8f', 'the paths of an expression-only event tree all end in one sequence: the probabilities sum to 1.0000000000000002 and the analysis aborts')]
F += [('C22', 'ec8efc6', 'an expression-only event tree whose paths to one sequence sum to 1.7 aborts by assertion in probability_analysis.cc instead of a diagnostic with exit 1')]
F += [('C14', 'c5e6081', 'the report of any model with substitutions is invalid against share/report.rng (model-features/substitutions)')]
F += [('C14', '757d24d', 'an expression-only event tree analysed without probability is reported with an empty results element (schema-invalid)')]
F += [('C14', 'd2fbbcb', 'uncertainty results with few trials report confidence bounds below 0 or above 1 (schema-invalid)')]
F += [('C14', '05eac2a', '--uncertainty --num-trials 1 reports nan for the deviation, error factor and confidence range (schema-invalid)')]
F += [('C14', '32dca4c', '--sil with a mission time below one hour reports PFH-avg above 1 (schema-invalid)')]
F += [('C08', '36e06b6', 'uncertainty analysis aborts when a sampled total probability is 1.0000000000000002')]
F += [('C16', '3e985a6', 'the order of the results of several top gates of a fault tree depends on the memory layout of the process')]
F += [('C16', 'bc092bf', 'the order of the sequences of an initiating event in the report depends on the memory layout of the process')]
F += [('C16', '4421600', 'the order of products and rounded values (e.g., RRW) depend on the memory layout of the process through address-ordered sets of gates in the preprocessor')]
F += [('C15', 'b0b2dea', 'a Boolean constant in a formula was saved as a reference to an undefined event __true__/__false__, so the saved model could not be loaded')]
F += [('C15', '2a5cfdd', 'constant expressions were saved with six significant digits, so saving and loading changed the values (mission time 1234567 saved as 1.23457e+06)')]
F += [('C15', '801dfcb', "saving a model with an exponential expression over the system mission time (as the GUI's event dialog makes) aborted on an assertion")]
F += [('C15', 'e874d62', "attribute values with tabs or newlines and labels with carriage returns were changed by saving and loading; a label with ']]>' made the saved document malformed")]
F += [('C15', '23fec9e', 'serialising a model with alignments, substitutions or external libraries dropped them silently; other unsupported constructs aborted on an assertion')]
F += [('C17', '5d020bb', 'the analyses (probability, importance, uncertainty, ccf, sil) and prime implicants requested in a project file were never performed, because absent command-line flags reset them')]
F += [('C17', '6dc509a', 'NaN was accepted as mission time, time step and cut-off, from the command line (--mission-time nan) and from project files')]
F += [('C17', '4727d48', 'a project file with prime implicants run with --zbdd or --mocus terminated (SettingsError thrown from a noexcept setter)')]
F += [('C22', '7fb99fa', "empty attributes or texts (<file/>, version='') and CDATA sections aborted on assertions, text after a comment was dropped, numbers with a trailing line break were rejected")]
F += [('C22', 'e875da9', 'attribute values with references to declared entities aborted on an assertion; elements given by entities were silently ignored')]
F += [('C17', '633e598', 'the version requirement of a project overflowed int (0.4294967297.0 was taken for 0.1.0 and accepted)')]
F += [('C13', '663d486', 'min/max number above 65535 in a connective aborts the program')]
F += [('C01', '5781255', 'cardinality(min=1) over one argument crashes the analysis')]
F += [('C13', '98f5043', 'NaN (0/0 expression, nan/inf literal) accepted as a probability or parameter')]
F += [('C20', '9aaa361', 'BDD minimal cut sets lose products within the limit whose literals come before a non-coherent (may-be-unity) module; UNITY top lost at limit 0')]
F += [('C22', 'c376c50', 'uncertainty analysis with samples that overflow to NaN (beta-deviate 1e308) fails an assertion')]
F += [('C22', '5150787', '--preprocessor with --probability (or importance, uncertainty) crashes (null products)')]
F += [('C22', '1ffd1c0', '--version --verbosity 2147483647 loads an invalid enumeration value (undefined behaviour)')]
F += [('C28', '6d35cd8', 'a report or serialised model whose last (or only) buffer could not be written was lost with exit status 0')]
F += [('C30', '2563d89', 'the mission time in the settings of an analysis is ignored if the model was loaded with another one (GUI settings dialog)')]
F += [('C22', 'ca1667b', 'an alpha- or phi-factor CCF group with the only factor for level 1 aborted the analysis (assertion; without assertions, an internal validity error)')]
F += [('C07', '5636991', 'an alpha-factor CCF group with the only factor for level 1 was refused for an addition of a single argument')]
F += [('C26', 'bec73cc', 'the generator accepted NaN probabilities, percentages, parents and NaN or infinite weights')]
F += [('C26', '34f5633', '-g with unsatisfiable or generous numbers of gates ended with AssertionError or ZeroDivisionError')]
F += [('C26', '1b70998', 'large common-g and parents-g with few arguments (ratio of basic events to gates not positive) hung the generator')]
F += [('C26', '8c5de14', '-a 2 --weights-g 1 0 1 ended with ValueError: empty range')]
F += [('C26', '0f28b49', '--num-house with only the top gate able to take arguments hung the generator')]
F += [('C26', 'fc3d27e', 'the generator made fewer CCF groups than --num-ccf')]
F += [('C26', '7772fcd', 'a generated fault tree of a single gate ended with ZeroDivisionError in the summary')]
F += [('C26', 'a6f0a50', "the generator exceeded --num-basic, failed assertions about orphans or never ended, e.g. with only '-b 8 --seed 403'")]
F += [('C26', '55100f0', '--nest wrote formulas with the same event twice (plain and negated), which scram refuses')]
F += [('C26', '5ad6c9e', '-b 8 -a 3 --common-b 0.5 -g 16 ended with ZeroDivisionError (common factor equal to the minimum)')]
F += [('C23', '512f62c', "undo of a flavor change loses the event's original flavor attribute")]
F += [('C24', 'fccae5a', "the element tables announced the removal of the last row instead of the removed element's row, so proxies and views kept indexes (and gate children) of a removed element (assertion failure in GateContainerModel::parent)")]
F += [('C24', 'a13bf23', 'GateContainerModel did not announce that the child rows of the gates change when an argument event is renamed')]
F += [('C24', '5278d1f', 'GateContainerModel emitted dataChanged before its reset on a formula change, so a sorting proxy exposed children that no longer exist (std::out_of_range)')]
F += [('C31', 'b486e23', "GUI number validators accepted text that the dialogs convert to 0: '1,000' for the rate; '0,5' for a probability under a decimal-comma locale")]
F += [('C31', '613f1ed', 'the GUI name validator accepted names (e.g. with the micro sign or a superscript two) whose saved file the schema refuses')]
F += [('C25', '524d32b', 'adding an at-least gate in the event dialog lost the min number (invalid formula, exception)')]
F += [('C25', '1982ea3', 'the event dialog showed min 2 for at-least gates with a larger min and stored it upon OK')]
F += [('C25', '8906459', 'accepting the event dialog without a change rounded the probability or rate to six digits')]
F += [('C25', '736f749', "the model name dialog accepted incomplete names like 'a-'; the saved file was refused by scram")]
F += [('C25', '7417348', "the add-argument button accepted incomplete names like 'a-' as arguments; the saved file was refused by scram")]
F += [('C25', 'd82bcec', 'a failed save left its temporary file next to the destination')]
F += [('C25', '3adf02f', 'a label with pasted control characters made the saved file ill-formed')]
F += [('C25', 'dcb2198', 'opening a project with an invalid model let the validity error escape (internal error)')]
F += [('C25', 'f8068bd', 'changing the rate of an exponential in the event dialog replaced its time argument with the mission time')]
F += [('C25', '73695cc', 'editing a basic event with a system-mission-time expression failed an assertion in the event dialog')]
F += [('C25', '3a43aaa', 'accepting the settings dialog reset the cut-off, uncertainty, SIL, seed etc. of an opened project, and clamped its mission time and limit order')]
F += [('C25', 'cde08ac', 'changing the type of an event that is defined inside a fault tree to a gate ends the GUI with an uncaught Duplicate Element Error; the tables of the tree keep dangling pointers to removed events')]
F += [('C21', 'b17cb8d', 'the ZBDD conversion of a gate with more than 16 terminal arguments (--zbdd --limit-order 1) crashed')]
F += [('C33', '9fcabc1', 'undo limit chosen with a non-empty undo history: never in force in that session, and the preferences dialog went on showing the old one')]
KNOWN = [
 ('C22', 'deep-gate-100000:stack-overflow', 'analysing a fault tree whose gates form a chain 100,000 levels deep overflows the stack (recursive preprocessing; SIGSEGV)'),
 ('C22', 'deep-parameter-100000:stack-overflow', 'loading parameters that refer to each other in a chain 100,000 levels deep overflows the stack (recursive validation; SIGSEGV)'),
 ('C22', 'deep-expression-100000:stack-overflow', 'loading an expression nested 100,000 levels deep overflows the stack (recursive construction; SIGSEGV)'),
 ('C10', 'tfe-in-collected-expression', 'test-functional-event inside a collected expression is evaluated after the walk, when no functional event has a state, so it is always false'),
]
out = [{"property": p, "key": None, "status": "fixed", "commit": c, "what": w, "text": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in F]
out += [{"property": p, "key": k, "status": "known", "what": w} for p, k, w in KNOWN]
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
