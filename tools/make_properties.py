"""Writes /verif/properties.jsonl (kept as a script so that the long text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})


CTX = "fca/context.py"
prop("C01", "Context edits behave as edits of one named binary table",
     "After any sequence of adding, deleting, renaming and replacing objects, attributes, rows and columns, a context (a scale is one too) shows exactly the names, size, incidences, rows, columns and object-attribute pairs that the same edits give on a plain named table; names stay pairwise distinct (clashing names are told apart by a position suffix) and unrelated entries never change. "
     "An edit that is refused (unknown name, wrong length) leaves the context exactly as it was, and a table that does not fit its names is refused when the context is made. "
     "The context compares equal to a freshly built context exactly when both hold the same named relation, whatever the order of rows and columns.",
     ["histories", "fault_sequences", "inputs"],
     "every history of edits, valid and refused, from any start table (including empty ones), with any names",
     "Tests apply two short fixed histories to one table and look at one cell; emptying a context, clashing names, refused edits and long mixes of row and column edits are never reached.",
     [CTX], [("re-initialisation after every edit", CTX + ": add_*/set_*/delete_*/rename_* ending in __init__"), ("name uniquifier", CTX + ": Context.__init__")],
     ["Context.objects/attributes/table/cross_table/get_*", "len(), [], ==, object_attribute_pairs"],
     [("np_table/cross_table", "the relation, twice", CTX), ("object_indices/attribute_indices", "name -> position", CTX)])

prop("C02", "Derivation and closure queries always answer for the current table",
     "At every point of any editing history, every derivation and closure query (rows, columns, common attributes of objects, common objects of attributes, closures, their index forms and their counting forms) returns exactly what the definition gives for the table as it is at that moment; a question about a name that is not, or no longer, in the table is refused. "
     "Answers do not depend on what was asked before, in which order sets happen to be iterated, or on which equivalent entry point is used.",
     ["histories", "schedules", "inputs"],
     "every history mixing edits and queries; every iteration order of the sets involved",
     "Tests query a closure only on freshly built random contexts; staleness after an edit and dependence on set order cannot show.",
     [CTX, "fca/algorithms/closure_operators.py"],
     [("prime operators over the bit matrix", CTX + ": oprime/aprime/oclosure/aclosure/associative_*"), ("set based operators", "fca/algorithms/closure_operators.py: oprime, aprime, oclosure, aclosure")],
     ["return values of the query methods"],
     [("memoised row/column lookups during basis computation", "may outlive the table they were taken from", CTX + ": basis_computation")])

prop("C03", "Concept enumeration is complete, duplicate free and correctly ordered",
     "For the table as it is when asked, the concepts of a context are exactly its formal concepts, each once; the concept lattice's top, bottom, up-sets, down-sets, parents and children are exactly those of the inclusion order. "
     "The same holds for incremental enumeration: each concept is handed out once, with its final intent and extent, however many enumerations of the same or other contexts are advanced in any interleaving, and abandoning one at any point disturbs neither the context nor the others.",
     ["histories", "schedules", "inputs"],
     "every table reached by edits; every interleaving and early abandonment of concurrent enumerations; every set order",
     "The only lattice test checks that two concepts are present in one fixed lattice.",
     ["fca/algorithms/norris.py", "fca/concept_lattice.py", "fca/concept_system.py", "fca/concept.py"],
     [("Norris' incremental algorithm", "fca/algorithms/norris.py: iterative_norris"), ("covering relation", "fca/algorithms/norris.py: compute_covering_relation; fca/concept_system.py")],
     ["Context.concepts, iterate_concepts(), concept_lattice; ConceptSystem/ConceptLattice queries"],
     [("partially built extents", "extents grow while the enumeration is suspended", "fca/algorithms/norris.py")])

prop("C04", "Every implication basis is the canonical one for the current table",
     "At every point of any editing history, each way of computing the attribute implications of a context (all-at-once, incremental over attributes, step by step) and the object implications returns, without repetition, exactly the canonical basis of the current table. "
     "Given confirmed background implications that hold in the table, in any order and with repetitions, it returns exactly the canonical basis relative to them, and the background list is not modified. "
     "Suspending, interleaving or abandoning step-by-step computations changes nothing, and with a condition on premises that holds for all subsets of a premise it holds for, exactly the implications of the basis that satisfy it are computed.",
     ["histories", "schedules", "inputs"],
     "every table reached by edits, every background list (order, duplicates), every set order, every interleaving of suspended computations",
     "Tests compare only the lengths of two bases on a handful of random contexts and one 13x9 table.",
     ["fca/algorithms/dg_basis.py", "fca/algorithms/aibasis.py", CTX, "fca/algorithms/closure_operators.py"],
     [("Ganter's algorithm", "fca/algorithms/dg_basis.py: generalized_compute_dg_basis, generalized_dg_basis_iter"), ("attribute-incremental algorithm", "fca/algorithms/aibasis.py"), ("memoisation around a basis computation", CTX + ": basis_computation")],
     ["Context.attribute_implications, object_implications, get_attribute_canonical_basis(), attribute_implications_iter(), compute_dg_basis*()"],
     [("shared mutable implications", "premises are changed in place while the basis is built", "fca/algorithms/aibasis.py")])

prop("C05", "Concurrent queries on one shared context equal sequential ones",
     "When several threads query the same unmodified context at once (concepts, lattices, bases, closures, factors, derived contexts), every query returns what it would return alone, none fails, and no thread interleaving leaves anything behind that makes a later query or edit misbehave.",
     ["schedules", "inputs"],
     "every thread interleaving of any mix of read-only queries on one context",
     "No test starts a second thread; the window in which a query temporarily changes the context is a few instructions wide.",
     [CTX, "fca/algorithms/norris.py", "fca/algorithms/dg_basis.py", "fca/algorithms/aibasis.py"],
     [("memoised lookups confined to one computation", CTX + ": basis_computation, memo")],
     ["results and exceptions per thread; queries and edits after all threads ended"],
     [("per-context lookup functions", "replaced while a basis is computed", CTX + ": basis_computation")])

prop("C06", "A failed or interrupted query leaves no trace",
     "If a query on a context or lattice is cut short at any point - by an interrupt, by memory exhaustion, by a failing caller-supplied condition or basis function, or by dropping a half-consumed iterator - the failure itself reaches the caller and is never turned into a wrong answer. "
     "The context is unchanged and every later query and edit behaves as if the failed query had never been made.",
     ["crash_points", "fault_sequences", "histories"],
     "every instruction at which a query can be interrupted; every callback failure; any history afterwards",
     "No test makes a query fail, so clean-up paths never run.",
     [CTX, "fca/algorithms/dg_basis.py", "fca/algorithms/aibasis.py", "fca/algorithms/filtering/probability.py"],
     [("query-local state only", CTX + ": basis_computation"), ("narrow exception handlers", "fca/algorithms/filtering/probability.py")],
     ["exception at the caller; later queries and edits"],
     [("memoised lookups", "survive if the computation raises", CTX + ": basis_computation")])

prop("C07", "Independent work in parallel does not interfere",
     "Threads or interleaved tasks that work on separate contexts, explorations and files - editing, querying, computing bases, exploring, saving and loading - each get exactly the results they would get alone, whatever the interleaving and whatever happened earlier in the process.",
     ["schedules", "histories"],
     "every interleaving of tasks that share no object",
     "No test runs two jobs at once; module level state shared by all calls is only visible then.",
     ["fca/readwrite/xml_.py", CTX, "fca/algorithms/exploration_/exploration.py", "fca/concept_system.py"],
     [("no module level mutable state", "fca/readwrite/xml_.py: parser state; default arguments across the package")],
     ["per task results"],
     [("parser state of the XML reader", "kept per call", "fca/readwrite/xml_.py")])

EXP = "fca/algorithms/exploration_/exploration.py"
prop("C08", "Exploration never lets examples and confirmed knowledge contradict",
     "After any sequence of exploration steps - confirming, withdrawing, adding, editing, deleting and renaming examples and attributes, stale, repeated, reordered or bogus expert answers included - every example satisfies every confirmed implication and example and attribute names are distinct; the two-sided exploration is no exception. "
     "The open questions of a database of examples are at every moment exactly the canonical basis of the current examples relative to the confirmed implications.",
     ["histories", "fault_sequences", "inputs"],
     "every history of exploration operations with a faulty (lying, repeating, late, crashing) expert",
     "Tests take one step of each kind from one 4x4 table; no test deletes, renames or edits anything, or answers late or twice.",
     [EXP, CTX, "fca/implication.py"],
     [("conflict checks before each change", EXP + ": _check_intents"), ("recomputation after each change", EXP + ": base_modifier, context_modifier")],
     ["ExplorationDB.objects/attributes/base/open_implications and the underlying context"],
     [("_implications", "confirmed background knowledge", EXP), ("_cxt_implications", "cached open questions", EXP)])

prop("C09", "A refused exploration step changes nothing",
     "If an exploration step is refused or its expert fails - not a counterexample, conflict with confirmed knowledge, name already in use, unknown name, expert error - then examples, attributes, confirmed implications and open questions are exactly as before, and the next valid step works.",
     ["histories", "fault_sequences"],
     "every refused or failing step at every point of an exploration history",
     "Two tests check only the number of examples after one refused step.",
     [EXP, "fca/partial_context.py"],
     [("validate before modify", EXP + ": add_example, edit_example, edit_attribute, confirm_implication")],
     ["full exploration state before and after the refused step"])

prop("C10", "Exploration with a truthful expert converges to the expert's theory",
     "With an expert who eventually answers truthfully, exploration reaches a state without open questions within a bounded number of steps, whatever the order in which open questions are answered and however many answers were lost, repeated, late or refused before. "
     "Then the confirmed implications are sound and complete for the expert's theory, and the implications of the collected examples are exactly that theory.",
     ["histories", "schedules", "fault_sequences"],
     "every expert theory, initial example set, answering order and finite fault sequence",
     "One test runs one 3x4 exploration with answers in one order and no faults.",
     [EXP, "fca/algorithms/exploration.py", "fca/algorithms/exploration2/exploration.py", "fca/algorithms/exploration2/examples/numbers.py", "fca/algorithms/dg_basis.py", "fca/algorithms/closure_operators.py"],
     [("relative basis as agenda", EXP + ": AttributeExploration"), ("closure under confirmed implications", "fca/algorithms/closure_operators.py")],
     ["open_implications, base, context at termination; number of steps"])

prop("C11", "Two-sided exploration keeps attribute and object knowledge consistent",
     "In the step-by-step exploration that handles attribute and object implications together, after any sequence of confirmations, counterexamples, additions and edits every confirmed attribute implication holds in every example and every confirmed object implication holds for every attribute. "
     "The listed questions are exactly the canonical bases of the context and of its transpose without the confirmed implications, a wrong counterexample is refused without any change, and the context passed in at the start is never modified.",
     ["histories", "fault_sequences"],
     "every history of two-sided exploration steps, valid and bogus",
     "This class has no test at all.",
     ["fca/algorithms/exploration.py", CTX],
     [("conflict checks", "fca/algorithms/exploration.py: check_intent_for_conflicts, check_extent_for_conflicts"), ("recompute_basis", "fca/algorithms/exploration.py")],
     ["BasicExploration.context, attribute_implications, object_implications, confirmed_*"])

prop("C12", "Exploration sessions are consistent and isolated from each other",
     "Within an exploration session every object satisfies all accepted implications whenever each implication was valid when accepted, candidates are exactly the canonical basis relative to the accepted ones, and refused counterexamples change nothing. "
     "Sessions created from one exploration do not influence each other or the exploration, however their steps interleave, and the lists and sets handed out can be changed without changing the session.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of steps of several sessions, valid and refused",
     "Two tests only construct a session and count its objects.",
     ["fca/algorithms/exploration2/exploration.py"],
     [("background check on add_object", "fca/algorithms/exploration2/exploration.py"), ("copies on read", "fca/algorithms/exploration2/exploration.py")],
     ["ExplorationSession.context, get_candidates, get_accepted_implications"])

prop("C13", "Partial examples stay consistent and completion is exact",
     "In a context of partially known examples, what is certain is always included in what is possible. Completing under confirmed implications makes certain exactly what they force and drops exactly the possibilities they exclude, changes nothing when repeated, and when it is impossible it is refused leaving all examples as they were. "
     "Exploration with partial examples and a truthful expert ends within a bounded number of steps with exactly the expert's theory confirmed, whatever parts of the counterexamples were withheld.",
     ["histories", "fault_sequences", "inputs"],
     "every history of partial examples, confirmations and refusals; every choice of withheld information",
     "Nothing tests partial contexts.",
     ["fca/partial_context.py", "fca/compare_context.py", "fca/algorithms/dg_basis.py", EXP],
     [("x within q", "fca/partial_context.py: __init__, add_object_with_intent"), ("completion", "fca/partial_context.py: complete")],
     ["PartialContext.intents(), x_context, q_context, open implications"])

prop("C14", "Pattern exploration never keeps a pattern that its examples refute",
     "After any sequence of confirming patterns and adding positive and negative examples, every confirmed pattern occurs in some positive and in no negative example; patterns and examples that would break this are refused and change nothing. "
     "Every proposed pattern occurs in a positive and in no negative example, examples are reported unexplained exactly when they contain no confirmed pattern, and unconfirmed patterns are ranked by how many unexplained examples they cover.",
     ["histories", "fault_sequences"],
     "every history of pattern confirmations and positive and negative examples, valid and conflicting",
     "Nothing tests pattern exploration.",
     ["fca/algorithms/patterns.py", CTX],
     [("occurrence checks", "fca/algorithms/patterns.py: confirm_pattern, add_negative_example"), ("is_explained", "fca/algorithms/patterns.py")],
     ["confirmed_patterns, positive/negative contexts, iterate_* results, exceptions"])

RW = ["fca/readwrite/cxt.py", "fca/readwrite/tab_separated.py", "fca/readwrite/comma_separated.py", "fca/readwrite/xml_.py"]
prop("C15", "Saved data loads back identical, however the I/O is split",
     "Whatever is saved - contexts as cxt, many-valued contexts as tab separated text, concept systems with their annotations as XML - loads back equal: same names in the same order, same incidences or values, same concepts and annotations; documents in the tab and comma separated text formats load as the table they spell out. "
     "This holds however reads and writes are split by the operating system, whatever text encoding the machine uses by default, over any history of overwriting and reloading, and loading never executes or interprets a name beyond plain literals.",
     ["inputs", "fault_sequences", "histories"],
     "every storable context, every split of reads and writes, every save/load history on one path",
     "One test reads one file; no writer is tested, and most readers and writers are never run.",
     RW, [("line oriented format", "fca/readwrite/cxt.py"), ("csv based readers", "fca/readwrite/tab_separated.py, comma_separated.py"), ("expat handlers", "fca/readwrite/xml_.py")],
     ["object returned by the readers"])

prop("C16", "A file cut short never loads as different data",
     "If saving a context as cxt or a concept system as XML is cut off at any byte by a crash, or the stored file is truncated later, loading the remains either fails with an error or returns exactly the data that were being saved; it never returns other data and never hangs. "
     "An error or an end of data met while reading is reported or harmless in the same sense.",
     ["crash_points", "fault_sequences", "inputs"],
     "every truncation point of every saved file; every crash point of a save; every read error",
     "No test reads a damaged file.",
     ["fca/readwrite/cxt.py", "fca/readwrite/xml_.py"],
     [("declared sizes and line ends checked", "fca/readwrite/cxt.py: read_cxt"), ("well-formedness", "fca/readwrite/xml_.py: read_xml")],
     ["reader result or exception"])

prop("C17", "A save that returns is complete; a save that fails says so and stays dead",
     "When saving or exporting returns normally, the complete data have been handed to the file and the file is closed. "
     "If any write, flush or close fails (disk full, I/O error), the caller gets an error, the file is closed, and after the fault is gone a repeated save to the same path succeeds and nothing left over from the failed attempt alters that file later.",
     ["fault_sequences", "crash_points", "histories"],
     "every I/O operation of a save that can fail, every kind of failure, any retry history",
     "No test makes an I/O operation fail.",
     ["fca/readwrite/cxt.py", "fca/readwrite/tab_separated.py", "fca/readwrite/xml_.py", "fca/readwrite/dot.py", "fca/readwrite/fimi.py"],
     [("file closed on every path", "with statements in fca/readwrite/*.py")],
     ["exception at the caller, bytes on the simulated disk, open handles"])

prop("C18", "Exported diagrams and transaction files say exactly what the data say",
     "A lattice exported as a diagram has exactly one node per concept, exactly the edges of the covering relation, and labels every object and attribute at its own concept and nowhere else (long label lists are replaced by their count). "
     "A context exported as transactions has one line per object, in order, listing exactly its attributes; all this independently of set order and of earlier exports.",
     ["schedules", "inputs", "histories"],
     "every lattice and context; every set order; every split of the writes",
     "No export is tested.",
     ["fca/readwrite/dot.py", "fca/readwrite/fimi.py"],
     [("own objects/attributes", "fca/readwrite/dot.py: find_own_objects, find_own_attributes"), ("covering edges", "fca/readwrite/dot.py")],
     ["bytes of the exported file"])

prop("C19", "Factorisation yields concepts that reproduce the table",
     "Each factor produced is a formal concept of the context and covers something new; the plain greedy factorisation reports with each factor the share of all crosses it newly covers; production stops as soon as the requested coverage is reached, and at full coverage, which is always reached, the product of the two factor contexts is the original relation without its empty rows and columns. Size conditions on factors are always respected. "
     "This holds for every tie-breaking caused by set order, for an empty relation, and for factorisations that are suspended, interleaved or abandoned.",
     ["schedules", "inputs"],
     "every table and coverage level, every set order (which decides ties), every interleaving of suspended factorisations",
     "Tests use a few contexts under one tie-breaking order; the weighted variant is never run.",
     ["fca/algorithms/factors.py", CTX],
     [("greedy cover", "fca/algorithms/factors.py: algorithm2, algorithm2_weighted, algorithm2_w_condition"), ("factor contexts", "fca/algorithms/factors.py: make_factor_cxts")],
     ["yielded factors and coverages, product of factor contexts"])

prop("C20", "Interest indices are exact and annotating leaves the lattice usable",
     "Stability, separation, probability and size indices of every concept have the value of their definition, whatever order concepts and sets are processed in. "
     "Annotating a lattice with any sequence of indices only adds the annotations: order queries, lookups and further indices keep giving the same answers. "
     "Filtering returns the best concepts by the chosen index: the requested number, those above the requested value, or at least the requested share.",
     ["schedules", "histories", "inputs"],
     "every lattice, every processing order, every history of annotating, filtering and querying",
     "No index or filter is tested.",
     ["fca/algorithms/filtering/stability.py", "fca/algorithms/filtering/filter.py", "fca/algorithms/filtering/probability.py", "fca/algorithms/filtering/separation.py", "fca/concept.py"],
     [("worklist over a set of concepts", "fca/algorithms/filtering/stability.py"), ("concept identity", "fca/concept.py: __eq__, __hash__")],
     ["index dictionaries, concept.meta, ConceptLattice queries, filter_concepts results"])

prop("C21", "Derived contexts are right and independent of their source",
     "Transposed, complementary, compound, product, sub-, clarified, reduced and copied contexts, scales made of a context and contexts made from another's table and names contain exactly what their definition gives for the source at that moment (reduction and clarification keep the lattice structure), for contexts of any width. "
     "Deriving never changes the source, and later edits of either side never show on the other.",
     ["histories", "inputs"],
     "every history of deriving, editing source and derived contexts, and querying both",
     "Tests derive from unmodified contexts and never edit afterwards; wide contexts are not used.",
     [CTX], [("copies on construction", CTX + ": Context.__init__, transpose, extract_*, complementary, compound, __mul__, clarify_objects, reduce_*")],
     ["tables and names of source and derived context"])

prop("C22", "Closure under implications is order, duplicate and set-order independent",
     "Closing an attribute set under a list of implications yields the least superset that satisfies them all, with each of the provided operators, whatever the order and multiplicity of the implications (as delivered by repeating or reordering experts), empty premises included, and whatever the iteration order of sets. "
     "Neither the set nor the implications passed in are modified, and the result is a new set that shares nothing with them.",
     ["schedules", "inputs", "histories"],
     "every list of implications with any order and repetition, every set, every set order",
     "Doctests of these functions do not run; the basis tests use lists without repetitions.",
     ["fca/algorithms/closure_operators.py", "fca/implication.py"],
     [("counting closure", "fca/algorithms/closure_operators.py: lin_closure"), ("fixpoint closure", "fca/algorithms/closure_operators.py: simple_closure")],
     ["returned sets, arguments after the call"])

prop("C23", "Many-valued data survive editing, selection and scaling",
     "A many-valued context returns exactly the values it was given, also after adding, deleting and renaming objects and attributes and after extracting parts by attributes or by values. "
     "Scaling it gives exactly the crosses defined by the scales for every object and scale attribute, whatever order sets are iterated in, and changes neither the data nor the scales.",
     ["histories", "schedules", "inputs"],
     "every history of edits, extractions and scalings, every set order",
     "No many-valued test passes on the pinned tree.",
     ["fca/mvcontext.py", "fca/scale.py", "fca/algorithms/scaling.py", CTX],
     [("value table", "fca/mvcontext.py"), ("scale expressions", "fca/algorithms/scaling.py, fca/scale.py")],
     ["table values, scaled contexts"])

prop("C24", "Incremental implication covers are equivalent for every arrival order",
     "Building an implication cover object by object gives, after every object and for every order in which objects arrive and sets are iterated, implications with exactly the closures of the examples seen so far; the cover it was extended from stays as it was. "
     "No implication is trivial or follows from a single other one; minimising a cover keeps its closures, leaves no redundant implication, and does not lengthen it.",
     ["histories", "schedules", "inputs"],
     "every sequence of examples in every order, every set order",
     "Implication covers are not tested.",
     ["fca/algorithms/implication_covers.py"],
     [("object-incremental update", "fca/algorithms/implication_covers.py: updated_basis"), ("minimize", "fca/algorithms/implication_covers.py")],
     ["closures of the returned cover"])

prop("C25", "Implications survive being written as text and parsed back",
     "The text form of an implication over plain names parses back to an equal implication of the kind it is parsed as, and equal implications have equal text and hash.",
     ["inputs"], "every implication over names without separators",
     "No test parses an implication.",
     ["fca/implication.py"], [("text form", "fca/implication.py: __repr__, str2imp, __hash__")],
     ["str(imp), Implication.str2imp"])

prop("C26", "Random contexts have the requested shape and density",
     "A random context has the requested numbers of objects and attributes, and each cross is present independently with the requested probability: the same for every cell, and independent of neighbouring cells, of other rows and columns and of earlier contexts.",
     ["inputs", "histories"], "every size and density, any sequence of contexts made",
     "Tests only use the generated contexts.",
     [CTX], [("make_random_context", CTX)], ["make_random_context"])

prop("C27", "Printed forms show the current data",
     "At every point of any editing history, the printed form of a context, concept, lattice, concept system, partial or many-valued context and exploration is the documented text for its data at that moment: every name, cross, value, annotation and implication in its place, whatever types of names are mixed. "
     "The text does not depend on the order in which sets are iterated, and printing changes nothing.",
     ["histories", "inputs", "schedules"],
     "every editing history with printings at any point, every mix of names, every set order",
     "Tests print nothing but a few contexts and concepts with sortable names.",
     [CTX, "fca/concept.py", "fca/concept_lattice.py", "fca/concept_system.py", "fca/partial_context.py", "fca/mvcontext.py", "fca/algorithms/exploration.py"],
     [("text forms", "__repr__ and __str__ of Context, Concept, ConceptSystem, ConceptLattice, PartialContext, ManyValuedContext, BasicExploration")],
     ["str(x), repr(x)"])

prop("C28", "Implications judge and compare by what they say",
     "An implication, unit or negative implication keeps the premise and conclusion it was made with, however the sets it was made from, the sets it hands out or its copies are changed later; a copy is of the same kind and equal. "
     "It is respected by an example exactly when the definition says so, for fully and partially known examples. "
     "Two implications are equal, hash and print alike exactly when they say the same, a negative one never equalling a positive one.",
     ["histories", "inputs", "schedules"],
     "every history of making, copying, comparing, collecting and judging implications, every set order",
     "No test makes a unit or negative implication, or copies or compares implications.",
     ["fca/implication.py"],
     [("kinds of implications", "fca/implication.py: Implication, UnitImplication, NegativeImplication")],
     ["is_respected, ==, hash, str, premise, conclusion, copy.deepcopy"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
