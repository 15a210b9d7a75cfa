"""Writes properties.jsonl and MANIFEST.json (run from /verif with any python3)."""
import json

U = "asyncapi3/validators/unified_references_validator.py"
UT = "asyncapi3/validators/utils.py"
TV = "asyncapi3/validators/tags_ref_validator.py"
EV = "asyncapi3/validators/external_docs_ref_validator.py"
ROOT = "asyncapi3/models/asyncapi.py"
BM = "asyncapi3/models/base_models.py"
HELP = "asyncapi3/models/helpers.py"
M = "asyncapi3/models/"
ALLM = [M + x for x in ("asyncapi.py", "base.py", "base_models.py", "channel.py", "components.py", "info.py", "message.py",
                        "operation.py", "schema.py", "security.py", "server.py", "bindings/")]

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None, technique="", note=""):
    assert len(title) <= 80, (pid, len(title))
    assert len(statement.split(". ")) <= 3, pid
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, technique, note))


STATELESS = "stateless exhaustive exploration of the implementation: every resolution of a bounded choice tree, each execution compared with a reference model"
BFS = "explicit-state breadth-first search over operation histories of the real objects, in lockstep with a reference model"
PARSE = ["parsing a document with validators attached: accepted or a validation error"]

prop("C01", "Dangling internal references are rejected wherever they sit",
     "A document parsed with the unified reference validator is rejected whenever any reference in it that starts with # points at "
     "nothing in the document. This holds at every place where the specification allows a Reference Object, at any depth, "
     "whatever stands beside it and whatever else is right in the document.",
     ["inputs"], "every reference position of the document grammar x every shape of dangling pointer x state of the target collection x surroundings",
     "About ten validator tests plant one dangling pointer at a handful of the 354 positions; a traversal that skips one member, one "
     "list index or one nested collection passes all of them.",
     [U, UT], [("traversal of models, lists and maps", U + ":_check_object"), ("pointer resolution", UT + ":resolve_reference")], PARSE,
     technique=STATELESS, note="Bounded: one dangling reference per document (pairs in C05), 40+ pointer shapes, 6 surroundings; list-free pointers.")
prop("C02", "References to an object of the wrong kind are rejected wherever they sit",
     "A document parsed with the unified reference validator is rejected whenever an internal reference denotes, directly or through "
     "other references, an object of a kind other than the one its position calls for, or something that is no referenceable "
     "object at all. Names the author chose for map entries never change which kind a position calls for.",
     ["inputs"], "every reference position x every list-free place of the grammar as target x aliases x map entry names that read like members",
     "The expected kinds come from about 90 ranked wildcard path patterns; tests touch some twenty paths, and never entry names "
     "that collide with member names nor the interaction of overlapping patterns.",
     [U, UT], [("expected kind by most specific pattern", U + ":REFERENCE_TYPE_MAPPINGS, _get_expected_type"), ("kind comparison", U + ":_is_type_compatible")],
     PARSE, technique=STATELESS, note="Bounded: all 354 positions x representatives of every kind (thorough: x all ~1800 targets), alias depth 2.")
prop("C03", "Documents whose references are all right are never rejected",
     "A legal document in which every internal reference leads to an object of the right kind is accepted by the unified reference "
     "validator. This holds wherever the reference and its target stand, through aliases, however map entries are named, and "
     "with any number of other right references in the document.",
     ["inputs"], "every reference position x every place holding a right kind x aliases x entry names x surroundings x pairs of references, and every place of the grammar without references",
     "False rejections need a specific position, target and name to meet; tests parse one example document per object kind.",
     [U, UT], [("pattern table must cover every position", U + ":REFERENCE_TYPE_MAPPINGS"), ("lookup by either spelling and map entry", UT + ":_resolve_path_part")],
     PARSE, technique=STATELESS, note="Bounded: documents with one or two references of interest over a decoy document; names from a ~330 entry alphabet.")
prop("C04", "Chains of references are followed to their end and cycles are rejected",
     "When references lead to other references, the unified validator judges the final object of the chain: its kind decides, a "
     "dangling or external end is treated as such, and a cycle of any length is rejected. Validation always terminates with an answer.",
     ["inputs"], "every graph of up to 3 (4, 5) named references of each kind over all edge targets, and chains and cycles up to length 60 (250), and of 1100",
     "Tests hold one two-step cycle and one alias; whether every graph shape gets the right verdict is a statement over all graphs.",
     [UT, U], [("visited set per resolution", UT + ":_initialize_visited_refs"), ("recursive following", UT + ":resolve_reference")], PARSE,
     state=[("visited references", "what one resolution has followed so far", UT)],
     technique="exhaustive enumeration of all reference graphs up to a size bound, verdict compared with a graph oracle", note="Chains up to 250, and of 1100 (longer than the call stack).")
prop("C05", "External references are accepted, reported and hide nothing",
     "A reference to an http or https address is accepted by the unified validator at every position, with a logged warning that names "
     "it, and a document containing such references is still rejected for any other bad reference, before or after it. A "
     "reference that is neither an internal pointer nor such an address is rejected.",
     ["inputs"], "every reference position x external addresses x surroundings, x a defect at other positions, x other reference forms",
     "Tests use one external reference at a time and no second defect.",
     [UT, U], [("external shortcut", UT + ":_is_external_reference"), ("no early exit from the traversal", U + ":_check_reference")], PARSE + ["log records"],
     technique=STATELESS, note="Bounded: 12 external addresses, 24 other forms, one second defect at 8 (48) other positions.")
prop("C06", "The tag reference check accepts exactly the documents with right tag references",
     "With the tag reference validator, a document is accepted exactly when each internal reference that stands for a tag, anywhere "
     "in the document, names an entry defined under the components' tags. References to other documents are accepted with a "
     "warning, and references standing for anything else are not judged.",
     ["inputs"], "every tag position x reference forms x collection states x names x second references, and every other position with a dangling reference",
     "Tests cover each collection once with one right and one wrong name; nested hosts, prefix-like names and combinations are not reached.",
     [TV], [("one visitor per tag host", TV), ("entry name after the fixed prefix", TV + ":validate_internal_tag_ref")], PARSE, technique=STATELESS,
     note="Bounded: 44 reference forms, ~200 (330) names, two references per document.")
prop("C07", "The external-documentation reference check accepts exactly right documents",
     "With the external-documentation reference validator, a document is accepted exactly when each internal reference that stands for "
     "external documentation outside protocol bindings names an entry defined under the components' externalDocs. References to "
     "other documents are accepted with a warning, and references standing for anything else are not judged.",
     ["inputs"], "every external-documentation position x reference forms x collection states x names x second references, and every other position with a dangling reference",
     "Some thirty hand-written visitors each cover one host; a skipped host or an early return needs a document per host and state.",
     [EV], [("one visitor per host", EV), ("entry name after the fixed prefix", EV + ":validate_internal_external_doc_ref")], PARSE, technique=STATELESS,
     note="Bounded as C06. Protocol bindings are outside the validator's documented scope.")
prop("C08", "Validators only look at the document",
     "Applying any of the reference validators to a document returns that very document, changes no object, member or list in it, and "
     "gives the same verdict and message every time it is asked. A list of validators accepts exactly the documents each of "
     "them accepts, whatever their order.",
     ["inputs", "histories"], "every reference position x 8 states of the reference x all 20 validators asked three times; lists and orders of validators",
     "Tests look at the verdict only; whether the document object graph is untouched is never compared.",
     ["asyncapi3/validators/", UT], [("validators read attributes and raise", "asyncapi3/validators/")], ["object graph before and after", "verdict and message"],
     technique="exhaustive enumeration of documents and validator lists; object-graph comparison before and after each call",
     note="Bounded: one reference of interest per document, lists of up to 3 validators.")
prop("C09", "Every document is judged on its own, whatever happened before or runs beside it",
     "The outcome of parsing, validating, building, editing or resolving depends only on the document and the validators asked: earlier "
     "documents, earlier failures, edits of earlier results, and other threads working on other documents (or reading the "
     "same one), even with the same validator object, change nothing.",
     ["histories", "schedules"], "every sequence of up to 3 (4) operations in a fresh process; every schedule of 13 pairs of operations in two threads within a preemption bound",
     "Tests run each operation once, in one thread, and share one process whose state nobody compares.",
     [U, TV, EV, UT, ROOT], [("validators keep no state", "asyncapi3/validators/"), ("fresh containers per builder", ROOT + ":as_builder"), ("visited set per resolution", UT)],
     ["outcome of each operation against its outcome in a fresh process"], technique="exhaustive operation histories in forked processes, and preemption-bounded schedule exploration of real threads under a controlled scheduler",
     note="Preemption bound 1 (2 thorough); points at the library's own calls/lines, visit-count bounded for the pattern matcher.")
prop("C10", "Parse, serialise, parse again is a fixpoint",
     "For every legal document and object, what is serialised is accepted again, yields an equal model and serialises to the same "
     "text. This holds from JSON text, from JSON data and from Python data.",
     ["inputs"], "every place of the grammar x its value alphabet x surroundings; every kind x member subsets and pairs of member values",
     "Round-trip tests exist for a few example documents; a member whose alias, default or union arm breaks the cycle must be present to show.",
     ALLM, [("serialise by spec name, leave out nulls", M + "base_models.py, helpers.py:is_null"), ("union order", M)], ["serialised text", "model equality"], technique=STATELESS,
     note="Bounded: value alphabets per place; three known findings (explicit null for a defaulted member) listed in known_findings.json.")
prop("C11", "What is serialised is what was given",
     "Serialising a parsed legal document gives exactly the members and values it was given, under the specification's names, plus the "
     "specification's defaults: nothing is lost, renamed, invented, reordered within lists or changed, at any depth, "
     "extensions and free-form data included. Reading does not change the data it is given.",
     ["inputs"], "every place of the grammar x its value alphabet x surroundings; every kind x member subsets and pairs",
     "Tests compare selected attributes of selected examples; loss of one member under one host in one union arm stays invisible.",
     ALLM, [("aliases per member", M), ("exclude_if per member", M), ("extensions kept as extra members", BM)], ["serialised JSON"], technique=STATELESS,
     note="Oracle: a metamodel (metamodel.txt) frozen from the specification and the documented models, with its own parser/serialiser.")
prop("C12", "Specification and Python names are interchangeable on input, one on output",
     "Every member may be given under its specification name or its Python name, in any mixture and at any depth, with the same "
     "resulting model, also through keyword arguments. Each member is readable under its Python name, absent optional members "
     "read as null or their default, and output always uses specification names.",
     ["inputs"], "every place and member subset of the grammar x 4 mixtures of spellings",
     "Tests use one spelling per example.",
     ALLM, [("alias per member", M), ("validate by name and by alias", BM)], ["model equality", "attribute values"], technique=STATELESS, note="Bounded as C11.")
prop("C13", "Only x- extensions are allowed beside the specified members, and they are kept",
     "An object accepts a member the specification does not name exactly when it is extensible and the name is x- followed by word "
     "characters, digits, dots, hyphens or underscores, with any value, which is kept unchanged. Any other unknown member makes "
     "the document invalid, at any depth; schemas accept any member.",
     ["inputs"], "every kind x all short names over an alphabet; every object place in documents x extension and non-extension names",
     "Tests try a few names on some objects; a class built on the wrong base or a pattern that is not anchored needs a special name at a special object.",
     ALLM + [BM], [("extension pattern", BM + ":validate_extensions"), ("extra=forbid", BM + ":NonExtendableBaseModel")], None, technique=STATELESS,
     note="Bounded: all names of length <= 3 (4) over 11 letters and tails of length <= 2 (3).")
prop("C14", "Names in maps consist of letters, digits, hyphens and underscores",
     "Every specified map of named objects accepts an entry exactly when its name is a non-empty string of ASCII letters, digits, "
     "hyphens and underscores, whatever else the map holds, in every document position. Maps whose names the specification "
     "leaves open accept any name.",
     ["inputs"], "every map type x all names of length <= 3 (4) over 13 letters and every single character; every map place in documents",
     "Tests check a few names on a few maps and no trailing newline, non-ASCII letter or second entry.",
     [BM, HELP, M + "components.py", M + "server.py", M + "message.py"], [("key pattern", BM + ":validate_patterned_keys"), ("pattern helper", HELP)], None, technique=STATELESS,
     note="Bounded name length; single characters below U+0180 (thorough: the basic plane).")
prop("C15", "Required members and member types are enforced at every depth",
     "A document with a required member missing or null, or a member of a JSON type the specification does not allow there, is rejected "
     "wherever in the document that object stands. Rejection is always reported as a validation error, never as another failure.",
     ["inputs"], "every place of the grammar x values of every JSON type; every object place x every member removed or nulled",
     "Tests remove a few required members from top-level constructions of each class; nested places are reached through unions that can swallow the error.",
     ALLM, [("field types and unions", M)], ["accepted or validation error"], technique=STATELESS, note="Lax scalar conversions that pydantic documents (numbers in strings, 0/1 as booleans) are not judged.")
prop("C16", "Security schemes and OAuth flows carry the members their type calls for",
     "A security scheme is accepted exactly when the members its type requires are present with allowed values and no member reserved "
     "for other types is given; OAuth flows are accepted exactly when each flow has the addresses it requires. This holds on "
     "construction anywhere in a document.",
     ["inputs"], "full product of 13 types x value classes of 7 members; full product of 4 flows x URL subsets; every document place x single deviations",
     "Tests check one violation per rule; interactions between rules and nesting are a product of configurations.",
     [M + "security.py"], [("dependency validators", M + "security.py:validate_security_scheme_dependencies, validate_oauth_flows_requirements")], None, technique=STATELESS,
     note="Full product at value-class granularity.")
prop("C17", "Cross-member rules and value ranges of bindings, channels and examples hold",
     "Protocol bindings, channels and message examples are accepted exactly when their documented rules between members hold "
     "(exclusive or required members per type, parameters only with an address expression, an example with headers or payload), "
     "numbers and lengths are within their documented ranges, and enumerated members take exactly their documented values.",
     ["inputs"], "per ruled kind the full product of its members; all values near each limit; every literal and near miss; at every document place",
     "Tests check one violation per rule and no boundary on both sides.",
     [M + "channel.py", M + "message.py", M + "bindings/"], [("model validators", M + "channel.py:validate_parameters, " + M + "message.py, " + M + "bindings/"), ("field constraints", M + "bindings/")],
     None, technique=STATELESS, note="Full product over value classes; limits probed within 3 on each side and far.")
prop("C18", "Formatted strings are accepted exactly when the whole string has the format",
     "The specification version must be major.minor.patch with an optional suffix and major version 3, e-mail addresses must have the "
     "documented form, message runtime expressions must start with their prefix, and URL members must be URLs, of the http kind "
     "where documented. The whole string counts: nothing before or after a well-formed part is tolerated.",
     ["inputs"], "all strings up to 4-6 tokens over per-format token alphabets; 60 addresses at every URL member and place",
     "Tests try about five strings per format.",
     [ROOT, M + "info.py", M + "security.py"], [("version pattern", ROOT + ":validate_asyncapi_version"), ("e-mail pattern", HELP), ("URL types", M)], None, technique=STATELESS,
     note="Bounded token strings; URL grammar corner cases left to pydantic.")
prop("C19", "Assignment is checked like construction and changes nothing when rejected",
     "Assigning an attribute of any object succeeds exactly when constructing the object with that value would, with the same result; "
     "a rejected assignment raises a validation error and leaves the object exactly as it was, so every reachable object "
     "stays legal. Unknown attributes obey the extension rule.",
     ["histories"], "every kind x every history of 1-3 assignments over value alphabets for every member",
     "A handful of assignment tests check the error only, not the state after it nor sequences.",
     [BM], [("validate_assignment", BM), ("rollback", BM + ":_AtomicAssignmentMixin")], ["serialised object after each step"],
     [("members set", "dictionary, extras and set of given members of the model", BM)], technique=BFS, note="Histories up to 2 (3 for ruled kinds); thorough 3 (5).")
prop("C20", "Map containers behave like dictionaries restricted to legal names and values",
     "Reading, storing, deleting, testing, counting and iterating entries of a map of named objects agrees with an ordinary dictionary, "
     "except that an illegal name or value is refused with a validation error and changes nothing.",
     ["histories"], "every map type x every history of up to 4 (7) operations",
     "Tests exercise each operation once on one map type.",
     [BM], [("mapping methods", BM + ":PatternedRootModel")], None, [("root", "the entries", BM)], technique=BFS, note="Names from 5, values from 4 classes.")
prop("C21", "Handing an object over checks it again",
     "An object placed into another object, or parsed again, is checked as if its current content had been given as data: content "
     "that was altered behind its back, or created without checks, is refused unless legal, at any depth.",
     ["inputs", "histories"], "every kind x every member altered (10 values) x every holder; every place of a document altered in place, then handed over",
     "No test alters an object between construction and use.",
     [BM], [("revalidate_instances", BM)], None, technique=STATELESS, note="One altered member (two for ruled kinds, thorough).")
prop("C22", "The builder yields a complete, independent document that re-checks references",
     "A builder starts as a legal document with every root map and every component map present and empty and the information given, "
     "shares nothing with any other builder, and each later assignment to it is accepted exactly when the resulting document is "
     "legal with all references right, leaving it unchanged otherwise.",
     ["histories", "configurations"], "subsets of builder arguments x overrides; every history of up to 4 (6) of 18 operations on a builder beside a second one",
     "Tests build once, with one or two arguments, and assign once.",
     [ROOT], [("as_builder", ROOT + ":as_builder"), ("validators run on every assignment", ROOT + ":run_extra_processors")], None, [("extra validators", "attached to the builder", ROOT)],
     technique=BFS, note="In-place edits of maps are judged at the next assignment, by design.")
prop("C23", "Extra processors run in order, once, after built-in checks; never written",
     "Every construction of and every assignment to a document runs its converters and then its validators, each exactly once and in "
     "list order, only after the built-in checks passed, and stops at the first that rejects, whose error becomes a validation "
     "error. The processors themselves never appear in the output, and what converters edit is what validators see.",
     ["configurations", "histories"], "every list of <= 2 converters and <= 3 validators of 3 behaviours x constructions x assignments",
     "Tests use one processor that passes or fails.",
     [ROOT], [("processor runs", ROOT + ":run_extra_processors, _run_extra_converters, _run_extra_validators"), ("excluded members", ROOT)], None, technique=STATELESS,
     note="Up to 3 converters and 4 validators in the thorough run.")
prop("C24", "References are values, and each factory names the place it says",
     "Two references are equal, and hash alike, exactly when their texts are equal; a reference is written as its text alone and reads "
     "back as the same value. Each factory for a named root or component object yields the reference that resolves to that "
     "object, for every legal name.",
     ["inputs"], "22 factories x ~340 names x defined or not; pairs of 30 texts x construction forms",
     "Tests call each factory once with one name and never resolve the result.",
     [M + "base.py", U], [("equality, hash and factories", M + "base.py:Reference")], None, technique=STATELESS, note="Bounded names and texts.")
prop("C25", "Every protocol slot takes its own binding and nothing else",
     "In each of the four roles, the slot of a protocol accepts exactly that protocol's binding for that role, as data or as object, "
     "reads it as such and writes it back under the protocol's name; a binding version left out takes the documented default. Unknown protocols "
     "are rejected.",
     ["inputs"], "4 roles x all protocols x bindings of every role and protocol; pairs; version states; every document place",
     "Tests construct each binding alone; slots are exercised with their own binding only.",
     [M + "bindings/"], [("slots per protocol", M + "bindings/core.py"), ("version defaults", M + "bindings/")], None, technique=STATELESS, note="Bindings smallest and fullest.")
prop("C26", "Where several kinds may stand, a value is read as its own kind",
     "Wherever an object may be given inline or as a reference, or in several schema forms, the parsed model holds an object of exactly "
     "the kind the given value has: an object with only a $ref is a reference, one in multi-format form is a multi-format "
     "schema, everything else the inline kind, given as data, as model objects, by assignment or as map entry.",
     ["inputs"], "every node of every document of the C11 space; every union member x alternative x way of giving",
     "Tests assert classes for a few members; union order effects show only for particular members present together.",
     ALLM, [("union order and forbidden extras", M)], ["class of every parsed object"], technique=STATELESS, note="Values that fit several kinds are not judged.")
prop("C27", "Resolving an internal reference yields the very object that stands there",
     "Resolving an internal reference in a document returns the identical object standing at the place it denotes, with its type, after "
     "following references to references; an external end gives no object, and a pointer to nothing, in part or whole, is an "
     "error. Repeating it gives the same object.",
     ["inputs"], "every list-free place of the grammar x surroundings x {itself, prefixes, aliases, 12 spoilings of a segment}",
     "Tests resolve a few pointers and compare names, not identity.",
     [UT], [("step by map entry, member or dictionary key", UT + ":_resolve_path_part")], None, technique=STATELESS, note="List-free pointers without escapes.")

prop("C28", "The exported JSON Schema describes what is read and written",
     "The JSON Schema exported for a model, for reading or for writing, states exactly the specification members, which are required and "
     "whether others may stand beside them, accepts every legal value and everything the model writes, and gives the defaults that "
     "are applied. It refuses values that lack a required member, carry an unknown member in a closed object, or have a member of a type that is not allowed there.",
     ["inputs"], "the legal values of C10 x both schemas; every kind x missing, unknown and wrong members; every place of the document x 12 wrong values",
     "No test exports a schema; a member declared differently from how it is checked shows only when the two are compared member by member.",
     ALLM, [("members declared with alias, type and default", M), ("processors left out of the schema", ROOT + ":extra_validators"), ("e-mail strings", HELP + ":EmailStr")],
     ["model_json_schema() of every kind, evaluated by the check"], technique=STATELESS, note="Shape only: formats, entry names and cross-member rules are not in the schema.")
prop("C29", "Copies are equal and independent; equality is equality of content",
     "Copying any object (model_copy, copy, deepcopy, pickle) gives an equal object of the same class with the same content, and a deep copy "
     "shares nothing changeable with the original, nor do two objects read from different data. Two objects of a kind are equal exactly when their content is, however they were read.",
     ["inputs"], "the legal values of C10 x 5 ways to copy, each copy then changed everywhere; every ordered pair of up to ~100 values of each kind",
     "No test copies a document or compares two that differ in one nested member.",
     [BM, M + "base.py"], [("attribute assignment restores state", BM + ":_AtomicAssignmentMixin"), ("dictionary-like maps", BM + ":PatternedRootModel")],
     ["object graph of original and copy"], technique=STATELESS, note="Python's own equalities (1 == True) are not judged.")
prop("C30", "A rejected reference is named, together with the place it stands",
     "When a reference validator rejects a document, the single validation error it raises names the reference at fault (or the first part "
     "of it that leads nowhere) and every map entry it stands in, spelled as in the document. The unified validator also names the index in lists.",
     ["inputs"], "every reference position x 6 ways to be wrong x the validators that judge them x entry names x surroundings x list indices",
     "Tests match a few messages with lower-case names; whether each of some fifty hand-written message sites names its own host is never compared.",
     [TV, EV, U], [("context strings", TV + ", " + EV), ("path of the traversal", U + ":_display_path"), ("capitalised contexts", UT + ":capitalize_first")],
     ["text and type of the validation error"], technique=STATELESS, note="One wrong reference per document; the wording is free.")

prop("C31", "The rejection of a structurally wrong document says where it is wrong",
     "When reading rejects a document for its structure, the validation error locates every fault: the path of member and entry names and list indices "
     "to the wrong value, the object that lacks a member, has an unknown one or breaks a rule between its members, or the map with an illegal "
     "entry name (these once what they hold is sound); and names the member or entry at fault. Sound parts of the document get no error.",
     ["inputs"], "every place of the grammar x 9 wrong values, missing and unknown members, broken rules and illegal names x surroundings x second faults elsewhere",
     "Tests assert that a few wrong objects are rejected, none that the error of a whole document points at the fault.",
     [BM, ALLM[0], ROOT], [("members and aliases", M), ("entry names checked", BM + ":PatternedRootModel"), ("rules between members", M + "schema.py")],
     ["errors() of the validation error"], technique=STATELESS, note="Locations may also name the kinds tried for a union; messages are free.")

prop("C32", "Every input is answered, soon, whatever its length and shape",
     "Reading, checking, writing, copying and comparing always end with an answer, in a time that does not run away with the length or shape of "
     "the input: long texts and names of any composition, long chains of references, large maps and lists, thousands of references, free-form data "
     "that holds itself. Long texts, names and collections are judged by the same rules as short ones.",
     ["inputs"], "every string member and kind of name x texts u v^n w of up to 2500 characters; documents of 18 shapes up to 2500 elements; looped data at every free-form place",
     "Tests use short texts and small documents, on which an exponential match or a quartic walk takes no time.",
     [UT, U, HELP, BM, ROOT], [("patterns matched against texts and names", HELP + ", " + BM + ", " + ROOT), ("chains followed", UT + ":resolve_reference"), ("objects being visited", U + ":validate_references_recursive")],
     ["processor time of each execution, limited to 10 s (30 s for whole documents)"], technique=STATELESS, note="Bounded by size; what takes longer than the limit counts as no answer.")

prop("C33", "Whatever way it is written, it says the same; a part is written as in the whole",
     "A document or object says the same in every way it can be written: as text, as indented text, as Python or JSON data, under Python names, only what "
     "was given, without defaults, one member alone or all but one; each whole one reads back as the same object, none warns, and writing changes nothing. "
     "A part of a document, written on its own, reads as it does within the whole. The members said to be given, and shown when walking over the object, are those that are there.",
     ["inputs"], "the valid space (every position x its values in hosts and surroundings; every subset of the members of every kind) x 9 ways to write x every part on its own",
     "Tests write whole documents the usual way; the settings that decide how names, nulls and defaults are written are repeated on every kind of base class and apply to the outermost object only.",
     [BM, "asyncapi3/models/"], [("serialisation settings", BM), ("members left out when null", "asyncapi3/models/*.py:exclude_if"), ("validators that see the members set", "asyncapi3/models/*.py")],
     ["oracle.parse_obj and oracle.written: what each way of writing must give"], technique=STATELESS, note="URLs are given in their normalised spelling.")

MANIFEST_NOTES = ("All checks run /opt/venv/bin/python on /repo's working tree through check.sh (private byte-code cache); they enumerate "
                  "bounded spaces completely, so VERIF_SEED changes nothing. See DESIGN.md.")

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p, _t, _n in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": MANIFEST_NOTES}
    for p, t, n in P:
        man["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                              "technique": t, "level": "model_checking", "level_note": n})
    with open("MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
