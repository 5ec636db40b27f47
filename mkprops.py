#!/usr/bin/env python3
"""Source of properties.jsonl (kept in Python for readability)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Instance data is persistent: no operation alters an older node or value",
 "Whatever sequence of navigation, editing, merging, default-adding, validating or serializing operations is applied to instance nodes, every instance node obtained earlier keeps its value, its position and its serialized form, and so does the original cooked value and the raw data given by the caller. An edit takes effect only in the node it returns and in the nodes reached from that one.",
 ["histories", "inputs"], "All operation sequences up to a bound, applied to any node obtained so far, on documents with containers, lists, leaf-lists, and leaves, with every earlier node re-inspected after each step.",
 "Tests inspect one or two earlier nodes after a few fixed edits; aliasing bugs need a particular edit sequence (for example a merge that only appends, then a look at the receiver) and a look back at an older node.",
 ["yangson/instance.py", "yangson/instvalue.py"],
 [("copy-on-write zipper", "instance.py InstanceNode._copy/_zip/put_member/delete_item"), ("shallow value copies", "instvalue.py StructuredValue.copy"), ("merge on copies", "instance.py _merge_list/_merge_container"), ("default insertion on copies", "schemanode.py _add_defaults")],
 [("parinst/siblings/before/after", "zipper context shared between nodes", "instance.py")],
 ["value, raw_value(), path, json_pointer() of every earlier node"])

prop("C02", "Navigation and editing agree with editing a plain tree",
 "Selecting, replacing, creating, deleting and inserting members and entries, moving to parents, siblings, neighbours and the root, yields exactly the document, position (path, index, JSON pointer, name) and outcome (result or documented error) that the same steps have on an ordinary tree of objects and arrays. All pending edits are visible after moving up, and nothing else changes.",
 ["histories", "inputs"], "All sequences of navigation and edit steps up to a bound, starting from every node of small documents over a schema with nested containers, keyed lists, leaf-lists, and leaves.",
 "Tests exercise one scripted path through a document; the order of interleaved moves and edits, and positions after inserts and deletions, are unbounded.",
 ["yangson/instance.py"],
 [("zipper focus moves", "instance.py ObjectMember/ArrayEntry"), ("zip up", "instance.py _zip, up, top")],
 [("before/after deques and index", "the focus inside an array", "instance.py ArrayEntry")],
 ["value, path, json_pointer(), top().raw_value()"])

prop("C03", "Merging follows the documented merge rules",
 "Merging a value into an instance yields a document in which members and list entries matched by name or by keys are merged recursively, everything present only in the receiver is kept, everything present only in the argument is added (new list and leaf-list entries appended in argument order, without duplicating existing leaf-list values), and for leaves the argument wins. Neither the receiver nor the argument is changed, and merging the same value a second time changes nothing.",
 ["inputs", "histories"], "All pairs of small documents (receiver, argument) over schemas with containers, keyed lists including multi-key, leaf-lists, leaves and anydata, including empty and falsy values.",
 "Tests merge one document into another; the rules quantify over all pairs.",
 ["yangson/instance.py"],
 [("merge", "instance.py merge/_merge_list/_merge_container")], (), ["raw_value() of result, receiver, argument"])

prop("C04", "Reading JSON data and writing it back preserves the document",
 "JSON-encoded instance data that conforms to the data model is accepted, and writing it back produces the same document, with every scalar in its canonical JSON encoding, every member name qualified exactly where its module differs from its parent's, and entry order and metadata annotations retained. Data with an unknown member, a wrongly qualified name, a member at the wrong place or a value of the wrong JSON type is rejected with an error that points at the offending item. An isolated instance made of the raw value of a node equals that node.",
 ["inputs", "programs"], "All small JSON documents over a schema with nodes of every kind from two modules, including wrongly shaped and wrongly qualified ones, and every scalar type.",
 "Tests read back one example document per schema; both directions quantify over all documents and all name qualifications.",
 ["yangson/schemanode.py", "yangson/datatype.py", "yangson/instance.py", "yangson/datamodel.py"],
 [("cooking of raw objects", "schemanode.py InternalNode.from_raw, SequenceNode.from_raw, TerminalNode.from_raw"), ("uncooking", "instance.py raw_value, datatype.py to_raw")], (), ["from_raw() result or exception", "raw_value()"])

prop("C05", "JSON and XML encodings of the same data are interchangeable",
 "For every valid document without anydata and anyxml content, writing it as XML and reading that XML back yields the same instance data as the JSON encoding, including namespaces, identity references, empty values, leaf-list and list order. XML that contains an element unknown in the schema, an element in the wrong namespace or a lexically wrong value is rejected with a documented error.",
 ["inputs", "programs"], "All small documents over a two-module schema with every node kind and scalar type, plus single-point mutations of their XML form.",
 "Tests convert a single document; the equivalence quantifies over documents, types and values (empty strings, identities from other modules, nested namespaces).",
 ["yangson/instance.py", "yangson/schemanode.py", "yangson/datatype.py", "yangson/xmlparser.py"],
 [("XML output", "instance.py to_xml"), ("XML input", "schemanode.py from_xml family, xmlparser.py XMLParser")], (), ["to_xml() text, from_xml() result"])

prop("C06", "Every scalar type accepts exactly its YANG value space",
 "For each built-in type with any combination of restrictions (ranges, lengths, patterns, fraction digits, enums, bits, identity bases, union members) and any chain of derived types, a value is accepted in JSON, XML and key or path text exactly when the YANG language puts it in the type's value space. Every restriction along the derivation chain stays in force, and an error carries the type's own error tag and message when it defines them. Excess fraction digits of a decimal64 number may be rounded instead of rejected.",
 ["inputs", "programs"], "All types in a bounded grammar of type definitions and derivations, applied to all lexical values up to a small length over a boundary-revealing alphabet plus range and length boundary values.",
 "Tests try a few values of a few types; acceptance is a statement about every type expression and every value, in particular at the boundaries of each restriction.",
 ["yangson/datatype.py", "yangson/constraint.py"],
 [("type hierarchy", "datatype.py DataType subclasses"), ("interval arithmetic", "constraint.py Intervals"), ("patterns", "constraint.py Pattern")], (), ["from_raw/parse_value result or rejection through data reading and validation"])

prop("C07", "Scalar text forms are canonical and parse back to the same value",
 "The canonical text of every value of every type is the form that YANG prescribes, parsing it yields the same value, and two values have the same canonical text exactly when they are equal. Reading the JSON form written for a value gives the value back, and for a union the first member type in definition order that accepts the value determines it.",
 ["inputs"], "All values in boundary sets of each type, all lexical variants of each value, all small unions.",
 "Tests check individual conversions; canonicity is a relation over all values and all their lexical variants.",
 ["yangson/datatype.py"],
 [("canonical_string/parse_value/to_raw/from_raw", "datatype.py")], (), ["str() of instance nodes", "raw_value()"])

prop("C08", "Structural validation accepts exactly the documents the schema allows",
 "A document passes syntactic validation for a content type exactly when every node is allowed there, mandatory nodes and mandatory choices are present wherever their closest non-default-existing ancestor requires it, at most one case of a choice is used, conditional nodes appear only when their conditions hold, and state data appear only if the content type includes them. The verdict depends neither on member order nor on what was validated before.",
 ["programs", "inputs"], "All schemas in a bounded grammar of containers (with and without presence), leaves, lists, choices, cases, mandatory, config, when and if-feature, and for each all subsets of its nodes as documents, for each content type.",
 "Tests validate a few documents against one schema; acceptance is a statement about every schema shape and every combination of present and absent nodes.",
 ["yangson/schemanode.py", "yangson/schpattern.py"],
 [("schema patterns (regular-expression derivatives)", "schpattern.py"), ("pattern construction and checking", "schemanode.py _make_schema_patterns, _check_schema_pattern"), ("mandatory propagation", "schemanode.py _add_mandatory_child")], (), ["validate(scope=syntax)"])

prop("C09", "Semantic validation enforces exactly the declared data constraints",
 "A document passes semantic validation exactly when list keys are present and unique, unique and min/max-elements restrictions hold, configuration leaf-lists have no repeated values, every must condition is true with defaults taken into account, and required leafref and instance-identifier targets exist. A violation is reported as a semantic error with the error tag, path and message that the schema defines for it, wherever in the document it occurs.",
 ["programs", "inputs"], "All small documents over schemas that combine keys, multi-leaf unique, min/max-elements, nested lists, must, leafref and instance-identifier, for each content type.",
 "Tests break each constraint once at one place; the guarantee is for every placement and combination.",
 ["yangson/schemanode.py", "yangson/datatype.py", "yangson/constraint.py"],
 [("list checks", "schemanode.py ListNode._check_list_props/_check_keys/_check_unique, SequenceNode._check_cardinality"), ("must", "schemanode.py _check_must"), ("references", "schemanode.py TerminalNode._post_validate, datatype.py LinkType")], (), ["validate(scope=semantics)"])

prop("C10", "Default values are added exactly where YANG says they are in use",
 "Adding defaults inserts exactly those default leaves, leaf-lists and non-presence containers that YANG defines as in use: not under absent presence containers or lists, not from unselected or non-default cases, not where a condition is false or the content type excludes the node, and with type defaults where a leaf has none. Existing values are never changed, a second application adds nothing, and conditions evaluated by XPath see the same defaults whether or not they were added explicitly.",
 ["programs", "inputs"], "All schemas in a bounded grammar of default-bearing nodes, containers, choices and conditions with all their small documents, for each content type.",
 "Tests add defaults to one document; the rule depends on every combination of present and absent nodes around a default.",
 ["yangson/schemanode.py", "yangson/instance.py"],
 [("default computation", "schemanode.py default_value/_add_defaults/_default_instance"), ("explicit addition", "instance.py add_defaults"), ("lazy addition for XPath", "instance.py _children")], (), ["add_defaults().raw_value()", "must/when verdicts"])

prop("C11", "Instance paths round-trip and all ways of following them agree",
 "For every node of a document, the path that the library derives for it, also after writing it as text and parsing that text back, leads to that same node; a path given as a resource identifier, an instance identifier or a JSON pointer locates the node it denotes, or is rejected with the documented error. Looking at a value along a path and moving to the node agree on every path, present or absent.",
 ["inputs", "histories"], "All nodes of small documents with keys and leaf-list values drawn from an alphabet with quotes, backslashes, separators, percent signs, spaces, non-ASCII and typed values (boolean, decimal, identity, binary), and all small textual paths.",
 "Tests follow half a dozen hand-written paths with simple keys; quoting and escaping must work for every key value.",
 ["yangson/instance.py", "yangson/instroute.py", "yangson/datamodel.py", "yangson/parser.py"],
 [("route construction", "instance.py _instance_route_entry, instance_route"), ("route parsers", "instance.py ResourceIdParser, InstanceIdParser"), ("goto/peek steps", "instance.py goto_step/peek_step")], (), ["str(instance_route()), parse_instance_id, parse_resource_id, goto, peek"])

prop("C12", "XPath expressions evaluate as XPath 1.0 with the YANG 1.1 functions prescribes",
 "Every expression in the supported language, evaluated at any node of any document, has the value that XPath 1.0 and the YANG functions define: operator precedence and associativity, type conversions, node-set comparison, axes, predicates and positions, string, number and boolean functions, and the YANG functions for references, identities, enumerations and bits. Malformed or unsupported expressions are rejected when the schema is read, not at evaluation time.",
 ["inputs", "programs"], "All expressions in a bounded grammar evaluated at every node of small documents, against an independent evaluator.",
 "Tests evaluate some tens of fixed expressions; operators, conversions, axes and predicates combine multiplicatively.",
 ["yangson/xpathast.py", "yangson/xpathparser.py", "yangson/nodeset.py", "yangson/instance.py"],
 [("parser", "xpathparser.py XPathParser"), ("evaluation", "xpathast.py Expr subclasses"), ("node sets", "nodeset.py NodeSet"), ("axes over instance nodes", "instance.py _children/_descendants/_ancestors/_preceding_siblings")], (), ["expression values, must/when verdicts"])

prop("C13", "Module texts parse into the statement tree that YANG syntax defines",
 "Every syntactically correct YANG module, with any legal mix of quoting styles, escapes, string concatenation, comments, line ends and whitespace, parses to the statement tree with exactly the keywords and argument strings it denotes. Text that violates the YANG syntax is rejected with a documented parsing error that gives the position, and parsing always terminates.",
 ["inputs"], "All texts up to a small number of tokens over an alphabet of quotes, escapes, comment openers and closers, separators, braces and words, placed as statement arguments and between statements.",
 "Tests parse one snippet; the lexical rules interact (comments inside strings, escapes before quotes, concatenation across lines).",
 ["yangson/statement.py", "yangson/parser.py"],
 [("statement parser", "statement.py ModuleParser"), ("lexical primitives", "parser.py Parser")], (), ["ModuleParser(text).parse() result or exception"])

prop("C14", "Feature conditions are evaluated as boolean logic over supported features",
 "For every feature expression and every set of supported features, a node, identity, enumeration value or bit guarded by that expression exists in the data model exactly when the expression is true in boolean logic with the YANG precedence of not, and, or and parentheses, whatever the feature names are and whatever module they come from. A library that enables a feature whose own prerequisites are not enabled is rejected, and malformed expressions are rejected.",
 ["programs", "configurations"], "All expressions up to a bounded depth over three features (also with operator-like names and foreign prefixes), all 2^3 feature sets, all guarded statement kinds.",
 "Tests use two or three expressions under one feature set.",
 ["yangson/schemadata.py", "yangson/schemanode.py", "yangson/datatype.py"],
 [("feature expression parser", "schemadata.py FeatureExprParser"), ("guard evaluation", "schemadata.py if_features"), ("prerequisites", "schemadata.py _check_feature_dependences")], (), ["presence of schema nodes, enums, bits, identities"])

prop("C15", "A modular schema behaves like its hand-expanded equivalent",
 "A data model built from groupings, refinements, augments (in the same or another module, nested, conditional), submodules, deviations and choice shorthand has exactly the schema tree of the module in which all of them are written out by hand: same nodes, same namespaces, same constraints and defaults, hence the same verdict and the same defaults for every document. Names and prefixes inside a grouping, type or condition resolve in the module where they are written.",
 ["programs", "configurations"], "All combinations from bounded sets of grouping bodies, refinements, augment targets, deviations and module splits, each compared with its expanded form on the schema tree and on all small documents.",
 "Tests load one fixed module set; the equivalence is over all compositions.",
 ["yangson/schemanode.py", "yangson/schemadata.py"],
 [("uses/augment/refine handling", "schemanode.py _uses_stmt, _augment_stmt, _refine_stmt"), ("deviation handling", "schemanode.py _process_deviation..."), ("prefix resolution", "schemadata.py resolve_pname, translate_node_id")], (), ["ascii_tree(), schema digest, validation verdicts, defaults"])

prop("C16", "A data model does not depend on listing order, hash seed or load order",
 "Building a data model from the same set of modules gives the same schema, digest, module set identifier, verdicts and defaults whatever the order of modules, submodules, features and deviations in the library, the order of search directories that hold the same files, the process's hash seed, or how often it was loaded before. Module resolution honours revisions, import-only conformance and submodule ownership, and a library with missing modules, cyclic imports, duplicate implementations or missing dependencies is rejected with the documented error.",
 ["configurations", "programs"], "All permutations of small module libraries with augments and deviations across modules, several hash seeds, and all single-fault mutations of the library.",
 "Tests load each library once, in one order, under a fixed hash seed.",
 ["yangson/schemadata.py", "yangson/datamodel.py", "yangson/schemanode.py"],
 [("library loading and import sort", "schemadata.py _from_yang_library, _process_imports"), ("schema build order", "datamodel.py _build_schema")], (), ["schema_digest(), ascii_tree(), module_set_id(), exceptions"])

prop("C17", "Identity derivation is the reachability relation of the declared bases",
 "An identity is derived from another exactly when a non-empty chain of base declarations, across modules, connects them; an identity reference accepts exactly the identities of implemented modules derived from all of its bases, and the XPath identity tests agree with it. Answers never change, whatever identity queries, schema exports or validations were made before.",
 ["programs", "histories"], "All acyclic identity graphs up to four or five identities over one or two modules, all sets of bases, all query orders up to a bound.",
 "Tests query a handful of pairs in one graph; history effects need particular query sequences.",
 ["yangson/schemadata.py", "yangson/datatype.py", "yangson/xpathast.py"],
 [("identity graph", "schemadata.py IdentityAdjacency, derived_from, derived_from_all, is_derived_from"), ("membership", "datatype.py IdentityrefType")], [("identity_adjs", "mutable adjacency sets", "schemadata.py")], ["validation verdicts, is_derived_from, derived-from()"])

prop("C18", "Queries are pure: outcomes never depend on what was done before",
 "Reading data, validating (also unsuccessfully), adding defaults, serializing, exporting the schema or evaluating XPath on a data model never changes the outcome of any later operation on that data model, on other instances or on other data models in the same process. Repeating an operation gives the same result, including the reported error.",
 ["histories"], "All sequences of operations up to a bound from a pool of successful and failing operations over one or two data models, with each operation's outcome compared with its outcome in a fresh process.",
 "Tests run every query once after a module-level fixture, so leaked state is either invisible or baked in.",
 ["yangson/datamodel.py", "yangson/schemanode.py", "yangson/schpattern.py", "yangson/datatype.py", "yangson/schemadata.py"],
 [("schema nodes shared by all instances", "schemanode.py"), ("cached condition results", "schpattern.py Conditional"), ("per-type error fields", "datatype.py DataType.error_tag")], [("_val_when", "condition verdict cached in the schema pattern", "schpattern.py"), ("val_count", "validation counter", "schemanode.py")], ["results and exceptions of every public operation"])

prop("C19", "Concurrent use of one data model gives the sequential results",
 "When two threads use the same data model, or share instance nodes, at the same time, to read data, validate, edit, add defaults or evaluate conditions, each thread gets the result or the error that it would get running alone, for every interleaving.",
 ["schedules"], "All interleavings up to a preemption bound of two threads that each run an operation on a shared data model and shared instances.",
 "Tests are single-threaded; a race needs a switch between two particular steps.",
 ["yangson/instance.py", "yangson/schemanode.py", "yangson/schpattern.py", "yangson/datatype.py"],
 [("immutable instances", "instance.py"), ("shared schema state", "schpattern.py Conditional, datatype.py error fields, schemanode.py val_count")], [("schema_pattern", "built at the first use of a schema tree", "schemanode.py"), ("error_tag/error_message", "set by each failing scalar check", "datatype.py")], ["per-thread outcomes"], "none: a settrace-based scheduler drives unmodified code")

prop("C20", "Structured values are equal exactly when their content is equal, and hash so",
 "Two structured values are equal exactly when they are of the same kind and have the same content recursively, irrespective of member order, of how they were obtained and of their timestamps, and equal values have equal hashes. Every modification updates the timestamp of the value and of all its ancestors in the resulting tree, so timestamps never decrease along the way to the root.",
 ["inputs", "histories"], "All pairs of cooked values up to a bounded size over scalars prone to collisions (0, 1, -1, -2, true, false, empty, equal numbers of different types), and all short edit sequences.",
 "Tests compare two or three values; equality is a relation over pairs, collisions need particular scalars.",
 ["yangson/instvalue.py", "yangson/instance.py"],
 [("equality and hash", "instvalue.py"), ("timestamps", "instvalue.py __setitem__, instance.py up")], (), ["==, hash(), timestamp"])

prop("C21", "Schema exports describe exactly the schema used for validation",
 "The schema tree rendering, the schema digest, and the lookups of schema nodes by path and of data paths list exactly the nodes of the data model, each with its true kind, configuration status, cardinality, type, keys, mandatory flag, presence and default, and looking up the data path of any node returns that node. Lookups of nonexistent paths report absence rather than another node. The validation counters shown in the tree count the validated instances of each node since they were last cleared.",
 ["programs"], "All schemas in the bounded grammars of the other properties, all their nodes, and all short paths over their names and prefixes.",
 "Tests compare one rendering per schema with a stored text.",
 ["yangson/datamodel.py", "yangson/schemanode.py", "yangson/schemadata.py"],
 [("rendering", "schemanode.py _ascii_tree, _tree_line, _flag"), ("digest", "schemanode.py _node_digest"), ("lookup", "datamodel.py get_schema_node/get_data_node, schemanode.py data_path, split_instance_route")], (), ["ascii_tree(), schema_digest(), get_data_node(), data_path()"])

prop("C22", "The command-line tools report outcomes exactly as documented",
 "For every combination of options and inputs, the yangson command writes what the corresponding library operation yields (nothing else on standard output, an explanation on standard error exactly when it fails) and exits with the documented status: 0 when no problem was found, 1 for a problem with reading or decoding a file, 2 for a problem in the YANG library or data model, 3 when validation failed. A data model saved in binary form and loaded again, also by another process, behaves as the original. The library converter turns RFC 8525 library data into equivalent RFC 7895 data for the chosen datastore or schema, from which the same data model is built, and otherwise exits with the documented status (1 input not available or invalid, 2 no such datastore or schema, 3 output not writable). The library generator lists the modules of a directory with their revisions, features, submodules and conformance.",
 ["configurations", "inputs"], "All combinations of command-line options with good and single-fault inputs (missing, unreadable, malformed, invalid files; truncated binary forms), all combinations of small RFC 8525 libraries and all their single faults, all pairs of module and submodule contents for the generator.",
 "Tests run two invocations; options, sources and faults combine.",
 ["yangson/__main__.py", "yangson/convert8525.py", "yangson/datamodel.py", "tools/python/mkylib.py"],
 [("command line", "__main__.py main"), ("converter", "convert8525.py main"), ("generator", "tools/python/mkylib.py main")], (), ["exit status, stdout, stderr, binary form"])

prop("C23", "Hostile instance data never crashes the library",
 "Any JSON value or XML document given as instance data, and any raw edit value, either is accepted or is rejected with an exception from the library's documented hierarchy that identifies the offending node; no input (nested no deeper than the Python interpreter allows) causes an internal error, an endless run or a change of the data model. What was accepted can be validated, serialized and have defaults added without an internal error.",
 ["inputs"], "All JSON values up to a bounded size put at every place of a document over a schema with every node kind and type, and all single-point mutations of XML documents.",
 "Tests feed a few malformed documents; robustness is a statement about all of them.",
 ["yangson/schemanode.py", "yangson/datatype.py", "yangson/instance.py", "yangson/datamodel.py"],
 [("type guards on input", "schemanode.py from_raw, datatype.py from_raw/from_xml")], (), ["exception class"])

prop("C24", "Metadata annotations and output filters affect exactly what they name",
 "Annotations read with a node are attached to that node only, are type-checked against their definition, survive reading and writing in JSON, and do not influence the validity, defaults or member addressing of the data. An output filter removes exactly the members and entries it rejects (and list entries it leaves without content), in JSON and XML alike, and marking defaults annotates exactly the added ones.",
 ["inputs", "configurations"], "All placements of annotations on all nodes of small documents, all subsets of nodes as filters, in both encodings.",
 "Tests annotate a few nodes and filter with one filter.",
 ["yangson/instance.py", "yangson/schemanode.py"],
 [("annotation processing", "schemanode.py _process_metadata"), ("filters", "instance.py raw_value/to_xml, OutputFilter"), ("default tags", "instance.py _mark_defaults")], (), ["raw_value(filter), to_xml(filter), add_defaults(tag=True)"])

prop("C25", "Printed XPath expressions denote the expression that was parsed",
 "The textual form of every parsed XPath expression, with YANG module names as namespace prefixes, is an XPath expression with the same meaning: the same operators with the same grouping, the same steps, axes, predicates, literals and numbers. Parsing it gives an expression that is printed the same. The printed syntax tree of every expression shows its operators, functions, steps and operands in order, and different expressions have different trees.",
 ["inputs"], "All expressions with up to two nested unary forms, up to three binary operators with every placement of parentheses and up to three steps, and all token strings up to a bounded length, in contexts with different prefixes.",
 "Tests print a few dozen expressions, hardly any with parentheses.",
 ["yangson/xpathast.py", "yangson/xpathparser.py"],
 [("textual form", "xpathast.py __str__ of Expr subclasses"), ("syntax tree", "xpathast.py syntax_tree")], (), ["str(expr), expr.syntax_tree()"])

prop("C26", "Invalid modules are rejected with documented errors, and promptly",
 "Whatever the module texts given (any statement missing, misplaced, repeated, without its argument or with a wrong one), building a data model ends and either succeeds or raises an exception of the library's documented hierarchy, never an internal error. Rejected are in any case: references to undefined prefixes, types and groupings, keys and leafref paths that lead to no leaf, missing or malformed numbers, ranges, patterns, names and XPath expressions, missing required substatements, and circular chains of typedefs, groupings or leafrefs. A data model that was built can be exported as tree and digest, and data can be read, validated and completed by defaults without an internal error.",
 ["inputs", "configurations"], "Every statement of a module set with every one of a pool of edits and arguments, every kind of statement in every place, circular chains of every kind and length up to 3.",
 "Tests build valid models and a handful of invalid ones.",
 ["yangson/schemanode.py", "yangson/datatype.py", "yangson/schemadata.py", "yangson/statement.py", "yangson/constraint.py", "yangson/xpathparser.py"],
 [("statement dispatch", "schemanode.py _handle_substatements, _apply_deviate"), ("definitions", "schemadata.py get_definition, resolve_pname"), ("types", "datatype.py _resolve_type, _handle_properties, _post_process")], (), ["DataModel(...)"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
