#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
REF = ("exhaustive bounded enumeration of executions of the real code against "
       "a reference model")
CHECKS = {
 "C01": ("explicit-state exploration of all operation sequences on the real "
         "code, invariant on all earlier states",
         "All sequences up to the bound over the listed documents; states are "
         "merged when the whole focus chain coincides."),
 "C02": ("explicit-state exploration of all navigation/edit sequences in "
         "lockstep with a plain-tree model",
         "All sequences up to the bound; equality of value, position, "
         "outcome after every step."),
 "C03": ("exhaustive enumeration of receiver/argument pairs against a "
         "reference merge", "All pairs of the bounded document sets."),
 "C04": (REF + " of the JSON encoding",
         "All documents of all schemas of the bounded families with all "
         "single mutations. Over-qualified member names are outside the "
         "enumerated space."),
 "C05": (REF + " of the XML encoding",
         "All documents of the bounded families in four styles of namespace "
         "declarations, both directions, with all single-point mutations of "
         "selected documents. Content of anydata is not supported in XML by "
         "the library and is excluded."),
 "C06": (REF + " of YANG value spaces",
         "All types of the bounded families times all bounded lexical values "
         "in JSON, XML and text. The XSD regular expression subset used in "
         "patterns is decided by an own matcher."),
 "C07": (REF + " of canonical forms",
         "As C06, for values and canonical text, defaults and unions."),
 "C08": (REF + " of structural validation",
         "All documents of all schemas of the bounded grammar, three content "
         "types, several member orders."),
 "C09": (REF + " of semantic constraints",
         "All documents of all schemas of the bounded grammar, all content "
         "types and scopes, at every node. References inside unions are "
         "outside the enumerated space."),
 "C10": (REF + " of default values",
         "All documents of all schemas of the bounded grammar, all content "
         "types and all places of application."),
 "C11": (REF + " of path denotation",
         "All nodes of the bounded documents, all single-character mutations "
         "of their paths, all step sequences and edit histories up to the "
         "bounds."),
 "C12": (REF + " (an independent XPath 1.0 evaluator)",
         "All expressions of the bounded grammar at every node of the "
         "documents. Deviations pinned by the upstream tests (sibling axes "
         "select entries of the same list only, '*' on the root, numeric "
         "value of boolean leaves) are outside the enumerated space."),
 "C13": ("exhaustive enumeration of module texts over token alphabets, of all "
         "writings of strings and of all single faults, compared with a "
         "reference reader",
         "All texts within the bounds, on the real code; the reference reader "
         "is validated by the trees known by construction."),
 "C14": ("exhaustive enumeration of feature expressions, guarded places, "
         "feature sets and prerequisite structures against the RFC grammar",
         "All token sequences within the bounds; features named exactly as "
         "an operator are left open."),
 "C15": ("exhaustive enumeration of module compositions, each compared with "
         "its expansion on schema and documents",
         "All compositions within the bounds, both sides on the real code; "
         "expander written from RFC 7950."),
 "C16": ("exhaustive enumeration of listing orders, set iteration orders, "
         "module resolutions and library faults, compared with a reference",
         "All orders, import graphs, revision listings and single faults of "
         "the bounded libraries, on the real code."),
 "C17": ("exhaustive enumeration of identity graphs, module assignments and "
         "query histories against transitive closure",
         "All acyclic graphs and all query sequences within the bounds, on "
         "the real code."),
 "C18": ("explicit-state exploration of operation histories, with state "
         "hashing and one forked process per execution, compared with the "
         "outcome in a fresh process",
         "All pairs of 200 operations and all operations from all states "
         "reached within the bounds, on the real code."),
 "C23": ("exhaustive single (thorough: double) fault injection into instance "
         "documents and edits, followed by every operation",
         "All combinations of places, hostile values and operations within "
         "the pools, on the real code."),
 "C24": ("exhaustive enumeration of annotated documents, output filters and "
         "edit sequences against a reference tree with metadata",
         "All annotation sets, filters and edit sequences within the bounds "
         "stated in DESIGN.md."),
 "C25": ("exhaustive enumeration of XPath expressions, printed and compared "
         "by a reference parser",
         "All expressions of the bounded families, on the real code."),
 "C26": ("exhaustive enumeration of edits of a module set and of circular "
         "definitions, on the real code",
         "All single edits (pairs in the thorough tier) out of the pools, in "
         "all places, and all circular chains up to length 3."),
 "C21": ("exhaustive enumeration of schema trees and of paths over them, "
         "compared with independently written exports",
         "All schemas of the bounded families and all paths over their "
         "names, on the real code."),
 "C22": ("exhaustive enumeration of option and input combinations of the "
         "command-line tools, compared with the library and a reference "
         "converter",
         "All combinations of the bounded sets, in-process and partly as "
         "processes, on the real code."),
 "C19": ("stateless exploration of thread schedules of the real code "
         "(controlled preemption, partial-order reduction by observed stores "
         "into shared objects)",
         "All schedules of two operations up to one preemption at every line "
         "or shared access (two preemptions for conflicting ones); for "
         "operations that store into no shared object, all schedules."),
 "C20": ("exhaustive enumeration of value pairs and edit histories",
         "All pairs of the bounded value set and all bounded edit "
         "sequences."),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i][:2]
            checks.append({"property": i, "quick_cmd": f"./check {i.lower()} quick",
                "thorough_cmd": f"./check {i.lower()} thorough",
                "evidence_file": f"evidence/{i}.json", "technique": t,
                "level": "model_checking", "level_note": n})
        else:
            na.append({"property": i, "reason": "no check has been built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
            "setup_cmd": "/opt/venv/bin/python -c 'import yangson'",
            "checks": checks, "not_applicable": na,
            "notes": "Each check explores its bounded space completely on the "
            "code in /repo; see DESIGN.md."}, f, indent=1)
        f.write("\n")
main()
