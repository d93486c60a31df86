#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks below."""
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GRAPH = ("TLA+ specification of the graph and of its caches, checked with TLC; every transition of the bounded state "
         "graph and random histories replayed on the real graph; recorded histories validated with TLC")
GRAPH_NOTE = ("Exhaustive for all histories over {ids} ids up to cache-equivalent states (quick 3, thorough 4), random for 5 ids, "
              "trace validation for 8 ids. Assumes histories beyond these bounds behave alike, and trusts TLC and the replay harness.")

LANG = ("TLA+ specification of lexer, grammar and outputs (an executable reference, invariants checked with TLC on every document); "
        "documents generated by TLC replayed on the real parser, whole trees compared")
LANG_NOTE = "Exhaustive for every text of {w}; random beyond that: "

CHECKS = {
    "C01": (GRAPH, GRAPH_NOTE),
    "C02": (GRAPH, GRAPH_NOTE),
    "C03": (GRAPH, GRAPH_NOTE + " Snapshots: every returned collection is overwritten and all views are compared again."),
    "C04": (GRAPH + "; walker/caller specification with recorded walks validated with TLC",
            "Every acyclic graph up to relabelling with 5 (thorough 6) vertices, walked from every vertex in both directions; "
            "every caller script up to 4 calls. Larger graphs (12 vertices) at random only."),
    "C05": ("TLA+ specification of walker and caller as concurrent processes (safety and liveness with TLC); every caller script run on "
            "the real walkers in a synctest bubble, recorded walks validated with TLC",
            "Every script of at most 5 (thorough 7) calls over twelve graph shapes, both directions, both values of a request, several schedules each: the Go "
            "scheduler picks the interleavings, so races within one script are sampled; termination and leaks are decided by the bubble."),
    "C06": (GRAPH + "; every acyclic graph up to relabelling reduced",
            "Every acyclic graph up to relabelling with 4 (thorough 5) vertices, cached or not, reduced, then one more operation; "
            "reductions inside exhaustive 3 (4) id histories and random ones."),
    "C07": ("TLA+ specification of set handles, every transition replayed on dag.Set, random histories",
            "Exhaustive for 3 handles over 2 elements (thorough also 2 handles over 4), including nil and self operands and a later "
            "change of either side of every result; random for 4 handles over 6 elements and for sets of 40 elements."),
    "C08": (LANG, LANG_NOTE.format(w="3 (thorough 4) pieces over ten alphabets of items") + "declarations, functions, types and nested blocks."),
    "C09": (LANG, LANG_NOTE.format(w="3 (thorough 4) pieces over eleven alphabets of expressions, all operator sequences among them") + "nested expressions. The fast "
            "reading of the grammar is compared with the plain one."),
    "C10": (LANG, LANG_NOTE.format(w="4 (thorough 5) symbols inside strings and heredocs") + "strings, heredocs and interpolations."),
    "C11": (LANG + "; values computed from the digits by the specification",
            LANG_NOTE.format(w="4 (thorough 5) symbols of number literals") + "numbers among them. Fractions and exponents are compared to 52 bits."),
    "C12": (LANG + "; pumped texts (deep nesting, long sequences) whose outcome the specification fixes",
            LANG_NOTE.format(w="2 or 3 pieces over all alphabets") + "documents damaged up to three times. Nesting up to 300 (thorough 2000); "
            "termination is a time limit of 30 s per text."),
    "C13": (LANG, LANG_NOTE.format(w="3 (thorough 4) pieces of layout, comments and texts") + "documents; the position of every node is compared."),
    "C14": (LANG + "; histories of changes of trees", LANG_NOTE.format(w="2 (thorough 3) pieces over all items and expressions")
            + "documents; every node's children and parent are compared, and again after random changes and an update of the links; nesting up to 150 (thorough 400)."),
    "C15": ("TLA+ specification of trees under clones and changes (every tree a value of its own), random histories replayed on the real "
            "trees, all trees compared after every step", "Random histories of at most 8 steps on up to 4 trees of random documents; every "
            "node of generated documents cloned and its memory checked for overlap. Assumes other node shapes behave alike."),
    "C16": (LANG + "; the specified formatter output replayed on the real one", LANG_NOTE.format(w="2 (thorough 3) pieces over all alphabets")
            + "documents, also changed ones; the blanks of texts and comments are compared, those between other pieces are not."),
    "C17": ("Random documents from the TLA+ specification formatted, parsed and formatted again by the real code; the recorded pairs of texts "
            "judged by the specification (equal meaning) with TLC", "Every text of 2 to 4 (thorough 3 to 5) pieces over six alphabets, random documents, without maps, heredocs, raw line ends in strings, "
            "number members and multi-line comments with line ends."),
    "C18": ("TLA+ specification of sessions (entry points, reader scripts, concurrent calls, changes meanwhile) replayed on the real parser, "
            "also with the race detector", "Every sequence of two calls over four fixed texts and all reader endings; random sessions of ten steps "
            "with up to four concurrent calls. The Go scheduler picks the interleavings."),
    "C19": (LANG, LANG_NOTE.format(w="4 (thorough 5) symbols of comments and line ends, 2 (3) pieces inside items") + "documents with comments and empty lines."),
    "C20": (LANG + "; the specified JSON compared with the real one, two layouts of every document",
            LANG_NOTE.format(w="2 (thorough 3) pieces over all alphabets") + "documents in two layouts."),
    "C21": (LANG + "; the first bad item and the furthest token looked at, both from the specification, bound the reported place",
            LANG_NOTE.format(w="2 (thorough 3) pieces over all alphabets") + "documents damaged up to three times."),
}

NOT_APPLICABLE = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = []
    for p in props:
        if p not in CHECKS:
            continue
        t, note = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                       "technique": t, "level": "model_checking", "level_note": note.replace("{ids} ", "")})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks,
         "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "the check is still being built")}
                            for p in props if p not in CHECKS],
         "notes": "All checks: python3 run.py all. Specifications in spec/, conformance harness in harness/, driver in run.py and lib/."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
