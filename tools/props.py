#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "dwave/optimization/src/"
I = "dwave/optimization/include/dwave-optimization/"
PY = "dwave/optimization/"
PROPS = []
CLAIM = {}
NA = {}


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                              "observe_at": observe or [], "hook_needed": None}})


def claim(id, technique, note):
    CLAIM[id] = (technique, note)


def na(id, reason):
    NA[id] = reason


NODES = [S + "nodes/" + x for x in ("_state.hpp", "collections.cpp", "flow.cpp", "indexing.cpp", "manipulation.cpp",
                                    "mathematical.cpp", "numbers.cpp", "quadratic_model.cpp", "constants.cpp", "testing.cpp")]
HDRS = [I + "nodes/" + x for x in ("collections.hpp", "constants.hpp", "flow.hpp", "indexing.hpp", "manipulation.hpp",
                                   "mathematical.hpp", "numbers.hpp", "quadratic_model.hpp", "testing.hpp")]
STATIC = ("Decided from clang's type-checked program for every translation unit of the library (templates as instantiated by it): "
          "each method is expanded with its callees into its acyclic paths of effects (writes, appends, reads, throws) over symbolic "
          "locations, loops once symbolically. ")
TRUST = ("Three-valued: an obligation whose terms cannot be resolved is reported as undecided in the evidence and stays quiet; a violation "
         "needs positive evidence. Trusts clang's front end, the standard-library effect table and the rule tables in tools/dw.")

P("P01", "Reverting a rejected change restores the previous state exactly",
  "For every symbol and every sequence of moves and propagations on a state, reverting before a commit brings back exactly the values, "
  "sizes and auxiliary data the symbol had after the last commit (or initialisation), in whatever order and however often an element was "
  "changed. After the revert the list of pending changes is empty and the size-difference is zero.",
  ["histories", "inputs"], "all symbols, all interleavings of moves/propagations on any state, all values",
  "The bundled Python suite never reverts at all, and C++ samples only revert a handful of single-change histories; the guarantee is over all histories, including repeated writes and grow/shrink of the same element.",
  NODES + HDRS + [S + "nodes/_state.hpp"],
  [("per-node revert(State&) overriding the node interface", HDRS[0]), ("ArrayStateData/ArrayNodeStateData change log unwound by revert", S + "nodes/_state.hpp"),
   ("auxiliary old copies (old value, previous counts) written back by revert", S + "nodes/mathematical.cpp")],
  ["the values a symbol exposes after Graph::revert"],
  [("change log", "index/old/new triples since the last commit", S + "nodes/_state.hpp")])
claim("P01", "path-effect analysis: write-set of moves/propagation vs. restore-set of revert, undo-log completeness and order",
      STATIC + "For every node class: each state part any move or propagation writes must be restored by revert on every path, from a saved copy that only commit refreshes or from the old side of a log that has an entry for each in-place change, unwound newest-first. Decides the restore structure, not arithmetic. For slices the state shown after a revert, and after the next proposal, is evaluated over enumerated small histories. " + TRUST)

P("P02", "Accepting a change makes it the new baseline",
  "Committing keeps exactly the values the propagation produced, empties the list of pending changes, and makes those values what a later "
  "revert returns to and what later changes and size-differences are measured against.",
  ["histories", "inputs"], "all symbols, all histories of commit and revert",
  "The bundled suite never runs a second transaction after a commit; stale logs or stale saved copies only show on a later revert.",
  NODES + HDRS,
  [("per-node commit(State&)", HDRS[0]), ("old-copy refresh and log clear in commit", S + "nodes/_state.hpp")],
  ["diff and values seen after Graph::commit followed by more moves"])
claim("P02", "path-effect analysis: commit clears every change log, refreshes every saved copy, writes no live value",
      STATIC + "For every node class commit must empty every log that moves/propagation append to, refresh every saved copy revert restores from with the live value it saves, and leave live values untouched, on every path. For slices the state after a commit, and after the next proposal, is evaluated over enumerated small histories. " + TRUST)

P("P03", "The change list a symbol reports is true",
  "The list of changes a symbol reports for a pending transaction is complete and correct: every element whose value differs from the baseline is listed, "
  "and each entry carries the element's own index, its value just before that change and its value just after it, with appended elements marked as having no "
  "previous value and removed elements as having no new one. Where several changes of an element are combined into one, it carries the first previous value and the last new one.",
  ["histories", "inputs"], "all symbols that expose a change list, all propagation inputs",
  "A wrong, missing or duplicated entry is invisible until a downstream symbol consumes exactly that entry incrementally; the Python suite never propagates incrementally.",
  NODES + HDRS + [I + "array.hpp"],
  [("set/append/trim helpers that write the value and the record together", S + "nodes/_state.hpp"), ("diff(State) overrides", HDRS[0]), ("Update records", I + "array.hpp"), ("deduplicate_diff", S + "utils.cpp")],
  ["ArrayNode diff seen by successors during propagation"])
claim("P03", "path-effect analysis: one record per write with matching index, pre-value and post-value; replay of the change list over a finite operand domain",
      STATIC + "For each class whose diff is a log over a buffer: every buffer write on every path has a record with the same index term, the pre-state value and the written value, and every record a write. "
      "For computed symbols the change list the transfer function of propagate leaves is also replayed, entry by entry, over enumerated small operand histories. For slices this goes over two proposals with a commit or revert between them. " + TRUST)

P("P04", "Incremental propagation gives what computing from scratch gives",
  "After changes of its operands are propagated, a symbol that computes its elements from them holds the elements, up to rounding, that a fresh computation from the operands' new elements gives: "
  "element-wise operations of one, two or many operands (also with a single value combined with an array), selection by a condition, concatenation, size, reductions of a whole array or along one axis, permutation by a changing order, slices of arrays that grow and shrink, and quadratic models. "
  "This holds whatever was reported as changed, in any order, several times or back again, with elements appended and removed where the operand can grow; of symbols that index one array by others it covers which elements they show and where a changed element is passed on, not the order of their updates.",
  ["histories", "inputs"], "all symbols of these kinds, all operand values, all change lists their operands can report",
  "The Python tests compute every symbol once, from scratch; a wrong incremental step (a zero that enters a product, a removed maximum, a condition that flips twice, an operand that changes together with another) shows only after particular sequences of moves, and the energy is then silently wrong.",
  [S + "nodes/mathematical.cpp", S + "nodes/flow.cpp", S + "nodes/manipulation.cpp", S + "nodes/indexing.cpp", S + "nodes/quadratic_model.cpp", S + "nodes/_state.hpp", I + "nodes/mathematical.hpp"],
  [("propagate and initialize_state of the element-wise, n-ary and reduction nodes", S + "nodes/mathematical.cpp"), ("WhereNode", S + "nodes/flow.cpp"), ("ConcatenateNode, SizeNode", S + "nodes/manipulation.cpp"),
   ("PermutationNode, BasicIndexingNode", S + "nodes/indexing.cpp"), ("QuadraticModelNode", S + "nodes/quadratic_model.cpp"), ("assign / update / set", S + "nodes/_state.hpp")],
  ["the elements of a symbol after propagate compared with those of a fresh state"])
claim("P04", "transfer functions extracted from propagate (effects per path, loops with carried values) compared with the specification over finite operand domains; induction step for reductions",
      STATIC + "The effect summary of propagate is evaluated as a transfer function over enumerated small operand states and change lists (600 per kind in the quick check, all in the thorough one) and must give the elements the operation defines; "
      "slices are followed through initialisation, two proposals and the commit or revert between them; for reductions one or two changes are compared with the fold initialize_state computes, for all small remaining elements. For advanced indexing the index arithmetic (which elements are read, where a changed element goes) is partially evaluated for every pattern of slices and index arrays of up to four axes, and the map from places to positions must follow each change of the places. Values are small numbers, so overflow and loss of precision are outside. " + TRUST)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        assert (i in CLAIM) != (i in NA), i
        if i in CLAIM:
            t, n = CLAIM[i]
            checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                           "technique": "static analysis: " + t, "level": "other", "level_note": n})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
               "notes": "No hooks in /repo. All checks parse /repo's current working tree; see DESIGN.md."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
