#!/usr/bin/env python3
"""Single source for MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
CHECKS = {
 "C01": ("TLA+: IDE tabulation state machine + valid-path definition, TLC over random/small-exhaustive supergraphs; results of the real solver validated against both",
         "Exact comparison of the real solver's values with the specification on every explored instance (thousands of supergraphs, all processing orders for small ones). Bounded: instance sizes, 8-element value lattice."),
 "C02": ("TLA+: IFDS tabulation + valid-path definition, TLC; facts of the real solver validated against both, returns past seeds bounded from both sides",
         "Exact comparison of facts on every explored instance; for returns past seeds the order-dependent part is bounded from below and above."),
 "C03": ("TLA+: drive-protocol state machine; all scripts up to length 3 generated by TLC and replayed on the real solver, recorded traces validated by TLC, results against the tabulation spec",
         "Every operation's return value and amount of work is validated against the protocol; final results against the specification. Bounded: script length 3, random problems."),
 "C04": ("TLA+: denotational semantics of edge-function expressions over each value lattice and a value-semantics model of edge-function handles; values computed by the real functions recorded and checked by TLC",
         "Every recorded value of composed/joined functions, equality and lattice law is compared with the denotation. Bounded: expression depth and the sample of lattice values."),
 "C05": ("TLA+: denotation of every combinator and LLVM fact mapper as a relation, the cache as a transparent state machine over lookup histories; relations and answers recorded from the real code checked by TLC",
         "Exact comparison of every recorded relation/answer. Bounded: five facts, nesting depth, generated IR call sites, history length."),
 "C06": ("TLA+: work-list state machine of the monotone framework solver, every processing order for small CFGs, least solution computed by TLC compared with the real solver's results",
         "Exact comparison with the least solution on thousands of CFGs, union and intersection problems. Bounded: CFG size, 2..16 facts; intra-procedural solver only."),
 "C07": ("TLA+: executions of object-oriented programs (objects, virtual dispatch, function pointers in variables, globals, structs, tables) as a state machine; TLC executes generated C++ programs along all paths and demands that the callee of every executed call is among the callees recorded from the real call graphs (CHA, RTA, OTF)",
         "Every call of every execution (up to 50 steps and 11 choices) of about 320 generated C++ programs (9000 call sites), at -O0 and with promoted registers; exactness of direct calls and of the subtype hierarchy for CHA/RTA. Single inheritance; calls through secondary bases are a known finding. Bounded: program size, step count."),
 "C08": ("TLA+: discovery of the program from its entry points as a state machine; every answer of the real ICFG, its backward view and the stored and reloaded call graph checked by TLC when discovery is complete",
         "Exact comparison of callers, callees, vertices, call and return sites and non-call start nodes on generated modules for all call-graph types; the targets of indirect calls are taken from the recorded graph (C07 decides their soundness). Bounded: module size."),
 "C09": ("TLA+: execution of a function over its explicit control-flow graph, with and without debug statements; every answer of the real forward and backward CFGs checked by TLC in every reachable state",
         "Exact comparison of every CFG query on generated functions with all terminator kinds, debug intrinsics and guard checks. Bounded: function size."),
 "C20": ("TLA+: state machine of the project database (contents, insertions, ids); every answer of the real database recorded for modules built in four ways and after insertions, checked by TLC in every state",
         "Exact comparison of every id, lookup, enumeration and entry-point answer on generated modules. Bounded: module size, number of insertions."),
 "C11": ("TLA+: class declarations processed one after the other as a state machine (subtype relation, layout of virtual tables with multiple and virtual inheritance); every answer of the real type hierarchies and virtual-table providers, recorded for clang-compiled generated classes, checked by TLC against the final state",
         "Exact comparison of subtypes (both hierarchies), names, lookups and virtual tables on about 500 generated programs with single, multiple, virtual inheritance, templates, local, unnamed and C types. Bounded: number of classes; the scope differs between the hierarchies as stated in the property."),
 "C10": ("TLA+: operational semantics of a fragment of LLVM IR (MiniIR): TLC executes generated pointer programs along all paths and demands that pointers holding equal addresses are aliases; alias information as an equivalence relation under histories of introduce/merge/query operations, recorded from the real objects and checked step by step",
         "Every state of every execution (up to 60 steps) of 300 generated programs, for CFLAnders, CFLSteens and Basic, lazy and eager; every answer after each of 900 operation histories compared exactly with the relation. Bounded: program size, step count, history length; only pointers of one activation are compared (the analysis is intra-procedural)."),
 "C12": ("TLA+: the specifications of the originals (class declarations, alias relation under operation histories, discovered call graph) with store-and-load as an identity transition; every answer of the loaded real objects checked by TLC",
         "Exact comparison of every answer of loaded type hierarchies (250 programs), alias information (800 histories with loading in between) and call graphs (450 graphs). Vertices without edges of a call graph are a known finding. Bounded: program size, history length."),
 "C13": ("TLA+: operational semantics of a fragment of LLVM IR (MiniIR); TLC executes generated programs along all paths and compares every constant the real analysis reports with the values of the executions, and demands the constants all executions of acyclic programs agree on",
         "Every reported constant is compared with every execution of about 900 generated programs with branches, loops, recursion, pointers, arrays and globals up to 60 steps; completeness on acyclic programs. Two known findings (results of external functions, parameters of entry functions) are left out of the generated programs."),
 "C14": ("TLA+: operational semantics of a fragment of LLVM IR (MiniIR) with a taint bit per value and memory cell; TLC executes generated programs along all paths and demands that every tainted argument of a sink is among the leaks the real analysis reports, and on simple acyclic programs that nothing else is",
         "Every sink call of every execution (up to 60 steps) of about 1000 generated programs with generated configurations, each library function with a modelled summary, and exactness on 300 acyclic programs with all paths. Bounded: program size and step count; pointers to pointers one level deep."),
 "C15": ("TLA+: operational semantics of a fragment of LLVM IR (MiniIR) in which memory starts undefined; TLC executes generated programs along all paths and demands that every use of an undefined value is among the uses the real analysis reports, and on simple acyclic programs that nothing else is",
         "Every statement of every execution (up to 60 steps) of about 700 generated programs with branches, loops, recursion, pointers, arrays, globals and function pointers, plus exactness on 250 acyclic programs with all paths. Bounded: program size and step count."),
 "C16": ("TLA+: executions of programs over file handles (activations, variables, handles, the automaton of a handle) as a state machine; TLC executes generated C programs along all paths and compares the state of every variable's handle with the one the real analysis reports",
         "Every state of every execution (up to 60 steps, 10 choices) of about 500 generated C programs with branches, loops, recursion, helpers that take or return handles, copies and all functions of the file API; exactness on straight-line programs. Programs whose variables the alias information confuses (about one in six) are skipped and counted."),
 "C17": ("TLA+: the language's start-up/termination sequence as the specification of executions of the generated entry model, whose recorded statements TLC executes along every path",
         "Every execution of every generated model is compared with the prescribed call sequence, on generated modules (text and bitcode) with constructors, destructors, run-time registrations and entry selections. Bounded: module size."),
 "C18": ("TLA+: recorded exploded supergraphs and path DAGs as two automata over statements; TLC plays simulation games between them (walk in one, match in the other): witness paths are recorded paths, recorded paths have witnesses, minimization and depth limits keep the language, for DAGs the real path-sensitivity manager returned",
         "Complete language comparison on every explored graph: about 800 supergraphs (acyclic and cyclic, several seeds, calls, recursion, every recording order of three work-list disciplines) with three queries and four configurations each, and 600 random DAGs. Order of statements inside one basic block is only kept loosely (two known findings). Bounded: graph size (about 40 nodes). The SMT constraints of the Z3-based manager are not decided."),
 "C19": ("TLA+: sequential models of the containers; operation traces recorded from the real containers (random, and every short sequence around block boundaries) validated step by step by TLC",
         "Every returned value, the full content after every operation, equality/order/hash matrices, reference stability and element lifetimes are compared with the model. Bounded: trace length and element counts."),
}
LEVELS = {}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd=f"VERIF_TIER=quick python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
               technique=CHECKS[p][0], level=LEVELS.get(p, MC), level_note=CHECKS[p][1]) for p in props if p in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, "No check built yet (work in progress).")) for p in props if p not in CHECKS],
         notes="TLA+ (TLC). No hooks in /repo: every check drives public interfaces. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
