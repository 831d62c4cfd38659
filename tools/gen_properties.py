#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "IDE solver computes the meet-over-valid-paths solution",
 "For every inter-procedural supergraph and every IDE problem with distributive flow and edge functions, the value the IDE solver reports for each (statement, fact) equals the join, over all call/return-matched paths from the initial seeds (given at entry points of functions), of the composed edge functions applied to the seed values, and facts not reached by such a path are not reported. This holds with recursion, several seeds and entry points, several callees per call, several return sites, and independently of work-list order, of edge recording and of flow/edge function caching.",
 ["inputs","programs","configurations"], "all finite supergraphs, distributive flow functions over finite fact sets, distributive edge functions over finite-height lattices, solver configurations",
 "Unit tests solve a few dozen fixed LLVM programs with one analysis each; recursion through multiple contexts, late-arriving call contexts after a callee summary exists, or late end summaries are hit only by chance.",
 ["include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h","include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h","include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h","include/phasar/DataFlow/IfdsIde/Solver/PathEdge.h"],
 [("tabulation: processCall/processExit/processNormalFlow, Incoming and EndSummary tables","IDESolver.h"),("phase II value propagation","IDESolver.h: propagateValueAtStart/propagateValueAtCall/setVal"),("jump function join","JumpFunctions.h")],
 [dict(name="jump functions", meaning="composed edge function per (source fact, statement, fact)", where="JumpFunctions.h"),dict(name="value table", meaning="solution", where="IDESolver::ValTab")],
 ["solver results: value per (statement, fact)"])

prop("C02", "IFDS facts are exactly the realizable-path reachable facts",
 "For every supergraph, seed set and distributive flow functions, the set of facts the IFDS solver reports at a statement is exactly the set reachable from the seeds along inter-procedurally realizable paths; a return only flows back to call sites that actually called with the matching callee entry fact. When the problem asks to follow returns past its seeds, returns of a function that was seeded (and not called within the analysis) additionally flow to all its callers; otherwise they do not.",
 ["inputs","programs","configurations"], "all finite supergraphs, fact sets and distributive flow functions, with and without following returns past seeds and automatic zero-fact generation",
 "Tests sample a few programs; context mix-ups need two call sites with different entry facts and a specific processing order.",
 ["include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h","include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h","include/phasar/DataFlow/IfdsIde/SolverResults.h","include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h"],
 [("incoming/end-summary bookkeeping","IDESolver.h: addIncoming, addEndSummary, processCall, processExit"),("unbalanced returns","IDESolver.h: processExit, UnbalancedRetSites"),("zero fact generation","ZeroedFlowFunction via FlowEdgeFunctionCache")],
 observe=["ifdsResultsAt/resultsAt for each statement"])

prop("C03", "Interrupted, stepped or cancelled solving changes no result",
 "However solving is driven - in one go, step by step, in batches, until a predicate or a timeout, under asynchronous cancellation, and with any number of interruptions followed by continuation - the run that eventually completes yields the same results as an uninterrupted solve. A driver delivers results exactly when all work is finished and no cancellation was requested by then, and otherwise returns no results and can be continued; every drive operation makes progress, and stepping says that there is more to do exactly as long as there is.",
 ["schedules","histories","inputs"], "all problems and all interleavings of step/batch/cancel/continue calls",
 "Tests interrupt a handful of programs at a few points; the guarantee is over every interruption point and every sequence of drive calls.",
 ["include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h","include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h"],
 [("solver phases initialize/next/finalize","IDESolverAPIMixin.h"),("cancellation check interval","IDESolverAPIMixin.h: continueUntilImpl")],
 observe=["return values of next/nextN/solveUntil/solveTimeout/solveWithAsyncCancellation/continue* and the solver results"])

prop("C04", "Edge functions compose and join like the functions they denote",
 "For the general-purpose edge functions (identity, constant, explicit composition, bounded join, all-top, all-bottom, cached handles) and those of the linear-constant, typestate and instruction-interaction analyses, composing f with g yields a function that maps every lattice value x to g(f(x)), and joining f and g yields a function that maps x to an upper bound of f(x) and g(x) (exactly their join where both are constants, or equal, or one is the neutral element); functions that compare equal map every value alike, and joining is order-insensitive up to the computed values. All-top stands for 'no path' and is neutral in composition and join; a composition whose first part is all-bottom may stay all-bottom; the instruction-interaction analysis' joins with identity are excluded (documented as an under-approximation). The joins of the shipped value lattices are idempotent, commutative and associative with top neutral and bottom absorbing. Edge-function handles are values: copying, moving and assigning them, and caching, never change what they compute.",
 ["inputs"], "all expressions built from shipped edge functions by composition and join, and all lattice values",
 "Tests check a few concrete compositions; algebraic laws quantify over all nested combinations.",
 ["include/phasar/DataFlow/IfdsIde/EdgeFunction.h","include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h","include/phasar/DataFlow/IfdsIde/EdgeFunctions.h","include/phasar/Domain/LatticeDomain.h","include/phasar/Utils/JoinLattice.h","lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"],
 [("composeWith/joinWith dispatch","EdgeFunction.h"),("default composition and join","EdgeFunctionUtils.h"),("lattice join","LatticeDomain.h")],
 observe=["computeTarget of composed/joined functions"])

prop("C05", "Flow-function combinators denote their documented fact relations",
 "Each shipped flow-function building block (identity, generate, kill, transfer, lambda, union, composition, zero-preserving wrapper, argument/parameter/return mapping, strong update at stores) maps every input fact to exactly the documented set of output facts; union yields the union and composition the relational composition of its parts, for all nestings. Initial seeds hold the last value added per statement and fact. Wrapping flow and edge functions in the solver's cache never changes what they compute.",
 ["inputs","histories"], "all nested combinations of flow-function building blocks, all facts, all lookup histories of the cache",
 "Tests instantiate each block once with one or two facts.",
 ["include/phasar/DataFlow/IfdsIde/FlowFunctions.h","include/phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h","include/phasar/DataFlow/IfdsIde/InitialSeeds.h"],
 [("flow function templates","FlowFunctions.h")],
 observe=["computeTargets results"])

prop("C06", "Intra-procedural monotone solver reaches the least fixed point",
 "For every control-flow graph and every monotone transfer function with a finite-height merge, the intra-procedural monotone framework solver terminates and its solution is the least solution of the data-flow equations for the initial seeds given at the entry statements of functions.",
 ["inputs","programs"], "all control-flow graphs (including loops), gen/kill and arbitrary monotone transfer functions, all seeds",
 "Tests cover a handful of tiny programs with a constant propagation and an assignment analysis.",
 ["include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h","include/phasar/DataFlow/Mono/IntraMonoProblem.h"],
 [("worklist iteration","IntraMonoSolver.h: solve")],
 observe=["getResultsAt per statement"])

prop("C07", "Call graphs contain every call a program can perform",
 "For every program and every call-graph construction algorithm that considers all instantiated or declared types or the aliases of the callee (CHA, RTA, OTF), each call executed from an entry point - direct, through a function pointer, or through a virtual method table - has its actual callee among the callees the call graph reports for that call site. Direct calls resolve to exactly their target, and the callees CHA and RTA report for a virtual call are limited to overriders in the static receiver's subtype hierarchy.",
 ["programs","configurations"], "all IR programs with direct, indirect and virtual calls, all entry points, algorithms CHA/RTA/OTF",
 "Tests check selected call sites of selected C++ files; soundness quantifies over all executions.",
 ["lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp","lib/PhasarLLVM/ControlFlow/Resolver/CHAResolver.cpp","lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp","lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp","lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp","lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp"],
 [("worklist over reachable functions with re-resolution of indirect calls","LLVMBasedCallGraphBuilder.cpp"),("resolvers","lib/PhasarLLVM/ControlFlow/Resolver")],
 observe=["getCalleesOfCallAt, getCallersOf"])

prop("C08", "Inter-procedural CFG answers are mutually consistent",
 "For every program and call graph, the caller and callee relations are inverses of each other, the call sites inside a function are exactly its call instructions, start points and exit points of functions and return sites of calls are those of the underlying intra-procedural CFG, and the backward inter-procedural CFG answers every query as the forward one with edge directions reversed. Global constructors, as modelled, are reached from the entry model.",
 ["programs","configurations"], "all IR programs and call-graph algorithms, both directions",
 "Tests check single queries on single programs.",
 ["include/phasar/ControlFlow/ICFGBase.h","include/phasar/ControlFlow/CallGraph.h","lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp","lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp"],
 [("caller/callee tables","CallGraph.h")], observe=["all ICFG queries"])

prop("C09", "Control-flow graphs follow the IR's control flow in both directions",
 "For every function, the forward CFG's successors of a statement are exactly the next non-ignored statements control can reach from it (for the guard check of a static local, by design, only the initializing side), predecessors are the inverse relation, the start points are the first statements that can execute and the exit points those after which control returns to or unwinds into the caller; the backward CFG, with or without artificial returns, is the exact reverse. Branch-target, fall-through, field-load/store, call and special-member classification agree with the instruction or the mangled name.",
 ["programs","configurations"], "all IR functions, with and without ignoring debug intrinsics",
 "Tests check hand-picked instructions.",
 ["lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp","lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp"],
 [("successor/predecessor enumeration","LLVMBasedCFG.cpp")], observe=["all CFG queries"])

prop("C10", "Alias information is sound and internally consistent",
 "Whenever two pointers that a function uses (its arguments, the pointers its statements compute, globals and functions it mentions) hold the same address in some execution of the function, the alias information (for every alias analysis, computed lazily or eagerly) does not claim they never alias, and each is in the other's alias set; a stack or heap allocation of the function whose start address such a pointer holds (for stack variables: any address inside) is among its reachable allocation sites. The alias relation is reflexive, symmetric and transitive on pointers; alias sets, pairwise queries and allocation-site queries agree; the order of queries does not matter; introducing an alias unites exactly the two alias sets, and merging alias information unites exactly along the alias sets of the other object.",
 ["programs","histories"], "all IR programs, alias analyses and all sequences of query/introduce/merge operations",
 "Tests look at a few pointer pairs in fixed programs.",
 ["lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp","include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h","include/phasar/Pointer/AliasInfoBase.h","lib/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.cpp"],
 [("union-find like merging of alias sets","LLVMAliasSet.cpp: mergeAliasSets, introduceAlias, mergeWith"),("alias sets of a function","LLVMAliasSet.cpp: computeValuesAliasSet, computeFunctionsAliasSet")],
 observe=["alias, getAliasSet, getReachableAllocationSites, isInReachableAllocationSites"])

prop("C11", "Type hierarchies and virtual tables match the class declarations",
 "For every set of C++ classes, the debug-information based type hierarchy reports as subtypes of a class exactly its reflexive-transitive derived classes, and the LLVM-type based one does so for the named classes outside of functions and templates as far as they have run-time type information (dynamic classes and their bases); isSubType, getSubTypes, names and lookups agree. The virtual table reported for such a class starts, in slot order, with the final overrider of each virtual method of its primary virtual table (debug-information based: the functions the class itself declares, at their slots). None of the queries, and neither printing, fails for any class declarations.",
 ["programs"], "all class hierarchies with single, multiple and abstract inheritance",
 "Tests cover around twenty fixed hierarchies.",
 ["lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp","lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp","lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp","lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp","lib/PhasarLLVM/ControlFlow/Resolver/CHAResolver.cpp"],
 [("type graph construction and transitive closure","LLVMTypeHierarchy.cpp, DIBasedTypeHierarchy.cpp")],
 observe=["getSubTypes, isSubType, getVFTable/getAllVTables"])

prop("C12", "Serialized analysis results load back unchanged",
 "Serializing a call graph, alias information (at any point of a history of queries, introduced and merged aliases) or a type hierarchy to JSON and loading it for the same program (through a string, a file or the JSON value) yields an object that answers every query like the original, also after further operations on it. Printing a loaded type hierarchy again gives the same data.",
 ["programs","configurations","histories"], "all IR programs, all serializable helper analyses, alias analyses and call-graph algorithms",
 "Tests round-trip a few fixed programs.",
 ["include/phasar/ControlFlow/CallGraph.h","include/phasar/ControlFlow/CallGraphData.h","lib/ControlFlow/CallGraphData.cpp","lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp","lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp","lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp","lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchyData.cpp","lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp"],
 [("printAsJson/deserialize constructors","CallGraph.h, LLVMAliasSet.cpp, DIBasedTypeHierarchy.cpp")],
 observe=["all queries on the reloaded objects"])

prop("C13", "Linear constant propagation never reports a wrong constant",
 "For every program, if the linear constant analysis reports a constant for an integer register, or for the integer a pointer refers to, at a statement, every execution that reaches this statement (by a valid path) has exactly that value there. Conversely, a register or scalar variable that holds the same constant on all paths, computed on each of them by the same linear operations (addition, subtraction, ... with one constant operand, without wrap-around) from the same constants through copies, memory, parameters and return values, is reported with that constant. Pointers: the analysis does not use alias information, so this is about programs that access every integer object through one pointer at a time (element addresses computed where they are used, pointer parameters used directly); functions without a body only write to memory passed to them.",
 ["programs"], "all IR programs over integer variables with branches, loops, calls, recursion, pointers and globals",
 "Tests check some forty fixed programs at fixed lines.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp","include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h","lib/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.cpp"],
 [("flow and edge functions for alloca/store/load/binop/call/return/global","IDELinearConstantAnalysis.cpp")],
 observe=["resultAt / resultsAt"])

prop("C14", "Taint analysis reports every source-to-sink flow",
 "For every program and every taint configuration (functions whose return value or pointer arguments are sources, whose arguments are sinks, whose pointer arguments are sanitized), whenever some execution passes data that a source returned or wrote - copied by assignments, conversions, phis and selects, through variables, globals, arrays and structs, pointers to them, aliases, parameters, return values, recursion and the copying functions of the C library (memcpy, strcpy, strdup, ...), and neither overwritten nor sanitized in between - to a sink argument (as the value itself or in the memory the argument points to), IFDSTaintAnalysis reports that argument of that call. On acyclic programs without globals, arrays, selects, phis, recursion and aliases nothing else is reported: a reported argument is tainted in some path (so overwriting and sanitizing untaint, also with sanitizers that are only declared). Arithmetic is not a copy.",
 ["programs","configurations"], "all IR programs, all source/sink/sanitizer configurations",
 "Tests cover about twenty fixed programs.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp","lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp","include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h","lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp"],
 [("taint flow functions and leak collection","IFDSTaintAnalysis.cpp")],
 observe=["Leaks map"])

prop("C15", "Every use of an uninitialized variable is reported",
 "For every program whose scalar and array variables are not aliased (each object is accessed through one name per function, parameters pointing to it included), whenever some execution reads a memory cell that was never written on that execution, or computes or branches with an undefined value (one read from such a cell, an undef literal, or a value computed from one, also when it went through variables, globals, parameters, return values, phis or calls through function pointers), the uninitialized-variables analysis reports that operand at that statement (with an undef literal among the operands, reporting the literal is enough). Functions without a body may initialise the memory their pointer arguments point to. On acyclic programs without globals, arrays, selects, phis and function pointers nothing else is reported: a reported operand is undefined in some path.",
 ["programs"], "all IR programs with branches, loops, pointers, calls",
 "Tests cover about twenty fixed programs.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp"],
 [("gen at alloca, kill at store, propagate by use","IFDSUninitializedVariables.cpp")],
 observe=["getAllUndefUses"])

prop("C16", "File-handle typestate covers all executions",
 "For every C program (unoptimised IR, CHA call graph) that opens, uses and closes file handles in any order and on any path, keeps them in local variables, copies them into variables that are not reassigned, and passes them to and gets them from helper functions that may be recursive, the state reported for a variable before a statement is, in every execution that reaches the statement, the state of the handle the variable holds (UNINIT, OPENED, CLOSED, ERROR) or BOT; a use after close, double close or use of an unopened handle on some path is thus never reported as a different single state. The guarantee presupposes that the alias information tells different variables of a function apart unless one is a copy of the other, and concerns variables that are read somewhere. In straight-line programs the reported state is exactly the state of the handle (never BOT) in functions entered once.",
 ["programs","histories"], "all call sequences of the file API over branches, loops and helper functions",
 "Tests cover about fifteen fixed programs.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp","include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h","lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp"],
 [("delta automaton","CSTDFILEIOTypeStateDescription.cpp"),("typestate edge functions","IDETypeStateAnalysis.h")],
 observe=["resultAt per statement and alias"])

prop("C17", "Global constructor/destructor model runs everything in language order",
 "In the entry model built for a program with global constructors and destructors, every registered constructor is called exactly once, in ascending priority order (declaration order within one priority), before the user entry points, each requested entry point is called, and after main every destructor registered at run time is called in reverse order of registration and then every statically registered destructor in the reverse of the constructor order. A module without globals is modelled with the same entry points and nothing else.",
 ["programs","configurations"], "all sets of constructors/destructors with priorities and all entry point selections",
 "Tests check four fixed programs.",
 ["lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp"],
 [("constructor/destructor collection ordered by priority","GlobalCtorsDtorsModel.cpp")],
 observe=["IR of the generated model functions, executed abstractly"])

prop("C18", "Path reconstruction yields exactly the recorded witness paths",
 "For every recorded exploded supergraph and every queried statement with one or more facts, path reconstruction terminates and the path DAG denotes paths along recorded edges: each starts at a seed, ends at the query, and follows edges of the supergraph, where edges that keep a (non-zero) fact inside one basic block may be contracted. When the supergraph, up to such contracted facts, is acyclic, no path from a seed to the query is lost: the DAG has one through the same basic blocks that leaves each of them at the same statement (calls and returns need not match; filters are for that). A depth limit only cuts paths to their suffixes and keeps every path that is short enough, minimization keeps the language of the DAG, and reversing a DAG turns its edges around and nothing else.",
 ["programs","inputs","configurations"], "all supergraphs, orders of recording, queries and limit configurations",
 "Tests check a few dozen fixed queries by path count.",
 ["include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerBase.h","include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h","include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h","include/phasar/Utils/DFAMinimizer.h","include/phasar/Utils/AdjacencyList.h"],
 [("recording of edges","ExplodedSuperGraph.h"),("reverse DAG construction","PathSensitivityManagerMixin.h"),("DFA minimization","DFAMinimizer.h")],
 observe=["language of the path DAG"])

prop("C19", "Utility containers behave like the mathematical objects they model",
 "Under every sequence of operations the bit-vector set behaves as a set, the equivalence-class map as a map over merged classes, the two-dimensional table as a finite map on pairs, the stable vector as a sequence whose element references stay valid, the call-string context as a bounded stack keeping the most recent entries, and copies are independent of their originals. Equality, ordering and hashing agree with the abstract value and not with how it was built.",
 ["histories","inputs"], "all operation sequences",
 "Tests run fixed short operation sequences.",
 ["include/phasar/Utils/BitVectorSet.h","include/phasar/Utils/EquivalenceClassMap.h","include/phasar/Utils/Table.h","include/phasar/Utils/StableVector.h","include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h"],
 [("container implementations","include/phasar/Utils")], observe=["results of every operation and full iteration"])

prop("C20", "Program database lookups are stable, unique and inverse",
 "For every module, the project database assigns each instruction and global a unique id with lookups by id, by name and by iteration agreeing and inverse to each other, counts equal to the real numbers, and ids, once assigned, keep denoting the same value when generated functions are added later. Resolving functions, globals and entry points by name finds exactly the existing ones.",
 ["programs","histories"], "all IR modules and insertion sequences",
 "Tests look up a few instructions in fixed modules.",
 ["lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp","include/phasar/DB/ProjectIRDBBase.h"],
 [("id assignment by annotation pass and tables","LLVMProjectIRDB.cpp")],
 observe=["getInstruction, getInstructionId, getFunction, getNumInstructions, ..."])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    import sys
    assert len({p['id'] for p in P}) == len(P)
    for p in P: assert len(p['title']) <= 80, p['id']
