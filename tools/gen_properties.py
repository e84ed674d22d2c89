#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long text stays reviewable)."""
import json, pathlib
R = "dwave/optimization/"
S = R + "src/"
H = R + "include/dwave-optimization/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": [observe]} if observe else {}), hook_needed=hook)))

NODES = [S+"graph.cpp", H+"graph.hpp", H+"array.hpp", S+"array.cpp", S+"nodes/_state.hpp", S+"nodes/collections.cpp",
         S+"nodes/flow.cpp", S+"nodes/indexing.cpp", S+"nodes/manipulation.cpp",
         S+"nodes/mathematical.cpp", S+"nodes/numbers.cpp", S+"nodes/quadratic_model.cpp", S+"utils.cpp"]

p("P01", "Incremental updates give the same values as evaluating from scratch",
  "After any sequence of moves on the decision variables of a model, accepted or rejected in any order, every symbol's values, shape and size in that state are the ones its definition gives for the current values of its operands. The objective and the feasibility verdict agree with those values too. It makes no difference whether the state was reached step by step or initialised directly.",
  ["histories", "programs", "inputs"],
  "every model graph over all symbol kinds (static and dynamically sized), every history of moves, accepts, rejects, partial proposals and re-initialisations",
  "each symbol kind has its own incremental update code whose correctness depends on the order, duplication and kind (set/grow/shrink) of changes arriving from any combination of predecessors; the C++ tests try a handful of histories on two- or three-node graphs and the Python tests never drive the incremental engine at all",
  NODES,
  [("propose/descendants/propagate/commit", S+"graph.cpp"), ("per-node propagate()", S+"nodes/*.cpp"),
   ("shared incremental buffers", S+"nodes/_state.hpp"), ("change-list deduplication", S+"utils.cpp")],
  "values, shape and size of every array node after every propagate, commit and revert")

p("P02", "A rejected proposal leaves no trace",
  "When a proposed change is rejected, every symbol in the state has bit for bit the values, shape and size it had before the proposal. From then on the state behaves like one in which the rejected proposal was never made, for every later move, acceptance and rejection (exactly, except that sums of values that are not exact may round differently).",
  ["histories", "programs", "fault_sequences"],
  "every model graph, every proposal (one or many mutations, one or many decisions, abandoned before, during or after propagation, rejected by a verdict or by an exception in the verdict), every continuation",
  "hidden per-state caches (running sums, counters of zeros, index tables, unused parts of collections, previous sizes) are restored separately from the visible values, so a wrong restore shows only several moves later on particular histories",
  NODES,
  [("revert of every node", S+"nodes/*.cpp"), ("propose", S+"graph.cpp")],
  "snapshot before the proposal and after the rejection, plus a twin state that never saw the rejected proposals")

p("P03", "Published change lists turn the old value into the new one",
  "While a proposal is pending, each symbol's published list of changes, applied in order to its values before the proposal, gives exactly its current values, with every recorded old value correct and growth and shrinkage only at the end. The published change in size equals the actual change in size. After acceptance or rejection the list is empty and the change in size is zero.",
  ["histories", "programs"],
  "every model graph, every pending proposal and every symbol in it",
  "successors of every kind rely on these lists and on nothing else, a list that is wrong only for duplicated, interleaved grow/shrink or cancelled changes is invisible until a particular successor consumes it on a particular history",
  NODES,
  [("diff()/size_diff()", S+"nodes/*.cpp"), ("Update", H+"array.hpp"), ("deduplicate_diff", S+"utils.cpp")],
  "change lists of every array node after propagation, after commit and after revert")

p("P04", "States of one model are independent under every interleaving",
  "Any number of clients, each with its own state, may use one finished model at the same time. Whatever the interleaving of their operations, each client observes exactly the values, shapes, changes and properties it would observe running alone.",
  ["schedules", "histories"],
  "every number of clients, every per-client history and every interleaving of their steps, including the first use of lazily computed facts about the model",
  "tests use one state or touch states one after the other; interference needs one client to run between two particular steps of another",
  [S+"nodes/constants.cpp", S+"nodes/indexing.cpp", H+"nodes/constants.hpp", H+"nodes/indexing.hpp", S+"graph.cpp", S+"nodes/collections.cpp", S+"utils.cpp"],
  [("lazily cached statistics of constants behind a lock", S+"nodes/constants.cpp"),
   ("shape of dynamically sized results", S+"nodes/indexing.cpp"), ("const model, per-client state", H+"graph.hpp")],
  "per-client history of observations compared with a solo run of the same client")

p("P05", "Moves keep every decision valid for every random stream",
  "After any sequence of default or random initialisations and default or explicit moves, whatever the random stream supplied, every decision still encodes a legal value: numbers within their bounds and integral, lists permutations, sets subsets without repeats within their size limits, disjoint lists and disjoint sets exact partitions. A default move or random initialisation is a function of the state and the random stream alone.",
  ["histories", "inputs", "fault_sequences"],
  "every decision kind and parameterisation, every history of moves, acceptances and rejections, every random stream including extreme ones",
  "tests draw a few moves from one generator; an off-by-one in a distribution or an undo path shows only for boundary draws after particular histories",
  [S+"nodes/collections.cpp", S+"nodes/numbers.cpp", H+"nodes/collections.hpp", H+"nodes/numbers.hpp"],
  [("default_move", S+"nodes/collections.cpp"), ("explicit mutators", S+"nodes/numbers.cpp"), ("RngAdaptor seam", H+"graph.hpp")],
  "values of each decision after every move, commit and revert")

p("P06", "Reported bounds, integrality and sizes always hold",
  "In every state reachable by any history, every value of a symbol lies between the minimum and maximum the symbol reports, is an integer if the symbol says it is integral and is zero or one if the symbol says it is logical. Its size lies within the size limits it reports and its shape agrees with the shape it declares.",
  ["histories", "programs", "inputs"],
  "every model graph and every state reachable through initialisation, moves, acceptances and rejections",
  "symbols trust these facts of their operands when the model is built (index ranges, division, square roots, logical constraints, buffer sizes), so a bound that is wrong only for mixed signs, empty or extreme values passes all tests until some state reaches it",
  [S+"nodes/mathematical.cpp", S+"nodes/indexing.cpp", S+"nodes/flow.cpp", S+"nodes/manipulation.cpp", S+"nodes/constants.cpp", S+"nodes/collections.cpp", S+"nodes/numbers.cpp", S+"array.cpp"],
  [("min()/max()/integral()/logical()", S+"nodes/*.cpp"), ("sizeinfo()", S+"array.cpp")],
  "values and sizes of every array node in every visited state")

p("P07", "A refused operation changes nothing",
  "When building a symbol, setting the objective, adding a constraint or initialising a decision is refused because its arguments are invalid, or a state cannot be initialised because memory ran out, the model and every other symbol and state stay as they were. Everything that was possible before remains possible, and a retried initialisation gives the correct values.",
  ["fault_sequences", "histories", "programs"],
  "every kind of refused construction and initialisation, at every point of every build and move history, and an allocation failure at any allocation during state initialisation",
  "tests check that the error is raised, not that the model that raised it can still be sorted, evaluated, moved and torn down afterwards",
  [S+"nodes/mathematical.cpp", S+"nodes/indexing.cpp", S+"nodes/flow.cpp", S+"nodes/manipulation.cpp", S+"nodes/collections.cpp", S+"graph.cpp", H+"graph.hpp"],
  [("emplace_node and node constructors", H+"graph.hpp"), ("add_predecessor", H+"graph.hpp"), ("initialize_state overloads", S+"nodes/*.cpp")],
  "graph structure before and after the refused operation, then continued use")

p("P08", "A saved model loads back as the same model with the same states",
  "Saving any model, with any number of its states, and loading the file gives a model with the same symbols, the same structure, objective and constraints, and the same set of initialised decision values. Every symbol of the loaded model evaluates to the same values in every state. Saving the loaded model again loses nothing either.",
  ["programs", "histories", "configurations"],
  "every model that can be built, every pattern of initialised and uninitialised states, every number of states saved, saved while locked or unlocked, through any seekable file object",
  "each symbol kind stores and restores its own parameters and the order of symbols depends on how the model was built; tests round-trip each kind once in a minimal model",
  [R+"_model.pyx", R+"symbols.pyx", R+"model.py", R+"states.pyx"],
  [("into_file/from_file", R+"_model.pyx"), ("per-symbol storage", R+"symbols.pyx"), ("state storage", R+"_model.pyx")],
  "loaded model compared with the original symbol by symbol and value by value")

p("P09", "Failed saves and damaged files never produce a wrong model",
  "If writing fails or is cut short at any point, the error reaches the caller, the model and its states are unchanged and the model is not left locked. A file that was cut short, lost a block or had stored content damaged either is refused with an error or loads as exactly the model and states that were saved. Loading never crashes, and a refused load leaves the receiving model's states as they were.",
  ["crash_points", "fault_sequences", "inputs"],
  "every write, seek or read at which an error, a short transfer or a crash can happen, every truncation point and every damaged block or stored byte",
  "tests only save to and load from perfect files",
  [R+"_model.pyx", R+"symbols.pyx", R+"model.py", R+"states.pyx"],
  [("header and archive writing", R+"_model.pyx"), ("header check", R+"_model.pyx"), ("lock held during saving", R+"_model.pyx"), ("states.from_file", R+"states.pyx")],
  "outcome of the faulty save or load, and the model afterwards")

p("P10", "Saved states load into any equal model, and never into another",
  "States saved from a model and loaded into a model built the same way are the same states, whether or not either model has ever been locked. States that do not fit the receiving model's decisions in number, kind, shape or allowed values are refused and the receiving model keeps its own states.",
  ["histories", "configurations", "programs"],
  "every pair of models and every history of building, locking, saving and loading on both",
  "whether it works depends on the build and lock history of two models; tests use one model for both ends",
  [R+"states.pyx", R+"_model.pyx", R+"symbols.pyx"],
  [("compatibility check and attach", R+"states.pyx"), ("decision order", S+"graph.cpp")],
  "states of the receiving model after the load")

p("P11", "Pending results are delivered exactly once, before anything sees the states",
  "When states are to be filled by a pending computation, its result is retrieved exactly once, and before any operation reads, writes, resizes, saves or clears the states. A failing retrieval reaches the caller that triggered it, is not repeated, and leaves the model usable. Attaching a new computation replaces the states of the previous one.",
  ["schedules", "histories", "fault_sequences"],
  "every operation that touches states as the first one after attaching, every interleaving of clients around a pending result, retrievals that complete, fail or fail half-way, re-entrant use from the retrieval itself",
  "tests attach one future and touch it through two operations",
  [R+"states.pyx", R+"_model.pyx", R+"model.py"],
  [("resolve", R+"states.pyx"), ("from_future", R+"states.pyx")],
  "call log of the retrieval hook against the log of state operations")

p("P12", "State access always reflects the current decisions",
  "For any history of locking, unlocking, building, setting, resetting, reading, resizing, clearing, removing and saving, the value read for any symbol in any state is the one its definition gives for the decisions currently set in that state, with unset decisions at their defaults. No operation on one state changes another, and values of intermediate symbols are available exactly while the model is locked.",
  ["histories", "programs", "fault_sequences"],
  "every history of model and state operations on any number of states, with any of the state operations running out of memory at any of its allocations",
  "cached intermediate values and positions of symbols in the state depend on the lock history; a stale value needs a particular order of set, read, unlock, build and lock again",
  [R+"_model.pyx", R+"states.pyx", R+"symbols.pyx", R+"model.py", S+"graph.cpp"],
  [("lock/unlock and topological order", S+"graph.cpp"), ("lazy recursive initialisation and reset", S+"graph.cpp"), ("lock count", R+"_model.pyx")],
  "every state read compared with a reference evaluation")

p("P13", "Removing unused symbols removes exactly the unused ones",
  "Removing unused symbols removes those and only those that are not decisions, are not needed by the objective, a constraint or a surviving symbol, and are not referred to by the user, and reports how many. Every survivor keeps its structure, states and values, and the model stays usable, lockable, savable and can be built further.",
  ["histories", "programs"],
  "every model graph, every pattern of user references, every history of building, locking, removing and evaluating",
  "tests remove one symbol from a chain; chains kept alive through shared or duplicated operands, repeated removal and later building need longer histories",
  [S+"graph.cpp", H+"graph.hpp", R+"_model.pyx"],
  [("remove_unused_nodes", S+"graph.cpp"), ("liveness by reference", H+"graph.hpp")],
  "surviving symbols and their structure compared with a reference computation")

p("P14", "Model order and structure stay consistent through every build history",
  "Whatever the history of adding, extending, locking, unlocking and removing, a locked model lists every symbol after the symbols it depends on, with the decisions first in the order they were created, and each symbol's operands and users mirror each other. A model can be built further whenever it is unlocked; no symbol or operand can be added to or removed from a locked model, and no operation can make a model cyclic or mix symbols of different models. The graph exported for drawing has the same symbols and edges.",
  ["histories", "programs", "fault_sequences"],
  "every history of building (including in-place extension of sums and products, and refused operations), nested locking, unlocking and removing",
  "the order is computed from scratch at each lock from the accumulated history; tests build once and lock once",
  [S+"graph.cpp", H+"graph.hpp", R+"_model.pyx", R+"symbols.pyx", S+"nodes/mathematical.cpp"],
  [("topological_sort/reset_topological_sort", S+"graph.cpp"), ("in-place extension", R+"symbols.pyx"), ("lock count", R+"_model.pyx")],
  "order, operands and users of every symbol after every step")

p("P15", "Savers and readers sharing a model do not disturb each other",
  "Several clients may save a model, load files and read states at the same time. The model stays locked for as long as any of them needs it and is unlocked once the last one is done, no symbol is added meanwhile, and every file written is the one that client would have written alone.",
  ["schedules", "fault_sequences"],
  "every number of clients, every interleaving at every file operation, any of them failing at any point",
  "the lock count is shared by all clients and a save calls back into the client's file object at every write, where any other client may run",
  [R+"_model.pyx", R+"model.py", R+"states.pyx"],
  [("lock count", R+"_model.pyx"), ("nested save under lock", R+"_model.pyx")],
  "files written, lock status and structure at every step of the schedule")

p("P16", "A copy of a state is that state, and shares nothing with it",
  "A state copied at any moment, also while a proposal is pending, has the same values, shapes and published changes as the one it was copied from. Either can go on (moves, acceptance, rejection) without any effect on the other. Given the same operations, the copy behaves exactly as the original would have.",
  ["histories", "programs"],
  "every model graph, every history before the copy, every moment of copying, every continuation on either side",
  "a state is one object per symbol, each of its own kind with hidden caches; a member that is forgotten or shared shows only for some kinds of symbol and only several moves after the copy",
  NODES,
  [("NodeStateData::copy and its overrides", S+"nodes/*.cpp"), ("state buffers", S+"nodes/_state.hpp"), ("State", H+"state.hpp")],
  "values, shapes and change lists of both states after the copy and after every later step on either")

p("P17", "What the user holds stays valid, whatever is let go or changed around it",
  "Symbols, iterators over symbols, the memory of constants, arrays read from states and handles to states stay usable, or answer with an error, for as long as the user holds them, whichever order the user lets go of models, symbols and arrays in and whatever is built, removed, locked, set or loaded meanwhile. No such history crashes, reads memory that is gone, or changes values the user already has. An iteration under way while the model only grows gives the symbols that were there when it began, in order.",
  ["histories", "programs"],
  "every history of building, removing, locking, setting, loading, starting and continuing iterations, exporting constants and letting go of models, symbols, iterators and arrays",
  "the Python objects point into memory owned by the model; what they point at moves or goes away only for particular orders of growth, removal and release, which tests do not vary and would rarely notice",
  [R+"_model.pyx", R+"symbols.pyx", R+"states.pyx", S+"graph.cpp", H+"graph.hpp"],
  [("iterators over symbols", R+"_model.pyx"), ("symbols keep their model", R+"_model.pyx"), ("models keep the arrays of constants", R+"symbols.pyx"), ("liveness by reference", H+"graph.hpp"), ("states refer weakly to their model", R+"states.pyx")],
  "what iterators, exported memory and handles give after every step, under a memory checker")

p("N01", "Problem generators build the documented formulations",
  "Each problem generator returns a model whose objective and constraints encode the documented problem for the given data.",
  ["inputs"], "every valid argument of every generator", "the space of problem data is unbounded",
  [R+"generators.py"], [("generator functions", R+"generators.py")])

p("N02", "Symbol equality tests agree with model structure",
  "Two symbols compare equal exactly when they represent the same quantity, and the cheap test never rules out equal symbols.",
  ["inputs", "programs"], "every pair of symbols of every pair of models", "the space of pairs is unbounded",
  [R+"_model.pyx", R+"symbols.pyx"], [("equals/maybe_equals", R+"_model.pyx")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
