#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks (CLAIMS) and, for every other property of properties.jsonl, the reason."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SSA = "go/types + SSA of the current source, whole program (closed world of the dgo packages)"
CLAIMS = {
 "C01": ("static analysis: interprocedural effect summaries with must-facts on frozen flags",
         "Every write to memory of an array, map, struct-backed map or binary that existed before a call, in any function reachable from the exported API, is dominated by a check of that value's frozen flag, or is made to a value the call created; flags are never cleared on existing values. Assumes C02/C03 for values read from frozen values; alias resolution exempt."),
 "C02": ("static analysis: abstract interpretation of everything that creates or changes collections, tracking what is frozen",
         "Every exported function that creates, fills or freezes a collection is interpreted with its helpers inlined. On every path, what a collection whose flag may be set contains, every stored map key, and what FrozenCopy returns, is frozen by construction (result of FrozenCopy, element of a frozen collection, a kind that cannot be modified, frozen under the same condition); Freeze reaches every element and replaces what wrapped structs refer to. Loops are followed for two turns; collections that existed are taken to satisfy the property (induction)."),
 "C03": ("static analysis: provenance (escape and ownership) summaries of internal storage",
         "Storage (slices, linked nodes, reflected memory) is followed through the SSA of every function to results, Go destinations and other values. Contexts are merged per parameter; documented wrapping constructors of mutable values (WrapSlice, Binary not frozen, FromReflected of mutable data) are exempt."),
 "C04": ("static analysis: interprocedural effect summaries",
         "The effect summary of every exported function and method that is not a documented mutator contains no write to memory reachable from its receiver or arguments; mutators write only to their receiver."),
 "C05": ("static analysis: abstract interpretation on a symbolic heap (shape of hash chains and lists before and after)",
         "Every exported function that changes the structure of hash maps is interpreted with helpers inlined; on every path the table, the list and the length afterwards must differ from before by entries added at the end and in the slot of their key, entries taken out of both, or by a complete rebuild with new entries; an entry is added only on paths that compared the key with all of its slot; lookups find nothing only at the end of the slot. Loops are followed for two entries, with all keys having the same hash and with all different. Callbacks that change the map, and hash codes of equal keys (C06), are outside."),
 "C06": ("static analysis: abstract interpretation of hash functions, compared under the facts that equality establishes",
         "For every pair of kinds that Equals may find equal, what each outcome establishes about the two values (from the same interpretation as C07) is applied to the two hash codes, which are interpreted as expressions over the values; the expressions must then be the same, for sequences of up to three elements, in any order for maps and sets of types. Equal parts are taken to have equal hash codes (induction; cyclic values are not examined); sort functions order whatever their comparator distinguishes. Cached hash codes may only be kept by values that can't change."),
 "C07": ("static analysis: abstract interpretation of Equals for every ordered pair of kinds, comparing what the two directions establish",
         "Equals is interpreted for all ordered pairs of kinds of values and types. What each outcome that may be true establishes about the two, with the roles swapped, must be established by an outcome of the opposite call. Equality of parts is taken to be symmetric (induction); a lookup of all elements of one in the other counts as symmetric only when the sizes are found to be equal. Elements aren't told apart by position; equality provided by Go's libraries and by values implemented outside the module is trusted."),
 "C08": ("static analysis: abstract interpretation of CompareTo for every pair of kinds, with order relations",
         "CompareTo is interpreted for every comparable kind and every kind of argument. No outcome in one direction may hold together with one of the other direction unless their signs are opposite and they agree on being comparable; nil is below everything; a value equals itself. Comparison of parts is taken to be antisymmetric (induction); loop positions aren't told apart. Order of numbers is that of the mathematical value within one pair; NaN is unordered."),
 "C09": ("static analysis: abstract interpretation of every iterating method with a symbolic collection and a symbolic callback",
         "Every method of array, hash map and struct-backed map that iterates is interpreted with helpers and closures inlined; on every path what the callback was given (element and position), how often, and what follows from its answers is compared with what the name of the method promises. Loops are followed to the fourth element. The list and the length of a map are taken to agree (C05); callbacks that change the collection are outside."),
 "C10": ("static analysis: abstract interpretation of everything that stores elements, tracking what may be unset",
         "Every exported function that stores elements in arrays or entries in maps is interpreted with its helpers inlined. On every path each element of the storage of every reachable collection that was created or changed, up to its length, and each key and value of an entry, is a value that is known to be proper. Loops are followed for two turns; Len of an Iterable is taken to be the number of elements that it visits."),
 "C11": ("static analysis: abstract interpretation with numeric ranges",
         "Every conversion between numeric types that can change a number, in every function, is reached only with numbers in the range of the target, on all paths, with helpers inlined in the context of their callers; stores of reflected numbers are preceded by a check of overflow. int has 64 bits; hash codes, sizes and characters are exempt; a float may lose its fraction."),
 "C12": ("static analysis: abstract interpretation with zones (bounds of differences)",
         "For every kind of type that has Min and Max: all outcomes of Instance for all kinds of values, of Assignable for all other kinds with limits, and of the functions that create them from two numbers. The zone of each outcome, together with a number that the specification treats differently, must be empty. The size of a string or a binary is in bytes. Types whose Min or Max counts (struct types), exact types as receivers and dgo strings are outside; MaxFloat64 stands for unbounded; arithmetic doesn't overflow."),
 "C13": ("static analysis: abstract interpretation over dynamic types",
         "For every pair of a type and a type that decides assignability itself (dgo.ReverseAssignable), all paths of Assignable and DeepAssignable: no answer other than yes without having asked the other type or worked through its parts. The verdict of each combined type is derived from its parts with none left out, and the unconstrained type of each kind accepts every type of its kind. Recursion hits are left to C14; semantics of 'not' to N03."),
 "C14": ("static analysis: abstract interpretation of guard passing, and cycle analysis of the guarded call graph",
         "Every function that is given a recursion guard passes it on at every call, and starts no unguarded operation that may lead back to its own; every cycle of guarded calls adds to the guard and looks it up; a guard is never changed by those that it is passed to; types whose content may contain them have guarded operations. Keys of maps are frozen and not followed. Construction and frozen copies of self-referential collections, and termination on freshly generated types, are outside."),
 "C15": ("static analysis: path-sensitive abstract interpretation with type-state of created values",
         "All paths of the New method of every type, and of internal.New, with helpers that are passed the type inlined: what is returned is a value about which this type answered Instance (or Assignable for its Type()) positively, and which was not changed since. Rests on Instance being right; New of types called via the interface are each checked on their own."),
 "C16": ("static analysis: interprocedural taint analysis of the content of sensitive values",
         "What sensitive values wrap is followed through the SSA of every function, over fields, parameters, results and interface calls: it may not be part of a string, an error, a panic, formatted output or a type, other than through Unwrap by the caller, or by a streamer that was found to be configured for rich data. The generic form of the type of the wrapped value is what the type of a sensitive value may contain, and every exact kind of type must have a generic form that drops the value. Control dependence, reflection and int results (hash codes) are not tracked."),
 "C17": ("static analysis: abstract interpretation of printing and parsing for each kind of type, and table agreement",
         "TypeIdentifier of every implementation of dgo.Type, TypeIdentifier.String for every declared identifier, TypeStringWithAliasMap for a type of every kind, and the parser's handling of every word that is printed first, are interpreted over abstract values: one identifier per kind, kinds with the same identifier implement the same interfaces, every identifier has a name shared only within its family, no assertion about the printed type fails, parameters are printed, and the printed word is parsed as a type of that name. What follows the first word of the printed form is not compared (N01)."),
 "C18": ("static analysis: abstract interpretation of the lexers and parsers, must-use analysis of errors",
         "All functions of the lexers and parsers are interpreted with abstract text and tokens that may end anywhere: no loop or cycle of calls goes round without reading, or when nothing is left; nothing returns normally after an unexpected end; errors of number conversions are reported; bytes and control characters that cannot be represented are refused; no token or escape is skipped unseen. The grammar itself is not specified."),
 "C19": ("static analysis: abstract interpretation of writer and reader over graphs of symbolic values",
         "The source of the streamer, the collectors, the decoder, and the JSON encoder and decoder is interpreted (not run) for graphs in which a value of each of the 73 kinds occurs repeatedly, with symbolic content, dialect and consumer capabilities, for each deduplication level. The events are fed to the interpreted reader of the same dialect, whose graph must be equal; JSON text is tokenized symbolically. The shapes of graphs are a fixed set; strings are all longer than the deduplication threshold or none is; special keys in maps of the user, sensitive cycles, and what strconv, encoding/json, base64 and time do are outside."),
 "C20": ("static analysis: path-sensitive must-use analysis of error results",
         "From every call whose last result is an error (writes to in-memory buffers excepted), and from every recover, all paths are followed: the error is compared with nil and its non-nil branch ends in a panic, an error return or a function that does. Short writes without an error and replacement of invalid UTF-8 by encoding/json are outside."),
 "C21": ("static analysis: path-sensitive lockset analysis with escape and define-once rules",
         "All accesses to loader entries and namespaces, over all contexts of call, happen while the loader's lock is held or on a loader that no other goroutine can have; the lock is released on every path, including panics, and nothing user supplied is called under it; a defined entry is never replaced."),
 "C22": ("static analysis: lockset and publication analysis of package variables and of fields of frozen values",
         "Package variables are written during initialisation only, or always under one lock, sync.Once or atomics, and read alike; no lost updates between two critical sections; fields of values that may be shared (frozen or immutable) are only written atomically or on values that the writer created."),
 "C23": ("static analysis: commutativity analysis of the code that runs per element of a Go map, with tracking of slices in random order",
         "Every loop over a Go map, reflected map iterator, callback of sync.Map.Range and slice of map keys in the module is a source. What runs per element must commute (unique entries, sums, minima, flags, constant exits, collecting); what is collected is tracked through variables, parameters and results until it is sorted by a function, interpreted for all outcomes, that tells all different elements apart. Iteration inside of other libraries is not analysed (fmt and encoding/json sort)."),
}
NA = {
 "N01": "needs the values of unbounded type expressions run through two independent implementations; no sound static argument in reach (table agreement is claimed as C17 instead)",
 "N02": "quantifies over runtime value graphs; only the structural agreement of writer and reader (C19) can be decided statically",
 "N03": "soundness and transitivity over nested types is a semantic property of runtime type values; the decidable fragments are C12 and C13",
 "N04": "total order over mixed runtime values is not statically boundable; antisymmetry per pair of kinds is C08",
 "N05": "linearizability is a property of histories; the lock discipline that it rests on is C21",
}
PENDING = "no check yet: the static rule for this property is designed in DESIGN.md but not implemented in this version"
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
