#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Well-formed JSON is parsed into exactly the tree the text denotes",
 "For every well-formed (RFC 8259) UTF-8 text, Unmarshal, UnmarshalString, UnmarshalNoCopy and their Must variants succeed and return exactly the denoted tree: same kinds, array elements in text order, object keys in text order of their last occurrence with the last value winning for repeated keys, and string contents with every escape (including UTF-16 surrogate pairs) decoded to the same UTF-8 bytes. This holds for any nesting, size, whitespace, escape mix and key count, and all entry points agree.",
 ["inputs"], "every well-formed JSON text, every entry point",
 "Tests parse a few dozen hand-written documents; interactions of in-place unescaping, nesting, value-pool exhaustion and container growth need inputs they do not contain.",
 ["unmarshal.go", "jsonvalue.go"],
 [("recursive-descent parser with in-place unescaping", "unmarshal.go"), ("entry points", "jsonvalue.go")],
 ["(*V).ValueType", "RangeArray", "RangeObjectsBySetSequence", "Marshal", "String"])

prop("C02", "Malformed input is refused with an error and a NotExist value, no panic",
 "For every byte string that is not well-formed JSON because of a truncated or misplaced structure (unclosed or mismatched brackets, missing key, colon or value, bad literal, bad number, bad escape, unterminated string, trailing data, empty or blank input) parsing returns a non-nil error together with a non-nil value of type NotExist, and never panics. Only the parser's known leniencies may go either way: missing or redundant commas, backspace as a blank, the \\' escape, raw control characters in strings, unpaired surrogates and invalid UTF-8. Parsing any byte string at all terminates without panicking, and when it succeeds the value marshals to well-formed JSON.",
 ["inputs"], "every byte string, every entry point",
 "Tests contain a short list of malformed texts; the claim is about every prefix, mutation and byte at every automaton state.",
 ["unmarshal.go", "jsonvalue.go"],
 [("bounds and delimiter checks in the parser", "unmarshal.go"), ("NotExist on error", "unmarshal.go unmarshalWithIter; jsonvalue.go Unmarshal")],
 ["returned error and value type"])

prop("C03", "Numbers keep their exact literal and value; out-of-range ones are refused",
 "An integer literal within the int64 or uint64 range is accepted and reported exactly by the integer accessors that can hold it, and its text survives parsing and marshaling unchanged; an integer literal outside [-2^63, 2^64-1], and any literal violating the JSON number grammar, is refused. A literal with a fraction or exponent whose float64 value is finite is accepted, keeps its text, and is reported by Float64 as the correctly rounded float64. IsFloat, IsInteger, IsNegative, IsPositive (numbers whose float64 is zero aside) and GreaterThanInt64Max agree with the literal, also for numbers built from Go integers and floats.",
 ["inputs"], "every number literal, in every syntactic position, and every Go numeric value",
 "Boundary values around 2^63, 2^64, 20-digit numbers, leading zeros and wrapping accumulators are a handful of points of an unbounded space; tests sample three or four of them.",
 ["unmarshal.go", "new.go", "jsonvalue.go"],
 [("number lexer and range checks", "unmarshal.go parseNumber, parsePositiveIntResult, parseNegativeIntResult, parseFloatResult"), ("number construction", "new.go")],
 ["Int64", "Uint64", "Float64", "IsFloat", "GreaterThanInt64Max", "Marshal", "String"])

prop("C04", "Marshal emits well-formed JSON that denotes exactly the value",
 "For every value built with this package that contains no NaN/Inf, Marshal, MarshalString, MustMarshal and MustMarshalString, under any combination of options, succeed and produce well-formed JSON denoting exactly the value's tree (apart from object members dropped by OptOmitNull; bytes that are not valid UTF-8 count as U+FFFD), with number literals reproduced verbatim. Parsing that output gives back an equal value. A NotExist value yields an error from Marshal and an empty result from the Must variants.",
 ["inputs", "configurations"], "every value tree and option combination",
 "Tests compare the output for fixed small values; commas, quoting, escaping and option interaction must be right for all trees and all 2^n option sets.",
 ["marshal.go", "sort.go", "conv.go", "internal/buffer/buffer_impl.go"],
 [("recursive marshal functions", "marshal.go"), ("key-ordered object writers", "sort.go"), ("output buffer", "internal/buffer")],
 ["Marshal output", "Unmarshal of it"])

prop("C05", "String escaping follows the escaping options for every character",
 "In marshaled strings and keys, control characters, DEL, double quote and backslash are always escaped; '/' is escaped unless OptEscapeSlash(false); '<', '>' and '&' are written as \\u00XX unless OptEscapeHTML(false); characters above U+007F are written as \\uXXXX (with a surrogate pair above U+FFFF) unless OptUTF8, under which they are written raw except U+2028 and U+2029. Every other ASCII character is written as itself. Decoding the output always gives back the original string, in which a byte that is not part of valid UTF-8 counts as U+FFFD.",
 ["inputs", "configurations"], "every Unicode string as value or key x every combination of the three escaping options, per call or default",
 "Tests check a few characters per option; the table has 128 ASCII entries and the whole Unicode range times eight option combinations.",
 ["conv.go", "option.go", "marshal.go"],
 [("per-character escaping table", "option.go parseEscapingFuncs"), ("escape writers", "conv.go")],
 ["raw Marshal output"])

prop("C06", "Object keys are marshaled in the order the chosen ordering option says",
 "OptDefaultStringSequence orders every object's keys by Go string comparison, OptKeySequence puts listed keys first in list order and the remaining ones after in string order, OptSetSequence uses the order in which keys were (last) set, and OptKeySequenceWithLessFunc orders by the given function, at every nesting level, with each key exactly once next to its own value. The less function receives the true key path (for non-empty keys) from the root to the object whose keys are compared (nil or empty at the root) and the two keys with their own values. When several ordering options are given the last one decides.",
 ["inputs", "configurations"], "every object tree and ordering option, any key count",
 "Tests use small objects where Go's random map order hides or exposes faults by luck; large objects, nesting inside arrays and key/value pairing under swaps need systematic exploration.",
 ["sort.go", "option.go", "marshal.go"],
 [("sort adapters", "sort.go"), ("parent info propagation", "sort.go newParentInfo; marshal.go"), ("option merge", "option.go")],
 ["Marshal output", "less-function callback arguments"])

prop("C07", "OmitNull drops exactly null members; indentation changes only whitespace",
 "With OptOmitNull(true) exactly the object members whose value is null are absent from the output, at every depth, and null array elements are kept; without it nothing is dropped. With OptIndent the output contains the same tokens in the same order as without it, and lays out each member or element of a non-empty container on its own line starting with the prefix and one indent string per nesting level, with one space after colons.",
 ["inputs", "configurations"], "every value tree x OmitNull x indent strings x ordering option",
 "Tests check one or two shapes; separators between kept and dropped members depend on every pattern of nulls.",
 ["marshal.go", "option.go", "sort.go"],
 [("member writer with null filter and comma logic", "marshal.go writeObjectChildren"), ("indent writer", "marshal.go writeIndent")],
 ["raw Marshal output"])

prop("C08", "NaN and infinities are handled per policy at any depth, never silently",
 "If a value contains NaN or an infinity anywhere, Marshal returns an error (and no bytes) unless an option says how to convert it; with OptFloatNaNTo... / OptFloatInfTo... every occurrence is written as the configured float, null or string, negative infinity being the negated float, the given negative string, or by default the positive string with its leading plus signs replaced by a minus. A conversion target that is itself not finite is an error, NaN and infinity policies are independent, and other content is unaffected.",
 ["inputs", "configurations"], "every tree position of NaN/+Inf/-Inf x every policy pair",
 "Tests only marshal top-level NaN/Inf values for most policies; error propagation from nested positions under each container and ordering path is not sampled.",
 ["marshal.go", "option.go", "sort.go"],
 [("float policy switches", "marshal.go marshalNaN, marshalInfP, marshalInfN"), ("error propagation", "marshal.go, sort.go")],
 ["Marshal error and output"])

prop("C09", "Marshal options: defaults plus call options, later ones win, calls isolated",
 "A Marshal call behaves as if the options given to the last SetDefaultMarshalOptions (none initially or after ResetDefaultMarshalOptions) were followed by the call's own options, each option overriding only its own concern and later ones winning; passing an Opt value replaces everything before it. SetDefaultMarshalOptions replaces rather than accumulates, and options used in one call never influence another call, another value, or the defaults.",
 ["histories", "configurations"], "every history of default changes and marshal calls",
 "Needs histories of several calls with different options; tests set a default once and check one call.",
 ["option.go", "jsonvalue_internal.go", "marshal.go"],
 [("option combination", "option.go combineOptions, combineOptionsFrom, mergeTo"), ("default option register", "option.go SetDefaultMarshalOptions, ResetDefaultMarshalOptions")],
 ["Marshal output over a history"])

prop("C10", "Get resolves a path exactly: keys in objects, signed indexes in arrays",
 "Get returns the very node reached by following the parameters from the value: a string parameter (of any string kind) selects that exact key of an object, an integer parameter of any integer kind selects an array element, negative ones counting from the end; giving the whole path as one slice or array is equivalent. It fails with ErrNotFound for an absent key, ErrOutOfRange for an index outside [-len, len-1], and with some error for parameters of a wrong type, nil parameters, scalars in the middle of the path, or extra parameters after a slice; a failing Get returns a NotExist value and changes nothing. MustGet returns the same value without the error.",
 ["inputs", "histories"], "every document state and path",
 "Tests use fixed documents and a few paths; exact identity, all integer kinds, negative edges and post-mutation states form a large product.",
 ["get.go", "conv.go", "set.go"],
 [("path walk", "get.go get, getInCurrentValue"), ("parameter conversion", "conv.go anyToInt, anyToString, isSliceAndExtractDividedParams"), ("index normalisation", "set.go posAtIndexForRead")],
 ["returned pointer and error"])

prop("C11", "Typed getters and accessors return the right value or zero with an error",
 "Each typed getter (GetString, GetInt, ..., GetBytes, GetBool, GetNull, GetObject, GetArray) returns the addressed value converted to its type with a nil error exactly when the value has that JSON type, otherwise a non-nil error: the path error with a zero result, ErrTypeNotMatch for a different type, and for numeric getters on strings the number the trimmed text denotes with ErrTypeNotMatch, or zero with ErrParseNumberFromString if it denotes none; GetBool on a string or number yields its truth value with ErrTypeNotMatch. The accessors Int, Uint, Float64, Bool, String, Bytes etc. follow the same conversions without error and never panic, and Base64 content round-trips through the Bytes setters and getters.",
 ["inputs"], "every value x every getter and accessor",
 "A matrix of ~20 getters times all values; tests check single cells.",
 ["get.go", "jsonvalue.go", "new.go"],
 [("conversion helpers", "get.go getNumberAndErrorFromValue, getBoolAndErrorFromValue, getNumberFromNotNumberValue"), ("accessors", "jsonvalue.go")],
 ["returned value and error"])

prop("C12", "Set(x).At(path) puts x exactly at the path and changes nothing else",
 "A successful Set(x).At(path) makes x itself the node at that path, creating missing intermediate containers (objects for string parameters, arrays for index 0), replacing an existing key or index, or appending when an index equals the array length, and returns x. Every node not on the path, and every other key and element on it, keeps its identity, value and order. Index positions other than an existing one or the length, a created array not addressed by 0, parameters not matching the container type, and scalars on the path are refused with an error.",
 ["histories", "inputs"], "every document state, path and value; every history of mutations",
 "Frame conditions quantify over everything not touched and over all earlier histories; tests assert only the touched spot.",
 ["set.go", "set_must.go", "conv.go"],
 [("recursive path setter with auto-create", "set.go At, atObject, atArray, atLastParam"), ("array index rules", "set.go posAtIndexForSet")],
 ["document structure by node identity after each call"])

prop("C13", "A mutation that returns an error leaves the whole document unchanged",
 "Whenever Set(...).At, Append(...).InTheBeginning/InTheEnd, Insert(...).Before/After, Delete or their Caseless, Must and typed variants fail (bad path or parameter, missing target, index out of range, scalar on the path, a child that is nil, NotExist or cannot be imported), no node reachable before the call has changed: same structure, identities, key order and values, and no partial auto-created containers. The returned value is NotExist.",
 ["histories", "fault_sequences"], "every failing call at every depth in every document state",
 "Tests assert that an error is returned but not that nothing changed, and failing at depth k after creating k-1 levels needs specific sequences.",
 ["set.go", "insert_append_delete.go"],
 [("attach auto-created containers only after success", "set.go atObject, atArray"), ("argument validation before mutation", "set.go, insert_append_delete.go")],
 ["document structure by node identity after each failing call"])

prop("C14", "Append and Insert place the value at the exact position, order kept",
 "Append(x).InTheBeginning/InTheEnd puts x first/last in the array at the path (creating the array, and its missing parents, when the key is absent), and Insert(x).Before/After(path..., i) puts x immediately before/after element i of an existing array, i being any valid index from -len to len-1; the other elements keep identity and relative order, the length grows by one, nothing outside that array changes, and x is returned. A non-array target, an out-of-range index, an empty array for Insert, or a missing array for Insert gives an error.",
 ["histories", "inputs"], "every array length including capacity boundaries, every index, every history",
 "Shifting bugs show only for particular lengths, positions and spare-capacity states reached through histories.",
 ["insert_append_delete.go", "insert_append_delete_must.go", "set.go", "unmarshal.go"],
 [("insert position computation", "set.go posAtIndexForInsertBefore, posAtIndexForInsertAfter"), ("array growth", "insert_append_delete.go insertToArr; unmarshal.go appendToArr")],
 ["document structure by node identity after each call"])

prop("C15", "Delete removes exactly the addressed node",
 "A successful Delete(path) removes exactly the addressed key or element: remaining elements keep identity and relative order, remaining keys keep their values and order, nothing else changes, and the removed value stays intact for whoever holds it. Deleting an absent key gives ErrNotFound, an index out of range ErrOutOfRange, and MustDelete behaves the same without reporting.",
 ["histories", "inputs"], "every document state and path; every history",
 "Needs histories that delete, re-add and delete again in containers of many sizes; tests delete one element of a fixed value.",
 ["insert_append_delete.go"],
 [("object and array deletion", "insert_append_delete.go delFromObjectChildren, deleteInArr")],
 ["document structure by node identity after each call"])

prop("C16", "Caseless access always agrees with the current keys of every object",
 "At any point of any history of sets, deletes, copies and earlier caseless operations, a Caseless() Get, typed getter or Delete finds a key if and only if some current key equals it ignoring letter case: the exact key if present, otherwise one of the case-variants currently present. Ordinary (case-sensitive) access is never affected by earlier caseless use, and a caseless Delete removes exactly one such key.",
 ["histories"], "every interleaving of caseless and ordinary operations with mutations",
 "The case index is built lazily and maintained incrementally; stale entries need build-mutate-lookup histories that tests do not contain.",
 ["get.go", "insert_append_delete.go", "jsonvalue.go", "set.go"],
 [("lazy lower-case index", "get.go initCaselessStorage, getFromObjectChildren"), ("index maintenance", "jsonvalue.go addCaselessKey, delCaselessKey")],
 ["Caseless().Get/Delete results over histories"],
 [dict(name="lower-case key index", meaning="per object: lower-case key -> set of actual keys, absent until first caseless access", where="jsonvalue.go children.lowerCaseKeys")])

prop("C17", "Set-sequence order always reflects when each key was last set",
 "After any history of parsing, sets, auto-creation, deletes, imports and copies, OptSetSequence marshaling and RangeObjectsBySetSequence list an object's keys in the order in which each was most recently set (for parsed text, textual order; for imported structs, field order), with each key once. Reading, iterating, marshaling, caseless access and failed operations do not change that order, and a copy made by Import, or by setting/importing a struct holding a *V, keeps the source's order and continues it.",
 ["histories"], "every history of operations on an object",
 "Order is a property of the whole history; tests set three keys once.",
 ["set.go", "sort.go", "iteration.go", "jsonvalue.go"],
 [("per-object increasing set counter", "set.go setToObjectChildren; jsonvalue.go deepCopy")],
 ["RangeObjectsBySetSequence", "Marshal with OptSetSequence"],
 [dict(name="set counter", meaning="per object counter assigned to a key at each set", where="jsonvalue.go children.incrID")])

prop("C18", "Iteration visits every child exactly once, stops when told, and snapshots",
 "RangeArray and IterArray visit every element once in index order, RangeObjects and IterObjects every key once with its own value, RangeObjectsBySetSequence in set order, and all of them hand out the very child nodes; a callback returning false stops the iteration at once. That holds also when the callback of a Range function replaces the very child it is given (Set of the index or key) or deletes that key of the object. ForRangeArr and ForRangeObj return the same children as an independent slice/map: later mutation of the document does not alter them and altering them does not alter the document. On a value of another type (or with a nil callback) iteration visits nothing, and Len equals the number of children.",
 ["inputs", "histories"], "every document state and stop position",
 "Tests iterate over one small value; aliasing of returned snapshots with the document is only visible after a later mutation.",
 ["iteration.go", "get.go"],
 [("range and iterator functions", "iteration.go")],
 ["callback/channel sequences", "returned slice and map"])

prop("C19", "SortArray yields a sorted permutation of the very same elements",
 "SortArray with a strict weak order rearranges the array's own element nodes into a sequence ordered by that function, losing, duplicating or replacing none, at any length, and changes nothing else. With a nil function or on a non-array it does nothing.",
 ["inputs"], "every array and every strict weak order",
 "Sort correctness for lengths around algorithm thresholds and duplicate keys is not sampled by one small test.",
 ["sort.go"],
 [("sort adapter", "sort.go sortArrayV")],
 ["element identities after the call"])

prop("C20", "Equal is structural equality on JSON values",
 "Equal is true exactly when both values have the same JSON type and denote the same data: same string, same boolean, numerically equal numbers whatever their spelling, arrays with pairwise equal elements in order, objects with the same key set and equal values regardless of order. It is reflexive, symmetric and transitive on existing values, and false if either side is nil or NotExist.",
 ["inputs"], "every pair and triple of value trees",
 "Tests compare a dozen pairs; symmetry, transitivity and deep differences need systematic pairs.",
 ["compare.go"],
 [("structural comparison", "compare.go Equal, objectEqual, arrayEqual, numberEqual")],
 ["Equal result"])

prop("C21", "Number comparison is exact decimal comparison for any literal",
 "GreaterThan, GreaterThanOrEqual, LessThan, LessThanOrEqual and Equal on two numbers agree with the exact mathematical order of their decimal literals (no rounding, any length, sign, exponent), +Inf and -Inf being above and below every finite number and NaN unordered; exactly one of less, equal, greater holds for non-NaN numbers. If either operand is not a number the four order comparisons are false.",
 ["inputs"], "every pair of number literals",
 "Differences beyond float64 precision, trailing zeros and exponents are an unbounded family; tests use 1234 and 5678.",
 ["compare.go"],
 [("decimal comparison", "compare.go greaterThan, greaterOrEqualThan, numberEqual")],
 ["comparison results"])

prop("C22", "Import builds the tree encoding/json would produce for a Go value",
 "For Go values made of booleans, integers, floats, strings, byte slices, slices, arrays, string- or integer-keyed maps, pointers, interfaces, structs (json tags name, '-', omitempty, string; unexported and embedded fields) and json/text marshalers, Import, New and Set of that value give the tree that encoding/json's output denotes, members of structs in field order; a nil slice may become an empty array or string, and a float under the string option may be spelled in another way. Unsupported kinds (complex, chan, func, other map keys), at any depth, give an error and NotExist. With OptIgnoreOmitempty every field is kept as if it had no omitempty. (Not covered: json.Number, NaN and Inf, omitempty on marshaler types, embedded marshalers, marshalers as map keys, one name given to several fields or promoted from several embedded structs, tag names with blanks around them or with quotes or backslashes.)",
 ["inputs", "programs"], "every acyclic Go value in the listed universe",
 "The type universe is unbounded and rules interact (omitempty x pointer x embedded x string tag); tests check single combinations.",
 ["import_export.go", "new.go"],
 [("reflective importer", "import_export.go")],
 ["imported tree", "error"])

prop("C23", "Export, json and binary (un)marshaler hooks behave as Marshal and Unmarshal",
 "Export(dst) fills dst exactly as encoding/json would from the value's JSON text and reports its error; json.Marshal of a structure containing *V gives the same data as the value's own Marshal, and json.Unmarshal, UnmarshalJSON and UnmarshalBinary into a V replace its whole previous content (type, children, order, case index) by exactly what Unmarshal of that text gives. When the text is refused they return an error and leave the V untouched.",
 ["inputs", "histories"], "every value/text and every earlier state of the receiver",
 "Needs receivers with prior content of every type; tests use fresh receivers.",
 ["import_export.go", "marshaler_unmarshaler.go"],
 [("standard interface hooks", "marshaler_unmarshaler.go"), ("Export", "import_export.go")],
 ["receiver tree after the call", "exported Go value"])

prop("C24", "Values own their data: inputs and outputs never alias, copies independent",
 "Unmarshal, UnmarshalString and the JSON/binary unmarshalers neither modify the caller's bytes nor depend on them afterwards; no call changes the path parameters (or the slice of them) it is given; bytes or strings returned by Marshal stay constant whatever is done later to the value or other values, and overwriting returned bytes never affects any value. Importing or setting a structure that contains a *V, and Import of a *V, make a deep copy independent of the source in both directions.",
 ["histories"], "every history of parse, clobber, mutate, marshal and copy",
 "Aliasing is visible only when a buffer or source is modified later; tests never overwrite inputs or outputs.",
 ["jsonvalue.go", "unmarshal.go", "marshal.go", "internal/buffer/buffer_impl.go", "internal/unsafe/unsafe.go", "import_export.go"],
 [("input copy", "jsonvalue.go Unmarshal, UnmarshalString"), ("fresh output buffer", "internal/buffer"), ("deep copy", "jsonvalue.go deepCopy; import_export.go")],
 ["value trees and byte slices over a history"])

prop("C25", "Set and Get share live nodes: one node, seen from everywhere",
 "The *V passed to Set/Append/Insert is the node stored in the document and the one returned by those calls and later by Get, Range*, ForRange* and Iter*: a later mutation through any of these references is visible through every other path to it, in every document holding it, and two different nodes never share children. Deleting or replacing a node detaches it without changing it.",
 ["histories"], "every history over several documents sharing nodes",
 "Requires holding references across mutations and observing through another path; tests look through one path only.",
 ["set.go", "get.go", "insert_append_delete.go", "iteration.go"],
 [("pointer-valued children", "set.go, get.go")],
 ["node identity through all paths"])

prop("C26", "Concurrent use of independent values, and shared reads, is race-free and exact",
 "Any number of goroutines may at the same time parse, build, mutate and marshal values they own, and read (Get, typed getters, iterate, compare, marshal, export - everything but Caseless) a shared value nobody is changing: every call returns what it would return alone, with no data race, panic or deadlock. The adaptive sizing learned from earlier parses, however much data has been parsed and however calls interleave, never changes a result or makes a call fail.",
 ["schedules", "histories"], "every interleaving of calls in independent goroutines; every cumulative parse volume",
 "Tests are single-threaded and never reach the 2 GiB statistics rollover.",
 ["jsonvalue_internal.go", "jsonvalue.go", "option.go", "iteration.go"],
 [("atomic packed statistics word", "jsonvalue_internal.go internalAddPredictSizePerValue, internalLoadPredictSizePerValue"), ("per-call state only", "unmarshal.go, marshal.go")],
 ["results of concurrent calls", "race detector events"],
 [dict(name="size statistics", meaning="packed (total bytes, value count) and rolled-over average", where="jsonvalue_internal.go internal.predict")])

prop("C27", "Default options change atomically under concurrency",
 "SetDefaultMarshalOptions and ResetDefaultMarshalOptions may run concurrently with each other and with Marshal in other goroutines: each Marshal call behaves according to exactly one of the default settings in force at some moment during the call (never a mixture or a partially built one), and once a set call has returned, later-starting Marshal calls see that or a newer setting. No data race or panic occurs.",
 ["schedules"], "every interleaving of set/reset/marshal",
 "Single-threaded tests cannot exercise interleavings.",
 ["option.go", "jsonvalue_internal.go"],
 [("default option register", "option.go SetDefaultMarshalOptions, getDefaultOptions")],
 ["call/return history linearizes against a register"],
 [dict(name="default options", meaning="the process-wide default marshal options", where="jsonvalue_internal.go internal.defaultMarshalOption")])

prop("C28", "beta.Contains decides the documented subset relation",
 "Contains(v, sub, path...) is true exactly when the value at the path exists and contains sub: for objects every key of sub exists with a value that contains sub's value, for arrays sub's elements appear as a contiguous run of equal elements (an empty array always), and for scalars the two are equal; types must agree. It never modifies its arguments, every object or array contains itself, and a sub that cannot be imported, a nil v, a nil *V sub or a bad path gives false.",
 ["inputs"], "every pair of trees and path",
 "Run positions, overlapping partial matches and nested combinations are sampled by a few tests only.",
 ["beta/contain.go"],
 [("subset recursion", "beta/contain.go")],
 ["Contains result"])

prop("C29", "Missing values are safe null objects and Must/typed variants agree",
 "A NotExist value (from a failed Get or parse, or a zero V) can be read, iterated, compared, measured, converted and used as a mutation target without panic: it yields zero values, visits nothing, equals nothing, and refuses set, append, insert and delete with an error; decoding into it (UnmarshalJSON) fills that one value only, and a later miss is missing as before. Each Must, At(path).Set(x), and typed SetXxx/AppendXxx/InsertXxx variant has exactly the effect on the document of the general form with the corresponding value.",
 ["inputs", "histories"], "every API entry on NotExist values; every variant in every state",
 "A wide API surface (about 120 variants) of which tests touch a part with one argument each.",
 ["jsonvalue.go", "get.go", "set.go", "set_must.go", "insert_append_delete.go", "insert_append_delete_must.go"],
 [("null object", "get.go, set.go"), ("variant wrappers", "set.go, set_must.go, insert_append_delete.go, insert_append_delete_must.go")],
 ["return values; document after each variant"])

prop("C30", "Constructors build exactly the value given, as a fresh value",
 "Every constructor returns a new value, never one handed out before, that holds exactly what it was given: NewString the same bytes, NewBytes the standard Base64 text of the bytes, NewBool, NewNull, an empty NewArray and NewObject, the integer constructors the exact decimal text, NewFloat64 and NewFloat32 a number that reads back as the same float (NaN and infinities included), NewFloat64f and NewFloat32f the text strconv.FormatFloat gives for the format and precision (any format other than f, e, E, g, G counting as g), and New the value of any boolean, integer, float, string or nil, or NotExist for an unsupported type. NewObject(M) holds one member for each entry of M that is nil or of a boolean, integer, float or string kind (named types included) and none for entries of other kinds. Arguments are left as they are; changing an argument or one constructed value later never changes another value. String describes arrays as [a, b] and objects as {k: a, l: b} in some order, and ValueType names the type.",
 ["inputs", "histories"], "every constructor and argument, in every history of constructing and changing values",
 "Tests build a few values once; shared singletons, special floats and kinds inside M need many arguments and histories of several constructions with changes between.",
 ["new.go", "jsonvalue.go"],
 [("constructors", "new.go New, NewXxx, parseNewObjectKV, newFloat64f"), ("descriptions", "jsonvalue.go String, ValueType.String")],
 ["returned value", "all values constructed before"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
