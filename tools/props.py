"""Writes /verif/properties.jsonl.  One entry per property; run after editing: python3 tools/props.py"""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)


G = "titus/genpy.py"
A = "titus/pfaast.py"
D = "titus/datatype.py"

p("C01", "A failed scoring call leaves rollback cells and pools as it found them",
  "When a call that scores one datum (or merges two tallies) ends with an error, every cell and pool declared with rollback holds exactly the value it had when the call began, whichever step failed and whatever was written before it, and a fold engine keeps its previous tally. A call that succeeds keeps all of its writes, errors that the document itself catches do not undo anything, and cells and pools declared without rollback keep what was written before the failure.",
  ["histories", "fault_sequences"],
  "all histories of up to three scoring calls over programs of up to three writes to rollback and plain cells and pools, with a failure injected after every write, at every level of nesting of the stored values",
  "The tests fail one program at one place and look at one cell; atomicity is about every failure point of every sequence of writes, with deep paths, several stores, caught errors and repeated failures.",
  [G], [("backup taken before and restored after a failing action or merge", "titus/genpy.py PFAEngine action/merge template"), ("cell and pool backups", "titus/genpy.py Cell/Pool maybeSaveBackup, maybeRestoreBackup"), ("copying update along a path", "titus/genpy.py update")],
  [("backup value", "value of the cell or pool at the start of the call", "titus/genpy.py Cell.oldvalue, Pool.oldvalue")],
  ["engine.action / engine.merge", "engine.snapshot()"])

p("C02", "Updates of shared cells and pools are atomic across concurrent engines",
  "When several scoring engines that share cells and pools run in different threads, every read, update and deletion of a shared cell or of one item of a shared pool takes effect at a single moment between its start and its end: no update is lost, no reader sees a partly made update or a value that no complete update produced, and every result equals that of some one-at-a-time order. This includes the first use of a pool item, updates that create the item, deletions, and updates that fail.",
  ["schedules"],
  "all interleavings, up to a preemption bound, of two or three threads that run one to two operations each on the same shared cells and pool items of engines made from one or several documents",
  "The tests run one engine in one thread, or free-running threads without control of the schedule; a lost update needs one particular interleaving.",
  [G], [("lock around read-modify-write of a cell", "titus/genpy.py Cell.update"), ("lock per pool item, created on first use", "titus/genpy.py Pool.update"), ("deletion of pool items", "titus/genpy.py pooldel in the engine template")],
  [("locks", "one lock per cell, one per pool item", "titus/genpy.py Cell.lock, Pool.locks, Pool.locklock")],
  ["results of engine.action in each thread", "final value of cells and pools"])

p("C03", "Engines never block each other forever on shared state",
  "No execution of engines that share cells and pools ends with a thread waiting forever: an update that fails (by its own error, a library error, a caught error or a time limit) lets go of what it held, so that every later use of the same cell or pool item goes on. A document whose updating function could itself write to a cell or pool, directly or through any chain of user functions, is rejected when the engine is made, and documents whose updating functions cannot are accepted.",
  ["schedules", "programs", "fault_sequences"],
  "all histories of up to three updates with every kind of failure on shared and unshared cells and pools in one and two threads; and all call graphs of up to three user functions crossed with every position in which a write or a call can stand",
  "The tests hold a handful of call graphs and never use a cell again after an update of it failed; termination is a statement about every history and every call graph.",
  [G, A], [("static check of updating functions", "titus/genpy.py checkForDeadlock, PFAEngine.callDepth, hasSideEffects"), ("call graph collection", "titus/pfaast.py FcnDef.Context.calls"), ("lock release", "titus/genpy.py Cell.update, Pool.update")])

p("C04", "Values never change once they have been computed",
  "A value that a program, a cell, a pool item, a function argument or an earlier output refers to never changes afterwards: updating a cell, a pool item, an array, a map or a record yields a new value and leaves every other holder of the old one as it was. In particular neither special forms nor library functions change their arguments, outputs that the host keeps are not altered by later scoring calls, and input objects of the host are left as they were.",
  ["programs", "histories"],
  "every special form and every library function that takes an array, map or record, applied to values that are also held by a variable, a cell, a pool item and the host, for all small argument values; and all two-step update chains on aliased values",
  "The tests look at the result of a call and seldom at its arguments afterwards; aliasing shows only when one value has two holders and one of them is updated.",
  [G, "titus/lib/array.py", "titus/lib/map.py", "titus/lib/stat/sample.py", "titus/lib/model/cluster.py"], [("copying update along a path", "titus/genpy.py update"), ("library functions copy before they change", "titus/lib")])

p("C05", "A snapshot is a document that resumes exactly where the engine stood",
  "For an engine whose memory is its cells and pools, taking a snapshot at any point of a history and making a new engine from it, directly or through its JSON text, gives an engine whose cells and pools equal those of the original and whose answers to every further input sequence are the same as the original's. Taking the snapshot changes nothing in the running engine, and later scoring does not change a snapshot already taken.",
  ["histories"],
  "all histories of up to three updates of cells and pools of every value type (numbers, strings, bytes, enums, fixed, arrays, maps, records, unions, recursive records), with a snapshot after each prefix and all continuations of up to two calls",
  "The tests snapshot a few engines after one fixed history; resumption must hold from every reachable state and for every type a store can hold.",
  [G, A], [("snapshot", "titus/genpy.py PFAEngine.snapshot"), ("serialization of cells and pools", "titus/pfaast.py Cell.jsonNode, Pool.jsonNode, EngineConfig.jsonNode")])

p("C06", "Documents survive parsing, serialization and identity transformation",
  "Parsing a document and writing it out again yields an equivalent document: the result parses to an equal syntax tree, a second pass changes nothing, and engines made from the original and from the rewritten document give the same answers. The same holds for the YAML form of a document, and replacing nothing in a tree returns an equal tree, while collecting from and replacing in a tree reach every expression in it, in every section of the document.",
  ["programs"],
  "all expressions of every syntactic form, nested to a bounded depth in every position of a document (begin, action, end, merge, user functions, inline functions), and all combinations of optional document fields",
  "The tests compare hand-written documents with hand-written trees; a lost field or an unvisited child shows only for the form and position in which it occurs.",
  ["titus/reader.py", A], [("parsing", "titus/reader.py jsonToAst, yamlToAst"), ("serialization", "titus/pfaast.py toJson, jsonNode"), ("traversal", "titus/pfaast.py collect, replace, walk")])

p("C07", "Accepted programs never go wrong and return what they declare",
  "A document that is accepted when the engine is made never fails on an input of its declared type with anything but a documented PFA error (a numbered runtime error, a user-raised error or a time limit), and every value it returns or emits conforms to the declared output type. Every variable and expression holds at run time a value of the type that was inferred for it.",
  ["programs", "inputs"],
  "all expressions to a bounded depth over literals, variables, constructors, field and index access, conditionals, loops, casts, unions and the core operators, with every numeric, string, array, map, record and union type, over all small inputs",
  "The tests run programs known to be right; soundness is about all programs that the checker lets through.",
  [A, G, D, "titus/signature.py"], [("type inference", "titus/pfaast.py walk"), ("signature matching", "titus/signature.py Sig.accepts"), ("generated code", "titus/genpy.py GeneratePython")])

p("C08", "Type acceptance is a sound preorder and fits the values",
  "One type accepts another exactly when every value of the second may stand where the first is expected: acceptance is reflexive and transitive, widening of numbers goes only from int to long to float to double, containers, records, unions and function types follow their parts, and named types match by full name. Equal types accept each other, and types that differ in a field, symbol, size or branch are told apart. The type merged from several accepts all of them and no narrower type does, and parsing the printed form of a type gives an equal type.",
  ["inputs"],
  "all pairs and triples of types from a universe closed to depth two: all primitives, arrays, maps, fixed, enums, records (also recursive and namespaced), unions of up to three, and function types",
  "The tests list some accepted and rejected pairs; transitivity and soundness quantify over triples of types and over all values of them.",
  [D, "titus/signature.py", "titus/P.py"], [("acceptance", "titus/datatype.py AvroType.accepts"), ("broadest type", "titus/signature.py LabelData.broadestType"), ("type parser", "titus/datatype.py ForwardDeclarationParser")])

p("C09", "Data are encoded, decoded and validated without loss",
  "A value of a type, written as JSON and read back as that type, is the same value (union branch included), and every JSON datum that the type admits is read to a value which is written back as an equivalent datum. Data that do not conform to the declared type (wrong kind, unknown enum symbol, wrong fixed size, missing field, number out of range, unknown union branch) are refused at the boundary of the engine, and neither they nor superfluous record fields ever reach the program.",
  ["inputs"],
  "all types from a universe closed to depth two and, for each, all small conforming values and all values at one deviation from conforming",
  "The tests decode a few values of a few types; the promise is about every type and every malformed datum.",
  [D, "titus/util.py"], [("decoder", "titus/datatype.py jsonDecoder"), ("encoder", "titus/datatype.py jsonEncoder"), ("input check", "titus/datatype.py checkData")])

p("C10", "Comparison of values is one total order used everywhere",
  "For every type without maps (which have no order), comparing values of that type is a total order: reflexive, antisymmetric, transitive and total, following the numeric, lexicographic, field-by-field and declared symbol order of the type, with record field orders (ascending, descending, ignored) respected. The operators that compare, the functions that sort, and the minimum, maximum and rank functions all agree with that order, and equality holds exactly when the comparison is zero.",
  ["inputs"],
  "all pairs and triples of small values of every type from a universe closed to depth two, and all arrays of up to four of them for the functions that sort and select",
  "The tests compare chosen pairs; order axioms quantify over triples, and agreement quantifies over all the functions that use the order.",
  [D, "titus/lib/core.py", "titus/lib/array.py", "titus/lib/map.py"], [("comparison", "titus/datatype.py compare"), ("operators", "titus/lib/core.py"), ("sorting and selection", "titus/lib/array.py sort, min, max, argmin, minN")])

p("C11", "PrettyPFA text means exactly the PFA document it stands for",
  "Every program written in PrettyPFA is translated into the PFA document with the same meaning: operators bind and associate as documented, every special form maps to its PFA counterpart, literals keep their value, and substitutions are inserted whole. Comments, white space, redundant parentheses and redundant semicolons never change the translation, and text that is not a program is refused with a PrettyPFA error.",
  ["programs"],
  "all expressions of up to three binary or unary operators with all parenthesizations; every special form with its optional parts present and absent; every document section; all insertions of white space and comments between tokens",
  "The tests translate selected snippets; precedence and layout freedom quantify over all operator combinations and token boundaries.",
  ["titus/prettypfa.py"], [("grammar", "titus/prettypfa.py Parser p_* rules and precedence"), ("lexer", "titus/prettypfa.py t_* rules"), ("translation to the tree", "titus/prettypfa.py Subs, MiniAst.asExpr")])

p("C12", "Control structures, scopes and errors follow the PFA semantics",
  "Expressions are evaluated in order and exactly once, conditionals evaluate only the chosen branch, loops run as often as their condition says, and each block, loop and function sees the variables that its place in the document gives it: an assignment changes the variable of the enclosing block that declared it and a declaration in an inner block never touches an outer one. Errors raised by the program carry their message and code to the host or to the nearest enclosing handler whose filter admits them, and short-circuit operators skip what they must.",
  ["programs", "inputs"],
  "all programs of up to three statements per block and nesting depth two over let, set, do, if, cond, while, until, for, foreach, forkey, ifnotnull, try, error, casts and function calls (inline, by reference and partially filled), with every trace of evaluations compared with a reference interpreter",
  "The tests run one typical use of each form; interplay of nested scopes, handlers and loops grows with every combination.",
  [G, A, "titus/util.py"], [("run-time scopes", "titus/util.py DynamicScope"), ("control helpers", "titus/genpy.py ifThen, cond, doWhile, doFor, doForeach, tryCatch, ifNotNull"), ("compile-time scopes", "titus/pfaast.py SymbolTable")])

p("C13", "Engine instances are isolated and reproducible",
  "Engines made together from one document, or separately, share nothing but the cells and pools declared as shared: scoring with one changes no answer of another, in any order of calls. With a random seed, each instance's sequence of answers depends only on the document, the seed and its instance number, differs between instances as documented, and is the same however calls to different instances are ordered.",
  ["histories", "configurations"],
  "all orders of up to six calls to three instances, over engines with private and shared cells and pools, fold tallies, random functions, and several documents with one shared state",
  "The tests use one instance at a time; isolation quantifies over call orders of several.",
  [G], [("instances", "titus/genpy.py PFAEngine.fromAst"), ("seeding", "titus/genpy.py PFAEngine.fromAst rand")])

p("C14", "Fold engines aggregate, and merging partial results is consistent",
  "A fold engine starts from its declared zero, answers each datum with the updated tally, and the tally after a sequence of data is the left fold of the program over them; its end section sees the last tally. Merging takes two tallies to the result of the merge program and makes it the tally, so that for a program whose merge is right for its fold, splitting a data sequence over engines at any place and merging gives the same as one engine.",
  ["histories"],
  "all input sequences of up to five small data, all splits of them over two and three engines in every order of calls, for numeric, string, array, map and record tallies, with failing calls in between",
  "The tests fold one sequence; the equations hold for all sequences and all splits.",
  [G], [("tally", "titus/genpy.py commandsFold, commandsFoldMerge"), ("zero", "titus/genpy.py PFAEngine.fromAst")])

p("C15", "Time limits stop every loop and nothing else",
  "With a time limit set for the section being run (begin, action, end), a program that loops past it, through any looping form, recursion or iterating library function that the language offers, is ended with a time limit error; without a limit, or within it, the limit has no effect. Options given by the host override those of the document, each section obeys its own limit, and an error handler in the program cannot swallow the time limit.",
  ["programs", "configurations", "fault_sequences"],
  "every looping form and recursion, nested two deep, in every section, with every combination of per-section limits in document and host, under a clock that runs out at every possible check",
  "The tests time out a few loops by really waiting; which section's limit is used, and at which check it strikes, is a matter of all configurations and clock readings.",
  [G, "titus/options.py", "titus/util.py"], [("check", "titus/genpy.py ExecutionState.checkTime"), ("options", "titus/options.py EngineOptions"), ("call sites", "titus/genpy.py doWhile, doFor, doForeach, titus/util.py callfcn")])

p("C16", "The scoring life cycle delivers what each method promises",
  "A map engine answers each datum with its result, an emit engine passes on exactly the values that its program emits, in order and during the call, through the callback installed by the host, and begin and end run what they declare, once per call. The model parameters (name, instance number, version, metadata, counts of started and finished calls) have at every moment the values that the history gives them, failed calls included, and log output goes to the installed callback with its name space.",
  ["histories", "configurations"],
  "all histories of up to five calls (begin, action that succeeds, action that fails, end) on map, emit and fold engines with every subset of the optional document fields",
  "The tests call each method once; counters, emissions and parameters depend on the history.",
  [G], [("engine template", "titus/genpy.py GeneratePython.__call__"), ("emit", "titus/genpy.py FakeEmitForExecution"), ("parameters", "titus/pfaast.py EngineConfig.walk")])

p("C17", "Ill-formed documents are refused when the engine is made",
  "A document with a static fault is refused when it is read or when the engine is made, never later and never silently: undeclared or redeclared symbols, assignments to symbols that must not be changed, unknown functions, cells, pools, fields or types, arguments, returns and paths of the wrong type, missing or unknown document fields, ill-formed types and initial values, incomplete or overlapping cases, and misuse of forms outside the section that allows them. The same document with the fault mended is accepted.",
  ["programs", "configurations"],
  "all single-fault mutations, from a list of fault kinds, at every place of a set of well-formed documents that use every form in every section",
  "The tests check some faults at one place each; a refusal must not depend on where in the document the fault stands.",
  ["titus/reader.py", A, "titus/signature.py"], [("reader checks", "titus/reader.py _read*"), ("semantic checks", "titus/pfaast.py walk"), ("symbol rules", "titus/pfaast.py SymbolTable")])

p("C18", "Function calls resolve to the right signature and result type",
  "A call is accepted exactly when the argument types fit one of the function's documented patterns, with wildcards bound consistently and numbers widened only upwards, and its type is the one that this pattern gives. User functions and function references, partially filled ones included, obey the same rule with their declared parameter and return types.",
  ["inputs", "programs"],
  "every library function crossed with all tuples of argument types from a universe of small types, up to the arity of the function plus one, compared with an independent matcher over the published patterns",
  "The tests call each function with a few types; the rejected and the widened combinations are hardly touched.",
  ["titus/signature.py", "titus/P.py", A], [("matcher", "titus/signature.py Sig.accepts, Sigs.accepts"), ("wildcards", "titus/signature.py LabelData")])

p("C19", "Arithmetic and mathematical functions give the documented numbers",
  "The arithmetic, comparison, logical and bitwise operators and the mathematical functions give the mathematically documented result for every argument of every numeric type, including zeros, signs, infinities and not-a-number. Integer results outside the range of their type, integer division by zero and undefined operands raise the documented error and never return a wrapped or wrong number.",
  ["inputs"],
  "all tuples of arguments from boundary sets of int, long, float and double (zero, small, extreme, fractional, infinite, not-a-number) for every operator and mathematical function",
  "The tests use ordinary numbers; overflow, division of negative numbers and special values are corner points of a large product.",
  ["titus/lib/core.py", "titus/lib/pfamath.py", "titus/lib/spec.py"], [("operators", "titus/lib/core.py"), ("mathematical functions", "titus/lib/pfamath.py")])

p("C20", "Array functions agree with their definition on every array",
  "Every function of the array library returns, for every array and every other argument, what its documentation defines: the right items in the right order, positions counted and clipped as documented, and the documented error with its code for the arguments it excludes. Higher-order functions apply the given function to the right items in the right order and number.",
  ["inputs"],
  "all arrays of up to four items over small alphabets (integers, doubles with special values, strings, nested arrays), all index and length arguments from below the array to beyond it, and a fixed set of functions as arguments, for every array function",
  "The tests sample arrays and indices; most errors live at particular boundaries, ties and empty arrays.",
  ["titus/lib/array.py"], [("array functions", "titus/lib/array.py")])

p("C21", "Map functions agree with their definition on every map",
  "Every function of the map library returns, for every map and every other argument, what its documentation defines: the right keys with the right values, ties and selections in the documented order, set operations as on sets, and the documented error with its code for the arguments it excludes. Higher-order functions apply the given function to the right entries.",
  ["inputs"],
  "all maps over up to three keys and small value alphabets, all pairs of them for binary functions, and all small other arguments, for every map function",
  "The tests sample maps; empty maps, ties, disjoint and overlapping keys are particular points of the product.",
  ["titus/lib/map.py"], [("map functions", "titus/lib/map.py")])

p("C22", "String, byte, regex and parsing functions agree with their definition",
  "Every function on strings, byte sequences and regular expressions, and every function that parses, formats or converts between them and numbers, enums and fixed values, returns for every argument what its documentation defines, with positions counted in characters, also outside the ASCII range. Encoding and decoding are inverse to each other, and the documented error with its code is raised for malformed data.",
  ["inputs"],
  "all strings of up to four characters over a small alphabet with multi-byte and white-space characters, all index arguments from below to beyond the ends, all small byte sequences, a family of patterns enumerated to a bounded size, and all small numerals, for every such function",
  "The tests sample ordinary strings; empty and overlapping matches, ends and multi-byte characters are particular points.",
  ["titus/lib/pfastring.py", "titus/lib/bytes.py", "titus/lib/regex.py", "titus/lib/parse.py", "titus/lib/cast.py", "titus/lib/enum.py", "titus/lib/fixed.py"], [("string functions", "titus/lib/pfastring.py"), ("byte functions", "titus/lib/bytes.py"), ("regular expressions", "titus/lib/regex.py"), ("parsing and casting", "titus/lib/parse.py, titus/lib/cast.py")])

p("C23", "Date and time functions are right for every moment",
  "For every time stamp and time zone, each function that extracts a part of the date or time returns that part of the proleptic Gregorian calendar in that zone, each predicate holds exactly inside its interval, and making a time stamp from the extracted parts gives back the moment. Leap years, year and week boundaries, fractions of seconds, moments before 1970 and offsets by zones are no exception, and impossible dates and zones raise the documented error.",
  ["inputs"],
  "all days around every kind of year, month, leap and week boundary from 1899 to 2101, at boundary times of day with and without fractions, in zones with positive, negative and fractional offsets and daylight saving, and all fields at and beyond their limits",
  "The tests check a few dates in one zone; calendar errors live at particular boundaries.",
  ["titus/lib/pfatime.py"], [("calendar functions", "titus/lib/pfatime.py")])

p("C24", "Incremental statistics equal the batch statistics of the same data",
  "Feeding a sequence of weighted data one at a time to the updating functions (counts, means, variances, covariances, moving windows, exponentially weighted averages, seasonal forecasts, histograms, counters, top lists, triggers, cumulative sums, chi-square sums) gives after every step the statistic that its definition gives for the whole sequence so far. The state records keep their other fields, and arguments outside the documented domain raise the documented error.",
  ["histories", "inputs"],
  "all sequences of up to five data with weights from small alphabets, from every representation of the state record (all subsets of optional fields), for every updating function and parameter in a small set",
  "The tests feed one sequence; agreement must hold after every prefix of every sequence, with ties, zero weights, window overflow and every shape of the state.",
  ["titus/lib/stat/sample.py", "titus/lib/stat/change.py", "titus/lib/stat/pfatest.py"], [("updating functions", "titus/lib/stat/sample.py"), ("change detection", "titus/lib/stat/change.py"), ("tests", "titus/lib/stat/pfatest.py")])

p("C25", "Decision trees are walked, scored and produced faithfully",
  "Scoring a decision tree follows from the root the branch that each node's comparison selects for the datum and returns that leaf, for every operator, value type, missing-value and surrogate rule that the language has. A tree grown from data predicts with each leaf what its training data say, splits where no other admissible split is better, and the document written from it gives for every datum the same answer as the grown tree.",
  ["inputs", "programs"],
  "all trees of up to three decision nodes with every operator, field type and value, over all small data; and all training sets of up to five records over small numeric and categorical alphabets, with every option of the producer",
  "The tests walk a few trees and grow one; agreement quantifies over trees, operators, types and training sets.",
  ["titus/lib/model/tree.py", "titus/producer/cart.py"], [("node tests and walks", "titus/lib/model/tree.py"), ("growing and writing trees", "titus/producer/cart.py")])

p("C26", "Model functions compute the model they document",
  "Clustering, nearest-neighbor, regression, Bayesian, support-vector and neural-network functions compute for every datum the score that the model's formula gives, choose the right cluster or neighbors also among ties and with fewer items than asked for, and update models as their definition says. Inputs that do not fit the model raise the documented error with its code.",
  ["inputs"],
  "all models with up to three clusters, neighbors, terms, classes, support vectors or layers with parameters from small alphabets, over all small data, for every model function and every form of its data",
  "The tests score one model each; ties, sizes and mismatches are particular points of the product.",
  ["titus/lib/model/cluster.py", "titus/lib/model/neighbor.py", "titus/lib/model/reg.py", "titus/lib/model/naive.py", "titus/lib/model/svm.py", "titus/lib/model/neural.py"], [("model functions", "titus/lib/model")])

p("C27", "Linear algebra functions compute the documented matrices",
  "The linear algebra functions give for every pair of matrices and vectors, in both representations (nested arrays and nested maps), the result of the matrix operation, with missing entries of the map form counting as zero. The algebraic laws hold (transpose and inverse are involutions, a product with the inverse is the identity, determinant and trace agree with their expansions, eigenvectors reproduce the matrix), and ragged, empty, non-square and mismatched matrices raise the documented error.",
  ["inputs"],
  "all matrices up to two by two, and all pairs of them where shapes vary, over a small integer alphabet, and selected families of three by three, in both representations with every pattern of missing keys, for every linear algebra function",
  "The tests compute one example per function; shape and sparsity combinations are many.",
  ["titus/lib/la.py"], [("matrix functions", "titus/lib/la.py")])

p("C28", "Probability distributions are consistent with themselves",
  "For every distribution and all its parameters the cumulative function is monotone from zero to one and is the sum or integral of the density, the density is nonnegative, and the quantile function is the inverse of the cumulative one, at both ends and in the degenerate cases too. Parameters and arguments outside the documented domain raise the documented error with its code, in the array and map form of the parameters alike.",
  ["inputs"],
  "a product grid of parameters (interior, boundary, degenerate, invalid) and arguments (interior, boundary, far tails, outside the support, infinite, not-a-number) for every distribution and every function of it",
  "The tests compare tabulated values; consistency relates all the functions of a distribution over whole grids.",
  ["titus/lib/prob/dist.py", "titus/lib/spec.py"], [("distributions", "titus/lib/prob/dist.py"), ("special functions", "titus/lib/spec.py")])

p("C29", "A chained engine answers as its parts one after another",
  "The engine made by chaining documents gives for every input sequence exactly the answers of the documents run one after another, each on the previous one's outputs, with map and emit stages in any combination, all cells, pools, user functions, named types and begin and end sections kept apart and working. Chains whose types do not fit are refused, and chains whose types are the same up to names are not.",
  ["programs", "histories"],
  "all chains of two and three stages from a family of documents (map and emit, stateless and stateful, with functions, named types, model parameters, begin and end, colliding names) over all input sequences of up to three data",
  "The tests chain a few pairs; name collisions and section merging depend on the combination.",
  ["titus/producer/chain.py"], [("chaining", "titus/producer/chain.py ast"), ("renaming", "titus/producer/chain.py genericReplacer"), ("type matching", "titus/producer/chain.py chainPair")])

p("C30", "Documents produced for clusters and transformations match their models",
  "The document written from a k-means clustering assigns every datum to the cluster that the clustering itself assigns it to, for every metric and similarity, and clustering stops at centers that are the means of their own points. An expression used as a data transformation gives the same number when applied to a data table and when run as part of a document, and the documents are always accepted by the engine.",
  ["inputs", "configurations"],
  "all small data sets and center configurations with every metric, similarity and option of the cluster producer; and every operator and function of the transformation language over boundary arguments, in record, map and array form",
  "The tests run one data set; agreement between the fitted model and the written document is about every metric, option and datum.",
  ["titus/producer/kmeans.py", "titus/producer/transformation.py"], [("clustering and documents", "titus/producer/kmeans.py KMeans"), ("transformations", "titus/producer/transformation.py Transformation")])

p("C31", "JSON document search and editing tools find and change exactly what they say",
  "The tools that search a JSON document return exactly the places whose content matches the pattern, each once and with the path that leads to it, ignoring source-line marks; what they return as a copy is equal to and detached from the document. The editing tools change exactly the addressed places and nothing else, and those that return an edited document leave the original as it was.",
  ["inputs"],
  "all JSON documents of bounded size and depth over a small alphabet, crossed with all patterns built from literals and every matcher to depth two",
  "The tests search one document; exactness is about all places of all documents.",
  ["titus/producer/tools.py"], [("matching", "titus/producer/tools.py getmatch and matchers"), ("search and edit", "titus/producer/tools.py search, assign, remove")])

p("C32", "Packing and unpacking are inverse; Avro files are read and written intact",
  "Packing values with a format and unpacking the bytes with the same format gives back the values, for every element type, signedness and byte order, the bytes follow the documented layout, and bytes that do not fit the format take the alternative branch or raise the documented error, never a partial result. Reading inputs from an Avro file and writing outputs to one hand over every datum unchanged and in order.",
  ["inputs"],
  "all formats of up to three elements over every element type, with boundary values of each, every truncation and extension of the bytes; and files of up to three records of every small type",
  "The tests pack single values; alignment and truncation depend on the combination of elements.",
  [G, A], [("packing", "titus/genpy.py pack, unpack, unpackOne"), ("formats", "titus/pfaast.py BinaryFormatter"), ("file access", "titus/genpy.py avroInputIterator, avroOutputDataFileWriter")])

p("C33", "Metrics, kernels, links and interpolation follow their formulas",
  "The distance metrics, similarities, kernels, link functions, interpolations and imputations return for every argument the value of their formula, including missing values, ties, points outside the table and arrays of any length. Arguments that do not fit together raise the documented error with its code, and what is documented as a metric is symmetric, zero between equal points, and obeys the triangle inequality.",
  ["inputs"],
  "all vectors of up to three components over small alphabets with missing and special values, all tables of up to three points, and all parameters from small sets, for every such function",
  "The tests evaluate one example each; missing values, ties and mismatches are particular points of the product.",
  ["titus/lib/metric.py", "titus/lib/kernel.py", "titus/lib/link.py", "titus/lib/interp.py", "titus/lib/impute.py"], [("formulas", "titus/lib/metric.py, titus/lib/kernel.py, titus/lib/link.py, titus/lib/interp.py, titus/lib/impute.py")])

p("C34", "Random functions stay in their documented range and follow the seed",
  "Every random function returns only values that its documentation allows (within its bounds, of its length and alphabet, drawn with or without replacement from the given items), can return each of them, and takes all its randomness from the engine's own seeded generator. Shuffling returns a permutation, and arguments for which no value exists raise the documented error.",
  ["inputs", "fault_sequences"],
  "all small arguments of every random function, with the generator replaced by one that answers in every possible way, or run under many seeds where the answers cannot be enumerated",
  "The tests draw a few values; that no answer of the generator leads outside the range, and that each permitted value is reachable, needs all the answers.",
  ["titus/lib/rand.py", "titus/lib/array.py", "titus/lib/model/cluster.py"], [("random functions", "titus/lib/rand.py"), ("shuffle", "titus/lib/array.py"), ("random seeds of clusters", "titus/lib/model/cluster.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
