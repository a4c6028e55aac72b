ORACLE = {
 "C01": "a store of immutable values that applies each call's writes to a copy and keeps the copy only if the call succeeds.",
 "C02": "the set of all results of one-at-a-time orders of the same operations, computed by a reference store; each explored schedule's answers and final stores must be in it.",
 "C03": "documents: reachability in the call graph, written down independently of the engine's own analysis; executions: the scheduler itself knows which thread waits for which lock, and afterwards every store must still be usable.",
 "C04": "a model in which values are immutable (every assignment binds a deep copy); library calls compare deep copies taken before with the holders afterwards.",
 "C05": "the running engine itself: resumed engines must agree with it from every reachable state.",
 "C06": "structural equality of documents under the reader's equivalences, and the answers of engines made before and after.",
 "C07": "conformance of values to types by `mc/universe.py`; the list of PFA's own error types.",
 "C08": "a coinductive reference definition of acceptance, and conformance of values.",
 "C09": "conformance and JSON round trips defined in `mc/universe.py`.",
 "C10": "a comparison written from the Avro specification.",
 "C11": "a reference parser (precedence climbing) for operators, and the PFA form of each special form written by hand.",
 "C12": "the reference interpreter `mc/ref.py`.",
 "C13": "one reference interpreter per instance; the answers of each instance alone.",
 "C14": "the reference interpreter, and left folds in plain Python.",
 "C15": "the same program without limit gives its tick times; the limit divides them.",
 "C16": "the reference interpreter, extended by the counters, emissions and log records of the life cycle.",
 "C17": "the sound document next to each faulty one; the list of faults is constructed so that the verdict is known.",
 "C18": "a matcher of patterns written from the specification, and `signatures.json`.",
 "C19": "exact integer and rational arithmetic, platform libm, exact series.",
 "C20": "list comprehensions written from the documentation.",
 "C21": "dict comprehensions written from the documentation.",
 "C22": "independent definitions; a backtracking POSIX matcher for regular expressions.",
 "C23": "an independent civil calendar (day counts) and zone rules written by hand.",
 "C24": "batch statistics of the whole history in exact fractions.",
 "C25": "independent walk and gain computations; the grown tree must split as well as the best admissible split.",
 "C26": "direct evaluation of the formulas.",
 "C27": "exact rational linear algebra.",
 "C28": "positive-term series and exact fractions; quantiles are put back into the reference cumulative function.",
 "C29": "the single engines, run one after another.",
 "C30": "independent k-means steps; the documents run on a grid of points; per-row documents for transformations.",
 "C31": "an independent matcher and path editor.",
 "C32": "an independent byte layout; Avro files written and read with branch-exact readers and writers.",
 "C33": "the formulas in plain Python; metric laws over all triples.",
 "C34": "the set of permitted results; all choices of the generator are explored, so that each permitted result must also be reached.",
}
LIMITS = {
 "C04": "initial values of a pool update (`init`) that are used while the item exists are not compared",
 "C05": "the untagged union in a cell is a recorded finding",
 "C06": "documents without a name get a fresh one each time",
 "C08": "transitivity does not include field defaults; merging three types of which some are unions may be refused depending on the order; the order of branches of a merged union is open",
 "C10": "comparing maps ends in NotImplementedError, recorded under C07",
 "C12": "how often the arguments of a partial application are evaluated",
 "C13": "seeds n and -n coincide (Python's generator)",
 "C17": "unknown options, empty unions, casts without cases or with cases that are unions",
 "C18": "`//` of an int and a double; which branch of a union pattern a wildcard stands for; operators cannot be referred to",
 "C28": "hypergeometricCDF beyond m is pinned to 0 by the tests",
}
CAUGHT = {}
