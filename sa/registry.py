"""property -> (module with the check function, title)"""
CHECKS = {
    "C01": ("scorer", "match counts"), "C02": ("scorer", "preprocessing"),
    "C08": ("scorer", "empty ground truth"), "C26": ("scorer", "tolerance"),
    "C09": ("edges", "encodings"), "C16": ("edges", "label maps to edges"), "C17": ("edges", "boundary band"),
    "C31": ("edges", "label remapping"), "C32": ("edges", "instance identifiers"),
    "C21": ("small", "native entry points"), "C34": ("small", "suppression pipeline"), "C22": ("small", "result files"), "C27": ("small", "threshold specifications"),
    "C03": ("metrics", "ODS"), "C04": ("metrics", "OIS"), "C05": ("metrics", "AP and AUC"),
    "C06": ("metrics", "parallel evaluation"), "C07": ("metrics", "ratios"),
    "C10": ("jobs", "categories"), "C12": ("jobs", "protocol presets"), "C13": ("jobs", "options"), "C14": ("jobs", "job files"),
    "C15": ("jobs", "pixel grids"), "C24": ("jobs", "refused configurations"), "C28": ("jobs", "multi-category reports"),
    "C11": ("convert", "ground-truth file names"), "C30": ("convert", "converted edges"),
    "C18": ("tables", "class lists and label tables"),
    "C23": ("effects", "caller data and state"), "C25": ("calls", "calls, names, attributes, library uses"),
    "C19": ("thinning", "Guo-Hall thinning"),
    "C33": ("convert", "file scans and work lists"),
    "C20": ("native", "the pixel matcher's pairs"),
    "C29": ("native", "non-maximum suppression"), "C38": ("native", "prices of the matching"),
    "C39": ("convert", "stored boundary annotations"), "C40": ("containers", "native arrays and draws"),
    "C41": ("batch", "suppression of directories"),
    "C42": ("accepts", "accepted and refused inputs"),
}

NOT_APPLICABLE = {
    "C35": "optimality of a min-cost assignment found by an iterative cost-scaling loop at run time: no "
           "static argument over the source in reach bounds it",
    "C36": "bit-identity depends on scheduling and floating-point summation order inside native libraries; the "
           "order-preservation part that is decidable from the source is C06 and C23",
    "C37": "connectivity preservation is a theorem about the iterated Guo-Hall operator over unbounded images; "
           "what is decidable from the source (the operator is exactly Guo-Hall) is C19",
}

_VG = "interprocedural data-flow analysis (value graphs over the syntax tree)"
TECHNIQUE = {
    "*": _VG + ", normal forms compared with those of a reference definition",
    "native": "array data-flow analysis of the C++ source over clang's syntax tree, with linear index and bound "
              "arithmetic",
    "containers": "abstract interpretation of the array classes' methods over clang's syntax tree (storage, index polynomials), "
                  "and inductive loop invariants for the drawing functions, settled by linear arithmetic",
    "accepts": _VG + ", folding the path condition of every return over abstract inputs (shape, element type, end values)",
    "C18": "constant evaluation of the tables' initialisers in the syntax tree, compared with each other and with the "
           "published tables",
    "C19": "evaluation of the constant neighbourhood tables and an event automaton over the thinning loops",
    "C21": "guard and dominance analysis of the native entry points and of what reaches them",
    "C23": "effect and alias analysis: every write of every public function is traced to the value it changes",
    "C25": "call-site conformance lint: names, attributes, parameters and library signatures of every call",
}
NOTE = {
    "accepts": "Static: for each operation the condition under which it returns is composed from the assertions, raises and "
               "failing conversions on its paths, through its calls, and folded for abstract inputs given by shape, element "
               "type and the end values of the domain; no code is run. Conditions on computed values are not judged; a "
               "condition on the input that does not fold is reported as undecided.",
    "*": "Static: entry points are analysed from the parsed source (data flow through calls, branches, loops and "
         "pools) into normal-form value-graph terms and compared with the terms of a reference definition; no code of "
         "the repository is run and no solver explores its paths. A fully interpreted difference is a violation, an "
         "uninterpretable one is reported as undecided in the evidence. Assumes documented library semantics and real "
         "(not floating-point) arithmetic.",
    "containers": "Static: method bodies are read from clang's syntax tree of the current source; indices, sizes and "
                  "copies are polynomials over the arguments. Functions outside the fragment (other library calls, "
                  "pointer arithmetic in loops) make an obligation undecided. Assumes no integer overflow and that "
                  "allocation succeeds.",
    "native": "Static: the C++ functions are read from clang's syntax tree of the current source and summarised as "
              "array operations over index ranges; obligations are settled by a small linear-arithmetic prover over "
              "those ranges. Constructs outside that fragment make an obligation undecided (reported in the "
              "evidence), not violated. Assumes no integer overflow and real arithmetic.",
    "C18": "Static: every table is read from its initialiser; all entries are covered. Assumes the tables are not "
           "rebound at import by code outside the package.",
    "C19": "Static: the tables' constants are evaluated for all 256 neighbourhoods and compared with the Guo-Hall "
           "predicate; the loops are analysed as events over the image. Assumes documented numpy and scipy semantics.",
    "C23": "Static: writes, in-place operators, mutating methods and library out-arguments reached from each listed "
           "public function, with the aliases numpy documents; second calls are compared with first calls as terms.",
    "C25": "Static: every call site of the package is matched with the signature of what it resolves to; library "
           "signatures come from sa/library.json and sa/members.json (committed, generated from the installed "
           "versions).",
}
