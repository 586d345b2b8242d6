"""Which modules hold obligations, and what is said about each property."""

MODULES = ["obl_measure", "obl_condition", "obl_gp", "obl_random", "obl_mo", "obl_misc", "obl_lazy"]

BASE = (
    "Abstract interpretation of the source: every function a scenario reaches is evaluated on symbolic arguments, with "
    "branches joined into gated values and loops summarised in closed form, so each result is one term that covers all inputs "
    "of the given types; the term is normalised (ring arithmetic, structure of matrices, kernels, tables and sequences) and "
    "compared with the term that the property prescribes. "
)
RULE = (
    "one obligation is one operation or query (with the history before it) on symbolic objects; each facet compares one result, "
    "effect or raising condition with its specification and is discharged only if both normalise to the same term in all cases"
)
TRUST = [
    "lab, matrix, mlkernels, plum and algebra compute what their documented functions denote",
    "processes, models and distributions compare by identity and are not mutated from outside the package",
]

RULES_ONLY = (
    "Rules over the resolved syntax trees of all modules of the package: names, imports, calls and handlers are resolved through "
    "the package's own import graph before a rule judges them. "
)

WHAT = {
    "P01": "Every linear operation of a measure and of a process, in all argument types, gives the mean, kernel, both rules and all effects the operator prescribes.",
    "P02": "Every creating operation registers rules for both argument orders that are transposes of each other, over the processes present before.",
    "P03": "Moments and cross-covariances of products of two processes, in both orders and for equal factors.",
    "P04": "Posterior mean and covariance of exact conditioning, for all calling forms and pairs of processes.",
    "P05": "The four quantities of each approximation and the posterior built from them.",
    "P06": "The effects of conditioning and viewing on all existing objects, and what the new model shares with the old.",
    "P07": "Which parts are restricted, by which mask, under which condition, for all kinds of inputs and noise.",
    "P08": "Order and alignment of combined parts, for symbolic sequences of any length.",
    "P09": "Joint draws: measure, noise, offsets of each request and the order of results.",
    "P10": "The distribution and the values whose density is taken, for all calling forms.",
    "P11": "All views of a distribution of a process, after every history of up to two earlier queries.",
    "P12": "The matrix that each form of noise becomes, and that it stays with the distribution.",
    "P13": "All queries of all nine ways to construct a normal, after every history of up to two earlier queries.",
    "P14": "Each arithmetic operation on normals against the affine rule, including that operands stay as they are.",
    "P15": "Each closed-form quantity against its definition.",
    "P16": "Marginals and bounds against their definition for all constructions and histories.",
    "P17": "Which random state each draw uses, where the advanced state goes, and that nothing else draws.",
    "P18": "The two tables of names after every kind of naming, including failed ones.",
    "P19": "The default after entering and leaving nested blocks, including re-entered ones and exceptions.",
    "P20": "The models that a combination is defined in, their order, the rejections, and that nothing orders by address.",
    "P21": "The lazy tables' own code: which entry or rule answers, for which indices, once.",
    "P22": "What each cache returns after queries about other models, and what its keys are.",
    "P23": "Layout of multi-output means and kernels for plain, distribution-shaped and tuple inputs.",
    "P24": "Inferred sizes and dimensionalities of all kernels and inputs.",
    "P25": "No branch, conversion or call of a foreign library depends on the user's values, in any analysed scenario; imports of frameworks.",
    "P26": "The axes on which every operation acts.",
    "P27": "No array, container or distribution handed in is written to, in any analysed scenario.",
    "P28": "Model, mean, kernel and name of a constructed process for all forms of construction.",
    "P29": "What every documented name is bound to in every entry module, and what promised types are delivered as.",
    "P30": "The terms, weights, step and models of approximate derivatives.",
    "P31": "The exact condition under which each invalid request raises, before any effect; no handler swallows errors.",
    "P32": "Evaluation, equality, display and dimensionality of wrapped kernels.",
    "P33": "Each reflected and derived operator of random objects against the basic ones.",
    "P34": "Which kernel evaluations diagonal and joint queries lead to, after histories of queries.",
    "P35": "Mean, kernel and all covariances of a process or distribution viewed under a model.",
}

# Facts that have to be decided for the analysis to count (about a quarter of those on the unchanged tree).
MINIMUM = {
    "P01": 694, "P02": 1071, "P03": 15, "P04": 54, "P05": 449, "P06": 1685, "P07": 253,
    "P08": 676, "P09": 154, "P10": 33, "P11": 630, "P12": 656, "P13": 3340, "P14": 994,
    "P15": 554, "P16": 60, "P17": 1321, "P18": 1057, "P19": 174, "P20": 479, "P21": 59,
    "P22": 1238, "P23": 330, "P24": 134, "P25": 1040, "P26": 359, "P27": 1442, "P28": 142,
    "P29": 106, "P30": 6, "P31": 358, "P32": 20, "P33": 120, "P34": 127, "P35": 189,
}

PROPERTIES = {
    p: {
        "explanation": (RULES_ONLY if p == "P29" else BASE) + w,
        "rule": RULE,
        "assumptions": TRUST,
        "minimum": MINIMUM.get(p, 1),
    }
    for p, w in WHAT.items()
}
