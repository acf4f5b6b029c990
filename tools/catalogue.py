"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/catalogue.py`."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
G = "stheno/model/gp.py"
M = "stheno/model/measure.py"
O = "stheno/model/observations.py"
F = "stheno/model/fdd.py"
N = "stheno/random.py"
L = "stheno/lazy.py"
MO = "stheno/mo/"

P = []


def prop(id, title, statement, over, text, why, files, mech, how, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, how=how, note=note, observe=observe, state=state))


SHADOW = ("Lockstep differential monitoring of random programs against an independent "
          "executable specification (NumPy shadow model)")

prop("C01", "Composed processes have the implied joint law",
     "For every model built from processes by adding, subtracting, negating, scaling, "
     "multiplying with functions, shifting, stretching, selecting, transforming, or giving "
     "explicit covariance rules, the mean of every process and the covariance between every "
     "pair of processes at any inputs equal those of the affine functional that the "
     "construction denotes. This holds in whichever order the processes are constructed and "
     "read, and in priors and posteriors alike.",
     ["programs", "inputs"],
     "every construction program, every pair of processes, every pair of input collections",
     "The tests check about ten hand-written compositions at one or two inputs each; they do "
     "not compose operations, and rarely look at cross-covariances.",
     [M, G, L], [("left and right covariance rules of every operation", M + ":Measure.sum, mul, shift, stretch, select, transform, add_gp"),
                 ("operator overloads", G + ":GP.__add__, __mul__, shift, ...")],
     SHADOW + ": all pairwise covariances and means of each program are judged.",
     "Holds on the programs observed (random, up to some 15 processes); tolerance 1e-8 relative. Trusts mlkernels' elementary kernels.",
     ["Measure.means", "Measure.kernels", "GP.mean", "GP.kernel"])

prop("C02", "Joint covariances are consistent, PSD, and shrink with data",
     "Across any collection of processes and inputs, joint covariance matrices are symmetric "
     "positive semi-definite, the covariance of A with B is the transpose of that of B with A, "
     "and evaluating at a subset of inputs gives the corresponding sub-matrix. Conditioning "
     "never increases the variance of any linear combination of process values.",
     ["programs", "inputs", "histories"],
     "every model, collection of processes and inputs, and history of conditioning",
     "Tests check symmetry or non-negativity nowhere; they compare single kernels.",
     [M, L, O], [("rules for covariances in both orders", M + ":Measure._update"),
                 ("posterior covariances", O + ":AbstractObservations.posterior_kernel")],
     "Runtime invariant monitors (symmetry, PSD, marginal consistency, Loewner order) on random models; oracle-free metamorphic relations",
     "Holds on the models observed up to rounding; invariants only, so independent of the shadow model.",
     ["Measure.kernels", "FDD.var"])

prop("C03", "Conditioning is exact Gaussian conditioning",
     "Conditioning on any number of noisy observations of any processes of a model, through "
     "any of the ways to write it, gives for every process (also processes derived before or "
     "after) the mean and covariance of exact Gaussian conditioning with the stated "
     "observation noise. Conditioning again uses the posterior as the prior.",
     ["programs", "histories", "inputs"],
     "every model, set of observations, representation of noise and values, and chain of posteriors",
     "Tests condition on one or two observations of a single sum and compare a few numbers.",
     [O, M, G], [("posterior mean and kernel", O + ":Observations.posterior_mean, posterior_kernel"),
                 ("conditioning front ends", M + ":Measure.condition, " + G + ":GP.condition"),
                 ("combining observations", O + ":combine")],
     SHADOW + " with closed-form Gaussian conditioning.",
     "Models whose observation covariance has condition number at most 2e3; tolerance follows the 1e-12 jitter.",
     ["Measure.condition", "GP.condition", "means and kernels of posteriors"])

prop("C04", "Conditioning is coherent and obeys the chain rule",
     "Conditioning in one step, in any sequence of steps, in any order, and with observations "
     "grouped in any way gives the same posterior. The log-densities of the steps add up to "
     "the log-density of all observations together.",
     ["histories", "programs"],
     "every way to split, order, and group a set of observations",
     "Tests have two-step conditioning of one process; groupings and orders are not varied.",
     [O, M], [("joint observations", O + ":combine"), ("posterior as prior", M + ":Measure.condition"),
              ("evidence", M + ":Measure.logpdf")],
     "Metamorphic runtime monitoring: posteriors along random histories of the same observations are compared with each other",
     "Holds on the histories observed; tolerance follows the accumulated jitter.",
     ["Measure.condition", "Measure.logpdf"])

prop("C05", "Pseudo-point posteriors equal their definitions",
     "Conditioning on pseudo-point observations with the VFE, FITC, or DTC method gives for "
     "every process of the model the mean and covariance that the literature defines for "
     "these methods, for any inducing points, also of other processes than the observed ones "
     "and with noise. With inducing points at the data, the posterior is the exact one.",
     ["programs", "inputs", "configurations"],
     "every model, collection of inducing points, method, and observations",
     "Tests compare the posterior at inducing points equal to the data only, or one small case.",
     [O], [("pseudo-point posteriors", O + ":AbstractPseudoObservations._compute, posterior_kernel")],
     SHADOW + " with dense textbook formulas of VFE, FITC, and DTC.",
     "Inducing point covariances with condition number at most 2e3.",
     ["Measure.condition with pseudo-observations"])

prop("C06", "The ELBO is the defined bound on the evidence",
     "For every model and pseudo-point observations, the ELBO equals its definition for the "
     "method chosen under whichever measure it is asked for, every time it is asked for. For "
     "VFE it never exceeds the exact log-evidence, it does not decrease when inducing points "
     "are added, and it is tight when the inducing points are at the data.",
     ["programs", "inputs", "histories"],
     "every model, method, inducing points, data, and history of accesses",
     "Tests compare the ELBO with the evidence for inducing points equal to the data in one model.",
     [O], [("ELBO", O + ":AbstractPseudoObservations._compute, elbo"),
           ("per-measure caches", O + ":AbstractPseudoObservations.__init__")],
     SHADOW + " plus online bound monitors (ELBO <= evidence, monotone in inducing points, tight at the data).",
     "Well-conditioned inducing covariances; also 20-60 points with variances up to 1e4.",
     ["PseudoObs.elbo", "Measure.logpdf"])

prop("C07", "Log-densities are Gaussian log-densities",
     "The log-density of observations under any process, model, or distribution, through any "
     "of the ways to ask for it, is the multivariate Gaussian log-density with the joint mean "
     "and covariance plus noise; several columns of values give one log-density each. It does "
     "not depend on the order or grouping of observations.",
     ["inputs", "programs"],
     "every model, collection of observations, and representation of values and noise",
     "Tests check one or two densities against SciPy for single processes.",
     [M, F, N, O], [("density", N + ":Normal.logpdf"), ("front ends", M + ":Measure.logpdf, " + F + ":FDD"),
                 ("joint observations", O + ":combine")],
     SHADOW + " with an eigendecomposition density oracle.",
     "Covariances with condition number at most 2e3.",
     ["Normal.logpdf", "FDD.logpdf", "Measure.logpdf"])

prop("C08", "Samples follow the joint law",
     "Samples of any number of processes and distributions have the shape asked for and "
     "follow exactly the joint Gaussian law, noise included when the distribution has noise "
     "and never otherwise; separate draws are independent. Sampling only advances the random "
     "state, and the same random state gives the same sample.",
     ["inputs", "programs", "configurations"],
     "every model, collection of processes, number of samples, random state, and noise argument",
     "Tests look at shapes and at one sample mean and covariance with a loose tolerance.",
     [N, M, F], [("sampling", N + ":Normal.sample"), ("joint samples", M + ":Measure.sample"),
                 ("splitting of joint samples", M + ":Measure.sample, mlkernels.num_elements of an FDD")],
     "Statistical runtime monitor over whitened samples (20,000 per distribution), plus exact monitors of shapes, reproducibility, and the random state",
     "Statistical: threshold 6.5 standard errors per judgement, fixed seeds.",
     ["Normal.sample", "Measure.sample", "FDD.sample"])

prop("C09", "Closed forms of the normal distribution are exact",
     "For any pair of normal distributions with any structure of mean and variance, the "
     "entropy, Kullback-Leibler divergence, 2-Wasserstein distance, second moment, marginals, "
     "credible bounds, sums, and linear maps equal their closed forms. The divergences are "
     "non-negative, vanish between equal distributions, and the Wasserstein distance is "
     "symmetric.",
     ["inputs"],
     "every mean, variance, and matrix structure (zero, constant, diagonal, low-rank, dense, Woodbury, Kronecker)",
     "Tests use random dense matrices mostly and compare with a single structure.",
     [N], [("closed forms", N + ":Normal.entropy, kl, w2, m2, marginals, marginal_credible_bounds"),
           ("arithmetic", N + ":Normal.__add__, __mul__, lmatmul, rmatmul")],
     "Differential monitoring over all pairs of matrix structures against eigendecomposition oracles",
     "Well-conditioned variances up to dimension 6.",
     ["Normal"])

prop("C10", "Results do not depend on access history",
     "Whatever was asked of a distribution or process before, in whichever order and however "
     "often, each of its mean, variance, marginals, bounds, and samples' law is the same as "
     "on a fresh copy. Reading never changes the arrays that a user passed in or was given.",
     ["histories"],
     "every sequence of accesses",
     "Tests access each quantity once on fresh objects, apart from a few.",
     [N, F], [("lazily computed moments and caches", N + ":Normal._resolve_*, mean, var, mean_var, marginals"),
              ("caches of posteriors", O + ":AbstractObservations.K_x and others")],
     "Online history checker: random access sequences with equality against fresh copies, and digests of every user array",
     "Histories up to 12 accesses.",
     ["Normal.mean", "Normal.var", "Normal.mean_var", "Normal.marginals", "FDD"])

prop("C11", "Measures are isolated and immutable",
     "Conditioning, extending, sampling, or naming in one measure never changes what any "
     "other measure, or an existing process in the same measure, says. A process is "
     "associated with exactly the measures it was constructed in or that were conditioned "
     "from those.",
     ["histories", "programs"],
     "every history of operations on several measures",
     "Tests check a few associations once, never that earlier answers are stable under later operations.",
     [M, G, L], [("copying of the domain upon conditioning", M + ":Measure.condition"),
              ("snapshots of the rule's domain", L + ":LazyMatrix.add_left_rule"),
              ("groups of measures", G + ":intersection_measure_group")],
     "Online invariant monitor: answers are recorded as a log and re-read after every later operation",
     "Histories up to some 20 operations.",
     ["GP.measure", "GP._measures", "Measure.means", "Measure.kernels"])

prop("C12", "The default measure follows the with-statement stack",
     "Within any nesting of with-statements on measures, including re-entering the same "
     "measure and leaving through exceptions, processes without an explicit measure go to the "
     "innermost open measure, and explicit measures win. Outside of all, every process gets a "
     "fresh measure of its own.",
     ["histories", "fault_sequences"],
     "every sequence of entering, leaving, raising, and constructing",
     "Tests have one nested pair of contexts without re-entry or exceptions.",
     [M, G], [("context stack", M + ":Measure.__enter__, __exit__"), ("constructor", G + ":GP.__init__")],
     "Online checker against a stack automaton over random nested and raising context histories",
     "Single-threaded use.",
     ["Measure.default", "GP.measure"])

prop("C13", "Names are a two-way dictionary that rejects duplicates",
     "In every measure, looking up a name gives the process that was last given that name and "
     "looking up a process gives its name, for any sequence of naming and renaming. A name "
     "that is taken by another process is rejected and leaves all names as they were.",
     ["histories"],
     "every sequence of naming, renaming, and rejected naming",
     "Tests rename once and provoke one duplicate.",
     [M, G], [("two dictionaries", M + ":Measure.name"), ("name property", G + ":GP.name")],
     "Online model-based checker: a dictionary automaton runs in lockstep with random naming histories",
     "Histories up to 40 operations on up to three measures.",
     ["Measure.__getitem__", "GP.name"])

prop("C14", "Multi-output processes are stacks of their components",
     "A Cartesian product of processes (also nested, scaled, shifted, or summed) evaluated at "
     "inputs is the concatenation of its components, and at inputs that name components only "
     "those, for means, variances, covariances with any other process, sizes, samples, "
     "densities, and conditioning. This holds for processes constructed before and after it.",
     ["programs", "inputs"],
     "every product of processes, operation on it, and collection of inputs",
     "Tests use a single product of two processes and compare a few blocks.",
     [MO + "kernel.py", MO + "mean.py", MO + "input.py", MO + "infer.py", M],
     [("blocks", MO + "input.py:pairwise, elwise"), ("multi-output kernel and mean", MO + "kernel.py, mean.py"),
      ("sizes", MO + "infer.py:infer_size, dimensionality"), ("covariance rules of products", M + ":Measure.cross")],
     SHADOW + " in which products are lists of components.",
     "A product plus or times a function or plus a number is a known finding.",
     ["GP", "Measure.kernels", "Measure.means", "FDD"])

prop("C15", "Missing values are as if never observed",
     "Conditioning, pseudo-point conditioning, ELBOs, and log-densities with NaNs among the "
     "values equal those with exactly these observations, their inputs, and their noise left "
     "out, for every pattern of missing values, kind of input, and kind of noise. Selecting a "
     "subset of a finite-dimensional distribution gives the distribution at that subset.",
     ["inputs"],
     "every pattern of missing values, including none and all but one",
     "Tests have one pattern for one process.",
     [O, F, N, MO + "kernel.py"], [("dropping missing values", O + ":combine, _take"), ("selection", F + ":take"),
                                  ("missing values in densities", N + ":Normal.logpdf")],
     "Metamorphic monitoring (NaN versus physically removed) plus the shadow model",
     "NaNs with multi-output processes other than products of processes are a known finding.",
     ["Measure.condition", "Measure.logpdf", "B.take"])

prop("C16", "Backends agree and gradients are right",
     "The same model gives the same posterior, evidence, ELBO, and divergence with NumPy, "
     "AutoGrad, TensorFlow, PyTorch, and JAX inputs, in the data type of the inputs, and the "
     "gradients of these with respect to hyperparameters equal finite differences, also under "
     "just-in-time compilation.",
     ["configurations", "inputs"],
     "every backend and every model",
     "Tests run nearly everything with NumPy only; imports of the other backends are checked for three quantities.",
     ["stheno/autograd", "stheno/jax", "stheno/tensorflow", "stheno/torch", N, O],
     [("backend-agnostic code", N + ", " + O), ("backend imports", "stheno/{autograd,jax,tensorflow,torch}")],
     "N-version differential monitoring across five backends with finite-difference gradient oracle",
     "CPU. AutoGrad gradients only where the library can differentiate matrix structures; single precision is checked for its type with PyTorch and TensorFlow.",
     ["Normal", "GP", "Measure.logpdf", "PseudoObs.elbo"])

prop("C17", "Batches act per slice",
     "For batched inputs, values, means, and variances, every quantity (moments, density, "
     "sample, posterior, evidence, ELBO, divergence, arithmetic) equals the stack of the "
     "quantities of the slices.",
     ["inputs"],
     "every batch shape and every quantity",
     "Tests use one batched density and one batched sample.",
     [N, O, F], [("batched algebra", N + ":Normal.logpdf, kl, w2, entropy, sample"),
              ("batched conditioning", O)],
     "Metamorphic monitoring: batched result versus loop over slices",
     "Batch shapes of rank one and two.",
     ["Normal", "GP", "Measure"])

prop("C18", "Lazy tensors resolve by stored values, then rules",
     "A lazy vector or matrix returns a stored value if there is one, and otherwise the value "
     "of the applicable rule: universal rules first, then rules on the left index, then on the "
     "right, and earlier rules before later ones; a rule is called at most once per index and "
     "only for indices that were in its domain when it was added. Indices are compared by "
     "identity, and an index that nothing applies to is rejected.",
     ["histories"],
     "every history of storing, adding rules, growing domains, and looking up",
     "Tests build one vector and one matrix with a fixed history.",
     [L], [("resolution", L + ":LazyTensor.__getitem__, LazyVector._build, LazyMatrix._build")],
     "Online model-based checker over random histories with an event log of rule calls",
     "Histories up to 60 operations.",
     ["LazyVector", "LazyMatrix"])

prop("C19", "Derivatives of processes are derivatives",
     "The derivative of a process with respect to any input dimension is jointly Gaussian "
     "with all other processes of the model with the differentiated mean and covariances, and "
     "the finite-difference approximation is the exact linear functional that it denotes. "
     "Conditioning on derivatives informs the process accordingly. (Processes with one "
     "output and differentiable kernels.)",
     ["programs", "inputs"],
     "every process, input dimension, and order",
     "Tests check one derivative of an EQ kernel at scalar inputs.",
     [M, G], [("derivative rule", M + ":Measure.diff"), ("finite differences", G + ":GP.diff_approx")],
     SHADOW + " with high-order finite differences and closed-form derivatives.",
     "Smooth kernels; TensorFlow performs the differentiation. The size of the derivative of a Cartesian product is a known finding.",
     ["GP.diff", "GP.diff_approx"])

prop("C20", "Marginals never build the full covariance",
     "Asking for marginal means, variances, or credible bounds of a process, prior or "
     "posterior, at n inputs costs memory and kernel evaluations linear in n, and an already "
     "conditioned model does not evaluate the covariance of the data again. Conditioning on "
     "pseudo-points is linear in the number of observations, and a distribution evaluates "
     "its covariance at most once.",
     ["inputs", "histories"],
     "every model and number of inputs",
     "Tests check one prior process through timing-free equality only.",
     [F, N, O], [("lazily evaluated diagonal", F + ":FDD.__init__"), ("marginals", N + ":Normal.marginals, mean_var_diag"),
              ("caches", O + ":Observations.K_x")],
     "Instrumented kernel: an event log of every kernel evaluation and its size, checked offline",
     "Observes evaluations of user-supplied kernels.",
     ["FDD.marginals", "Measure.condition"])

prop("C21", "Products of processes match moments",
     "The product of two processes of a model, correlated or not, prior or posterior, has the "
     "mean and covariance of the product of the two jointly Gaussian processes, and is jointly "
     "related to the other processes as the linearisation around the means.",
     ["programs", "inputs"],
     "every pair of processes and every pair of inputs",
     "Tests compare one product of two independent zero-mean processes.",
     [M, G], [("product", M + ":Measure.mul"), ("overload", G + ":GP.__mul__")],
     SHADOW + " with moment formulas, plus Monte Carlo of the true product.",
     "Isserlis' theorem.",
     ["GP.__mul__", "Measure.mul"])

prop("C22", "Invalid use is rejected and changes nothing",
     "Combining processes without a common measure, constructing a process without a kernel "
     "in use, asking for unknown names or processes, giving values of the wrong shape, "
     "non-diagonal noise with pseudo-points, or ambiguous sizes raises an exception. After "
     "the exception every measure answers as before.",
     ["fault_sequences", "inputs"],
     "every invalid call in every state of a model",
     "Tests provoke each error once on a fresh model and never look at the state afterwards.",
     [G, M, O, MO + "infer.py", F], [("assertion of a common measure", G + ":assert_same_measure, intersection_measure_group"),
                               ("argument checks", O + ":combine, AbstractPseudoObservations._compute")],
     "Fault-injection monitoring: random invalid calls at random points of random programs; state is fingerprinted before and after",
     "Exceptions of any type count as rejection unless documented.",
     ["GP", "Measure", "Obs"])

prop("C23", "A process that claims stationarity is stationary",
     "If a process reports a stationary kernel, then its covariance is invariant to shifting "
     "both inputs, whichever operations the process was constructed with. Scaling, shifting, "
     "stretching, and adding a process to itself preserve the report.",
     ["programs", "inputs"],
     "every process and every shift",
     "Tests check the flag on two processes.",
     [G, MO + "kernel.py"], [("flag", G + ":GP.stationary")],
     "Metamorphic runtime monitor: shift invariance of every process whose flag is set in random programs",
     "One-sided beyond scaling, shifting, stretching, and self-addition: a stationary process may report otherwise.",
     ["GP.stationary"])

prop("C24", "Noise representations are equivalent and preserved",
     "Observation noise given as a number, a vector, a matrix, or a structured matrix with "
     "the same meaning gives the same distribution, density, posterior, and samples' law, "
     "without noise the distribution is the process' own, and every way to build or transfer "
     "a finite-dimensional distribution preserves its inputs, process, and noise.",
     ["inputs", "configurations"],
     "every noise and every representation of it",
     "Tests check the conversion for three examples.",
     [F, O, M], [("conversion of noise", F + ":_noise_as_matrix"), ("transfer to a measure", M + ":Measure.__call__")],
     "Metamorphic monitoring across representations, plus the shadow model",
     "Positive noise.",
     ["FDD"])

prop("C25", "Numbers mean the same in every representation",
     "Inputs, values, noises, and constants that denote the same numbers give the same "
     "means, variances, densities, samples, divergences, evidence bounds, and posteriors "
     "whatever represents them: integers or floating-point numbers, Python or NumPy scalars, "
     "zero-dimensional arrays, vectors or columns, strided, reversed, Fortran-ordered, or "
     "read-only arrays, or structured matrices. Arrays that the user provides are never "
     "modified.",
     ["inputs", "configurations"],
     "every representation of every number in every program",
     "The tests use double-precision random arrays nearly everywhere.",
     [F, N, O, G], [("noise to a matrix", F + ":_noise_as_matrix"),
                    ("density and entropy", N + ":Normal.logpdf, entropy"),
                    ("values of observations", O + ":Observations"),
                    ("constants", G + ":GP.__add__, __mul__")],
     "Metamorphic monitoring: one script executed under hostile representations of every number",
     "Integers of at least 32 bits, numbers that all representations can express exactly; single precision only where numbers enter linearly.",
     ["FDD", "Normal.logpdf", "Measure.condition"])

prop("C26", "A program means the same whatever else happens",
     "The answers of a program, its names, orders of processes, and displays do not depend on "
     "which objects have been freed and which addresses are used again, on garbage "
     "collection, on the hash seed of the interpreter, on other models that live in the same "
     "interpreter and are built and queried in between, or on how often the program ran.",
     ["programs", "schedules", "configurations"],
     "every program, every schedule with other programs, every memory layout and hash seed",
     "A test runs one program once in a fresh or unknown state of the interpreter.",
     [M, L, O, G], [("identity-keyed stores", L + ":LazyVector, LazyMatrix"),
                    ("caches of observations per measure", O + ":PseudoObservations"),
                    ("sets of measures", G + ":intersection_measure_group")],
     "Differential monitoring of one program under memory churn, forced garbage collection, random interleavings with other programs, and fresh interpreters with other hash seeds",
     "Interleavings at the granularity of statements; threads are not promised and not exercised.",
     ["Measure", "LazyVector", "LazyMatrix", "PseudoObservations"])

prop("C27", "Displays are faithful and harmless",
     "Showing a process, mean, kernel, or distribution works for every program, in priors and "
     "posteriors, named or not, computed or not. It evaluates nothing at any input and "
     "changes nothing. A process shows its own mean and kernel in its own measure, a "
     "formatter is applied to every number, a distribution shows its mean and variance once "
     "these are computed and that they are unresolved until then, and a finite-dimensional "
     "distribution shows its process, input, and noise.",
     ["programs", "histories"],
     "every program, every object, every moment",
     "Tests compare a handful of strings of simple processes.",
     [G, F, N, MO + "kernel.py", MO + "mean.py"],
     [("display of processes", G + ":GP.display"), ("display of distributions", N + ":Normal.__str__; " + F + ":FDD.__str__"),
      ("display of Cartesian products", MO + "kernel.py:MultiOutputKernel.render")],
     "Online monitor: evaluation log of instrumented kernels must stay empty during displays; shown text compared with what is shown",
     "Reading a posterior's kernel for the first time may compute what all inputs share; texts of kernels are mlkernels'.",
     ["GP.display", "Normal.__str__", "FDD.__str__"])

prop("C28", "Dropped models are freed",
     "Once a program drops its last reference to a model, that is, to its measures, "
     "processes, distributions, and observations, a garbage collection frees all of it, "
     "including the data, whatever was done with the model: conditioning, sampling, display, "
     "default measures, operations that were rejected. Reading from distributions of a model "
     "that stays alive keeps nothing alive, and other models are not affected.",
     ["histories", "programs"],
     "every program and every order of dropping",
     "No test looks at the lifetime of objects.",
     [M, G, O, F, N, "stheno/lazy.py"],
     [("default measures", M + ":Measure.__enter__, __exit__"), ("caches of observations", O),
      ("lazy means and covariances", "stheno/lazy.py"), ("lazy distributions", N)],
     "Online monitor of object lifetimes: census of live objects, weak references to every object and array, traced memory",
     "CPython. While a prior process is alive, all measures that know it and the processes of these are alive too.",
     ["Measure", "GP", "FDD", "Observations"])


def main():
    live = [p for p in P if (ROOT / "mon" / "checks" / (p["id"].lower() + ".py")).exists()]
    lines = []
    for p in live:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"] or [], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}))
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "technique": "runtime monitoring: " + p["how"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in live],
        "not_applicable": [],
        "notes": "No hooks in the code under test: monitors observe public interfaces, "
                 "instrumented kernels and functions, and intercepted random sources. "
                 "Compiler sanitizers and race detectors do not apply: see DESIGN.md.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(live), "properties")


if __name__ == "__main__":
    main()
