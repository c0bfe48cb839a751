"""single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "pydsge/engine.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "The search for the constraint regime is sound, minimal and total",
     "For every state, shock vector and table size, the search for the expected durations (l periods until the constraint binds, then k periods at the constraint) terminates, stays inside the tabulated regimes and returns an error flag of 0, 1 or 2. "
     "Without error it returns (0,0) exactly if the constraint is slack in expectation over the whole horizon, and otherwise the lexicographically smallest (l,k) whose expected path respects the constraint before the spell, binds at its first and last period and is slack again right after it. "
     "An error flag is returned only if no tabulated regime is consistent: then l is 0 and k is the first duration after which the constraint is left again (flag 1) or the longest tabulated one (flag 2).",
     ["inputs", "configurations"], "all states, shocks, bounds, regime tables and table sizes, including k_max=0 and exact ties",
     "The tests run one example model from one or two shocks; the guarantee quantifies over all states, all tables and all loop counts.",
     [E], [("regime search", "engine.find_lk"), ("consistency search", "engine.bruite_wrapper"), ("expected constraint value", "engine.check_cnst")],
     [("constraint tables", "expected value of the constraint at five positions of the spell for each (l,k)", "engine.preprocess_jittable")],
     ["pydsge.engine.find_lk", "DSGE.t_func(..., return_k=True)"])
prop("C02", "Regime decision rules solve the equilibrium conditions of their regime",
     "For every system and every tabulated regime (l,k), the stored decision rule and constant satisfy the equilibrium equations of the current period - the unconstrained equations if l>0, the constrained ones including the bound if l=0<k - given that next period follows the rule of the regime one period closer to the end of the spell ((l-1,k), or (0,k-1) once the constraint binds). "
     "Regime (0,0) is the given unconstrained solution without constant, and every regime table entry is written.",
     ["inputs", "configurations"], "all system matrices with the documented block structure, all dimensions, all l_max and k_max",
     "Tests look at one calibrated model and a handful of responses; a wrong block, index or missing constant in a rarely visited regime goes unnoticed.",
     [E], [("rule of the states", "engine.get_lam"), ("rule of the controls", "engine.get_omg"), ("recursion over regimes", "engine.preprocess_jittable")],
     [("regime tables", "decision rule and constant per (l,k)", "engine.preprocess_jittable")], ["DSGE.t_func(set_k=(l,k))"])
prop("C03", "Constraint forecasts are the expected path under the regime, and never stale",
     "For every regime (l,k) the tabulated forecasts of the constrained expression equal its expectation along the path that starts in that regime and moves one period closer to the end of the spell each period, at the start, around the start of the spell and around its end; every entry that the regime search consults is initialised. "
     "Expected trajectories reported for a state use the regime asked for (or found) and the current parametrisation, also after the model was recompiled with other parameters or other maximal durations.",
     ["inputs", "histories", "configurations"], "all systems, all regimes and table sizes; all sequences of recompilations and trajectory requests",
     "Tests never call the trajectory functions and check no table entry.",
     [E, "pydsge/tools.py"], [("forecast tables", "engine.preprocess_jittable"), ("trajectory tables", "engine.preprocess_tmats_jit"), ("trajectory of a state", "tools.traj"), ("distance maps", "tools.k_map"), ("invalidation", "engine.preprocess")],
     [("precalc_tmat", "cached trajectory tables", "engine.preprocess_tmats")], ["DSGE.traj", "DSGE.k_map"])
prop("C04", "One transition step applies the rule of the right regime to the right blocks",
     "For every state, shock vector and regime option, one transition returns controls and states as the decision rule plus constant of the selected regime applied to last period's states stacked with this period's shocks (zeros if none are given), and reports that regime and its flag. "
     "The regime is (0,0) if the linear solution is requested, the requested one with flag 0 if one is imposed, and otherwise the one found by the search; requesting observables returns exactly the observation equation applied to the same controls and states, and neither the inputs nor the model are modified.",
     ["inputs", "configurations"], "all states (full or reduced), shocks, imposed regimes and output options, all dimensions",
     "Tests use one option combination of one model.",
     [E, "pydsge/tools.py"], [("transition", "engine.t_func_jit"), ("option handling", "tools.t_func")], (), ["DSGE.t_func"])
prop("C05", "Impulse responses follow the shock schedule and the regime countdown",
     "For every schedule of shocks, horizon, initial state and regime option, impulse responses are the repeated transition from the given initial state (zero by default) in which each listed shock of the given size hits exactly in its period and all other innovations are zero. "
     "The imposed regime counts down one period at a time (first the waiting time, then the spell), an imposed regime beyond the tabulated range is refused, the reported durations and error flag are those of the transitions, and evaluating several parameter vectors gives the responses of each one separately without changing the model.",
     ["inputs", "histories"], "all shock lists, horizons, initial states, imposed durations and parameter lists",
     "Tests compute one response of one model.",
     ["pydsge/tools.py"], [("responses", "tools.irfs")], (), ["DSGE.irfs"])
prop("C06", "Simulation reproduces the transition recursion for every sample",
     "For every list of parameter vectors, innovations and initial states, the simulated path of each sample starts at its initial state and each later entry is the transition of the preceding one under that sample's parameters and that period's innovation; the reported durations and error flags belong to these transitions. "
     "Where a mask is given, exactly the entries that are not missing in the mask are replaced by the chosen operation of mask and innovation, and the input arrays and the model are left unchanged.",
     ["inputs", "histories"], "all samples, horizons, masks, operations and initial states",
     "The stable tests do not compare a simulation with its recursion; masks are never exercised.",
     ["pydsge/tools.py"], [("simulation", "tools.simulate"), ("default mask", "tools.mask")], (), ["DSGE.simulate", "DSGE.mask"])
prop("C07", "The compressed system is equivalent to the declared linear model",
     "For every linear model (in deviations from its steady state, at least one shock) with a unique stable solution and one occasionally binding constraint, the path produced by the compiled system (linear, and under every imposed regime) satisfies every declared equation, the constraint equation while slack and the bound while binding. "
     "This is independent of the ordering of variables and equations, of which variables appear with leads, lags or both, of lags and shocks inside the constraint equation, and of whether the model is given as text or as matrices.",
     ["programs", "inputs", "configurations"], "all linear models with one constraint, all parametrisations with a unique stable solution, all regimes",
     "Tests cover two example files and only check that some numbers come out.",
     ["pydsge/gensys.py"], [("dimensionality reduction", "gensys.gen_sys"), ("matrices from text", "gensys.gen_sys_from_yaml"), ("matrices from dict", "gensys.gen_sys_from_dict")],
     (), ["DSGE.t_func", "DSGE.irfs", "gen_sys_from_dict"])
prop("C08", "Parsing yields exactly the coefficients of the written model",
     "For every model file, the compiled coefficient matrices equal the partial derivatives of the written equations, constraint and observables with respect to each variable at its date and each shock, evaluated at the given parameters, including parameters defined as functions of others (in any order); constants of observables are kept. The matrices of shocks (PSI) and of the constraint (bb, bb_PSI) carry the opposite sign. "
     "Leads and lags of more than one period are represented by auxiliary variables that carry exactly the variable at the requested date, as do lags in observables; leads in the constraint are refused. A file that was read before is parsed again if its text, or that of its functions file, has changed.",
     ["programs", "inputs"], "all well-formed model files and parameter values, leads and lags of any length",
     "The parsing test compares one file with stored numbers.",
     ["pydsge/parser.py", "pydsge/symbols.py"], [("parsing", "parser.DSGE.parse"), ("coefficients", "parser.DSGE.get_matrices"), ("dates of symbols", "symbols")],
     (), ["DSGE.read", "model matrices"])
prop("C09", "Setting and reading parameters is coherent",
     "After any sequence of setting a single parameter by name, a vector of the estimated ones, a full vector or a named set (which addresses all: the estimated ones as stored, the others as calibrated), every parameter that was not addressed keeps its value, the addressed ones read back exactly as set (by name, as vector, as dict), parameters defined as functions of others follow, and the compiled system is the one of exactly these values. "
     "Setting an unknown or dependent parameter raises and changes nothing, and altering a given vector returns an altered copy without touching the model or the input.",
     ["histories", "inputs"], "all sequences of set and get calls over all parameters of a model",
     "Tests set parameters once per model.",
     ["pydsge/mpile.py"], [("setting", "mpile.set_par"), ("reading", "mpile.get_par")], [("current parameters", "values the system was compiled with", "mpile.set_par")], ["DSGE.set_par", "DSGE.get_par"])
prop("C10", "The posterior density is prior plus tempered likelihood, and total",
     "For every parameter vector the log posterior equals log prior plus temperature times log likelihood of exactly these parameters (back-transformed first if a prior transform is used), it is minus infinity if the prior is, if the model cannot be solved or if the filter fails or returns no number, and it never raises. "
     "Evaluating it leaves the global random state as it found it, is reproducible for the same vector regardless of what was evaluated before, and does not alter the fixed parameters of other evaluations.",
     ["inputs", "histories"], "all parameter vectors, temperatures and evaluation orders",
     "The estimation test evaluates a short chain and looks at one number.",
     ["pydsge/estimation.py", "pydsge/filtering.py"], [("posterior", "estimation.prep_estim.lprob"), ("likelihood", "estimation.prep_estim.llike"), ("likelihood of the filter", "filtering.get_ll")], (), ["DSGE.lprob", "DSGE.llike"])
prop("C11", "Filters start from the stationary distribution of the current model",
     "Whenever a filter is run without a given initial covariance, the initial covariance solves the stationarity equation of the unconstrained law of motion under the current parameters and the shock covariance of these parameters; a given initial covariance is used as it is. "
     "The shock covariance in use is the square of the current standard deviations, for the states, the full vector and the reduced form alike, also after parameters were changed.",
     ["inputs", "histories", "configurations"], "all stable models, all filter types, all sequences of parameter changes and filter runs",
     "Tests never look at the initial covariance.",
     ["pydsge/filtering.py", "pydsge/mpile.py"], [("initial covariance", "filtering.run_filter"), ("full-state covariance", "filtering.get_p_init_lyapunov"), ("shock covariance", "filtering.create_filter"), ("update of the shock covariance", "mpile.set_par")],
     [("filter.Q", "covariance of innovations", "filtering.create_filter"), ("filter.P", "initial covariance", "filtering.run_filter")], ["DSGE.run_filter", "DSGE.filter.P"])
prop("C12", "Extracted innovations reproduce the path they were extracted from",
     "For every linear model and every pair of consecutive states that the linear transition can generate, the extracted innovation is the one that generated it, so that feeding extracted innovations back into the transition reproduces the states; the extraction with the linear filter returns, per parameter vector, the initial state and innovations whose linear transition path it stores.",
     ["inputs"], "all models, states and innovations",
     "Tests extract once and compare one number.",
     ["pydsge/filtering.py"], [("implied innovations", "filtering.get_eps_lin"), ("extraction", "filtering.extract")], (), ["DSGE.get_eps_lin", "DSGE.extract"])
prop("C13", "Historic decompositions add up to the path they decompose",
     "For every sample of parameters, initial states and innovations, the contributions of all shocks sum to the decomposed path in every period in which the constraint is slack or the contributions to the constraint do not cancel out, and the reported mean path is the transition recursion from the given initial state. "
     "Sorting a decomposition splits it into cumulated positive and cumulated negative contributions whose total is the sum of all contributions.",
     ["inputs", "histories"], "all samples, horizons, numbers of shocks, states and regimes",
     "No test computes a decomposition.",
     ["pydsge/stats.py"], [("decomposition", "stats.nhd"), ("sorting", "stats.sort_nhd")], (), ["DSGE.nhd", "pydsge.stats.sort_nhd"])
prop("C14", "Variance shares are nonnegative, sum to one and belong to their shocks",
     "For every set of states, innovations and parameters, the forecast error variance shares are between zero and one, sum to one over the shocks for every variable that responds at all, and the share of a shock is the sum over all drawn samples of its squared response (response to that sample's innovation minus the response to no innovation, from that sample's state under that sample's parameters, at the given horizon) relative to all shocks.",
     ["inputs", "configurations"], "all samples, horizons and numbers of shocks",
     "No test computes a variance decomposition.",
     ["pydsge/stats.py"], [("decomposition", "stats.gfevd")], (), ["DSGE.gfevd"])
prop("C15", "Stored results are found again under the name they were stored with",
     "For every file name (default, relative, absolute, with or without extension) and suffix, loading results with the same arguments they were saved with reads the file that saving wrote and returns an equal dictionary, and results stored under names that differ by more than the extension, or under different suffixes, do not overwrite each other.",
     ["inputs", "histories"], "all names, suffixes and folders; all sequences of save and load",
     "Tests load one stored example file.",
     ["pydsge/clsmethods.py"], [("saving", "clsmethods.save_rdict"), ("loading", "clsmethods.load_rdict")], (), ["DSGE.save_rdict", "DSGE.load_rdict"])
prop("C16", "Caching of parsed models is transparent",
     "For every sequence of reading model files, changing them on disk and changing the returned models, reading a file yields a model that behaves as one freshly parsed from the current content of the file and of its functions file, bound to the folder it was read from. "
     "Changing one returned model never affects another one or later reads.",
     ["histories", "programs"], "all sequences of reads, edits of files and mutations of models",
     "Tests read each file once per process.",
     ["pydsge/parser.py"], [("lookup", "parser.crawl_cached_models"), ("reading", "parser.DSGE.read")], [("cached_models", "models parsed in this process", "parser.crawl_cached_models")], ["DSGE.read"])
prop("C17", "Loaded data are exactly the requested observables and periods",
     "For every table of data, loading returns the columns of the model's observables in the model's order and the rows from start to end inclusive with unchanged values, keeps the same table for later use, and refuses anything that is not a table, lacks an observable or contains missing values in the selected range; the caller's table is not modified.",
     ["inputs"], "all tables, column orders, indices and ranges",
     "Tests load one file over one range.",
     ["pydsge/clsmethods.py"], [("loading", "clsmethods.load_data")], (), ["DSGE.load_data"])
prop("C18", "Observables and their bands follow the observation equation",
     "For every series of states the implied observables are the observation matrices applied to controls and states plus the constants of the current parameters, row by row and also for stacks of series; with several parameter vectors each series uses the equation of its own vector. "
     "With covariances given, the bands are the point estimate plus and minus 1.96 standard deviations of each variable and of each observable, with the point estimate in between.",
     ["inputs", "configurations"], "all state series of at least two dimensions, covariances and parameter lists",
     "Tests never evaluate bands or several parameter vectors.",
     ["pydsge/tools.py"], [("observables", "tools.o_func")], (), ["DSGE.obs", "DSGE.o_func"])
prop("C19", "Parallel preprocessing equals sequential preprocessing",
     "For every system and every schedule of the parallel iterations, the tables produced by parallel preprocessing are those produced sequentially: no iteration reads or writes an entry that another iteration of the same parallel loop writes, and no iteration depends on a value left behind by another.",
     ["schedules", "inputs"], "all systems, table sizes and interleavings of the parallel iterations",
     "Tests run on one schedule and compare no tables.",
     [E], [("parallel loops", "engine.preprocess_jittable"), ("parallel loops of the trajectories", "engine.preprocess_tmats_jit"), ("choice of the variant", "engine.preprocess")], (), ["DSGE.set_par(parallel=True)"])
prop("C20", "Chain statistics use exactly the requested part of the chain",
     "For every chain shape and tuning length, posterior means, samples, modes and exported draws are computed from the last periods of all walkers as requested: the mean is the average of the retained draws, a sample of given size consists of that many distinct draws from the most recent part, and the stored mode is the retained draw with the highest posterior, expressed in model parameters; summary and marginal data density are those of the retained draws and their probabilities. "
     "At default the last fifth of the steps is retained; a tempered run does not replace the stored mode. A request for more draws than the chain has is refused.",
     ["inputs", "histories", "configurations"], "all chain shapes, tuning lengths and sample sizes",
     "The estimation test checks one short chain.",
     ["pydsge/clsmethods.py", "pydsge/stats.py", "pydsge/mcmc.py", "pydsge/mpile.py"],
     [("sample", "clsmethods.get_sample"), ("mean", "stats.post_mean"), ("draws", "mpile.posterior_sampler"), ("mode", "mcmc.mcmc"), ("export", "clsmethods.posterior2csv")], (), ["DSGE.get_sample", "DSGE.get_par('posterior_mean')", "DSGE.mcmc"])
prop("C21", "Names resolve to the positions they label",
     "For every list of variable, observable or shock names, the returned positions are those at which the labelled series are stored, in the order of the request; unknown names are refused, or skipped where that is asked for, and a shock turned into a state vector places its size at that shock's position and zero elsewhere.",
     ["inputs"], "all models, name lists and shocks",
     "Tests never call these functions with more than one name.",
     ["pydsge/clsmethods.py", "pydsge/tools.py"], [("variables", "clsmethods.vix"), ("observables", "clsmethods.oix"), ("shock to state", "tools.shock2state")], (), ["DSGE.vix", "DSGE.oix", "DSGE.shock2state"])

TECH = "contract-based deductive verification of the real source (pyvc: symbolic execution of CPython functions against pre/postconditions and inferred loop invariants, z3 back end), failing inputs replayed on the real code"
NOTE = {}
NOTE_DEFAULT = ("all obligations generated from /repo's current source are discharged for all inputs and loop counts; trusts the symbolic "
                "semantics of numpy and python builtins in pyvc, real arithmetic for floats, and the contracts assumed for library functions (listed in the evidence)")
LEVEL = {}
NA = {}
try:
    from meta_notes import NOTE, LEVEL, NA
except ImportError:
    pass


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "contracts", i.lower() + ".py")) and i not in NA:
            checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i,
                               thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                               technique=TECH, level=LEVEL.get(i, "proof"), level_note=NOTE.get(i, NOTE_DEFAULT)))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo. Engine: pyvc/. Contracts: contracts/. Runtime contracts and oracles: harness/. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
