"""The property catalogue: the single source of properties.jsonl and MANIFEST.json.

``python -m pbt.catalog`` rewrites both files.
"""
import json
import os

SRC = "src/openscm_twolayermodel/"
BASE = SRC + "base.py"
TL = SRC + "two_layer_model.py"
IR = SRC + "impulse_response_model.py"
UT = SRC + "utils.py"
CO = SRC + "constants.py"
VE = SRC + "_version.py"


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, observe=observe, note=note, state=state,
    )


PROPS = [
    prop(
        "C01",
        "Two-layer runs follow the documented two-layer equations",
        "Starting from zero, every step of a two-layer run satisfies the forward-difference form of "
        "C dTu/dt = F - (lambda0 - a Tu) Tu - efficacy*eta*(Tu - Tl) and C_D dTl/dt = eta*(Tu - Tl), with "
        "C and C_D the layers' depths times 1000 kg/m^3 times 4181 J/K/kg. The reported heat uptake is the rate of "
        "change of the two layers' heat content over the preceding step. "
        "This holds to floating-point accuracy for every accepted parameter set, time step and forcing series, "
        "stable or not (until an unstable run has grown beyond 1e100).",
        ["inputs", "configurations"],
        "all accepted values of du, dl, lambda0, a, efficacy, eta (in any convertible units), every time step and "
        "every finite forcing series of length >= 1, run directly or through run_scenarios",
        "Unit tests evaluate the private step functions at one set of numbers (mostly defaults with a few magic "
        "values) and the regression data use default-like parameters; they say nothing about other parameter "
        "combinations, lengths, magnitudes or the state the steps are chained through.",
        [TL, BASE, CO],
        [("forward step of the upper layer, lower layer and heat uptake", TL)],
        ["temperatures and heat uptake after run()", "run_scenarios output"],
        "Generated search: every generated run is checked step by step (residual form) against an independent "
        "reference implementation of the equations with its own unit table. Trusts numpy float64 arithmetic; tolerance "
        "1e-12 of the sum of the absolute terms of the step.",
        [("layer temperatures", "start-of-step temperature anomalies", TL)],
    ),
    prop(
        "C02",
        "Impulse-response runs follow the documented two-timescale equations",
        "Starting from zero, each box of an impulse-response run obeys T_k' = T_k e^(-dt/d_k) + q_k F (1 - e^(-dt/d_k)), "
        "the surface temperature is the sum of the boxes. The heat uptake is "
        "F - lambda0 T - eta (efficacy-1) ((1-phi1) T1 + (1-phi2) T2) at the preceding step, with lambda0, eta and phi "
        "those of the equivalent two-layer model (so F - lambda0 T when the efficacy is one). "
        "This holds for every accepted parameter set, efficacy, time step and forcing series.",
        ["inputs", "configurations"],
        "all positive q1, q2, 0 < d1 < d2, positive efficacies (equal to, close to and far from one), in any convertible "
        "units, every time step, every finite forcing series",
        "Unit tests evaluate one step at one set of numbers; integration tests cover default-like parameters and an "
        "efficacy of one or a single other value.",
        [IR, BASE],
        [("box step and heat-uptake diagnostic", IR)],
        ["box temperatures and heat uptake after run()", "run_scenarios output"],
        "Generated search against an independent reference; the heat-uptake term is evaluated in 50-digit arithmetic and "
        "the tolerance scales with the documented conversion's condition number.",
    ),
    prop(
        "C03",
        "The energy budget closes in every run",
        "In every two-layer run, the heat uptake accumulated over time equals the heat content of the two layers "
        "(C Tu + C_D Tl) at every time step. At every step the reported heat uptake also equals the top-of-atmosphere "
        "balance F - (lambda0 - a Tu) Tu - (efficacy-1)*eta*(Tu - Tl) of the preceding step, so with efficacy 1 it is forcing minus "
        "feedback in both models. Heat lost by the upper layer through exchange is gained, divided by the efficacy, by the lower one.",
        ["inputs", "configurations", "histories"],
        "all accepted parameters, time steps and forcing histories of both models",
        "No test sums the heat uptake over a run or relates it to the temperatures; the step functions are tested in isolation.",
        [TL, IR],
        [("heat uptake diagnostic", TL), ("heat uptake diagnostic", IR)],
        ["Heat Uptake and temperature series of run() and run_scenarios"],
        "Generated search against the invariant itself (no model of the step): cumulative sums in extended precision, "
        "tolerances relative to the magnitude of the summed terms.",
    ),
    prop(
        "C04",
        "Outputs are start-of-step values that depend only on earlier drivers",
        "The first temperature and heat uptake values of every run are exactly zero and outputs have exactly one finite-length entry per "
        "driver value. Changing the drivers from index i on leaves every output up to and including index i unchanged, "
        "so the last driver value never has any effect, and truncating a driver series truncates the outputs.",
        ["inputs", "histories"],
        "pairs of forcing series sharing a prefix of any length, any lengths, any parameters, both models, both entry points",
        "Tests check one forcing series at a time and never compare runs whose drivers diverge at a generated index.",
        [TL, IR, BASE],
        [("step indexing: state[i] from state[i-1], drivers[i-1]", TL), ("same", IR)],
        ["outputs of run() and run_scenarios"],
        "Generated metamorphic search (bit-identical prefixes of paired runs).",
    ),
    prop(
        "C05",
        "Responses superpose, scale, mirror and shift in time",
        "With a = 0, the response of either model to a linear combination of forcings is the same linear combination of "
        "the responses; the impulse-response model always has this property. With a != 0 flipping the sign of both the "
        "forcing and a flips the sign of every output. Preceding any forcing with k zeros delays every output by exactly k steps.",
        ["inputs"],
        "all pairs of forcing series, all scale factors, all delays, all accepted parameters and time steps",
        "Tests run isolated forcing series; no test relates runs of combined, scaled, mirrored or delayed forcings.",
        [TL, IR],
        [("linear step equations, time-invariant coefficients", TL), ("same", IR)],
        ["outputs of run()"],
        "Generated metamorphic search; tolerance scales with the transient growth of the run so that unstable time steps are covered.",
    ),
    prop(
        "C06",
        "Results do not depend on the units inputs are given in",
        "Giving any parameter, time step, driver series, or lambda and f2x value in different but equivalent units changes no "
        "result: run outputs, derived heat capacities, converted parameter sets and climate sensitivities describe the same "
        "physical quantities, and run outputs are always reported in the same units.",
        ["inputs", "configurations"],
        "all convertible unit choices for every quantity, independently of each other, both models, both conversions",
        "Tests use one or two hand-picked unit variants (mostly the default unit); combinations of units across parameters are unexplored.",
        [BASE, TL, IR, UT],
        [("conversion to model units in the property setters", TL), ("conversion of drivers", BASE), ("unit-carrying conversions", BASE)],
        ["run() and run_scenarios outputs", "get_impulse_response_parameters", "get_two_layer_parameters", "convert_lambda_to_ecs"],
        "Generated metamorphic search: the same physical case expressed in default and in random units (factor table independent of pint).",
    ),
    prop(
        "C07",
        "Bad inputs are refused and leave the model untouched",
        "A parameter or time step that is not a quantity is refused with TypeError and one of the wrong dimension with UnitError, "
        "in constructors and attribute assignment alike; drivers that are not a one-dimensional forcing quantity are refused, and so is resetting (preparing a run) without "
        "drivers or with NaN drivers. A refused assignment leaves every parameter and the model's subsequent results as they were. "
        "Every accepted value is read back exactly as given, and derived quantities cannot be assigned.",
        ["inputs", "fault_sequences", "configurations"],
        "every parameter of both models, every wrong type or dimension, any valid model state, any order of valid and invalid assignments",
        "Tests try one wrong unit and one wrong type per attribute on a fresh default model and never look at the model afterwards.",
        [BASE, TL, IR, SRC + "errors.py"],
        [("type and dimension check before assignment", BASE), ("state check in reset", TL)],
        ["exceptions", "attribute values", "run results after the refusal"],
        "Generated search over sequences of valid and faulty assignments against a dictionary model of the parameters and a reference run.",
    ),
    prop(
        "C08",
        "A re-used model gives the same results as a fresh one",
        "After any history of parameter changes, driver changes, partial or complete runs, refused operations, scenario batches and conversions, "
        "setting drivers, resetting and running gives bit-identical results to a newly constructed model with the same parameters. "
        "run() is the same as stepping once per driver value, repeated runs are identical, and no operation on one model instance affects another.",
        ["histories", "schedules"],
        "all operation sequences over several instances of both models, interleaved",
        "Tests use a fresh model per test and at most one reset; no test generates operation histories.",
        [BASE, TL, IR],
        [("reset rebuilds all run state", TL), ("reset rebuilds all run state", IR), ("setters refresh derived magnitudes", TL)],
        ["outputs after set_drivers, reset, run"],
        "Stateful generated search: operation lists over up to three live instances compared with fresh instances after every run.",
        [("run state", "time step index and output arrays", TL)],
    ),
    prop(
        "C09",
        "A batch of scenarios equals running each scenario on its own",
        "Each scenario in a run_scenarios call gets exactly the results it would get if it were the only scenario, regardless of how many others there are, "
        "their order, their units, their time ranges or their values. Every driver series in the input appears exactly once, unchanged, in the output together with "
        "one series per output variable.",
        ["inputs", "configurations", "schedules"],
        "all sets of 1..N scenarios with mixed units, different start and end years, any order, any metadata, both models",
        "Tests run the RCMIP file or two fixed scenarios and compare with stored numbers; batch composition is never varied.",
        [BASE],
        [("per-scenario set_drivers, reset, run loop", BASE)],
        ["run_scenarios output"],
        "Generated differential search: batch against singletons (bit-identical), order permutations, and an independent reference trajectory per scenario.",
    ),
    prop(
        "C10",
        "Only the requested World driver is run",
        "run_scenarios uses exactly the series whose variable is the requested driver variable and whose region is World, whatever other variables "
        "and regions are present and in whatever order. If there is none it raises ValueError instead of producing results.",
        ["inputs", "configurations"],
        "all mixtures of variables (including sub-categories and names containing the driver's name) and regions, all requested driver variables",
        "One test removes the World region from one fixed input; mixtures and look-alike names are not generated.",
        [BASE],
        [("filter on variable and region", BASE)],
        ["run_scenarios output or ValueError"],
        "Generated differential search: output with decoys equals output without decoys, plus error oracle.",
    ),
    prop(
        "C11",
        "Results carry complete, correct metadata",
        "Every output series keeps all metadata of its scenario and adds the model's name, every parameter's value labelled with the unit it was given in, and "
        "a run index identifying its scenario. Temperatures are in delta_degC and heat uptake in W/m^2, under the documented variable names; driver rows keep their unit. Outputs have exactly the scenario's time points: values exist precisely where its driver has values.",
        ["inputs", "configurations"],
        "all metadata columns and values, all parameter values and units, all batches and time axes, both models",
        "Tests compare a few metadata columns for one fixed input.",
        [BASE, TL, IR],
        [("metadata columns added to the driver and propagated to outputs", BASE), ("output series construction", TL), ("output series construction", IR)],
        ["metadata and time axis of run_scenarios output"],
        "Generated search against an independently computed table of expected metadata rows.",
    ),
    prop(
        "C12",
        "The time step is inferred from the data or the run is refused",
        "run_scenarios integrates with a one-year step if and only if consecutive time points are one year apart and a one-month step when they are one month apart. "
        "Anything else - other spacings, irregular axes, missing values inside a series - raises NotImplementedError and never yields results. The step used is left readable as delta_t.",
        ["inputs", "configurations"],
        "all time axes: regular and irregular, yearly, monthly, daily, multi-year, month-end dates, leap years, gaps in the axis or in a series, years 1 to 9999",
        "Tests cover one yearly, one monthly and one irregular axis.",
        [BASE],
        [("time step selection", BASE), ("interior missing value check", BASE)],
        ["delta_t after run_scenarios", "outputs", "NotImplementedError"],
        "Generated search over calendar axes with an independent calendar oracle and reference trajectories.",
    ),
    prop(
        "C13",
        "Running never changes the caller's data and ignores input packaging",
        "run_scenarios, set_drivers, run and the conversions leave the objects passed to them (scenario data, metadata, driver arrays, quantities) and the model's parameters (other than the time step, which is adjusted) unmodified. "
        "The results are the same whether scenarios are given as ScmRun, DataFrame, time-series frame or CSV path, with rows or columns in any order, and with or without a progress bar.",
        ["inputs", "configurations"],
        "all inputs in all supported containers, both models, both progress settings",
        "Tests check one input container and do not compare inputs before and after.",
        [BASE, TL, IR],
        [("copy before use", BASE)],
        ["caller's objects before and after", "run_scenarios output"],
        "Generated search comparing deep snapshots before and after, and outputs across packagings.",
    ),
    prop(
        "C14",
        "Model conversions are exact inverses of each other",
        "For every physically valid two-layer model without state dependence, converting to impulse-response parameters and back returns the original depths, "
        "feedback, exchange coefficient and efficacy, and likewise starting from an impulse-response model. The converted parameters satisfy d1 < d2, q1 + q2 = 1/lambda0, match the closed-form solution, and construct the other model directly.",
        ["inputs", "configurations"],
        "all positive du, dl, lambda0, eta, efficacy and all positive q1, q2, d1 < d2, in any units",
        "Tests check the round trip at a handful of parameter sets.",
        [BASE, TL, IR],
        [("closed-form parameter conversion", BASE), ("inverse conversion", IR)],
        ["get_impulse_response_parameters", "get_two_layer_parameters"],
        "Generated round-trip search plus a 60-digit closed-form oracle; tolerance scales with the formula's condition number.",
    ),
    prop(
        "C15",
        "Equivalent models agree",
        "The impulse-response model converted from a two-layer model reproduces the exact solution of that two-layer model's differential equations, in surface temperature and in heat uptake, for any efficacy. "
        "The two-layer model's numerical solution approaches it as the time step shrinks, with an error proportional to the time step.",
        ["inputs", "configurations"],
        "all positive two-layer parameters with a = 0, all forcing series held constant over a step, all time steps",
        "Integration tests compare the two models at a few parameter sets with loose tolerances.",
        [BASE, TL, IR],
        [("parameter equivalence", BASE), ("exponential step", IR)],
        ["run() outputs of both models"],
        "Generated differential search: impulse-response against a high-precision matrix exponential; forward Euler against it under step refinement.",
    ),
    prop(
        "C16",
        "Configurations without an equivalent are refused",
        "Asking for impulse-response parameters of a model with any non-zero state dependence a, however small and in whatever unit, raises ValueError; a zero a in any unit is accepted. "
        "Constructing an impulse-response model whose short timescale is not strictly shorter than its long one, compared as physical durations, raises ValueError; otherwise construction succeeds.",
        ["inputs", "configurations"],
        "all values and units of a, all pairs of timescales in all pairs of units, before and after parameter changes",
        "Tests try one non-zero a and one or two timescale pairs in years.",
        [TL, IR],
        [("guard in the conversion", TL), ("guard in the constructor", IR)],
        ["ValueError or success"],
        "Generated search with exact rational comparison as oracle.",
    ),
    prop(
        "C17",
        "Sustained forcing leads to the equilibrium given by the sensitivity",
        "Under constant forcing F and positive feedback, both layers of the two-layer model converge to F/lambda0 and heat uptake to zero; the impulse-response model converges to (q1+q2) F. "
        "With state dependence the limit is the stable root of F = (lambda0 - a T) T, and for F equal to f2x the limit equals the climate sensitivity reported by convert_lambda_to_ecs for -lambda0.",
        ["inputs", "configurations"],
        "all positive parameters, stable time steps, all constant forcings",
        "Tests never integrate to equilibrium except in one notebook plot.",
        [TL, IR, UT],
        [("feedback term", TL), ("box gain", IR), ("sensitivity conversion", UT)],
        ["final outputs of long runs", "convert_lambda_to_ecs"],
        "Generated search over long runs whose step is chosen to reach equilibrium; analytic limit as oracle.",
    ),
    prop(
        "C18",
        "Impulse-response results do not depend on how a period is subdivided",
        "For forcing that is constant over each interval, running the impulse-response model with that interval as time step or with any number of equal sub-steps gives the same temperatures at the shared time points and the same heat uptake for the step starting there. "
        "This holds for all parameters and for time steps from much shorter to much longer than both timescales.",
        ["inputs", "configurations"],
        "all parameters, all piecewise-constant forcings, all subdivision factors",
        "Tests run each case with one time step only.",
        [IR],
        [("exact exponential step", IR)],
        ["run() outputs"],
        "Generated metamorphic search with a rounding-level tolerance.",
    ),
    prop(
        "C19",
        "Limits reduce to the one-layer model",
        "With no heat exchange (eta = 0) the lower layer never warms, the lower depth and efficacy are irrelevant, and the upper layer follows the one-layer energy balance. "
        "As the lower layer gets ever deeper it stops warming and the upper layer follows a one-layer model with feedback lambda0 + efficacy*eta. With zero forcing nothing moves at all, in either model.",
        ["inputs", "configurations"],
        "all other parameters, all forcings and time steps",
        "One notebook illustrates the limit at one parameter set.",
        [TL],
        [("exchange term", TL)],
        ["run() outputs"],
        "Generated search against an independent one-layer recursion and metamorphic irrelevance relations.",
    ),
    prop(
        "C20",
        "More forcing never means less warming",
        "For stable time steps and positive feedback without state dependence, non-negative forcing gives non-negative temperatures and pointwise larger forcing gives pointwise larger-or-equal temperatures in both layers or boxes. "
        "No temperature ever exceeds the equilibrium response to the largest forcing seen so far.",
        ["inputs", "configurations"],
        "all ordered pairs of forcing series, all parameters with stable steps, both models",
        "Tests never compare runs under ordered forcings.",
        [TL, IR],
        [("monotone step under the stability condition", TL), ("convex-combination step", IR)],
        ["run() outputs"],
        "Generated search over ordered forcing pairs with exact inequalities up to rounding.",
    ),
    prop(
        "C21",
        "Published RCMIP results are reproduced",
        "For the RCMIP Phase 1 scenarios shipped with the repository, the two-layer model (default, efficacy and state-dependent variants) and the impulse-response model reproduce the archived results. "
        "This holds for every subset and order of scenarios, for every leading portion of the time series, and whatever equivalent units the forcing and parameters are expressed in.",
        ["inputs", "configurations"],
        "all subsets, orders, truncations and unit choices of the archived scenarios, all four archived configurations",
        "The regression tests need a data file that is not available here, so they do not run at all; when they run they use the complete file once.",
        [BASE, TL, IR],
        [("complete scenario run", BASE)],
        ["run_scenarios output"],
        "Generated search over slices of the archived data, compared with the archived outputs (relative tolerance 1e-11).",
    ),
    prop(
        "C22",
        "Custom model variants work with the scenario runner",
        "A model variant derived from the provided base class gets, for every scenario and in order, its drivers set once in the data's own unit, then one reset, then one run; its outputs, name and declared parameters appear in the result. "
        "A variant that leaves out a required operation cannot be instantiated, and an error raised by a variant while running reaches the caller.",
        ["programs", "inputs", "configurations"],
        "variants with any subset of required operations, any declared parameters and output series, any scenarios, failure at any scenario",
        "Tests only check that the base class's methods delegate once.",
        [BASE],
        [("abstract base classes and scenario loop", BASE)],
        ["calls recorded by the variant", "run_scenarios output"],
        "Generated model-based search with recording variants.",
    ),
    prop(
        "C23",
        "The reported version identifies the source it was built from",
        "The reported version is exactly the release tag (without its v prefix) when the source tree is a clean checkout, or an archive, of that tag. In any other checkout it is that "
        "of the nearest release tag (\"0+untagged\" if there is none) followed by the number of commits since, the commit id (no shorter than git abbreviates it) and a dirty marker exactly when tracked files were changed. "
        "An archive of a commit that is tagged as a pre-release and as the release reports the release; a commit date, where one is given, is that commit's. In an unpacked release directory it is the "
        "version in the directory's name, and otherwise it says that the version is unknown.",
        ["histories", "configurations"],
        "all git histories of commits, tags and working tree changes, archives of any commit, release directories, abbreviation lengths and time zones",
        "No test covers versions; they depend on the repository's history.",
        [VE, ".gitattributes"],
        [("version lookup from keywords, git and directory name", VE)],
        ["get_versions()"],
        "Stateful generated search over scratch git repositories (own temporary directories) against a small model of the history.",
    ),
    prop(
        "C24",
        "Climate sensitivity conversion is exact",
        "The sensitivity computed from a feedback parameter is minus the doubling forcing divided by it, carrying units that convert to temperature, for every pair of quantities in any units and for array-valued quantities element by element. "
        "It scales with the forcing, inverts with the feedback, uses 3.74 W/m^2 by default, never modifies its arguments, and refuses anything that is not a quantity with TypeError.",
        ["inputs"],
        "all scalar and array lambda and f2x quantities, all units, all non-quantities",
        "Tests check two or three numbers.",
        [UT],
        [("conversion formula and type checks", UT)],
        ["convert_lambda_to_ecs"],
        "Generated search against exact rational arithmetic and scaling laws.",
    ),
    prop(
        "C25",
        "Heat capacities always follow the layer depths",
        "At all times the reported upper and lower heat capacities equal the current depth of that layer times 1000 kg/m^3 times 4181 J/K/kg, whichever unit the depth was given in and however often it was changed. "
        "Runs use those same heat capacities: multiplying both depths by a factor has the same effect on a run as dividing the time step by it.",
        ["histories", "inputs", "configurations"],
        "all sequences of depth assignments in all units, accepted and refused, all runs",
        "Tests check the value right after construction at one or two depths.",
        [TL, CO],
        [("heat capacity properties and cached magnitudes", TL)],
        ["heat_capacity_upper, heat_capacity_lower", "run() outputs"],
        "Generated search over assignment histories and scaling relations.",
    ),
    prop(
        "C26",
        "Parameters are the given or default values, whatever ran before",
        "Reading a parameter or time step of a model gives exactly the value last assigned, in the unit it was given in; one that was never given has its published default: two-layer du 50 m, dl 1200 m, "
        "lambda0 3.74/3 W/m^2/K, a 0, efficacy 1, eta 0.8 W/m^2/K and a one-year step; impulse-response q1 0.3 and q2 0.4 K m^2/W, d1 9 and d2 400 years, efficacy 1 and a step of a twelfth of a year. "
        "Constructors accept the parameters by name or by position in this order, runs use exactly these values, and nothing done with other models before changes what a new model gets.",
        ["inputs", "configurations", "histories"],
        "all subsets of parameters given, all values and units, by position, name or assignment, after any operations on other models",
        "The only tests of the defaults need a data file that is missing, and every other test gives some fixed parameters.",
        [TL, IR, BASE],
        [("constructor defaults", TL), ("constructor defaults", IR), ("parameter setters", TL)],
        ["parameters read from the model", "run() and run_scenarios outputs"],
        "Generated search against a table of the published defaults and the reference equations.",
    ),
    prop(
        "C27",
        "An interrupted call leaves nothing behind",
        "If any call (constructing, assigning, setting drivers, resetting, stepping, running, running scenarios, converting) is interrupted by an exception at any point, the exception reaches the caller, no parameter other than "
        "the one being assigned (the time step, for a scenario run) has changed, and the caller's scenario data are unchanged. After assigning that one again, setting drivers, resetting and running gives the results of a new model.",
        ["crash_points", "histories", "inputs"],
        "every point of interruption in every call, any exception including KeyboardInterrupt, any models and data",
        "No test interrupts anything.",
        [BASE, TL, IR],
        [("scenario loop", BASE), ("reset and run", TL), ("reset and run", IR)],
        ["the exception", "parameters of the model", "the caller's data", "runs afterwards"],
        "Generated fault injection at source lines of the package; differential against a new model and the reference equations.",
    ),
    prop(
        "C28",
        "Model instances are independent of each other",
        "A deep copy of a model, taken at any time (also in the middle of a run), continues exactly like the original, and from then on nothing done to one of them affects the other. "
        "Models used at the same time in different threads give the results they give on their own, however the threads are interleaved.",
        ["schedules", "histories"],
        "all points of copying, all orders of steps on the copies, all interleavings of runs, scenario batches, assignments and conversions of two or three models at source-line granularity",
        "Tests use one model at a time in one thread.",
        [BASE, TL, IR],
        [("all state is held per instance", TL), ("all state is held per instance", IR), ("scenario loop", BASE)],
        ["run(), run_scenarios and conversion results"],
        "Generated schedules with threads taking turns deterministically at source lines of the package; differential against the same work done alone. Pickling and shallow copies are not covered.",
    ),
    prop(
        "C29",
        "Results can be run again and reproduced from their metadata",
        "Running the output of run_scenarios again, with the same model or one with equal parameters, gives the same series with the same metadata; another model runs such an output exactly as it runs the original scenarios. "
        "A model built from nothing but the parameter columns of a result reproduces its series bit by bit.",
        ["inputs", "configurations"],
        "all scenarios, parameters and units, results as they are, copied, as a frame, or reduced to the drivers, both models",
        "Tests never use a result as an input.",
        [BASE, TL, IR],
        [("parameter metadata and output series", BASE)],
        ["run_scenarios output"],
        "Generated search with round-trip relations.",
    ),
    prop(
        "C30",
        "Results do not depend on how numbers and times are stored",
        "Only the values count: parameters given as int, float, numpy or zero-dimensional array numbers, drivers given as lists, tuples or arrays of any signed or unsigned integer, boolean, "
        "big-endian or extended type and any memory layout, and scenario data with integer, object, text or nullable columns, in wide or long form, with time points as datetimes, numpy or cftime dates, "
        "year numbers or text, give the results of the same values stored as plain floats and datetimes. The same holds for converted parameters, heat capacities and climate sensitivities.",
        ["inputs"],
        "all values, all number types (half and single precision direct drivers and parameters excepted, which are run in their own precision), all array layouts, all data layouts and time types",
        "Tests pass Python floats and float64 arrays, and scenario data in one layout.",
        [BASE, TL, IR, UT],
        [("setters and set_drivers", BASE), ("output arrays are created from the drivers", TL), ("output arrays are created from the drivers", IR), ("sensitivity", UT)],
        ["run() outputs, run_scenarios output, conversion results"],
        "Generated differential testing of storage types.",
    ),
    prop(
        "C31",
        "Results are the same in every process",
        "The same calls give the same results (up to rounding), the same series, metadata, time points and their order in every Python process: whatever the hash seed, optimisation level (-O, -OO), "
        "locale, time zone, working directory, display options, state of the random number generators, and whatever was done in it before. Bad inputs are refused with the same exceptions in all of them.",
        ["configurations", "inputs"],
        "all scenario batches, runs, conversions and bad inputs, all interpreter surroundings",
        "Tests run in one process under one hash seed with assertions enabled.",
        [BASE, TL, IR, UT],
        [("metadata and order of the output", BASE), ("explicit checks of inputs", BASE), ("explicit checks of inputs", IR)],
        ["run_scenarios output", "run() outputs", "exceptions"],
        "Generated jobs computed in several processes with different surroundings and compared as text.",
    ),
    prop(
        "C32",
        "Calls leave the process they run in as it was",
        "No call, whether it succeeds, is refused, fails or is interrupted, changes anything around it: NumPy's error handling, print options and random state, Python's random state, warning filters, "
        "pandas options, the unit registry's settings and definitions, the package's constants, environment variables, working directory, locale, signal handlers, logging set-up, threads, open files "
        "and files on disk stay as they were. Nothing is printed to standard output, and a progress bar is shown (on standard error) exactly when asked for.",
        ["configurations", "crash points", "inputs"],
        "all public calls with good and bad inputs, all points of interruption, all settings before the call",
        "Tests look at results only.",
        [BASE, TL, IR, UT],
        [("scenario loop", BASE), ("public methods", TL), ("public methods", IR), ("sensitivity", UT)],
        ["process state before and after each call"],
        "Generated calls, failures and source-line interruptions; invariant over snapshots of the process and over the files it opens for writing.",
    ),
    prop(
        "C33",
        "Each step by hand adds one value, using the parameters of that moment",
        "After a reset all outputs are NaN. Each step() then adds exactly one value to every output - zero first, after that the documented equations applied to the values before it "
        "with the parameters and time step as they are at that moment - and leaves the values before it unchanged and those beyond it NaN. Assigning parameters, reading anything, converting "
        "and refused assignments between the steps change no output. A step past the last driver value is refused and changes nothing; resetting afterwards starts again from zero.",
        ["histories", "inputs"],
        "all models, driver series, numbers of steps, and assignments, reads, conversions and refused assignments between any two steps",
        "Unit tests call the private step once with fixed numbers and mocked helpers; nothing runs a model whose parameters change on the way.",
        [BASE, TL, IR],
        [("step", BASE), ("two-layer step", TL), ("impulse-response step", IR)],
        ["outputs after every single call"],
        "Stateful generation: step-by-step comparison with the reference equations under the parameters of the moment, plus frame conditions after every call.",
        [("outputs so far", "values up to the current step, NaN beyond", TL)],
    ),
    prop(
        "C34",
        "Repeating work does not take up ever more memory",
        "However often the same work is repeated - constructing models, assigning, refused calls, runs, steps, copies, scenario batches, conversions, on the same models or on new ones - "
        "the process does not hold on to more memory each time: models, drivers and results that are no longer used are released, whether the calls succeed or are refused.",
        ["histories"],
        "all cycles of up to four pieces of work, with models kept or built anew, repeated many times",
        "Tests do everything once; what is kept from call to call shows only after many.",
        [BASE, TL, IR, UT],
        [("scenario loop and its temporary results", BASE), ("state held per instance", TL), ("state held per instance", IR)],
        ["memory in use after a number of rounds (tracemalloc, after a garbage collection)"],
        "Generated cycles of work; growth over three consecutive batches of rounds.",
    ),
]

NOT_APPLICABLE = []

PY = "/opt/venv/bin/python -B -m pbt.run"


def as_property(p):
    mech = [{"name": n, "where": w} for n, w in p["mechanism"]]
    anchors = {"files": p["files"], "mechanism": mech, "observe_at": p["observe"], "hook_needed": None}
    if p["state"]:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
    return {
        "id": p["id"],
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": anchors,
    }


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(root, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(as_property(p)) + "\n")
    done = {
        f[:-3].upper()
        for f in os.listdir(os.path.join(root, "pbt", "props"))
        if f.startswith("c") and f.endswith(".py")
    }
    checks, missing = [], list(NOT_APPLICABLE)
    for p in PROPS:
        if p["id"] not in done:
            missing.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "{} {} --tier quick".format(PY, p["id"]),
                "thorough_cmd": "{} {} --tier thorough".format(PY, p["id"]),
                "evidence_file": "evidence/{}.json".format(p["id"]),
                "technique": "property-based testing (Hypothesis generators, explicit oracle, shrinking)",
                "level": "exploration",
                "level_note": p["note"],
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -m pbt.selftest",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo. Replay a violation with: /opt/venv/bin/python -B -m pbt.run <id> --replay <path>",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
